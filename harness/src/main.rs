mod obs;

use serde_json::Value;

fn main() {
    thermal_obs::main_loop(run, obs::drop_renderers)
}

fn run(job: &Value) -> Value {
    match job["kind"].as_str().unwrap() {
        "parse" => obs::parse(job),
        "rec" => obs::record(job),
        "img" => obs::image(job),
        "html" => obs::html(job),
        "tf" => obs::thermal_text(job),
        k => panic!("unknown job kind {}", k),
    }
}
