//! Observer for zachzurn/thermal.
//!
//! `thermal_obs OUT < JOBS` reads one JSON job per line, runs it against the real
//! crates and appends one JSON observation per line to OUT (flushed per job, so that
//! an abort loses only the job that caused it). A panic is data: {"panic": "..."}.
//! A job that does not finish in its time ends the process with exit code 97 after
//! writing {"hang": true}.

use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

static STARTED: AtomicU64 = AtomicU64::new(0); // 0 = idle, else unix millis
static CURRENT: Mutex<Option<String>> = Mutex::new(None);

fn now_ms() -> u64 {
    std::time::SystemTime::now()
        .duration_since(std::time::UNIX_EPOCH)
        .unwrap()
        .as_millis() as u64
}

/// Runs every job of standard input; `failed` is called after a panic.
pub fn main_loop(run: fn(&Value) -> Value, failed: fn()) {
    let out_path = std::env::args().nth(1).expect("usage: thermal_obs OUT < JOBS");
    let limit_ms: u64 = std::env::var("OBS_LIMIT_MS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(20_000);
    let out = Arc::new(Mutex::new(
        std::fs::OpenOptions::new()
            .create(true)
            .append(true)
            .open(&out_path)
            .expect("cannot open output"),
    ));

    let panic_msg: Arc<Mutex<String>> = Arc::new(Mutex::new(String::new()));
    {
        let pm = panic_msg.clone();
        std::panic::set_hook(Box::new(move |info| {
            let s = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "?".to_string()
            };
            let loc = info
                .location()
                .map(|l| format!("{}:{}", l.file().rsplit('/').next().unwrap_or(""), l.line()))
                .unwrap_or_default();
            *pm.lock().unwrap() = format!("{} @ {}", s, loc);
        }));
    }

    {
        let out = out.clone();
        std::thread::spawn(move || loop {
            std::thread::sleep(std::time::Duration::from_millis(200));
            let s = STARTED.load(Ordering::SeqCst);
            if s != 0 && now_ms().saturating_sub(s) > limit_ms {
                let id = CURRENT.lock().unwrap().clone().unwrap_or_default();
                let mut f = out.lock().unwrap();
                let _ = writeln!(f, "{{\"id\":{},\"hang\":true}}", id);
                let _ = f.flush();
                std::process::exit(97);
            }
        });
    }

    let stdin = std::io::stdin();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        if line.trim().is_empty() {
            continue;
        }
        let job: Value = serde_json::from_str(&line).expect("bad job");
        let id = job["id"].clone();
        *CURRENT.lock().unwrap() = Some(id.to_string());
        STARTED.store(now_ms(), Ordering::SeqCst);
        let res = catch_unwind(AssertUnwindSafe(|| run(&job)));
        STARTED.store(0, Ordering::SeqCst);
        let mut v = match res {
            Ok(v) => v,
            Err(_) => {
                failed();
                json!({ "panic": panic_msg.lock().unwrap().clone() })
            }
        };
        v["id"] = id;
        let mut f = out.lock().unwrap();
        writeln!(f, "{}", v).unwrap();
        f.flush().unwrap();
    }
}

