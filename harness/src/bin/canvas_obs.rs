//! The observer of the canvas, apart from the other one because it needs more of the API.
use serde_json::{json, Value};
use std::cell::RefCell;
use thermal_parser::context::PrintDirection;
use thermal_parser::graphics::*;
use thermal_renderer::image_renderer::thermal_image::ThermalImage;

thread_local! {
    static CANVAS: RefCell<Option<ThermalImage>> = RefCell::new(None);
}

fn rgba(v: &Value) -> RGBA {
    // colour number, or -1 = fully transparent
    let n = v.as_i64().unwrap();
    if n < 0 {
        return RGBA { r: 0, g: 0, b: 0, a: 0 };
    }
    RGBA { r: (n >> 16) as u8, g: (n >> 8) as u8, b: n as u8, a: 255 }
}

fn dot(c: &RGBA) -> i64 {
    ((c.r as i64) << 16) | ((c.g as i64) << 8) | c.b as i64
}

fn main() {
    thermal_obs::main_loop(run, || CANVAS.with(|c| *c.borrow_mut() = None))
}

/// kind "canvas": a sequence of drawing operations on one ThermalImage, with the whole
/// pixel content after each.
pub fn run(job: &Value) -> Value {
    let mut img = CANVAS.with(|c| c.borrow_mut().take()).unwrap_or_else(|| ThermalImage::new(0));
    img.errors.clear();
    img.auto_grow = job["grow"].as_bool().unwrap();
    img.set_width(job["w"].as_u64().unwrap() as u32);
    img.expand_to_height(job["h"].as_u64().unwrap() as u32);
    let mut steps = vec![];
    for op in job["ops"].as_array().unwrap() {
        let u = |i: usize| op[i].as_u64().unwrap() as u32;
        match op[0].as_str().unwrap() {
            "put" => {
                let pix: Vec<RGBA> = op[5].as_array().unwrap().iter().map(rgba).collect();
                img.put_pixels(u(1), u(2), u(3), u(4), pix, false, op[6].as_bool().unwrap());
            }
            "rect" => {
                img.put_rect(&Rectangle { x: u(1), y: u(2), w: u(3), h: u(4) }, &rgba(&op[5]));
            }
            "r90" => img.rotate_90(),
            "r180" => img.rotate_180(),
            "r270" => img.rotate_270(),
            "ew" => img.expand_to_width(u(1)),
            "eh" => img.expand_to_height(u(1)),
            "flip" => img.flip_pixels(u(1), u(2), u(3), u(4)),
            "page" => {
                let d = [PrintDirection::TopLeft2Right, PrintDirection::BottomLeft2Top,
                    PrintDirection::BottomRight2Left, PrintDirection::TopRight2Bottom];
                img.expand_page(u(1), u(2), &d[u(3) as usize])
            }
            "sw" => img.set_width(u(1)),
            o => panic!("unknown canvas op {}", o),
        }
        let (w, h, p) = img.copy();
        steps.push(json!({"w": w, "h": h, "n": p.len(), "p": p.iter().map(dot).collect::<Vec<_>>(),
            "ne": img.errors.len()}));
    }
    CANVAS.with(|c| *c.borrow_mut() = Some(img));
    json!({ "steps": steps })
}
