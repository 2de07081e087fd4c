use serde_json::{json, Map, Value};
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use thermal_parser::command::{Command, CommandType, DataType, DeviceCommand};
use thermal_parser::context::*;
use thermal_parser::graphics::*;
use thermal_parser::text::TextSpan;
use thermal_renderer::html_renderer::{HtmlRenderer, ReceiptHtml};
use thermal_renderer::image_renderer::{ImageRenderer, ReceiptImage};
use thermal_renderer::renderer::*;

pub fn bytes_of(v: &Value) -> Vec<u8> {
    match v {
        Value::Array(a) => a.iter().map(|x| x.as_u64().unwrap() as u8).collect(),
        Value::String(s) => (0..s.len() / 2)
            .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap())
            .collect(),
        _ => vec![],
    }
}

fn kind_str(k: &CommandType) -> &'static str {
    match k {
        CommandType::Control => "Control",
        CommandType::Text => "Text",
        CommandType::TextStyle => "TextStyle",
        CommandType::Graphics => "Graphics",
        CommandType::Context => "Context",
        CommandType::ContextControl => "ContextControl",
        CommandType::Subcommand => "Subcommand",
        CommandType::Unknown => "Unknown",
    }
}

fn data_kind_str(k: &DataType) -> &'static str {
    match k {
        DataType::Empty => "Empty",
        DataType::Single => "Single",
        DataType::Double => "Double",
        DataType::Triple => "Triple",
        DataType::Quad => "Quad",
        DataType::Octet => "Octet",
        DataType::Text => "Text",
        DataType::Custom => "Custom",
        DataType::Subcommand => "Subcommand",
        DataType::Unknown => "Unknown",
    }
}

pub fn cmd_json(c: &Command) -> Value {
    let (cb, db) = c.handler.get_command_bytes(c);
    json!({"n": *c.name, "k": kind_str(&c.kind), "dk": data_kind_str(&c.data_kind),
           "c": *c.commands, "d": c.data, "bc": cb, "bd": db})
}

/// The debug profile a job asks for: letters t(ext) i(mage) p(age) n(otes).
fn debug_of(job: &Value) -> Option<DebugProfile> {
    let d = job["debug"].as_str()?;
    Some(DebugProfile {
        text: d.contains('t'),
        image: d.contains('i'),
        page: d.contains('p'),
        info: d.contains('n'),
    })
}

/// kind "parse": the commands the parser makes of the bytes.
pub fn parse(job: &Value) -> Value {
    let b = bytes_of(&job["b"]);
    let cmds = thermal_parser::parse_esc_pos(&b);
    let list: Vec<Value> = cmds.iter().map(cmd_json).collect();
    let mut r = json!({ "cmds": list });
    if job["thermal"].as_bool() == Some(true) {
        let t = thermal_parser::thermal_file::cmds_to_thermal(&cmds);
        let back = thermal_parser::thermal_file::parse_str(&t);
        let cmds2 = thermal_parser::parse_esc_pos(&back);
        r["cmds2"] = Value::Array(cmds2.iter().map(cmd_json).collect());
        r["text"] = text_json(&t);
        r["back"] = json!(back);
    }
    r
}

/// kind "tf": the tokenizer and the byte reader of the .thermal text format.
pub fn thermal_text(job: &Value) -> Value {
    let cps: Vec<char> = job["t"]
        .as_array()
        .unwrap()
        .iter()
        .map(|x| char::from_u32(x.as_u64().unwrap() as u32).unwrap())
        .collect();
    let s: String = cps.into_iter().collect();
    let bytes = thermal_parser::thermal_file::parse_str(&s);
    json!({"bytes": bytes})
}

/// A string as its list of Unicode scalar values.
pub fn text_json(s: &str) -> Value {
    Value::Array(s.chars().map(|c| json!(c as u32)).collect())
}

fn justify(j: &TextJustify) -> &'static str {
    match j {
        TextJustify::Left => "L",
        TextJustify::Center => "C",
        TextJustify::Right => "R",
    }
}

fn font(f: &Font) -> &'static str {
    match f {
        Font::A => "A",
        Font::B => "B",
        Font::C => "C",
        Font::D => "D",
        Font::E => "E",
        Font::SpecialA => "SA",
        Font::SpecialB => "SB",
    }
}

/// 24-bit colour number; alpha is reported only when it is not 255 (as -1-alpha).
pub fn col(c: &RGBA) -> i64 {
    let rgb = ((c.r as i64) << 16) | ((c.g as i64) << 8) | c.b as i64;
    if c.a == 255 {
        rgb
    } else {
        -1 - c.a as i64
    }
}

pub fn px(c: &RGBA) -> i64 {
    let rgb = ((c.r as i64) << 16) | ((c.g as i64) << 8) | c.b as i64;
    match c.a {
        0 => 0,
        255 => 1 + rgb,
        a => -(a as i64),
    }
}

fn hri(h: &HumanReadableInterface) -> &'static str {
    match h {
        HumanReadableInterface::None => "N",
        HumanReadableInterface::Above => "A",
        HumanReadableInterface::Below => "B",
        HumanReadableInterface::Both => "AB",
    }
}

fn dir(d: &PrintDirection) -> &'static str {
    match d {
        PrintDirection::TopLeft2Right => "L2R",
        PrintDirection::BottomRight2Left => "R2L",
        PrintDirection::TopRight2Bottom => "T2B",
        PrintDirection::BottomLeft2Top => "B2T",
    }
}

fn area(a: &RenderArea) -> Value {
    json!([a.x, a.y, a.w, a.h])
}

pub fn gfx_json(g: &GraphicsCommand, pixels: bool) -> Value {
    match g {
        GraphicsCommand::Error(e) => json!({"g": "error", "m": e}),
        GraphicsCommand::Code2D(c) => json!({"g": "code2d", "w": c.width, "n": c.points.len(),
            "pts": c.points, "pw": c.point_width, "ph": c.point_height}),
        GraphicsCommand::Barcode(b) => json!({"g": "barcode", "pts": b.points,
            "pw": b.point_width, "ph": b.point_height, "hri": hri(&b.hri), "span": span_json(&b.text)}),
        GraphicsCommand::Image(i) => image_json(i, pixels),
        GraphicsCommand::Rectangle(_) => json!({"g": "rect"}),
        GraphicsCommand::Line(_) => json!({"g": "line"}),
    }
}

pub fn image_json(i: &Image, pixels: bool) -> Value {
    let flow = match i.flow {
        ImageFlow::Inline => "I",
        ImageFlow::Block => "B",
        ImageFlow::None => "N",
    };
    let mut v = json!({"g": "image", "x": i.x, "y": i.y, "w": i.w, "h": i.h, "flow": flow,
        "ud": i.upside_down, "n": i.pixels.len()});
    if pixels {
        v["px"] = Value::Array(i.pixels.iter().map(|p| json!(px(p))).collect());
    }
    v
}

pub fn span_json(s: &TextSpan) -> Value {
    let d = match &s.dimensions {
        Some(d) => json!([d.x, d.y, d.w, d.h]),
        None => json!([]),
    };
    json!({"t": text_json(&s.text), "f": font(&s.font), "cw": s.character_width, "ch": s.character_height,
        "bw": s.base_character_width, "bh": s.base_character_height, "b": s.bold, "i": s.italic,
        "u": s.underline, "s": s.strikethrough, "sw": s.stretch_width as i64, "sh": s.stretch_height as i64,
        "inv": s.inverted, "ud": s.upside_down, "j": justify(&s.justify),
        "bg": col(&s.background_color), "fg": col(&s.text_color), "d": d})
}

fn dev_json(d: &DeviceCommand) -> Value {
    match d {
        DeviceCommand::BeginPrint => json!(["BeginPrint"]),
        DeviceCommand::Initialize => json!(["Initialize"]),
        DeviceCommand::PartialCut => json!(["PartialCut"]),
        DeviceCommand::FullCut => json!(["FullCut"]),
        DeviceCommand::Feed(n) => json!(["Feed", n]),
        DeviceCommand::FeedLine(n) => json!(["FeedLine", n]),
        DeviceCommand::Cancel => json!(["Cancel"]),
        DeviceCommand::Pulse => json!(["Pulse"]),
        DeviceCommand::EndPrint => json!(["EndPrint"]),
        DeviceCommand::BeginPageMode => json!(["BeginPageMode"]),
        DeviceCommand::EndPageMode => json!(["EndPageMode"]),
        DeviceCommand::PrintPageMode => json!(["PrintPageMode"]),
        DeviceCommand::ChangePageModeDirection => json!(["ChangePageModeDirection"]),
        DeviceCommand::ChangePageArea => json!(["ChangePageArea"]),
        DeviceCommand::Justify(j) => json!(["Justify", justify(j)]),
        DeviceCommand::SetTextWidth(n) => json!(["SetTextWidth", n]),
        DeviceCommand::SetTextHeight(n) => json!(["SetTextHeight", n]),
        DeviceCommand::ChangeTabs(a, b) => json!(["ChangeTabs", a, b]),
        DeviceCommand::Transmit(b) => json!(["Transmit", b]),
        DeviceCommand::MoveX(n) => json!(["MoveX", n]),
        DeviceCommand::ClearBufferGraphics => json!(["ClearBufferGraphics"]),
    }
}

pub fn snap(c: &Context, groups: &str) -> Value {
    let mut m = Map::new();
    if groups.contains('g') {
        let g = &c.graphics;
        m.insert("g".into(), json!({"x": g.render_area.x, "y": g.render_area.y, "w": g.render_area.w,
            "h": g.render_area.h, "vm": g.v_motion_unit, "hm": g.h_motion_unit, "dpi": g.dots_per_inch,
            "pa": area(&g.paper_area)}));
    }
    if groups.contains('t') {
        let t = &c.text;
        let u = match t.underline { TextUnderline::Off => 0, TextUnderline::On => 1, TextUnderline::Double => 2 };
        let s = match t.strikethrough { TextStrikethrough::Off => 0, TextStrikethrough::On => 1, TextStrikethrough::Double => 2 };
        m.insert("t".into(), json!({"cw": t.character_width, "ch": t.character_height, "cs": t.character_set,
            "ct": t.code_table, "j": justify(&t.justify), "f": font(&t.font), "b": t.bold, "i": t.italic,
            "u": u, "s": s, "inv": t.invert, "wm": t.width_mult, "hm": t.height_mult, "ud": t.upside_down,
            "ls": t.line_spacing, "fg": col(&t.color), "bg": col(&t.background_color), "sm": t.smoothing,
            "sh": t.shadow, "shc": col(&t.shadow_color), "tabs": t.tabs}));
    }
    if groups.contains('b') {
        let b = &c.barcode;
        m.insert("b".into(), json!({"hri": hri(&b.human_readable), "w": b.width, "h": b.height, "f": font(&b.font)}));
    }
    if groups.contains('q') {
        let q = &c.code2d;
        let model = match q.qr_model { QrModel::Model1 => 1, QrModel::Model2 => 2, QrModel::Micro => 3 };
        let ec = match q.qr_error_correction { QrErrorCorrection::L => "L", QrErrorCorrection::M => "M",
            QrErrorCorrection::Q => "Q", QrErrorCorrection::H => "H" };
        let sym = match &q.symbol_storage {
            Some(s) => json!([s.width, s.points.len(), s.point_width, s.point_height]),
            None => json!([]),
        };
        m.insert("q".into(), json!({"sym": sym, "model": model, "ec": ec, "size": q.qr_size,
            "pdf": [q.pdf417_columns, q.pdf417_rows, q.pdf417_width, q.pdf417_row_height, q.pdf417_err_correction],
            "pdft": q.pdf417_is_truncated, "maxi": q.maxicode_mode,
            "gs1w": q.gs1_databar_width, "gs1m": q.gs1_databar_max_width,
            "compw": q.composite_width, "compm": q.composite_max_width, "compf": font(&q.composite_font),
            "pts": match &q.symbol_storage { Some(s) => json!(s.points), None => json!([]) },
            "aztec": [q.aztec_mode, q.aztec_layers, q.aztec_size, q.aztec_error_correction],
            "dm": [q.datamatrix_type, q.datamatrix_columns, q.datamatrix_rows, q.datamatrix_width]}));
    }
    if groups.contains('p') {
        let p = &c.page_mode;
        m.insert("p".into(), json!({"en": p.enabled, "la": area(&p.logical_area), "ra": area(&p.render_area),
            "pa": area(&p.page_area), "d": dir(&p.direction), "pd": dir(&p.previous_direction)}));
    }
    if groups.contains('s') {
        let mut st: Vec<(String, u8, u8, Value)> = c.graphics.stored_graphics.iter().map(|(k, g)| {
            let s = match k.storage { ImageRefStorage::Disc => "D", ImageRefStorage::Ram => "R" };
            (s.to_string(), k.kc1, k.kc2, gfx_json(g, true))
        }).collect();
        st.sort_by(|a, b| (&a.0, a.1, a.2).cmp(&(&b.0, b.1, b.2)));
        let st: Vec<Value> = st.into_iter().map(|(s, a, b, g)| json!({"s": s, "k": [a, b], "g": g})).collect();
        let bf: Vec<Value> = c.graphics.buffer_graphics.iter().map(|g| gfx_json(g, true)).collect();
        m.insert("s".into(), json!({"st": st, "bf": bf}));
    }
    Value::Object(m)
}

/// Records every callback the Renderer makes, then delegates to the inner renderer.
///
/// `keep` says what is recorded: the kinds of events ("kinds"), the device commands
/// ("devs"), the fields of each kind ("f": {kind: [..]}), of the spans of text ("span")
/// and of the context groups ("ctx": {group: [..]}). What is missing is recorded whole.
/// With "after" nothing is recorded before the first device command of that name.
pub struct Rec<O> {
    keep: Value,
    last_pts: RefCell<Value>,
    on: Cell<bool>,
    inner: Option<Rc<RefCell<dyn OutputRenderer<O>>>>,
    ev: Rc<RefCell<Vec<Value>>>,
    groups: String,
    pixels: bool,
    make: fn() -> O,
}

impl<O> Rec<O> {
    fn push(&self, c: &Context, mut v: Value) {
        let has = |list: &Value, x: &Value| list.as_array().map_or(true, |l| l.contains(x));
        if self.keep["after"].is_string() && !self.on.get() {
            if v["e"] == "dev" && v["d"][0] == self.keep["after"] {
                self.on.set(true);
            } else {
                return;
            }
        }
        if !has(&self.keep["kinds"], &v["e"]) {
            return;
        }
        if v["e"] == "dev" && !has(&self.keep["devs"], &v["d"][0]) {
            return;
        }
        let kind = v["e"].as_str().unwrap().to_string();
        let fields = &self.keep["f"][&kind];
        if fields.is_array() {
            v.as_object_mut().unwrap().retain(|k, _| k == "e" || has(fields, &json!(k)));
        }
        if self.keep["span"].is_array() {
            if let Some(spans) = v.get_mut("s").and_then(|s| s.as_array_mut()) {
                for s in spans {
                    s.as_object_mut().unwrap().retain(|k, _| has(&self.keep["span"], &json!(k)));
                }
            }
        }
        if !self.groups.is_empty() {
            let mut c = snap(c, &self.groups);
            //the modules of the symbol are repeated only when they change ([2] = as before)
            if self.groups.contains('q') {
                let pts = c["q"]["pts"].clone();
                let mut last = self.last_pts.borrow_mut();
                if *last == pts && pts != json!([]) {
                    c["q"]["pts"] = json!([2]);
                } else {
                    *last = pts;
                }
            }
            for (g, f) in c.as_object_mut().unwrap().iter_mut() {
                let fields = &self.keep["ctx"][g];
                if fields.is_array() {
                    f.as_object_mut().unwrap().retain(|k, _| has(fields, &json!(k)));
                }
            }
            v["c"] = c;
        }
        self.ev.borrow_mut().push(v);
    }
}

impl<O> OutputRenderer<O> for Rec<O> {
    fn set_debug_profile(&mut self, profile: DebugProfile) {
        if let Some(i) = &self.inner { i.borrow_mut().set_debug_profile(profile) }
    }
    fn begin_render(&mut self, c: &mut Context) {
        self.push(c, json!({"e": "begin"}));
        if let Some(i) = &self.inner { i.borrow_mut().begin_render(c) }
    }
    fn page_begin(&mut self, c: &mut Context) {
        self.push(c, json!({"e": "page_begin"}));
        if let Some(i) = &self.inner { i.borrow_mut().page_begin(c) }
    }
    fn page_area_changed(&mut self, c: &mut Context, r: Rotation, w: u32, h: u32) {
        let deg = match r { Rotation::R0 => 0, Rotation::R90 => 90, Rotation::R180 => 180, Rotation::R270 => 270 };
        self.push(c, json!({"e": "area", "rot": deg, "w": w, "h": h}));
        if let Some(i) = &self.inner { i.borrow_mut().page_area_changed(c, r, w, h) }
    }
    fn page_end(&mut self, c: &mut Context) {
        self.push(c, json!({"e": "page_end"}));
        if let Some(i) = &self.inner { i.borrow_mut().page_end(c) }
    }
    fn render_page(&mut self, c: &mut Context) {
        self.push(c, json!({"e": "render_page"}));
        if let Some(i) = &self.inner { i.borrow_mut().render_page(c) }
    }
    fn render_graphics(&mut self, c: &mut Context, g: &Vec<VectorGraphic>) {
        let rects: Vec<Value> = g.iter().map(|v| match v {
            VectorGraphic::Rectangle(r) => json!([r.x, r.y, r.w, r.h]),
        }).collect();
        self.push(c, json!({"e": "gfx", "r": rects}));
        if let Some(i) = &self.inner { i.borrow_mut().render_graphics(c, g) }
    }
    fn render_image(&mut self, c: &mut Context, im: &Image) {
        let mut v = image_json(im, self.pixels);
        v["e"] = json!("image");
        self.push(c, v);
        if let Some(i) = &self.inner { i.borrow_mut().render_image(c, im) }
    }
    fn render_text(&mut self, c: &mut Context, spans: &Vec<TextSpan>, x_offset: u32, max_height: u32, j: TextJustify) {
        let s: Vec<Value> = spans.iter().map(span_json).collect();
        self.push(c, json!({"e": "text", "s": s, "off": x_offset, "mh": max_height, "j": justify(&j)}));
        if let Some(i) = &self.inner { i.borrow_mut().render_text(c, spans, x_offset, max_height, j) }
    }
    fn device_command(&mut self, c: &mut Context, d: &DeviceCommand) {
        self.push(c, json!({"e": "dev", "d": dev_json(d)}));
        if let Some(i) = &self.inner { i.borrow_mut().device_command(c, d) }
    }
    fn get_render_errors(&mut self) -> Vec<String> {
        match &self.inner { Some(i) => i.borrow_mut().get_render_errors(), None => vec![] }
    }
    fn end_render(&mut self, c: &mut Context) -> O {
        self.push(c, json!({"e": "end"}));
        match &self.inner { Some(i) => i.borrow_mut().end_render(c), None => (self.make)() }
    }
}

fn errors_json(e: &Vec<RenderError>) -> Value {
    Value::Array(
        e.iter()
            .map(|x| {
                let s = format!("{:?}", x);
                let k = if s.contains("[UnknownCommand]") { "U" } else if s.contains("[GraphicsError]") { "G" } else { "C" };
                let m = s.splitn(2, "] ").nth(1).unwrap_or("").to_string();
                //what follows the arrow is data of the stream
                match m.find(" --> ") {
                    Some(i) => json!([k, m[..i + 5], text_json(&m[i + 5..])]),
                    None => json!([k, m, []]),
                }
            })
            .collect(),
    )
}

/// kind "rec": the events of the renderer without any output format.
pub fn record(job: &Value) -> Value {
    let b = bytes_of(&job["b"]);
    let ev = Rc::new(RefCell::new(vec![]));
    let rec: Rec<()> = Rec {
        keep: job["keep"].clone(),
        last_pts: RefCell::new(Value::Null),
            on: Cell::new(false),
        inner: None,
        ev: ev.clone(),
        groups: job["snap"].as_str().unwrap_or("").to_string(),
        pixels: job["px"].as_bool().unwrap_or(false),
        make: || (),
    };
    let mut boxed: Box<dyn OutputRenderer<()>> = Box::new(rec);
    let mut renderer = Renderer::new(&mut boxed, debug_of(job).unwrap_or_default());
    let out = renderer.render(&b);
    let evs = ev.borrow().clone();
    json!({"ev": evs, "nout": out.output.len(), "err": errors_json(&out.errors)})
}

thread_local! {
    static IMG: RefCell<Option<Rc<RefCell<ImageRenderer>>>> = RefCell::new(None);
    static HTML: RefCell<Option<Rc<RefCell<HtmlRenderer>>>> = RefCell::new(None);
}

pub fn drop_renderers() {
    IMG.with(|i| *i.borrow_mut() = None);
    HTML.with(|i| *i.borrow_mut() = None);
}

fn img_renderer() -> Rc<RefCell<ImageRenderer>> {
    IMG.with(|i| {
        let mut o = i.borrow_mut();
        if o.is_none() {
            *o = Some(Rc::new(RefCell::new(ImageRenderer::new())));
        }
        let r = o.as_ref().unwrap().clone();
        {
            let mut m = r.borrow_mut();
            m.paper_image.errors.clear();
            m.page_image.errors.clear();
            m.paper_image.set_width(0);
            m.page_image.set_width(0);
            m.page_image.auto_grow = true;
            m.paper_image.auto_grow = true;
        }
        r
    })
}

/// The image without loss, as a grid of cells of constant colour between the
/// coordinates where any pixel changes from its left / upper neighbour.
fn grid(w: u32, h: u32, b: &[u8], max_cells: usize) -> Value {
    let (w, h) = (w as usize, h as usize);
    if b.len() != w * h * 3 {
        return json!({"w": w, "h": h, "badlen": b.len()});
    }
    let at = |x: usize, y: usize| -> i64 {
        let i = (y * w + x) * 3;
        ((b[i] as i64) << 16) | ((b[i + 1] as i64) << 8) | b[i + 2] as i64
    };
    let mut xs = vec![0usize];
    for x in 1..w {
        if (0..h).any(|y| at(x, y) != at(x - 1, y)) {
            xs.push(x);
        }
    }
    let mut ys = vec![0usize];
    for y in 1..h {
        if (0..w).any(|x| at(x, y) != at(x, y - 1)) {
            ys.push(y);
        }
    }
    if w == 0 || h == 0 {
        return json!({"w": w, "h": h, "xs": [], "ys": [], "c": []});
    }
    if xs.len() * ys.len() > max_cells {
        return json!({"w": w, "h": h, "toobig": xs.len() * ys.len()});
    }
    let c: Vec<Value> = ys.iter().map(|y| Value::Array(xs.iter().map(|x| json!(at(*x, *y))).collect())).collect();
    json!({"w": w, "h": h, "xs": xs, "ys": ys, "c": c})
}

fn hash(b: &[u8]) -> String {
    let mut h: u64 = 0xcbf29ce484222325;
    for x in b {
        h ^= *x as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    format!("{:016x}", h)
}

/// Bounding box [x0,y0,x1,y1) of pixels that are not `bg`, per given horizontal bands.
fn ink(w: u32, h: u32, b: &[u8], x0: u32, y0: u32, x1: u32, y1: u32) -> Value {
    let (w, h) = (w as usize, h as usize);
    let (mut ax, mut ay, mut bx, mut by) = (usize::MAX, usize::MAX, 0usize, 0usize);
    let mut n = 0;
    for y in (y0 as usize)..(y1 as usize).min(h) {
        for x in (x0 as usize)..(x1 as usize).min(w) {
            let i = (y * w + x) * 3;
            if b[i] != 255 || b[i + 1] != 255 || b[i + 2] != 255 {
                ax = ax.min(x); ay = ay.min(y); bx = bx.max(x + 1); by = by.max(y + 1);
                n += 1;
            }
        }
    }
    if n == 0 { json!([]) } else { json!([ax, ay, bx, by, n]) }
}

/// kind "img": the events, and the receipt image(s) the image renderer produces.
pub fn image(job: &Value) -> Value {
    let b = bytes_of(&job["b"]);
    let ev = Rc::new(RefCell::new(vec![]));
    let max_cells = job["cells"].as_u64().unwrap_or(6000) as usize;
    let direct = job["direct"].as_bool().unwrap_or(false);
    let (outs, errs): (Vec<ReceiptImage>, Vec<RenderError>) = if direct {
        let o = ImageRenderer::render(&b, debug_of(job));
        (o.output, o.errors)
    } else {
        let inner = img_renderer();
        let rec: Rec<ReceiptImage> = Rec {
            keep: job["keep"].clone(),
            last_pts: RefCell::new(Value::Null),
            on: Cell::new(false),
            inner: Some(inner),
            ev: ev.clone(),
            groups: job["snap"].as_str().unwrap_or("").to_string(),
            pixels: job["px"].as_bool().unwrap_or(false),
            make: || ReceiptImage { bytes: vec![], width: 0, height: 0 },
        };
        let mut boxed: Box<dyn OutputRenderer<ReceiptImage>> = Box::new(rec);
        let mut renderer = Renderer::new(&mut boxed, debug_of(job).unwrap_or_default());
        let o = renderer.render(&b);
        (o.output, o.errors)
    };
    let evs = ev.borrow().clone();
    let mut imgs = vec![];
    for o in &outs {
        let mut v = if job["grid"].as_bool().unwrap_or(true) { grid(o.width, o.height, &o.bytes, max_cells) }
            else { json!({"w": o.width, "h": o.height}) };
        v["len"] = json!(o.bytes.len());
        v["hash"] = json!(hash(&o.bytes));
        if let Some(regions) = job["ink"].as_array() {
            v["ink"] = Value::Array(regions.iter().map(|r| {
                let g = |i: usize| r[i].as_u64().unwrap() as u32;
                ink(o.width, o.height, &o.bytes, g(0), g(1), g(2), g(3))
            }).collect());
        }
        imgs.push(v);
    }
    json!({"ev": evs, "imgs": imgs, "nout": outs.len(), "err": errors_json(&errs)})
}

/// kind "html": the events, and the html the html renderer produces, cut at its
/// own row markup.
pub fn html(job: &Value) -> Value {
    let b = bytes_of(&job["b"]);
    let ev = Rc::new(RefCell::new(vec![]));
    let inner = HTML.with(|i| {
        let mut o = i.borrow_mut();
        if o.is_none() {
            *o = Some(Rc::new(RefCell::new(HtmlRenderer::new())));
        }
        let r = o.as_ref().unwrap().clone();
        {
            let mut m = r.borrow_mut();
            m.page_image.errors.clear();
            m.page_image.set_width(0);
            m.page_image.auto_grow = true;
            m.content.clear();
            m.last_y = 0;
        }
        r
    });
    let direct = job["direct"].as_bool().unwrap_or(false);
    let (outs, errs): (Vec<ReceiptHtml>, Vec<RenderError>) = if direct {
        let o = HtmlRenderer::render(&b, debug_of(job));
        (o.output, o.errors)
    } else {
        let rec: Rec<ReceiptHtml> = Rec {
            keep: job["keep"].clone(),
            last_pts: RefCell::new(Value::Null),
            on: Cell::new(false),
            inner: Some(inner),
            ev: ev.clone(),
            groups: job["snap"].as_str().unwrap_or("").to_string(),
            pixels: job["px"].as_bool().unwrap_or(false),
            make: || ReceiptHtml { content: String::new() },
        };
        let mut boxed: Box<dyn OutputRenderer<ReceiptHtml>> = Box::new(rec);
        let mut renderer = Renderer::new(&mut boxed, debug_of(job).unwrap_or_default());
        let o = renderer.render(&b);
        (o.output, o.errors)
    };
    let docs: Vec<Value> = outs.iter().map(|o| json!(o.content)).collect();
    let evs = ev.borrow().clone();
    json!({"ev": evs, "docs": docs, "nout": outs.len(), "err": errors_json(&errs)})
}
