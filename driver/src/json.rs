//! Minimal JSON writing helpers.

pub fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub struct Obj(String);

impl Obj {
    pub fn new() -> Obj {
        Obj("{".into())
    }
    fn key(&mut self, k: &str) {
        if self.0.len() > 1 {
            self.0.push(',');
        }
        self.0.push_str(&esc(k));
        self.0.push(':');
    }
    pub fn s(&mut self, k: &str, v: &str) {
        self.key(k);
        self.0.push_str(&esc(v));
    }
    pub fn n(&mut self, k: &str, v: usize) {
        self.key(k);
        self.0.push_str(&v.to_string());
    }
    pub fn b(&mut self, k: &str, v: bool) {
        self.key(k);
        self.0.push_str(if v { "true" } else { "false" });
    }
    pub fn r(&mut self, k: &str, v: &str) {
        self.key(k);
        self.0.push_str(v);
    }
    pub fn end(mut self) -> String {
        self.0.push('}');
        self.0
    }
}

pub struct Arr(String);

impl Arr {
    pub fn new() -> Arr {
        Arr("[".into())
    }
    fn sep(&mut self) {
        if self.0.len() > 1 {
            self.0.push(',');
        }
    }
    pub fn s(&mut self, v: &str) {
        self.sep();
        self.0.push_str(&esc(v));
    }
    pub fn n(&mut self, v: usize) {
        self.sep();
        self.0.push_str(&v.to_string());
    }
    pub fn r(&mut self, v: &str) {
        self.sep();
        self.0.push_str(v);
    }
    pub fn end(mut self) -> String {
        self.0.push(']');
        self.0
    }
}
