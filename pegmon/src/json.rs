//! Just enough JSON writing.
pub fn s(x: &str) -> String {
    let mut o = String::from("\"");
    for c in x.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub struct Obj(Vec<String>);
impl Obj {
    pub fn new() -> Obj {
        Obj(vec![])
    }
    pub fn str(mut self, k: &str, v: &str) -> Obj {
        self.0.push(format!("{}:{}", s(k), s(v)));
        self
    }
    pub fn num(mut self, k: &str, v: u64) -> Obj {
        self.0.push(format!("{}:{}", s(k), v));
        self
    }
    pub fn raw(mut self, k: &str, v: String) -> Obj {
        self.0.push(format!("{}:{}", s(k), v));
        self
    }
    pub fn end(self) -> String {
        format!("{{{}}}", self.0.join(","))
    }
}
