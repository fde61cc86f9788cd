#[derive(Clone, Debug)]
pub enum J {
    S(String),
    N(i64),
    F(f64),
    B(bool),
    A(Vec<J>),
    O(Vec<(String, J)>),
}
impl J {
    pub fn s(v: impl Into<String>) -> J {
        J::S(v.into())
    }
    pub fn o(v: Vec<(&str, J)>) -> J {
        J::O(v.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
    }
    pub fn render(&self, ind: usize) -> String {
        let pad = " ".repeat(ind + 1);
        match self {
            J::S(s) => quote(s),
            J::N(n) => n.to_string(),
            J::F(f) => format!("{f:.3}"),
            J::B(b) => b.to_string(),
            J::A(v) if v.is_empty() => "[]".into(),
            J::A(v) => {
                let i: Vec<_> = v.iter().map(|x| format!("{pad}{}", x.render(ind + 1))).collect();
                format!("[\n{}\n{}]", i.join(",\n"), " ".repeat(ind))
            }
            J::O(v) => {
                let i: Vec<_> = v.iter().map(|(k, x)| format!("{pad}{}: {}", quote(k), x.render(ind + 1))).collect();
                format!("{{\n{}\n{}}}", i.join(",\n"), " ".repeat(ind))
            }
        }
    }
}
pub fn quote(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
