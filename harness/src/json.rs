//! Minimal JSON value, writer and reader (no external dependency).
use std::collections::BTreeMap;
#[derive(Clone, Debug, PartialEq)]
pub enum J {
    B(bool),
    I(i64),
    S(String),
    A(Vec<J>),
    O(BTreeMap<String, J>),
}
impl J {
    pub fn s(x: impl Into<String>) -> J {
        J::S(x.into())
    }
    pub fn bytes(b: &[u8]) -> J {
        J::A(b.iter().map(|x| J::I(*x as i64)).collect())
    }
    pub fn obj<const N: usize>(kv: [(&str, J); N]) -> J {
        J::O(kv.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
    }
    pub fn put(&mut self, k: &str, v: J) {
        if let J::O(m) = self {
            m.insert(k.to_string(), v);
        }
    }
    pub fn get(&self, k: &str) -> &J {
        match self {
            J::O(m) => m.get(k).unwrap_or_else(|| panic!("missing key {k}")),
            _ => panic!("not an object (key {k})"),
        }
    }
    pub fn opt(&self, k: &str) -> Option<&J> {
        match self {
            J::O(m) => m.get(k),
            _ => None,
        }
    }
    pub fn str(&self) -> &str {
        match self {
            J::S(s) => s,
            _ => panic!("not a string: {self:?}"),
        }
    }
    pub fn int(&self) -> i64 {
        match self {
            J::I(i) => *i,
            _ => panic!("not an int: {self:?}"),
        }
    }
    pub fn bool(&self) -> bool {
        match self {
            J::B(i) => *i,
            _ => panic!("not a bool: {self:?}"),
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::A(a) => a,
            _ => panic!("not an array: {self:?}"),
        }
    }
    pub fn as_bytes(&self) -> Vec<u8> {
        self.arr().iter().map(|x| x.int() as u8).collect()
    }
    pub fn write(&self, o: &mut String) {
        use std::fmt::Write;
        match self {
            J::B(b) => write!(o, "{b}").unwrap(),
            J::I(i) => write!(o, "{i}").unwrap(),
            J::S(s) => {
                o.push('"');
                for c in s.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"),
                        c if (c as u32) < 32 => write!(o, "\\u{:04x}", c as u32).unwrap(),
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(a) => {
                o.push('[');
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.write(o);
                }
                o.push(']');
            }
            J::O(m) => {
                o.push('{');
                for (i, (k, v)) in m.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    J::S(k.clone()).write(o);
                    o.push(':');
                    v.write(o);
                }
                o.push('}');
            }
        }
    }
}
pub fn read_lines(path: &str) -> Vec<J> {
    let s = std::fs::read_to_string(path).unwrap_or_else(|e| panic!("read {path}: {e}"));
    s.lines()
        .filter(|l| !l.trim().is_empty())
        .map(|l| {
            let mut p = P { b: l.as_bytes(), i: 0 };
            p.val()
        })
        .collect()
}
struct P<'a> {
    b: &'a [u8],
    i: usize,
}
impl P<'_> {
    fn ws(&mut self) {
        while self.i < self.b.len() && self.b[self.i].is_ascii_whitespace() {
            self.i += 1;
        }
    }
    fn val(&mut self) -> J {
        self.ws();
        match self.b[self.i] {
            b'{' => {
                self.i += 1;
                let mut m = BTreeMap::new();
                loop {
                    self.ws();
                    if self.b[self.i] == b'}' {
                        self.i += 1;
                        return J::O(m);
                    }
                    if self.b[self.i] == b',' {
                        self.i += 1;
                        continue;
                    }
                    let J::S(k) = self.val() else { panic!("key") };
                    self.ws();
                    assert_eq!(self.b[self.i], b':');
                    self.i += 1;
                    let v = self.val();
                    m.insert(k, v);
                }
            }
            b'[' => {
                self.i += 1;
                let mut a = Vec::new();
                loop {
                    self.ws();
                    if self.b[self.i] == b']' {
                        self.i += 1;
                        return J::A(a);
                    }
                    if self.b[self.i] == b',' {
                        self.i += 1;
                        continue;
                    }
                    a.push(self.val());
                }
            }
            b'"' => {
                self.i += 1;
                let mut s = Vec::new();
                while self.b[self.i] != b'"' {
                    if self.b[self.i] == b'\\' {
                        self.i += 1;
                        s.push(match self.b[self.i] {
                            b'n' => b'\n',
                            b't' => b'\t',
                            c => c,
                        });
                    } else {
                        s.push(self.b[self.i]);
                    }
                    self.i += 1;
                }
                self.i += 1;
                J::S(String::from_utf8(s).unwrap())
            }
            b't' => {
                self.i += 4;
                J::B(true)
            }
            b'f' => {
                self.i += 5;
                J::B(false)
            }
            _ => {
                let st = self.i;
                while self.i < self.b.len() && (self.b[self.i] == b'-' || self.b[self.i].is_ascii_digit()) {
                    self.i += 1;
                }
                J::I(std::str::from_utf8(&self.b[st..self.i]).unwrap().parse().unwrap())
            }
        }
    }
}
