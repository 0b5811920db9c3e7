//! Just enough JSON for replay and evidence files.
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Int(i128),
    Num(f64),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

impl From<&str> for J { fn from(s: &str) -> J { J::Str(s.into()) } }
impl From<String> for J { fn from(s: String) -> J { J::Str(s) } }
impl From<u64> for J { fn from(v: u64) -> J { J::Int(v as i128) } }
impl From<i64> for J { fn from(v: i64) -> J { J::Int(v as i128) } }
impl From<u32> for J { fn from(v: u32) -> J { J::Int(v as i128) } }
impl From<usize> for J { fn from(v: usize) -> J { J::Int(v as i128) } }
impl From<bool> for J { fn from(v: bool) -> J { J::Bool(v) } }
impl From<f64> for J { fn from(v: f64) -> J { J::Num(v) } }
impl<T: Into<J>> From<Vec<T>> for J { fn from(v: Vec<T>) -> J { J::Arr(v.into_iter().map(Into::into).collect()) } }

pub fn obj(v: Vec<(&str, J)>) -> J {
    J::Obj(v.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
}

fn esc(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
}

impl J {
    pub fn get(&self, k: &str) -> &J {
        if let J::Obj(v) = self {
            for (n, j) in v {
                if n == k { return j; }
            }
        }
        &J::Null
    }
    pub fn str(&self) -> &str { if let J::Str(s) = self { s } else { "" } }
    pub fn int(&self) -> i128 { if let J::Int(i) = self { *i } else { 0 } }
    pub fn u(&self) -> u64 { self.int() as u64 }
    pub fn i(&self) -> i64 { self.int() as i64 }
    pub fn arr(&self) -> &[J] { if let J::Arr(a) = self { a } else { &[] } }
    pub fn is_null(&self) -> bool { matches!(self, J::Null) }
    pub fn dump(&self) -> String { let mut s = String::new(); self.w(&mut s, 0, 3); s.push('\n'); s }
    fn w(&self, o: &mut String, ind: usize, depth: usize) {
        match self {
            J::Null => o.push_str("null"),
            J::Bool(b) => write!(o, "{}", b).unwrap(),
            J::Int(i) => write!(o, "{}", i).unwrap(),
            J::Num(n) => write!(o, "{:.3}", n).unwrap(),
            J::Str(s) => esc(s, o),
            J::Arr(a) => {
                o.push('[');
                for (i, x) in a.iter().enumerate() {
                    if i > 0 { o.push(','); if depth == 0 { o.push(' ') } }
                    if depth > 0 { o.push('\n'); o.extend(std::iter::repeat(' ').take(ind + 1)); }
                    x.w(o, ind + 1, depth.saturating_sub(1));
                }
                if depth > 0 && !a.is_empty() { o.push('\n'); o.extend(std::iter::repeat(' ').take(ind)); }
                o.push(']');
            }
            J::Obj(a) => {
                o.push('{');
                for (i, (k, x)) in a.iter().enumerate() {
                    if i > 0 { o.push(','); if depth == 0 { o.push(' ') } }
                    if depth > 0 { o.push('\n'); o.extend(std::iter::repeat(' ').take(ind + 1)); }
                    esc(k, o);
                    o.push_str(": ");
                    x.w(o, ind + 1, depth.saturating_sub(1));
                }
                if depth > 0 && !a.is_empty() { o.push('\n'); o.extend(std::iter::repeat(' ').take(ind)); }
                o.push('}');
            }
        }
    }
    pub fn parse(s: &str) -> Result<J, String> {
        let b = s.as_bytes();
        let mut p = P { b, i: 0 };
        let v = p.val()?;
        p.ws();
        if p.i != b.len() { return Err("trailing text".into()); }
        Ok(v)
    }
}

struct P<'a> { b: &'a [u8], i: usize }
impl P<'_> {
    fn ws(&mut self) { while self.i < self.b.len() && self.b[self.i].is_ascii_whitespace() { self.i += 1 } }
    fn peek(&self) -> u8 { *self.b.get(self.i).unwrap_or(&0) }
    fn val(&mut self) -> Result<J, String> {
        self.ws();
        match self.peek() {
            b'{' => {
                self.i += 1;
                let mut v = vec![];
                loop {
                    self.ws();
                    if self.peek() == b'}' { self.i += 1; return Ok(J::Obj(v)); }
                    if self.peek() == b',' { self.i += 1; continue; }
                    let k = self.string()?;
                    self.ws();
                    if self.peek() != b':' { return Err(format!("expected : at {}", self.i)); }
                    self.i += 1;
                    v.push((k, self.val()?));
                }
            }
            b'[' => {
                self.i += 1;
                let mut v = vec![];
                loop {
                    self.ws();
                    if self.peek() == b']' { self.i += 1; return Ok(J::Arr(v)); }
                    if self.peek() == b',' { self.i += 1; continue; }
                    v.push(self.val()?);
                }
            }
            b'"' => Ok(J::Str(self.string()?)),
            b't' => { self.i += 4; Ok(J::Bool(true)) }
            b'f' => { self.i += 5; Ok(J::Bool(false)) }
            b'n' => { self.i += 4; Ok(J::Null) }
            _ => {
                let st = self.i;
                while matches!(self.peek(), b'0'..=b'9' | b'-' | b'+' | b'.' | b'e' | b'E') { self.i += 1 }
                let t = std::str::from_utf8(&self.b[st..self.i]).unwrap();
                if let Ok(i) = t.parse::<i128>() { return Ok(J::Int(i)); }
                t.parse::<f64>().map(J::Num).map_err(|_| format!("bad value at {}", st))
            }
        }
    }
    fn string(&mut self) -> Result<String, String> {
        if self.peek() != b'"' { return Err(format!("expected string at {}", self.i)); }
        self.i += 1;
        let mut o: Vec<u8> = vec![];
        loop {
            let c = self.peek();
            self.i += 1;
            match c {
                0 => return Err("unterminated string".into()),
                b'"' => return String::from_utf8(o).map_err(|e| e.to_string()),
                b'\\' => {
                    let e = self.peek();
                    self.i += 1;
                    match e {
                        b'n' => o.push(b'\n'),
                        b't' => o.push(b'\t'),
                        b'u' => {
                            let h = std::str::from_utf8(&self.b[self.i..self.i + 4]).unwrap();
                            let c = char::from_u32(u32::from_str_radix(h, 16).unwrap()).unwrap();
                            self.i += 4;
                            let mut t = [0; 4];
                            o.extend(c.encode_utf8(&mut t).as_bytes());
                        }
                        e => o.push(e),
                    }
                }
                c => o.push(c),
            }
        }
    }
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b { write!(s, "{:02x}", x).unwrap(); }
    s
}
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
