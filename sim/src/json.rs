//! A small JSON value with ordered objects and raw numbers, used by all oracles.
use std::fmt::Write;
#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Num(String),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}
impl J {
    pub fn s(x: &str) -> J {
        J::Str(x.to_string())
    }
    pub fn i(x: i64) -> J {
        J::Num(x.to_string())
    }
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::Obj(v) => v.iter().find(|(n, _)| n == k).map(|x| &x.1),
            _ => None,
        }
    }
    pub fn at(&self, path: &[&str]) -> Option<&J> {
        let mut c = self;
        for p in path {
            c = match c {
                J::Arr(a) => a.get(p.parse::<usize>().ok()?)?,
                _ => c.get(p)?,
            };
        }
        Some(c)
    }
    pub fn str(&self) -> Option<&str> {
        match self {
            J::Str(s) => Some(s),
            _ => None,
        }
    }
    pub fn int(&self) -> Option<i64> {
        match self {
            J::Num(n) => n.parse().ok(),
            _ => None,
        }
    }
    pub fn arr(&self) -> Option<&Vec<J>> {
        match self {
            J::Arr(a) => Some(a),
            _ => None,
        }
    }
    pub fn obj(&self) -> Option<&Vec<(String, J)>> {
        match self {
            J::Obj(a) => Some(a),
            _ => None,
        }
    }
    pub fn is_null(&self) -> bool {
        *self == J::Null
    }
    pub fn to_string(&self) -> String {
        let mut s = String::new();
        self.w(&mut s);
        s
    }
    pub fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
            J::Num(n) => o.push_str(n),
            J::Str(s) => wstr(s, o),
            J::Arr(a) => {
                o.push('[');
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.w(o);
                }
                o.push(']');
            }
            J::Obj(a) => {
                o.push('{');
                for (i, (k, x)) in a.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    wstr(k, o);
                    o.push(':');
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
    pub fn parse(s: &[u8]) -> Result<J, String> {
        let mut p = P { s, i: 0, d: 0 };
        p.ws();
        let v = p.val()?;
        p.ws();
        if p.i != s.len() {
            return Err(format!("trailing bytes at {}", p.i));
        }
        Ok(v)
    }
}
pub fn wstr(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
}
struct P<'a> {
    s: &'a [u8],
    i: usize,
    d: usize,
}
impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.i < self.s.len() && matches!(self.s[self.i], b' ' | b'\n' | b'\r' | b'\t') {
            self.i += 1;
        }
    }
    fn val(&mut self) -> Result<J, String> {
        if self.i >= self.s.len() {
            return Err("unexpected end".into());
        }
        match self.s[self.i] {
            b'{' => {
                self.d += 1;
                if self.d > 200 {
                    return Err("too deep".into());
                }
                self.i += 1;
                let mut v = Vec::new();
                self.ws();
                if self.peek() == Some(b'}') {
                    self.i += 1;
                    self.d -= 1;
                    return Ok(J::Obj(v));
                }
                loop {
                    self.ws();
                    let k = self.string()?;
                    self.ws();
                    self.eat(b':')?;
                    self.ws();
                    let x = self.val()?;
                    v.push((k, x));
                    self.ws();
                    match self.peek() {
                        Some(b',') => self.i += 1,
                        Some(b'}') => {
                            self.i += 1;
                            self.d -= 1;
                            return Ok(J::Obj(v));
                        }
                        _ => return Err(format!("bad object at {}", self.i)),
                    }
                }
            }
            b'[' => {
                self.d += 1;
                if self.d > 200 {
                    return Err("too deep".into());
                }
                self.i += 1;
                let mut v = Vec::new();
                self.ws();
                if self.peek() == Some(b']') {
                    self.i += 1;
                    self.d -= 1;
                    return Ok(J::Arr(v));
                }
                loop {
                    self.ws();
                    v.push(self.val()?);
                    self.ws();
                    match self.peek() {
                        Some(b',') => self.i += 1,
                        Some(b']') => {
                            self.i += 1;
                            self.d -= 1;
                            return Ok(J::Arr(v));
                        }
                        _ => return Err(format!("bad array at {}", self.i)),
                    }
                }
            }
            b'"' => Ok(J::Str(self.string()?)),
            b't' => self.lit("true", J::Bool(true)),
            b'f' => self.lit("false", J::Bool(false)),
            b'n' => self.lit("null", J::Null),
            b'-' | b'0'..=b'9' => {
                let st = self.i;
                while self.i < self.s.len() && matches!(self.s[self.i], b'-' | b'+' | b'.' | b'e' | b'E' | b'0'..=b'9') {
                    self.i += 1;
                }
                Ok(J::Num(String::from_utf8_lossy(&self.s[st..self.i]).to_string()))
            }
            c => Err(format!("unexpected byte {} at {}", c, self.i)),
        }
    }
    fn peek(&self) -> Option<u8> {
        self.s.get(self.i).cloned()
    }
    fn eat(&mut self, c: u8) -> Result<(), String> {
        if self.peek() == Some(c) {
            self.i += 1;
            Ok(())
        } else {
            Err(format!("expected {} at {}", c as char, self.i))
        }
    }
    fn lit(&mut self, l: &str, v: J) -> Result<J, String> {
        if self.s[self.i..].starts_with(l.as_bytes()) {
            self.i += l.len();
            Ok(v)
        } else {
            Err(format!("bad literal at {}", self.i))
        }
    }
    fn string(&mut self) -> Result<String, String> {
        self.eat(b'"')?;
        let mut o: Vec<u8> = Vec::new();
        loop {
            let c = self.peek().ok_or("unterminated string")?;
            self.i += 1;
            match c {
                b'"' => break,
                b'\\' => {
                    let e = self.peek().ok_or("unterminated escape")?;
                    self.i += 1;
                    match e {
                        b'n' => o.push(b'\n'),
                        b'r' => o.push(b'\r'),
                        b't' => o.push(b'\t'),
                        b'b' => o.push(8),
                        b'f' => o.push(12),
                        b'u' => {
                            let h = self.hex()?;
                            let ch = if (0xd800..0xdc00).contains(&h) {
                                if self.s.get(self.i) == Some(&b'\\') && self.s.get(self.i + 1) == Some(&b'u') {
                                    self.i += 2;
                                    let l = self.hex()?;
                                    char::from_u32(0x10000 + ((h - 0xd800) << 10) + (l.wrapping_sub(0xdc00))).unwrap_or('\u{fffd}')
                                } else {
                                    '\u{fffd}'
                                }
                            } else {
                                char::from_u32(h).unwrap_or('\u{fffd}')
                            };
                            let mut b = [0; 4];
                            o.extend_from_slice(ch.encode_utf8(&mut b).as_bytes());
                        }
                        c => o.push(c),
                    }
                }
                c if c < 0x20 => return Err(format!("control character in string at {}", self.i)),
                c => o.push(c),
            }
        }
        String::from_utf8(o).map_err(|_| "invalid utf-8 in string".to_string())
    }
    fn hex(&mut self) -> Result<u32, String> {
        let h = self.s.get(self.i..self.i + 4).ok_or("bad escape")?;
        let v = u32::from_str_radix(std::str::from_utf8(h).map_err(|_| "bad escape")?, 16).map_err(|_| "bad escape")?;
        self.i += 4;
        Ok(v)
    }
}
/// Shorthand: obj!{"a" => x, ...}
#[macro_export]
macro_rules! obj {
    ($($k:expr => $v:expr),* $(,)?) => { $crate::json::J::Obj(vec![$(($k.to_string(), $v)),*]) };
}
