//! A strict JSON reader that keeps numbers as text, so that the oracle does
//! not share a float parser with the code under test.
#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Num(String),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}
pub fn parse(b: &[u8]) -> Result<J, String> {
    let s = std::str::from_utf8(b).map_err(|_| "not UTF-8".to_string())?;
    let mut p = P { s: s.as_bytes(), i: 0, depth: 0 };
    p.ws();
    let v = p.value()?;
    p.ws();
    if p.i != p.s.len() {
        return Err(format!("trailing characters at {}", p.i));
    }
    Ok(v)
}
struct P<'a> {
    s: &'a [u8],
    i: usize,
    depth: usize,
}
impl P<'_> {
    fn ws(&mut self) {
        while self.i < self.s.len() && matches!(self.s[self.i], b' ' | b'\n' | b'\t' | b'\r') {
            self.i += 1;
        }
    }
    fn e<T>(&self, m: &str) -> Result<T, String> {
        Err(format!("{m} at byte {}", self.i))
    }
    fn lit(&mut self, l: &str, v: J) -> Result<J, String> {
        if self.s[self.i..].starts_with(l.as_bytes()) {
            self.i += l.len();
            Ok(v)
        } else {
            self.e("bad literal")
        }
    }
    fn value(&mut self) -> Result<J, String> {
        if self.depth > 64 {
            return self.e("too deep");
        }
        match self.s.get(self.i) {
            None => self.e("end of input"),
            Some(b'n') => self.lit("null", J::Null),
            Some(b't') => self.lit("true", J::Bool(true)),
            Some(b'f') => self.lit("false", J::Bool(false)),
            Some(b'"') => Ok(J::Str(self.string()?)),
            Some(b'[') => {
                self.i += 1;
                self.depth += 1;
                let mut v = vec![];
                self.ws();
                if self.s.get(self.i) == Some(&b']') {
                    self.i += 1;
                } else {
                    loop {
                        self.ws();
                        v.push(self.value()?);
                        self.ws();
                        match self.s.get(self.i) {
                            Some(b',') => self.i += 1,
                            Some(b']') => {
                                self.i += 1;
                                break;
                            }
                            _ => return self.e("bad array"),
                        }
                    }
                }
                self.depth -= 1;
                Ok(J::Arr(v))
            }
            Some(b'{') => {
                self.i += 1;
                self.depth += 1;
                let mut v = vec![];
                self.ws();
                if self.s.get(self.i) == Some(&b'}') {
                    self.i += 1;
                } else {
                    loop {
                        self.ws();
                        if self.s.get(self.i) != Some(&b'"') {
                            return self.e("bad key");
                        }
                        let k = self.string()?;
                        self.ws();
                        if self.s.get(self.i) != Some(&b':') {
                            return self.e("no colon");
                        }
                        self.i += 1;
                        self.ws();
                        v.push((k, self.value()?));
                        self.ws();
                        match self.s.get(self.i) {
                            Some(b',') => self.i += 1,
                            Some(b'}') => {
                                self.i += 1;
                                break;
                            }
                            _ => return self.e("bad object"),
                        }
                    }
                }
                self.depth -= 1;
                Ok(J::Obj(v))
            }
            Some(c) if *c == b'-' || c.is_ascii_digit() => {
                let a = self.i;
                if *c == b'-' {
                    self.i += 1;
                }
                let d0 = self.i;
                self.digits();
                if self.i == d0 || (self.i > d0 + 1 && self.s[d0] == b'0') {
                    return self.e("bad number");
                }
                if self.s.get(self.i) == Some(&b'.') {
                    self.i += 1;
                    let d = self.i;
                    self.digits();
                    if d == self.i {
                        return self.e("bad fraction");
                    }
                }
                if matches!(self.s.get(self.i), Some(b'e') | Some(b'E')) {
                    self.i += 1;
                    if matches!(self.s.get(self.i), Some(b'+') | Some(b'-')) {
                        self.i += 1;
                    }
                    let d = self.i;
                    self.digits();
                    if d == self.i {
                        return self.e("bad exponent");
                    }
                }
                Ok(J::Num(String::from_utf8(self.s[a..self.i].to_vec()).unwrap()))
            }
            _ => self.e("unexpected character"),
        }
    }
    fn digits(&mut self) {
        while self.i < self.s.len() && self.s[self.i].is_ascii_digit() {
            self.i += 1;
        }
    }
    fn hex4(&mut self) -> Result<u32, String> {
        if self.i + 4 > self.s.len() {
            return self.e("bad escape");
        }
        let t = std::str::from_utf8(&self.s[self.i..self.i + 4]).map_err(|_| "bad escape".to_string())?;
        if !t.bytes().all(|b| b.is_ascii_hexdigit()) {
            return self.e("bad escape");
        }
        self.i += 4;
        Ok(u32::from_str_radix(t, 16).unwrap())
    }
    fn string(&mut self) -> Result<String, String> {
        self.i += 1;
        let mut out: Vec<u8> = vec![];
        loop {
            match self.s.get(self.i) {
                None => return self.e("unterminated string"),
                Some(b'"') => {
                    self.i += 1;
                    return String::from_utf8(out).map_err(|_| "bad string".into());
                }
                Some(b'\\') => {
                    self.i += 1;
                    let c = *self.s.get(self.i).ok_or("unterminated escape")?;
                    self.i += 1;
                    match c {
                        b'"' | b'\\' | b'/' => out.push(c),
                        b'b' => out.push(8),
                        b'f' => out.push(12),
                        b'n' => out.push(10),
                        b'r' => out.push(13),
                        b't' => out.push(9),
                        b'u' => {
                            let mut u = self.hex4()?;
                            if (0xd800..0xdc00).contains(&u) {
                                if self.s.get(self.i) != Some(&b'\\') || self.s.get(self.i + 1) != Some(&b'u') {
                                    return self.e("lone surrogate");
                                }
                                self.i += 2;
                                let l = self.hex4()?;
                                if !(0xdc00..0xe000).contains(&l) {
                                    return self.e("bad surrogate");
                                }
                                u = 0x10000 + ((u - 0xd800) << 10) + (l - 0xdc00);
                            }
                            let c = char::from_u32(u).ok_or("bad code point")?;
                            out.extend_from_slice(c.to_string().as_bytes());
                        }
                        _ => return self.e("bad escape"),
                    }
                }
                Some(c) if *c < 0x20 => return self.e("control character in string"),
                Some(c) => {
                    out.push(*c);
                    self.i += 1;
                }
            }
        }
    }
}
