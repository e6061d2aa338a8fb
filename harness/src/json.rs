//! A minimal JSON reader: just enough for programs written by TLC.

#[derive(Debug, Clone)]
#[allow(dead_code)]
pub enum J {
    Null,
    Bool(bool),
    Num(i64),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

impl J {
    pub fn parse(s: &str) -> Result<J, String> {
        let b = s.as_bytes();
        let mut p = 0;
        let v = value(b, &mut p)?;
        Ok(v)
    }

    pub fn get(&self, key: &str) -> Option<&J> {
        match self {
            J::Obj(m) => m.iter().find(|(k, _)| k == key).map(|(_, v)| v),
            _ => None,
        }
    }

    pub fn at(&self, key: &str) -> &J {
        self.get(key).unwrap_or_else(|| panic!("harness: no field {key} in {self:?}"))
    }

    pub fn num(&self) -> i64 {
        match self {
            J::Num(n) => *n,
            _ => panic!("harness: not a number: {self:?}"),
        }
    }

    pub fn str(&self) -> &str {
        match self {
            J::Str(s) => s,
            _ => panic!("harness: not a string: {self:?}"),
        }
    }

    pub fn bool(&self) -> bool {
        matches!(self, J::Bool(true))
    }

    pub fn arr(&self) -> &[J] {
        match self {
            J::Arr(a) => a,
            // TLC writes an empty function as an object.
            J::Obj(m) if m.is_empty() => &[],
            _ => panic!("harness: not an array: {self:?}"),
        }
    }

    pub fn bytes(&self) -> Vec<u8> {
        self.arr().iter().map(|j| j.num() as u8).collect()
    }
}

fn ws(b: &[u8], p: &mut usize) {
    while *p < b.len() && b[*p].is_ascii_whitespace() {
        *p += 1;
    }
}

fn value(b: &[u8], p: &mut usize) -> Result<J, String> {
    ws(b, p);
    match b.get(*p) {
        Some(b'{') => {
            *p += 1;
            let mut m = vec![];
            loop {
                ws(b, p);
                match b.get(*p) {
                    Some(b'}') => {
                        *p += 1;
                        return Ok(J::Obj(m));
                    }
                    Some(b',') => *p += 1,
                    Some(b'"') => {
                        let J::Str(k) = value(b, p)? else { unreachable!() };
                        ws(b, p);
                        if b.get(*p) != Some(&b':') {
                            return Err(format!("colon expected at {p}"));
                        }
                        *p += 1;
                        m.push((k, value(b, p)?));
                    }
                    _ => return Err(format!("bad object at {p}")),
                }
            }
        }
        Some(b'[') => {
            *p += 1;
            let mut a = vec![];
            loop {
                ws(b, p);
                match b.get(*p) {
                    Some(b']') => {
                        *p += 1;
                        return Ok(J::Arr(a));
                    }
                    Some(b',') => *p += 1,
                    Some(_) => a.push(value(b, p)?),
                    None => return Err("unterminated array".into()),
                }
            }
        }
        Some(b'"') => {
            *p += 1;
            let mut s = Vec::new();
            loop {
                match b.get(*p) {
                    Some(b'"') => {
                        *p += 1;
                        return String::from_utf8(s).map(J::Str).map_err(|e| e.to_string());
                    }
                    Some(b'\\') => {
                        s.push(match b.get(*p + 1) {
                            Some(b'n') => b'\n',
                            Some(b't') => b'\t',
                            Some(b'r') => b'\r',
                            Some(&c) => c,
                            None => return Err("bad escape".into()),
                        });
                        *p += 2;
                    }
                    Some(&c) => {
                        s.push(c);
                        *p += 1;
                    }
                    None => return Err("unterminated string".into()),
                }
            }
        }
        Some(b't') => {
            *p += 4;
            Ok(J::Bool(true))
        }
        Some(b'f') => {
            *p += 5;
            Ok(J::Bool(false))
        }
        Some(b'n') => {
            *p += 4;
            Ok(J::Null)
        }
        Some(_) => {
            let s = *p;
            while *p < b.len() && (b[*p] == b'-' || b[*p].is_ascii_digit()) {
                *p += 1;
            }
            std::str::from_utf8(&b[s..*p])
                .unwrap()
                .parse()
                .map(J::Num)
                .map_err(|e| format!("{e} at {s}"))
        }
        None => Err("unexpected end".into()),
    }
}
