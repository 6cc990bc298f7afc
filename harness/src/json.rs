//! Minimal JSON values (integers, strings, arrays, objects); no dependencies.
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Int(i64),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

impl J {
    pub fn obj() -> J {
        J::Obj(Vec::new())
    }
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::Obj(v) => v.iter().find(|(n, _)| n == k).map(|(_, v)| v),
            _ => None,
        }
    }
    pub fn at(&self, k: &str) -> &J {
        self.get(k).unwrap_or_else(|| fatal(&format!("missing field {k} in {self}")))
    }
    pub fn set(&mut self, k: &str, v: J) {
        if let J::Obj(o) = self {
            if let Some(e) = o.iter_mut().find(|(n, _)| n == k) {
                e.1 = v;
            } else {
                o.push((k.to_string(), v));
            }
        }
    }
    pub fn with(mut self, k: &str, v: impl Into<J>) -> J {
        self.set(k, v.into());
        self
    }
    pub fn int(&self) -> i64 {
        match self {
            J::Int(i) => *i,
            _ => fatal(&format!("not an int: {self}")),
        }
    }
    pub fn us(&self) -> usize {
        self.int() as usize
    }
    pub fn bool(&self) -> bool {
        match self {
            J::Bool(b) => *b,
            _ => fatal(&format!("not a bool: {self}")),
        }
    }
    pub fn str(&self) -> &str {
        match self {
            J::Str(s) => s,
            _ => fatal(&format!("not a string: {self}")),
        }
    }
    pub fn arr(&self) -> &Vec<J> {
        match self {
            J::Arr(v) => v,
            _ => fatal(&format!("not an array: {self}")),
        }
    }
    pub fn bytes(&self) -> Vec<u8> {
        self.arr().iter().map(|x| x.int() as u8).collect()
    }
    /// 64-bit word from 8 big-endian digits.
    pub fn word(&self) -> u64 {
        let mut v: u64 = 0;
        for x in self.arr() {
            v = v.wrapping_mul(256).wrapping_add(x.int() as u64);
        }
        v
    }
    pub fn words(&self) -> Vec<u64> {
        self.arr().iter().map(|x| x.word()).collect()
    }
}

pub fn fatal(msg: &str) -> ! {
    eprintln!("HARNESS-ERROR: {msg}");
    std::process::exit(2)
}

impl From<bool> for J {
    fn from(b: bool) -> J {
        J::Bool(b)
    }
}
impl From<usize> for J {
    fn from(b: usize) -> J {
        J::Int(b.min(i32::MAX as usize) as i64)
    }
}
impl From<i64> for J {
    fn from(b: i64) -> J {
        J::Int(b)
    }
}
impl From<&str> for J {
    fn from(b: &str) -> J {
        J::Str(b.to_string())
    }
}
impl From<String> for J {
    fn from(b: String) -> J {
        J::Str(b)
    }
}
impl From<&[u8]> for J {
    fn from(b: &[u8]) -> J {
        J::Arr(b.iter().map(|x| J::Int(*x as i64)).collect())
    }
}
impl From<Vec<u8>> for J {
    fn from(b: Vec<u8>) -> J {
        J::from(b.as_slice())
    }
}
impl From<Vec<J>> for J {
    fn from(b: Vec<J>) -> J {
        J::Arr(b)
    }
}

pub fn word(v: u64) -> J {
    let mut d = vec![];
    for i in (0..8).rev() {
        d.push(J::Int(((v >> (8 * i)) % 256) as i64));
    }
    J::Arr(d)
}

impl std::fmt::Display for J {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let mut s = String::new();
        emit(self, &mut s);
        f.write_str(&s)
    }
}

fn emit_str(t: &str, s: &mut String) {
    s.push('"');
    for c in t.chars() {
        match c {
            '"' => s.push_str("\\\""),
            '\\' => s.push_str("\\\\"),
            c if (c as u32) < 0x20 || (c as u32) > 0x7e => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    let _ = write!(s, "\\u{:04x}", u);
                }
            }
            c => s.push(c),
        }
    }
    s.push('"');
}

pub fn emit(j: &J, s: &mut String) {
    match j {
        J::Null => s.push_str("null"),
        J::Bool(b) => s.push_str(if *b { "true" } else { "false" }),
        J::Int(i) => {
            let _ = write!(s, "{}", i);
        }
        J::Str(t) => emit_str(t, s),
        J::Arr(v) => {
            s.push('[');
            for (i, x) in v.iter().enumerate() {
                if i > 0 {
                    s.push(',');
                }
                emit(x, s);
            }
            s.push(']');
        }
        J::Obj(v) => {
            s.push('{');
            for (i, (k, x)) in v.iter().enumerate() {
                if i > 0 {
                    s.push(',');
                }
                emit_str(k, s);
                s.push(':');
                emit(x, s);
            }
            s.push('}');
        }
    }
}

pub fn parse(t: &str) -> J {
    let b = t.as_bytes();
    let mut p = 0;
    let j = val(b, &mut p);
    ws(b, &mut p);
    if p != b.len() {
        fatal("trailing json");
    }
    j
}
fn ws(b: &[u8], p: &mut usize) {
    while *p < b.len() && (b[*p] == b' ' || b[*p] == b'\n' || b[*p] == b'\t' || b[*p] == b'\r') {
        *p += 1;
    }
}
fn val(b: &[u8], p: &mut usize) -> J {
    ws(b, p);
    match b.get(*p) {
        Some(b'{') => {
            *p += 1;
            let mut o = vec![];
            ws(b, p);
            if b[*p] == b'}' {
                *p += 1;
                return J::Obj(o);
            }
            loop {
                ws(b, p);
                let k = string(b, p);
                ws(b, p);
                *p += 1;
                o.push((k, val(b, p)));
                ws(b, p);
                *p += 1;
                if b[*p - 1] == b'}' {
                    return J::Obj(o);
                }
            }
        }
        Some(b'[') => {
            *p += 1;
            let mut o = vec![];
            ws(b, p);
            if b[*p] == b']' {
                *p += 1;
                return J::Arr(o);
            }
            loop {
                o.push(val(b, p));
                ws(b, p);
                *p += 1;
                if b[*p - 1] == b']' {
                    return J::Arr(o);
                }
            }
        }
        Some(b'"') => J::Str(string(b, p)),
        Some(b't') => {
            *p += 4;
            J::Bool(true)
        }
        Some(b'f') => {
            *p += 5;
            J::Bool(false)
        }
        Some(b'n') => {
            *p += 4;
            J::Null
        }
        Some(_) => {
            let s = *p;
            while *p < b.len() && (b[*p] == b'-' || b[*p].is_ascii_digit()) {
                *p += 1;
            }
            match std::str::from_utf8(&b[s..*p]).unwrap().parse() {
                Ok(i) => J::Int(i),
                Err(_) => fatal("bad json number"),
            }
        }
        None => fatal("short json"),
    }
}
fn string(b: &[u8], p: &mut usize) -> String {
    *p += 1;
    let mut o: Vec<u16> = vec![];
    let mut r = String::new();
    loop {
        match b[*p] {
            b'"' => {
                *p += 1;
                if !o.is_empty() {
                    r.push_str(&String::from_utf16_lossy(&o));
                }
                return r;
            }
            b'\\' => {
                *p += 1;
                let c = b[*p];
                *p += 1;
                let u = match c {
                    b'n' => 10,
                    b't' => 9,
                    b'r' => 13,
                    b'b' => 8,
                    b'f' => 12,
                    b'u' => {
                        let h = std::str::from_utf8(&b[*p..*p + 4]).unwrap();
                        *p += 4;
                        u16::from_str_radix(h, 16).unwrap()
                    }
                    c => c as u16,
                };
                o.push(u);
            }
            _ => {
                if !o.is_empty() {
                    r.push_str(&String::from_utf16_lossy(&o));
                    o.clear();
                }
                let s = *p;
                while b[*p] != b'"' && b[*p] != b'\\' {
                    *p += 1;
                }
                r.push_str(std::str::from_utf8(&b[s..*p]).unwrap());
            }
        }
    }
}
