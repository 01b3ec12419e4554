//! A minimal JSON value, printer and parser (the traces exchanged with TLC).
use std::fmt;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Bool(bool),
    Int(i64),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

impl fmt::Display for J {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            J::Bool(b) => write!(f, "{}", b),
            J::Int(i) => write!(f, "{}", i),
            J::Str(s) => {
                f.write_str("\"")?;
                for c in s.chars() {
                    match c {
                        '"' => f.write_str("\\\"")?,
                        '\\' => f.write_str("\\\\")?,
                        c if (c as u32) < 32 || (c as u32) > 126 => f.write_str("?")?,
                        c => write!(f, "{}", c)?,
                    }
                }
                f.write_str("\"")
            }
            J::Arr(v) => {
                f.write_str("[")?;
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        f.write_str(",")?;
                    }
                    write!(f, "{}", x)?;
                }
                f.write_str("]")
            }
            J::Obj(v) => {
                f.write_str("{")?;
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        f.write_str(",")?;
                    }
                    write!(f, "\"{}\":{}", k, x)?;
                }
                f.write_str("}")
            }
        }
    }
}

macro_rules! from_int { ($($t:ty),*) => { $(impl From<$t> for J { fn from(v: $t) -> J { J::Int(v as i64) } })* } }
from_int!(u8, u16, u32, u64, usize, i32, i64);
impl From<bool> for J {
    fn from(v: bool) -> J {
        J::Bool(v)
    }
}
impl From<&str> for J {
    fn from(v: &str) -> J {
        J::Str(v.to_string())
    }
}
impl From<String> for J {
    fn from(v: String) -> J {
        J::Str(v)
    }
}
impl<T: Into<J>> From<Vec<T>> for J {
    fn from(v: Vec<T>) -> J {
        J::Arr(v.into_iter().map(|x| x.into()).collect())
    }
}
impl<T: Clone + Into<J>> From<&[T]> for J {
    fn from(v: &[T]) -> J {
        J::Arr(v.iter().map(|x| x.clone().into()).collect())
    }
}
impl<const P: u64> From<crate::toy::Fp<P>> for J {
    fn from(v: crate::toy::Fp<P>) -> J {
        J::Int(v.0 as i64)
    }
}
impl<const P: u64> From<crate::toy::G1<P>> for J {
    fn from(v: crate::toy::G1<P>) -> J {
        J::Int(v.0 as i64)
    }
}
impl<const P: u64> From<crate::toy::G2<P>> for J {
    fn from(v: crate::toy::G2<P>) -> J {
        J::Int(v.0 as i64)
    }
}

#[macro_export]
macro_rules! obj {
    ($($k:expr => $v:expr),* $(,)?) => {
        $crate::json::J::Obj(vec![$(($k.to_string(), $crate::json::J::from($v))),*])
    };
}

impl J {
    pub fn get(&self, k: &str) -> &J {
        match self {
            J::Obj(v) => v
                .iter()
                .find(|(a, _)| a == k)
                .map(|(_, x)| x)
                .unwrap_or_else(|| panic!("harness: missing key {} in {}", k, self)),
            _ => panic!("harness: not an object: {}", self),
        }
    }
    pub fn has(&self, k: &str) -> bool {
        matches!(self, J::Obj(v) if v.iter().any(|(a, _)| a == k))
    }
    pub fn int(&self) -> i64 {
        match self {
            J::Int(i) => *i,
            _ => panic!("harness: not an int: {}", self),
        }
    }
    pub fn us(&self) -> usize {
        self.int() as usize
    }
    pub fn boolean(&self) -> bool {
        match self {
            J::Bool(b) => *b,
            _ => panic!("harness: not a bool: {}", self),
        }
    }
    pub fn str(&self) -> &str {
        match self {
            J::Str(s) => s,
            _ => panic!("harness: not a string: {}", self),
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::Arr(v) => v,
            _ => panic!("harness: not an array: {}", self),
        }
    }
    pub fn set(&mut self, k: &str, v: J) {
        if let J::Obj(o) = self {
            for (n, x) in o.iter_mut() {
                if n.as_str() == k {
                    *x = v;
                    return;
                }
            }
        }
    }
    pub fn push(&mut self, k: &str, v: impl Into<J>) {
        match self {
            J::Obj(o) => o.push((k.to_string(), v.into())),
            _ => panic!("harness: not an object"),
        }
    }
    pub fn parse(s: &str) -> J {
        let b = s.as_bytes();
        let mut i = 0;
        let r = val(b, &mut i);
        ws(b, &mut i);
        assert!(i == b.len(), "harness: trailing JSON");
        r
    }
}
fn ws(b: &[u8], i: &mut usize) {
    while *i < b.len() && (b[*i] as char).is_whitespace() {
        *i += 1;
    }
}
fn val(b: &[u8], i: &mut usize) -> J {
    ws(b, i);
    match b[*i] {
        b'{' => {
            *i += 1;
            let mut v = vec![];
            loop {
                ws(b, i);
                if b[*i] == b'}' {
                    *i += 1;
                    return J::Obj(v);
                }
                if b[*i] == b',' {
                    *i += 1;
                    continue;
                }
                let k = match val(b, i) {
                    J::Str(s) => s,
                    _ => panic!("harness: bad JSON key"),
                };
                ws(b, i);
                assert!(b[*i] == b':');
                *i += 1;
                v.push((k, val(b, i)));
            }
        }
        b'[' => {
            *i += 1;
            let mut v = vec![];
            loop {
                ws(b, i);
                if b[*i] == b']' {
                    *i += 1;
                    return J::Arr(v);
                }
                if b[*i] == b',' {
                    *i += 1;
                    continue;
                }
                v.push(val(b, i));
            }
        }
        b'"' => {
            *i += 1;
            let mut s = vec![];
            while b[*i] != b'"' {
                if b[*i] == b'\\' {
                    *i += 1;
                }
                s.push(b[*i]);
                *i += 1;
            }
            *i += 1;
            J::Str(String::from_utf8(s).unwrap())
        }
        b't' => {
            *i += 4;
            J::Bool(true)
        }
        b'f' => {
            *i += 5;
            J::Bool(false)
        }
        _ => {
            let st = *i;
            while *i < b.len() && (b[*i] == b'-' || b[*i].is_ascii_digit()) {
                *i += 1;
            }
            J::Int(
                std::str::from_utf8(&b[st..*i])
                    .unwrap()
                    .parse()
                    .unwrap_or_else(|_| panic!("harness: bad JSON number")),
            )
        }
    }
}

pub fn read_lines(path: &str) -> Vec<J> {
    std::fs::read_to_string(path)
        .unwrap_or_else(|e| panic!("harness: {}: {}", path, e))
        .lines()
        .filter(|l| !l.trim().is_empty())
        .map(J::parse)
        .collect()
}
