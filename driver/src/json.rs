//! Minimal JSON values (no external crates are available to the driver).
use std::fmt::Write;

#[derive(Clone, Debug)]
pub enum J {
    Null,
    Bool(bool),
    Num(i128),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

pub fn s<T: Into<String>>(x: T) -> J {
    J::Str(x.into())
}
pub fn n<T: TryInto<i128>>(x: T) -> J {
    J::Num(x.try_into().ok().unwrap_or(-1))
}
#[macro_export]
macro_rules! obj {
    ($($k:expr => $v:expr),* $(,)?) => { $crate::json::J::Obj(vec![$(($k.to_string(), $v)),*]) };
}
#[macro_export]
macro_rules! arr {
    ($($v:expr),* $(,)?) => { $crate::json::J::Arr(vec![$($v),*]) };
}

impl J {
    pub fn write(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
            J::Num(n) => {
                let _ = write!(o, "{}", n);
            }
            J::Str(s) => esc(s, o),
            J::Arr(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.write(o);
                }
                o.push(']');
            }
            J::Obj(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    esc(k, o);
                    o.push(':');
                    x.write(o);
                }
                o.push('}');
            }
        }
    }
    pub fn get<'a>(&'a self, k: &str) -> Option<&'a J> {
        match self {
            J::Obj(v) => v.iter().find(|(a, _)| a == k).map(|(_, v)| v),
            _ => None,
        }
    }
    pub fn str(&self) -> Option<&str> {
        match self {
            J::Str(s) => Some(s),
            _ => None,
        }
    }
    pub fn num(&self) -> Option<i128> {
        match self {
            J::Num(n) => Some(*n),
            _ => None,
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::Arr(v) => v,
            _ => &[],
        }
    }
}

fn esc(x: &str, o: &mut String) {
    o.push('"');
    for c in x.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
}

pub fn parse(src: &str) -> Result<J, String> {
    let b = src.as_bytes();
    let mut i = 0;
    let v = val(b, &mut i)?;
    Ok(v)
}
fn ws(b: &[u8], i: &mut usize) {
    while *i < b.len() && (b[*i] as char).is_whitespace() {
        *i += 1;
    }
}
fn val(b: &[u8], i: &mut usize) -> Result<J, String> {
    ws(b, i);
    match b.get(*i) {
        Some(b'{') => {
            *i += 1;
            let mut v = vec![];
            loop {
                ws(b, i);
                match b.get(*i) {
                    Some(b'}') => {
                        *i += 1;
                        return Ok(J::Obj(v));
                    }
                    Some(b',') => {
                        *i += 1;
                    }
                    _ => {
                        let k = match val(b, i)? {
                            J::Str(k) => k,
                            _ => return Err("key".into()),
                        };
                        ws(b, i);
                        if b.get(*i) != Some(&b':') {
                            return Err("colon".into());
                        }
                        *i += 1;
                        v.push((k, val(b, i)?));
                    }
                }
            }
        }
        Some(b'[') => {
            *i += 1;
            let mut v = vec![];
            loop {
                ws(b, i);
                match b.get(*i) {
                    Some(b']') => {
                        *i += 1;
                        return Ok(J::Arr(v));
                    }
                    Some(b',') => {
                        *i += 1;
                    }
                    _ => v.push(val(b, i)?),
                }
            }
        }
        Some(b'"') => {
            *i += 1;
            let mut out: Vec<u8> = vec![];
            loop {
                match b.get(*i) {
                    None => return Err("eof".into()),
                    Some(b'"') => {
                        *i += 1;
                        return Ok(J::Str(String::from_utf8_lossy(&out).into_owned()));
                    }
                    Some(b'\\') => {
                        let c = *b.get(*i + 1).ok_or("eof")?;
                        out.push(match c {
                            b'n' => b'\n',
                            b't' => b'\t',
                            b'r' => b'\r',
                            c => c,
                        });
                        *i += 2;
                    }
                    Some(c) => {
                        out.push(*c);
                        *i += 1;
                    }
                }
            }
        }
        Some(b't') => {
            *i += 4;
            Ok(J::Bool(true))
        }
        Some(b'f') => {
            *i += 5;
            Ok(J::Bool(false))
        }
        Some(b'n') => {
            *i += 4;
            Ok(J::Null)
        }
        Some(_) => {
            let st = *i;
            while *i < b.len() && (b[*i] == b'-' || (b[*i] as char).is_ascii_digit()) {
                *i += 1;
            }
            std::str::from_utf8(&b[st..*i])
                .ok()
                .and_then(|x| x.parse().ok())
                .map(J::Num)
                .ok_or_else(|| format!("number at {}", st))
        }
        None => Err("eof".into()),
    }
}
