//! A small JSON value, printer and parser (no dependencies).
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum Json {
    Null,
    Bool(bool),
    Int(i64),
    Float(f64),
    Str(String),
    Arr(Vec<Json>),
    Obj(Vec<(String, Json)>),
}

impl From<&str> for Json {
    fn from(s: &str) -> Self {
        Json::Str(s.to_owned())
    }
}
impl From<String> for Json {
    fn from(s: String) -> Self {
        Json::Str(s)
    }
}
impl From<bool> for Json {
    fn from(s: bool) -> Self {
        Json::Bool(s)
    }
}
impl From<f64> for Json {
    fn from(s: f64) -> Self {
        Json::Float(s)
    }
}
impl From<u64> for Json {
    fn from(s: u64) -> Self {
        Json::Int(s as i64)
    }
}
impl From<i64> for Json {
    fn from(s: i64) -> Self {
        Json::Int(s)
    }
}
impl From<usize> for Json {
    fn from(s: usize) -> Self {
        Json::Int(s as i64)
    }
}
impl From<u32> for Json {
    fn from(s: u32) -> Self {
        Json::Int(i64::from(s))
    }
}
impl<T: Into<Json>> From<Vec<T>> for Json {
    fn from(v: Vec<T>) -> Self {
        Json::Arr(v.into_iter().map(Into::into).collect())
    }
}

pub fn obj<const N: usize>(fields: [(&str, Json); N]) -> Json {
    Json::Obj(IntoIterator::into_iter(fields).map(|(k, v)| (k.to_owned(), v)).collect())
}

impl Json {
    pub fn get(&self, k: &str) -> Option<&Json> {
        if let Json::Obj(o) = self {
            o.iter().find(|(n, _)| n == k).map(|(_, v)| v)
        } else {
            None
        }
    }
    pub fn set(&mut self, k: &str, v: Json) {
        if let Json::Obj(o) = self {
            if let Some(e) = o.iter_mut().find(|(n, _)| n == k) {
                e.1 = v;
            } else {
                o.push((k.to_owned(), v));
            }
        }
    }
    pub fn str(&self) -> &str {
        if let Json::Str(s) = self {
            s
        } else {
            ""
        }
    }
    pub fn int(&self) -> i64 {
        match self {
            Json::Int(i) => *i,
            Json::Float(f) => *f as i64,
            _ => 0,
        }
    }
    pub fn usize(&self) -> usize {
        self.int() as usize
    }
    pub fn bool(&self) -> bool {
        matches!(self, Json::Bool(true))
    }
    pub fn arr(&self) -> &[Json] {
        if let Json::Arr(a) = self {
            a
        } else {
            &[]
        }
    }
    pub fn at(&self, k: &str) -> &Json {
        static NULL: Json = Json::Null;
        self.get(k).unwrap_or(&NULL)
    }

    pub fn print(&self) -> String {
        let mut s = String::new();
        self.write(&mut s);
        s
    }

    fn write(&self, out: &mut String) {
        match self {
            Json::Null => out.push_str("null"),
            Json::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
            Json::Int(i) => write!(out, "{}", i).unwrap(),
            Json::Float(f) => {
                if f.is_finite() {
                    write!(out, "{:.6}", f).unwrap()
                } else {
                    out.push_str("null")
                }
            }
            Json::Str(s) => write_str(s, out),
            Json::Arr(a) => {
                out.push('[');
                for (i, v) in a.iter().enumerate() {
                    if i > 0 {
                        out.push_str(", ");
                    }
                    v.write(out);
                }
                out.push(']');
            }
            Json::Obj(o) => {
                out.push('{');
                for (i, (k, v)) in o.iter().enumerate() {
                    if i > 0 {
                        out.push_str(", ");
                    }
                    write_str(k, out);
                    out.push_str(": ");
                    v.write(out);
                }
                out.push('}');
            }
        }
    }

    pub fn parse(s: &str) -> Result<Json, String> {
        let c: Vec<char> = s.chars().collect();
        let mut p = 0;
        let v = value(&c, &mut p)?;
        ws(&c, &mut p);
        if p != c.len() {
            return Err(format!("trailing text at {}", p));
        }
        Ok(v)
    }
}

fn write_str(s: &str, out: &mut String) {
    out.push('"');
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            '\r' => out.push_str("\\r"),
            '\t' => out.push_str("\\t"),
            c if (' '..='~').contains(&c) => out.push(c),
            c => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    write!(out, "\\u{:04x}", u).unwrap();
                }
            }
        }
    }
    out.push('"');
}

fn ws(c: &[char], p: &mut usize) {
    while *p < c.len() && c[*p].is_whitespace() {
        *p += 1;
    }
}

fn value(c: &[char], p: &mut usize) -> Result<Json, String> {
    ws(c, p);
    match c.get(*p) {
        None => Err("eof".into()),
        Some('{') => {
            *p += 1;
            let mut o = Vec::new();
            ws(c, p);
            if c.get(*p) == Some(&'}') {
                *p += 1;
                return Ok(Json::Obj(o));
            }
            loop {
                ws(c, p);
                let k = string(c, p)?;
                ws(c, p);
                if c.get(*p) != Some(&':') {
                    return Err("colon".into());
                }
                *p += 1;
                o.push((k, value(c, p)?));
                ws(c, p);
                match c.get(*p) {
                    Some(',') => *p += 1,
                    Some('}') => {
                        *p += 1;
                        return Ok(Json::Obj(o));
                    }
                    _ => return Err("object".into()),
                }
            }
        }
        Some('[') => {
            *p += 1;
            let mut a = Vec::new();
            ws(c, p);
            if c.get(*p) == Some(&']') {
                *p += 1;
                return Ok(Json::Arr(a));
            }
            loop {
                a.push(value(c, p)?);
                ws(c, p);
                match c.get(*p) {
                    Some(',') => *p += 1,
                    Some(']') => {
                        *p += 1;
                        return Ok(Json::Arr(a));
                    }
                    _ => return Err("array".into()),
                }
            }
        }
        Some('"') => string(c, p).map(Json::Str),
        Some(_) => {
            let start = *p;
            while *p < c.len() && !",]} \n\r\t".contains(c[*p]) {
                *p += 1;
            }
            let t: String = c[start..*p].iter().collect();
            match t.as_str() {
                "null" => Ok(Json::Null),
                "true" => Ok(Json::Bool(true)),
                "false" => Ok(Json::Bool(false)),
                _ => {
                    if let Ok(i) = t.parse() {
                        Ok(Json::Int(i))
                    } else {
                        t.parse().map(Json::Float).map_err(|_| format!("bad token {}", t))
                    }
                }
            }
        }
    }
}

fn string(c: &[char], p: &mut usize) -> Result<String, String> {
    if c.get(*p) != Some(&'"') {
        return Err("string".into());
    }
    *p += 1;
    let mut out: Vec<u16> = Vec::new();
    loop {
        let ch = *c.get(*p).ok_or("eof in string")?;
        *p += 1;
        match ch {
            '"' => return String::from_utf16(&out).map_err(|e| e.to_string()),
            '\\' => {
                let e = *c.get(*p).ok_or("eof in string")?;
                *p += 1;
                let ch = match e {
                    'n' => '\n',
                    'r' => '\r',
                    't' => '\t',
                    'b' => '\u{8}',
                    'f' => '\u{c}',
                    'u' => {
                        let h: String = c.get(*p..*p + 4).ok_or("eof in string")?.iter().collect();
                        *p += 4;
                        out.push(u16::from_str_radix(&h, 16).map_err(|e| e.to_string())?);
                        continue;
                    }
                    c => c,
                };
                let mut b = [0u16; 2];
                out.extend_from_slice(ch.encode_utf16(&mut b));
            }
            ch => {
                let mut b = [0u16; 2];
                out.extend_from_slice(ch.encode_utf16(&mut b));
            }
        }
    }
}
