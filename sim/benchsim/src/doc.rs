//! JSON: a reference reader and a generator.
use std::collections::BTreeMap;

use chomp_bench::json::Value;
use dst::Rng;

#[derive(Clone, Debug, PartialEq)]
pub enum Model {
    Null,
    Bool(bool),
    /// The bits.
    Number(u64),
    Str(String),
    Array(Vec<Model>),
    Object(BTreeMap<String, Model>),
}

pub fn model(v: &Value) -> Model {
    match v {
        Value::Null => Model::Null,
        Value::Bool(b) => Model::Bool(*b),
        Value::Number(n) => Model::Number(n.to_bits()),
        Value::String(s) => Model::Str(s.clone()),
        Value::Array(a) => Model::Array(a.iter().map(model).collect()),
        Value::Object(o) => Model::Object(o.iter().map(|(k, v)| (k.clone(), model(v))).collect()),
    }
}

impl Model {
    /// Can it be written as JSON at all?
    pub fn finite(&self) -> bool {
        match self {
            Model::Number(b) => f64::from_bits(*b).is_finite(),
            Model::Array(a) => a.iter().all(Model::finite),
            Model::Object(o) => o.values().all(Model::finite),
            _ => true,
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Verdict {
    Value(Model),
    Reject,
    Outside,
}

fn hex4(t: &[char]) -> Option<u32> {
    if t.len() < 4 {
        return None;
    }
    t[..4].iter().try_fold(0, |a, c| if c.is_ascii() { c.to_digit(16).map(|d| a * 16 + d) } else { None })
}

/// Some escape names half a pair without its other half.
fn lone(t: &[char]) -> bool {
    let mut p = 0;
    while p < t.len() {
        if t[p] != '\\' {
            p += 1;
            continue;
        }
        if t.get(p + 1) != Some(&'u') {
            p += 2;
            continue;
        }
        match hex4(&t[p + 2..]) {
            Some(0xdc00..=0xdfff) => return true,
            Some(0xd800..=0xdbff) => {
                let rest = &t[p + 6..];
                let ended = rest.len() < 6
                    && rest.iter().enumerate().all(|(i, c)| match i {
                        0 => *c == '\\',
                        1 => *c == 'u',
                        2 => "dD".contains(*c),
                        3 => "cdefCDEF".contains(*c),
                        _ => c.is_ascii_hexdigit(),
                    });
                if !ended {
                    match rest {
                        ['\\', 'u', low @ ..] if matches!(hex4(low), Some(0xdc00..=0xdfff)) => p += 12,
                        _ => return true,
                    }
                } else {
                    return false;
                }
            }
            Some(_) => p += 6,
            None => p += 2,
        }
    }
    false
}

struct Rd<'a> {
    t: &'a [char],
    p: usize,
}

impl Rd<'_> {
    fn peek(&self) -> char {
        self.t.get(self.p).copied().unwrap_or('\0')
    }
    fn eat(&mut self, s: &str) -> Option<()> {
        for c in s.chars() {
            if self.t.get(self.p) != Some(&c) {
                return None;
            }
            self.p += 1;
        }
        Some(())
    }
    fn ws(&mut self) {
        while matches!(self.t.get(self.p), Some(' ' | '\t' | '\n' | '\r')) {
            self.p += 1;
        }
    }
    fn digits(&mut self) -> Option<()> {
        let from = self.p;
        while self.peek().is_ascii_digit() {
            self.p += 1;
        }
        if self.p > from {
            Some(())
        } else {
            None
        }
    }
    fn string(&mut self) -> Option<String> {
        self.eat("\"")?;
        let mut units: Vec<u16> = Vec::new();
        loop {
            let c = *self.t.get(self.p)?;
            self.p += 1;
            match c {
                '"' => return String::from_utf16(&units).ok(),
                '\0'..='\x1f' => return None,
                '\\' => {
                    let e = *self.t.get(self.p)?;
                    self.p += 1;
                    units.push(match e {
                        '"' | '\\' | '/' => e as u16,
                        'b' => 8,
                        'f' => 12,
                        'n' => 10,
                        'r' => 13,
                        't' => 9,
                        'u' => {
                            let v = hex4(&self.t[self.p..])?;
                            self.p += 4;
                            v as u16
                        }
                        _ => return None,
                    });
                }
                c => {
                    let mut b = [0; 2];
                    units.extend_from_slice(c.encode_utf16(&mut b));
                }
            }
        }
    }
    fn value(&mut self) -> Option<Model> {
        self.ws();
        let v = match self.peek() {
            'n' => self.eat("null").map(|_| Model::Null)?,
            't' => self.eat("true").map(|_| Model::Bool(true))?,
            'f' => self.eat("false").map(|_| Model::Bool(false))?,
            '"' => Model::Str(self.string()?),
            '[' => {
                self.p += 1;
                self.ws();
                let mut out = Vec::new();
                if self.peek() == ']' {
                    self.p += 1;
                } else {
                    loop {
                        out.push(self.value()?);
                        if self.peek() == ',' {
                            self.p += 1;
                        } else {
                            self.eat("]")?;
                            break;
                        }
                    }
                }
                Model::Array(out)
            }
            '{' => {
                self.p += 1;
                self.ws();
                let mut out = BTreeMap::new();
                if self.peek() == '}' {
                    self.p += 1;
                } else {
                    loop {
                        self.ws();
                        let k = self.string()?;
                        self.ws();
                        self.eat(":")?;
                        let v = self.value()?;
                        out.insert(k, v);
                        if self.peek() == ',' {
                            self.p += 1;
                        } else {
                            self.eat("}")?;
                            break;
                        }
                    }
                }
                Model::Object(out)
            }
            _ => {
                let from = self.p;
                if self.peek() == '-' {
                    self.p += 1;
                }
                if self.peek() == '0' {
                    self.p += 1;
                } else {
                    self.digits()?;
                }
                if self.peek() == '.' {
                    self.p += 1;
                    self.digits()?;
                }
                if matches!(self.peek(), 'e' | 'E') {
                    self.p += 1;
                    if matches!(self.peek(), '+' | '-') {
                        self.p += 1;
                    }
                    self.digits()?;
                }
                let s: String = self.t[from..self.p].iter().collect();
                Model::Number(s.parse::<f64>().ok()?.to_bits())
            }
        };
        self.ws();
        Some(v)
    }
}

/// What the whole text denotes. `halves`: judge half surrogate pairs, too (a recorded finding).
pub fn read(t: &[char], halves: bool) -> Verdict {
    if lone(t) {
        return if halves { Verdict::Reject } else { Verdict::Outside };
    }
    let mut r = Rd { t, p: 0 };
    match r.value() {
        Some(v) if r.p == t.len() => Verdict::Value(v),
        _ => Verdict::Reject,
    }
}

/// Does a text stay within the subset the generated reader is written for?
pub fn plain(t: &[char]) -> bool {
    t.iter().all(|&c| (' '..='~').contains(&c) || "\t\n\r".contains(c))
}

fn ws(rng: &mut Rng, lots: bool, out: &mut String) {
    let n = if lots { rng.below(4) } else { usize::from(rng.chance(1, 8)) };
    let n = if n == 3 && rng.chance(1, 60) { rng.below(400) } else { n };
    for _ in 0..n {
        out.push(*rng.pick(&[' ', ' ', '\t', '\n', '\r']));
    }
}

fn hex(rng: &mut Rng, v: u32, out: &mut String) {
    out.push_str("\\u");
    for d in format!("{:04x}", v).chars() {
        out.push(if rng.chance(1, 2) { d.to_ascii_uppercase() } else { d });
    }
}

fn string(rng: &mut Rng, out: &mut String) {
    out.push('"');
    let n = match rng.below(5) {
        0 => 0,
        1 | 2 => rng.below(4),
        3 => rng.below(12),
        _ if rng.chance(1, 20) => rng.below(700),
        _ => rng.below(30),
    };
    let kind = rng.below(3);
    let foreign = rng.chance(1, 25);
    for _ in 0..n {
        match if kind == 0 { 9 } else { rng.below(10) } {
            0 | 1 => {
                out.push('\\');
                out.push(*rng.pick(&['"', '\\', '/', 'b', 'f', 'n', 'r', 't']));
            }
            2 | 3 => {
                let v = match rng.below(4) {
                    0 => rng.below(0x80) as u32,
                    1 => rng.below(0xd800) as u32,
                    2 => rng.range(0xe000, 0xffff) as u32,
                    _ => *rng.pick(&[0, 0x1f, 0x20, 0x7f, 0x80, 0xff, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x2028]),
                };
                hex(rng, v, out);
            }
            4 => {
                let (h, l) = match rng.below(3) {
                    0 => (0xd800, 0xdc00),
                    1 => (0xdbff, 0xdfff),
                    _ => (rng.range(0xd800, 0xdbff), rng.range(0xdc00, 0xdfff)),
                };
                hex(rng, h as u32, out);
                hex(rng, l as u32, out);
            }
            _ if foreign && rng.chance(1, 3) => {
                out.push(*rng.pick(&['é', '漢', '🙂', '\u{7f}', '\u{80}', '\u{2028}', '\u{feff}', '\u{ffff}', '\u{10ffff}', '\u{1f}', '\n', '\0']))
            }
            _ => loop {
                let c = (0x20 + rng.below(0x5f)) as u8 as char;
                if c != '"' && c != '\\' {
                    out.push(c);
                    break;
                }
            },
        }
    }
    out.push('"');
}

fn digits(rng: &mut Rng, n: usize, out: &mut String) {
    for _ in 0..n {
        out.push((b'0' + rng.below(10) as u8) as char);
    }
}

fn number(rng: &mut Rng, out: &mut String) {
    if rng.chance(1, 3) {
        out.push('-');
    }
    if rng.chance(1, 4) {
        out.push('0');
    } else {
        out.push((b'1' + rng.below(9) as u8) as char);
        let n = match rng.below(80) {
            0 => rng.below(330),
            1..=10 => rng.below(25),
            _ => rng.below(4),
        };
        digits(rng, n, out);
    }
    if rng.chance(1, 3) {
        out.push('.');
        let n = if rng.chance(1, 8) { rng.range(1, 30) } else { rng.range(1, 4) };
        digits(rng, n, out);
    }
    if rng.chance(1, 3) {
        out.push(*rng.pick(&['e', 'E']));
        match rng.below(3) {
            0 => out.push('+'),
            1 => out.push('-'),
            _ => (),
        }
        let n = if rng.chance(1, 4) { 3 } else { rng.range(1, 2) };
        digits(rng, n, out);
    }
}

fn value(rng: &mut Rng, budget: &mut usize, depth: usize, lots: bool, keys: &[&str], out: &mut String) {
    *budget = budget.saturating_sub(1);
    let pick = if depth == 0 || *budget == 0 { rng.below(5) } else { rng.below(11) };
    match pick {
        0 => out.push_str("null"),
        1 => out.push_str(rng.pick(&["true", "false"])),
        2 | 3 => number(rng, out),
        4 => string(rng, out),
        k => {
            let object = k < 8;
            out.push(if object { '{' } else { '[' });
            ws(rng, lots, out);
            let n = match rng.below(4) {
                0 => 0,
                1 => 1,
                _ => rng.below(7),
            };
            for i in 0..n {
                if i > 0 {
                    out.push(',');
                    ws(rng, lots, out);
                }
                if object {
                    if rng.chance(1, 2) {
                        // the same key again, now and then spelt otherwise
                        out.push('"');
                        for c in rng.pick(keys).chars() {
                            if rng.chance(1, 8) {
                                hex(rng, c as u32, out);
                            } else {
                                out.push(c);
                            }
                        }
                        out.push('"');
                    } else {
                        string(rng, out);
                    }
                    ws(rng, lots, out);
                    out.push(':');
                    ws(rng, lots, out);
                }
                value(rng, budget, depth - 1, lots, keys, out);
                ws(rng, lots, out);
            }
            out.push(if object { '}' } else { ']' });
        }
    }
}

pub fn text(rng: &mut Rng) -> String {
    let mut out = String::new();
    let lots = rng.chance(1, 3);
    ws(rng, lots, &mut out);
    match rng.below(24) {
        0 => {
            let n = rng.range(20, 200);
            let object: Vec<bool> = (0..n).map(|_| rng.chance(1, 3)).collect();
            for &o in &object {
                out.push_str(if o { "{\"k\":" } else { "[" });
                if !o && rng.chance(1, 6) {
                    out.push_str("0,");
                }
            }
            number(rng, &mut out);
            for &o in object.iter().rev() {
                out.push_str(if o { "}" } else { "]" });
            }
        }
        1 => {
            let object = rng.chance(1, 3);
            out.push(if object { '{' } else { '[' });
            for i in 0..rng.range(50, 300) {
                if i > 0 {
                    out.push(',');
                    ws(rng, lots, &mut out);
                }
                if object {
                    out.push_str(&format!("\"k{}\":", rng.below(300)));
                }
                match rng.below(3) {
                    0 => number(rng, &mut out),
                    1 => string(rng, &mut out),
                    _ => out.push_str(rng.pick(&["null", "true", "false", "[]", "{}"])),
                }
            }
            out.push(if object { '}' } else { ']' });
        }
        _ => {
            let depth = rng.below(6);
            let mut budget = rng.range(1, 40);
            value(rng, &mut budget, depth, lots, &["a", "b", "key", ""], &mut out);
        }
    }
    ws(rng, lots, &mut out);
    out
}
