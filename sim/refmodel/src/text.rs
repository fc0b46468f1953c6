//! An independent reader of grammar text. It answers for the subset of the
//! token syntax it knows and says so when text falls outside it.
use crate::syntax::{Ex, Let, Prog};

#[derive(Clone, Debug, PartialEq)]
pub enum Read {
    Ok(Prog),
    /// Certainly not a grammar.
    Bad(String),
    /// Uses tokens this reader does not judge (comments, raw strings, ...).
    Unsupported,
}

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Ident(String),
    Str(String),
    Punct(char),
}

enum Stop {
    Bad(String),
    Unsupported,
}

fn is_start(c: char) -> bool {
    c.is_ascii_alphabetic() || c == '_'
}
fn is_cont(c: char) -> bool {
    c.is_ascii_alphanumeric() || c == '_'
}

/// Reserved words, which cannot name an argument.
/// A raw or byte string starts here: how many hashes?
fn raw_hashes(c: &[char], p: usize) -> Option<usize> {
    let rest = match c[p] {
        'r' => &c[p + 1..],
        _ => match c.get(p + 1) {
            Some('r') => &c[p + 2..],
            Some('"') | Some('\'') => return Some(0),
            _ => return None,
        },
    };
    let n = rest.iter().take_while(|x| **x == '#').count();
    if rest.get(n) == Some(&'"') {
        Some(n)
    } else {
        None
    }
}

fn lex(c: &[char]) -> Result<Vec<Tok>, Stop> {
    let mut out = Vec::new();
    let mut p = 0;
    while p < c.len() {
        let ch = c[p];
        if ch.is_whitespace() || ch == '\u{200e}' || ch == '\u{200f}' {
            p += 1;
        } else if !ch.is_ascii() {
            return Err(Stop::Unsupported);
        } else if ch == '/' && c.get(p + 1) == Some(&'/') {
            let third = c.get(p + 2);
            if third == Some(&'!') || (third == Some(&'/') && c.get(p + 3) != Some(&'/')) {
                return Err(Stop::Bad("a documentation comment".into()));
            }
            while p < c.len() && c[p] != '\n' {
                p += 1;
            }
        } else if ch == '/' && c.get(p + 1) == Some(&'*') {
            let third = c.get(p + 2);
            let short = third == Some(&'*') && c.get(p + 3) == Some(&'/');
            if third == Some(&'!') || (third == Some(&'*') && !short && c.get(p + 3) != Some(&'*')) {
                return Err(Stop::Bad("a documentation comment".into()));
            }
            let mut depth = 0;
            if short {
                p += 4;
            } else {
                loop {
                    match (c.get(p), c.get(p + 1)) {
                        (Some('/'), Some('*')) => {
                            depth += 1;
                            p += 2;
                        }
                        (Some('*'), Some('/')) => {
                            depth -= 1;
                            p += 2;
                            if depth == 0 {
                                break;
                            }
                        }
                        (Some(_), _) => p += 1,
                        (None, _) => return Err(Stop::Bad("unterminated comment".into())),
                    }
                }
            }
        } else if (ch == 'r' || ch == 'b') && raw_hashes(c, p).is_some() {
            let n = raw_hashes(c, p).unwrap();
            if ch == 'b' {
                return Err(Stop::Bad("bytes".into()));
            }
            p += 2 + n;
            let s = p;
            loop {
                match c.get(p) {
                    None => return Err(Stop::Bad("unterminated raw string".into())),
                    Some('\r') => return Err(Stop::Unsupported),
                    Some('"') if c[p + 1..].iter().take_while(|x| **x == '#').count() >= n => break,
                    Some(_) => p += 1,
                }
            }
            out.push(Tok::Str(c[s..p].iter().collect()));
            p += 1 + n;
            if c.get(p).map_or(false, |x| is_start(*x) || (!x.is_ascii() && !x.is_whitespace())) {
                return Err(Stop::Unsupported);
            }
        } else if is_start(ch) {
            let s = p;
            while p < c.len() && is_cont(c[p]) {
                p += 1;
            }
            let word: String = c[s..p].iter().collect();
            let prefix = ["r", "b", "br", "c", "cr"].contains(&word.as_str());
            if (prefix && matches!(c.get(p), Some('#') | Some('"') | Some('\'')))
                || c.get(p).map_or(false, |x| !x.is_ascii() && !x.is_whitespace())
            {
                return Err(Stop::Unsupported);
            }
            out.push(Tok::Ident(c[s..p].iter().collect()));
        } else if ch == '"' {
            p += 1;
            let mut s = String::new();
            loop {
                let ch = match c.get(p) {
                    None => return Err(Stop::Bad("unterminated string".into())),
                    Some(&x) => x,
                };
                p += 1;
                match ch {
                    '"' => break,
                    '\r' => return Err(Stop::Unsupported),
                    '\\' => {
                        let e = match c.get(p) {
                            None => return Err(Stop::Bad("unterminated string".into())),
                            Some(&x) => x,
                        };
                        p += 1;
                        match e {
                            'n' => s.push('\n'),
                            'r' => s.push('\r'),
                            't' => s.push('\t'),
                            '\\' => s.push('\\'),
                            '0' => s.push('\0'),
                            '\'' => s.push('\''),
                            '"' => s.push('"'),
                            'x' => {
                                let h = c.get(p).and_then(|x| x.to_digit(8));
                                let l = c.get(p + 1).and_then(|x| x.to_digit(16));
                                match (h, l) {
                                    (Some(h), Some(l)) => s.push((h * 16 + l) as u8 as char),
                                    _ => return Err(Stop::Bad("bad \\x".into())),
                                }
                                p += 2;
                            }
                            'u' => {
                                if c.get(p) != Some(&'{') {
                                    return Err(Stop::Bad("bad \\u".into()));
                                }
                                p += 1;
                                let mut n = 0_u32;
                                let mut digits = 0;
                                loop {
                                    match c.get(p) {
                                        Some('_') => return Err(Stop::Unsupported),
                                        Some('}') if digits > 0 => {
                                            p += 1;
                                            break;
                                        }
                                        Some(x) if x.is_ascii_hexdigit() && digits < 6 => {
                                            n = n * 16 + x.to_digit(16).unwrap();
                                            digits += 1;
                                            p += 1;
                                        }
                                        _ => return Err(Stop::Bad("bad \\u".into())),
                                    }
                                }
                                match std::char::from_u32(n) {
                                    Some(x) => s.push(x),
                                    None => return Err(Stop::Bad("not a character".into())),
                                }
                            }
                            '\n' | '\r' => return Err(Stop::Unsupported),
                            _ => return Err(Stop::Bad("bad escape".into())),
                        }
                    }
                    x => s.push(x),
                }
            }
            if c.get(p).map_or(false, |x| is_start(*x) || (!x.is_ascii() && !x.is_whitespace())) {
                return Err(Stop::Unsupported);
            }
            out.push(Tok::Str(s));
        } else if "!/.|:;=()".contains(ch) {
            out.push(Tok::Punct(ch));
            p += 1;
        } else {
            // numbers, lifetimes, other punctuation: in no grammar
            // a token or a mistake, whatever follows: no grammar has it
            return Err(Stop::Bad(format!("stray {:?}", ch)));
        }
    }
    Ok(out)
}

struct P {
    t: Vec<Tok>,
    p: usize,
}

type R<T> = Result<T, String>;

impl P {
    fn punct(&mut self, c: char) -> bool {
        let ok = self.t.get(self.p) == Some(&Tok::Punct(c));
        self.p += usize::from(ok);
        ok
    }
    fn need(&mut self, c: char) -> R<()> {
        if self.punct(c) {
            Ok(())
        } else {
            Err(format!("expected {:?} at token {}", c, self.p))
        }
    }
    fn ident(&mut self) -> Option<String> {
        if let Some(Tok::Ident(s)) = self.t.get(self.p) {
            self.p += 1;
            Some(s.clone())
        } else {
            None
        }
    }
    fn arg(&mut self) -> R<String> {
        match self.ident() {
            Some(s) => Ok(s),
            _ => Err(format!("expected an argument name at token {}", self.p)),
        }
    }
    fn program(&mut self) -> R<Prog> {
        let mut lets = Vec::new();
        loop {
            match self.ident().as_deref() {
                Some("let") => {
                    let name = self.ident().ok_or("expected a name")?;
                    let mut args = Vec::new();
                    while !self.punct('=') {
                        args.push(self.arg()?);
                    }
                    let body = self.expr()?;
                    self.need(';')?;
                    lets.push(Let { name, args, body });
                }
                Some("match") => {
                    let goal = self.expr()?;
                    self.need(';')?;
                    if self.p != self.t.len() {
                        return Err("text after the goal".into());
                    }
                    return Ok(Prog { lets, goal });
                }
                _ => return Err("expected a statement".into()),
            }
        }
    }
    fn expr(&mut self) -> R<Ex> {
        if self.punct('/') {
            let mut args = vec![self.arg()?];
            while !self.punct('/') {
                args.push(self.arg()?);
            }
            return Ok(Ex::Lam(args, Box::new(self.alt()?)));
        }
        self.alt()
    }
    fn alt(&mut self) -> R<Ex> {
        let mut v = Vec::new();
        loop {
            let e = self.cat()?;
            let label = if self.punct(':') { Some(self.ident().ok_or("expected a label")?) } else { None };
            v.push((e, label));
            if !self.punct('|') {
                break;
            }
        }
        if v.len() == 1 && v[0].1.is_none() {
            return Ok(v.pop().unwrap().0);
        }
        Ok(Ex::Alt(v))
    }
    fn cat(&mut self) -> R<Ex> {
        let mut v = vec![self.call()?];
        while self.punct('.') {
            v.push(self.call()?);
        }
        Ok(if v.len() == 1 { v.pop().unwrap() } else { Ex::Cat(v) })
    }
    fn call(&mut self) -> R<Ex> {
        let on = self.term()?.ok_or_else(|| format!("expected a term at token {}", self.p))?;
        let mut args = Vec::new();
        while let Some(a) = self.term()? {
            args.push(a);
        }
        Ok(if args.is_empty() { on } else { Ex::Call(Box::new(on), args) })
    }
    fn term(&mut self) -> R<Option<Ex>> {
        let t = match self.t.get(self.p) {
            Some(t) => t.clone(),
            None => return Ok(None),
        };
        Ok(Some(match t {
            Tok::Ident(s) => {
                self.p += 1;
                if s == "_" {
                    Ex::Eps
                } else {
                    Ex::Var(s)
                }
            }
            Tok::Str(s) => {
                self.p += 1;
                Ex::Lit(s)
            }
            Tok::Punct('!') => {
                self.p += 1;
                Ex::Fix(Box::new(self.term()?.ok_or("expected a term after !")?))
            }
            Tok::Punct('(') => {
                self.p += 1;
                let e = self.expr()?;
                self.need(')')?;
                e
            }
            _ => return Ok(None),
        }))
    }
}

pub fn read(text: &str) -> Read {
    let c: Vec<char> = text.chars().collect();
    if c.first() == Some(&'\u{feff}') {
        return Read::Unsupported;
    }
    match lex(&c) {
        Err(Stop::Bad(s)) => Read::Bad(s),
        Err(Stop::Unsupported) => Read::Unsupported,
        Ok(t) => match (P { t, p: 0 }).program() {
            Ok(p) => Read::Ok(p),
            Err(e) => Read::Bad(e),
        },
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Verdict {
    Accept,
    Reject(String),
    /// The reference refuses to judge.
    Unknown,
}

/// Is this text a well-formed, well-typed grammar?
pub fn verdict(text: &str) -> Verdict {
    match read(text) {
        Read::Unsupported => Verdict::Unknown,
        Read::Bad(s) => Verdict::Reject(s),
        Read::Ok(p) => prog_verdict(&p),
    }
}

pub fn prog_verdict(p: &Prog) -> Verdict {
    match crate::eval::eval(p) {
        Err(crate::eval::EvalError::Fuel) => Verdict::Unknown,
        Err(e) => Verdict::Reject(format!("{:?}", e)),
        Ok(core) => {
            let t = crate::typing::types(&core);
            if t.faults.is_empty() {
                Verdict::Accept
            } else {
                Verdict::Reject(format!("{:?}", t.faults))
            }
        }
    }
}
