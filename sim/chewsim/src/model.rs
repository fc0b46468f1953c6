//! What a reader over a text is, as plainly as possible: a list of characters
//! and a cursor. Positions are sets of what is allowed.
use std::collections::BTreeSet;

#[derive(Clone, Debug, PartialEq)]
pub enum Err {
    Branch(char, Vec<char>),
    Str(String, String),
    Eos,
}

#[derive(Clone, Debug)]
pub struct Model {
    pub text: Vec<char>,
    /// Indices at which the source is dry until resumed.
    pub dry: BTreeSet<usize>,
    pub at: usize,
    /// Allowed positions.
    pub pos: Vec<(usize, usize)>,
    /// Between a CR and its LF, where the position is left open.
    pub open: bool,
    cr_ended: bool,
}

impl Model {
    pub fn new(text: Vec<char>, dry: BTreeSet<usize>) -> Model {
        Model { text, dry, at: 0, pos: vec![(1, 0)], open: false, cr_ended: false }
    }
    fn limit(&self) -> usize {
        self.dry.iter().next().map_or(self.text.len(), |&d| d.min(self.text.len()))
    }
    pub fn resume(&mut self) -> Option<usize> {
        let d = *self.dry.iter().next()?;
        self.dry.remove(&d);
        Some(d)
    }
    pub fn peek(&self) -> Option<char> {
        if self.at < self.limit() {
            Some(self.text[self.at])
        } else {
            None
        }
    }
    pub fn ahead(&self) -> &[char] {
        &self.text[self.at..self.limit().max(self.at)]
    }
    pub fn next(&mut self) -> Option<char> {
        let c = self.peek()?;
        self.at += 1;
        let was_open = std::mem::replace(&mut self.open, false);
        let was_ended = std::mem::replace(&mut self.cr_ended, false);
        match c {
            '\n' if was_ended => {
                // the reader could not know: one line end or two
                let p: Vec<_> = self.pos.iter().flat_map(|&(l, _)| vec![(l, 0), (l + 1, 0)]).collect();
                self.pos = p;
                self.pos.sort_unstable();
                self.pos.dedup();
            }
            '\r' => match self.peek() {
                Some('\n') => self.open = true,
                n => {
                    self.pos.iter_mut().for_each(|p| *p = (p.0 + 1, 0));
                    self.cr_ended = n.is_none();
                }
            },
            '\n' | '\u{b}' | '\u{c}' | '\u{85}' | '\u{2028}' | '\u{2029}' => {
                let _ = was_open;
                self.pos.iter_mut().for_each(|p| *p = (p.0 + 1, 0));
            }
            _ => self.pos.iter_mut().for_each(|p| p.1 += 1),
        }
        Some(c)
    }
    pub fn literal(&mut self, s: &str) -> Result<(), Err> {
        let mut done = String::new();
        for e in s.chars() {
            match self.peek() {
                None => return Err(Err::Eos),
                Some(c) if c == e => {
                    self.next();
                    done.push(c);
                }
                Some(c) => {
                    done.push(c);
                    return Err(Err::Str(done, s.to_owned()));
                }
            }
        }
        Ok(())
    }
    pub fn from_set(&mut self, set: &[char], n: usize) -> Result<String, Err> {
        let mut out = String::new();
        for _ in 0..n {
            match self.peek() {
                None => return Err(Err::Eos),
                Some(c) if set.contains(&c) => {
                    self.next();
                    out.push(c);
                }
                Some(c) => return Err(Err::Branch(c, set.to_vec())),
            }
        }
        Ok(out)
    }
    /// Letters, at least one; a failure names all letters.
    pub fn word(&mut self) -> Result<String, Err> {
        let mut out = String::new();
        while let Some(c) = self.peek() {
            if !crate::LETTERS.contains(&c) {
                break;
            }
            out.push(c);
            self.next();
        }
        if out.is_empty() {
            return Err(self.peek().map_or(Err::Eos, |c| Err::Branch(c, crate::LETTERS.to_vec())));
        }
        Ok(out)
    }
    pub fn item(&mut self, it: &crate::Item) -> Result<String, Err> {
        match it {
            crate::Item::Set(set, n) => self.from_set(set, *n),
            crate::Item::Lit(s) => self.literal(s).map(|()| s.clone()),
            crate::Item::Word => self.word(),
        }
    }
    /// One step of a separated list.
    pub fn list(&mut self, l: &crate::List) -> Option<Result<String, Err>> {
        if self.peek()? == l.stop {
            return None;
        }
        let v = match self.item(&l.item) {
            Ok(v) => v,
            Err(e) => return Some(Err(e)),
        };
        Some(match self.peek() {
            None => Err(Err::Eos),
            Some(c) if c == l.sep => {
                self.next();
                match self.peek() {
                    None => Err(Err::Eos),
                    Some(c) if l.first.contains(&c) => Ok(v),
                    Some(c) => Err(Err::Branch(c, l.first.clone())),
                }
            }
            Some(c) if c == l.stop => Ok(v),
            Some(c) => Err(Err::Branch(c, l.either.clone())),
        })
    }
}
