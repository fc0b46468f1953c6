//! One parsing session: run it, observe it.
use std::collections::hash_map::DefaultHasher;
use std::fmt::{Debug, Display, Write};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};

use chewed::{IterWrapper, LineCol, Parse, ParseError, Parser, TakeError};

use crate::source::{Abort, Runaway, Src};
use crate::weigh::{weigh, Counted, End, Weighed};

/// A value, seen from outside.
#[derive(Clone, Debug, PartialEq)]
pub struct Seen {
    pub display: String,
    pub debug: String,
    /// Re-parsing the display: equal, or what went wrong.
    pub again: Result<(), String>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Fault {
    Branch(usize, usize, char, Vec<char>),
    Str(usize, usize, String, String),
    Eos(usize, usize),
    Continues(usize, usize),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Got {
    Value(Seen),
    Error(Fault, String),
    Panic(String),
    /// The source tore the session down.
    Aborted,
    Runaway,
}

fn lc(p: &LineCol) -> (usize, usize) {
    (p.line, p.col)
}

fn take_fault(e: &TakeError) -> Fault {
    match e {
        TakeError::BadBranch(p, c, set) => Fault::Branch(lc(p).0, lc(p).1, *c, set.to_vec()),
        TakeError::BadString(p, got, exp) => Fault::Str(lc(p).0, lc(p).1, got.clone(), (*exp).to_owned()),
        TakeError::EndOfStream(p) => Fault::Eos(lc(p).0, lc(p).1),
    }
}

fn parse_fault(e: &ParseError) -> Fault {
    match e {
        ParseError::TakeError(e) => take_fault(e),
        ParseError::InputContinues(p) => Fault::Continues(lc(p).0, lc(p).1),
    }
}

fn hash<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

fn seen<T: Parse + Debug + Clone + PartialEq + Hash>(v: T) -> Seen {
    let display = v.to_string();
    let again = match T::parse_str(&display) {
        Ok(w) => {
            if w != v {
                Err("re-parsing its text gives a different value".into())
            } else if hash(&w) != hash(&v) || v.clone() != v {
                Err("equal values differ in hash, or a clone is not equal".into())
            } else {
                Ok(())
            }
        }
        Err(e) => Err(format!("re-parsing its text fails: {}", e)),
    };
    let again = again.and_then(|()| sinks(&v, &display));
    let debug = format!("{:?}", v);
    Seen { display, debug, again }
}

/// A sink that fails once `left` bytes are in it.
struct Sink {
    left: usize,
    got: String,
}

impl std::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if s.len() > self.left {
            self.left = 0;
            return Err(std::fmt::Error);
        }
        self.left -= s.len();
        self.got.push_str(s);
        Ok(())
    }
}

/// Printing into sinks that fail: reported, and nothing after the failure.
fn sinks<T: Display>(v: &T, display: &str) -> Result<(), String> {
    let n = display.len();
    if n == 0 || n > 300 {
        return Ok(());
    }
    for left in [0, 1, n / 3, n / 2, n.saturating_sub(2), n - 1] {
        if left >= n {
            continue;
        }
        let mut sink = Sink { left, got: String::new() };
        match write!(sink, "{}", v) {
            Ok(()) => return Err(format!("printing into a sink of {} bytes reports success", left)),
            Err(_) if !display.starts_with(&sink.got) => {
                return Err(format!("printing into a sink of {} bytes leaves {:?} in it", left, sink.got))
            }
            Err(_) => {}
        }
    }
    Ok(())
}

pub fn caught(f: impl FnOnce() -> Got) -> Got {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(g) => g,
        Err(p) => {
            if p.is::<Abort>() {
                Got::Aborted
            } else if p.is::<Runaway>() {
                Got::Runaway
            } else if let Some(s) = p.downcast_ref::<&str>() {
                Got::Panic((*s).to_owned())
            } else if let Some(s) = p.downcast_ref::<String>() {
                Got::Panic(s.clone())
            } else {
                Got::Panic("?".into())
            }
        }
    }
}

pub const WHOLE: [&str; 4] = ["parser", "parse", "boxed", "str"];

/// A parser under test, without its type.
pub trait Subject {
    /// Read a stream to its end.
    fn whole(&self, how: &str, src: Src) -> Got;
    /// Take one value; `as_dyn`: through an unsized iterator.
    fn take(&self, stream: &mut IterWrapper<Src>, as_dyn: bool) -> Got;
    /// The same, for what they need in memory.
    fn weigh_whole(&self, how: &str, src: &Src) -> Weighed;
    fn weigh_take(&self, stream: &mut IterWrapper<Src>, as_dyn: bool) -> Weighed;
}

pub struct Of<T>(pub std::marker::PhantomData<T>);

impl<T: Parse + Debug + Clone + PartialEq + Hash + 'static> Subject for Of<T> {
    fn whole(&self, how: &str, src: Src) -> Got {
        caught(|| {
            let r: Result<T, ParseError> = match how {
                "parser" => IterWrapper::new(src).parse::<T>(),
                "parse" => T::parse(IterWrapper::new(src)),
                "boxed" => Box::<T>::parse(IterWrapper::new(src)).map(|b| *b),
                _ => {
                    let text: String = src.0.borrow().chars.iter().collect();
                    T::parse_str(&text)
                }
            };
            match r {
                Ok(v) => Got::Value(seen(v)),
                Err(e) => Got::Error(parse_fault(&e), e.to_string()),
            }
        })
    }
    fn take(&self, stream: &mut IterWrapper<Src>, as_dyn: bool) -> Got {
        caught(|| {
            let r: Result<T, TakeError> = if as_dyn {
                let s: &mut IterWrapper<dyn Iterator<Item = char>> = stream;
                T::take(s)
            } else {
                stream.take::<T>()
            };
            match r {
                Ok(v) => Got::Value(seen(v)),
                Err(e) => Got::Error(take_fault(&e), e.to_string()),
            }
        })
    }
    fn weigh_whole(&self, how: &str, src: &Src) -> Weighed {
        let text: String = {
            let _p = crate::weigh::pause();
            if how == "str" { src.0.borrow().chars.iter().collect() } else { String::new() }
        };
        let src = src.clone();
        let w = weigh(
            || -> Result<T, ParseError> {
                match how {
                    "parser" => IterWrapper::new(src).parse::<T>(),
                    "parse" => T::parse(IterWrapper::new(src)),
                    "boxed" => Box::<T>::parse(IterWrapper::new(src)).map(|b| *b),
                    _ => T::parse_str(&text),
                }
            },
            print,
        );
        let _p = crate::weigh::pause();
        drop(text);
        w
    }
    fn weigh_take(&self, stream: &mut IterWrapper<Src>, as_dyn: bool) -> Weighed {
        weigh(
            || -> Result<T, TakeError> {
                if as_dyn {
                    let s: &mut IterWrapper<dyn Iterator<Item = char>> = stream;
                    T::take(s)
                } else {
                    stream.take::<T>()
                }
            },
            print,
        )
    }
}

/// Print what came of a session.
fn print<T: Display, E: Display>(r: &Result<T, E>, to: &mut Counted) -> End {
    match r {
        Ok(v) => {
            let _ = write!(to, "{}", v);
            End::Value
        }
        Err(e) => {
            let _ = write!(to, "{}", e);
            End::Error
        }
    }
}
