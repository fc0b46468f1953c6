//! The simulated peer: an iterator of characters that delays, runs dry, ends,
//! is reset or stalls, and watches what the parser asks for.
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;

use dst::baton;
use refmodel::machine::Machine;

/// Panic payload of a source that tears its session down.
pub struct Abort;
/// Panic payload when a parser keeps asking a source that has ended.
pub struct Runaway;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ending {
    Eof,
    /// The connection is reset: the session unwinds.
    Abort,
    /// Nothing ever comes again.
    Stall,
}

/// What may be asked for (C04).
pub struct Gate {
    machine: Machine,
    viable: bool,
    cr: bool,
    whole: bool,
}

impl Gate {
    pub fn new(mut machine: Machine, ahead: &[char], whole: bool) -> Gate {
        let mut viable = true;
        let mut cr = false;
        for &c in ahead {
            viable = viable && machine.feed(c);
            cr = viable && c == '\r';
        }
        Gate { machine, viable, cr, whole }
    }
    fn saw(&mut self, c: char) {
        if self.viable {
            self.viable = self.machine.feed(c);
            self.cr = self.viable && c == '\r';
        }
    }
    fn allows(&self) -> Result<(), String> {
        if !self.viable {
            Err("after a character that already decided the outcome".into())
        } else if !self.machine.complete() || self.machine.extendable() || self.cr || self.whole {
            Ok(())
        } else {
            Err("after a complete message that nothing can extend".into())
        }
    }
}

impl Default for State {
    fn default() -> State {
        State {
            chars: Vec::new(),
            next: 0,
            dry: BTreeMap::new(),
            delays: BTreeMap::new(),
            ending: Ending::Eof,
            gate: None,
            needless: None,
            pulls: 0,
            nones: 0,
            clock: 0,
            states: Vec::new(),
            meanwhile: BTreeMap::new(),
        }
    }
}

pub struct State {
    pub chars: Vec<char>,
    pub next: usize,
    /// Positions where the source runs dry until resumed.
    pub dry: BTreeMap<usize, bool>,
    pub delays: BTreeMap<usize, u64>,
    pub ending: Ending,
    pub gate: Option<Gate>,
    /// First needless request: where, why.
    pub needless: Option<(usize, String)>,
    pub pulls: u64,
    pub nones: u64,
    pub clock: u64,
    pub states: Vec<u64>,
    /// What else happens on this thread while a request is served.
    pub meanwhile: BTreeMap<usize, Box<dyn FnOnce()>>,
}

#[derive(Clone)]
pub struct Src(pub Rc<RefCell<State>>);

impl Src {
    pub fn new(chars: Vec<char>) -> Src {
        Src(Rc::new(RefCell::new(State { chars, ..State::default() })))
    }
    pub fn resume(&self, at: usize) {
        if let Some(d) = self.0.borrow_mut().dry.get_mut(&at) {
            *d = true;
        }
    }
}

impl Iterator for Src {
    type Item = char;
    fn next(&mut self) -> Option<char> {
        baton::point();
        let quiet = crate::weigh::pause();
        let mut s = self.0.borrow_mut();
        s.pulls += 1;
        let at = s.next;
        if s.needless.is_none() {
            if let Some(Err(why)) = s.gate.as_ref().map(Gate::allows) {
                s.needless = Some((at, why));
            }
        }
        if let Some(d) = s.delays.remove(&at) {
            s.clock += d;
            drop(s);
            baton::sleep(d);
            s = self.0.borrow_mut();
        }
        if let Some(f) = s.meanwhile.remove(&at) {
            drop(s);
            f();
            s = self.0.borrow_mut();
        }
        if s.dry.get(&at) == Some(&false) {
            s.nones += 1;
        } else if at < s.chars.len() {
            let c = s.chars[at];
            s.next += 1;
            s.clock += 1;
            if let Some(g) = &mut s.gate {
                g.saw(c);
                let h = g.machine.state_hash();
                s.states.push(h);
            }
            return Some(c);
        } else {
            match s.ending {
                Ending::Eof => s.nones += 1,
                Ending::Abort => {
                    drop(s);
                    drop(quiet);
                    std::panic::panic_any(Abort);
                }
                Ending::Stall => {
                    drop(s);
                    drop(quiet);
                    if baton::scheduled() {
                        baton::stall();
                    }
                    // alone in the process, for ever is an unwinding stop
                    std::panic::panic_any(Abort);
                }
            }
        }
        if s.nones > 20_000 {
            drop(s);
            drop(quiet);
            std::panic::panic_any(Runaway);
        }
        None
    }
}
