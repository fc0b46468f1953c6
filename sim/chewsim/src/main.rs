//! C05 and C06: histories of reading operations on the runtime's reader over
//! a simulated source.
mod model;

use std::cell::RefCell;
use std::collections::{BTreeSet, HashMap};
use std::fmt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

use chewed::{Epsilon, IterWrapper, LineCol, Parse, ParseError, Parser, TakeError};
use dst::json::{obj, Json};
use dst::report::{Outcome, Sim, Stats};
use dst::rng::{derive, Rng};
use model::{Err as MErr, Model};

pub const LETTERS: &[char] = &['a', 'b', 'c', 'x', 'é', '字', '𝄞'];
const ENDS: &[char] = &['\n', '\r', '\u{b}', '\u{c}', '\u{85}', '\u{2028}', '\u{2029}'];
const ODD: &[char] = &[
    ' ', '\t', '\0', '\u{8}', '\u{e}', '\u{1c}', '\u{1f}', '\u{84}', '\u{86}', '\u{a0}', '\u{ad}', '\u{301}', '\u{200b}',
    '\u{2027}', '\u{202a}', '\u{2030}', '\u{d7ff}', '\u{e000}', '\u{feff}', '\u{fffd}', '\u{ffff}', '\u{10000}', '\u{10ffff}',
    '(', ')', ',', ';', '"', '1', '2', 'z', 'A', '\u{30a}', 'Ü', '\u{7f}', '\u{80}', '\u{9f}', '\u{7ff}', '\u{800}',
];

#[derive(Clone, Debug)]
pub enum Item {
    Set(Vec<char>, usize),
    Lit(String),
    Word,
}

#[derive(Clone, Debug)]
pub struct List {
    pub item: Item,
    pub sep: char,
    pub stop: char,
    pub either: Vec<char>,
    pub first: Vec<char>,
    pub steps: usize,
}

#[derive(Clone, Debug)]
enum Op {
    Next,
    Peek,
    Pos,
    /// Skip while in the set; with `left`, at most that many.
    Skip(Vec<char>, Option<usize>),
    Lit(String),
    Set(Vec<char>, usize),
    List(List),
    Take(u8),
    Resume,
}

fn chars(v: &[char]) -> Json {
    v.iter().collect::<String>().into()
}
fn unchars(j: &Json) -> Vec<char> {
    j.str().chars().collect()
}

impl Item {
    fn json(&self) -> Json {
        match self {
            Item::Set(s, n) => Json::Arr(vec!["set".into(), chars(s), (*n).into()]),
            Item::Lit(s) => Json::Arr(vec!["lit".into(), s.as_str().into()]),
            Item::Word => Json::Arr(vec!["word".into()]),
        }
    }
    fn from(j: &Json) -> Item {
        let a = j.arr();
        match a[0].str() {
            "set" => Item::Set(unchars(&a[1]), a[2].usize()),
            "lit" => Item::Lit(a[1].str().into()),
            _ => Item::Word,
        }
    }
}

impl Op {
    fn json(&self) -> Json {
        Json::Arr(match self {
            Op::Next => vec!["next".into()],
            Op::Peek => vec!["peek".into()],
            Op::Pos => vec!["pos".into()],
            Op::Resume => vec!["resume".into()],
            Op::Skip(s, l) => vec!["skip".into(), chars(s), l.map_or(-1_i64, |l| l as i64).into()],
            Op::Lit(s) => vec!["lit".into(), s.as_str().into()],
            Op::Set(s, n) => vec!["set".into(), chars(s), (*n).into()],
            Op::Take(k) => vec!["take".into(), u64::from(*k).into()],
            Op::List(l) => vec![
                "list".into(),
                l.item.json(),
                chars(&[l.sep, l.stop]),
                chars(&l.either),
                chars(&l.first),
                l.steps.into(),
            ],
        })
    }
    fn from(j: &Json) -> Op {
        let a = j.arr();
        match a[0].str() {
            "next" => Op::Next,
            "peek" => Op::Peek,
            "pos" => Op::Pos,
            "resume" => Op::Resume,
            "skip" => Op::Skip(unchars(&a[1]), if a[2].int() < 0 { None } else { Some(a[2].usize()) }),
            "lit" => Op::Lit(a[1].str().into()),
            "set" => Op::Set(unchars(&a[1]), a[2].usize()),
            "take" => Op::Take(a[1].usize() as u8),
            "list" => {
                let b = unchars(&a[2]);
                Op::List(List {
                    item: Item::from(&a[1]),
                    sep: b[0],
                    stop: b[1],
                    either: unchars(&a[3]),
                    first: unchars(&a[4]),
                    steps: a[5].usize(),
                })
            }
            o => panic!("operation {}", o),
        }
    }
}

// ---- the real side -------------------------------------------------------

/// The simulated peer.
struct SrcState {
    text: Vec<char>,
    dry: BTreeSet<usize>,
    delay: HashMap<usize, u64>,
    next: usize,
    pulls: u64,
    clock: u64,
}
#[derive(Clone)]
struct Src(Rc<RefCell<SrcState>>);
impl Iterator for Src {
    type Item = char;
    fn next(&mut self) -> Option<char> {
        let mut s = self.0.borrow_mut();
        s.pulls += 1;
        if s.pulls > 100_000 {
            panic!("the reader keeps asking");
        }
        let at = s.next;
        s.clock += 1 + s.delay.remove(&at).unwrap_or(0);
        if s.dry.contains(&at) || at >= s.text.len() {
            return None;
        }
        s.next += 1;
        Some(s.text[at])
    }
}

/// Another reader, for the trait's own methods.
struct Plain {
    src: Src,
    held: Option<char>,
    line: usize,
    col: usize,
}
impl Parser for Plain {
    fn next(&mut self) -> Option<char> {
        let c = self.held.take().or_else(|| self.src.next())?;
        let next = self.peek();
        if ENDS.contains(&c) && !(c == '\r' && next == Some('\n')) {
            self.line += 1;
            self.col = 0;
        } else {
            self.col += 1;
        }
        Some(c)
    }
    fn peek(&mut self) -> Option<char> {
        if self.held.is_none() {
            self.held = self.src.next();
        }
        self.held
    }
    fn pos(&self) -> LineCol {
        LineCol { line: self.line, col: self.col }
    }
}

#[derive(Clone, Debug)]
struct Word(String);
impl fmt::Display for Word {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl Parse for Word {
    fn take<P: Parser + ?Sized>(input: &mut P) -> Result<Self, TakeError> {
        let mut s = String::new();
        input.skip_while(|c| {
            let ok = LETTERS.contains(&c);
            if ok {
                s.push(c);
            }
            ok
        });
        if s.is_empty() {
            Err(match input.peek() {
                Some(c) => TakeError::BadBranch(input.pos(), c, LETTERS),
                None => TakeError::EndOfStream(input.pos()),
            })
        } else {
            Ok(Word(s))
        }
    }
}

/// Statics out of scenario strings, kept so that they are not leaked twice.
#[derive(Default)]
struct Intern {
    strs: HashMap<String, &'static str>,
    sets: HashMap<Vec<char>, &'static [char]>,
}
impl Intern {
    fn str(&mut self, s: &str) -> &'static str {
        if let Some(x) = self.strs.get(s) {
            return x;
        }
        let x: &'static str = Box::leak(s.to_owned().into_boxed_str());
        self.strs.insert(s.to_owned(), x);
        x
    }
    fn set(&mut self, s: &[char]) -> &'static [char] {
        if let Some(x) = self.sets.get(s) {
            return x;
        }
        let x: &'static [char] = Box::leak(s.to_vec().into_boxed_slice());
        self.sets.insert(s.to_vec(), x);
        x
    }
}

/// What an operation gave.
#[derive(Clone, Debug, PartialEq)]
enum Got {
    Char(Option<char>),
    Text(Result<String, (MErr, (usize, usize))>),
    Nothing,
}

fn pair(p: LineCol) -> (usize, usize) {
    (p.line, p.col)
}

fn plain(e: TakeError) -> (MErr, (usize, usize)) {
    match e {
        TakeError::BadBranch(p, c, s) => (MErr::Branch(c, s.to_vec()), pair(p)),
        TakeError::BadString(p, g, e) => (MErr::Str(g, e.to_owned()), pair(p)),
        TakeError::EndOfStream(p) => (MErr::Eos, pair(p)),
    }
}

fn take_item<P: Parser + ?Sized>(p: &mut P, it: &Item, names: &mut Intern) -> Result<String, TakeError> {
    match it {
        Item::Set(s, n) => {
            let mut buf = vec!['\u{1}'; *n];
            p.take_chars_from(names.set(s), &mut buf).map(|()| buf.iter().collect())
        }
        Item::Lit(s) => p.consume_str(names.str(s)).map(|()| s.clone()),
        Item::Word => p.take::<Word>().map(|w| w.to_string()),
    }
}

/// Panics of the code under test become results.
fn caught<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        e.downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| (*s).to_owned()))
            .unwrap_or_else(|| "panic".into())
    })
}

// ---- one run -------------------------------------------------------------

struct Run<'a> {
    model: Model,
    out: Outcome,
    stats: &'a mut Stats,
    names: &'a mut Intern,
    src: Src,
    /// Characters the run has seen, in order.
    seen: Vec<char>,
    /// A position that is not the model's.
    wrong: Option<String>,
}

impl Run<'_> {
    fn pos(&mut self, p: (usize, usize), what: &str) {
        self.out.log.num(p.0 as u64);
        self.out.log.num(p.1 as u64);
        if !self.model.open && !self.model.pos.contains(&p) && self.wrong.is_none() {
            let d = format!("{}: position {:?} after {:?}, not {:?}", what, p, shown(&self.model), self.model.pos);
            self.wrong = Some(d);
        }
    }
    fn same(&mut self, got: &Got, want: &Got, what: &str) {
        self.out.log.str(&format!("{:?}", got));
        let ok = match (got, want) {
            (Got::Text(Err((a, _))), Got::Text(Err((b, _)))) => a == b,
            (a, b) => a == b,
        };
        if !ok {
            let d = format!("{} gave {:?}, not {:?}, at character {}", what, strip(got), strip(want), self.model.at);
            self.out.fail("C05", "result", d);
        }
        if let (Got::Text(Err((_, p))), Got::Text(Err(_))) = (got, want) {
            self.pos(*p, &format!("error of {}", what));
        }
    }
    fn op<P: Parser + ?Sized>(&mut self, p: &mut P, op: &Op) -> Result<(), String> {
        let what = format!("{}", op.json().print());
        let err = |e: MErr| (e, (0, 0));
        match op {
            Op::Next => {
                let g = caught(|| p.next())?;
                let w = self.model.next();
                self.same(&Got::Char(g), &Got::Char(w), &what);
            }
            Op::Peek => {
                let g = caught(|| p.peek())?;
                let w = self.model.peek();
                self.same(&Got::Char(g), &Got::Char(w), &what);
            }
            Op::Pos => {}
            Op::Resume => {
                if let Some(d) = self.model.resume() {
                    self.src.0.borrow_mut().dry.remove(&d);
                    self.stats.count("fault:resumed");
                }
            }
            Op::Skip(set, left) => {
                let mut asked = Vec::new();
                let mut n = *left;
                caught(|| {
                    p.skip_while(|c| {
                        asked.push(c);
                        if n == Some(0) {
                            return false;
                        }
                        let ok = set.contains(&c);
                        if ok {
                            n = n.map(|n| n - 1);
                        }
                        ok
                    })
                })?;
                let mut want = Vec::new();
                let mut n = *left;
                while let Some(c) = self.model.peek() {
                    want.push(c);
                    if n == Some(0) || !set.contains(&c) {
                        break;
                    }
                    n = n.map(|n| n - 1);
                    self.model.next();
                }
                let t = |v: Vec<char>| Got::Text(Ok(v.into_iter().collect()));
                self.same(&t(asked), &t(want), &what);
            }
            Op::Lit(s) => {
                let st = self.names.str(s);
                let g = caught(|| p.consume_str(st))?.map(|()| s.clone()).map_err(plain);
                let w = self.model.literal(s).map(|()| s.clone()).map_err(err);
                self.same(&Got::Text(g), &Got::Text(w), &what);
            }
            Op::Set(s, n) => {
                let st = self.names.set(s);
                let mut buf = vec!['\u{1}'; *n];
                let g = caught(|| p.take_chars_from(st, &mut buf))?;
                let g = g.map(|()| buf.iter().collect::<String>()).map_err(plain);
                let before = self.model.at;
                let w = self.model.from_set(s, *n).map_err(err);
                let took: Vec<char> = self.model.text[before..self.model.at].to_vec();
                if buf[..took.len()] != took[..] {
                    let d = format!("{} stored {:?}, not {:?}", what, &buf[..took.len()], took);
                    self.out.fail("C05", "result", d);
                }
                self.same(&Got::Text(g), &Got::Text(w), &what);
            }
            Op::Take(k) => {
                let g = caught(|| match k {
                    0 => p.take::<Epsilon>().map(|e| e.to_string()),
                    1 => p.take::<Box<Epsilon>>().map(|e| e.to_string()),
                    2 => p.take::<Word>().map(|e| e.to_string()),
                    3 => p.take::<Box<Word>>().map(|e| e.to_string()),
                    _ => Word::take(p).map(|e| e.to_string()),
                })?
                .map_err(plain);
                let w = if *k < 2 { Ok(String::new()) } else { self.model.word() }.map_err(err);
                self.same(&Got::Text(g), &Got::Text(w), &what);
            }
            Op::List(l) => {
                let either = self.names.set(&l.either);
                let first = self.names.set(&l.first);
                let names = &mut *self.names;
                let got = caught(|| {
                    let mut v = Vec::new();
                    let mut it = p.iter_strict(|p: &mut P| take_item(p, &l.item, names), l.sep, l.stop, either, first);
                    for _ in 0..l.steps {
                        let x = it.next();
                        let end = !matches!(x, Some(Ok(_)));
                        v.push(x.map(|x| x.map_err(plain)));
                        if end {
                            break;
                        }
                    }
                    v
                })?;
                let mut at = 0;
                for i in 0..l.steps {
                    at = i;
                    let w = self.model.list(l);
                    let w = w.map_or(Got::Nothing, |x| Got::Text(x.map_err(err)));
                    let g = match got.get(i) {
                        Some(None) | None => Got::Nothing,
                        Some(Some(x)) => Got::Text(x.clone()),
                    };
                    // positions inside an iteration are the model's by now
                    self.same(&g, &w, &what);
                    if !matches!(w, Got::Text(Ok(_))) {
                        break;
                    }
                }
                let _ = at;
            }
        }
        let q = caught(|| p.pos())?;
        self.pos(pair(q), &what);
        self.stats.count(&format!("op:{}", op.json().arr()[0].str()));
        Ok(())
    }
    fn ops<P: Parser + ?Sized>(&mut self, p: &mut P, ops: &[Op]) {
        for op in ops {
            let before = self.model.at;
            if let Err(why) = self.op(p, op) {
                let d = format!("{} at character {} panicked: {}", op.json().print(), before, why);
                self.out.fail("C05", "panic", d);
                return;
            }
            let new: Vec<char> = self.model.text[before..self.model.at].to_vec();
            self.seen.extend(new);
            let mut h = dst::Fnv::default();
            h.num(self.model.ahead().len() as u64);
            h.str(&self.model.ahead().iter().take(3).collect::<String>());
            h.str(&format!("{}", op.json().print()));
            self.stats.state(h.0);
            if self.out.findings.is_empty() && self.wrong.is_some() {
                self.blame(p);
            }
            if !self.out.findings.is_empty() {
                return;
            }
        }
    }
    /// Where nothing can be left over.
    fn settle(&mut self) {
        if let (true, Some(d)) = (self.out.findings.is_empty(), self.wrong.take()) {
            self.out.fail("C06", "position", d);
        }
    }
    /// A wrong position: because other characters were consumed, or not?
    fn blame<P: Parser + ?Sized>(&mut self, p: &mut P) {
        while self.model.resume().is_some() {}
        self.src.0.borrow_mut().dry.clear();
        let mut left = Vec::new();
        let want = self.model.ahead().to_vec();
        let _ = caught(|| {
            while let Some(c) = p.next() {
                left.push(c);
                if left.len() > want.len() {
                    break;
                }
            }
        });
        let d = self.wrong.take().unwrap_or_default();
        if left == want {
            self.out.fail("C06", "position", d);
        } else {
            let d = format!("{}: {:?} is left to be read, not {:?}", d, left, want);
            self.out.fail("C05", "lost", d);
        }
    }
    /// Whatever is left must come out, once and in order.
    fn drain<P: Parser + ?Sized>(&mut self, p: &mut P) {
        while self.model.resume().is_some() {}
        self.src.0.borrow_mut().dry.clear();
        let left = self.model.text.len() - self.model.at;
        let ops = vec![Op::Next; left + 1];
        self.ops(p, &ops);
        self.ops(p, &[Op::Next, Op::Peek, Op::Peek, Op::Next]);
    }
}

fn strip(g: &Got) -> String {
    match g {
        Got::Text(Err((e, _))) => format!("{:?}", e),
        Got::Text(Ok(s)) => format!("{:?}", s),
        Got::Char(c) => format!("{:?}", c),
        Got::Nothing => "the end".into(),
    }
}

fn shown(m: &Model) -> String {
    let from = m.at.saturating_sub(12);
    m.text[from..m.at].iter().collect()
}

/// Each of these has to give the same, however the text is handed over.
fn closing<P: Parser>(run: &mut Run<'_>, p: P, kind: usize) {
    let what = "parse";
    let g = caught(|| match kind {
        0 => p.parse::<Epsilon>().map(|x| x.to_string()),
        1 => p.parse::<Box<Epsilon>>().map(|x| x.to_string()),
        2 => p.parse::<Word>().map(|x| x.to_string()),
        3 => p.parse::<Box<Word>>().map(|x| x.to_string()),
        _ => Word::parse(p).map(|x| x.to_string()),
    });
    let g = match g {
        Ok(g) => g,
        Err(why) => return run.out.fail("C05", "panic", format!("parse panicked: {}", why)),
    };
    let w = if kind < 2 { Ok(String::new()) } else { run.model.word() };
    run.out.log.str(&format!("{:?}", g));
    run.stats.count("op:parse");
    match (g, w) {
        (Err(ParseError::InputContinues(q)), Ok(_)) if run.model.peek().is_some() => run.pos(pair(q), "left-over input"),
        (Ok(a), Ok(b)) if run.model.peek().is_none() && a == b => {}
        (Err(ParseError::TakeError(e)), Err(b)) => {
            run.same(&Got::Text(Err(plain(e))), &Got::Text(Err((b, (0, 0)))), what)
        }
        (g, w) => {
            let d = format!("parse gave {:?}, taking gives {:?}, next is {:?}", g, w, run.model.peek());
            run.out.fail("C05", "result", d);
        }
    }
}

struct Reader {
    names: Intern,
}

impl Sim for Reader {
    fn scenario(&mut self, property: &str, seed: u64, index: u64) -> Json {
        let mut r = Rng::new(derive(seed, &[0xC4E3, dst::hash_str(property), index]));
        generate(&mut r, property)
    }

    fn run(&mut self, _: &str, sc: &Json, stats: &mut Stats) -> Outcome {
        let text: Vec<char> = sc.at("text").str().chars().collect();
        let dry: BTreeSet<usize> = sc.at("dry").arr().iter().map(Json::usize).collect();
        let delay: HashMap<usize, u64> =
            sc.at("delays").arr().iter().map(|d| (d.arr()[0].usize(), d.arr()[1].int() as u64)).collect();
        let ops: Vec<Op> = sc.at("ops").arr().iter().map(Op::from).collect();
        stats.add("fault:dry", dry.len() as u64);
        stats.add("fault:delay", delay.len() as u64);
        let src = Src(Rc::new(RefCell::new(SrcState {
            text: text.clone(),
            dry: dry.clone(),
            delay,
            next: 0,
            pulls: 0,
            clock: 0,
        })));
        let mut run = Run {
            model: Model::new(text, dry),
            out: Outcome::default(),
            stats,
            names: &mut self.names,
            src: src.clone(),
            seen: Vec::new(),
            wrong: None,
        };
        let close = sc.at("close").int();
        let wrap = sc.at("wrap").str();
        run.stats.count(&format!("reader:{}", wrap));
        match wrap {
            "plain" => {
                let mut p = Plain { src: src.clone(), held: None, line: 1, col: 0 };
                run.ops(&mut p, &ops);
                finish(&mut run, p, close);
            }
            "dyn" => {
                let mut p = IterWrapper::new(src.clone());
                {
                    let d: &mut IterWrapper<dyn Iterator<Item = char>> = &mut p;
                    run.ops(d, &ops);
                }
                finish(&mut run, p, close);
            }
            "boxed" => {
                let b: Box<dyn Iterator<Item = char>> = Box::new(src.clone());
                let mut p = IterWrapper::new(b);
                run.ops(&mut p, &ops);
                finish(&mut run, p, close);
            }
            _ => {
                let mut p = IterWrapper::new(src.clone());
                run.ops(&mut p, &ops);
                finish(&mut run, p, close);
            }
        }
        run.settle();
        if run.out.findings.is_empty() {
            let s: String = run.model.text.iter().collect();
            strings(&mut run, &s);
            run.settle();
        }
        let s = src.0.borrow();
        run.out.log.num(s.pulls);
        run.stats.sim_time += s.clock;
        run.stats.count(if run.model.at == run.model.text.len() { "outcome:drained" } else { "outcome:closed" });
        let h = run.out.log.0;
        run.stats.schedules.insert(h);
        run.out
    }
}

fn finish<P: Parser>(run: &mut Run<'_>, mut p: P, close: i64) {
    if !run.out.findings.is_empty() {
        return;
    }
    if close >= 0 {
        closing(run, p, close as usize);
    } else {
        run.drain(&mut p);
        if run.out.findings.is_empty() && run.seen != run.model.text {
            run.out.fail("C05", "result", "not every character was observed".into());
        }
    }
}

/// The whole text at once, from a string.
fn strings(run: &mut Run<'_>, s: &str) {
    let saved = run.model.clone();
    run.model = Model::new(s.chars().collect(), BTreeSet::new());
    let g = caught(|| Word::take_str(s));
    let w = run.model.word().map_err(|e| (e, (0, 0)));
    match g {
        Err(why) => run.out.fail("C05", "panic", format!("take_str panicked: {}", why)),
        Ok(g) => run.same(&Got::Text(g.map(|w| w.to_string()).map_err(plain)), &Got::Text(w), "take_str"),
    }
    run.model = Model::new(s.chars().collect(), BTreeSet::new());
    match caught(|| Word::parse_str(s)) {
        Err(why) => run.out.fail("C05", "panic", format!("parse_str panicked: {}", why)),
        Ok(g) => {
            let w = run.model.word();
            let more = run.model.peek().is_some();
            match (g, w) {
                (Ok(a), Ok(b)) if a.0 == b && !more => {}
                (Err(ParseError::InputContinues(q)), Ok(_)) if more => run.pos(pair(q), "parse_str"),
                (Err(ParseError::TakeError(e)), Err(b)) => {
                    run.same(&Got::Text(Err(plain(e))), &Got::Text(Err((b, (0, 0)))), "parse_str")
                }
                (g, w) => run.out.fail("C05", "result", format!("parse_str gave {:?}, not {:?}", g, w)),
            }
        }
    }
    run.model = saved;
}

// ---- seeded histories ----------------------------------------------------

fn a_char(r: &mut Rng) -> char {
    match r.below(10) {
        0..=4 => *r.pick(LETTERS),
        5 | 6 => *r.pick(ENDS),
        7 | 8 => *r.pick(ODD),
        _ => loop {
            if let Some(c) = std::char::from_u32(r.below(0x110000) as u32) {
                break c;
            }
        },
    }
}

fn a_set(r: &mut Rng, m: &Model) -> Vec<char> {
    let mut v: Vec<char> = match r.below(4) {
        0 => LETTERS.to_vec(),
        1 => ENDS.to_vec(),
        2 => Vec::new(),
        _ => (0..r.range(1, 6)).map(|_| a_char(r)).collect(),
    };
    let n = if r.chance(1, 12) { r.range(4, 120) } else { r.below(4) };
    let ahead: Vec<char> = m.ahead().iter().copied().take(n).collect();
    v.extend(ahead);
    // In order, or in no order and with members given twice: a set is a set either way.
    if r.chance(1, 2) {
        v.sort_unstable();
        v.dedup();
    } else {
        for i in (1..v.len()).rev() {
            v.swap(i, r.below(i + 1));
        }
    }
    v
}

fn a_literal(r: &mut Rng, m: &Model) -> String {
    let n = if r.chance(1, 12) { r.range(9, 120) } else { r.range(0, 8) };
    let mut v: Vec<char> = m.ahead().iter().copied().take(n).collect();
    match r.below(5) {
        0 if !v.is_empty() => {
            let i = r.below(v.len());
            v[i] = a_char(r);
        }
        1 => {
            let c = a_char(r);
            v.push(c);
        }
        2 if v.len() > 1 => {
            let i = r.below(v.len());
            v.remove(i);
        }
        _ => {}
    }
    v.into_iter().collect()
}

/// Apply an operation to the model alone.
fn forward(m: &mut Model, op: &Op) {
    match op {
        Op::Next => drop(m.next()),
        Op::Peek | Op::Pos => {}
        Op::Resume => drop(m.resume()),
        Op::Skip(s, l) => {
            let mut n = *l;
            while n != Some(0) && m.peek().map_or(false, |c| s.contains(&c)) {
                m.next();
                n = n.map(|n| n - 1);
            }
        }
        Op::Lit(s) => drop(m.literal(s)),
        Op::Set(s, n) => drop(m.from_set(s, *n)),
        Op::Take(k) => {
            if *k >= 2 {
                drop(m.word())
            }
        }
        Op::List(l) => {
            for _ in 0..l.steps {
                if !matches!(m.list(l), Some(Ok(_))) {
                    break;
                }
            }
        }
    }
}

fn generate(r: &mut Rng, _: &str) -> Json {
    let mut text = Vec::new();
    let len = match r.below(12) {
        0 => r.below(3),
        11 => r.range(100, 400),
        _ => r.range(3, 60),
    };
    while text.len() < len {
        match r.below(12) {
            0 => text.extend("\r\n".chars()),
            1 => {
                // a separated list, sometimes broken
                let n = if r.chance(1, 20) { r.range(5, 60) } else { r.below(5) };
                let word = if r.chance(1, 20) { 40 } else { 3 };
                for i in 0..n {
                    if i > 0 {
                        text.push(',');
                    }
                    for _ in 0..r.range(1, word) {
                        text.push(*r.pick(LETTERS));
                    }
                    if r.chance(1, 12) {
                        text.push(a_char(r));
                    }
                }
                if r.chance(7, 8) {
                    text.push(';');
                }
            }
            2 => {
                let c = *r.pick(ENDS);
                for _ in 0..r.range(1, 4) {
                    text.push(c);
                }
            }
            3 if !text.is_empty() => {
                // a repeat: a swallowed or doubled character shows
                let k = r.range(1, text.len().min(6));
                let from = r.below(text.len() - k + 1);
                let again: Vec<char> = text[from..from + k].to_vec();
                text.extend(again);
            }
            _ => text.push(a_char(r)),
        }
    }
    let long = r.chance(1, 500);
    if long {
        // one character, very often
        let c = match r.below(4) {
            0 => *r.pick(ENDS),
            1 => a_char(r),
            _ => *r.pick(LETTERS),
        };
        let n = *r.pick(&[250, 1_000, 4_090, 20_000, 32_760, 65_530, 70_000]) + r.below(16);
        let at = r.below(text.len() + 1);
        text.splice(at..at, std::iter::repeat(c).take(n));
    }
    let mut dry = BTreeSet::new();
    if r.chance(2, 3) {
        for _ in 0..r.below(5) {
            dry.insert(r.below(text.len() + 1));
        }
        // between a CR and what follows it
        for i in 0..text.len() {
            if text[i] == '\r' && r.chance(1, 4) {
                dry.insert(i + 1);
            }
        }
    }
    let delays: Vec<Json> = (0..r.below(4))
        .map(|_| Json::Arr(vec![r.below(text.len() + 1).into(), (1 + r.below(1000)).into()]))
        .collect();
    let mut m = Model::new(text.clone(), dry.clone());
    let mut ops = Vec::new();
    let count = match r.below(8) {
        0 => r.below(4),
        7 => r.range(40, 120),
        _ => r.range(4, 40),
    };
    // some histories favour some operations
    let favour: Vec<usize> = (0..9).map(|_| *r.pick(&[0, 1, 1, 2, 5])).collect();
    let weights: Vec<usize> = favour.iter().zip(&[4, 3, 1, 3, 5, 3, 4, 3, 2]).map(|(a, b)| a * b + 1).collect();
    for _ in 0..count {
        let op = match r.weighted(&weights) {
            0 => Op::Next,
            1 => Op::Peek,
            2 => Op::Pos,
            3 => Op::Skip(a_set(r, &m), if r.chance(1, 2) && !long { Some(r.below(5)) } else { None }),
            4 => Op::Lit(a_literal(r, &m)),
            5 => Op::Set(a_set(r, &m), if r.chance(1, 12) { r.range(4, 60) } else { r.below(4) }),
            6 => {
                let sep = if r.chance(2, 3) { ',' } else { a_char(r) };
                let stop = if r.chance(2, 3) {
                    ';'
                } else if m.ahead().len() > 2 && r.chance(1, 2) {
                    m.ahead()[r.below(m.ahead().len().min(8))]
                } else {
                    a_char(r)
                };
                let item = match r.below(4) {
                    0 => Item::Set(a_set(r, &m), r.range(0, 2)),
                    1 => Item::Lit(a_literal(r, &m)),
                    _ => Item::Word,
                };
                let first = match &item {
                    Item::Set(s, _) => s.clone(),
                    Item::Lit(s) => s.chars().take(1).collect(),
                    Item::Word => LETTERS.to_vec(),
                };
                let mut either = vec![sep, stop];
                if r.chance(1, 2) {
                    either.reverse();
                }
                // an item that takes nothing needs its steps bounded
                Op::List(List { item, sep, stop, either, first, steps: *r.pick(&[1, 2, 3, 6, 12, 64]) })
            }
            7 => Op::Take(r.below(5) as u8),
            _ => Op::Resume,
        };
        forward(&mut m, &op);
        ops.push(op);
        if m.peek().is_none() && !m.dry.is_empty() && r.chance(1, 2) {
            // something while dry, then on
            if r.chance(1, 2) {
                let op = match r.below(4) {
                    0 => Op::Next,
                    1 => Op::Lit("ab".into()),
                    2 => Op::Take(2),
                    _ => Op::Peek,
                };
                ops.push(op);
            }
            m.resume();
            ops.push(Op::Resume);
        }
    }
    let wrap = *r.pick(&["sized", "sized", "dyn", "boxed", "plain"]);
    let close = if r.chance(1, 3) { r.below(5) as i64 } else { -1 };
    obj([
        ("sim", "reader".into()),
        ("wrap", wrap.into()),
        ("text", chars(&text)),
        ("dry", Json::Arr(dry.iter().map(|d| (*d).into()).collect())),
        ("delays", Json::Arr(delays)),
        ("ops", Json::Arr(ops.iter().map(Op::json).collect())),
        ("close", close.into()),
    ])
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    dst::report::main(&mut Reader { names: Intern::default() });
}
