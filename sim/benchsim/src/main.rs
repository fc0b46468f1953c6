//! The evaluators and readers of the benchmark crate, three of each, on
//! whatever text arrives, all at once.
mod arith;
mod doc;

use std::fmt::{self, Write};
use std::panic::{self, AssertUnwindSafe};
use std::sync::{Arc, Mutex};

use chewed::{IterWrapper, Parser};
use chomp_bench::json::Value;
use doc::Model;
use dst::json::obj;
use dst::report::{Outcome, Sim, Stats};
use dst::rng::derive;
use dst::{baton, hash_str, Fnv, Json, Rng};

const STACK: usize = 512 << 20;

/// One delivery of a text, character by character.
struct Source {
    text: Arc<Vec<char>>,
    at: usize,
    delays: Vec<(usize, u64)>,
    /// The reader dies here, by a panic of its source.
    dies: Option<usize>,
}

impl Iterator for Source {
    type Item = char;
    fn next(&mut self) -> Option<char> {
        baton::point();
        while self.delays.first().map_or(false, |d| d.0 <= self.at) {
            baton::sleep(self.delays.remove(0).1);
        }
        if self.dies == Some(self.at) {
            panic!("the source dies");
        }
        let c = self.text.get(self.at).copied();
        self.at += usize::from(c.is_some());
        c
    }
}

#[derive(Clone, Debug, PartialEq)]
enum Seen {
    Int(i64),
    Doc(Model),
    Reject(String),
    Panic(String),
    Died,
}

/// What printing gave, and what reading the print gave.
#[derive(Clone, Debug)]
struct Note {
    doc: usize,
    who: usize,
    seen: Seen,
    printed: Option<Result<String, String>>,
}

const WHO: [&str; 3] = ["generated", "hand-written", "table-driven"];

fn message(e: Box<dyn std::any::Any + Send>) -> String {
    e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| (*s).to_owned())).unwrap_or_default()
}

fn guarded<T>(f: impl FnOnce() -> Result<T, String>) -> Result<T, Seen> {
    match panic::catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(e)) => Err(Seen::Reject(e)),
        Err(e) => {
            let m = message(e);
            Err(if m == "the source dies" { Seen::Died } else { Seen::Panic(m) })
        }
    }
}

/// Full after so many bytes.
struct Sink {
    got: String,
    room: usize,
}

impl Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.got.len() + s.len() > self.room {
            return Err(fmt::Error);
        }
        self.got.push_str(s);
        Ok(())
    }
}

fn wrapped<R>(kind: usize, s: Source, f: impl FnOnce(&mut dyn FnMut() -> Box<dyn Iterator<Item = char>>) -> R) -> R {
    let mut s = Some(s);
    f(&mut || {
        let s = s.take().expect("source");
        match kind {
            0 => Box::new(s),
            1 => Box::new(s.fuse()),
            _ => Box::new(s.filter(|_| true).peekable()),
        }
    })
}

fn eval(who: usize, s: Source, kind: usize, parser: &chomp_bench::arith::lalr::ExpressionParser) -> Seen {
    let text = s.text.clone();
    let r = guarded(|| match who {
        0 if kind == 0 => {
            IterWrapper::new(s).parse::<chomp_bench::arith::nibble::Ast>().map(i64::from).map_err(|e| e.to_string())
        }
        0 => wrapped(kind, s, |i| {
            IterWrapper::new(i()).parse::<chomp_bench::arith::nibble::Ast>().map(i64::from).map_err(|e| e.to_string())
        }),
        1 if kind == 0 => chomp_bench::arith::parse_expr(&mut IterWrapper::new(s)).map_err(|e| e.to_string()),
        1 => wrapped(kind, s, |i| chomp_bench::arith::parse_expr(&mut IterWrapper::new(i())).map_err(|e| e.to_string())),
        _ => {
            baton::point();
            let t: String = text.iter().collect();
            parser.parse(&t).map_err(|e| e.to_string())
        }
    });
    match r {
        Ok(v) => Seen::Int(v),
        Err(s) => s,
    }
}

fn read(who: usize, s: Source, kind: usize, parser: &chomp_bench::json::lalr::ValueParser) -> Result<Value, Seen> {
    let text = s.text.clone();
    guarded(|| match who {
        0 if kind == 0 => {
            IterWrapper::new(s).parse::<chomp_bench::json::nibble::Ast>().map(Value::from).map_err(|e| e.to_string())
        }
        0 => wrapped(kind, s, |i| {
            IterWrapper::new(i()).parse::<chomp_bench::json::nibble::Ast>().map(Value::from).map_err(|e| e.to_string())
        }),
        1 if kind == 0 => IterWrapper::new(s).parse::<Value>().map_err(|e| e.to_string()),
        1 => wrapped(kind, s, |i| IterWrapper::new(i()).parse::<Value>().map_err(|e| e.to_string())),
        _ => {
            baton::point();
            let t: String = text.iter().collect();
            parser.parse(&t).map_err(|e| e.to_string())
        }
    })
}

/// What no document has, though some reader might think it does.
const STRANGE: &str = "\0\u{1}\u{8}\u{b}\u{c}\u{1a}\u{1f}\u{7f}\u{80}\u{85}\u{a0}\u{feff}\u{2003}\u{660}\u{ff11}é𝟙___'`xXTNiI#\\&^~";

fn damage(text: &str, other: &str, alphabet: &str, rng: &mut Rng, did: &mut Vec<&'static str>) -> String {
    let mut t: Vec<char> = text.chars().collect();
    let o: Vec<char> = other.chars().collect();
    let a: Vec<char> = alphabet.chars().collect();
    let n = t.len();
    if n == 0 {
        return text.to_owned();
    }
    let mut p = rng.below(n);
    if rng.chance(1, 4) {
        // among the digits of a long number
        let (mut best, mut run) = (0..0, 0);
        for i in 0..n {
            run = if t[i].is_ascii_digit() { run + 1 } else { 0 };
            if run > best.len() {
                best = i + 1 - run..i + 1;
            }
        }
        if best.len() > 1 {
            p = rng.range(best.start, best.end - 1);
        }
    }
    let a: Vec<char> = if rng.chance(1, 3) { STRANGE.chars().collect() } else { a };
    let q = (p + 1 + if rng.chance(2, 3) { rng.below(4) } else { rng.below(n) }).min(n);
    match rng.below(10) {
        0 | 1 => {
            did.push("cut short");
            t.truncate(p);
        }
        2 => {
            did.push("character lost");
            t.remove(p);
        }
        3 => {
            did.push("character repeated");
            let c = t[p];
            t.insert(p, c);
        }
        4 => {
            did.push("characters swapped");
            if p + 1 < n {
                t.swap(p, p + 1);
            }
        }
        5 => {
            did.push("character damaged");
            t[p] = *rng.pick(&a);
        }
        6 => {
            did.push("character inserted");
            t.insert(p, *rng.pick(&a));
        }
        7 => {
            did.push("range lost");
            t.drain(p..q);
        }
        8 => {
            did.push("range repeated");
            let r: Vec<char> = t[p..q].to_vec();
            t.splice(q..q, r);
        }
        _ => {
            did.push("foreign text");
            if !o.is_empty() {
                let x = rng.below(o.len());
                let y = (x + 1 + rng.below(8)).min(o.len());
                t.splice(p..p, o[x..y].iter().copied());
            }
        }
    }
    t.into_iter().collect()
}

enum Table {
    Json(chomp_bench::json::lalr::ValueParser),
    Arith(chomp_bench::arith::lalr::ExpressionParser),
}

struct Bench;

impl Sim for Bench {
    fn scenario(&mut self, property: &str, seed: u64, index: u64) -> Json {
        let rng = &mut Rng::new(derive(seed, &[0xbe9c, index]));
        let json = property == "C15";
        let gen = |rng: &mut Rng| if json { doc::text(rng) } else { arith::text(rng) };
        let alphabet = if json {
            " \t\n\r\"\\/bfnrtu0123456789abcdefADEF+-.eE[]{},:truefalsnl"
        } else {
            "   0123456789+-*/()+-*/()x.é"
        };
        let mut docs = Vec::new();
        let mut total = 0;
        for _ in 0..*rng.pick(&[1, 1, 2, 2, 3]) {
            let mut t = gen(rng);
            let mut did = Vec::new();
            for _ in 0..*rng.pick(&[0, 0, 0, 1, 1, 1, 2, 3]) {
                let o = gen(rng);
                t = damage(&t, &o, alphabet, rng, &mut did);
            }
            let n = t.chars().count();
            total += n;
            let mut delays: Vec<usize> = (0..if rng.chance(1, 3) { rng.below(6) } else { 0 }).map(|_| rng.below(n + 1)).collect();
            delays.sort_unstable();
            let delays = delays.into_iter().map(|d| Json::Arr(vec![d.into(), rng.range(1, 50).into()])).collect();
            let mut d = vec![
                ("text".to_owned(), Json::from(t.as_str())),
                ("harm".to_owned(), did.into()),
                ("delays".to_owned(), Json::Arr(delays)),
                ("kind".to_owned(), rng.below(3).into()),
            ];
            if rng.chance(1, 12) {
                d.push(("dies".to_owned(), rng.below(n + 1).into()));
            }
            if json && rng.chance(1, 2) {
                d.push(("room".to_owned(), rng.below(n + 2).into()));
            }
            docs.push(Json::Obj(d));
        }
        let threads = docs.len() * 3;
        let mut pre: Vec<u64> = (0..rng.below(30)).map(|_| rng.below(total * 2 + 4) as u64).collect();
        pre.sort_unstable();
        let pre: Vec<Json> = pre.into_iter().map(|s| Json::Arr(vec![s.into(), rng.below(threads).into()])).collect();
        obj([("docs", Json::Arr(docs)), ("preempts", Json::Arr(pre)), ("shared", rng.chance(2, 3).into())])
    }

    fn run(&mut self, property: &str, sc: &Json, stats: &mut Stats) -> Outcome {
        let mut o = Outcome::default();
        let json = property == "C15";
        let notes: Arc<Mutex<Vec<Note>>> = Arc::default();
        let mut bodies: Vec<Box<dyn FnOnce() + Send>> = Vec::new();
        // one table-driven parser for all texts, or one each
        let shared = sc.at("shared").bool();
        let tables = || {
            if json {
                Table::Json(chomp_bench::json::lalr::ValueParser::new())
            } else {
                Table::Arith(chomp_bench::arith::lalr::ExpressionParser::new())
            }
        };
        let common = Arc::new(tables());
        for (i, d) in sc.at("docs").arr().iter().enumerate() {
            for h in d.at("harm").arr() {
                stats.count(&format!("fault:{}", h.str()));
            }
            if d.get("dies").is_some() {
                stats.count("fault:the source dies");
            }
            stats.add("fault:delay", d.at("delays").arr().len() as u64);
            let text: Arc<Vec<char>> = Arc::new(d.at("text").str().chars().collect());
            let delays: Vec<(usize, u64)> =
                d.at("delays").arr().iter().map(|x| (x.arr()[0].usize(), x.arr()[1].int() as u64)).collect();
            for who in 0..3 {
                let s = Source { text: text.clone(), at: 0, delays: delays.clone(), dies: d.get("dies").map(|d| d.usize()) };
                let kind = d.at("kind").usize();
                let room = d.get("room").map(|r| r.usize());
                let notes = notes.clone();
                let table = if shared || who < 2 { common.clone() } else { Arc::new(tables()) };
                bodies.push(Box::new(move || {
                    let (seen, printed) = match &*table {
                        Table::Json(p) => match read(who, s, kind, p) {
                            Ok(v) => {
                                let m = doc::model(&v);
                                let printed = if m.finite() { Some(print(&v, &m, room, p)) } else { None };
                                (Seen::Doc(m), printed)
                            }
                            Err(s) => (s, None),
                        },
                        Table::Arith(p) => (eval(who, s, kind, p), None),
                    };
                    notes.lock().unwrap().push(Note { doc: i, who, seen, printed });
                }));
            }
        }
        let preempts: Vec<(u64, usize)> =
            sc.at("preempts").arr().iter().map(|p| (p.arr()[0].int() as u64, p.arr()[1].usize())).collect();
        let r = baton::run(bodies, &preempts, 10_000_000, STACK);
        stats.add("forced switches", r.forced);
        stats.sim_time += r.steps + r.clock;
        stats.schedules.insert(r.hash);
        o.log.num(r.hash);
        let mut notes = notes.lock().unwrap().clone();
        notes.sort_by_key(|n| (n.doc, n.who));
        if notes.len() != sc.at("docs").arr().len() * 3 {
            o.fail(property, "lost", format!("{} results of {}", notes.len(), sc.at("docs").arr().len() * 3));
            return o;
        }
        for (i, d) in sc.at("docs").arr().iter().enumerate() {
            let text: Vec<char> = d.at("text").str().chars().collect();
            let head: String = text.iter().take(300).collect();
            let expect = if json {
                match doc::read(&text, sc.get("halves").is_some()) {
                    doc::Verdict::Value(m) => Some(Seen::Doc(m)),
                    doc::Verdict::Reject => Some(Seen::Reject(String::new())),
                    doc::Verdict::Outside => None,
                }
            } else {
                match arith::evaluate(&text) {
                    arith::Verdict::Value(v) => Some(Seen::Int(v)),
                    arith::Verdict::Reject => Some(Seen::Reject(String::new())),
                    arith::Verdict::Outside => None,
                }
            };
            stats.count(match &expect {
                None => "texts not judged",
                Some(Seen::Reject(_)) => "texts to reject",
                _ => "texts with a value",
            });
            let mut h = Fnv::default();
            h.num(hash_str(d.at("text").str()));
            stats.state(h.0);
            o.log.num(h.0);
            let mine: Vec<&Note> = notes.iter().filter(|n| n.doc == i).collect();
            for n in &mine {
                o.log.str(&format!("{:?}", n.seen));
                if n.seen == Seen::Died {
                    stats.count("readers that died");
                    if d.get("dies").is_none() {
                        o.fail(property, "crash", format!("the {} one dies on {:?}", WHO[n.who], head));
                    }
                    continue;
                }
                // the generated reader is for a part of ASCII, and takes nothing else
                let refuse = Some(Seen::Reject(String::new()));
                let expect = if json && n.who == 0 && expect.is_some() && !doc::plain(&text) { &refuse } else { &expect };
                let class = match (expect, &n.seen) {
                    (None, _) => continue,
                    (_, Seen::Panic(_)) => "crash",
                    (Some(Seen::Reject(_)), Seen::Reject(_)) => continue,
                    (Some(e), s) if e == s => {
                        stats.count("right values");
                        match &n.printed {
                            Some(Err(why)) => {
                                o.fail(property, "printing", format!("the value the {} one read from {:?}: {}", WHO[n.who], head, why));
                                return o;
                            }
                            Some(Ok(_)) => {
                                stats.count("values printed and read back");
                                continue;
                            }
                            None => continue,
                        }
                    }
                    (Some(Seen::Reject(_)), _) => "accepts what is no sentence",
                    (Some(_), Seen::Reject(_)) => "rejects a sentence",
                    _ => "wrong value",
                };
                let all: Vec<String> = mine.iter().map(|n| format!("{}: {:?}", WHO[n.who], n.seen)).collect();
                o.fail(property, class, format!("the {} one on {:?}: expected {:?}; {}", WHO[n.who], head, expect, all.join(", ")));
                return o;
            }
        }
        o
    }
}

/// Print, perhaps into a sink that fills up, and read back.
fn print(v: &Value, m: &Model, room: Option<usize>, p: &chomp_bench::json::lalr::ValueParser) -> Result<String, String> {
    let s = match panic::catch_unwind(AssertUnwindSafe(|| v.to_string())) {
        Ok(s) => s,
        Err(e) => return Err(format!("printing panics: {}", message(e))),
    };
    if let Some(room) = room {
        let mut sink = Sink { got: String::new(), room };
        let r = write!(sink, "{}", v);
        if r.is_ok() != (s.len() <= room) || !s.starts_with(&sink.got) {
            return Err(format!("with room for {} bytes of {:?}: {:?}, {:?}", room, s, r, sink.got));
        }
    }
    let chars: Vec<char> = s.chars().collect();
    match doc::read(&chars, false) {
        doc::Verdict::Value(x) if x == *m => (),
        x => return Err(format!("{:?} denotes {:?}", s, x)),
    }
    for who in usize::from(!doc::plain(&chars))..3 {
        let source = Source { text: Arc::new(chars.clone()), at: 0, delays: Vec::new(), dies: None };
        match read(who, source, 0, p) {
            Ok(x) if doc::model(&x) == *m => (),
            x => return Err(format!("the {} one reads {:?} back from {:?}", WHO[who], x, s)),
        }
    }
    Ok(s)
}

fn main() {
    panic::set_hook(Box::new(|_| {}));
    dst::report::main(&mut Bench);
}
