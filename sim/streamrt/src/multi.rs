//! Many sessions at once (C07). Each run happens in forked children, so that
//! every session starts from a pristine process: one child runs all sessions
//! under the scheduler, one child per session runs it alone.
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};

use chewed::{IterWrapper, Parser};
use dst::json::obj;
use dst::report::{Outcome, Stats};
use dst::rng::derive;
use dst::child::in_child;
use dst::{baton, Fnv, Json, Rng};

use crate::session::{Got, Subject};
use crate::source::{Ending, Src};
use crate::Streams;

type Notes = Arc<Mutex<Vec<String>>>;

/// What one session has to do and where it writes what it saw.
struct Plan {
    subject: &'static (dyn Subject + Send + Sync),
    sc: Json,
    notes: Notes,
}

struct Session {
    subject: &'static (dyn Subject + Send + Sync),
    src: Src,
    stream: Option<IterWrapper<Src>>,
    how: String,
    dyn_: bool,
    turns: usize,
    dry: Vec<usize>,
    notes: Notes,
}

fn note(n: &Notes, s: String) {
    // made before the lock is taken: nothing allocates inside
    if let Ok(mut g) = n.lock() {
        if g.len() < g.capacity() {
            g.push(s);
        }
    }
}

fn show(g: &Got) -> String {
    match g {
        Got::Value(v) => format!("value {:?} {:?} {}", v.display, v.again, v.debug),
        Got::Error(f, s) => format!("error {:?} {:?}", f, s),
        Got::Panic(p) => format!("panic {:?}", p),
        Got::Aborted => "torn down".into(),
        Got::Runaway => "endless".into(),
    }
}

impl Plan {
    fn start(&self) -> Session {
        let sc = &self.sc;
        let src = Src::new(sc.at("text").str().chars().collect());
        {
            let mut s = src.0.borrow_mut();
            s.ending = match sc.at("ending").str() {
                "abort" => Ending::Abort,
                "stall" => Ending::Stall,
                _ => Ending::Eof,
            };
            for d in sc.at("delays").arr() {
                s.delays.insert(d.arr()[0].usize(), d.arr()[1].int() as u64);
            }
            for d in sc.at("dry").arr() {
                s.dry.insert(d.usize(), false);
            }
        }
        let seq = sc.at("mode").str() == "seq";
        Session {
            subject: self.subject,
            stream: if seq { Some(IterWrapper::new(src.clone())) } else { None },
            src,
            how: sc.at("how").str().into(),
            dyn_: sc.at("dyn").bool(),
            turns: sc.at("turns").usize(),
            dry: sc.at("dry").arr().iter().map(Json::usize).collect(),
            notes: self.notes.clone(),
        }
    }
}

impl Plan {
    /// The same session many times over, each as good as the first.
    fn before(&self) {
        let times = self.sc.get("times").map_or(1, Json::usize);
        if times < 2 || self.sc.at("ending").str() == "stall" {
            return;
        }
        let mut first: Option<Vec<String>> = None;
        for k in 1..times {
            let p = Plan { subject: self.subject, sc: self.sc.clone(), notes: Arc::new(Mutex::new(Vec::with_capacity(64))) };
            let mut s = p.start();
            while s.step() {}
            let seen = p.notes.lock().map(|g| g.clone()).unwrap_or_default();
            match &first {
                None => first = Some(seen),
                Some(f) => {
                    if *f != seen {
                        note(&self.notes, format!("time {} gave {:?}, the first {:?}", k, seen.last(), f.last()));
                        return;
                    }
                }
            }
        }
    }
}

impl Session {
    /// One value, or the whole stream. False when there is nothing left to do.
    fn step(&mut self) -> bool {
        match &mut self.stream {
            None => {
                let got = self.subject.whole(&self.how, self.src.clone());
                let pulls = self.src.0.borrow().pulls;
                note(&self.notes, format!("{}; {} requests", show(&got), pulls));
                false
            }
            Some(s) => {
                let got = self.subject.take(s, self.dyn_);
                let torn = matches!(got, Got::Aborted | Got::Runaway);
                let mut line = show(&got);
                if matches!(got, Got::Error(..)) {
                    for d in &self.dry {
                        self.src.resume(*d);
                    }
                    let next = catch_unwind(AssertUnwindSafe(|| s.next()));
                    line.push_str(&format!("; then {:?}", next.unwrap_or(Some('!'))));
                }
                line.push_str(&format!("; at {}, {} requests", s.pos(), self.src.0.borrow().pulls));
                note(&self.notes, line);
                self.turns = self.turns.saturating_sub(1);
                self.turns > 0 && !torn
            }
        }
    }
}

fn plans(sim: &'static Streams, sc: &Json) -> Option<Vec<Plan>> {
    let gs = sc.at("grammars").arr();
    sc.at("sessions")
        .arr()
        .iter()
        .map(|s| {
            let g = sim.find(gs.get(s.at("g").usize())?.str())?;
            Some(Plan {
                subject: &*sim.entries[g].subject,
                sc: s.clone(),
                notes: Arc::new(Mutex::new(Vec::with_capacity(64))),
            })
        })
        .collect()
}

fn read(n: &Notes) -> Json {
    for _ in 0..3 {
        if let Ok(g) = n.try_lock() {
            return Json::Arr(g.iter().map(|s| s.as_str().into()).collect());
        }
    }
    Json::Null
}

const LIMIT: u64 = 1_000_000;
const STACK: usize = 64 << 20;

/// All sessions of `sc` in this process.
fn together(sim: &'static Streams, sc: &Json) -> Json {
    let plans = plans(sim, sc).expect("sessions");
    let notes: Vec<Notes> = plans.iter().map(|p| p.notes.clone()).collect();
    let echoes: Vec<Plan> = sc
        .at("echo")
        .arr()
        .iter()
        .map(|i| {
            let p = &plans[i.usize() % plans.len()];
            Plan { subject: p.subject, sc: p.sc.clone(), notes: Arc::new(Mutex::new(Vec::with_capacity(64))) }
        })
        .collect();
    let echo_notes: Vec<Notes> = echoes.iter().map(|p| p.notes.clone()).collect();
    let mut plans: Vec<Option<Plan>> = plans.into_iter().map(Some).collect();
    // sessions that happen inside a request of another session
    let mut nested: Vec<(usize, usize, Plan)> = Vec::new();
    for n in sc.at("nested").arr() {
        let n = n.arr();
        let (inner, outer, at) = (n[0].usize(), n[1].usize(), n[2].usize());
        if inner < plans.len() && inner != outer && plans.get(outer).map_or(false, Option::is_some) {
            if nested.iter().any(|(o, ..)| *o == inner) {
                continue;
            }
            if let Some(p) = plans[inner].take() {
                nested.push((outer, at, p));
            }
        }
    }
    // sessions by thread
    let mut threads: Vec<Vec<(Plan, Vec<(usize, Plan)>)>> = Vec::new();
    for (i, p) in plans.into_iter().enumerate() {
        if let Some(p) = p {
            let t = sc.at("threads").arr().get(i).map_or(i, Json::usize);
            while threads.len() <= t.min(8) {
                threads.push(Vec::new());
            }
            let mut mine = Vec::new();
            let mut rest = Vec::new();
            for (o, at, q) in nested {
                if o == i {
                    mine.push((at, q));
                } else {
                    rest.push((o, at, q));
                }
            }
            nested = rest;
            threads[t.min(8)].push((p, mine));
        }
    }
    threads.retain(|t| !t.is_empty());
    let bodies: Vec<Box<dyn FnOnce() + Send>> = threads
        .into_iter()
        .map(|list| {
            Box::new(move || {
                let mut live: Vec<Session> = Vec::new();
                for (p, _) in &list {
                    p.before();
                }
                for (p, inner) in list {
                    let s = p.start();
                    for (at, q) in inner {
                        let f: Box<dyn FnOnce()> = Box::new(move || {
                            let mut t = q.start();
                            while t.step() {}
                        });
                        s.src.0.borrow_mut().meanwhile.insert(at, f);
                    }
                    live.push(s);
                }
                // in turn, so that sessions of one thread interleave
                while !live.is_empty() {
                    let mut k = 0;
                    while k < live.len() {
                        if live[k].step() {
                            k += 1;
                        } else {
                            live.remove(k);
                        }
                    }
                }
            }) as Box<dyn FnOnce() + Send>
        })
        .collect();
    let preempts: Vec<(u64, usize)> =
        sc.at("preempts").arr().iter().map(|p| (p.arr()[0].int() as u64, p.arr()[1].usize())).collect();
    let times: usize = sc.at("sessions").arr().iter().map(|s| s.get("times").map_or(1, Json::usize)).sum();
    let r = baton::run(bodies, &preempts, LIMIT * times as u64 * 2, STACK);
    let all_done = r.statuses.iter().all(|s| *s == baton::Status::Done);
    let echoed = if all_done && !echoes.is_empty() {
        let b: Vec<Box<dyn FnOnce() + Send>> = vec![Box::new(move || {
            for p in echoes {
                let mut s = p.start();
                while s.step() {}
            }
        })];
        baton::run(b, &[], LIMIT * 20, STACK);
        true
    } else {
        false
    };
    obj([
        ("seen", Json::Arr(notes.iter().map(read).collect())),
        ("echoed", echoed.into()),
        ("echo", Json::Arr(echo_notes.iter().map(read).collect())),
        ("hash", format!("{:016x}", r.hash).into()),
        ("steps", r.steps.into()),
        ("forced", r.forced.into()),
        ("switches", r.switches.len().into()),
        ("futex", r.futex_waits.into()),
        ("clock", r.clock.into()),
        ("over", r.over.into()),
    ])
}

/// Session `i` alone. One that would have run inside a request of another is
/// simply run.
fn alone(sim: &'static Streams, sc: &Json, i: usize) -> Json {
    let mut s = sc.at("sessions").arr()[i].clone();
    s.set("times", 1_u64.into());
    let one = obj([
        ("grammars", sc.at("grammars").clone()),
        ("sessions", Json::Arr(vec![s])),
        ("threads", Json::Arr(vec![])),
        ("nested", Json::Arr(vec![])),
        ("preempts", Json::Arr(vec![])),
        ("echo", Json::Arr(vec![])),
    ]);
    let r = together(sim, &one);
    obj([("seen", r.at("seen").arr()[0].clone()), ("over", r.at("over").clone())])
}

fn clip(j: &Json) -> String {
    let s = j.print();
    s.chars().take(400).collect()
}

/// A session that shares its thread cannot stall without stalling others.
fn settle(sc: &Json) -> Json {
    let threads: Vec<usize> = sc.at("threads").arr().iter().map(Json::usize).collect();
    let mut list = sc.at("sessions").arr().to_vec();
    for (i, s) in list.iter_mut().enumerate() {
        let shared = |t: usize| threads.iter().filter(|x| **x == t).count() > 1;
        let inner = sc.at("nested").arr().iter().any(|n| n.arr()[0].usize() == i);
        if s.at("ending").str() == "stall" && (inner || threads.get(i).map_or(true, |t| shared(*t))) {
            s.set("ending", "abort".into());
        }
    }
    let mut sc = sc.clone();
    sc.set("sessions", Json::Arr(list));
    sc
}

pub fn run(sim: &Streams, sc: &Json, stats: &mut Stats) -> Outcome {
    let sc = &settle(sc);
    let mut out = Outcome::default();
    // children never return to this frame's owner
    let sim: &'static Streams = unsafe { &*(sim as *const Streams) };
    let n = sc.at("sessions").arr().len();
    if n == 0 || plans(sim, sc).is_none() {
        return out;
    }
    let mut solo = Vec::new();
    for i in 0..n {
        match in_child(|| alone(sim, sc, i)) {
            Ok(j) if j.at("over").bool() => {
                stats.count("outcome:session too long alone");
                return out;
            }
            Ok(j) => solo.push(j.at("seen").clone()),
            // not about concurrency
            Err(_) => {
                stats.count("outcome:session dies alone");
                return out;
            }
        }
    }
    let all = match in_child(|| together(sim, sc)) {
        Ok(j) => j,
        Err(e) => {
            out.fail("C07", "process dies", format!("{} sessions together: {}; each alone is fine", n, e));
            return out;
        }
    };
    out.log.str(&all.print());
    for (i, (a, b)) in solo.iter().zip(all.at("seen").arr()).enumerate() {
        let inner = sc.at("nested").arr().iter().any(|n| n.arr()[0].usize() == i);
        if inner && b.arr().is_empty() {
            // its host never got that far
            continue;
        }
        if a != b {
            let why = if b.arr().len() < a.arr().len() { "session blocked or cut off" } else { "result differs" };
            out.fail("C07", why, format!("session {}: alone {} together {}", i, clip(a), clip(b)));
        }
    }
    if all.at("echoed").bool() {
        for (k, i) in sc.at("echo").arr().iter().enumerate() {
            let i = i.usize() % n;
            let b = &all.at("echo").arr()[k];
            if &solo[i] != b {
                let d = format!("session {}: fresh {} afterwards {}", i, clip(&solo[i]), clip(b));
                out.fail("C07", "later result differs", d);
            }
        }
        stats.count("sessions repeated afterwards");
    }
    stats.add("sessions", n as u64);
    stats.add("fault:forced switch", all.at("forced").int() as u64);
    stats.add("switches", all.at("switches").int() as u64);
    stats.add("scheduling points", all.at("steps").int() as u64);
    stats.add("futex waits simulated", all.at("futex").int() as u64);
    for s in sc.at("sessions").arr() {
        match s.at("ending").str() {
            "abort" => stats.count("fault:session torn down"),
            "stall" => stats.count("fault:session stalled for ever"),
            _ => {}
        }
        stats.add("repeated sessions", s.get("times").map_or(1, Json::usize).saturating_sub(1) as u64);
        if !s.at("dry").arr().is_empty() {
            stats.count("fault:dry source");
        }
    }
    stats.add("nested sessions", sc.at("nested").arr().len() as u64);
    stats.sim_time += all.at("clock").int() as u64;
    let mut f = Fnv::default();
    f.str(all.at("hash").str());
    f.str(&sc.at("sessions").print());
    stats.schedules.insert(f.0);
    for s in &solo {
        let mut f = Fnv::default();
        f.str(&s.print());
        stats.state(f.0);
    }
    out
}

pub fn scenario(sim: &Streams, seed: u64, index: u64) -> Json {
    let mut rng = Rng::new(derive(seed, &[0x3e, index]));
    let rng = &mut rng;
    let n = *rng.pick(&[2, 2, 2, 3, 3, 4]);
    let mut gs: Vec<usize> = vec![(index % sim.entries.len() as u64) as usize];
    if rng.chance(2, 3) {
        gs.push(rng.below(sim.entries.len()));
    }
    let mut sessions = Vec::new();
    for _ in 0..n {
        let gi = rng.below(gs.len());
        let g = gs[gi];
        let seq = rng.chance(1, 2);
        let budget = *rng.pick(&[3, 18, 18, 60]);
        let mut base = sim.sentence(g, rng, budget);
        base.truncate(800);
        let mut ends = vec![base.len()];
        if seq {
            for _ in 0..rng.below(4) {
                base.extend(sim.sentence(g, rng, 12));
                ends.push(base.len());
            }
        }
        let damage = *rng.pick(&[0, 0, 0, 1, 2]);
        let faults = sim.faults(g, rng, base.len(), damage);
        let base: String = base.into_iter().collect();
        let text: String = crate::arrive(&base, &faults, &mut Stats::default()).into_iter().collect();
        let len = text.chars().count();
        let mut delays = Vec::new();
        for _ in 0..rng.below(4) {
            delays.push(Json::Arr(vec![rng.below(len + 1).into(), rng.range(1, 5000).into()]));
        }
        let mut dry = Vec::new();
        if seq {
            for e in ends {
                if rng.chance(1, 4) {
                    dry.push(Json::from(e));
                }
            }
        }
        sessions.push(obj([
            ("g", gi.into()),
            ("text", text.into()),
            ("mode", if seq { "seq" } else { "whole" }.into()),
            ("how", (*rng.pick(&crate::WHOLE)).into()),
            ("dyn", rng.chance(1, 3).into()),
            ("turns", rng.range(1, 6).into()),
            ("delays", Json::Arr(delays)),
            ("dry", Json::Arr(dry)),
            ("ending", (*rng.pick(&["eof", "eof", "eof", "eof", "abort", "stall"])).into()),
        ]));
    }
    let mut threads = Vec::new();
    let same = rng.chance(1, 4);
    for i in 0..n {
        threads.push(Json::from(if same { rng.below(2) } else { i }));
    }
    let mut nested = Vec::new();
    if rng.chance(1, 4) {
        // a nested session that stalls would stall its host
        let inner = rng.below(n);
        let outer = (inner + 1) % n;
        let len = sessions[outer].at("text").str().chars().count();
        if sessions[inner].at("ending").str() != "stall" {
            nested.push(Json::Arr(vec![inner.into(), outer.into(), rng.below(len + 1).into()]));
        }
    }
    if same {
        // likewise for sessions that share a thread
        for s in &mut sessions {
            if s.at("ending").str() == "stall" {
                s.set("ending", "abort".into());
            }
        }
    }
    if rng.chance(1, 12) {
        // a long history of failing sessions on the thread of another
        let g = gs[0];
        let budget = *rng.pick(&[60, 400]);
        let mut base = sim.sentence(g, rng, budget);
        base.truncate(500);
        let cut = if rng.chance(1, 4) { base.len() } else { rng.range(base.len() / 2, base.len()) };
        base.truncate(cut);
        if rng.chance(1, 3) {
            base.push(sim.noise(g, rng));
        }
        let times = 200_000 / (base.len() + 60);
        let s = &mut sessions[0];
        s.set("g", 0_u64.into());
        s.set("text", base.into_iter().collect::<String>().into());
        s.set("mode", "whole".into());
        s.set("dry", Json::Arr(vec![]));
        s.set("times", times.into());
        s.set("ending", (*rng.pick(&["eof", "abort"])).into());
        threads = vec![Json::from(0_u64); n];
        for s in &mut sessions {
            if s.at("ending").str() == "stall" {
                s.set("ending", "abort".into());
            }
        }
    }
    let gap = *rng.pick(&[3, 10, 40, 200]);
    let mut at = 0;
    let mut preempts = Vec::new();
    for _ in 0..rng.below(80) {
        at += rng.range(1, gap);
        preempts.push(Json::Arr(vec![at.into(), rng.below(n).into()]));
    }
    let echo = if rng.chance(1, 2) { vec![Json::from(rng.below(n))] } else { vec![] };
    obj([
        ("sim", "sessions".into()),
        ("grammars", Json::Arr(gs.iter().map(|g| sim.entries[*g].text.into()).collect())),
        ("sessions", Json::Arr(sessions)),
        ("threads", Json::Arr(threads)),
        ("nested", Json::Arr(nested)),
        ("preempts", Json::Arr(preempts)),
        ("echo", Json::Arr(echo)),
    ])
}

