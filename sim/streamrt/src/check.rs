//! Single sessions: the oracles for C01 to C04.
use chewed::{IterWrapper, Parser};
use std::panic::{catch_unwind, AssertUnwindSafe};
use dst::report::{Outcome, Stats};
use dst::Json;
use refmodel::machine::{tree, Machine};
use refmodel::pos::line_col;
use refmodel::earley;

use crate::session::{Fault, Got};
use crate::source::{Ending, Gate, Src};
use crate::{arrive, Model, Streams};

fn show(t: &[char]) -> String {
    let s: String = t.iter().collect();
    format!("{:?}", s)
}

/// Line and column after `k` characters when the characters from `dry` on were
/// not there yet when what precedes was read.
fn at(text: &[char], k: usize, dry: &[usize]) -> (usize, usize) {
    // a CR straight before a dry point was a line end when it was read
    let mut t = Vec::new();
    for (i, &c) in text.iter().enumerate() {
        if dry.contains(&i) && i > 0 && text[i - 1] == '\r' && c == '\n' {
            // a line end of its own
            t.pop();
            t.push('\u{b}');
        }
        t.push(c);
    }
    line_col(&t, k.min(t.len()))
}

fn ending(sc: &Json) -> Ending {
    match sc.at("ending").str() {
        "abort" => Ending::Abort,
        "stall" => Ending::Stall,
        _ => Ending::Eof,
    }
}

/// Values of the parts that stand for one character, at every place of the stream.
fn singles(sim: &Streams, g: usize, text: &[char], stats: &mut Stats) -> Option<(&'static str, String)> {
    for (n, part) in sim.entries[g].singles.iter().enumerate() {
        let converts = match (part.single, &part.of[..]) {
            (None, of) if !of.is_empty() && of.iter().all(|x| *x) => {
                let d = format!("part {} chooses between parts that convert to a character, and does not", n);
                return Some(("does not convert to a character", d));
            }
            (None, of) if !of.is_empty() => continue,
            (single, _) => single,
        };
        for i in 0..text.len().min(24) {
            let mut stream = IterWrapper::new(Src::new(text[i..].to_vec()));
            match converts {
                Some(one) => {
                    if let Some((shown, c)) = one(&mut stream) {
                        stats.count("characters converted");
                        if shown != c.to_string() || c != text[i] {
                            let rest = show(&text[i..]);
                            let d = format!("part {} took {:?} of {}, which converts to {:?}", n, shown, rest, c);
                            return Some(("converts to another character", d));
                        }
                    }
                }
                None => match (part.take)(&mut stream) {
                    Some(shown) if shown.chars().count() == 1 => {
                        let d = format!("part {} took {:?} of {}", n, shown, show(&text[i..]));
                        return Some(("does not convert to a character", d));
                    }
                    _ => {}
                },
            }
        }
    }
    None
}

pub fn single(sim: &Streams, property: &str, sc: &Json, stats: &mut Stats) -> Outcome {
    let mut out = Outcome::default();
    let g = match sim.find(sc.at("grammars").arr()[0].str()) {
        Some(g) => g,
        None => return out,
    };
    let text = arrive(sc.at("base").str(), sc.at("faults").arr(), stats);
    for n in [300, 1000, 4000] {
        if text.len() > n {
            stats.count(&format!("streams over {} characters", n));
        }
    }
    let src = Src::new(text.clone());
    {
        let mut s = src.0.borrow_mut();
        s.ending = ending(sc);
        for d in sc.at("delays").arr() {
            s.delays.insert(d.arr()[0].usize(), d.arr()[1].int() as u64);
        }
    }
    stats.count(&format!("mode:{}", sc.at("mode").str()));
    match &sim.models[g] {
        None => {}
        Some(Model::Odd(core)) => {
            stats.count("grammar:odd");
            src.0.borrow_mut().ending = Ending::Eof;
            let how = sc.at("how").str();
            if text.len() <= 80 && core.nodes.len() <= 400 {
                let member = earley::member(core, &text);
                let got = sim.entries[g].subject.whole(how, src.clone());
                out.log.str(&format!("{:?}", got));
                membership(&mut out, &text, member, &got);
            }
        }
        Some(Model::Good(gr)) => {
            if sc.at("mode").str() == "whole" {
                whole(sim, g, gr, sc, &text, &src, &mut out, stats)
            } else {
                seq(sim, g, gr, sc, &text, &src, &mut out, stats)
            }
            let s = src.0.borrow();
            if let Some((i, why)) = &s.needless {
                let detail = format!(
                    "asked for character {} {}; received so far {}",
                    i,
                    why,
                    show(&text[..(*i).min(text.len())])
                );
                out.fail("C04", "needless wait", detail);
            }
        }
    }
    if property == "C03" || property == "all" {
        let t = text.clone();
        let found = catch_unwind(AssertUnwindSafe(|| singles(sim, g, &t, stats)));
        match found {
            Ok(None) => {}
            Ok(Some((class, d))) => out.fail("C03", class, d),
            Err(_) => out.fail("C01", "panic", format!("a part panicked on {}", show(&text))),
        }
    }
    // a panic is no report of a rejection, and gives no value
    let dead = out.findings.iter().find(|f| f.property == "C01" && (f.class == "panic" || f.class == "endless loop"));
    if let (Some(f), "C02" | "C03") = (dead, property) {
        let (class, detail) = (f.class.clone(), f.detail.clone());
        out.fail(property, &class, detail);
    }
    let s = src.0.borrow();
    let gid = sim.entries[g].gid;
    for h in &s.states {
        stats.state(h ^ gid.wrapping_mul(0x9e3779b97f4a7c15));
    }
    stats.sim_time += s.clock;
    stats.add("pulls", s.pulls);
    out.log.num(s.pulls);
    stats.schedules.insert(out.log.0);
    out
}

/// What one wording of a grammar makes of a stream.
fn telling(sim: &Streams, g: usize, text: &[char], sc: &Json, stats: &mut Stats) -> Vec<String> {
    let good = matches!(sim.models[g], Some(Model::Good(_)));
    let src = Src::new(text.to_vec());
    {
        let mut s = src.0.borrow_mut();
        s.ending = ending(sc);
        for d in sc.at("delays").arr() {
            s.delays.insert(d.arr()[0].usize(), d.arr()[1].int() as u64);
        }
    }
    let tell = |got: &Got| match got {
        Got::Value(v) => format!("value {:?}", v.display),
        Got::Error(f, _) if good => match f {
            Fault::Branch(l, c, ..) | Fault::Str(l, c, ..) | Fault::Eos(l, c) | Fault::Continues(l, c) => {
                format!("error at {}:{}", l, c)
            }
        },
        Got::Error(..) => "error".into(),
        Got::Panic(_) => "panic".into(),
        Got::Aborted => "torn down".into(),
        Got::Runaway => "endless".into(),
    };
    let mut log = Vec::new();
    if sc.at("mode").str() == "whole" {
        let how = sc.at("how").str();
        let got = sim.entries[g].subject.whole(how, src.clone());
        log.push(tell(&got));
    } else {
        let as_dyn = sc.at("dyn").bool();
        let mut stream = IterWrapper::new(src.clone());
        for _ in 0..8 {
            let got = sim.entries[g].subject.take(&mut stream, as_dyn);
            let empty = matches!(&got, Got::Value(v) if v.display.is_empty());
            let done = empty || !matches!(got, Got::Value(_));
            log.push(tell(&got));
            if done {
                break;
            }
        }
    }
    let s = src.0.borrow();
    stats.sim_time += s.clock;
    stats.add("pulls", s.pulls);
    for h in &s.states {
        stats.state(h ^ sim.entries[g].gid.wrapping_mul(0x9e3779b97f4a7c15));
    }
    log
}

/// Two wordings of one grammar on the same stream (C16).
pub fn pair(sim: &Streams, sc: &Json, stats: &mut Stats) -> Outcome {
    let mut out = Outcome::default();
    let gs = sc.at("grammars").arr();
    if gs.len() != 2 {
        return out;
    }
    let (a, b) = match (sim.find(gs[0].str()), sim.find(gs[1].str())) {
        (Some(a), Some(b)) => (a, b),
        _ => return out,
    };
    let text = arrive(sc.at("base").str(), sc.at("faults").arr(), stats);
    stats.count(&format!("mode:{}", sc.at("mode").str()));
    let one = telling(sim, a, &text, sc, stats);
    let two = telling(sim, b, &text, sc, stats);
    for t in &one {
        stats.count(&format!("outcome:{}", t.split(' ').next().unwrap_or("?")));
        out.log.str(t);
    }
    for t in &two {
        out.log.str(t);
    }
    stats.schedules.insert(out.log.0);
    if one != two {
        out.fail("C16", "wordings differ", format!("on {}: {:?} and {:?}", show(&text), one, two));
    }
    out
}

fn membership(out: &mut Outcome, text: &[char], member: bool, got: &Got) {
    match got {
        Got::Value(_) if !member => {
            out.fail("C01", "accepts a non-sentence", format!("accepted {}, which is not a sentence", show(text)))
        }
        Got::Error(_, e) if member => {
            out.fail("C01", "rejects a sentence", format!("rejected the sentence {}: {}", show(text), e))
        }
        Got::Panic(p) => out.fail("C01", "panic", format!("panicked on {}: {}", show(text), p)),
        Got::Runaway => out.fail("C01", "endless loop", format!("never stops on {}", show(text))),
        _ => {}
    }
}

/// Does the message show this character, as it is or escaped?
fn names(message: &str, c: char) -> bool {
    message.contains(c) || message.contains(&c.escape_debug().to_string())
}

/// The error against the first impossible character `k` (C02).
#[allow(clippy::too_many_arguments)]
fn report(
    out: &mut Outcome,
    machine: &Machine,
    text: &[char],
    start: usize,
    k: usize,
    end: usize,
    pos: (usize, usize),
    whole: bool,
    fault: &Fault,
    shown: &str,
) {
    let complete = machine.complete();
    let ctx = format!("after {} of {}, reported {:?}", show(&text[start..k]), show(&text[start..end]), fault);
    let got_pos = match fault {
        Fault::Branch(l, c, ..) | Fault::Str(l, c, ..) | Fault::Eos(l, c) | Fault::Continues(l, c) => (*l, *c),
    };
    if got_pos != pos {
        out.fail("C02", "wrong position", format!("{}; the right position is {:?}", ctx, pos));
        return;
    }
    if !shown.starts_with(&format!("{}:{}", pos.0, pos.1)) {
        out.fail("C02", "message lacks the position", format!("{}; shown as {:?}", ctx, shown));
    }
    let expected = machine.expected();
    match fault {
        Fault::Continues(..) => {
            if !(whole && complete && k < end) {
                out.fail("C02", "left-over input misreported", ctx);
            }
        }
        Fault::Eos(..) => {
            if k != end || complete {
                out.fail("C02", "end of input misreported", ctx);
            }
        }
        Fault::Branch(_, _, c, set) => {
            if k == end || complete {
                out.fail("C02", "wrong kind", ctx);
            } else if *c != text[k] {
                out.fail("C02", "wrong character", ctx);
            } else if let Some(x) = set.iter().find(|x| !expected.contains(x)) {
                out.fail("C02", "impossible expectation", format!("{}; {:?} cannot come next", ctx, x));
            } else if let Some(x) = machine.needed().iter().find(|x| !set.contains(x)) {
                out.fail("C02", "missing expectation", format!("{}; {:?} could come next", ctx, x));
            } else if let Some(x) = set.iter().chain([c]).find(|x| !names(shown, **x)) {
                out.fail("C02", "message lacks a character", format!("{}; {:?} is not in {:?}", ctx, x, shown));
            }
        }
        Fault::Str(_, _, got, exp) => {
            let got: Vec<char> = got.chars().collect();
            let exp: Vec<char> = exp.chars().collect();
            if k == end || complete {
                out.fail("C02", "wrong kind", ctx);
            } else if got.last() != Some(&text[k]) {
                out.fail("C02", "wrong character", ctx);
            } else {
                let n = got.len() - 1;
                if n > k - start || got[..n] != text[k - n..k] || exp.len() <= n || exp[..n] != got[..n] {
                    out.fail("C02", "wrong string", ctx);
                } else {
                    let mut m = machine.clone();
                    if m.run(&exp[n..]) != exp.len() - n {
                        out.fail("C02", "impossible expectation", ctx);
                    } else if let Some(x) = got.iter().chain(&exp).find(|x| !names(shown, **x)) {
                        out.fail("C02", "message lacks a character", format!("{}; {:?} is not in {:?}", ctx, x, shown));
                    }
                }
            }
        }
    }
}

#[allow(clippy::too_many_arguments)]
fn whole(
    sim: &Streams,
    g: usize,
    gr: &std::rc::Rc<refmodel::machine::Grammar>,
    sc: &Json,
    text: &[char],
    src: &Src,
    out: &mut Outcome,
    stats: &mut Stats,
) {
    let how = sc.at("how").str();
    src.0.borrow_mut().gate = Some(Gate::new(Machine::new(gr.clone()), &[], true));
    let mut m = Machine::new(gr.clone());
    let k = m.run(text);
    let member = k == text.len() && m.complete();
    let got = sim.entries[g].subject.whole(how, src.clone());
    out.log.str(&format!("{:?}", got));
    stats.count(match (&got, member, k == text.len()) {
        (Got::Value(_), ..) => "outcome:value",
        (Got::Error(..), _, true) => "outcome:error at end",
        (Got::Error(..), ..) => "outcome:error inside",
        (Got::Aborted, ..) => "outcome:torn down",
        _ => "outcome:other",
    });
    let torn = how != "str" && src.0.borrow().ending != Ending::Eof;
    if torn && k == text.len() {
        // the end of the input was never seen: nothing may be concluded
        match got {
            Got::Aborted => {}
            Got::Panic(p) => out.fail("C01", "panic", format!("panicked on {}: {}", show(text), p)),
            // only an acceptance or rejection that the missing rest could overturn is wrong
            Got::Value(_) | Got::Error(..) => {
                out.fail("C01", "decides without the end", format!("decided {} before its end was known", show(text)))
            }
            Got::Runaway => {}
        }
        return;
    }
    membership(out, text, member, &got);
    match &got {
        Got::Value(v) => {
            let s: String = text.iter().collect();
            value(out, gr, text, &s, v);
        }
        Got::Error(f, shown) if !member => {
            report(out, &m, text, 0, k, text.len(), line_col(text, k), true, f, shown);
        }
        _ => {}
    }
}

fn value(out: &mut Outcome, gr: &refmodel::machine::Grammar, text: &[char], consumed: &str, v: &crate::session::Seen) {
    if v.display != consumed {
        out.fail("C03", "text differs", format!("consumed {:?} but prints {:?}", consumed, v.display));
        return;
    }
    if let Err(e) = &v.again {
        out.fail("C03", "re-parse differs", format!("{:?}: {}", consumed, e));
    }
    if v.debug.len() < 40_000 && crate::shape::positional(&gr.core) {
        if let Some((t, _)) = tree(gr, text) {
            if let Err(e) = crate::shape::compare(&t, &v.debug) {
                out.fail("C03", "structure differs", format!("{:?}: {}", consumed, e));
            }
        }
    }
}

#[allow(clippy::too_many_arguments)]
fn seq(
    sim: &Streams,
    g: usize,
    gr: &std::rc::Rc<refmodel::machine::Grammar>,
    sc: &Json,
    text: &[char],
    src: &Src,
    out: &mut Outcome,
    stats: &mut Stats,
) {
    let mut dry: Vec<usize> = sc.at("dry").arr().iter().map(Json::usize).filter(|d| *d <= text.len()).collect();
    dry.sort_unstable();
    dry.dedup();
    for d in &dry {
        src.0.borrow_mut().dry.insert(*d, false);
    }
    let skips: Vec<usize> = sc.at("skips").arr().iter().map(Json::usize).collect();
    let as_dyn = sc.at("dyn").bool();
    let mut stream = IterWrapper::new(src.clone());
    // what the stream's owner read before, a character at a time
    let lead: Vec<char> = sc.get("lead").map_or(vec![], |l| {
        let c = l.arr()[0].str().chars().next().unwrap_or('x');
        vec![c; l.arr()[1].usize()]
    });
    if !lead.is_empty() {
        let kept = std::mem::take(&mut *src.0.borrow_mut());
        src.0.borrow_mut().chars = lead.clone();
        for _ in &lead {
            stream.next();
        }
        *src.0.borrow_mut() = kept;
        stats.count(if lead.len() > 60_000 { "streams far along" } else { "streams well along" });
    }
    let before = line_col(&lead, lead.len());
    let mut p = 0;
    let mut resumed: Vec<usize> = Vec::new();
    let mut values = 0;
    for turn in 0..skips.len().max(1) {
        let end = dry.iter().copied().find(|d| *d >= p && !resumed.contains(d)).unwrap_or(text.len());
        let mut m = Machine::new(gr.clone());
        let k = p + m.run(&text[p..end]);
        let complete = m.complete();
        {
            let mut s = src.0.borrow_mut();
            let ahead: Vec<char> = text[p..s.next.max(p)].to_vec();
            s.gate = Some(Gate::new(Machine::new(gr.clone()), &ahead, false));
        }
        let torn = src.0.borrow().ending != Ending::Eof && k == text.len() && end == text.len() && !dry_here(&dry, &resumed, k);
        let got = sim.entries[g].subject.take(&mut stream, as_dyn);
        src.0.borrow_mut().gate = None;
        out.log.str(&format!("{:?}", got));
        let p0 = p;
        let ctx = || format!("value {} of the stream {}, starting at {}", turn, show(text), p0);
        match &got {
            Got::Panic(e) => {
                out.fail("C01", "panic", format!("{}: panicked: {}", ctx(), e));
                return;
            }
            Got::Runaway => {
                out.fail("C01", "endless loop", ctx());
                return;
            }
            Got::Aborted => {
                if !torn {
                    out.fail("C04", "needless wait", format!("{}: decided at {} but read to the end", ctx(), k));
                }
                stats.count("outcome:torn down");
                return;
            }
            Got::Value(v) => {
                if !complete {
                    out.fail("C01", "accepts a non-sentence", format!("{}: took {:?}", ctx(), v.display));
                    return;
                }
                stats.count("outcome:value");
                values += 1;
                let consumed: String = text[p..k].iter().collect();
                value(out, gr, &text[p..end], &consumed, v);
            }
            Got::Error(f, shown) => {
                if torn {
                    out.fail("C01", "decides without the end", ctx());
                    return;
                }
                if complete {
                    out.fail("C01", "rejects a sentence", format!("{}: {}", ctx(), shown));
                    return;
                }
                stats.count("outcome:error in sequence");
                let (line, col) = at(text, k, &dry);
                let pos = (before.0 + line - 1, if line == 1 { before.1 + col } else { col });
                report(out, &m, text, p, k, end, pos, false, f, shown);
            }
        }
        p = k;
        if dry_here(&dry, &resumed, p) {
            src.resume(p);
            resumed.push(p);
            stats.count("fault:dry source resumed");
        }
        if matches!(got, Got::Error(..)) {
            // step over what is in the way
            for _ in 0..skips.get(turn).copied().unwrap_or(0) {
                if p >= text.len() || dry_here(&dry, &resumed, p) {
                    break;
                }
                // a CR looks at what follows
                let ending = std::mem::replace(&mut src.0.borrow_mut().ending, Ending::Eof);
                let c = stream.next();
                src.0.borrow_mut().ending = ending;
                if c != Some(text[p]) {
                    let d = format!("{}: next character {:?} instead of {:?}", ctx(), c, text[p]);
                    out.fail("C03", "remainder differs", d);
                    return;
                }
                p += 1;
            }
        }
    }
    stats.add("values taken in sequence", values);
    // whatever is left must still be there
    src.0.borrow_mut().ending = Ending::Eof;
    for d in &dry {
        src.resume(*d);
    }
    let mut rest = Vec::new();
    while let Some(c) = stream.next() {
        rest.push(c);
        if rest.len() > text.len() {
            break;
        }
    }
    if rest != text[p..] {
        let d = format!("left over {} instead of {} in {}", show(&rest), show(&text[p..]), show(text));
        out.fail("C03", "remainder differs", d);
    }
}

fn dry_here(dry: &[usize], resumed: &[usize], p: usize) -> bool {
    dry.contains(&p) && !resumed.contains(&p)
}
