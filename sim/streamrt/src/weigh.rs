//! Memory under control (C20): what sessions hold, what they leave behind.
use std::alloc::{GlobalAlloc, Layout, System};
use std::fmt;
use std::sync::atomic::{AtomicBool, AtomicI64, Ordering::Relaxed};

use chewed::{IterWrapper, Parser};
use dst::json::obj;
use dst::report::{Outcome, Stats};
use dst::rng::derive;
use dst::{baton, Json, Rng};

use crate::session::{caught, Got, Subject, WHOLE};
use crate::source::{Ending, Src};
use crate::{arrive, Model, Streams};

static ON: AtomicBool = AtomicBool::new(false);
static LIVE: AtomicI64 = AtomicI64::new(0);
static PEAK: AtomicI64 = AtomicI64::new(0);
static TOTAL: AtomicI64 = AtomicI64::new(0);
static BLOCKS: AtomicI64 = AtomicI64::new(0);
static MADE: AtomicI64 = AtomicI64::new(0);

/// Allocation is a scheduling point and, when asked for, weighed; otherwise it is the system's.
pub struct SimAlloc;

fn more(n: usize) {
    if ON.load(Relaxed) {
        let n = n as i64;
        let live = LIVE.fetch_add(n, Relaxed) + n;
        PEAK.fetch_max(live, Relaxed);
        TOTAL.fetch_add(n, Relaxed);
        BLOCKS.fetch_add(1, Relaxed);
        MADE.fetch_add(1, Relaxed);
    }
}

fn less(n: usize) {
    if ON.load(Relaxed) {
        LIVE.fetch_sub(n as i64, Relaxed);
        BLOCKS.fetch_sub(1, Relaxed);
    }
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        baton::point();
        more(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        less(l.size());
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        baton::point();
        more(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        baton::point();
        less(l.size());
        more(n);
        System.realloc(p, l, n)
    }
}

/// While this lives, allocations are the simulator's own and not weighed.
pub struct Pause(bool);

pub fn pause() -> Pause {
    Pause(ON.swap(false, Relaxed))
}

impl Drop for Pause {
    fn drop(&mut self) {
        ON.store(self.0, Relaxed)
    }
}

/// The scales at one moment: bytes and blocks in use, and since the last `fresh` the most bytes in
/// use at once and all that was allocated.
#[derive(Clone, Copy, Debug, Default)]
pub struct Scales {
    pub live: i64,
    pub blocks: i64,
    pub peak: i64,
    pub total: i64,
    pub made: i64,
}

pub fn read() -> Scales {
    Scales {
        live: LIVE.load(Relaxed),
        blocks: BLOCKS.load(Relaxed),
        peak: PEAK.load(Relaxed),
        total: TOTAL.load(Relaxed),
        made: MADE.load(Relaxed),
    }
}

/// Forget peak and totals, keep what is in use.
pub fn fresh() -> Scales {
    PEAK.store(LIVE.load(Relaxed), Relaxed);
    TOTAL.store(0, Relaxed);
    MADE.store(0, Relaxed);
    read()
}

pub struct Counted(pub usize);

impl fmt::Write for Counted {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.0 += s.chars().count();
        Ok(())
    }
}

/// How a weighed session ended.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum End {
    Value,
    Error,
    Torn,
}

/// One value, taken or refused, printed and dropped.
#[derive(Clone, Copy, Debug)]
pub struct Weighed {
    pub end: End,
    pub before: Scales,
    /// With the result in hand.
    pub held: Scales,
    /// While it was printed.
    pub printed: Scales,
    pub shown: usize,
    /// With the result dropped.
    pub after: Scales,
}

/// Weigh what `get` returns, as `show` prints it.
pub fn weigh<R>(get: impl FnOnce() -> R, show: impl Fn(&R, &mut Counted) -> End) -> Weighed {
    let before = fresh();
    let mut w = Weighed { end: End::Torn, before, held: before, printed: before, shown: 0, after: before };
    let got = caught(|| {
        let r = get();
        w.held = read();
        fresh();
        let mut c = Counted(0);
        w.end = show(&r, &mut c);
        w.shown = c.0;
        w.printed = read();
        drop(r);
        Got::Aborted
    });
    // the payload of a panic is gone with this
    let odd = !matches!(got, Got::Aborted);
    drop(got);
    if odd {
        w.end = End::Torn;
    }
    if w.end == End::Torn {
        w.held = read();
        w.printed = w.before;
    }
    w.after = read();
    w
}

const SLACK: i64 = 4096;

impl Weighed {
    /// More memory than the value and its `len` characters explain?
    fn excess(&self, len: usize) -> Option<String> {
        let len = len as i64;
        let v = self.held.live - self.before.live;
        let vb = self.held.blocks - self.before.blocks;
        if self.end == End::Value {
            let peak = self.held.peak - self.before.live;
            if peak > 2 * v + 64 * len + SLACK {
                return Some(format!("{} characters become a value of {} bytes and need {} bytes at once", len, v, peak));
            }
            if self.held.made > 8 * (vb + len) + 256 {
                return Some(format!("{} characters become {} blocks and need {} allocations", len, vb, self.held.made));
            }
            if self.held.total > 16 * (v + 64 * len) + 4 * SLACK {
                return Some(format!("{} characters become {} bytes and need {} bytes in all", len, v, self.held.total));
            }
        }
        if self.end != End::Torn {
            let shown = self.shown as i64;
            let peak = self.printed.peak - self.held.live;
            if peak > 64 * shown + SLACK {
                return Some(format!("printing {} characters needs {} bytes at once", shown, peak));
            }
            if self.printed.total > 256 * shown + 16 * SLACK {
                return Some(format!("printing {} characters needs {} bytes in all", shown, self.printed.total));
            }
        }
        None
    }
}

/// What remains after each thing done: does it grow every time, or without bound?
#[derive(Default)]
struct Heap {
    base: i64,
    top: i64,
    seen: Vec<(String, i64, bool)>,
}

impl Heap {
    fn start() -> Heap {
        let base = read().live;
        Heap { base, top: base, seen: Vec::new() }
    }
    fn after(&mut self, what: &str) {
        let live = read().live;
        let _p = pause();
        let raised = live > self.top;
        self.top = self.top.max(live);
        self.seen.push((what.into(), live - self.base, raised));
    }
    fn verdict(&self, out: &mut Outcome, ctx: &str) {
        if let Some((i, (what, n, _))) = self.seen.iter().enumerate().find(|(_, s)| s.1 > SLACK) {
            let d = format!("{}: {} bytes still in use after {} ({} of {})", ctx, n, what, i + 1, self.seen.len());
            out.fail("C20", "memory grows", d);
            return;
        }
        for kind in ["a value", "an error", "a torn session", "an operation"] {
            let of: Vec<_> = self.seen.iter().filter(|s| s.0 == kind).collect();
            if of.len() >= 4 && of.iter().skip(1).all(|s| s.2) {
                let d = format!("{}: after each of {} times {}, more bytes are in use: {} in the end", ctx, of.len(), kind,
                                of[of.len() - 1].1);
                out.fail("C20", "memory is left behind", d);
                return;
            }
        }
    }
}

fn kind(e: End) -> &'static str {
    match e {
        End::Value => "a value",
        End::Error => "an error",
        End::Torn => "a torn session",
    }
}

pub fn scenario(sim: &Streams, seed: u64, index: u64) -> Json {
    let g = (index % sim.entries.len() as u64) as usize;
    let mut rng = Rng::new(derive(seed, &[0x20, sim.entries[g].gid, index]));
    let rng = &mut rng;
    let mode = *rng.pick(&["sessions", "sessions", "stream", "stream", "stream", "ops"]);
    let mut parts = Vec::new();
    for _ in 0..rng.range(1, 8) {
        let budget = match rng.below(24) {
            0 if rng.chance(1, 8) => 3000,
            0 | 1 => 300,
            2..=8 => 40,
            _ => 12,
        };
        let mut t = sim.sentence(g, rng, budget);
        t.truncate(12_000);
        let len = t.len();
        let damage = *rng.pick(&[0, 0, 0, 1, 1, 2]);
        let faults = sim.faults(g, rng, len, damage);
        parts.push(obj([("base", t.into_iter().collect::<String>().into()), ("faults", Json::Arr(faults))]));
    }
    let times = match mode {
        "sessions" => rng.range(6, 16),
        // a stream of this many characters, give or take
        _ => *rng.pick(&[200, 1000, 10_000, 10_000, 30_000]),
    };
    let ops: Vec<Json> = if mode == "ops" {
        (0..rng.range(1, 12)).map(|_| Json::Arr(vec![rng.below(6).into(), rng.range(1, 5000).into()])).collect()
    } else {
        Vec::new()
    };
    obj([
        ("sim", "weigh".into()),
        ("grammars", Json::Arr(vec![sim.entries[g].text.into()])),
        ("mode", mode.into()),
        ("how", (*rng.pick(&WHOLE)).into()),
        ("dyn", rng.chance(1, 3).into()),
        ("parts", Json::Arr(parts)),
        ("times", times.into()),
        ("ops", Json::Arr(ops)),
        ("ending", (*rng.pick(&["eof", "eof", "eof", "abort", "stall"])).into()),
    ])
}

pub fn run(sim: &Streams, sc: &Json, stats: &mut Stats) -> Outcome {
    let mut out = Outcome::default();
    let g = match sim.find(sc.at("grammars").arr()[0].str()) {
        Some(g) => g,
        None => return out,
    };
    if !matches!(sim.models[g], Some(Model::Good(_)) | Some(Model::Odd(_))) {
        return out;
    }
    let subject = &*sim.entries[g].subject;
    let parts: Vec<Vec<char>> =
        sc.at("parts").arr().iter().map(|p| arrive(p.at("base").str(), p.at("faults").arr(), stats)).collect();
    if parts.is_empty() {
        return out;
    }
    stats.count(&format!("mode:{}", sc.at("mode").str()));
    let gid = sim.entries[g].gid;
    let ctx = match sc.at("mode").str() {
        "sessions" => sessions(subject, sc, &parts, &mut out, stats),
        "stream" => stream(subject, sc, &parts, &mut out, stats),
        _ => ops(sc, &parts, &mut out, stats),
    };
    stats.state(ctx ^ gid.wrapping_mul(0x9e3779b97f4a7c15));
    stats.schedules.insert(out.log.0);
    out
}

fn ending(sc: &Json) -> Ending {
    match sc.at("ending").str() {
        "abort" => Ending::Abort,
        "stall" => Ending::Stall,
        _ => Ending::Eof,
    }
}

/// Whole sessions, one after another.
fn sessions(subject: &dyn Subject, sc: &Json, parts: &[Vec<char>], out: &mut Outcome, stats: &mut Stats) -> u64 {
    let how = sc.at("how").str();
    let n = sc.at("times").usize().max(parts.len());
    ON.store(true, Relaxed);
    let mut heap = Heap::start();
    let mut excess = None;
    for i in 0..n {
        let src = {
            let _p = pause();
            let src = Src::new(parts[i % parts.len()].clone());
            src.0.borrow_mut().ending = ending(sc);
            src
        };
        let w = subject.weigh_whole(how, &src);
        heap.after(kind(w.end));
        let _p = pause();
        stats.count(&format!("outcome:{:?}", w.end));
        out.log.str(&format!("{:?}", w));
        stats.sim_time += src.0.borrow().clock;
        excess = excess.or_else(|| w.excess(parts[i % parts.len()].len()));
    }
    ON.store(false, Relaxed);
    heap.verdict(out, &format!("{} sessions", n));
    if let Some(e) = excess {
        out.fail("C20", "out of proportion", e);
    }
    out.log.0
}

/// One long stream, value by value.
fn stream(subject: &dyn Subject, sc: &Json, parts: &[Vec<char>], out: &mut Outcome, stats: &mut Stats) -> u64 {
    let size = sc.at("times").usize();
    let mut text: Vec<char> = Vec::new();
    while text.len() < size {
        let n = text.len();
        for p in parts {
            text.extend(p);
        }
        if text.len() == n {
            text.push('\u{b7}');
        }
    }
    let len = text.len();
    let src = Src::new(text);
    src.0.borrow_mut().ending = ending(sc);
    let as_dyn = sc.at("dyn").bool();
    ON.store(true, Relaxed);
    let mut heap = Heap::start();
    let mut s = IterWrapper::new(src.clone());
    let mut excess = None;
    let mut turns = 0;
    loop {
        let from = src.0.borrow().next;
        let w = subject.weigh_take(&mut s, as_dyn);
        heap.after(kind(w.end));
        turns += 1;
        let took = src.0.borrow().next - from;
        {
            let _p = pause();
            if turns < 40 {
                out.log.str(&format!("{:?}", w));
            }
            stats.count(&format!("outcome:{:?}", w.end));
            excess = excess.or_else(|| w.excess(took + 1));
        }
        if w.end == End::Torn {
            break;
        }
        if w.end == End::Error || took == 0 {
            // step over what is in the way
            src.0.borrow_mut().ending = Ending::Eof;
            let c = s.next();
            src.0.borrow_mut().ending = ending(sc);
            if c.is_none() {
                break;
            }
        }
        if turns > 2 * len + 16 {
            break;
        }
    }
    drop(s);
    ON.store(false, Relaxed);
    stats.add("values and errors in long streams", turns as u64);
    stats.sim_time += src.0.borrow().clock;
    heap.verdict(out, &format!("a stream of {} characters", len));
    if let Some(e) = excess {
        out.fail("C20", "out of proportion", e);
    }
    out.log.num(turns as u64);
    out.log.0
}

/// The reading operations on a long stream.
fn ops(sc: &Json, parts: &[Vec<char>], out: &mut Outcome, stats: &mut Stats) -> u64 {
    const SET: &[char] = &['a', 'b', 'c', 'd', '0', '1', 'x', 'é', '字', '\u{1d11e}'];
    const LONG: &str = "abcdabcdabcdabcdabcdabcdabcdabcdabcdabcd\u{1d11e}\u{1d11e}\u{1d11e}\u{1d11e}";
    let size = sc.at("times").usize();
    let mut text: Vec<char> = Vec::new();
    let mut i = 0;
    while text.len() < size {
        text.extend(&parts[i % parts.len()]);
        text.extend(LONG.chars().take(1 + i % 44));
        text.extend("abc,dab,x0;a,b\r\n\n".chars());
        i += 1;
    }
    let len = text.len();
    let src = Src::new(text);
    let list = sc.at("ops").arr();
    ON.store(true, Relaxed);
    let mut heap = Heap::start();
    let mut s = IterWrapper::new(src.clone());
    let mut most = 0;
    let mut turns = 0;
    for t in 0..4 * len {
        let (op, n) = match list.get(t % list.len().max(1)) {
            Some(j) => (j.arr()[0].usize(), j.arr()[1].usize()),
            None => break,
        };
        let before = fresh();
        turns += 1;
        match op {
            0 => {
                let mut left = n;
                s.skip_while(|_| {
                    left = left.saturating_sub(1);
                    left > 0
                });
            }
            1 => drop(s.consume_str(LONG)),
            2 => {
                let mut buffer = ['\0'; 64];
                drop(s.take_chars_from(SET, &mut buffer[..n % 65]));
            }
            3 => {
                for _ in 0..n % 50 {
                    s.peek();
                }
                s.next();
            }
            4 => {
                let mut it = s.iter_strict(
                    |p| {
                        let mut c = ['\0'; 1];
                        p.take_chars_from(SET, &mut c).map(|()| c[0])
                    },
                    ',',
                    ';',
                    &[',', ';'],
                    SET,
                );
                for _ in 0..n % 20 {
                    match it.next() {
                        Some(Ok(_)) => {}
                        _ => break,
                    }
                }
            }
            _ => {
                for _ in 0..n {
                    s.next();
                }
            }
        }
        most = most.max(read().peak - before.live);
        heap.after("an operation");
        if s.peek().is_none() {
            break;
        }
        if t % 7 == 6 {
            s.next();
        }
    }
    drop(s);
    ON.store(false, Relaxed);
    stats.add("reading operations weighed", turns);
    heap.verdict(out, &format!("operations on a stream of {} characters", len));
    if most > SLACK + 4096 {
        out.fail("C20", "out of proportion", format!("a reading operation needs {} bytes at once", most));
    }
    out.log.num(most as u64);
    out.log.num(turns);
    out.log.0
}
