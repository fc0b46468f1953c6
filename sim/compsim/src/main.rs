//! Many compilations in one process: one after another, inside each other and
//! at the same time; abandoned, torn down by a panic, stalled for ever.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::panic::{self, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

use dst::child::in_child;
use dst::json::obj;
use dst::report::{Outcome, Sim, Stats};
use dst::rng::derive;
use dst::{baton, Fnv, Json, Rng};
use refmodel::syntax::Style;
use refmodel::texts;

struct Points;

thread_local! {
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
    static STALL_AT: Cell<u64> = const { Cell::new(u64::MAX) };
}

fn allocation() {
    let due = ALLOCS.try_with(|a| {
        a.set(a.get() + 1);
        a.get()
    });
    if let Ok(n) = due {
        if STALL_AT.try_with(Cell::get).map_or(false, |s| s == n) {
            baton::stall();
        }
    }
    baton::point();
}

// Allocation is a scheduling point, otherwise the system allocator.
unsafe impl GlobalAlloc for Points {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        allocation();
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        allocation();
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        allocation();
        System.realloc(p, l, n)
    }
}

#[global_allocator]
static GLOBAL: Points = Points;

static RANDOM: AtomicU64 = AtomicU64::new(1);

/// Hash seeds come from the simulator.
///
/// # Safety
/// As the library call.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, n: usize, _flags: u32) -> isize {
    for i in 0..n {
        let x = RANDOM.fetch_add(0x9E37_79B9_7F4A_7C15, Ordering::Relaxed);
        *buf.add(i) = ((x ^ (x >> 29)).wrapping_mul(0xBF58_476D_1CE4_E5B9) >> 40) as u8;
    }
    n as isize
}

const LIMIT: u64 = 30_000_000;
const STACK: usize = 64 << 20;

#[derive(Clone)]
struct Job {
    text: String,
    selfhost: bool,
    /// Stop after this many stages: dropped, or unwound.
    abandon: usize,
    unwind: bool,
    times: usize,
    /// (stage, job): compile that one after this stage of ours.
    inner: Vec<(usize, usize)>,
    /// Stall for ever at this allocation.
    stall: u64,
}

fn job(j: &Json) -> Job {
    Job {
        text: j.at("text").str().into(),
        selfhost: j.at("selfhost").bool(),
        abandon: j.at("abandon").usize(),
        unwind: j.at("unwind").bool(),
        times: j.get("times").map_or(1, Json::usize).max(1),
        inner: j.at("inner").arr().iter().map(|p| (p.arr()[0].usize(), p.arr()[1].usize())).collect(),
        stall: j.at("stall").int() as u64,
    }
}

type Notes = Arc<Mutex<Vec<(usize, String)>>>;

fn put(notes: &Notes, i: usize, s: String) {
    // made before the lock is taken: nothing allocates inside
    if let Ok(mut g) = notes.lock() {
        if g.len() < g.capacity() {
            g.push((i, s));
        }
    }
}

fn once(jobs: &[Job], i: usize, depth: usize, notes: &Notes) -> String {
    let j = &jobs[i];
    let r = panic::catch_unwind(AssertUnwindSafe(|| {
        if j.selfhost {
            return Some(selfhost::compile(&j.text));
        }
        pipeline::compile_watched(&j.text, |stage| {
            for (at, k) in &j.inner {
                if *at == stage && *k < jobs.len() && depth < 3 {
                    let r = once(jobs, *k, depth + 1, notes);
                    put(notes, *k, r);
                }
            }
            if j.abandon == stage {
                if j.unwind {
                    panic!("torn down");
                }
                return false;
            }
            true
        })
    }));
    match r {
        Ok(Some(Ok(code))) => format!("code {}", code),
        Ok(Some(Err(e))) => format!("error {}", e),
        Ok(None) => "abandoned".into(),
        Err(e) => {
            let m = e.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| e.downcast_ref::<String>().cloned());
            format!("panic {}", m.unwrap_or_default())
        }
    }
}

fn work(jobs: &[Job], i: usize, notes: &Notes) {
    ALLOCS.with(|a| a.set(0));
    STALL_AT.with(|s| s.set(if jobs[i].stall > 0 { jobs[i].stall } else { u64::MAX }));
    let mut last = String::new();
    for k in 0..jobs[i].times {
        let r = once(jobs, i, 0, notes);
        if k == 0 || r != last {
            put(notes, i, r.clone());
        }
        last = r;
    }
    STALL_AT.with(|s| s.set(u64::MAX));
}

/// Everything, as the scenario says.
fn together(sc: &Json, limit: u64) -> Json {
    RANDOM.store(sc.at("hash").int() as u64 | 1, Ordering::Relaxed);
    let jobs: Vec<Job> = sc.at("jobs").arr().iter().map(job).collect();
    let notes: Notes = Arc::new(Mutex::new(Vec::with_capacity(4096)));
    let mut threads: Vec<Vec<usize>> = Vec::new();
    for (i, t) in sc.at("threads").arr().iter().enumerate() {
        let t = t.usize();
        while threads.len() <= t {
            threads.push(Vec::new());
        }
        if i < jobs.len() {
            threads[t].push(i);
        }
    }
    threads.retain(|t| !t.is_empty());
    let bodies: Vec<Box<dyn FnOnce() + Send>> = threads
        .into_iter()
        .map(|list| {
            let (jobs, notes) = (jobs.clone(), notes.clone());
            Box::new(move || {
                for i in list {
                    work(&jobs, i, &notes);
                }
            }) as Box<dyn FnOnce() + Send>
        })
        .collect();
    let preempts: Vec<(u64, usize)> =
        sc.at("preempts").arr().iter().map(|p| (p.arr()[0].int() as u64, p.arr()[1].usize())).collect();
    let r = if bodies.is_empty() {
        baton::run(vec![Box::new(|| ())], &[], limit, STACK)
    } else {
        baton::run(bodies, &preempts, limit, STACK)
    };
    let seen = notes.lock().map(|g| g.clone()).unwrap_or_default();
    obj([
        ("seen", Json::Arr(seen.into_iter().map(|(i, s)| Json::Arr(vec![i.into(), s.into()])).collect())),
        ("steps", r.steps.into()),
        ("forced", r.forced.into()),
        ("switches", r.switches.len().into()),
        ("futex", r.futex_waits.into()),
        ("clock", r.clock.into()),
        ("over", r.over.into()),
        ("stalled", r.statuses.iter().filter(|s| **s == baton::Status::Stalled).count().into()),
        ("waiting", r.statuses.iter().filter(|s| matches!(s, baton::Status::Futex(_))).count().into()),
        ("schedule", format!("{:016x}", r.hash).into()),
    ])
}

/// The first job of the scenario with only this text, in a fresh process.
fn alone(j: &Json) -> Result<(String, u64), String> {
    let mut one = j.clone();
    if let Json::Obj(o) = &mut one {
        o.retain(|(k, _)| k == "text" || k == "selfhost" || k == "abandon" || k == "unwind");
    }
    let sc = obj([("jobs", Json::Arr(vec![one])), ("threads", vec![0_u64].into()), ("preempts", Json::Arr(vec![])), ("hash", 7_u64.into())]);
    let r = in_child(|| together(&sc, LIMIT))?;
    match r.at("seen").arr().first() {
        Some(s) if !r.at("over").bool() => Ok((s.arr()[1].str().into(), r.at("steps").int() as u64)),
        _ => Err("too long".into()),
    }
}

fn clip(s: &str) -> String {
    s.chars().take(300).collect()
}

struct Comp;

impl Sim for Comp {
    fn scenario(&mut self, _property: &str, seed: u64, index: u64) -> Json {
        let rng = &mut Rng::new(derive(seed, &[0xc0, index]));
        let mut did = Vec::new();
        let n = rng.range(2, 6);
        let mut texts: Vec<String> = Vec::new();
        let mut jobs = Vec::new();
        let nthreads = *rng.pick(&[1, 1, 2, 2, 3, 4]);
        let mut threads = Vec::new();
        let long = rng.chance(1, 25);
        for i in 0..n {
            let selfhost = rng.chance(1, 5);
            let t = if !texts.is_empty() && rng.chance(1, 3) {
                // the same again, or nearly
                let t = rng.pick(&texts).clone();
                match rng.below(4) {
                    0 => t,
                    1 => texts::respell(&t, rng, false),
                    2 => texts::rename(&t, rng),
                    _ => texts::damage(&t, "", rng, &mut did),
                }
            } else {
                let mut t = texts::grammar(rng, Style::Ascii);
                if rng.chance(1, 4) {
                    let o = t.clone();
                    t = texts::damage(&t, &o, rng, &mut did);
                }
                t
            };
            texts.push(t.clone());
            let mut j = vec![("text".to_owned(), Json::from(t)), ("selfhost".to_owned(), selfhost.into())];
            if !selfhost && rng.chance(1, 5) {
                j.push(("abandon".into(), rng.range(1, 6).into()));
                j.push(("unwind".into(), rng.chance(1, 2).into()));
            }
            if !selfhost && rng.chance(1, 8) {
                j.push(("inner".into(), Json::Arr(vec![Json::Arr(vec![rng.range(1, 6).into(), rng.below(n).into()])])));
            }
            let t = if long { 0 } else { rng.below(nthreads) };
            threads.push(Json::from(t));
            if rng.chance(1, 8) && nthreads > 1 {
                let most = *rng.pick(&[300, 3000, 20_000]);
                j.push(("stall".into(), rng.range(1, most).into()));
            }
            if i == 0 && long {
                j.push(("times".into(), rng.range(50, 400).into()));
            }
            jobs.push(Json::Obj(j));
        }
        let gap = *rng.pick(&[3, 30, 300, 3000]);
        let mut at = 0;
        let mut preempts = Vec::new();
        for _ in 0..rng.below(120) {
            at += rng.range(1, gap);
            preempts.push(Json::Arr(vec![at.into(), rng.below(nthreads).into()]));
        }
        obj([
            ("jobs", Json::Arr(jobs)),
            ("threads", Json::Arr(threads)),
            ("preempts", Json::Arr(preempts)),
            ("hash", rng.below(1 << 40).into()),
            ("harm", did.into()),
        ])
    }

    fn run(&mut self, _property: &str, sc: &Json, stats: &mut Stats) -> Outcome {
        let mut o = Outcome::default();
        let jobs = sc.at("jobs").arr();
        if jobs.is_empty() {
            return o;
        }
        let mut solo = Vec::new();
        let mut steps = 0;
        for j in jobs {
            match alone(j) {
                Ok((s, k)) => {
                    steps += k * j.get("times").map_or(1, Json::usize).max(1) as u64;
                    solo.push(s)
                }
                Err(_) => {
                    stats.count("outcome:dies or too long alone");
                    return o;
                }
            }
        }
        if steps > LIMIT {
            stats.count("outcome:too long together");
            return o;
        }
        let all = match in_child(|| together(sc, LIMIT * 5)) {
            Ok(j) => j,
            Err(e) => {
                o.fail("C12", "process dies", format!("{}; each compilation alone is fine", e));
                return o;
            }
        };
        o.log.str(&all.print());
        let mut done = vec![0; jobs.len()];
        for s in all.at("seen").arr() {
            let (i, r) = (s.arr()[0].usize(), s.arr()[1].str());
            done[i] += 1;
            if r != solo[i] {
                let at = r.bytes().zip(solo[i].bytes()).take_while(|(x, y)| x == y).count();
                let near = |s: &str| clip(&String::from_utf8_lossy(&s.as_bytes()[at.saturating_sub(40).min(s.len())..]));
                o.fail(
                    "C12",
                    "differs from the compilation alone",
                    format!("compilation {} of {:?}: {} alone {}", i, clip(jobs[i].at("text").str()), near(r), near(&solo[i])),
                );
                return o;
            }
        }
        // everything on a thread that did not stall has finished
        let threads: Vec<usize> = sc.at("threads").arr().iter().map(Json::usize).collect();
        for (i, d) in done.iter().enumerate() {
            let mine = threads.get(i).copied().unwrap_or(0);
            let could_stall =
                (0..=i).any(|k| threads.get(k).copied().unwrap_or(0) == mine && jobs[k].at("stall").int() > 0);
            if *d == 0 && !could_stall {
                o.fail("C12", "blocked", format!("compilation {} never finished: {}", i, clip(&all.print())));
                return o;
            }
        }
        for h in sc.at("harm").arr() {
            stats.count(&format!("fault:{}", h.str()));
        }
        for (j, s) in jobs.iter().zip(&solo) {
            stats.count(match s.split(' ').next() {
                Some("code") => "outcome:code",
                Some("error") => "outcome:error",
                Some("abandoned") => "outcome:abandoned",
                _ => "outcome:unwound",
            });
            if j.at("abandon").int() > 0 {
                stats.count(if j.at("unwind").bool() { "fault:compilation torn down by a panic" } else { "fault:compilation abandoned" });
            }
            stats.add("nested compilations", j.at("inner").arr().len() as u64);
            stats.add("repeated compilations", j.get("times").map_or(1, Json::usize).saturating_sub(1) as u64);
            let mut f = Fnv::default();
            f.str(s);
            stats.state(f.0);
        }
        stats.add("compilations", jobs.len() as u64);
        stats.add("fault:compilation stalled for ever", all.at("stalled").int() as u64);
        stats.add("fault:forced switch", all.at("forced").int() as u64);
        stats.add("switches", all.at("switches").int() as u64);
        stats.add("scheduling points", all.at("steps").int() as u64);
        stats.add("futex waits simulated", all.at("futex").int() as u64);
        stats.sim_time += all.at("clock").int() as u64 + all.at("steps").int() as u64;
        let mut f = Fnv::default();
        f.str(all.at("schedule").str());
        f.str(&sc.at("jobs").print());
        stats.schedules.insert(f.0);
        o
    }
}

fn main() {
    panic::set_hook(Box::new(|_| {}));
    // the token library settles once per process which backend it uses
    let _ = "a".parse::<proc_macro2::TokenStream>();
    dst::report::main(&mut Comp);
}
