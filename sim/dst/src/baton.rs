//! Threads of which exactly one runs, chosen by the simulator.
//!
//! The code under test runs on real OS threads, but a thread gives up control
//! only at a point the simulator sees: an allocation, a wait for input, a futex
//! call (interposed below, so that locks, once-cells and parking inside the code
//! under test or the standard library are the simulator's to schedule), or its
//! end. Which point switches, and to whom, is given by the scenario.
use std::cell::Cell;
use std::collections::VecDeque;
use std::sync::atomic::{AtomicBool, AtomicPtr, Ordering};
use std::sync::{Condvar, Mutex};

use crate::Fnv;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Status {
    Runnable,
    /// Until this simulated time.
    Sleeping(u64),
    /// Never again.
    Stalled,
    /// Waiting for a wake-up at an address.
    Futex(usize),
    Done,
}

struct Inner {
    threads: Vec<Status>,
    current: usize,
    step: u64,
    clock: u64,
    limit: u64,
    /// (step, thread): at that step switch to that thread.
    preempts: VecDeque<(u64, usize)>,
    switches: Vec<(u64, usize)>,
    over: bool,
    futex_waits: u64,
    forced: u64,
}

struct Shared {
    m: Mutex<Inner>,
    /// One per thread, and the last for the controller.
    cv: Vec<Condvar>,
}

static SHARED: AtomicPtr<Shared> = AtomicPtr::new(std::ptr::null_mut());
static ACTIVE: AtomicBool = AtomicBool::new(false);

thread_local! {
    static ME: Cell<usize> = const { Cell::new(usize::MAX) };
    static INSIDE: Cell<bool> = const { Cell::new(false) };
}

#[derive(Clone, Debug)]
pub struct Report {
    pub statuses: Vec<Status>,
    pub steps: u64,
    pub clock: u64,
    pub switches: Vec<(u64, usize)>,
    pub futex_waits: u64,
    pub forced: u64,
    /// The step limit was reached.
    pub over: bool,
    pub hash: u64,
}

fn shared() -> &'static Shared {
    // set for the whole of a run
    unsafe { &*SHARED.load(Ordering::SeqCst) }
}

/// Is the calling thread one the simulator schedules?
pub fn scheduled() -> bool {
    ACTIVE.load(Ordering::Relaxed) && ME.try_with(|m| m.get() != usize::MAX).unwrap_or(false)
}

pub fn me() -> usize {
    ME.try_with(Cell::get).unwrap_or(usize::MAX)
}

fn inside<R>(f: impl FnOnce() -> R) -> R {
    INSIDE.with(|i| i.set(true));
    let r = f();
    INSIDE.with(|i| i.set(false));
    r
}

impl Inner {
    /// Who runs after the current thread stopped: the next one in turn, or,
    /// when all wait, the one whose time comes first.
    fn pick(&mut self) -> Option<usize> {
        let n = self.threads.len();
        for k in 1..=n {
            let t = (self.current + k) % n;
            if self.threads[t] == Status::Runnable {
                return Some(t);
            }
        }
        let next = (0..n)
            .filter_map(|t| match self.threads[t] {
                Status::Sleeping(at) => Some((at, t)),
                _ => None,
            })
            .min();
        next.map(|(at, t)| {
            self.clock = self.clock.max(at);
            self.threads[t] = Status::Runnable;
            t
        })
    }
    fn due(&mut self) {
        for t in &mut self.threads {
            if let Status::Sleeping(at) = *t {
                if at <= self.clock {
                    *t = Status::Runnable;
                }
            }
        }
    }
}

/// Hand over to `to` and wait for our turn (unless done).
fn hand(to: Option<usize>, me: usize, wait: bool, mut g: std::sync::MutexGuard<'_, Inner>) {
    let s = shared();
    match to {
        Some(t) => {
            if t != g.current {
                let at = g.step;
                g.switches.push((at, t));
            }
            g.current = t;
            if t != me {
                s.cv[t].notify_one();
            }
        }
        None => {
            g.current = usize::MAX;
            s.cv[s.cv.len() - 1].notify_one();
        }
    }
    if wait {
        while g.current != me {
            g = s.cv[me].wait(g).unwrap();
        }
    }
}

/// A point where the simulator may switch.
pub fn point() {
    if !scheduled() || INSIDE.try_with(Cell::get).unwrap_or(true) {
        return;
    }
    inside(|| {
        let me = me();
        let mut g = shared().m.lock().unwrap();
        g.step += 1;
        if g.step > g.limit {
            g.over = true;
            g.threads[me] = Status::Stalled;
            hand(None, me, true, g);
            return;
        }
        let mut target = None;
        while let Some(&(at, t)) = g.preempts.front() {
            if at > g.step {
                break;
            }
            g.preempts.pop_front();
            target = Some(t);
        }
        if let Some(t) = target {
            g.due();
            let n = g.threads.len();
            let t = (0..n).map(|k| (t + k) % n).find(|&t| g.threads[t] == Status::Runnable);
            if let Some(t) = t {
                if t != me {
                    g.forced += 1;
                    hand(Some(t), me, true, g);
                }
            }
        }
    })
}

fn stop(status: Status, wait: bool) {
    inside(|| {
        let me = me();
        let mut g = shared().m.lock().unwrap();
        g.step += 1;
        g.threads[me] = status;
        let to = if g.over { None } else { g.pick() };
        hand(to, me, wait, g);
    })
}

/// Wait for simulated time to pass.
pub fn sleep(ticks: u64) {
    if scheduled() {
        let at = inside(|| shared().m.lock().unwrap().clock) + ticks;
        stop(Status::Sleeping(at), true);
    }
}

/// Never run again.
pub fn stall() {
    if scheduled() {
        stop(Status::Stalled, true);
    }
}

/// Run the bodies under the given switches. Threads that never finish stay
/// parked; the caller is expected to end the process afterwards.
pub fn run(bodies: Vec<Box<dyn FnOnce() + Send>>, preempts: &[(u64, usize)], limit: u64, stack: usize) -> Report {
    let n = bodies.len();
    let s = Box::new(Shared {
        m: Mutex::new(Inner {
            threads: vec![Status::Runnable; n],
            current: usize::MAX,
            step: 0,
            clock: 0,
            limit,
            preempts: preempts.iter().copied().collect(),
            switches: Vec::with_capacity(1024),
            over: false,
            futex_waits: 0,
            forced: 0,
        }),
        cv: (0..=n).map(|_| Condvar::new()).collect(),
    });
    SHARED.store(Box::into_raw(s), Ordering::SeqCst);
    ACTIVE.store(true, Ordering::SeqCst);
    let mut handles = Vec::new();
    for (i, b) in bodies.into_iter().enumerate() {
        let h = std::thread::Builder::new()
            .stack_size(stack)
            .spawn(move || {
                {
                    let s = shared();
                    let mut g = s.m.lock().unwrap();
                    while g.current != i {
                        g = s.cv[i].wait(g).unwrap();
                    }
                }
                ME.with(|m| m.set(i));
                let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(b));
                stop(Status::Done, false);
                ME.with(|m| m.set(usize::MAX));
            })
            .expect("thread");
        handles.push(h);
    }
    let s = shared();
    let mut g = s.m.lock().unwrap();
    if n > 0 {
        g.current = 0;
        s.cv[0].notify_one();
    }
    while g.current != usize::MAX {
        g = s.cv[n].wait(g).unwrap();
    }
    let mut f = Fnv::default();
    for (a, b) in &g.switches {
        f.num(*a);
        f.num(*b as u64);
    }
    let r = Report {
        statuses: g.threads.clone(),
        steps: g.step,
        clock: g.clock,
        switches: g.switches.clone(),
        futex_waits: g.futex_waits,
        forced: g.forced,
        over: g.over,
        hash: f.0,
    };
    drop(g);
    ACTIVE.store(false, Ordering::SeqCst);
    if r.statuses.iter().all(|s| *s == Status::Done) {
        for h in handles {
            let _ = h.join();
        }
    }
    r
}

// ---------------------------------------------------------------- futex seam

const SYS_FUTEX: i64 = 202;

extern "C" {
    fn __errno_location() -> *mut i32;
}

unsafe fn raw(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d,
        in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}

/// The standard library reaches futexes through this symbol.
///
/// # Safety
/// As the system call.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == SYS_FUTEX && scheduled() && !INSIDE.try_with(Cell::get).unwrap_or(true) {
        match b & 0x7f {
            // FUTEX_WAIT, FUTEX_WAIT_BITSET
            0 | 9 => {
                let word = &*(a as *const std::sync::atomic::AtomicU32);
                if word.load(Ordering::SeqCst) != c as u32 {
                    *__errno_location() = 11;
                    return -1;
                }
                inside(|| shared().m.lock().unwrap().futex_waits += 1);
                if d != 0 {
                    // a wait with a time limit: simulated time passes
                    sleep(1000);
                    *__errno_location() = 110;
                    return -1;
                }
                stop(Status::Futex(a as usize), true);
                return 0;
            }
            // FUTEX_WAKE, FUTEX_WAKE_BITSET
            1 | 10 => {
                let mut woken = 0;
                inside(|| {
                    let mut g = shared().m.lock().unwrap();
                    for t in 0..g.threads.len() {
                        if woken < c && g.threads[t] == Status::Futex(a as usize) {
                            g.threads[t] = Status::Runnable;
                            woken += 1;
                        }
                    }
                });
                return woken;
            }
            _ => {}
        }
    }
    let r = raw(n, a, b, c, d, e, f);
    if (-4095..0).contains(&r) {
        *__errno_location() = -r as i32;
        return -1;
    }
    r
}

/// Real sleeping becomes simulated sleeping.
///
/// # Safety
/// As the library call.
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clock: i32, flags: i32, req: *const [i64; 2], rem: *mut [i64; 2]) -> i32 {
    if scheduled() {
        sleep(1 + (*req)[0] as u64 * 1000 + (*req)[1] as u64 / 1_000_000);
        return 0;
    }
    -raw(230, i64::from(clock), i64::from(flags), req as i64, rem as i64, 0, 0) as i32
}

/// # Safety
/// As the library call.
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const [i64; 2], rem: *mut [i64; 2]) -> i32 {
    let e = clock_nanosleep(0, 0, req, rem);
    if e != 0 {
        *__errno_location() = e;
        return -1;
    }
    0
}

/// # Safety
/// As the library call.
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if scheduled() {
        // let everyone else go first
        sleep(0);
        return 0;
    }
    raw(24, 0, 0, 0, 0, 0, 0) as i32
}
