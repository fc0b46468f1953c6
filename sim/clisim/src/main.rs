//! The commands as simulated processes: faults at every system call they
//! make, any delivery, any memory layout.
mod proc;

use std::panic::{self, AssertUnwindSafe};

use dst::json::obj;
use dst::report::{Outcome, Sim, Stats};
use dst::rng::derive;
use dst::{Fnv, Json, Rng};
use proc::{Exit, Os, Ran, Sizes};
use refmodel::syntax::Style;
use refmodel::text::{verdict, Verdict};
use refmodel::texts;

const READ_ERRORS: [i64; 7] = [5, 11, 21, 6, 104, 110, 14];
const WRITE_ERRORS: [i64; 7] = [28, 32, 5, 11, 122, 27, 104];
const PASS: i64 = 1 << 30;

struct Cli {
    os: Os,
    chomp: String,
    autonibble: String,
}

fn ints(v: Vec<i64>) -> Json {
    Json::Arr(v.into_iter().map(Json::Int).collect())
}

fn place(rng: &mut Rng) -> Vec<(String, Json)> {
    let pm = match rng.below(5) {
        0 => 0,
        1 => 1000,
        _ => rng.range(0, 1000) as i64,
    };
    let off = if rng.chance(1, 2) { 0 } else { rng.range(0, 8) as i64 - 4 };
    vec![("pm".into(), pm.into()), ("off".into(), off.into())]
}

fn with(mut v: Vec<(String, Json)>, k: &str, x: i64) -> Json {
    v.push((k.into(), x.into()));
    Json::Obj(v)
}

/// How the input arrives.
fn delivery(rng: &mut Rng, plan: &mut Vec<(String, Json)>) {
    if rng.chance(1, 2) {
        plan.push(("pipe".into(), true.into()));
    }
    let mut v = Vec::new();
    let n = match rng.below(4) {
        0 => 0,
        1 => rng.range(1, 5),
        2 => rng.range(5, 60),
        _ => rng.range(60, 300),
    };
    let small = rng.range(1, 40);
    for _ in 0..n {
        match rng.below(8) {
            0 => v.push(-4),
            1 => v.push((1 << 40) + rng.range(1, 1_000_000_000) as i64),
            2 => v.push(1),
            3 => v.push(rng.range(1, 400) as i64),
            _ => v.push(rng.range(1, small) as i64),
        }
    }
    if !v.is_empty() {
        plan.push(("in".into(), ints(v)));
    }
    if rng.chance(1, 2) {
        plan.push(("inmax".into(), (*rng.pick(&[1, 2, 3, 5, 7, 16, 31, 32, 33, 100, 512, 4096]) as i64).into()));
    }
}

/// Where memory is, what the kernel hands out, what is set.
fn world(rng: &mut Rng, plan: &mut Vec<(String, Json)>) {
    let mut put = |k: &str, x: i64| plan.push((k.into(), x.into()));
    put("rnd", rng.below(1 << 40) as i64);
    put("clk", *rng.pick(&[0, 1, 1_600_000_000, 2_000_000_000, 4_000_000_000, 9_000_000_000]));
    put("pid", rng.range(2, 4_000_000) as i64);
    if rng.chance(2, 3) {
        put("pad", *rng.pick(&[16, 48, 200, 5000]));
        put("padseed", rng.below(1 << 40) as i64);
    }
    if rng.chance(2, 3) {
        put("fill", rng.below(256) as i64);
    }
}

impl Cli {
    fn bin(&self, cmd: &str) -> String {
        if cmd == "autonibble" { self.autonibble.clone() } else { self.chomp.clone() }
    }

    fn text(&self, rng: &mut Rng, cmd: &str, harm: usize, did: &mut Vec<&'static str>) -> String {
        let style = if cmd == "autonibble" || rng.chance(1, 2) { Style::Ascii } else { Style::Raw };
        let mut t = texts::grammar(rng, style);
        if rng.chance(1, 3) {
            t = texts::respell(&t, rng, cmd == "chomp");
        }
        if rng.chance(1, 10) {
            t = texts::edges(&t, rng);
        }
        if rng.chance(1, 10) {
            t = texts::rename(&t, rng);
        }
        if rng.chance(1, 40) {
            t = texts::bulk(&t, rng, cmd == "chomp");
            did.push("large file");
        }
        for _ in 0..harm {
            let o = texts::grammar(rng, style);
            t = texts::damage(&t, &o, rng, did);
        }
        t
    }

    fn go(&mut self, cmd: &str, bytes: &[u8], plan: &Json, z: &Sizes, stats: &mut Stats, o: &mut Outcome) -> Ran {
        let bin = self.bin(cmd);
        let r = self.os.run(&bin, bytes, plan, z);
        stats.sim_time += r.n("ticks");
        for (k, what) in &[
            ("read_soft", "fault:short or interrupted read"),
            ("read_hard", "fault:failed read"),
            ("delays", "fault:delayed read"),
            ("write_soft", "fault:short or interrupted write"),
            ("write_hard", "fault:failed write"),
            ("err_soft", "fault:short or interrupted write of the diagnostic"),
            ("err_hard", "fault:failed write of the diagnostic"),
            ("malloc_fails", "fault:failed allocation"),
            ("randoms", "seam:random bytes asked for"),
            ("clocks", "seam:clock read"),
            ("reads", "seam:read"),
            ("writes", "seam:write"),
            ("mallocs", "seam:allocation"),
        ] {
            stats.add(what, r.n(k));
        }
        stats.count("processes");
        let mut h = Fnv::default();
        for k in &["reads", "read_bytes", "read_hard", "writes", "write_soft", "write_hard", "malloc_fails"] {
            h.num(r.n(k));
        }
        h.str(cmd);
        h.num(match r.exit {
            Exit::Code(c) => c as u64,
            Exit::Signal(s) => 1000 + s as u64,
        });
        stats.state(h.0);
        h.bytes(&r.out);
        h.str(&r.said());
        o.log.num(h.0);
        stats.schedules.insert(h.0);
        stats.count(match r.exit {
            Exit::Code(0) => "outcome:exit 0",
            Exit::Code(1) => "outcome:exit 1",
            Exit::Code(_) => "outcome:other exit",
            Exit::Signal(_) => "outcome:signal",
        });
        r
    }

    /// What the same code gives in this process.
    fn expected(&self, cmd: &str, text: &str) -> Option<Result<String, String>> {
        let f = || if cmd == "autonibble" { selfhost::compile(text) } else { pipeline::compile(text) };
        panic::catch_unwind(AssertUnwindSafe(f)).ok()
    }
}

fn same_tokens(a: &[u8], b: &str) -> bool {
    let a = match std::str::from_utf8(a) {
        Ok(a) => a,
        Err(_) => return false,
    };
    if a == b {
        return true;
    }
    match (a.parse::<proc_macro2::TokenStream>(), b.parse::<proc_macro2::TokenStream>()) {
        (Ok(x), Ok(y)) => x.to_string() == y.to_string(),
        _ => false,
    }
}

fn bytes_of(sc: &Json) -> Vec<u8> {
    let mut b = sc.at("text").str().as_bytes().to_vec();
    for j in sc.at("inject").arr() {
        let at = (j.arr()[0].int() as usize).min(b.len());
        b.insert(at, j.arr()[1].int() as u8);
    }
    if sc.get("chop").is_some() {
        let n = b.len().saturating_sub(sc.at("chop").usize());
        b.truncate(n);
    }
    b
}

fn sizes(bytes: &[u8], base: &Ran) -> Sizes {
    Sizes {
        out: base.out.len() as u64,
        writes: base.n("writes"),
        mallocs: base.n("mallocs"),
        input: bytes.len() as u64,
    }
}

fn crashed(r: &Ran) -> bool {
    !matches!(r.exit, Exit::Code(0) | Exit::Code(1))
}

impl Sim for Cli {
    fn scenario(&mut self, property: &str, seed: u64, index: u64) -> Json {
        let rng = &mut Rng::new(derive(seed, &[0xc11, property.bytes().map(u64::from).sum(), index]));
        let cmd = if property != "C10" && rng.chance(1, 3) { "autonibble" } else { "chomp" };
        let mut did = Vec::new();
        let mut sc = vec![("cmd".to_owned(), Json::from(cmd))];
        match property {
            "C08" => {
                let harm = usize::from(rng.chance(1, 5));
                sc.push(("text".into(), self.text(rng, cmd, harm, &mut did).into()));
                let plans: Vec<Json> = (0..rng.range(2, 5))
                    .map(|_| {
                        let mut p = Vec::new();
                        if rng.chance(1, 4) {
                            delivery(rng, &mut p);
                        }
                        if rng.chance(1, 3) {
                            let n = rng.range(1, 60);
                            let v = (0..n)
                                .map(|_| match rng.below(4) {
                                    0 => -4,
                                    1 => rng.range(1, 30) as i64,
                                    2 => 1,
                                    _ => PASS,
                                })
                                .collect();
                            p.push(("out".into(), ints(v)));
                        }
                        if rng.chance(1, 6) {
                            p.push(("outmax".into(), (*rng.pick(&[1, 7, 63, 500, 1023]) as i64).into()));
                        }
                        match rng.below(8) {
                            0 | 1 => {
                                let at = place(rng);
                                let e = *rng.pick(&WRITE_ERRORS);
                                p.push(("cap".into(), with(at, "errno", e)));
                            }
                            2 | 3 => {
                                let mut at = place(rng);
                                let act = if rng.chance(1, 8) { 0 } else { -*rng.pick(&WRITE_ERRORS) };
                                at.push(("times".into(), (*rng.pick(&[1, 1, 2, 50]) as i64).into()));
                                p.push(("wfault".into(), with(at, "act", act)));
                            }
                            4 | 5 => {
                                let at = place(rng);
                                let sticky = rng.below(2) as i64;
                                p.push(("mfail".into(), with(at, "sticky", sticky)));
                            }
                            6 => {
                                let v = (0..rng.range(1, 4))
                                    .map(|_| match rng.below(3) {
                                        0 => -4,
                                        1 => rng.range(1, 9) as i64,
                                        _ => -*rng.pick(&WRITE_ERRORS),
                                    })
                                    .collect();
                                p.push(("err".into(), ints(v)));
                            }
                            _ => {}
                        }
                        Json::Obj(p)
                    })
                    .collect();
                sc.push(("plans".into(), Json::Arr(plans)));
            }
            "C09" => {
                let harm = usize::from(rng.chance(1, 4));
                let t = self.text(rng, cmd, harm, &mut did);
                let n = t.len();
                sc.push(("text".into(), t.into()));
                if rng.chance(1, 4) {
                    let v = (0..rng.range(1, 3))
                        .map(|_| {
                            let at = match rng.below(4) {
                                0 => 0,
                                1 => n,
                                _ => rng.below(n + 1),
                            };
                            let bad = [0x80, 0xff, 0xc3, 0xc0, 0xed, 0xf4, 0xf8, 0xe2];
                            ints(vec![at as i64, *rng.pick(&bad)])
                        })
                        .collect();
                    sc.push(("inject".into(), Json::Arr(v)));
                } else if rng.chance(1, 6) {
                    sc.push(("chop".into(), (rng.range(1, 3) as i64).into()));
                }
                let plans: Vec<Json> = (0..rng.range(2, 5))
                    .map(|_| {
                        let mut p = Vec::new();
                        delivery(rng, &mut p);
                        if rng.chance(1, 3) {
                            let at = place(rng);
                            let e = *rng.pick(&READ_ERRORS);
                            p.push(("rcap".into(), with(at, "errno", e)));
                        } else if rng.chance(1, 4) {
                            let mut v: Vec<i64> = (0..rng.below(6)).map(|_| rng.range(1, 50) as i64).collect();
                            v.push(-*rng.pick(&READ_ERRORS));
                            p.retain(|(k, _)| k != "in");
                            p.push(("in".into(), ints(v)));
                        }
                        Json::Obj(p)
                    })
                    .collect();
                sc.push(("plans".into(), Json::Arr(plans)));
            }
            "C10" => {
                let base = self.text(rng, cmd, 0, &mut did);
                let mut v: Vec<Json> = Vec::new();
                for _ in 0..rng.range(4, 16) {
                    let mut t = if rng.chance(1, 6) { self.text(rng, cmd, 0, &mut did) } else { base.clone() };
                    for _ in 0..*rng.pick(&[0, 1, 1, 1, 2, 3]) {
                        let o = if rng.chance(1, 4) { texts::grammar(rng, Style::Ascii) } else { base.clone() };
                        t = texts::damage(&t, &o, rng, &mut did);
                    }
                    v.push(t.into());
                }
                sc.push(("texts".into(), Json::Arr(v)));
                let mut p = Vec::new();
                if rng.chance(1, 3) {
                    delivery(rng, &mut p);
                }
                sc.push(("plan".into(), Json::Obj(p)));
            }
            _ => {
                let harm = usize::from(rng.chance(1, 4));
                sc.push(("text".into(), self.text(rng, cmd, harm, &mut did).into()));
                let plans: Vec<Json> = (0..rng.range(3, 7))
                    .map(|_| {
                        let mut p = Vec::new();
                        world(rng, &mut p);
                        if rng.chance(1, 3) {
                            delivery(rng, &mut p);
                        }
                        if rng.chance(1, 2) {
                            let all = [
                                ("LANG", "tr_TR.UTF-8"), ("LC_ALL", "C"), ("HOME", "/nonexistent"), ("TZ", "Asia/Tokyo"),
                                ("TMPDIR", "/tmp"), ("RUST_BACKTRACE", "1"), ("COLUMNS", "20"), ("NO_COLOR", "1"),
                                ("PATH", "/usr/bin"), ("CARGO_MANIFEST_DIR", "/"), ("USER", "nobody"), ("TERM", "dumb"),
                            ];
                            let mut env: Vec<Json> = Vec::new();
                            for (k, v) in &all {
                                if rng.chance(1, 4) {
                                    env.push(vec![*k, *v].into());
                                }
                            }
                            p.push(("env".into(), Json::Arr(env)));
                        }
                        if rng.chance(1, 3) {
                            p.push(("cwd".into(), (*rng.pick(&["/", "/usr", "/dev"])).into()));
                        }
                        Json::Obj(p)
                    })
                    .collect();
                sc.push(("plans".into(), Json::Arr(plans)));
            }
        }
        sc.push(("harm".into(), did.into()));
        Json::Obj(sc)
    }

    fn run(&mut self, property: &str, sc: &Json, stats: &mut Stats) -> Outcome {
        let mut o = Outcome::default();
        let cmd = sc.at("cmd").str().to_owned();
        for h in sc.at("harm").arr() {
            stats.count(&format!("fault:{}", h.str()));
        }
        match property {
            "C10" => self.grammars(&cmd, sc, stats, &mut o),
            "C11" => self.worlds(&cmd, sc, stats, &mut o),
            _ => self.streams(property, &cmd, sc, stats, &mut o),
        }
        o
    }
}

impl Cli {
    fn streams(&mut self, property: &str, cmd: &str, sc: &Json, stats: &mut Stats, o: &mut Outcome) {
        let bytes = bytes_of(sc);
        let plain = obj([]);
        let base = self.go(cmd, &bytes, &plain, &Sizes::default(), stats, o);
        if crashed(&base) {
            // Not finishing in an orderly way is C10's business.
            stats.count("crash without faults");
            return;
        }
        let z = sizes(&bytes, &base);
        let bad_end = |r: &Ran| -> Option<&'static str> {
            if r.ok() {
                Some("exit status 0")
            } else if !r.out.is_empty() {
                Some("code written")
            } else if r.err.is_empty() {
                Some("no diagnostic")
            } else {
                None
            }
        };
        let text = std::str::from_utf8(&bytes).ok();
        let want = match text {
            None => Some(Err("not UTF-8".to_owned())),
            Some(t) => self.expected(cmd, t),
        };
        match &want {
            None => {
                stats.count("the code panics in this process");
                return;
            }
            Some(Ok(code)) => {
                stats.count("well-formed texts");
                if !base.ok() || !same_tokens(&base.out, code) {
                    o.fail(property, "plain run", format!("{} without faults: {}; the code is {} bytes", cmd, base.show(), code.len()));
                    return;
                }
            }
            Some(Err(e)) => {
                stats.count(if text.is_none() { "fault:bytes that are not UTF-8" } else { "ill-formed texts" });
                if let Some(w) = bad_end(&base) {
                    let class = if text.is_none() { "accepts bytes that are not UTF-8" } else { "plain run" };
                    o.fail(property, class, format!("{} ({}): {}: {}", cmd, e, w, base.show()));
                    return;
                }
            }
        }
        for (i, plan) in sc.at("plans").arr().iter().enumerate() {
            let r = self.go(cmd, &bytes, plan, &z, stats, o);
            let ctx = |what: &str| {
                format!(
                    "{} plan {} {}: {}; without faults: {}",
                    cmd, i, proc::orders(plan, &z), format!("{}: {}", what, r.show()), base.show()
                )
            };
            let silent = r.n("err_hard") > 0;
            let memory = r.n("malloc_fails") > 0;
            if r.ok() && (!base.ok() || r.out != base.out) {
                o.fail(property, "false success", ctx("exit 0"));
                return;
            }
            if r.n("read_hard") > 0 {
                if let Some(w) = bad_end(&r) {
                    if !(silent && w == "no diagnostic") {
                        o.fail(property, "failed read", ctx(w));
                        return;
                    }
                }
                continue;
            }
            if !base.ok() && !r.out.is_empty() {
                o.fail(property, "code from a failed compilation", ctx("output"));
                return;
            }
            if !base.ok() && r.err.is_empty() && !silent {
                o.fail(property, "no diagnostic", ctx("no diagnostic"));
                return;
            }
            if r.n("write_hard") == 0 && !silent && !memory && (r.exit != base.exit || r.out != base.out || r.said() != base.said()) {
                o.fail(property, "retryable faults change the outcome", ctx("differs"));
                return;
            }
            if base.ok() && r.n("write_hard") > 0 && !base.out.starts_with(&r.out) {
                o.fail(property, "garbled output", ctx("not a prefix"));
                return;
            }
        }
    }

    fn worlds(&mut self, cmd: &str, sc: &Json, stats: &mut Stats, o: &mut Outcome) {
        let bytes = bytes_of(sc);
        let plain = obj([]);
        let base = self.go(cmd, &bytes, &plain, &Sizes::default(), stats, o);
        let z = sizes(&bytes, &base);
        let mut asked = base.env.clone();
        for (i, plan) in sc.at("plans").arr().iter().enumerate() {
            let mut plan = plan.clone();
            // set whatever variable the command was seen to ask for
            let mut env = plan.at("env").arr().to_vec();
            if i % 2 == 1 {
                for k in asked.iter().filter(|k| !k.starts_with("RUST_") && !k.starts_with("MALLOC")) {
                    stats.count("fault:variable the command asks for");
                    let v = ["1", "0", "", "/nonexistent", "debug"][(i / 2) % 5];
                    env.push(vec![k.as_str(), v].into());
                }
                if let Json::Obj(p) = &mut plan {
                    p.retain(|(k, _)| k != "env");
                    p.push(("env".into(), Json::Arr(env)));
                }
            }
            let r = self.go(cmd, &bytes, &plan, &z, stats, o);
            stats.count("fault:another world (hash seeds, memory, clock, process id, environment)");
            asked.extend(r.env.iter().cloned());
            asked.sort();
            asked.dedup();
            if r.exit != base.exit || r.out != base.out || r.said() != base.said() {
                o.fail(
                    "C11",
                    "not reproducible",
                    format!("{} plan {} {}: {}; before: {}", cmd, i, proc::orders(&plan, &z), r.show(), base.show()),
                );
                return;
            }
        }
    }

    fn grammars(&mut self, cmd: &str, sc: &Json, stats: &mut Stats, o: &mut Outcome) {
        let list = sc.at("texts").arr();
        for (i, t) in list.iter().enumerate() {
            let t = t.str();
            let v = verdict(t);
            match v {
                Verdict::Unknown => {
                    stats.count("texts the reference does not judge");
                    continue;
                }
                Verdict::Accept => stats.count("texts to accept"),
                Verdict::Reject(_) => stats.count("texts to reject"),
            }
            let judge = |what: &str, accepted: bool, crash: Option<String>, o: &mut Outcome| {
                let want = v == Verdict::Accept;
                if let Some(c) = crash {
                    o.fail("C10", "crash", format!("{}: {} on {:?}", what, c, t));
                } else if accepted != want {
                    let class = if want { "rejects a grammar" } else { "accepts what is no grammar" };
                    let why = if let Verdict::Reject(w) = &v { w.clone() } else { String::new() };
                    o.fail("C10", class, format!("{} on {:?} {}", what, t, why));
                }
            };
            let r = self.expected(cmd, t);
            let mut h = Fnv::default();
            h.str(t);
            h.num(match &r {
                None => 2,
                Some(Ok(_)) => 1,
                Some(Err(_)) => 0,
            });
            stats.schedules.insert(h.0);
            o.log.num(h.0);
            match &r {
                None => judge("in process", false, Some("panic".into()), o),
                Some(r) => judge("in process", r.is_ok(), None, o),
            }
            if !o.findings.is_empty() {
                return;
            }
            if i + 1 == list.len() {
                let base = self.go(cmd, t.as_bytes(), sc.at("plan"), &Sizes::default(), stats, o);
                let crash = if crashed(&base) { Some(base.show()) } else { None };
                judge("command", base.ok(), crash, o);
                if o.findings.is_empty() && !base.ok() && (base.err.is_empty() || !base.out.is_empty()) {
                    o.fail("C10", "rejection without a diagnostic", format!("{}: {}", cmd, base.show()));
                }
            }
        }
    }
}

fn main() {
    panic::set_hook(Box::new(|_| {}));
    let var = |k: &str| std::env::var(k).unwrap_or_default();
    let mut sim =
        Cli { os: Os::new(var("CLISIM_SHIM")), chomp: var("CLISIM_CHOMP"), autonibble: var("CLISIM_AUTONIBBLE") };
    dst::report::main(&mut sim);
}
