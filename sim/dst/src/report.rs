//! The frame every simulator runs in: seeded scenarios, findings, statistics,
//! replay. A scenario is a JSON value; a run is a pure function of it.
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::time::Instant;

use crate::{json::obj, Fnv, Json};

#[derive(Clone, Debug)]
pub struct Finding {
    pub property: String,
    /// What kind of violation: minimisation keeps it.
    pub class: String,
    pub detail: String,
}

#[derive(Default, Debug)]
pub struct Stats {
    pub counters: BTreeMap<String, u64>,
    pub states: HashSet<u64>,
    pub schedules: HashSet<u64>,
    pub sim_time: u64,
}

impl Stats {
    pub fn count(&mut self, what: &str) {
        self.add(what, 1)
    }
    pub fn add(&mut self, what: &str, n: u64) {
        if let Some(c) = self.counters.get_mut(what) {
            *c += n
        } else {
            self.counters.insert(what.to_owned(), n);
        }
    }
    pub fn state(&mut self, h: u64) {
        if self.states.len() < 4_000_000 {
            self.states.insert(h);
        }
    }
}

#[derive(Default, Debug)]
pub struct Outcome {
    pub findings: Vec<Finding>,
    /// Hash of everything observed in the run.
    pub log: Fnv,
}

impl Outcome {
    pub fn fail(&mut self, property: &str, class: &str, detail: String) {
        self.findings.push(Finding { property: property.into(), class: class.into(), detail });
    }
}

pub trait Sim {
    fn scenario(&mut self, property: &str, seed: u64, index: u64) -> Json;
    fn run(&mut self, property: &str, scenario: &Json, stats: &mut Stats) -> Outcome;
}

pub fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned())
}

fn num(name: &str, default: u64) -> u64 {
    arg(name).map_or(default, |s| s.parse().unwrap_or_else(|_| panic!("bad number for {}", name)))
}

fn finding_json(f: &Finding) -> Json {
    obj([
        ("property", f.property.as_str().into()),
        ("class", f.class.as_str().into()),
        ("detail", f.detail.as_str().into()),
    ])
}

fn write_set(path: &str, set: &HashSet<u64>) {
    let mut v: Vec<u64> = set.iter().copied().collect();
    v.sort_unstable();
    let bytes: Vec<u8> = v.iter().flat_map(|x| x.to_le_bytes().to_vec()).collect();
    std::fs::write(path, bytes).expect("write set");
}

/// `run --property P --seed S --start A --count N --stride K --progress F
/// --seconds T --sets PREFIX`, `scenario ... --index I`, or `replay FILE`.
pub fn main<S: Sim>(sim: &mut S) {
    let property = arg("--property").unwrap_or_else(|| "all".into());
    let args: Vec<String> = std::env::args().collect();
    let out = match args.get(1).map(String::as_str) {
        Some("run") => {
            let (seed, start, count, stride) =
                (num("--seed", 1), num("--start", 0), num("--count", 100), num("--stride", 1));
            let seconds = num("--seconds", 100_000) as f64;
            let keep_going = args.iter().any(|a| a == "--keep-going");
            let mut progress = arg("--progress").map(|p| std::fs::File::create(p).expect("progress file"));
            let begin = Instant::now();
            let mut stats = Stats::default();
            let mut runs = 0_u64;
            let mut logs = 0_u64;
            let mut found: Vec<Json> = Vec::new();
            let mut capped = false;
            for k in 0..count {
                let index = start + k * stride;
                if begin.elapsed().as_secs_f64() > seconds {
                    capped = true;
                    break;
                }
                if let Some(p) = &mut progress {
                    use std::io::Seek;
                    p.seek(std::io::SeekFrom::Start(0)).unwrap();
                    p.write_all(format!("{:20}\n", index).as_bytes()).unwrap();
                }
                let sc = sim.scenario(&property, seed, index);
                let o = sim.run(&property, &sc, &mut stats);
                runs += 1;
                let mut h = o.log;
                h.num(index);
                logs = logs.wrapping_add(h.0);
                let hit = o.findings.iter().find(|f| property == "all" || f.property == property);
                if let Some(f) = hit {
                    found.push(obj([("index", index.into()), ("finding", finding_json(f)), ("scenario", sc)]));
                    if !keep_going || found.len() >= 20 {
                        break;
                    }
                }
            }
            if let Some(prefix) = arg("--sets") {
                write_set(&format!("{}.states", prefix), &stats.states);
                write_set(&format!("{}.schedules", prefix), &stats.schedules);
            }
            let counters = Json::Obj(stats.counters.iter().map(|(k, v)| (k.clone(), (*v).into())).collect());
            obj([
                ("runs", runs.into()),
                ("logs", format!("{:016x}", logs).into()),
                ("counters", counters),
                ("sim_time", stats.sim_time.into()),
                ("capped", capped.into()),
                ("seconds", begin.elapsed().as_secs_f64().into()),
                ("found", Json::Arr(found)),
            ])
        }
        Some("scenario") => sim.scenario(&property, num("--seed", 1), num("--index", 0)),
        Some("replay") => {
            let text = std::fs::read_to_string(&args[2]).expect("replay file");
            let sc = Json::parse(&text).expect("replay file is not JSON");
            let mut stats = Stats::default();
            let o = sim.run(&property, &sc, &mut stats);
            let f = o.findings.iter().filter(|f| property == "all" || f.property == property);
            obj([
                ("log", format!("{:016x}", o.log.0).into()),
                ("findings", Json::Arr(f.map(finding_json).collect())),
            ])
        }
        _ => panic!("run, scenario or replay"),
    };
    let mut so = std::io::stdout();
    writeln!(so, "{}", out.print()).and_then(|()| so.flush()).expect("stdout");
}
