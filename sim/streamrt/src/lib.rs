//! Stream simulator. Linked into binaries that hold freshly generated parsers.
mod check;
mod multi;
mod session;
mod shape;
pub mod source;
mod weigh;

use std::fmt::Debug;
use std::hash::Hash;
use std::marker::PhantomData;
use std::rc::Rc;

use dst::json::obj;
use dst::report::{Outcome, Sim, Stats};
use dst::rng::derive;
use dst::{Json, Rng};
use refmodel::eval::Core;
use refmodel::machine::{sentence, Grammar};
use refmodel::{text, typing};

use session::{Of, Subject, WHOLE};

#[global_allocator]
static ALLOC: weigh::SimAlloc = weigh::SimAlloc;

pub struct Entry {
    pub gid: u64,
    pub text: &'static str,
    pub kind: &'static str,
    pub verdict: &'static str,
    pub subject: Box<dyn Subject + Send + Sync>,
    /// Types that stand, or might stand, for one character.
    pub singles: Vec<Part>,
}

/// Take a value from a stream, as (its text, the character it converts to).
pub type Single = fn(&mut chewed::IterWrapper<source::Src>) -> Option<(String, char)>;

/// A generated type without content, or a choice between types.
pub struct Part {
    /// Present if the type converts to a character.
    pub single: Option<Single>,
    pub take: fn(&mut chewed::IterWrapper<source::Src>) -> Option<String>,
    /// For a choice: whether each of the types chosen between converts.
    pub of: Vec<bool>,
}

pub fn part<T: chewed::Parse + ToString>(single: Option<Single>, of: &[bool]) -> Part {
    Part { single, take: |s| T::take(s).ok().map(|v| v.to_string()), of: of.to_vec() }
}

/// Whether a type converts to a character is asked of the compiler: of the two methods, it
/// takes `Converts` where that is implemented.
pub struct Probe<T>(pub PhantomData<T>);

pub trait Converts {
    fn single(&self) -> Option<Single>;
}

impl<T: chewed::Parse + ToString + Into<char>> Converts for Probe<T> {
    fn single(&self) -> Option<Single> {
        Some(|s| {
            let v = T::take(s).ok()?;
            Some((v.to_string(), v.into()))
        })
    }
}

pub trait Stays {
    fn single(&self) -> Option<Single>;
}

impl<T> Stays for &Probe<T> {
    fn single(&self) -> Option<Single> {
        None
    }
}

#[macro_export]
macro_rules! probe {
    ($t:ty) => {{
        #[allow(unused_imports)]
        use $crate::{Converts, Stays};
        (&$crate::Probe::<$t>(::std::marker::PhantomData)).single()
    }};
}

pub fn entry<T: chewed::Parse + Debug + Clone + PartialEq + Hash + 'static>(
    gid: u64,
    text: &'static str,
    kind: &'static str,
    verdict: &'static str,
    singles: Vec<Part>,
) -> Entry
where
    Of<T>: Send + Sync,
{
    Entry { gid, text, kind, verdict, subject: Box::new(Of::<T>(PhantomData)), singles }
}

/// What the reference knows about a subject's grammar.
pub enum Model {
    /// Well typed, every part has a sentence.
    Good(Rc<Grammar>),
    /// Anything else: membership only.
    Odd(Core),
}

pub struct Streams {
    entries: Vec<Entry>,
    models: Vec<Option<Model>>,
    alphabets: Vec<Vec<char>>,
}

impl Streams {
    fn new(entries: Vec<Entry>) -> Streams {
        let mut models = Vec::new();
        let mut alphabets = Vec::new();
        for e in &entries {
            let mut chars = vec![];
            let m = match text::read(e.text) {
                text::Read::Ok(p) => refmodel::eval::eval(&p).ok().map(|core| {
                    for n in &core.nodes {
                        if let refmodel::Node::Lit(s) = n {
                            chars.extend(s.iter().copied());
                        }
                    }
                    match Grammar::new(core.clone()) {
                        Some(g) => Model::Good(Rc::new(g)),
                        None => Model::Odd(core),
                    }
                }),
                _ => None,
            };
            chars.sort_unstable();
            chars.dedup();
            if chars.is_empty() {
                chars.push('a');
            }
            models.push(m);
            alphabets.push(chars);
        }
        Streams { entries, models, alphabets }
    }

    fn find(&self, text: &str) -> Option<usize> {
        self.entries.iter().position(|e| e.text == text)
    }

    fn sentence(&self, g: usize, rng: &mut Rng, budget: usize) -> Vec<char> {
        match &self.models[g] {
            Some(Model::Good(gr)) => sentence(gr, rng, budget),
            Some(Model::Odd(core)) => {
                let min = typing::min_len(core).into_iter().map(|m| m.unwrap_or(1_000_000)).collect();
                let gr = Grammar { core: core.clone(), types: typing::types(core), min };
                let mut s = sentence(&gr, rng, budget.min(24));
                s.truncate(60);
                s
            }
            None => vec![],
        }
    }

    /// A character to damage a stream with.
    fn noise(&self, g: usize, rng: &mut Rng) -> char {
        let own = *rng.pick(&self.alphabets[g]);
        match rng.below(12) {
            0 => '\0',
            1 => *rng.pick(&['\u{fffd}', '\u{10ffff}', '\u{feff}', '\u{301}', '\u{200b}']),
            2 => *rng.pick(&['\n', '\r', ' ', '\t', '\u{85}', '\u{2028}']),
            // same low byte, other character
            3 => std::char::from_u32((own as u32 & 0xff) | 0x100).unwrap_or('x'),
            4 => std::char::from_u32(own as u32 ^ 0x20).unwrap_or('x'),
            5 => std::char::from_u32((own as u32).wrapping_add(1)).unwrap_or('x'),
            _ => own,
        }
    }

    fn faults(&self, g: usize, rng: &mut Rng, len: usize, n: usize) -> Vec<Json> {
        let mut v = Vec::new();
        for _ in 0..n {
            let at = if rng.chance(1, 4) { len.saturating_sub(rng.below(3)) } else { rng.below(len + 1) };
            let c = self.noise(g, rng).to_string();
            let short = rng.range(1, 4);
            v.push(match rng.below(9) {
                0 | 1 => Json::Arr(vec!["cut".into(), at.into()]),
                2 => Json::Arr(vec!["drop".into(), at.into(), short.into()]),
                3 => Json::Arr(vec!["dup".into(), at.into(), short.into()]),
                4 => Json::Arr(vec!["swap".into(), at.into(), short.into()]),
                5 | 6 => Json::Arr(vec!["set".into(), at.into(), c.into()]),
                7 => Json::Arr(vec!["ins".into(), at.into(), c.into()]),
                _ => {
                    let more: String = self.sentence(g, rng, 6).into_iter().take(20).collect();
                    Json::Arr(vec!["splice".into(), at.into(), more.into()])
                }
            });
        }
        v
    }

    fn single(&self, property: &str, seed: u64, index: u64) -> Json {
        let g = (index % self.entries.len() as u64) as usize;
        let mut rng = Rng::new(derive(seed, &[0x57, self.entries[g].gid, index]));
        let rng = &mut rng;
        let budget = match rng.below(20) {
            0 if rng.chance(1, 10) => 5000,
            0 => 400,
            1..=4 => 60,
            5..=9 => 3,
            _ => 18,
        };
        let other = self.entries.iter().position(|e| e.gid == self.entries[g].gid ^ 1);
        let seq = match property {
            "C16" => rng.chance(1, 3),
            "C01" => rng.chance(1, 6),
            "C02" => rng.chance(1, 4),
            "C03" => rng.chance(2, 3),
            _ => rng.chance(1, 2),
        };
        let mut text = self.sentence(g, rng, budget);
        text.truncate(12_000);
        let mut parts = vec![text.len()];
        if seq {
            for _ in 0..rng.below(5) {
                text.extend(self.sentence(g, rng, budget.min(18)));
                parts.push(text.len());
            }
        }
        let len = text.len();
        let damage = match property {
            "C01" => *rng.pick(&[0, 0, 1, 1, 1, 2, 3]),
            "C02" | "C16" => *rng.pick(&[0, 1, 1, 1, 2, 3]),
            "C03" => *rng.pick(&[0, 0, 0, 1, 2]),
            _ => *rng.pick(&[0, 0, 1, 1, 2]),
        };
        let faults = self.faults(g, rng, len, damage);
        let mut delays = Vec::new();
        for _ in 0..rng.below(4) {
            delays.push(Json::Arr(vec![rng.below(len + 1).into(), rng.range(1, 1_000_000).into()]));
        }
        let mut dry = Vec::new();
        let mut skips = Vec::new();
        if seq {
            for p in parts {
                if rng.chance(1, 3) {
                    dry.push(Json::from(p));
                }
            }
            if rng.chance(1, 4) {
                dry.push(rng.below(len + 1).into());
            }
            for _ in 0..8 {
                skips.push(Json::from(rng.below(4)));
            }
        }
        let ending = *rng.pick(&["eof", "eof", "eof", "eof", "eof", "abort", "stall"]);
        let mut grammars = vec![Json::from(self.entries[g].text)];
        if property == "C16" {
            grammars.extend(other.map(|o| Json::from(self.entries[o].text)));
        }
        let mut lead = Vec::new();
        if seq && property != "C16" && rng.chance(1, 30) {
            let n = *rng.pick(&[253, 32_765, 65_533, 65_533, 70_000, 131_070]) + rng.below(5);
            let c = *rng.pick(&["x", "\n", "\u{2028}", "\u{10ffff}"]);
            lead.push(("lead", Json::Arr(vec![c.into(), n.into()])));
        }
        let sc = obj([
            ("sim", if property == "C16" { "pair" } else { "stream" }.into()),
            ("grammars", Json::Arr(grammars)),
            ("mode", if seq { "seq" } else { "whole" }.into()),
            ("how", (*rng.pick(&WHOLE)).into()),
            ("dyn", rng.chance(1, 3).into()),
            ("base", text.into_iter().collect::<String>().into()),
            ("faults", Json::Arr(faults)),
            ("delays", Json::Arr(delays)),
            ("dry", Json::Arr(dry)),
            ("skips", Json::Arr(skips)),
            ("ending", ending.into()),
        ]);
        match sc {
            Json::Obj(mut v) => {
                v.extend(lead.into_iter().map(|(k, x)| (k.to_owned(), x)));
                Json::Obj(v)
            }
            sc => sc,
        }
    }
}

/// What actually arrives when `faults` happen to `base`.
pub fn arrive(base: &str, faults: &[Json], stats: &mut Stats) -> Vec<char> {
    let mut t: Vec<char> = base.chars().collect();
    for f in faults {
        let f = f.arr();
        let at = f[1].usize().min(t.len());
        let n = f.get(2).map_or(0, Json::usize);
        let s = f.get(2).map_or("", Json::str);
        let end = (at + n).min(t.len());
        let before = t.clone();
        match f[0].str() {
            "cut" => t.truncate(at),
            "drop" => {
                t.drain(at..end);
            }
            "dup" => {
                let d: Vec<char> = t[at..end].to_vec();
                t.splice(end..end, d);
            }
            "swap" => {
                let end2 = (end + n).min(t.len());
                let d: Vec<char> = t[end..end2].iter().chain(&t[at..end]).copied().collect();
                t.splice(at..end2, d);
            }
            "set" if at < t.len() => t[at] = s.chars().next().unwrap_or('?'),
            "ins" | "splice" => {
                t.splice(at..at, s.chars());
            }
            _ => {}
        }
        if t != before {
            stats.count(&format!("fault:{}", f[0].str()));
        }
    }
    t
}

impl Sim for Streams {
    fn scenario(&mut self, property: &str, seed: u64, index: u64) -> Json {
        if property == "C07" {
            multi::scenario(self, seed, index)
        } else if property == "C20" {
            weigh::scenario(self, seed, index)
        } else {
            self.single(property, seed, index)
        }
    }
    fn run(&mut self, property: &str, sc: &Json, stats: &mut Stats) -> Outcome {
        if sc.at("sim").str() == "sessions" {
            multi::run(self, sc, stats)
        } else if sc.at("sim").str() == "weigh" {
            weigh::run(self, sc, stats)
        } else if sc.at("sim").str() == "pair" {
            check::pair(self, sc, stats)
        } else {
            check::single(self, property, sc, stats)
        }
    }
}

pub fn main(entries: Vec<Entry>) {
    std::panic::set_hook(Box::new(|_| {}));
    std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || {
            let mut s = Streams::new(entries);
            dst::report::main(&mut s);
        })
        .unwrap()
        .join()
        .unwrap();
}
