//! Seeded generation of grammars, guided by the reference types.
use std::collections::BTreeSet;

use dst::Rng;

use crate::eval::{eval, eval_open, Limits, Ty};
use crate::syntax::{Ex, Let, Prog};
use crate::typing::{min_len, types};

/// Per-run choices (swarm): what this grammar is made of.
#[derive(Clone, Debug)]
pub struct Cfg {
    pub alphabet: Vec<char>,
    pub max_lit: usize,
    pub depth: usize,
    pub lets: usize,
    pub w: [usize; 10],
    pub labels: Labels,
    pub max_alt: usize,
    pub functions: bool,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Labels {
    /// Branch k of every alternation is labelled with a name for k.
    Positional,
    Random,
    None,
}

pub const BRANCH: [&str; 64] = [
    "Ba", "Bb", "Bc", "Bd", "Be", "Bf", "Bg", "Bh", "Bi", "Bj", "Bk", "Bl", "Bm", "Bn", "Bo", "Bp", "Bq", "Br",
    "Bs", "Bt", "Bu", "Bv", "Bw", "Bx", "By", "Bz", "Ca", "Cb", "Cc", "Cd", "Ce", "Cf", "Cg", "Ch", "Ci", "Cj",
    "Ck", "Cl", "Cm", "Cn", "Co", "Cp", "Cq", "Cr", "Cs", "Ct", "Cu", "Cv", "Cw", "Cx", "Cy", "Cz", "Da", "Db",
    "Dc", "Dd", "De", "Df", "Dg", "Dh", "Di", "Dj", "Dk", "Dl",
];

const NAMES: &[&str] = &[
    "x", "item", "word", "digits", "Num", "ws", "inner", "list", "expr", "term", "atom", "op", "tail_part", "head",
    "Ast", "type", "body", "k", "rec", "sep", "value", "opt", "star", "pair", "Sign", "A", "b", "fooBar", "HTTPCode",
];
const LABELS: &[&str] = &[
    "None", "Some", "Left", "Right", "Many", "One", "Stop", "Sep", "Value", "type", "match", "self", "Ok", "Err",
    "Box", "Default", "a_b", "X", "y", "String", "Parser", "Op", "Name", "Item", "fooBar",
];
const ARGS: &[&str] = &["a", "b", "c", "x", "y", "e", "inner", "sep", "f", "g", "n", "rec", "item", "tail"];

pub fn alphabet(rng: &mut Rng) -> Vec<char> {
    let mut v: Vec<char> = match rng.below(8) {
        0 | 1 => "abcdefghijklmnop".chars().collect(),
        2 => "abcxyz01239+-*/()[]{},;:. ".chars().collect(),
        3 => "aé漢🙂ßΩ𝔸\u{301}ñbc\u{7ff}\u{800}\u{ffff}\u{10000}de".chars().collect(),
        4 => "ab\n\r\t \u{b}\u{c}\u{85}\u{2028}\u{2029}cdef".chars().collect(),
        5 => "\0\u{1}\u{1a}\u{7f}\"\\'{}ab_!/|;xyz%\u{80}\u{10ffff}\u{feff}\u{d7ff}\u{e000}".chars().collect(),
        6 => "aAbBcCdDeEfFgGhHéÉ".chars().collect(),
        _ => (' '..='~').collect(),
    };
    rng.shuffle(&mut v);
    let n = rng.range(v.len().min(5), v.len());
    v.truncate(n);
    v
}

impl Cfg {
    pub fn random(rng: &mut Rng) -> Cfg {
        let mut w = [0; 10];
        for x in &mut w {
            *x = rng.below(6);
        }
        w[0] += 2;
        w[1] += 2;
        w[2] += 2;
        Cfg {
            alphabet: alphabet(rng),
            max_lit: *rng.pick(&[1, 1, 2, 3, 4, 8]),
            depth: rng.range(1, 4),
            lets: *rng.pick(&[0, 1, 2, 3, 4, 6]),
            w,
            labels: *rng.pick(&[Labels::Positional, Labels::Positional, Labels::Random, Labels::None]),
            max_alt: *rng.pick(&[2, 3, 4, 6, 12]),
            functions: !rng.chance(1, 4),
        }
    }
}

#[derive(Clone, Debug)]
struct Fun {
    name: String,
    arity: usize,
    /// Which arguments are themselves one-argument functions.
    higher: Vec<bool>,
}

pub struct Gen<'a> {
    rng: &'a mut Rng,
    pub cfg: Cfg,
    lets: Vec<Let>,
    /// Fix variables and arguments in scope with assumed types.
    free: Vec<(String, Ty)>,
    funs: Vec<Fun>,
    /// Let names bound to grammars.
    grounds: Vec<String>,
    budget: usize,
}

type Chars = BTreeSet<char>;

fn lim() -> Limits {
    Limits { nodes: 900, depth: 90, steps: 8000 }
}

fn var(s: &str) -> Ex {
    Ex::Var(s.to_owned())
}

fn lam(a: &str, e: Ex) -> Ex {
    Ex::Lam(vec![a.to_owned()], Box::new(e))
}

impl<'a> Gen<'a> {
    pub fn new(rng: &'a mut Rng, cfg: Cfg) -> Self {
        Gen { rng, cfg, lets: vec![], free: vec![], funs: vec![], grounds: vec![], budget: 260 }
    }

    fn est(&self, e: &Ex) -> Option<Ty> {
        let p = Prog { lets: self.lets.clone(), goal: e.clone() };
        let core = eval_open(&p, &self.free, lim()).ok()?;
        let t = types(&core);
        if !t.faults.is_empty() || min_len(&core)[core.root].is_none() {
            return None;
        }
        Some(t.ty[core.root].clone())
    }

    fn fresh(&mut self, pool: &[&str]) -> String {
        // mostly new names, sometimes shadowing on purpose
        for _ in 0..12 {
            let n = (*self.rng.pick(pool)).to_owned();
            let used = self.free.iter().any(|(f, _)| *f == n) || self.lets.iter().any(|l| l.name == n);
            if !used {
                return n;
            }
        }
        let mut n = format!("v{}", (b'a' + self.rng.below(26) as u8) as char);
        while self.free.iter().any(|(f, _)| *f == n) || self.lets.iter().any(|l| l.name == n) {
            n.push((b'a' + self.rng.below(26) as u8) as char);
        }
        n
    }

    fn label(&mut self, k: usize) -> Option<String> {
        match self.cfg.labels {
            Labels::Positional => Some(BRANCH[k.min(63)].to_owned()),
            Labels::Random => {
                if self.rng.chance(1, 2) {
                    Some((*self.rng.pick(LABELS)).to_owned())
                } else {
                    None
                }
            }
            Labels::None => None,
        }
    }

    fn alt(&mut self, parts: Vec<Ex>) -> Ex {
        let v = parts.into_iter().enumerate().map(|(k, e)| (e, self.label(k))).collect();
        Ex::Alt(v)
    }

    fn some_char(&mut self, allowed: &Chars) -> Option<char> {
        let v: Vec<char> = allowed.iter().copied().collect();
        if v.is_empty() {
            None
        } else {
            Some(*self.rng.pick(&v))
        }
    }

    fn lit(&mut self, allowed: &Chars) -> Option<Ex> {
        let c = self.some_char(allowed)?;
        let mut s = String::new();
        s.push(c);
        let n = self.rng.below(self.cfg.max_lit);
        for _ in 0..n {
            s.push(*self.rng.pick(&self.cfg.alphabet));
        }
        Some(Ex::Lit(s))
    }

    fn split(&mut self, allowed: &Chars, n: usize) -> Vec<Chars> {
        let mut v: Vec<char> = allowed.iter().copied().collect();
        self.rng.shuffle(&mut v);
        let mut out = vec![Chars::new(); n];
        for (i, c) in v.into_iter().enumerate() {
            let k = if i < n { i } else { self.rng.below(n) };
            out[k].insert(c);
        }
        out
    }

    fn sub(&mut self, allowed: &Chars) -> Chars {
        let out: Chars = allowed.iter().copied().filter(|_| self.rng.chance(2, 3)).collect();
        if out.is_empty() {
            self.some_char(allowed).into_iter().collect()
        } else {
            out
        }
    }

    /// A grammar expression starting inside `allowed`.
    fn ground(&mut self, allowed: &Chars, null_ok: bool, depth: usize) -> Option<Ex> {
        if self.budget == 0 {
            return self.lit(allowed);
        }
        self.budget -= 1;
        for _ in 0..3 {
            if let Some(e) = self.attempt(allowed, null_ok, depth) {
                if let Some(t) = self.est(&e) {
                    if t.first.is_subset(allowed) && (null_ok || !t.null) {
                        return Some(e);
                    }
                }
            }
        }
        if null_ok && (allowed.is_empty() || self.rng.chance(1, 6)) {
            return Some(if self.rng.chance(1, 8) { Ex::Lit(String::new()) } else { Ex::Eps });
        }
        self.lit(allowed)
    }

    fn attempt(&mut self, allowed: &Chars, null_ok: bool, depth: usize) -> Option<Ex> {
        if depth == 0 {
            let usable: Vec<String> = self
                .free
                .iter()
                .filter(|(_, t)| t.first.is_subset(allowed) && (null_ok || !t.null))
                .map(|f| f.0.clone())
                .collect();
            if !usable.is_empty() && self.rng.chance(1, 3) {
                return Some(var(self.rng.pick(&usable)));
            }
            if null_ok && self.rng.chance(1, 4) {
                return Some(Ex::Eps);
            }
            return self.lit(allowed);
        }
        let w = self.cfg.w;
        let d = depth - 1;
        match self.rng.weighted(&w) {
            0 => {
                // sequence
                let first = self.ground(allowed, false, d)?;
                let mut parts = vec![first];
                let n = self.rng.range(1, 3);
                for _ in 0..n {
                    let so_far = if parts.len() == 1 { parts[0].clone() } else { Ex::Cat(parts.clone()) };
                    let t = self.est(&so_far)?;
                    let all: Chars = self.cfg.alphabet.iter().copied().collect();
                    let next: Chars = all.difference(&t.flast).copied().collect();
                    // recursive uses like to be behind something
                    let fit: Vec<String> = self
                        .free
                        .iter()
                        .filter(|(_, t)| t.first.is_subset(&next))
                        .map(|f| f.0.clone())
                        .collect();
                    if !fit.is_empty() && self.rng.chance(1, 3) {
                        parts.push(var(self.rng.pick(&fit)));
                    } else {
                        parts.push(self.ground(&next, true, d)?);
                    }
                }
                Some(Ex::Cat(parts))
            }
            1 => {
                // alternation
                let n = self.rng.range(2, self.cfg.max_alt.max(2)).min(allowed.len() + usize::from(null_ok));
                if n < 2 {
                    return None;
                }
                let nul = null_ok && self.rng.chance(1, 2);
                let real = n - usize::from(nul);
                let mut parts = Vec::new();
                if real > 0 {
                    for set in self.split(allowed, real) {
                        if !set.is_empty() {
                            parts.push(self.ground(&set, false, d)?);
                        }
                    }
                }
                if nul {
                    let at = self.rng.below(parts.len() + 1);
                    let e = if self.rng.chance(1, 3) && d > 0 {
                        // a nullable branch with characters of its own
                        let used: Chars = parts
                            .iter()
                            .filter_map(|p| self.est(p))
                            .flat_map(|t| t.first.into_iter())
                            .collect();
                        let left: Chars = allowed.difference(&used).copied().collect();
                        self.ground(&left, true, d)?
                    } else {
                        Ex::Eps
                    };
                    parts.insert(at, e);
                }
                if parts.len() < 2 {
                    return parts.pop();
                }
                Some(self.alt(parts))
            }
            2 | 3 => {
                // fix point
                let name = if self.rng.chance(1, 5) && !self.free.is_empty() {
                    let f: Vec<String> = self.free.iter().map(|f| f.0.clone()).collect();
                    self.rng.pick(&f).clone()
                } else {
                    self.fresh(ARGS)
                };
                let first = self.sub(allowed);
                let ty = Ty { null: null_ok && self.rng.chance(1, 2), first: first.clone(), flast: Chars::new() };
                let null = ty.null;
                self.free.push((name.clone(), ty));
                let body = if self.rng.chance(1, 2) {
                    self.ground(&first, null, depth)
                } else {
                    self.recursive(&name, &first, null, d)
                };
                self.free.pop();
                Some(Ex::Fix(Box::new(lam(&name, body?))))
            }
            4 | 5 => {
                // call of a function
                if self.funs.is_empty() {
                    return None;
                }
                let f = self.rng.pick(&self.funs.clone()).clone();
                let sets = if self.rng.chance(2, 3) { self.split(allowed, f.arity) } else { vec![allowed.clone(); f.arity] };
                let mut args = Vec::new();
                for (i, set) in sets.iter().enumerate() {
                    let set = if i > 0 && self.rng.chance(1, 2) { self.cfg.alphabet.iter().copied().collect() } else { set.clone() };
                    if f.higher[i] {
                        args.push(self.function_arg(&set, d)?);
                    } else if !self.free.is_empty() && self.rng.chance(1, 2) {
                        let v: Vec<String> = self.free.iter().map(|f| f.0.clone()).collect();
                        args.push(var(self.rng.pick(&v)));
                    } else {
                        let null = self.rng.chance(1, 6);
                        args.push(self.ground(&set, null, d)?);
                    }
                }
                Some(Ex::Call(Box::new(var(&f.name)), args))
            }
            6 => {
                // a let-bound grammar
                if self.grounds.is_empty() {
                    return None;
                }
                let g = self.rng.pick(&self.grounds.clone()).clone();
                Some(var(&g))
            }
            7 => {
                // immediate application
                let n = self.rng.range(1, 2);
                let names: Vec<String> = (0..n).map(|_| self.fresh(ARGS)).collect();
                if n == 2 && names[0] == names[1] {
                    return None;
                }
                let sets = self.split(allowed, n);
                let mut args = Vec::new();
                let mut tys = Vec::new();
                for s in &sets {
                    let a = self.ground(s, false, d)?;
                    tys.push(self.est(&a)?);
                    args.push(a);
                }
                let keep = self.free.len();
                for (n, t) in names.iter().zip(tys) {
                    self.free.push((n.clone(), t));
                }
                let body = self.ground(allowed, null_ok, d);
                self.free.truncate(keep);
                Some(Ex::Call(Box::new(Ex::Lam(names, Box::new(body?))), args))
            }
            8 => {
                // a class of single characters
                let n = self.rng.range(2, 40).min(allowed.len());
                if n < 2 {
                    return None;
                }
                let mut v: Vec<char> = allowed.iter().copied().collect();
                self.rng.shuffle(&mut v);
                v.truncate(n);
                Some(self.alt(v.into_iter().map(|c| Ex::Lit(c.to_string())).collect()))
            }
            _ => {
                let usable: Vec<String> = self
                    .free
                    .iter()
                    .filter(|(_, t)| t.first.is_subset(allowed))
                    .map(|f| f.0.clone())
                    .collect();
                if usable.is_empty() {
                    return self.lit(allowed);
                }
                Some(var(self.rng.pick(&usable)))
            }
        }
    }

    /// A body that really recurses: x standing for itself behind something.
    fn recursive(&mut self, name: &str, first: &Chars, null: bool, d: usize) -> Option<Ex> {
        let x = var(name);
        let all: Chars = self.cfg.alphabet.iter().copied().collect();
        let rest: Chars = all.difference(first).copied().collect();
        Some(match self.rng.below(5) {
            0 if null => {
                // _ | e . x
                let e = self.ground(first, false, d)?;
                let mut v = vec![Ex::Eps, Ex::Cat(vec![e, x])];
                if self.rng.chance(1, 2) {
                    v.swap(0, 1);
                }
                self.alt(v)
            }
            1 => {
                // e . (_ | sep . x)
                let e = self.ground(first, false, d)?;
                let s = self.ground(&rest, false, 0)?;
                let v = vec![Ex::Eps, Ex::Cat(vec![s, x])];
                let a = self.alt(v);
                Ex::Cat(vec![e, a])
            }
            2 => {
                // "(" . x . ")" | e
                let sets = self.split(first, 2);
                if sets.iter().any(|s| s.is_empty()) {
                    return None;
                }
                let l = self.lit(&sets[0])?;
                let r = self.lit(&rest)?;
                let e = self.ground(&sets[1], null, d)?;
                let v = vec![Ex::Cat(vec![l, x, r]), e];
                self.alt(v)
            }
            3 => {
                // "a" . x . x | "b"
                let sets = self.split(first, 2);
                if sets.iter().any(|s| s.is_empty()) {
                    return None;
                }
                let l = self.lit(&sets[0])?;
                let e = self.ground(&sets[1], false, d)?;
                let v = vec![Ex::Cat(vec![l, x.clone(), x]), e];
                self.alt(v)
            }
            _ => {
                // e . (_ | x)
                let e = self.ground(first, false, d)?;
                let v = vec![Ex::Eps, x];
                let a = self.alt(v);
                Ex::Cat(vec![e, a])
            }
        })
    }

    fn function_arg(&mut self, allowed: &Chars, d: usize) -> Option<Ex> {
        let one: Vec<String> =
            self.funs.iter().filter(|f| f.arity == 1 && !f.higher[0]).map(|f| f.name.clone()).collect();
        if !one.is_empty() && self.rng.chance(1, 2) {
            return Some(var(self.rng.pick(&one)));
        }
        let a = self.fresh(ARGS);
        let c = self.lit(allowed)?;
        let body = match self.rng.below(4) {
            0 => Ex::Cat(vec![c, var(&a)]),
            1 => {
                let v = vec![c, var(&a)];
                self.alt(v)
            }
            2 => Ex::Cat(vec![var(&a), c]),
            _ => {
                let g = self.ground(allowed, false, d)?;
                Ex::Cat(vec![c, var(&a), g])
            }
        };
        Some(lam(&a, body))
    }

    fn template(&mut self) -> Option<(Let, Vec<bool>)> {
        let name = self.fresh(NAMES);
        let a = self.fresh(ARGS);
        let mut b = self.fresh(ARGS);
        let mut r = self.fresh(ARGS);
        while b == a {
            b = self.fresh(ARGS);
        }
        while r == a || r == b {
            r = self.fresh(ARGS);
        }
        let (va, vb, vr) = (var(&a), var(&b), var(&r));
        let all: Chars = self.cfg.alphabet.iter().copied().collect();
        let call = |f: &Ex, x: Ex| Ex::Call(Box::new(f.clone()), vec![x]);
        let fix = |v: &str, e: Ex| Ex::Fix(Box::new(lam(v, e)));
        let (args, higher, body) = match self.rng.below(15) {
            0 => (vec![a], vec![false], self.alt(vec![Ex::Eps, va])),
            1 => {
                let t = self.alt(vec![Ex::Eps, vr.clone()]);
                (vec![a], vec![false], fix(&r, Ex::Cat(vec![va, t])))
            }
            2 => {
                let t = self.alt(vec![Ex::Eps, Ex::Cat(vec![va, vr.clone()])]);
                (vec![a], vec![false], fix(&r, t))
            }
            3 => {
                let t = self.alt(vec![Ex::Eps, Ex::Cat(vec![vb, vr.clone()])]);
                (vec![a, b], vec![false, false], fix(&r, Ex::Cat(vec![va, t])))
            }
            4 => (vec![a, b], vec![false, false], Ex::Cat(vec![va, vb])),
            5 => (vec![a, b], vec![false, false], self.alt(vec![va, vb])),
            6 => (vec![a, b], vec![true, false], call(&va, vb)),
            7 => (vec![a, b], vec![true, false], call(&va, call(&va, vb))),
            8 => {
                let l = self.lit(&all)?;
                let e = self.lit(&all)?;
                (vec![a], vec![false], Ex::Cat(vec![l, va, e]))
            }
            9 => {
                let c = self.lit(&all)?;
                let t = self.alt(vec![va, Ex::Cat(vec![c, vr.clone()])]);
                (vec![a], vec![false], fix(&r, t))
            }
            10 => (vec![a, b], vec![false, false], va),
            11 => {
                let c = self.lit(&all)?;
                let e = self.lit(&all)?;
                // a function that recurses through its argument
                let t = self.alt(vec![c, Ex::Cat(vec![e, vr.clone(), va.clone()]), va]);
                (vec![a], vec![false], fix(&r, t))
            }
            12 => {
                // shadowing: the inner name is the argument's
                let c = self.lit(&all)?;
                let inner = lam(&a, Ex::Cat(vec![c, va.clone()]));
                (vec![a], vec![false], call(&inner, va))
            }
            13 => {
                let c = self.lit(&all)?;
                let d = self.lit(&all)?;
                let t = self.alt(vec![Ex::Cat(vec![c, vb.clone(), vr.clone()]), Ex::Cat(vec![d, va.clone()])]);
                (vec![a, b], vec![false, false], fix(&r, t))
            }
            _ => {
                // random body over the arguments
                let n = self.rng.range(1, 3);
                let mut names = vec![a, b, r];
                names.truncate(n);
                let sets = self.split(&all, n + 1);
                let keep = self.free.len();
                let outer = self.free.split_off(0);
                for (x, s) in names.iter().zip(&sets) {
                    let s = self.sub(s);
                    if s.is_empty() {
                        self.free = outer;
                        return None;
                    }
                    self.free.push((x.clone(), Ty { null: false, first: s, flast: Chars::new() }));
                }
                let depth = self.rng.range(1, self.cfg.depth);
                let body = self.ground(&all, true, depth);
                self.free = outer;
                debug_assert_eq!(keep, self.free.len());
                let h = vec![false; n];
                (names, h, body?)
            }
        };
        Some((Let { name, args, body }, higher))
    }

    fn score(&self, e: &Ex) -> usize {
        let p = Prog { lets: self.lets.clone(), goal: e.clone() };
        eval_open(&p, &[], lim()).map_or(0, |c| {
            let fixes = c.nodes.iter().filter(|n| matches!(n, crate::eval::Node::Fix(_))).count();
            let recs = c.nodes.iter().filter(|n| matches!(n, crate::eval::Node::Rec(_))).count();
            c.nodes.len().min(60) + 6 * fixes.min(6) + 4 * recs.min(8)
        })
    }

    /// Several fix points that use one function (or one open term) in the same
    /// way but mean different things by it.
    fn twins(&mut self) -> Option<Ex> {
        let all: Chars = self.cfg.alphabet.iter().copied().collect();
        let n = self.rng.range(2, 3);
        let heads = self.split(&all, n);
        let f = if self.funs.is_empty() || self.rng.chance(1, 3) {
            None
        } else {
            let one: Vec<Fun> = self.funs.iter().filter(|f| !f.higher[0]).cloned().collect();
            if one.is_empty() {
                None
            } else {
                Some(self.rng.pick(&one).clone())
            }
        };
        let l = self.lit(&all)?;
        let tail = self.lit(&all)?;
        let shared_close = self.lit(&all)?;
        let sep = self.lit(&all)?;
        let inner_name = self.fresh(ARGS);
        let mut parts = Vec::new();
        for set in heads {
            let head = self.lit(&set)?;
            let x = self.fresh(ARGS);
            let used = match &f {
                Some(f) => {
                    let mut args = vec![var(&x)];
                    for _ in 1..f.arity {
                        args.push(shared_close.clone());
                    }
                    if f.arity == 2 && f.higher[1] {
                        return None;
                    }
                    if f.arity == 2 && self.rng.chance(1, 2) {
                        args.swap(0, 1);
                    }
                    Ex::Call(Box::new(var(&f.name)), args)
                }
                None => {
                    // !(/b/ l . (sep . b | x))
                    if inner_name == x {
                        return None;
                    }
                    let back = Ex::Cat(vec![sep.clone(), var(&inner_name)]);
                    let mut v = vec![back, var(&x)];
                    if self.rng.chance(1, 4) {
                        v.swap(0, 1);
                    }
                    let a = self.alt(v);
                    Ex::Fix(Box::new(lam(&inner_name, Ex::Cat(vec![l.clone(), a]))))
                }
            };
            let end = if self.rng.chance(1, 2) {
                tail.clone()
            } else {
                let e = self.lit(&all)?;
                Ex::Cat(vec![tail.clone(), e])
            };
            let v = vec![Ex::Cat(vec![l.clone(), used]), end];
            let body = self.alt(v);
            parts.push(Ex::Cat(vec![head, Ex::Fix(Box::new(lam(&x, body)))]));
        }
        Some(self.alt(parts))
    }

    /// Several fix points that hold the same open term, which uses them (and one around them all)
    /// somewhere inside.
    fn deep_twins(&mut self) -> Option<Ex> {
        let all: Chars = self.cfg.alphabet.iter().copied().collect();
        let n = self.rng.range(2, 3);
        let sets = self.split(&all, n + 6);
        if sets.iter().any(|s| s.is_empty()) {
            return None;
        }
        let mut names: Vec<String> = Vec::new();
        while names.len() < 3 {
            let x = self.fresh(ARGS);
            if !names.contains(&x) {
                names.push(x);
            }
        }
        let (o, b, c) = (names[0].clone(), names[1].clone(), names[2].clone());
        let (open, end, sep, deeper, other, last) =
            (&sets[n], &sets[n + 1], &sets[n + 2], &sets[n + 3], &sets[n + 4], &sets[n + 5]);
        let around = self.rng.chance(1, 2);
        let wrap = self.rng.below(6);
        let mut wrapped: Vec<Ex> = Vec::new();
        // the open term, with `#` for the fix point around it
        let x = || var("#");
        match wrap {
            0 => wrapped.push(x()),
            1 => {
                let back = Ex::Cat(vec![self.lit(other)?, var(&c)]);
                let mut v = vec![back, x()];
                if self.rng.chance(1, 2) {
                    v.swap(0, 1);
                }
                let a = self.alt(v);
                let l = self.lit(deeper)?;
                wrapped.push(Ex::Fix(Box::new(lam(&c, Ex::Cat(vec![l, a])))));
            }
            2 => {
                let mut v = vec![self.lit(deeper)?];
                let at = self.rng.below(4);
                for i in 0..4 {
                    let e = self.lit(&all)?;
                    v.push(if i == at { x() } else { e });
                }
                wrapped.push(Ex::Cat(v));
            }
            3 => {
                wrapped.push(self.lit(deeper)?);
                wrapped.push(self.lit(other)?);
                let i = self.rng.below(3);
                wrapped.insert(i, x());
            }
            4 => {
                let r = self.lit(&all)?;
                wrapped.push(Ex::Cat(vec![x(), r]));
                wrapped.push(self.lit(deeper)?);
            }
            _ => {
                let mut v = vec![x(), self.lit(other)?];
                if self.rng.chance(1, 2) {
                    v.swap(0, 1);
                }
                let a = self.alt(v);
                let r = self.lit(&all)?;
                let l = self.lit(deeper)?;
                wrapped.push(Ex::Cat(vec![l, a, r]));
            }
        }
        if around {
            let i = self.rng.below(wrapped.len() + 1);
            wrapped.insert(i, var(&o));
        }
        let i = self.rng.below(wrapped.len() + 1);
        let s = self.lit(sep)?;
        wrapped.insert(i, Ex::Cat(vec![s, var(&b)]));
        let a = self.alt(wrapped);
        let l = self.lit(&all)?;
        let used = Ex::Fix(Box::new(lam(&b, Ex::Cat(vec![l, a]))));
        let opening = self.lit(open)?;
        let mut parts = Vec::new();
        for head in &sets[..n] {
            let head = self.lit(head)?;
            let mut x = self.fresh(ARGS);
            while names.contains(&x) {
                x = self.fresh(ARGS);
            }
            let mut mine = used.clone();
            rename_var(&mut mine, "#", &x);
            let tail = self.lit(end)?;
            let mut v = vec![Ex::Cat(vec![opening.clone(), mine]), tail];
            if self.rng.chance(1, 4) {
                v.swap(0, 1);
            }
            let body = self.alt(v);
            parts.push(Ex::Cat(vec![head, Ex::Fix(Box::new(lam(&x, body)))]));
        }
        if !around {
            return Some(self.alt(parts));
        }
        let i = self.rng.below(parts.len() + 1);
        let stop = self.lit(last)?;
        parts.insert(i, stop);
        let body = self.alt(parts);
        Some(Ex::Fix(Box::new(lam(&o, body))))
    }

    /// Fix points inside fix points, the inner ones using the outer variables.
    fn nest(&mut self) -> Option<Ex> {
        let all: Chars = self.cfg.alphabet.iter().copied().collect();
        let levels = self.rng.range(2, 3);
        let sets = self.split(&all, levels * 2 + 1);
        if sets.iter().any(|s| s.is_empty()) {
            return None;
        }
        let names: Vec<String> = {
            let mut v: Vec<String> = Vec::new();
            while v.len() < levels {
                let n = self.fresh(ARGS);
                if !v.contains(&n) {
                    v.push(n);
                }
            }
            v
        };
        let mut e: Option<Ex> = None;
        for k in (0..levels).rev() {
            let open = self.lit(&sets[2 * k])?;
            let other = self.lit(&sets[2 * k + 1])?;
            let close = self.lit(&all)?;
            let up = if self.rng.chance(2, 3) { self.rng.below(k + 1) } else { k };
            let again = self.rng.below(k + 1);
            let mut v = vec![
                Ex::Cat(vec![open, var(&names[up]), close]),
                match e.take() {
                    Some(inner) => Ex::Cat(vec![other, inner]),
                    None => other,
                },
            ];
            if self.rng.chance(1, 2) {
                let c = self.lit(&sets[levels * 2])?;
                v.push(if self.rng.chance(1, 2) { Ex::Cat(vec![c, var(&names[again])]) } else { c });
            }
            let body = self.alt(v);
            e = Some(Ex::Fix(Box::new(lam(&names[k], body))));
        }
        e
    }

    /// Parts that are almost the same: each behind its own character, told
    /// apart only by a repeated, missing, moved or regrouped piece.
    fn alike(&mut self) -> Option<Ex> {
        let all: Chars = self.cfg.alphabet.iter().copied().collect();
        let n = self.rng.range(2, 4);
        let heads = self.split(&all, n);
        self.budget = self.budget.max(60);
        let base = if self.rng.chance(1, 3) {
            // a plain sequence of a few pieces
            let k = self.rng.range(2, 4);
            let mut v = Vec::new();
            for _ in 0..k {
                v.push(self.lit(&all)?);
            }
            Ex::Cat(v)
        } else {
            let depth = self.rng.range(1, 3);
            self.ground(&all, false, depth)?
        };
        let mut kinds = vec![base.clone()];
        let mut tries = 0;
        while kinds.len() < n && tries < 12 {
            tries += 1;
            let from = self.rng.below(kinds.len());
            let mut e = kinds[from].clone();
            for _ in 0..self.rng.range(1, 2) {
                vary(&mut e, self.rng);
            }
            if !kinds.contains(&e) && self.est(&e).is_some() {
                kinds.push(e);
            }
        }
        if kinds.len() < 2 {
            return None;
        }
        self.rng.shuffle(&mut kinds);
        let mut parts = Vec::new();
        for (e, set) in kinds.into_iter().zip(&heads) {
            let h = self.lit(set)?;
            parts.push(if self.rng.chance(1, 4) {
                // not flattened into the sequence
                match e {
                    Ex::Cat(mut v) => {
                        v.insert(0, h);
                        Ex::Cat(v)
                    }
                    e => Ex::Cat(vec![h, e]),
                }
            } else {
                Ex::Cat(vec![h, e])
            });
        }
        let a = self.alt(parts);
        if self.rng.chance(1, 3) {
            let r = self.fresh(ARGS);
            let t = self.alt(vec![Ex::Eps, var(&r)]);
            return Some(Ex::Fix(Box::new(lam(&r, Ex::Cat(vec![a, t])))));
        }
        Some(a)
    }

    /// The let-bound grammars, each behind its own character.
    fn medley(&mut self) -> Option<Ex> {
        let all: Chars = self.cfg.alphabet.iter().copied().collect();
        let gs = self.grounds.clone();
        let sets = self.split(&all, gs.len());
        let mut parts = Vec::new();
        for (g, set) in gs.iter().zip(&sets) {
            let l = self.lit(set)?;
            parts.push(Ex::Cat(vec![l, var(g)]));
        }
        if parts.len() == 1 {
            return parts.pop();
        }
        if parts.len() > 2 && self.rng.chance(1, 3) {
            // a list of them
            let a = self.alt(parts);
            let r = self.fresh(ARGS);
            let t = self.alt(vec![Ex::Eps, var(&r)]);
            return Some(Ex::Fix(Box::new(lam(&r, Ex::Cat(vec![a, t])))));
        }
        Some(self.alt(parts))
    }

    pub fn program(mut self) -> Prog {
        let all: Chars = self.cfg.alphabet.iter().copied().collect();
        let n = self.cfg.lets;
        for _ in 0..n {
            if self.cfg.functions && self.rng.chance(3, 5) {
                if let Some((l, higher)) = self.template() {
                    let name = l.name.clone();
                    let arity = l.args.len();
                    self.funs.retain(|f| f.name != name);
                    self.grounds.retain(|g| *g != name);
                    self.lets.push(l);
                    self.funs.push(Fun { name, arity, higher });
                }
            } else {
                let depth = self.rng.range(1, self.cfg.depth);
                let set = self.sub(&all);
                let null = self.rng.chance(1, 4);
                if let Some(e) = self.ground(&set, null, depth) {
                    let name = self.fresh(NAMES);
                    self.funs.retain(|f| f.name != name);
                    self.grounds.retain(|g| *g != name);
                    self.lets.push(Let { name: name.clone(), args: vec![], body: e });
                    self.grounds.push(name);
                }
            }
            self.budget = self.budget.max(60);
        }
        let mut goal: Option<(usize, Ex)> = None;
        let tries = self.rng.range(2, 6);
        for _ in 0..tries {
            self.budget = 120;
            let e = match self.rng.below(8) {
                6 | 7 => self.alike(),
                0 if self.funs.is_empty() => self.deep_twins(),
                0 | 1 => {
                    if self.rng.chance(1, 3) {
                        self.deep_twins()
                    } else {
                        self.twins()
                    }
                }
                2 => self.nest(),
                3 if !self.grounds.is_empty() => self.medley(),
                _ => {
                    let depth = self.rng.range(1, self.cfg.depth + 1);
                    self.ground(&all, true, depth)
                }
            };
            if let Some(e) = e {
                if self.est(&e).is_some() {
                    let score = self.score(&e);
                    if goal.as_ref().map_or(true, |(s, _)| score > *s) {
                        goal = Some((score, e));
                    }
                }
            }
        }
        let goal = goal.map(|g| g.1);
        let goal = goal.unwrap_or(Ex::Eps);
        Prog { lets: self.lets, goal }
    }
}

/// Another name for a variable bound nowhere in `e`.
fn rename_var(e: &mut Ex, old: &str, new: &str) {
    places(e, &mut |e| {
        if matches!(e, Ex::Var(x) if x == old) {
            *e = var(new);
        }
    });
}

fn free_in(e: &Ex, bound: &mut Vec<String>, out: &mut Vec<String>) {
    match e {
        Ex::Eps | Ex::Lit(_) => {}
        Ex::Var(v) => {
            if !bound.contains(v) && !out.contains(v) {
                out.push(v.clone())
            }
        }
        Ex::Cat(v) => v.iter().for_each(|x| free_in(x, bound, out)),
        Ex::Alt(v) => v.iter().for_each(|(x, _)| free_in(x, bound, out)),
        Ex::Fix(x) => free_in(x, bound, out),
        Ex::Call(g, a) => {
            free_in(g, bound, out);
            a.iter().for_each(|x| free_in(x, bound, out))
        }
        Ex::Lam(a, x) => {
            let n = bound.len();
            bound.extend(a.iter().cloned());
            free_in(x, bound, out);
            bound.truncate(n);
        }
    }
}

/// Take up to `left` parts of `e` out, putting names in their place. Parts that
/// use a name bound inside `e` stay.
fn cut(e: &mut Ex, bound: &mut Vec<String>, left: &mut Vec<String>, out: &mut Vec<(String, Ex)>, rng: &mut Rng, top: bool) {
    if left.is_empty() {
        return;
    }
    if !top && rng.chance(1, 3) && !matches!(e, Ex::Eps) {
        let mut free = Vec::new();
        free_in(e, &mut Vec::new(), &mut free);
        let name = left[left.len() - 1].clone();
        if !free.iter().any(|v| bound.contains(v)) && !bound.contains(&name) {
            left.pop();
            out.push((name.clone(), std::mem::replace(e, Ex::Var(name))));
            return;
        }
    }
    match e {
        Ex::Eps | Ex::Lit(_) | Ex::Var(_) => {}
        Ex::Cat(v) => v.iter_mut().for_each(|x| cut(x, bound, left, out, rng, false)),
        Ex::Alt(v) => v.iter_mut().for_each(|(x, _)| cut(x, bound, left, out, rng, false)),
        Ex::Fix(x) => cut(x, bound, left, out, rng, false),
        Ex::Call(g, a) => {
            cut(g, bound, left, out, rng, false);
            a.iter_mut().for_each(|x| cut(x, bound, left, out, rng, false))
        }
        Ex::Lam(a, x) => {
            let n = bound.len();
            bound.extend(a.iter().cloned());
            cut(x, bound, left, out, rng, false);
            bound.truncate(n);
        }
    }
}

/// `e` as a call of a function that takes some of its parts, one or several
/// at a time.
fn abstracted(e: &Ex, rng: &mut Rng) -> Ex {
    let mut used = Vec::new();
    free_in(e, &mut Vec::new(), &mut used);
    let mut names: Vec<String> = Vec::new();
    let most = if rng.chance(1, 6) { rng.range(4, 14) } else { rng.range(1, 3) };
    for _ in 0..most {
        let n = rng.pick(ARGS).to_string();
        if !names.contains(&n) && !used.contains(&n) {
            names.push(n);
        }
    }
    let mut body = e.clone();
    let mut taken = Vec::new();
    let mut left = names.clone();
    cut(&mut body, &mut Vec::new(), &mut left, &mut taken, rng, true);
    // a parameter nothing uses
    if !left.is_empty() && rng.chance(1, 4) {
        let x = rng.pick(&used.iter().cloned().chain(["".to_owned()]).collect::<Vec<_>>()).clone();
        taken.push((left.pop().unwrap(), if x.is_empty() { Ex::Eps } else { Ex::Var(x) }));
    }
    if taken.is_empty() {
        return body;
    }
    rng.shuffle(&mut taken);
    let (names, args): (Vec<_>, Vec<_>) = taken.into_iter().unzip();
    Ex::Call(Box::new(Ex::Lam(names, Box::new(body))), args)
}

/// Write the same grammar another way: parts become arguments of functions
/// made for them, here or in a let. Returns the program unchanged when the
/// attempt changed what the grammar means.
pub fn dress(p: &Prog, rng: &mut Rng) -> Prog {
    let before = match eval(p) {
        Ok(c) => c,
        Err(_) => return p.clone(),
    };
    let mut best = p.clone();
    for _ in 0..rng.range(1, 4) {
        let mut q = best.clone();
        let mut count = 0;
        q.lets.iter_mut().for_each(|l| places(&mut l.body, &mut |_| count += 1));
        places(&mut q.goal, &mut |_| count += 1);
        let target = rng.below(count);
        let to_let = rng.chance(1, 3);
        let (mut k, mut done) = (0, false);
        let mut lifted: Option<Let> = None;
        let lets = q.lets.len();
        let lifted_name = format!("{}_{}", rng.pick(NAMES), rng.below(3));
        let known: Vec<String> = q.lets.iter().map(|l| l.name.clone()).collect();
        let mut at = 0;
        for i in 0..=lets {
            let here = if i < lets { &mut q.lets[i].body } else { &mut q.goal };
            places(here, &mut |e| {
                if !done && k == target {
                    done = true;
                    at = i;
                    let new = abstracted(e, rng);
                    *e = match new {
                        Ex::Call(f, args) if to_let => match *f {
                            Ex::Lam(names, body) => {
                                let mut free = Vec::new();
                                free_in(&body, &mut names.clone(), &mut free);
                                // only what later lets also see
                                if free.iter().all(|v| known.contains(v)) {
                                    lifted = Some(Let { name: lifted_name.clone(), args: names, body: *body });
                                    Ex::Call(Box::new(Ex::Var(lifted_name.clone())), args)
                                } else {
                                    Ex::Call(Box::new(Ex::Lam(names, body)), args)
                                }
                            }
                            f => Ex::Call(Box::new(f), args),
                        },
                        new => new,
                    };
                }
                k += 1;
            });
        }
        if let Some(l) = lifted {
            q.lets.insert(at, l);
        }
        if eval(&q).is_ok_and(|c| c == before) {
            best = q;
        }
    }
    best
}

/// A random program, usually well typed (the caller checks).
pub fn program(rng: &mut Rng) -> Prog {
    let cfg = Cfg::random(rng);
    program_with(rng, cfg)
}

pub fn program_with(rng: &mut Rng, cfg: Cfg) -> Prog {
    let dressed = cfg.functions && rng.chance(1, 2);
    let mut p = Gen::new(rng, cfg).program();
    if rng.chance(1, 6) {
        p = grow(&p, rng);
    }
    if dressed {
        return dress(&p, rng);
    }
    p
}

/// Make something about a grammar large: literals, sequences, alternations,
/// nesting, the number of lets or of parameters. What was usable stays so.
pub fn grow(p: &Prog, rng: &mut Rng) -> Prog {
    let good = usable(p);
    let mut best = p.clone();
    let extra: Vec<char> = ('一'..='龥').step_by(7).take(400).chain('A'..='Z').collect();
    for _ in 0..rng.range(1, 3) {
        let mut q = best.clone();
        let kind = rng.below(6);
        if kind == 4 {
            // more lets, used one by the other and at last once or not at all
            let n = if rng.chance(1, 5) { rng.range(60, 140) } else { rng.range(4, 24) };
            let mut last = Ex::Lit(rng.pick(&extra).to_string());
            for i in 0..n {
                let name = format!("more_{}", i);
                let body = match rng.below(3) {
                    0 => last.clone(),
                    1 => Ex::Cat(vec![Ex::Lit(rng.pick(&extra).to_string()), last.clone()]),
                    _ => Ex::Lit((0..rng.range(1, 3)).map(|_| *rng.pick(&extra)).collect()),
                };
                let at = if rng.chance(1, 2) { q.lets.len() } else { 0 };
                if at != 0 || i == 0 || matches!(body, Ex::Lit(_)) {
                    q.lets.insert(at, Let { name: name.clone(), args: vec![], body });
                    last = var(&name);
                }
            }
            if rng.chance(3, 4) {
                q.goal = Ex::Cat(vec![last, q.goal]);
            }
            if rng.chance(1, 4) {
                q.goal = Ex::Cat(vec![var("more_0"), q.goal]);
            }
        } else {
            let mut count = 0;
            let fits = |e: &Ex| match kind {
                0 => matches!(e, Ex::Lit(s) if !s.is_empty()),
                1 => matches!(e, Ex::Cat(v) if matches!(v[..], [Ex::Lit(_), ..])),
                2 => matches!(e, Ex::Alt(v) if v.len() > 1),
                3 => matches!(e, Ex::Alt(_) | Ex::Cat(_)),
                _ => matches!(e, Ex::Cat(_)),
            };
            let mut tally = |e: &mut Ex| count += usize::from(fits(e));
            q.lets.iter_mut().for_each(|l| places(&mut l.body, &mut tally));
            places(&mut q.goal, &mut tally);
            if count == 0 {
                continue;
            }
            let target = rng.below(count);
            let mut k = 0;
            let mut done = false;
            let mut edit = |e: &mut Ex| {
                if done || !fits(e) {
                    return;
                }
                k += 1;
                if k <= target {
                    return;
                }
                done = true;
                enlarge(e, kind, &extra, rng);
            };
            q.lets.iter_mut().for_each(|l| places(&mut l.body, &mut edit));
            places(&mut q.goal, &mut edit);
        }
        // each level of fix points doubles the work of finding their types
        let deep = eval(&q).map_or(0, |c| fix_depth(&c, c.root));
        if (!good || usable(&q)) && deep <= 8 {
            best = q;
        }
    }
    best
}

fn fix_depth(c: &crate::eval::Core, id: usize) -> usize {
    use crate::eval::Node;
    match &c.nodes[id] {
        Node::Fix(x) => 1 + fix_depth(c, *x),
        Node::Cat(v) => v.iter().map(|x| fix_depth(c, *x)).max().unwrap_or(0),
        Node::Alt(v) => v.iter().map(|x| fix_depth(c, x.0)).max().unwrap_or(0),
        _ => 0,
    }
}

fn enlarge(e: &mut Ex, kind: usize, extra: &[char], rng: &mut Rng) {
    match (kind, &mut *e) {
        (0, Ex::Lit(s)) => {
            let own: Vec<char> = s.chars().collect();
            for _ in 0..*rng.pick(&[7, 15, 16, 17, 31, 40, 64, 100, 130]) {
                s.push(if rng.chance(3, 4) { *rng.pick(&own) } else { *rng.pick(extra) });
            }
        }
        (1, Ex::Cat(v)) => {
            let own = v[0].clone();
            for _ in 0..rng.range(3, 14) {
                let x = if rng.chance(1, 3) { own.clone() } else { Ex::Lit(rng.pick(extra).to_string()) };
                v.insert(1, x);
            }
        }
        (2, Ex::Alt(v)) => {
            let n = if rng.chance(1, 4) { rng.range(48, 130) } else { rng.range(4, 48) };
            for i in 0..n {
                let mut x = Ex::Lit(extra[i * 8 % extra.len()].to_string());
                if rng.chance(1, 4) {
                    x = Ex::Cat(vec![x, v[0].0.clone()]);
                }
                let label = v[0].1.as_ref().and_then(|_| BRANCH.get(v.len()).map(|l| l.to_string()));
                v.push((x, label));
            }
        }
        (3, _) => {
            // many fix points, each around the one before
            for i in 0..rng.range(2, 6) {
                let r = format!("around_{}", i);
                let own = e.clone();
                let head = Ex::Lit(extra[i * 5].to_string());
                let mut deep = vec![head, var(&r)];
                if rng.chance(1, 2) {
                    deep.push(Ex::Lit(rng.pick(extra).to_string()));
                }
                let v = vec![(own, None), (Ex::Cat(deep), None)];
                *e = Ex::Fix(Box::new(lam(&r, Ex::Alt(v))));
            }
        }
        (_, Ex::Cat(v)) => {
            // all parts, and more, as parameters of one function
            let mut names = Vec::new();
            let mut args = Vec::new();
            for (i, x) in v.iter_mut().enumerate() {
                let n = format!("part_{}", i);
                let own = std::mem::replace(x, var(&n));
                args.push(if rng.chance(1, 4) { chosen(own, extra, rng) } else { own });
                names.push(n);
            }
            for i in 0..rng.range(1, 8) {
                let n = format!("lost_{}", i);
                let at = rng.below(names.len() + 1);
                names.insert(at, n);
                args.insert(at, Ex::Lit(rng.pick(extra).to_string()));
            }
            let body = e.clone();
            *e = Ex::Call(Box::new(Ex::Lam(names, Box::new(body))), args);
        }
        _ => {}
    }
}

/// A part, as what a function of many parameters picks from them.
fn chosen(own: Ex, extra: &[char], rng: &mut Rng) -> Ex {
    let n = rng.range(2, 9);
    let k = rng.below(n);
    let names: Vec<String> = (0..n).map(|i| format!("any_{}", i)).collect();
    let mut args: Vec<Ex> = (0..n).map(|_| Ex::Lit(rng.pick(extra).to_string())).collect();
    args[k] = own;
    let body = var(&names[k]);
    Ex::Call(Box::new(Ex::Lam(names, Box::new(body))), args)
}

/// Well typed, every part productive, not trivial, within limits.
pub fn usable(p: &Prog) -> bool {
    match eval(p) {
        Ok(core) => {
            let t = types(&core);
            t.faults.is_empty() && min_len(&core).iter().all(Option::is_some) && core.nodes.len() <= 700
        }
        Err(_) => false,
    }
}

fn places(e: &mut Ex, f: &mut dyn FnMut(&mut Ex)) {
    f(e);
    match e {
        Ex::Eps | Ex::Lit(_) | Ex::Var(_) => {}
        Ex::Cat(v) => v.iter_mut().for_each(|x| places(x, f)),
        Ex::Alt(v) => v.iter_mut().for_each(|(x, _)| places(x, f)),
        Ex::Fix(x) => places(x, f),
        Ex::Call(g, a) => {
            places(g, f);
            a.iter_mut().for_each(|x| places(x, f))
        }
        Ex::Lam(_, x) => places(x, f),
    }
}

/// Change the arrangement of one place: something like what was there.
pub fn vary(e: &mut Ex, rng: &mut Rng) {
    let mut count = 0;
    places(e, &mut |x| {
        if matches!(x, Ex::Cat(_) | Ex::Alt(_) | Ex::Lit(_)) {
            count += 1
        }
    });
    if count == 0 {
        return;
    }
    let target = rng.below(count);
    let mut k = 0;
    let mut done = false;
    places(e, &mut |x| {
        if done || !matches!(x, Ex::Cat(_) | Ex::Alt(_) | Ex::Lit(_)) {
            return;
        }
        if k == target {
            done = true;
            let old = x.clone();
            *x = match old {
                Ex::Cat(mut v) => {
                    let i = rng.below(v.len());
                    let j = rng.below(v.len());
                    match rng.below(6) {
                        0 | 1 => {
                            let p = v[i].clone();
                            v.insert(i, p);
                        }
                        2 if v.len() > 2 => {
                            v.remove(i);
                        }
                        3 => v.swap(i, j),
                        4 if v.len() > 2 => {
                            let t = v.split_off(v.len() - 2);
                            v.push(Ex::Cat(t));
                        }
                        5 if v.len() > 2 => {
                            let t = v.split_off(2);
                            v = vec![Ex::Cat(v)];
                            v.extend(t);
                        }
                        _ => {
                            let p = v[j].clone();
                            v.push(p);
                        }
                    }
                    Ex::Cat(v)
                }
                Ex::Alt(mut v) => {
                    let i = rng.below(v.len());
                    let j = rng.below(v.len());
                    match rng.below(4) {
                        0 if v.len() > 2 => {
                            v.remove(i);
                        }
                        1 => v.swap(i, j),
                        2 => {
                            let (a, b) = (v[i].1.clone(), v[j].1.clone());
                            v[i].1 = b;
                            v[j].1 = a;
                        }
                        _ if v.len() > 2 => {
                            let t = v.split_off(v.len() - 2);
                            v.push((Ex::Alt(t), None));
                        }
                        _ => v.swap(i, j),
                    }
                    Ex::Alt(v)
                }
                Ex::Lit(s) => {
                    let c: Vec<char> = s.chars().collect();
                    match rng.below(4) {
                        0 if c.len() > 1 => {
                            let k = rng.range(1, c.len() - 1);
                            Ex::Cat(vec![Ex::Lit(c[..k].iter().collect()), Ex::Lit(c[k..].iter().collect())])
                        }
                        1 if c.len() > 1 => Ex::Lit(c[..c.len() - 1].iter().collect()),
                        2 if !c.is_empty() => {
                            let mut c = c;
                            c.push(c[0]);
                            Ex::Lit(c.into_iter().collect())
                        }
                        _ => Ex::Cat(vec![Ex::Lit(s.clone()), Ex::Lit(s)]),
                    }
                }
                e => e,
            };
        }
        k += 1;
    });
}

/// The characters a part visibly starts with.
fn starts(e: &Ex, out: &mut Vec<char>) {
    match e {
        Ex::Lit(s) => out.extend(s.chars().next()),
        Ex::Alt(v) => v.iter().for_each(|(x, _)| starts(x, out)),
        Ex::Cat(v) => v.iter().take(2).for_each(|x| starts(x, out)),
        Ex::Fix(x) | Ex::Lam(_, x) => starts(x, out),
        Ex::Call(f, a) => {
            starts(f, out);
            a.iter().for_each(|x| starts(x, out))
        }
        Ex::Eps | Ex::Var(_) => {}
    }
}

fn alpha(i: usize) -> String {
    char::from_u32(0x3b1 + 2 * i as u32).unwrap().to_string()
}

/// Set one sequence or alternation at odds with the rules, between parts that need not be neighbours.
fn strain(p: &mut Prog, rng: &mut Rng) {
    let wide = |e: &Ex| match e {
        Ex::Cat(v) => v.len() > 1,
        Ex::Alt(v) => v.len() > 1,
        _ => false,
    };
    let mut count = 0;
    for l in &mut p.lets {
        places(&mut l.body, &mut |e| count += usize::from(wide(e)));
    }
    places(&mut p.goal, &mut |e| count += usize::from(wide(e)));
    if count == 0 {
        return;
    }
    let target = rng.below(count);
    let mut k = 0;
    let mut done = false;
    let mut edit = |e: &mut Ex| {
        if done || !wide(e) {
            return;
        }
        k += 1;
        if k <= target {
            return;
        }
        done = true;
        let mut own = Vec::new();
        starts(e, &mut own);
        let c = if own.is_empty() { 'a' } else { *rng.pick(&own) };
        let lit = Ex::Lit(c.to_string());
        let opt = |x: Ex| Ex::Alt(vec![(x, None), (Ex::Eps, None)]);
        match e {
            Ex::Alt(v) => {
                let (i, j) = (rng.below(v.len()), rng.below(v.len() + 1));
                match rng.below(7) {
                    // one start among many
                    6 => {
                        let mut many: Vec<_> = (0..rng.range(12, 130)).map(|i| (Ex::Lit(alpha(i)), None)).collect();
                        let at = rng.below(many.len());
                        many[at].0 = lit;
                        v.insert(j, (Ex::Alt(many), None));
                    }
                    // nothing, once or twice over
                    0 => {
                        v[i].0 = opt(v[i].0.clone());
                        v.insert(j, (if rng.chance(1, 2) { Ex::Eps } else { opt(Ex::Lit("\u{2603}".into())) }, None));
                    }
                    1 => v.insert(j, (Ex::Eps, None)),
                    2 => {
                        let j = j.min(v.len() - 1);
                        v[i].0 = opt(v[i].0.clone());
                        v[j].0 = opt(v[j].0.clone());
                    }
                    // a start that some other alternative has
                    3 => v.insert(j, (lit, None)),
                    4 => v.insert(j, (Ex::Alt(vec![(Ex::Lit("\u{2603}".into()), None), (lit, None)]), None)),
                    _ => v[i].0 = Ex::Alt(vec![(v[i].0.clone(), None), (lit, None)]),
                }
            }
            Ex::Cat(v) => {
                let (i, j) = (rng.below(v.len()), rng.range(1, v.len()));
                match rng.below(5) {
                    // parts that may be missing
                    0 => v[i] = opt(v[i].clone()),
                    1 => {
                        for x in v.iter_mut().skip(j - 1) {
                            *x = opt(x.clone());
                        }
                    }
                    // one that could go on with what follows
                    2 => v.insert(j, opt(lit)),
                    3 => {
                        v.insert(j, opt(lit));
                        v.insert(j, opt(Ex::Lit("\u{2603}".into())));
                    }
                    _ => {
                        v.insert(j, opt(Ex::Lit("\u{2603}".into())));
                        v.insert(j, opt(Ex::Cat(vec![Ex::Lit("\u{2602}".into()), opt(lit)])));
                    }
                }
            }
            _ => {}
        }
    };
    for l in &mut p.lets {
        places(&mut l.body, &mut edit);
    }
    places(&mut p.goal, &mut edit);
}

/// Change one thing, so that a rule may just be broken.
pub fn nudge(p: &mut Prog, rng: &mut Rng) {
    if rng.chance(1, 2) {
        return strain(p, rng);
    }
    let mut count = 0;
    for l in &mut p.lets {
        places(&mut l.body, &mut |_| count += 1);
    }
    places(&mut p.goal, &mut |_| count += 1);
    let target = rng.below(count);
    let mut names: Vec<String> = p.lets.iter().map(|l| l.name.clone()).collect();
    let mut chars: Vec<char> = Vec::new();
    let mut collect = |e: &mut Ex| match e {
        Ex::Lit(s) => chars.extend(s.chars()),
        Ex::Var(v) => names.push(v.clone()),
        Ex::Lam(a, _) => names.extend(a.iter().cloned()),
        _ => {}
    };
    for l in &mut p.lets {
        places(&mut l.body, &mut collect);
    }
    places(&mut p.goal, &mut collect);
    if chars.is_empty() {
        chars.push('a');
    }
    if names.is_empty() {
        names.push("nobody".into());
    }
    let mut k = 0;
    let mut edit = |e: &mut Ex| {
        if k == target {
            let kind = rng.below(9);
            let c = *rng.pick(&chars);
            let name = rng.pick(&names).clone();
            let old = e.clone();
            *e = match (kind, old) {
                (0, Ex::Lit(s)) => {
                    // another first character
                    let mut t: Vec<char> = s.chars().collect();
                    if t.is_empty() {
                        t.push(c)
                    } else {
                        t[0] = c
                    }
                    Ex::Lit(t.into_iter().collect())
                }
                (0, Ex::Cat(mut v)) => {
                    let i = rng.below(v.len());
                    let j = rng.below(v.len());
                    v.swap(i, j);
                    Ex::Cat(v)
                }
                (1, Ex::Alt(mut v)) if v.len() > 1 => {
                    let i = rng.below(v.len());
                    v[i].0 = Ex::Lit(c.to_string());
                    Ex::Alt(v)
                }
                (1, Ex::Cat(mut v)) => {
                    let i = rng.below(v.len());
                    v[i] = Ex::Alt(vec![(Ex::Eps, None), (v[i].clone(), None)]);
                    Ex::Cat(v)
                }
                (2, Ex::Cat(mut v)) if v.len() > 2 => {
                    let i = rng.below(v.len());
                    v.remove(i);
                    Ex::Cat(v)
                }
                (2, Ex::Call(f, mut a)) => {
                    if a.len() > 1 && rng.chance(1, 2) {
                        a.pop();
                    } else {
                        a.push(Ex::Lit(c.to_string()));
                    }
                    Ex::Call(f, a)
                }
                (3, old) => Ex::Alt(vec![(old, None), (Ex::Eps, None)]),
                (4, _) => Ex::Var(name),
                (5, old) => Ex::Alt(vec![(old, None), (Ex::Lit(c.to_string()), None)]),
                (6, old) => Ex::Cat(vec![old, Ex::Lit(c.to_string())]),
                (7, old) => Ex::Cat(vec![old.clone(), old]),
                (8, Ex::Lam(mut a, b)) => {
                    if a.len() > 1 {
                        a.swap(0, 1);
                    } else {
                        a.push(name);
                    }
                    Ex::Lam(a, b)
                }
                (8, Ex::Fix(x)) => *x,
                (_, old) => Ex::Call(Box::new(Ex::Var(name)), vec![old]),
            };
        }
        k += 1;
    };
    // one pass over a snapshot: edits may nest, so stop after the target
    let mut done = false;
    let mut once = |e: &mut Ex| {
        if !done {
            let before = e.clone();
            edit(e);
            done = *e != before;
        }
    };
    for l in &mut p.lets {
        places(&mut l.body, &mut once);
    }
    places(&mut p.goal, &mut once);
}

/// Put a recursive use where it may be leading.
pub fn recur(p: &mut Prog, rng: &mut Rng) {
    let mut fixes = 0;
    let mut count = |e: &mut Ex| fixes += usize::from(matches!(e, Ex::Fix(_)));
    for l in &mut p.lets {
        places(&mut l.body, &mut count);
    }
    places(&mut p.goal, &mut count);
    if fixes == 0 {
        return;
    }
    let target = rng.below(fixes);
    let mut k = 0;
    let mut edit = |e: &mut Ex| {
        if let Ex::Fix(x) = e {
            if k == target {
                if let Ex::Lam(args, b) = &mut **x {
                    let v = Ex::Var(args[0].clone());
                    let old = (**b).clone();
                    **b = match (rng.below(4), old) {
                        (0, old) => Ex::Cat(vec![v, old]),
                        (1, old) => Ex::Alt(vec![(old, None), (v, None)]),
                        (2, Ex::Alt(mut w)) => {
                            let i = rng.below(w.len());
                            w[i].0 = v;
                            Ex::Alt(w)
                        }
                        (_, Ex::Alt(mut w)) => {
                            let i = rng.below(w.len());
                            w[i].0 = match w[i].0.clone() {
                                Ex::Cat(mut c) => {
                                    c[0] = v;
                                    Ex::Cat(c)
                                }
                                x => Ex::Cat(vec![v, x]),
                            };
                            Ex::Alt(w)
                        }
                        (_, Ex::Cat(mut c)) => {
                            c[0] = v;
                            Ex::Cat(c)
                        }
                        (_, _) => v,
                    };
                }
            }
            k += 1;
        }
    };
    for l in &mut p.lets {
        places(&mut l.body, &mut edit);
    }
    places(&mut p.goal, &mut edit);
}

/// Anything the syntax allows, whatever it means: fixed points of fixed
/// points, calls of calls, functions anywhere, long lists of arguments.
pub fn wild(rng: &mut Rng) -> Prog {
    let alphabet = alphabet(rng);
    let mut known: Vec<String> = Vec::new();
    let mut lets: Vec<Let> = Vec::new();
    for _ in 0..*rng.pick(&[0, 0, 1, 2, 3]) {
        let name = rng.pick(NAMES).to_string();
        let args: Vec<String> = (0..*rng.pick(&[0, 0, 1, 2, 10])).map(|_| rng.pick(ARGS).to_string()).collect();
        let mut scope = known.clone();
        scope.extend(args.iter().cloned());
        let mut budget = rng.range(1, 12);
        let body = any(rng, &alphabet, &mut scope, &mut budget, 4);
        known.push(name.clone());
        lets.push(Let { name, args, body });
    }
    let mut budget = rng.range(2, 24);
    let goal = any(rng, &alphabet, &mut known, &mut budget, 6);
    Prog { lets, goal }
}

fn any(rng: &mut Rng, alphabet: &[char], scope: &mut Vec<String>, budget: &mut usize, depth: usize) -> Ex {
    if depth == 0 || *budget == 0 || rng.chance(1, 5) {
        return match rng.below(8) {
            0 => Ex::Eps,
            1 | 2 | 3 => Ex::Lit((0..*rng.pick(&[0, 1, 1, 1, 2, 3])).map(|_| *rng.pick(alphabet)).collect()),
            4 if rng.chance(1, 6) => Ex::Var(rng.pick(NAMES).to_string()),
            _ if scope.is_empty() => Ex::Lit(rng.pick(alphabet).to_string()),
            _ => Ex::Var(rng.pick(scope).clone()),
        };
    }
    *budget -= 1;
    let many = |rng: &mut Rng| if rng.chance(1, 8) { rng.range(8, 16) } else { rng.range(1, 3) };
    match rng.below(8) {
        0 => {
            let n = many(rng) + 1;
            Ex::Cat((0..n).map(|_| any(rng, alphabet, scope, budget, depth - 1)).collect())
        }
        1 => {
            let n = many(rng) + 1;
            Ex::Alt((0..n).map(|_| {
                let e = any(rng, alphabet, scope, budget, depth - 1);
                (e, rng.chance(1, 3).then(|| rng.pick(LABELS).to_string()))
            }).collect())
        }
        2 => Ex::Alt(vec![(any(rng, alphabet, scope, budget, depth - 1), Some(rng.pick(LABELS).to_string()))]),
        3 | 4 => {
            let mut e = match rng.below(4) {
                0 => any(rng, alphabet, scope, budget, depth - 1),
                k => {
                    let n = if k == 1 { many(rng) } else { 1 };
                    lambda(rng, alphabet, scope, budget, depth, n)
                }
            };
            for _ in 0..*rng.pick(&[1, 1, 1, 1, 2, 3, 4]) {
                e = Ex::Fix(Box::new(e));
            }
            e
        }
        5 | 6 => {
            let n = many(rng);
            let on = if rng.chance(2, 3) {
                let m = if rng.chance(4, 5) { n } else { many(rng) };
                lambda(rng, alphabet, scope, budget, depth, m)
            } else {
                any(rng, alphabet, scope, budget, depth - 1)
            };
            Ex::Call(Box::new(on), (0..n).map(|_| any(rng, alphabet, scope, budget, depth - 1)).collect())
        }
        _ => {
            let n = many(rng);
            lambda(rng, alphabet, scope, budget, depth, n)
        }
    }
}

fn lambda(rng: &mut Rng, alphabet: &[char], scope: &mut Vec<String>, budget: &mut usize, depth: usize, n: usize) -> Ex {
    let outer = scope.len();
    let names: Vec<String> = (0..n).map(|_| rng.pick(ARGS).to_string()).collect();
    scope.extend(names.iter().cloned());
    let body = any(rng, alphabet, scope, budget, depth - 1);
    scope.truncate(outer);
    Ex::Lam(names, Box::new(body))
}
