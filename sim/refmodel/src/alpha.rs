//! The same grammar in other words: bound names renamed, names and calls
//! expanded by hand. Works on the syntax and knows nothing of evaluation.
use std::collections::HashMap;

use dst::Rng;

use crate::syntax::{Ex, Let, Prog};

struct Fresh(usize);

impl Fresh {
    fn name(&mut self) -> String {
        self.0 += 1;
        format!("n{}", self.0)
    }
}

fn each(e: &Ex, f: &mut dyn FnMut(&Ex) -> Ex) -> Ex {
    match e {
        Ex::Eps | Ex::Lit(_) | Ex::Var(_) => e.clone(),
        Ex::Cat(v) => Ex::Cat(v.iter().map(|x| f(x)).collect()),
        Ex::Alt(v) => Ex::Alt(v.iter().map(|(x, l)| (f(x), l.clone())).collect()),
        Ex::Fix(x) => Ex::Fix(Box::new(f(x))),
        Ex::Call(g, a) => {
            let g = f(g);
            Ex::Call(Box::new(g), a.iter().map(|x| f(x)).collect())
        }
        Ex::Lam(a, x) => Ex::Lam(a.clone(), Box::new(f(x))),
    }
}

fn unique_ex(e: &Ex, scope: &mut Vec<(String, String)>, fresh: &mut Fresh) -> Option<Ex> {
    Some(match e {
        Ex::Var(v) => Ex::Var(scope.iter().rev().find(|s| s.0 == *v)?.1.clone()),
        Ex::Lam(args, body) => {
            let n = scope.len();
            let mut names = Vec::new();
            for a in args {
                let f = fresh.name();
                scope.push((a.clone(), f.clone()));
                names.push(f);
            }
            let b = unique_ex(body, scope, fresh);
            scope.truncate(n);
            Ex::Lam(names, Box::new(b?))
        }
        e => {
            let mut ok = true;
            let out = each(e, &mut |x| match unique_ex(x, scope, fresh) {
                Some(x) => x,
                None => {
                    ok = false;
                    Ex::Eps
                }
            });
            if !ok {
                return None;
            }
            out
        }
    })
}

/// Every binder its own name. None when a name is not declared.
pub fn unique(p: &Prog) -> Option<Prog> {
    let mut fresh = Fresh(0);
    let mut scope = Vec::new();
    let mut lets = Vec::new();
    for l in &p.lets {
        let n = scope.len();
        let mut args = Vec::new();
        for a in &l.args {
            let f = fresh.name();
            scope.push((a.clone(), f.clone()));
            args.push(f);
        }
        let body = unique_ex(&l.body, &mut scope, &mut fresh);
        scope.truncate(n);
        let name = fresh.name();
        scope.push((l.name.clone(), name.clone()));
        lets.push(Let { name, args, body: body? });
    }
    let goal = unique_ex(&p.goal, &mut scope, &mut fresh)?;
    Some(Prog { lets, goal })
}

fn subst(e: &Ex, with: &HashMap<String, Ex>) -> Ex {
    match e {
        Ex::Var(v) => with.get(v).cloned().unwrap_or_else(|| e.clone()),
        e => each(e, &mut |x| subst(x, with)),
    }
}

fn size(e: &Ex) -> usize {
    let mut n = 1;
    each(e, &mut |x| {
        n += size(x);
        Ex::Eps
    });
    n
}

/// Expand the `target`th name of a let or call of a function written in place.
fn expand_ex(e: &Ex, lets: &[Let], k: &mut usize, target: usize) -> Ex {
    match e {
        Ex::Var(v) => {
            if let Some(l) = lets.iter().find(|l| l.name == *v) {
                *k += 1;
                if *k - 1 == target {
                    return crate::eval::lambda(&l.args, &l.body);
                }
            }
            e.clone()
        }
        Ex::Call(f, args) => {
            if let Ex::Lam(names, body) = &**f {
                if names.len() == args.len() {
                    *k += 1;
                    if *k - 1 == target {
                        let with = names.iter().cloned().zip(args.iter().cloned()).collect();
                        return subst(body, &with);
                    }
                }
            }
            each(e, &mut |x| expand_ex(x, lets, k, target))
        }
        // a label on its own, or brackets
        e => each(e, &mut |x| expand_ex(x, lets, k, target)),
    }
}

fn expand_one(p: &Prog, rng: &mut Rng) -> Option<Prog> {
    let go = |target: usize| {
        let mut k = 0;
        let lets = p
            .lets
            .iter()
            .enumerate()
            .map(|(i, l)| Let { body: expand_ex(&l.body, &p.lets[..i], &mut k, target), ..l.clone() })
            .collect();
        let goal = expand_ex(&p.goal, &p.lets, &mut k, target);
        (Prog { lets, goal }, k)
    };
    let (_, n) = go(usize::MAX);
    if n == 0 {
        return None;
    }
    let q = go(rng.below(n)).0;
    let total: usize = q.lets.iter().map(|l| size(&l.body)).sum::<usize>() + size(&q.goal);
    if total > 1500 {
        return None;
    }
    unique(&q)
}

fn free(e: &Ex, out: &mut Vec<String>) {
    if let Ex::Var(v) = e {
        out.push(v.clone());
    }
    each(e, &mut |x| {
        free(x, out);
        Ex::Eps
    });
}

/// Names from a small pool, sharing and shadowing wherever that is allowed.
struct Crowd<'a> {
    pool: &'a [&'a str],
    rng: &'a mut Rng,
    extra: usize,
}

impl Crowd<'_> {
    fn choose(&mut self, taken: &[String]) -> String {
        let ok: Vec<&str> = self.pool.iter().copied().filter(|n| !taken.iter().any(|t| t == n)).collect();
        if ok.is_empty() {
            self.extra += 1;
            return format!("z{}z", self.extra);
        }
        let k = if self.rng.chance(2, 3) { 0 } else { self.rng.below(ok.len()) };
        ok[k].to_owned()
    }
    /// What the free names of `e` are called.
    fn called(&self, names: &HashMap<String, String>, e: &[&Ex]) -> Vec<String> {
        let mut v = Vec::new();
        e.iter().for_each(|e| free(e, &mut v));
        v.iter().filter_map(|n| names.get(n).cloned()).collect()
    }
    fn bind(&mut self, args: &[String], names: &mut HashMap<String, String>, body: &[&Ex]) -> Vec<String> {
        let mut taken = self.called(names, body);
        args.iter()
            .map(|a| {
                let n = self.choose(&taken);
                taken.push(n.clone());
                names.insert(a.clone(), n.clone());
                n
            })
            .collect()
    }
    fn ex(&mut self, e: &Ex, names: &mut HashMap<String, String>) -> Ex {
        match e {
            Ex::Var(v) => Ex::Var(names.get(v).cloned().unwrap_or_else(|| v.clone())),
            Ex::Lam(args, body) => {
                let n = self.bind(args, names, &[body]);
                Ex::Lam(n, Box::new(self.ex(body, names)))
            }
            e => each(e, &mut |x| self.ex(x, names)),
        }
    }
}

/// Rename every bound name (the names must be unique).
fn crowd(p: &Prog, rng: &mut Rng, pool: &[&str]) -> Prog {
    let mut c = Crowd { pool, rng, extra: 0 };
    let mut names = HashMap::new();
    let mut lets = Vec::new();
    for (i, l) in p.lets.iter().enumerate() {
        let args = c.bind(&l.args, &mut names, &[&l.body]);
        let body = c.ex(&l.body, &mut names);
        let mut later: Vec<&Ex> = p.lets[i + 1..].iter().map(|l| &l.body).collect();
        later.push(&p.goal);
        let name = c.bind(std::slice::from_ref(&l.name), &mut names, &later).remove(0);
        lets.push(Let { name, args, body });
    }
    let goal = c.ex(&p.goal, &mut names);
    Prog { lets, goal }
}

/// The same grammar in other words, and what was done.
pub fn variant(p: &Prog, rng: &mut Rng) -> Option<(Prog, &'static str)> {
    let mut q = unique(p)?;
    let mut expanded = false;
    let n = *rng.pick(&[0, 1, 1, 2, 4, 30]);
    for _ in 0..n {
        match expand_one(&q, rng) {
            Some(x) => {
                q = x;
                expanded = true;
            }
            None => break,
        }
    }
    let pool: &[&str] = *rng.pick(&[
        &["a", "b", "c", "d", "e", "f", "g", "h"][..],
        &["x", "y"][..],
        &["left", "right", "inner", "outer", "node", "leaf"][..],
    ]);
    Some(match rng.below(4) {
        0 => (q, if expanded { "expanded" } else { "told apart" }),
        _ => (crowd(&q, rng, pool), if expanded { "expanded and renamed" } else { "renamed" }),
    })
}

/// Names that look like those a generator may make up or import.
const AWKWARD: &[&str] = &[
    "lit", "Lit", "Lit1", "lit2", "Cat", "cat1", "Cat2", "Alt", "alt3", "Fix", "fix1", "Branch", "branch1", "Branch2",
    "part", "part1", "part2", "Part0", "Ast", "ast", "Ast1", "Epsilon", "epsilon1", "Box", "Parser", "Parse", "parse",
    "P", "Result", "Ok", "Err", "Some", "None", "Self", "self", "super", "crate", "type", "match1", "fn", "loop", "dyn",
    "async", "From", "String", "Default", "a", "A", "a1", "A1", "a11", "a_1", "aB", "a_b", "AB", "ab", "x1", "x11", "x",
    "__", "_a", "a_", "_1", "_12", "é", "É", "é1", "ß", "ñandú", "input", "inner", "c", "f", "fmt", "take", "LineCol",
    "TakeError", "Iterator", "std", "chewed", "Display", "Debug", "Clone", "bool", "char", "str", "u8",
];

fn labels(e: &Ex, rng: &mut Rng, few: &[&str]) -> Ex {
    match e {
        Ex::Alt(v) => Ex::Alt(
            v.iter()
                .map(|(x, l)| {
                    let x = labels(x, rng, few);
                    let l = if rng.chance(1, 2) {
                        let pool = if rng.chance(3, 4) { few } else { AWKWARD };
                        Some((*rng.pick(pool)).to_owned())
                    } else {
                        l.clone()
                    };
                    (x, l)
                })
                .collect(),
        ),
        Ex::Cat(v) => Ex::Cat(
            v.iter()
                .map(|x| {
                    let x = labels(x, rng, few);
                    match x {
                        x @ (Ex::Alt(_) | Ex::Lam(..)) => x,
                        x if rng.chance(1, 4) => Ex::Alt(vec![(x, Some((*rng.pick(few)).to_owned()))]),
                        x => x,
                    }
                })
                .collect(),
        ),
        e => each(e, &mut |x| labels(x, rng, few)),
    }
}

/// The same grammar with awkward names and labels.
pub fn awkward(p: &Prog, rng: &mut Rng) -> Option<Prog> {
    let p = unique(p)?;
    let few: Vec<&str> = (0..rng.range(1, 6)).map(|_| *rng.pick(AWKWARD)).collect();
    let words: Vec<&str> = few.iter().copied().chain((0..4).map(|_| *rng.pick(AWKWARD))).collect();
    let mut q = crowd(&p, rng, &words);
    for l in &mut q.lets {
        l.body = labels(&l.body, rng, &few);
    }
    q.goal = labels(&q.goal, rng, &few);
    Some(q)
}
