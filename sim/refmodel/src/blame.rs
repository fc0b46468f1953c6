//! Which places of a grammar's text may a diagnostic point at? A printer that
//! remembers places, and the evaluator and typing rules once more, collecting
//! every broken rule with its place.
use std::collections::BTreeSet;
use std::rc::Rc;

use crate::eval::{Core, Id, Node, Ty};
use crate::syntax::{lit_text, Ex, Prog, Style};
use crate::typing;

/// First byte, and the byte after the last.
pub type Place = (usize, usize);

enum Kind {
    Eps,
    Lit(String),
    Var(String),
    Cat(Vec<Rc<At>>),
    Alt(Vec<Rc<At>>),
    Fix(Rc<At>),
    Call(Rc<At>, Vec<Rc<At>>),
    Lam(Vec<String>, Rc<At>),
}

struct At {
    kind: Kind,
    /// With the parentheses around it.
    place: Place,
    /// Without.
    own: Place,
    /// Of the operators between the parts.
    ops: Vec<Place>,
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Rule {
    Undeclared(String),
    NotAFunction,
    /// Parameters, arguments.
    Count(usize, usize),
    FirstNullable,
    FlastOverlap,
    BothNullable,
    FirstOverlap,
    Recursion,
}

impl Rule {
    pub fn title(&self) -> &'static str {
        match self {
            Rule::Undeclared(_) => "undeclared name",
            Rule::NotAFunction => "call of no function",
            Rule::Count(..) => "number of arguments",
            Rule::FirstNullable => "first part is nullable",
            Rule::FlastOverlap => "what follows may continue what precedes",
            Rule::BothNullable => "both alternatives are nullable",
            Rule::FirstOverlap => "alternatives start alike",
            Rule::Recursion => "guarded variable",
        }
    }
    /// Does a message speak of this rule?
    pub fn named_by(&self, m: &str) -> bool {
        let has = |t: &str| m.contains(t);
        match self {
            Rule::Undeclared(n) => has(&format!("`{}`", n)) || has(&format!("`r#{}`", n)),
            Rule::NotAFunction => has("function") && numbers(m).is_empty(),
            Rule::Count(a, b) => has("argument") && numbers(m) == [*a, *b],
            Rule::FirstNullable => has("concatenation") && has("nullable"),
            Rule::FlastOverlap => has("flast"),
            Rule::BothNullable => has("branches") && has("nullable"),
            Rule::FirstOverlap => has("branches") && has("overlap"),
            Rule::Recursion => has("guarded"),
        }
    }
    fn of_call(&self) -> bool {
        matches!(self, Rule::NotAFunction | Rule::Count(..))
    }
}

fn numbers(m: &str) -> Vec<usize> {
    m.split(|c: char| !c.is_ascii_digit()).filter_map(|d| d.parse().ok()).collect()
}

pub struct Blame {
    pub text: String,
    /// Empty: the grammar is in order.
    pub places: BTreeSet<(Place, Rule)>,
}

struct Writer<'a> {
    out: String,
    /// What may stand between two tokens.
    gap: &'a mut dyn FnMut() -> &'static str,
}

impl Writer<'_> {
    fn token(&mut self, t: &str) -> Place {
        let g = (self.gap)();
        self.out.push_str(g);
        let from = self.out.len();
        self.out.push_str(t);
        (from, self.out.len())
    }
    fn done(&self, from: usize, kind: Kind, ops: Vec<Place>) -> Rc<At> {
        let place = (from, self.out.len());
        Rc::new(At { kind, place, own: place, ops })
    }
    fn term(&mut self, e: &Ex) -> Rc<At> {
        match e {
            Ex::Eps => {
                let p = self.token("_");
                self.done(p.0, Kind::Eps, Vec::new())
            }
            Ex::Lit(s) => {
                let p = self.token(&lit_text(s, Style::Raw));
                self.done(p.0, Kind::Lit(s.clone()), Vec::new())
            }
            Ex::Var(v) => {
                let p = self.token(v);
                self.done(p.0, Kind::Var(v.clone()), Vec::new())
            }
            Ex::Fix(inner) => {
                let p = self.token("!");
                let x = self.term(inner);
                self.done(p.0, Kind::Fix(x), Vec::new())
            }
            _ => {
                let p = self.token("(");
                let x = self.expr(e);
                self.token(")");
                let mut x = match Rc::try_unwrap(x) {
                    Ok(x) => x,
                    Err(_) => unreachable!(),
                };
                x.place = (p.0, self.out.len());
                Rc::new(x)
            }
        }
    }
    fn call(&mut self, e: &Ex) -> Rc<At> {
        if let Ex::Call(on, args) = e {
            let on = self.term(on);
            let args: Vec<_> = args.iter().map(|a| self.term(a)).collect();
            let from = on.place.0;
            self.done(from, Kind::Call(on, args), Vec::new())
        } else {
            self.term(e)
        }
    }
    fn cat(&mut self, e: &Ex) -> Rc<At> {
        if let Ex::Cat(v) = e {
            let mut ops = Vec::new();
            let mut parts = Vec::new();
            for (i, x) in v.iter().enumerate() {
                if i > 0 {
                    ops.push(self.token("."));
                }
                parts.push(self.call(x));
            }
            let from = parts[0].place.0;
            self.done(from, Kind::Cat(parts), ops)
        } else {
            self.call(e)
        }
    }
    fn alt(&mut self, e: &Ex) -> Rc<At> {
        if let Ex::Alt(v) = e {
            let mut ops = Vec::new();
            let mut parts = Vec::new();
            for (i, (x, l)) in v.iter().enumerate() {
                if i > 0 {
                    ops.push(self.token("|"));
                }
                parts.push(self.cat(x));
                if let Some(l) = l {
                    self.token(":");
                    self.token(l);
                }
            }
            let from = parts[0].place.0;
            self.done(from, Kind::Alt(parts), ops)
        } else {
            self.cat(e)
        }
    }
    fn expr(&mut self, e: &Ex) -> Rc<At> {
        if let Ex::Lam(args, inner) = e {
            let p = self.token("/");
            for a in args {
                self.token(a);
            }
            self.token("/");
            let x = self.alt(inner);
            self.done(p.0, Kind::Lam(args.clone(), x), Vec::new())
        } else {
            self.alt(e)
        }
    }
}

type Lets = Vec<(String, Vec<String>, Rc<At>)>;

fn write(p: &Prog, gap: &mut dyn FnMut() -> &'static str) -> (String, Lets, Rc<At>, Place) {
    let mut w = Writer { out: String::new(), gap };
    let mut lets = Vec::new();
    for l in &p.lets {
        w.token("let");
        w.token(&l.name);
        for a in &l.args {
            w.token(a);
        }
        w.token("=");
        let x = w.expr(&l.body);
        w.token(";");
        lets.push((l.name.clone(), l.args.clone(), x));
    }
    let start = w.token("match");
    let goal = w.expr(&p.goal);
    w.token(";");
    (w.out, lets, goal, start)
}

fn undeclared(x: &At, names: &mut Vec<String>, out: &mut BTreeSet<(Place, Rule)>) {
    match &x.kind {
        Kind::Eps | Kind::Lit(_) => {}
        Kind::Var(v) => {
            if !names.contains(v) {
                out.insert((x.own, Rule::Undeclared(v.clone())));
            }
        }
        Kind::Cat(v) | Kind::Alt(v) => v.iter().for_each(|y| undeclared(y, names, out)),
        Kind::Fix(y) => undeclared(y, names, out),
        Kind::Call(f, a) => {
            undeclared(f, names, out);
            a.iter().for_each(|y| undeclared(y, names, out));
        }
        Kind::Lam(args, b) => {
            let n = names.len();
            names.extend(args.iter().cloned());
            undeclared(b, names, out);
            names.truncate(n);
        }
    }
}

#[derive(Clone)]
enum Thunk {
    Delayed(Rc<At>, Env),
    Rec(Id),
}

type Env = Option<Rc<(String, Thunk, Link)>>;

/// The rest of an environment.
struct Link(Env);

fn with(env: &Env, n: &str, t: Thunk) -> Env {
    Some(Rc::new((n.to_owned(), t, Link(env.clone()))))
}

fn get(env: &Env, n: &str) -> Option<Thunk> {
    let mut e = env;
    while let Some(c) = e {
        if c.0 == n {
            return Some(c.1.clone());
        }
        e = &(c.2).0;
    }
    None
}

enum Val {
    Ground(Id),
    Fun(Vec<String>, Rc<At>, Env),
}

/// Why the reference does not judge.
struct Unclear;

struct Ev {
    nodes: Vec<Node>,
    from: Vec<Rc<At>>,
    /// The names and calls that just stand for a recursive use.
    by: Vec<Vec<Place>>,
    steps: usize,
    out: BTreeSet<(Place, Rule)>,
}

impl Ev {
    fn push(&mut self, n: Node, x: &Rc<At>) -> Result<Id, Unclear> {
        if self.nodes.len() >= 3000 {
            return Err(Unclear);
        }
        self.nodes.push(n);
        self.from.push(x.clone());
        self.by.push(Vec::new());
        Ok(self.nodes.len() - 1)
    }
    fn ground(&mut self, x: &Rc<At>, env: &Env, d: usize) -> Result<Id, Unclear> {
        match self.eval(x, env, d)? {
            Val::Ground(i) => Ok(i),
            Val::Fun(..) => Err(Unclear),
        }
    }
    fn eval(&mut self, x: &Rc<At>, env: &Env, d: usize) -> Result<Val, Unclear> {
        let v = self.eval1(x, env, d)?;
        if let (Val::Ground(i), Kind::Var(_) | Kind::Call(..)) = (&v, &x.kind) {
            self.by[*i].push(x.own);
        }
        Ok(v)
    }
    fn eval1(&mut self, x: &Rc<At>, env: &Env, d: usize) -> Result<Val, Unclear> {
        self.steps += 1;
        if d > 150 || self.steps > 60_000 {
            return Err(Unclear);
        }
        Ok(Val::Ground(match &x.kind {
            Kind::Eps => self.push(Node::Eps, x)?,
            Kind::Lit(s) => self.push(Node::Lit(s.chars().collect()), x)?,
            Kind::Var(v) => match get(env, v) {
                None => return Err(Unclear),
                Some(Thunk::Delayed(y, env)) => return self.eval(&y, &env, d + 1),
                Some(Thunk::Rec(i)) => self.push(Node::Rec(i), x)?,
            },
            Kind::Cat(v) => {
                let ids = v.iter().map(|y| self.ground(y, env, d + 1)).collect::<Result<Vec<_>, _>>()?;
                self.push(Node::Cat(ids), x)?
            }
            Kind::Alt(v) if v.len() == 1 => return self.eval(&v[0], env, d + 1),
            Kind::Alt(v) => {
                let ids = v.iter().map(|y| Ok((self.ground(y, env, d + 1)?, None))).collect::<Result<Vec<_>, _>>()?;
                self.push(Node::Alt(ids), x)?
            }
            Kind::Fix(y) => match self.eval(y, env, d + 1)? {
                Val::Fun(args, body, fenv) if args.len() == 1 => {
                    let fix = self.push(Node::Eps, x)?;
                    let env = with(&fenv, &args[0], Thunk::Rec(fix));
                    let body = self.ground(&body, &env, d + 1)?;
                    self.nodes[fix] = Node::Fix(body);
                    fix
                }
                _ => return Err(Unclear),
            },
            Kind::Lam(args, body) => return Ok(Val::Fun(args.clone(), body.clone(), env.clone())),
            Kind::Call(on, args) => {
                let (names, body, fenv) = match self.eval(on, env, d + 1)? {
                    Val::Fun(names, body, fenv) if names.len() == args.len() => (names, body, fenv),
                    other => {
                        // go on with something, there may be more broken calls
                        let rule = match other {
                            Val::Fun(names, ..) => Rule::Count(names.len(), args.len()),
                            Val::Ground(_) => Rule::NotAFunction,
                        };
                        self.out.insert((x.own, rule));
                        return Ok(Val::Ground(self.push(Node::Eps, x)?));
                    }
                };
                let mut call = fenv;
                for (n, a) in names.iter().zip(args) {
                    call = with(&call, n, Thunk::Delayed(a.clone(), env.clone()));
                }
                return self.eval(&body, &call, d + 1);
            }
        }))
    }
    fn check(&mut self, core: &Core, ty: &[Ty], i: Id, held: &mut Vec<Id>) {
        let x = self.from[i].clone();
        match &core.nodes[i] {
            Node::Eps | Node::Lit(_) | Node::Opaque(_) => {}
            Node::Cat(v) => {
                self.check(core, ty, v[0], held);
                if ty[v[0]].null {
                    self.out.insert((x.ops[0], Rule::FirstNullable));
                }
                let mut t = ty[v[0]].clone();
                for (k, &y) in v.iter().enumerate().skip(1) {
                    self.check(core, ty, y, &mut Vec::new());
                    if !t.flast.is_disjoint(&ty[y].first) {
                        self.out.insert((x.ops[k - 1], Rule::FlastOverlap));
                    }
                    t = typing::cat(&t, &ty[y]);
                }
            }
            Node::Alt(v) => {
                for (k, (y, _)) in v.iter().enumerate() {
                    self.check(core, ty, *y, held);
                    for (z, _) in &v[..k] {
                        if ty[*y].null && ty[*z].null {
                            self.out.insert((x.ops[k - 1], Rule::BothNullable));
                        }
                        if !ty[*y].first.is_disjoint(&ty[*z].first) {
                            self.out.insert((x.ops[k - 1], Rule::FirstOverlap));
                        }
                    }
                }
            }
            Node::Fix(b) => {
                held.push(i);
                self.check(core, ty, *b, held);
                held.pop();
            }
            Node::Rec(f) => {
                if held.contains(f) {
                    self.out.insert((x.own, Rule::Recursion));
                    for p in &self.by[i] {
                        self.out.insert((*p, Rule::Recursion));
                    }
                }
            }
        }
    }
}

fn dressed(x: &At, out: &mut BTreeSet<(Place, Rule)>) {
    match &x.kind {
        Kind::Eps | Kind::Lit(_) | Kind::Var(_) => {}
        Kind::Cat(v) | Kind::Alt(v) => v.iter().for_each(|y| dressed(y, out)),
        Kind::Fix(y) | Kind::Lam(_, y) => dressed(y, out),
        Kind::Call(f, a) => {
            dressed(f, out);
            a.iter().for_each(|y| dressed(y, out));
        }
    }
    let inner = match &x.kind {
        Kind::Alt(v) if v.len() == 1 => v[0].place,
        _ => x.own,
    };
    let rules: Vec<Rule> = out.iter().filter(|p| p.0 == inner).map(|p| p.1.clone()).collect();
    for r in rules {
        if r.of_call() || r == Rule::Recursion {
            out.insert((x.own, r.clone()));
            out.insert((x.place, r));
        }
    }
}

/// `gap` gives what stands before each token. `None`: the reference does not judge.
pub fn blame(p: &Prog, gap: &mut dyn FnMut() -> &'static str) -> Option<Blame> {
    let (text, lets, goal, start) = write(p, gap);
    let mut places = BTreeSet::new();
    let mut names: Vec<String> = Vec::new();
    for (n, args, x) in &lets {
        let k = names.len();
        names.extend(args.iter().cloned());
        undeclared(x, &mut names, &mut places);
        names.truncate(k);
        names.push(n.clone());
    }
    undeclared(&goal, &mut names, &mut places);
    if !places.is_empty() {
        return Some(Blame { text, places });
    }
    let mut env: Env = None;
    for (n, args, x) in &lets {
        let x = if args.is_empty() {
            x.clone()
        } else {
            Rc::new(At { kind: Kind::Lam(args.clone(), x.clone()), place: x.place, own: x.own, ops: Vec::new() })
        };
        env = with(&env, n, Thunk::Delayed(x, env.clone()));
    }
    let mut ev = Ev { nodes: Vec::new(), from: Vec::new(), by: Vec::new(), steps: 0, out: BTreeSet::new() };
    let root = ev.ground(&goal, &env, 0).ok()?;
    if ev.out.is_empty() {
        let core = Core { nodes: ev.nodes.clone(), root };
        let t = typing::types(&core);
        ev.check(&core, &t.ty, root, &mut Vec::new());
    }
    // a label or parentheses around a fault are part of it
    for (_, _, x) in &lets {
        dressed(x, &mut ev.out);
    }
    dressed(&goal, &mut ev.out);
    // the goal and its statement are one
    let mut top = &goal;
    while let Kind::Alt(v) = &top.kind {
        if v.len() != 1 {
            break;
        }
        top = &v[0];
    }
    let rules: Vec<Rule> = ev.out.iter().filter(|p| p.0 == top.own && p.1.of_call()).map(|p| p.1.clone()).collect();
    for r in rules {
        ev.out.insert((start, r));
    }
    Some(Blame { text, places: ev.out })
}
