//! Evaluation of a program to a core grammar: call-by-name closures over
//! environments (the code under test substitutes de Bruijn terms instead).
use std::collections::BTreeSet;
use std::rc::Rc;

use crate::syntax::{Ex, Prog};

pub type Id = usize;

/// A type assigned to a stand-in (used while generating open terms).
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Ty {
    pub null: bool,
    pub first: BTreeSet<char>,
    pub flast: BTreeSet<char>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Node {
    Eps,
    Lit(Vec<char>),
    Cat(Vec<Id>),
    /// Alternatives with the label written in the source, if any.
    Alt(Vec<(Id, Option<String>)>),
    /// The body of a fix point.
    Fix(Id),
    /// A recursive use: the id of the fix point node.
    Rec(Id),
    Opaque(Ty),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Core {
    pub nodes: Vec<Node>,
    pub root: Id,
}

#[derive(Clone, Debug, PartialEq)]
pub enum EvalError {
    Undeclared(String),
    NotAFunction,
    Arity,
    /// A function where a grammar is needed.
    NotGround,
    /// `!` of something that is not a one-argument function.
    FixNotFunction,
    /// Expansion too large (the reference refuses to judge).
    Fuel,
}

#[derive(Clone)]
enum Env {
    Nil,
    Cons(Rc<(String, Thunk, Env)>),
}

#[derive(Clone)]
enum Thunk {
    Delayed(Rc<Ex>, Env),
    Rec(Id),
    Opaque(Ty),
}

enum Val {
    Ground(Id),
    Fun(Vec<String>, Rc<Ex>, Env),
}

impl Env {
    fn get(&self, n: &str) -> Option<Thunk> {
        let mut e = self;
        loop {
            match e {
                Env::Nil => return None,
                Env::Cons(c) => {
                    if c.0 == n {
                        return Some(c.1.clone());
                    }
                    e = &c.2;
                }
            }
        }
    }
    fn with(&self, n: &str, t: Thunk) -> Env {
        Env::Cons(Rc::new((n.to_owned(), t, self.clone())))
    }
}

pub struct Limits {
    pub nodes: usize,
    pub depth: usize,
    pub steps: usize,
}

impl Default for Limits {
    fn default() -> Self {
        Limits { nodes: 3000, depth: 150, steps: 60_000 }
    }
}

struct Ev {
    nodes: Vec<Node>,
    steps: usize,
    lim: Limits,
}

impl Ev {
    fn push(&mut self, n: Node) -> Result<Id, EvalError> {
        if self.nodes.len() >= self.lim.nodes {
            return Err(EvalError::Fuel);
        }
        self.nodes.push(n);
        Ok(self.nodes.len() - 1)
    }
    fn ground(&mut self, e: &Rc<Ex>, env: &Env, d: usize) -> Result<Id, EvalError> {
        match self.eval(e, env, d)? {
            Val::Ground(i) => Ok(i),
            Val::Fun(..) => Err(EvalError::NotGround),
        }
    }
    fn eval(&mut self, e: &Rc<Ex>, env: &Env, d: usize) -> Result<Val, EvalError> {
        self.steps += 1;
        if d > self.lim.depth || self.steps > self.lim.steps {
            return Err(EvalError::Fuel);
        }
        Ok(Val::Ground(match &**e {
            Ex::Eps => self.push(Node::Eps)?,
            Ex::Lit(s) => self.push(Node::Lit(s.chars().collect()))?,
            Ex::Var(v) => match env.get(v) {
                None => return Err(EvalError::Undeclared(v.clone())),
                Some(Thunk::Delayed(e, env)) => return self.eval(&e, &env, d + 1),
                Some(Thunk::Rec(i)) => self.push(Node::Rec(i))?,
                Some(Thunk::Opaque(t)) => self.push(Node::Opaque(t))?,
            },
            Ex::Cat(v) => {
                let ids = v
                    .iter()
                    .map(|x| self.ground(&Rc::new(x.clone()), env, d + 1))
                    .collect::<Result<Vec<_>, _>>()?;
                self.push(Node::Cat(ids))?
            }
            Ex::Alt(v) if v.len() == 1 => return self.eval(&Rc::new(v[0].0.clone()), env, d + 1),
            Ex::Alt(v) => {
                let ids = v
                    .iter()
                    .map(|(x, l)| Ok((self.ground(&Rc::new(x.clone()), env, d + 1)?, l.clone())))
                    .collect::<Result<Vec<_>, _>>()?;
                self.push(Node::Alt(ids))?
            }
            Ex::Fix(x) => match self.eval(&Rc::new((**x).clone()), env, d + 1)? {
                Val::Fun(args, body, fenv) if args.len() == 1 => {
                    let fix = self.push(Node::Eps)?;
                    let env = fenv.with(&args[0], Thunk::Rec(fix));
                    let body = self.ground(&body, &env, d + 1)?;
                    self.nodes[fix] = Node::Fix(body);
                    fix
                }
                _ => return Err(EvalError::FixNotFunction),
            },
            Ex::Lam(args, body) => {
                return Ok(Val::Fun(args.clone(), Rc::new((**body).clone()), env.clone()))
            }
            Ex::Call(on, args) => match self.eval(&Rc::new((**on).clone()), env, d + 1)? {
                Val::Ground(_) => return Err(EvalError::NotAFunction),
                Val::Fun(names, body, fenv) => {
                    if names.len() != args.len() {
                        return Err(EvalError::Arity);
                    }
                    let mut call = fenv;
                    for (n, a) in names.iter().zip(args) {
                        call = call.with(n, Thunk::Delayed(Rc::new(a.clone()), env.clone()));
                    }
                    return self.eval(&body, &call, d + 1);
                }
            },
        }))
    }
}

fn scope(e: &Ex, names: &mut Vec<String>) -> Result<(), EvalError> {
    match e {
        Ex::Eps | Ex::Lit(_) => Ok(()),
        Ex::Var(v) => {
            if names.contains(v) {
                Ok(())
            } else {
                Err(EvalError::Undeclared(v.clone()))
            }
        }
        Ex::Cat(v) => v.iter().try_for_each(|x| scope(x, names)),
        Ex::Alt(v) => v.iter().try_for_each(|(x, _)| scope(x, names)),
        Ex::Fix(x) => scope(x, names),
        Ex::Call(f, a) => {
            scope(f, names)?;
            a.iter().try_for_each(|x| scope(x, names))
        }
        Ex::Lam(args, b) => {
            let n = names.len();
            names.extend(args.iter().cloned());
            let r = scope(b, names);
            names.truncate(n);
            r
        }
    }
}

/// Every name is declared before use, used or not.
pub fn check_scope(p: &Prog) -> Result<(), EvalError> {
    let mut names = Vec::new();
    for l in &p.lets {
        let n = names.len();
        names.extend(l.args.iter().cloned());
        scope(&l.body, &mut names)?;
        names.truncate(n);
        names.push(l.name.clone());
    }
    scope(&p.goal, &mut names)
}

pub fn lambda(args: &[String], body: &Ex) -> Ex {
    if args.is_empty() {
        body.clone()
    } else {
        Ex::Lam(args.to_vec(), Box::new(body.clone()))
    }
}

pub fn eval(p: &Prog) -> Result<Core, EvalError> {
    check_scope(p)?;
    eval_open(p, &[], Limits::default())
}

/// Evaluate with stand-ins for free names. The lets are evaluated on use.
pub fn eval_open(p: &Prog, free: &[(String, Ty)], lim: Limits) -> Result<Core, EvalError> {
    let mut env = Env::Nil;
    for l in &p.lets {
        env = env.with(&l.name, Thunk::Delayed(Rc::new(lambda(&l.args, &l.body)), env.clone()));
    }
    for (n, t) in free {
        env = env.with(n, Thunk::Opaque(t.clone()));
    }
    let mut ev = Ev { nodes: Vec::new(), steps: 0, lim };
    let root = ev.ground(&Rc::new(p.goal.clone()), &env, 0)?;
    Ok(Core { nodes: ev.nodes, root })
}

/// The grammar with every name expanded: fix points are all that binds.
pub fn expanded(c: &Core) -> Prog {
    fn ex(c: &Core, i: Id, up: &mut Vec<Id>) -> Ex {
        match &c.nodes[i] {
            Node::Eps | Node::Opaque(_) => Ex::Eps,
            Node::Lit(s) => Ex::Lit(s.iter().collect()),
            Node::Cat(v) => Ex::Cat(v.iter().map(|x| ex(c, *x, up)).collect()),
            Node::Alt(v) => Ex::Alt(v.iter().map(|(x, l)| (ex(c, *x, up), l.clone())).collect()),
            Node::Fix(b) => {
                up.push(i);
                let e = Ex::Lam(vec![format!("v{}", up.len())], Box::new(ex(c, *b, up)));
                up.pop();
                Ex::Fix(Box::new(e))
            }
            Node::Rec(f) => Ex::Var(format!("v{}", up.iter().rposition(|x| x == f).map_or(0, |k| k + 1))),
        }
    }
    Prog { lets: Vec::new(), goal: ex(c, c.root, &mut Vec::new()) }
}
