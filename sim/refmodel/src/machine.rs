//! A character-at-a-time predictive recogniser for well-typed grammars, the
//! reference parse tree and random sentences.
use std::collections::BTreeSet;
use std::rc::Rc;

use dst::Rng;

use crate::eval::{Core, Id, Node};
use crate::typing::{min_len, types, Types};

/// A well-typed grammar in which every part has a sentence.
#[derive(Debug)]
pub struct Grammar {
    pub core: Core,
    pub types: Types,
    pub min: Vec<usize>,
}

impl Grammar {
    pub fn new(core: Core) -> Option<Grammar> {
        let types = types(&core);
        if !types.faults.is_empty() {
            return None;
        }
        let min = min_len(&core).into_iter().collect::<Option<Vec<_>>>()?;
        Some(Grammar { core, types, min })
    }
}

/// A pending part: a node, or what is left of a literal.
#[derive(Clone, Debug, PartialEq)]
enum Item {
    Node(Id),
    Rest(Id, usize),
}

#[derive(Clone)]
pub struct Machine {
    pub g: Rc<Grammar>,
    stack: Vec<Item>,
    dead: bool,
}

impl Machine {
    pub fn new(g: Rc<Grammar>) -> Machine {
        let root = g.core.root;
        Machine { g, stack: vec![Item::Node(root)], dead: false }
    }
    fn null(&self, i: &Item) -> bool {
        match i {
            Item::Node(n) => self.g.types.ty[*n].null,
            Item::Rest(n, k) => matches!(&self.g.core.nodes[*n], Node::Lit(s) if s.len() == *k),
        }
    }
    /// Could `c` come next? Advances if so; otherwise nothing changes and false.
    pub fn feed(&mut self, c: char) -> bool {
        if self.dead {
            return false;
        }
        let mut st = self.stack.clone();
        loop {
            let top = match st.pop() {
                None => return false,
                Some(t) => t,
            };
            match top {
                Item::Rest(n, k) => {
                    if let Node::Lit(s) = &self.g.core.nodes[n] {
                        if k == s.len() {
                            continue;
                        }
                        if s[k] != c {
                            return false;
                        }
                        if k + 1 < s.len() {
                            st.push(Item::Rest(n, k + 1));
                        }
                        self.stack = st;
                        return true;
                    }
                }
                Item::Node(n) => {
                    let ty = &self.g.types.ty[n];
                    if !ty.first.contains(&c) {
                        if ty.null {
                            continue;
                        }
                        return false;
                    }
                    match &self.g.core.nodes[n] {
                        Node::Eps | Node::Opaque(_) => return false,
                        Node::Lit(_) => st.push(Item::Rest(n, 0)),
                        Node::Cat(v) => st.extend(v.iter().rev().map(|&x| Item::Node(x))),
                        Node::Alt(v) => {
                            let x = v.iter().find(|(x, _)| self.g.types.ty[*x].first.contains(&c));
                            st.push(Item::Node(x.unwrap().0));
                        }
                        Node::Fix(b) => st.push(Item::Node(*b)),
                        Node::Rec(f) => st.push(Item::Node(*f)),
                    }
                }
            }
        }
    }
    /// What was fed is a sentence.
    pub fn complete(&self) -> bool {
        self.stack.iter().all(|i| self.null(i))
    }
    /// Characters that can come next.
    pub fn expected(&self) -> BTreeSet<char> {
        let mut out = BTreeSet::new();
        for i in self.stack.iter().rev() {
            match i {
                Item::Node(n) => out.extend(self.g.types.ty[*n].first.iter().copied()),
                Item::Rest(n, k) => {
                    if let Node::Lit(s) = &self.g.core.nodes[*n] {
                        out.extend(s.get(*k).copied());
                    }
                }
            }
            if !self.null(i) {
                break;
            }
        }
        out
    }
    /// What the next part that cannot be left out can start with.
    pub fn needed(&self) -> BTreeSet<char> {
        match self.stack.iter().rev().find(|i| !self.null(i)) {
            Some(Item::Node(n)) => self.g.types.ty[*n].first.clone(),
            Some(Item::Rest(n, k)) => match &self.g.core.nodes[*n] {
                Node::Lit(s) => s.get(*k).copied().into_iter().collect(),
                _ => BTreeSet::new(),
            },
            None => BTreeSet::new(),
        }
    }
    pub fn extendable(&self) -> bool {
        for i in self.stack.iter().rev() {
            let more = match i {
                Item::Node(n) => !self.g.types.ty[*n].first.is_empty(),
                Item::Rest(..) => !self.null(i),
            };
            if more {
                return true;
            }
        }
        false
    }
    /// The literals that may be under way or may start here, as their remaining text.
    pub fn depth(&self) -> usize {
        self.stack.len()
    }
    pub fn state_hash(&self) -> u64 {
        let mut f = dst::Fnv::default();
        for i in &self.stack {
            match i {
                Item::Node(n) => f.num(*n as u64 * 64),
                Item::Rest(n, k) => f.num(*n as u64 * 64 + 1 + *k as u64),
            }
        }
        f.0
    }
    /// Feed as much as possible; the index of the first impossible character.
    pub fn run(&mut self, text: &[char]) -> usize {
        for (i, &c) in text.iter().enumerate() {
            if !self.feed(c) {
                return i;
            }
        }
        text.len()
    }
}

/// Shape of a value.
#[derive(Clone, Debug, PartialEq)]
pub enum Tree {
    Leaf(String),
    Seq(Vec<Tree>),
    /// Index taken, its label, and what was inside.
    Choice(usize, Option<String>, Box<Tree>),
}

/// Parse tree of the longest viable prefix; `None` if that is not a sentence.
pub fn tree(g: &Grammar, text: &[char]) -> Option<(Tree, usize)> {
    let mut p = 0;
    let t = node(g, g.core.root, text, &mut p)?;
    Some((t, p))
}

fn node(g: &Grammar, n: Id, text: &[char], p: &mut usize) -> Option<Tree> {
    match &g.core.nodes[n] {
        Node::Eps => Some(Tree::Leaf(String::new())),
        Node::Lit(s) => {
            for c in s {
                if text.get(*p) != Some(c) {
                    return None;
                }
                *p += 1;
            }
            Some(Tree::Leaf(s.iter().collect()))
        }
        Node::Cat(v) => {
            let mut out = Vec::new();
            for &x in v {
                out.push(node(g, x, text, p)?);
            }
            Some(Tree::Seq(out))
        }
        Node::Alt(v) => {
            let by_first = text
                .get(*p)
                .and_then(|c| v.iter().position(|(x, _)| g.types.ty[*x].first.contains(c)));
            let i = by_first.or_else(|| v.iter().position(|(x, _)| g.types.ty[*x].null))?;
            Some(Tree::Choice(i, v[i].1.clone(), Box::new(node(g, v[i].0, text, p)?)))
        }
        Node::Fix(b) => node(g, *b, text, p),
        Node::Rec(f) => node(g, *f, text, p),
        Node::Opaque(_) => None,
    }
}

/// A random sentence of about `budget` characters.
pub fn sentence(g: &Grammar, rng: &mut Rng, budget: usize) -> Vec<char> {
    let mut out = Vec::new();
    let mut work = vec![g.core.root];
    let mut steps = 0;
    // how hard to look for the longer way
    let eager = if budget >= 300 { *rng.pick(&[3, 8, 30]) } else { 3 };
    while let Some(n) = work.pop() {
        steps += 1;
        if steps > 400 * (budget + 50) || out.len() > 100_000 {
            // only ill-formed grammars get here
            break;
        }
        match &g.core.nodes[n] {
            Node::Eps | Node::Opaque(_) => {}
            Node::Lit(s) => out.extend(s.iter().copied()),
            Node::Cat(v) => work.extend(v.iter().rev()),
            Node::Fix(b) => work.push(*b),
            Node::Rec(f) => work.push(*f),
            Node::Alt(v) => {
                let pending: usize = work.iter().map(|&x| g.min[x]).sum();
                let tight = out.len() + pending >= budget || steps > 40 * (budget + 10);
                let x = if tight {
                    v.iter().map(|a| a.0).min_by_key(|&x| g.min[x]).unwrap()
                } else {
                    let mut best = rng.pick(v).0;
                    // favour the longer way while there is room
                    for _ in 0..rng.below(eager) {
                        let y = rng.pick(v).0;
                        if g.types.ty[best].null || g.min[y] > g.min[best] {
                            best = y;
                        }
                    }
                    best
                };
                work.push(x);
            }
        }
    }
    out
}
