//! The typing rules, as a least fix point over the core grammar and one check.
use std::collections::BTreeSet;

use crate::eval::{Core, Id, Node, Ty};

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum TypeFault {
    FirstNullable,
    FlastOverlap,
    BothNullable,
    FirstOverlap,
    LeftRecursion,
}

#[derive(Clone, Debug)]
pub struct Types {
    pub ty: Vec<Ty>,
    /// Every rule broken anywhere (empty: well typed).
    pub faults: BTreeSet<TypeFault>,
}

fn union(a: &mut BTreeSet<char>, b: &BTreeSet<char>) -> bool {
    let n = a.len();
    a.extend(b.iter().copied());
    a.len() != n
}

fn of(core: &Core, ty: &[Ty], i: Id) -> Ty {
    match &core.nodes[i] {
        Node::Eps => Ty { null: true, ..Ty::default() },
        Node::Lit(s) => Ty {
            null: s.is_empty(),
            first: s.first().copied().into_iter().collect(),
            flast: BTreeSet::new(),
        },
        Node::Cat(v) => {
            let mut t = ty[v[0]].clone();
            for &x in &v[1..] {
                t = cat(&t, &ty[x]);
            }
            t
        }
        Node::Alt(v) => {
            let mut t = Ty::default();
            for (x, _) in v {
                t.null |= ty[*x].null;
                union(&mut t.first, &ty[*x].first);
                union(&mut t.flast, &ty[*x].flast);
            }
            t
        }
        Node::Fix(b) => ty[*b].clone(),
        Node::Rec(f) => ty[*f].clone(),
        Node::Opaque(t) => t.clone(),
    }
}

pub(crate) fn cat(a: &Ty, b: &Ty) -> Ty {
    let mut t = Ty { null: a.null && b.null, first: a.first.clone(), flast: b.flast.clone() };
    if a.null {
        union(&mut t.first, &b.first);
    }
    if b.null {
        union(&mut t.flast, &b.first);
        union(&mut t.flast, &a.flast);
    }
    t
}

pub fn types(core: &Core) -> Types {
    let n = core.nodes.len();
    let mut ty = vec![Ty::default(); n];
    loop {
        let mut changed = false;
        for i in 0..n {
            let t = of(core, &ty, i);
            if t != ty[i] {
                ty[i] = t;
                changed = true;
            }
        }
        if !changed {
            break;
        }
    }
    let mut faults = BTreeSet::new();
    check(core, &ty, core.root, &mut Vec::new(), &mut faults);
    Types { ty, faults }
}

fn disjoint(a: &BTreeSet<char>, b: &BTreeSet<char>) -> bool {
    a.is_disjoint(b)
}

/// `held`: fix points whose recursive use is not allowed here.
fn check(core: &Core, ty: &[Ty], i: Id, held: &mut Vec<Id>, out: &mut BTreeSet<TypeFault>) {
    match &core.nodes[i] {
        Node::Eps | Node::Lit(_) | Node::Opaque(_) => {}
        Node::Cat(v) => {
            check(core, ty, v[0], held, out);
            if ty[v[0]].null {
                out.insert(TypeFault::FirstNullable);
            }
            let mut t = ty[v[0]].clone();
            for &x in &v[1..] {
                check(core, ty, x, &mut Vec::new(), out);
                if !disjoint(&t.flast, &ty[x].first) {
                    out.insert(TypeFault::FlastOverlap);
                }
                t = cat(&t, &ty[x]);
            }
        }
        Node::Alt(v) => {
            let mut nulls = 0;
            for (k, (x, _)) in v.iter().enumerate() {
                check(core, ty, *x, held, out);
                nulls += usize::from(ty[*x].null);
                for (y, _) in &v[..k] {
                    if !disjoint(&ty[*x].first, &ty[*y].first) {
                        out.insert(TypeFault::FirstOverlap);
                    }
                }
            }
            if nulls > 1 {
                out.insert(TypeFault::BothNullable);
            }
        }
        Node::Fix(b) => {
            held.push(i);
            check(core, ty, *b, held, out);
            held.pop();
        }
        Node::Rec(f) => {
            if held.contains(f) {
                out.insert(TypeFault::LeftRecursion);
            }
        }
    }
}

/// Shortest sentence length of every node (`None`: no sentence at all).
pub fn min_len(core: &Core) -> Vec<Option<usize>> {
    let n = core.nodes.len();
    let mut m: Vec<Option<usize>> = vec![None; n];
    loop {
        let mut changed = false;
        for i in 0..n {
            let v = match &core.nodes[i] {
                Node::Eps => Some(0),
                Node::Lit(s) => Some(s.len()),
                Node::Cat(v) => v.iter().map(|&x| m[x]).sum(),
                Node::Alt(v) => v.iter().filter_map(|(x, _)| m[*x]).min(),
                Node::Fix(b) => m[*b],
                Node::Rec(f) => m[*f],
                Node::Opaque(_) => Some(1),
            };
            let better = match (v, m[i]) {
                (Some(a), Some(b)) => a < b,
                (Some(_), None) => true,
                _ => false,
            };
            if better {
                m[i] = v;
                changed = true;
            }
        }
        if !changed {
            return m;
        }
    }
}
