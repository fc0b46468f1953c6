//! The two front ends on whatever text arrives: their abstract grammars, and
//! the self-hosted one against the grammar it publishes.
use std::cell::Cell;
use std::panic::{self, AssertUnwindSafe};
use std::rc::Rc;

use chewed::{IterWrapper, Parser};
use chomp::chomp::ast::{Expression, NamedExpression};
use chomp::chomp::name::Name;
use dst::json::obj;
use dst::report::{Outcome, Sim, Stats};
use dst::rng::derive;
use dst::{Fnv, Json, Rng};
use refmodel::eval::{eval_open, Limits};
use refmodel::machine::{Grammar, Machine};
use refmodel::syntax::Style;
use refmodel::text::{read, Read};
use refmodel::{gen, texts};

const PUBLISHED: &str = include_str!("../../corpus/autonibble.nb");

struct Front {
    grammar: Rc<Grammar>,
}

fn name(n: &Option<Name>, out: &mut String) {
    if let Some(n) = n {
        let d = format!("{:?}", n);
        let kind = ["Label", "Let", "Variable"].iter().find(|k| d.contains(&format!("kind: {}", k)));
        out.push_str(&format!("<{} {}>", kind.unwrap_or(&""), n));
    }
}

fn names(v: &[Name], out: &mut String) {
    for n in v {
        name(&Some(n.clone()), out);
    }
}

/// Everything an abstract grammar says, except where it was written.
fn render(e: &NamedExpression, out: &mut String) {
    name(&e.name, out);
    let list = |out: &mut String, tag: &str, v: Vec<&NamedExpression>| {
        out.push_str(tag);
        out.push('(');
        for x in v {
            render(x, out);
            out.push(',');
        }
        out.push(')');
    };
    match &e.expr {
        Expression::Epsilon(_) => out.push('_'),
        Expression::Literal(l) => out.push_str(&format!("{:?}", l)),
        Expression::Cat(c) => {
            list(out, "cat", std::iter::once(&*c.first).chain(c.rest.iter().map(|(_, e)| e)).collect())
        }
        Expression::Alt(c) => {
            list(out, "alt", std::iter::once(&*c.first).chain(c.rest.iter().map(|(_, e)| e)).collect())
        }
        Expression::Fix(f) => list(out, "fix", vec![&*f.inner]),
        Expression::Variable(v) => out.push_str(&format!("'{}", v.index)),
        Expression::Call(c) => list(out, "call", std::iter::once(&*c.on).chain(c.args.iter()).collect()),
        Expression::Lambda(l) => {
            out.push('/');
            names(&l.args, out);
            out.push('/');
            list(out, "", vec![&*l.inner])
        }
        Expression::Let(l) => {
            name(&Some(l.name.clone()), out);
            list(out, "let", vec![&*l.bound, &*l.body])
        }
    }
}

fn rendered(e: &NamedExpression) -> String {
    let mut s = String::new();
    render(e, &mut s);
    s
}

/// A peer that goes quiet for good at `dry`.
struct Source<'a> {
    text: &'a [char],
    at: usize,
    dry: Option<usize>,
    asked: &'a Cell<u64>,
}

impl Iterator for Source<'_> {
    type Item = char;
    fn next(&mut self) -> Option<char> {
        self.asked.set(self.asked.get() + 1);
        if self.dry == Some(self.at) {
            return None;
        }
        let c = self.text.get(self.at).copied();
        self.at += usize::from(c.is_some());
        c
    }
}

fn grammar() -> Rc<Grammar> {
    let p = match read(PUBLISHED) {
        Read::Ok(p) => p,
        x => panic!("the published grammar: {:?}", x),
    };
    let core = eval_open(&p, &[], Limits { nodes: 200_000, depth: 1000, steps: 10_000_000 }).expect("evaluation");
    Rc::new(Grammar::new(core).expect("grammar"))
}

impl Sim for Front {
    fn scenario(&mut self, _property: &str, seed: u64, index: u64) -> Json {
        let rng = &mut Rng::new(derive(seed, &[0xf207, index]));
        let mut did: Vec<&'static str> = Vec::new();
        let mut t = match rng.below(20) {
            0 if rng.chance(1, 20) => PUBLISHED.to_owned(),
            1 => rng.pick(texts::CORPUS).1.to_owned(),
            2..=4 => gen::wild(rng).print(Style::Ascii),
            _ => {
                let style = if rng.chance(5, 6) { Style::Ascii } else { Style::Raw };
                texts::grammar(rng, style)
            }
        };
        if rng.chance(1, 2) {
            let wild = rng.chance(1, 6);
            t = texts::respell(&t, rng, wild);
        }
        if rng.chance(1, 5) {
            t = texts::edges(&t, rng);
        }
        if rng.chance(1, 8) {
            t = texts::rename(&t, rng);
        }
        for _ in 0..*rng.pick(&[0, 0, 0, 1, 1, 1, 2, 3]) {
            let o = if rng.chance(1, 2) { texts::grammar(rng, Style::Ascii) } else { t.clone() };
            t = texts::damage(&t, &o, rng, &mut did);
        }
        if rng.chance(1, 300) {
            t = texts::bulk(&t, rng, false);
        }
        let mut sc = vec![("text".to_owned(), Json::from(t.as_str())), ("harm".to_owned(), did.into())];
        if rng.chance(1, 10) {
            sc.push(("dry".to_owned(), rng.below(t.chars().count() + 1).into()));
        }
        Json::Obj(sc)
    }

    fn run(&mut self, _property: &str, sc: &Json, stats: &mut Stats) -> Outcome {
        let mut o = Outcome::default();
        for h in sc.at("harm").arr() {
            stats.count(&format!("fault:{}", h.str()));
        }
        let all: Vec<char> = sc.at("text").str().chars().collect();
        let dry = sc.get("dry").map(|d| d.usize());
        if dry.is_some() {
            stats.count("fault:source runs dry");
        }
        // what the self-hosted front end can have seen
        let seen: String = all[..dry.unwrap_or(all.len()).min(all.len())].iter().collect();

        let asked = Cell::new(0);
        let mine = panic::catch_unwind(AssertUnwindSafe(|| {
            let source = Source { text: &all, at: 0, dry, asked: &asked };
            IterWrapper::new(source).parse::<autonibble::Ast>().map_err(|e| e.to_string())
        }));
        stats.sim_time += asked.get();
        let parsed = matches!(mine, Ok(Ok(_)));
        let mine = mine.and_then(|r| panic::catch_unwind(AssertUnwindSafe(|| selfhost::lower(r?))));
        let reference = panic::catch_unwind(AssertUnwindSafe(|| pipeline::front(&seen)));

        let mut m = Machine::new(self.grammar.clone());
        let chars: Vec<char> = seen.chars().collect();
        let fed = m.run(&chars);
        let member = fed == chars.len() && m.complete();

        let mut h = Fnv::default();
        h.str(&seen);
        stats.schedules.insert(h.0);
        h.num(u64::from(member));
        o.log.num(h.0);
        let mut h = Fnv::default();
        h.num(m.state_hash());
        h.num(u64::from(member) * 4 + u64::from(matches!(reference, Ok(Ok(_)))) * 2 + u64::from(matches!(mine, Ok(Ok(_)))));
        stats.state(h.0);

        let head: String = seen.chars().take(400).collect();
        let (mine, reference) = match (mine, reference) {
            (Err(_), _) => {
                o.fail("C13", "crash", format!("the self-hosted front end panics on {:?}", head));
                return o;
            }
            (_, Err(_)) => {
                o.fail("C13", "crash", format!("the reference front end panics on {:?}", head));
                return o;
            }
            (Ok(a), Ok(b)) => (a, b),
        };
        match (&mine, &reference) {
            (Ok(x), Ok(y)) => {
                stats.count("outcome:both accept");
                let (a, b) = (rendered(x), rendered(y));
                o.log.str(&a);
                if a != b {
                    let at = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count();
                    let near = |s: &str| String::from_utf8_lossy(&s.as_bytes()[at.saturating_sub(30)..(at + 60).min(s.len())]).into_owned();
                    o.fail("C13", "abstract grammars differ", format!("{:?} against {:?} on {:?}", near(&a), near(&b), head));
                    return o;
                }
                // expansions of some texts do not end: only those the reference evaluates
                let ends = || matches!(read(&seen), Read::Ok(p) if refmodel::eval::eval(&p).is_ok());
                if a.len() < 20_000 && dst::hash_str(&seen) % 3 == 0 && ends() {
                    let back = |e: &NamedExpression| panic::catch_unwind(AssertUnwindSafe(|| pipeline::back(e.clone()))).ok();
                    let (a, b) = (back(x), back(y));
                    stats.count(match &a {
                        Some(Ok(_)) => "outcome:both compiled",
                        Some(Err(_)) => "outcome:both refused by a later stage",
                        None => "outcome:a later stage panics",
                    });
                    if a != b {
                        o.fail("C13", "code differs", format!("{:?}: {:?} against {:?}", head, brief(&a), brief(&b)));
                        return o;
                    }
                }
            }
            (Ok(_), Err(e)) => {
                o.fail("C13", "only the self-hosted one accepts", format!("{:?}; the reference says {}", head, e));
                return o;
            }
            (Err(_), Ok(_)) => stats.count("outcome:only the reference accepts"),
            (Err(_), Err(_)) => stats.count("outcome:both reject"),
        }
        if parsed != member {
            let class = if member { "rejects a text of its grammar" } else { "accepts a text outside its grammar" };
            o.fail("C13", class, format!("{:?}: {:?}", head, mine.err()));
            return o;
        }
        if member {
            stats.count("texts of the published grammar");
            if let (Err(e), Ok(_)) = (&mine, &reference) {
                o.fail("C13", "rejects a text of its grammar", format!("{:?}: {}", head, e));
            }
        }
        o
    }
}

fn brief(x: &Option<Result<String, String>>) -> String {
    match x {
        None => "a panic".into(),
        Some(Ok(c)) => format!("{} bytes of code, hash {:x}", c.len(), dst::hash_str(c)),
        Some(Err(e)) => e.clone(),
    }
}

fn main() {
    panic::set_hook(Box::new(|_| {}));
    let mut sim = Front { grammar: grammar() };
    if dst::report::arg("--check-grammar").is_some() {
        println!("{}", obj([("nodes", 1_u64.into())]).print());
        return;
    }
    dst::report::main(&mut sim);
}
