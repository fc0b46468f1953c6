use dst::Rng;
use refmodel::*;
fn main() {
    let n: u64 = std::env::args().nth(1).unwrap().parse().unwrap();
    let show = std::env::args().nth(2).is_some();
    let (mut ok, mut prod, mut size, mut nodes, mut fixes, mut maxn) = (0, 0, 0, 0, 0, 0);
    let mut disagree = 0;
    let mut near = [0; 3];
    for s in 0..n {
        let mut rng = Rng::new(s);
        let p = gen::program(&mut rng);
        let text = p.print(syntax::Style::Raw);
        match text::read(&text) { text::Read::Ok(q) => if q != p { disagree += 1; if disagree < 4 { println!("RT {} {:?} {:?}", text, p, q) } }, r => { disagree += 1; if disagree < 4 {println!("{} {:?}", text, r)} } }
        let v = text::prog_verdict(&p);
        if v == text::Verdict::Accept { ok += 1; }
        if gen::usable(&p) {
            prod += 1; size += text.len();
            let core = eval::eval(&p).unwrap();
            nodes += core.nodes.len(); maxn = maxn.max(core.nodes.len());
            fixes += core.nodes.iter().filter(|n| matches!(n, Node::Fix(_))).count();
            if show { println!("--- {}\n{}", s, text); }
            let g = std::rc::Rc::new(machine::Grammar::new(core).unwrap());
            for _ in 0..5 {
                let t = machine::sentence(&g, &mut rng, 30);
                let mut m = machine::Machine::new(g.clone());
                assert_eq!(m.run(&t), t.len(), "{} {:?}", text, t);
                assert!(m.complete(), "{} {:?}", text, t);
                if t.len() < 60 && g.core.nodes.len() < 200 { assert!(earley::member(&g.core, &t)); }
                let mut t2 = t.clone();
                if !t2.is_empty() { let i = rng.below(t2.len()); if rng.chance(1,2) { t2.remove(i); } else { t2[i] = t[rng.below(t.len())]; } }
                if t2.len() < 60 && g.core.nodes.len() < 200 {
                    let mut m = machine::Machine::new(g.clone());
                    let a = m.run(&t2) == t2.len() && m.complete();
                    assert_eq!(a, earley::member(&g.core, &t2), "{} {:?}", text, t2);
                    let tr = machine::tree(&g, &t2);
                    assert_eq!(a, tr.map_or(false, |x| x.1 == t2.len()));
                }
            }
        }
        let mut q = p.clone(); gen::nudge(&mut q, &mut rng);
        near[match text::prog_verdict(&q) { text::Verdict::Accept => 0, text::Verdict::Reject(_) => 1, _ => 2 }] += 1;
    }
    println!("{} ok {} usable {} avg size {} avg nodes {} max {} fixes {} rt-disagree {} near {:?}", n, ok, prod, size / prod.max(1), nodes / prod.max(1), maxn, fixes as f64 / prod as f64, disagree, near);
}
