//! Makes grammars, runs the real generator on them and writes batches of
//! generated parsers to be compiled into simulation binaries.
use std::fs;
use std::panic;

use dst::json::obj;
use dst::report::arg;
use dst::rng::derive;
use dst::{Json, Rng};
use refmodel::text::{prog_verdict, Verdict};
use refmodel::texts::CORPUS;
use refmodel::{gen, syntax::Style, text, Prog};

struct Made {
    kind: String,
    text: String,
    code: String,
    verdict: &'static str,
}

fn chomp(text: &str) -> Option<Result<String, String>> {
    let t = text.to_owned();
    panic::catch_unwind(move || pipeline::compile(&t)).ok()
}

fn verdict_name(v: &Verdict) -> &'static str {
    match v {
        Verdict::Accept => "accept",
        Verdict::Reject(_) => "reject",
        Verdict::Unknown => "unknown",
    }
}

fn productive(p: &Prog) -> bool {
    refmodel::eval::eval(p).map_or(false, |c| {
        c.nodes.len() <= 700 && refmodel::typing::min_len(&c)[c.root].is_some()
    })
}

/// How many grammars to look at for one to run.
const LOOK: u64 = 24;

/// Grammar number `gid` under `seed`.
fn make(seed: u64, gid: u64) -> Option<Made> {
    if (gid as usize) < CORPUS.len() {
        let (name, text) = CORPUS[gid as usize];
        let code = chomp(text)?.ok()?;
        let v = text::verdict(text);
        return Some(Made { kind: format!("corpus:{}", name), text: text.into(), code, verdict: verdict_name(&v) });
    }
    let mut first: Option<Made> = None;
    for attempt in 0..LOOK {
        let mut rng = Rng::new(derive(seed, &[0xf0_1234, gid, attempt]));
        let p = gen::program(&mut rng);
        if first.is_some() || rng.chance(3, 4) {
            if !gen::usable(&p) {
                continue;
            }
            let text = p.print(Style::Raw);
            // accepting too little is another property's business
            if let Some(Ok(code)) = chomp(&text) {
                if code.len() < 120_000 {
                    let strange = odd(&p, &code);
                    if strange || first.is_none() {
                        let kind = if strange { "odd" } else { "random" };
                        first = Some(Made { kind: kind.into(), text, code, verdict: "accept" });
                    }
                    if strange {
                        break;
                    }
                }
            }
            continue;
        }
        // a neighbour of a well-typed grammar; prefer one the generator
        // accepts although the reference does not
        let mut kept = None;
        for _ in 0..25 {
            let mut q = p.clone();
            for _ in 0..rng.range(1, 2) {
                gen::nudge(&mut q, &mut rng);
            }
            let text = q.print(Style::Raw);
            if text::read(&text) != text::Read::Ok(q.clone()) || !productive(&q) {
                continue;
            }
            let v = prog_verdict(&q);
            if v == Verdict::Unknown {
                continue;
            }
            if let Some(Ok(code)) = chomp(&text) {
                if code.len() > 120_000 {
                    continue;
                }
                let rejected = v != Verdict::Accept;
                if rejected || kept.is_none() {
                    kept = Some(Made { kind: "near".into(), text, code, verdict: verdict_name(&v) });
                }
                if rejected {
                    break;
                }
            }
        }
        if kept.is_some() {
            return kept;
        }
    }
    first
}

/// What generated code reads, whatever its parts are called and however they
/// are shared: a hash of the tree of literals its types unfold to.
fn shape(code: &str) -> u64 {
    use std::collections::HashMap;
    let b = code.as_bytes();
    let mut toks: Vec<&str> = Vec::new();
    let (mut i, n) = (0, b.len());
    while i < n {
        let (c, at) = (b[i], i);
        if c.is_ascii_alphanumeric() || c == b'_' {
            while i < n && (b[i].is_ascii_alphanumeric() || b[i] == b'_') {
                i += 1;
            }
        } else if c == b'"' || (c == b'\'' && code[i + 1..].find('\'').is_some_and(|k| k <= 10)) {
            i += 1;
            while i < n && b[i] != c {
                i += 1 + usize::from(b[i] == b'\\');
            }
            i += 1;
        } else {
            i += 1;
            while !code.is_char_boundary(i.min(n)) {
                i += 1;
            }
        }
        i = i.min(n);
        let t = &code[at..i];
        if !t.trim().is_empty() {
            toks.push(t);
        }
    }
    // the extent of the block after k
    let block = |k: usize| {
        let (mut d, mut j) = (0, k);
        while j < toks.len() {
            match toks[j] {
                "{" | "(" => d += 1,
                "}" | ")" => {
                    d -= 1;
                    if d == 0 {
                        break;
                    }
                }
                ";" if d == 0 => break,
                _ => {}
            }
            j += 1;
        }
        j
    };
    let mut index: HashMap<&str, usize> = HashMap::new();
    let mut defs: Vec<(usize, usize)> = Vec::new();
    for k in 2..toks.len().saturating_sub(1) {
        if matches!(toks[k - 1], "struct" | "enum" | "type") && toks[k - 2] == "pub" {
            index.insert(toks[k], defs.len());
            defs.push((k + 1, block(k + 1)));
        }
    }
    let mut refs: Vec<Vec<usize>> = Vec::new();
    let mut alias: Vec<bool> = Vec::new();
    let mut own = vec![dst::Fnv::default(); defs.len() + 1];
    let eps = defs.len();
    index.entry("Epsilon").or_insert(eps);
    for k in 3..toks.len() {
        if toks[k - 1] == "for" && toks[k - 2] == "Parse" && toks[k - 3] == "impl" {
            if let Some(&x) = index.get(toks[k]) {
                for t in toks[k..block(k)].iter().filter(|t| t.starts_with('"')) {
                    own[x].str(&unquote(t));
                }
            }
        }
    }
    for &(a, z) in &defs {
        alias.push(toks[a] == "=");
        refs.push((a..z).filter(|&j| !matches!(toks.get(j + 1), Some(&"(") | Some(&":"))).filter_map(|j| index.get(toks[j]).copied()).collect());
    }
    for (x, &(a, _)) in defs.iter().enumerate() {
        own[x].str(toks[a - 2]);
    }
    own[eps].str("eps");
    refs.push(Vec::new());
    alias.push(false);
    let own: Vec<u64> = own.iter().map(|f| f.0).collect();
    let at = index.get("Ast").copied();
    at.map_or(0, |x| unfold(&own, &refs, &alias, x))
}

/// A hash of the tree that a graph unfolds to.
fn unfold(own: &[u64], refs: &[Vec<usize>], alias: &[bool], root: usize) -> u64 {
    let real = |mut x: usize| {
        for _ in 0..own.len() {
            if alias[x] && refs[x].len() == 1 {
                x = refs[x][0];
            }
        }
        x
    };
    let mut h = own.to_vec();
    for _ in 0..40 {
        let prev = h.clone();
        for x in 0..h.len() {
            let mut f = dst::Fnv(own[x]);
            for r in &refs[x] {
                f.num(prev[real(*r)]);
            }
            h[x] = f.0;
        }
    }
    h[real(root)]
}

/// The tree of literals the grammar unfolds to, as `shape` would find it.
fn meant(c: &refmodel::eval::Core) -> u64 {
    use refmodel::eval::Node;
    let (mut own, mut refs, mut alias) = (Vec::new(), Vec::new(), Vec::new());
    for n in &c.nodes {
        let mut f = dst::Fnv::default();
        let (tag, r, a) = match n {
            Node::Eps | Node::Opaque(_) => ("eps", vec![], false),
            Node::Lit(s) => {
                f.str(&s.iter().collect::<String>());
                ("struct", vec![], false)
            }
            Node::Cat(v) => ("struct", v.clone(), false),
            Node::Alt(v) => ("enum", v.iter().map(|x| x.0).collect(), false),
            Node::Fix(x) | Node::Rec(x) => ("type", vec![*x], true),
        };
        f.str(tag);
        own.push(f.0);
        refs.push(r);
        alias.push(a);
    }
    unfold(&own, &refs, &alias, c.root)
}

fn unquote(t: &str) -> String {
    let mut out = String::new();
    let mut it = t[1..t.len() - 1].chars();
    while let Some(c) = it.next() {
        if c != '\\' {
            out.push(c);
            continue;
        }
        match it.next() {
            Some('n') => out.push('\n'),
            Some('r') => out.push('\r'),
            Some('t') => out.push('\t'),
            Some('0') => out.push('\0'),
            Some('x') => {
                let h: String = it.by_ref().take(2).collect();
                out.extend(u32::from_str_radix(&h, 16).ok().and_then(std::char::from_u32));
            }
            Some('u') => {
                let h: String = it.by_ref().skip(1).take_while(|c| *c != '}').collect();
                out.extend(u32::from_str_radix(&h, 16).ok().and_then(std::char::from_u32));
            }
            Some(c) => out.push(c),
            None => {}
        }
    }
    out
}

/// Does the code look as if it read something else than the grammar says? It
/// may not: this only decides which grammars are worth running.
fn odd(p: &Prog, code: &str) -> bool {
    refmodel::eval::eval(p).is_ok_and(|c| meant(&c) != shape(code))
}

/// Pair number `k`: one grammar in two wordings, and what the generator makes of
/// them.
struct Pair {
    how: &'static str,
    texts: [String; 2],
    codes: [Option<String>; 2],
    strange: bool,
}

fn pair(seed: u64, k: u64) -> Option<Pair> {
    let mut best: Option<Pair> = None;
    for attempt in 0..LOOK {
        let mut rng = Rng::new(derive(seed, &[0xf0_1616, k, attempt]));
        let mut p = gen::program(&mut rng);
        if rng.chance(1, 2) {
            p = gen::dress(&p, &mut rng);
        }
        let bad = rng.chance(1, 3);
        if bad {
            gen::nudge(&mut p, &mut rng);
        }
        let core = match refmodel::eval::eval(&p) {
            Ok(c) if c.nodes.len() <= 700 => c,
            _ => continue,
        };
        let (q, how) = match refmodel::alpha::variant(&p, &mut rng) {
            Some(v) => v,
            None => continue,
        };
        // both wordings must be within the reference's reach and say the same
        if q == p || refmodel::eval::eval(&q).ok() != Some(core) {
            continue;
        }
        let texts = [p.print(Style::Raw), q.print(Style::Raw)];
        let made: Vec<_> = texts.iter().map(|t| chomp(t)).collect();
        // a crash of the generator is another property's business
        if made.iter().any(|m| m.is_none()) {
            continue;
        }
        let codes: Vec<Option<String>> = made.into_iter().map(|m| m.and_then(Result::ok)).collect();
        if codes.iter().flatten().any(|c| c.len() > 120_000) {
            continue;
        }
        let strange = match (&codes[0], &codes[1]) {
            (Some(a), Some(b)) => shape(a) != shape(b),
            (None, None) => false,
            _ => true,
        };
        let both = codes[0].is_some() && codes[1].is_some();
        if strange || (best.is_none() && (both || attempt + 1 == LOOK)) {
            let mut c = codes.into_iter();
            let codes = [c.next().unwrap(), c.next().unwrap()];
            best = Some(Pair { how, texts, codes, strange });
        }
        if strange {
            break;
        }
    }
    best
}

/// Generated types that might convert to a character: those without content, and the choices
/// together with the types they choose between.
fn singles(code: &str) -> (Vec<String>, Vec<(String, Vec<String>)>) {
    let mut spaced = String::new();
    for c in code.chars() {
        match c {
            '(' | ')' | ',' | ';' | '{' | '}' => spaced.extend([' ', c, ' ']),
            c => spaced.push(c),
        }
    }
    let toks: Vec<&str> = spaced.split_whitespace().collect();
    let (mut units, mut choices) = (Vec::new(), Vec::<(String, Vec<String>)>::new());
    for i in 0..toks.len().saturating_sub(3) {
        let name = toks[i + 2];
        if toks[i] != "pub" || !name.chars().all(|c| c.is_alphanumeric() || c == '_') {
            continue;
        }
        if toks[i + 1] == "struct" && toks[i + 3] == ";" {
            units.push(name.to_string());
        }
        if toks[i + 1] == "enum" && toks[i + 3] == "{" {
            // pub enum NAME { VARIANT ( TYPE ) , ... }
            let mut parts = Vec::new();
            let mut rest = &toks[i + 4..];
            while let [_, "(", t, ")", ",", tail @ ..] | [_, "(", t, ")", tail @ ..] = rest {
                parts.push(t.to_string());
                rest = tail;
            }
            let plain = |t: &String| t.chars().all(|c| c.is_alphanumeric() || c == '_');
            if rest.first() == Some(&"}") && parts.len() <= 8 && parts.iter().all(plain) {
                choices.push((name.to_string(), parts));
            }
        }
    }
    // a choice between such types only, none of them the alias of a fixed point
    let known = |t: &String| units.contains(t) || choices.iter().any(|(name, _)| name == t);
    let kept = choices.iter().filter(|(_, of)| of.iter().all(known)).cloned().collect();
    choices = kept;
    units.truncate(40);
    choices.truncate(8);
    (units, choices)
}

fn write_batch(dir: &str, k: usize, items: &[(u64, Made)]) {
    let mut s = String::from("#![allow(warnings)]\nextern crate streamrt;\n");
    for (gid, m) in items {
        s.push_str(&format!("mod g{} {{\n{}\n}}\n", gid, m.code));
    }
    s.push_str("fn main() {\n    streamrt::main(vec![\n");
    for (gid, m) in items {
        let (units, choices) = singles(&m.code);
        let probe = |t: &str| format!("streamrt::probe!(g{}::{})", gid, t);
        let part = |t: &str, of: &[String]| {
            let of: String = of.iter().map(|u| format!("{}.is_some(), ", probe(u))).collect();
            format!("streamrt::part::<g{}::{}>({}, &[{}]), ", gid, t, probe(t), of)
        };
        let singles: String = units
            .iter()
            .map(|t| part(t, &[]))
            .chain(choices.iter().map(|(t, of)| part(t, of)))
            .collect();
        s.push_str(&format!(
            "        streamrt::entry::<g{}::Ast>({}, {:?}, {:?}, {:?}, vec![{}]),\n",
            gid, gid, m.text, m.kind, m.verdict, singles
        ));
    }
    s.push_str("    ]);\n}\n");
    fs::write(format!("{}/batch_{}.rs", dir, k), s).expect("batch");
}

fn main() {
    panic::set_hook(Box::new(|_| {}));
    let out = arg("--out").expect("--out");
    fs::create_dir_all(&out).expect("out dir");
    let t = std::thread::Builder::new().stack_size(512 << 20);
    t.spawn(move || {
        if let Some(f) = arg("--programs") {
            // the grammars of a replay file
            let sc = Json::parse(&fs::read_to_string(f).expect("programs")).expect("json");
            let mut items = Vec::new();
            for (i, g) in sc.at("grammars").arr().iter().enumerate() {
                let text = g.str().to_owned();
                let v = text::verdict(&text);
                if let Some(Ok(code)) = chomp(&text) {
                    items.push((i as u64, Made { kind: "given".into(), text, code, verdict: verdict_name(&v) }));
                }
            }
            write_batch(&out, 0, &items);
            let verdicts = items.iter().map(|(i, m)| {
                obj([("gid", (*i).into()), ("verdict", m.verdict.into())])
            });
            println!("{}", Json::Arr(verdicts.collect()).print());
            return;
        }
        let num = |n: &str| arg(n).map_or(0, |s| s.parse::<u64>().expect("number"));
        let (seed, start, count, batches) = (num("--seed"), num("--start"), num("--count"), num("--batches"));
        let (part, parts) = (num("--part"), num("--parts").max(1));
        let mut meta = Vec::new();
        let mut by: Vec<Vec<(u64, Made)>> = (0..batches).map(|_| Vec::new()).collect();
        for gid in start..start + count {
            let b = (gid - start) % batches;
            if b % parts != part {
                continue;
            }
            if arg("--pairs").is_some() {
                if let Some(p) = pair(seed, gid) {
                    meta.push(obj([
                        ("gid", gid.into()),
                        ("batch", b.into()),
                        ("kind", p.how.into()),
                        ("strange", p.strange.into()),
                        ("texts", Json::Arr(p.texts.iter().map(|t| t.as_str().into()).collect())),
                        ("accepted", Json::Arr(p.codes.iter().map(|c| c.is_some().into()).collect())),
                    ]));
                    if let [Some(x), Some(y)] = p.codes {
                        let [s, t] = p.texts;
                        let kind = String::from("pair");
                        by[b as usize].push((2 * gid, Made { kind: kind.clone(), text: s, code: x, verdict: "pair" }));
                        by[b as usize].push((2 * gid + 1, Made { kind, text: t, code: y, verdict: "pair" }));
                    }
                }
                continue;
            }
            if let Some(m) = make(seed, gid) {
                meta.push(obj([
                    ("gid", gid.into()),
                    ("batch", b.into()),
                    ("kind", m.kind.as_str().into()),
                    ("verdict", m.verdict.into()),
                    ("text", m.text.as_str().into()),
                    ("code_bytes", m.code.len().into()),
                ]));
                by[b as usize].push((gid, m));
            }
        }
        for (k, items) in by.iter().enumerate() {
            if !items.is_empty() {
                write_batch(&out, k, items);
            }
        }
        println!("{}", Json::Arr(meta).print());
    })
    .unwrap()
    .join()
    .unwrap();
}
