//! Macro invocations in one compiler process: a history of grammars, good and
//! bad, expanded one after another, under hash seeds of the simulator. Each
//! must become what the command makes of its text.
use std::collections::BTreeMap;
use std::fs;
use std::os::unix::process::CommandExt;
use std::process::{Command, Stdio};
use std::str::FromStr;

use dst::json::obj;
use dst::report::{Outcome, Sim, Stats};
use dst::rng::derive;
use dst::{Fnv, Json, Rng};
use proc_macro2::{TokenStream, TokenTree};
use refmodel::syntax::Style;
use refmodel::text::{read, verdict, Read, Verdict};
use refmodel::{alpha, blame, gen, texts};

extern "C" {
    fn personality(p: u64) -> i32;
    fn alarm(s: u32) -> u32;
}

struct Macros {
    dir: String,
    rustc: String,
    /// The texts of past runs, expanded without the macro.
    known: BTreeMap<String, u64>,
}

/// What rustc says of one file.
struct Said {
    text: String,
    /// (message, first line, last line, first byte, last byte)
    errors: Vec<(String, usize, usize, usize, usize)>,
    died: Option<String>,
}

/// Can this text stand between the braces of an invocation? Only then does the
/// compiler hand it to the macro.
fn placeable(text: &str) -> bool {
    // what only the fallback lexer takes for white space
    let odd = |c: char| c.is_whitespace() && !"\t\n\u{b}\u{c}\r \u{85}\u{2028}\u{2029}".contains(c);
    !text.contains('$')
        && !text.contains(odd)
        && !text.starts_with("#!")
        && read(text) != Read::Unsupported
        && TokenStream::from_str(text).is_ok_and(|t| !c_string(t))
}

/// A name and a string to the edition the files are compiled in.
fn c_string(ts: TokenStream) -> bool {
    ts.into_iter().any(|t| match t {
        TokenTree::Group(g) => c_string(g.stream()),
        TokenTree::Literal(l) => l.to_string().starts_with('c'),
        _ => false,
    })
}

/// What the command makes of a text; nothing if it crashes.
fn command(text: &str) -> Option<Result<String, String>> {
    std::panic::catch_unwind(|| pipeline::compile(text)).ok()
}

fn literal(l: &proc_macro2::Literal) -> String {
    match syn::Lit::new(l.clone()) {
        syn::Lit::Str(s) => format!("{:?}", s.value()),
        syn::Lit::Char(c) => format!("{:?}", c.value()),
        _ => l.to_string(),
    }
}

fn tokens(ts: TokenStream, out: &mut String) {
    for t in ts {
        match t {
            TokenTree::Group(g) => {
                out.push_str(match g.delimiter() {
                    proc_macro2::Delimiter::Parenthesis => "( ",
                    proc_macro2::Delimiter::Brace => "{ ",
                    proc_macro2::Delimiter::Bracket => "[ ",
                    proc_macro2::Delimiter::None => "",
                });
                tokens(g.stream(), out);
                out.push_str(") ");
            }
            TokenTree::Literal(l) => {
                out.push_str(&literal(&l));
                out.push(' ');
            }
            TokenTree::Ident(i) => {
                out.push_str(&i.to_string());
                out.push(' ');
            }
            TokenTree::Punct(p) => out.push(p.as_char()),
        }
    }
}

/// The contents of the modules m0, m1, ... of an expanded file.
fn modules(text: &str) -> Result<BTreeMap<usize, String>, String> {
    let ts = TokenStream::from_str(text).map_err(|e| e.to_string())?;
    let mut out = BTreeMap::new();
    let mut last: Option<usize> = None;
    let mut after_mod = false;
    for t in ts {
        match t {
            TokenTree::Ident(i) => {
                let s = i.to_string();
                last = if after_mod { s.strip_prefix('m').and_then(|n| n.parse().ok()) } else { None };
                after_mod = s == "mod";
            }
            TokenTree::Group(g) => {
                if let Some(n) = last.take() {
                    let mut s = String::new();
                    tokens(g.stream(), &mut s);
                    out.insert(n, s);
                }
                after_mod = false;
            }
            _ => {
                last = None;
                after_mod = false;
            }
        }
    }
    Ok(out)
}

fn errors(stderr: &str) -> Vec<(String, usize, usize, usize, usize)> {
    let mut out = Vec::new();
    for l in stderr.lines().filter(|l| l.starts_with('{')) {
        let m = match Json::parse(l) {
            Ok(m) => m,
            Err(_) => continue,
        };
        if m.at("level").str() != "error" || m.at("message").str().starts_with("aborting due to") {
            continue;
        }
        let spans = m.at("spans").arr();
        let primary = spans.iter().find(|s| s.at("is_primary").bool());
        let at = |k: &str| primary.map_or(0, |s| s.at(k).usize());
        out.push((
            m.at("message").str().to_owned(),
            at("line_start"),
            at("line_end"),
            at("byte_start"),
            at("byte_end"),
        ));
    }
    out
}

impl Macros {
    fn expand(&self, source: &str, world: &Json) -> Said {
        self.rustc(source, world, true)
    }

    fn rustc(&self, source: &str, world: &Json, expand: bool) -> Said {
        let file = format!("{}/lib.rs", self.dir);
        fs::write(&file, source).expect("source");
        let var = |n: &str| std::env::var(n).unwrap_or_else(|_| panic!("{} is not set", n));
        let mut c = Command::new(&self.rustc);
        let edition = match world.at("edition").usize() {
            0 => 2018,
            n => n,
        };
        c.arg(format!("--edition={}", edition)).args(["--crate-type=lib", "--error-format=json", "-Adead_code"])
            .arg(if expand { "-Zunpretty=expanded" } else { "--emit=metadata" })
            .arg("--out-dir")
            .arg(&self.dir)
            .arg("--extern")
            .arg(format!("chomp_macro={}", var("MACROSIM_SO")))
            .arg("--extern")
            .arg(format!("chewed={}", var("MACROSIM_CHEWED")))
            .arg(&file)
            .env_clear()
            .env("RUSTC_BOOTSTRAP", "1")
            .env("PATH", "/usr/bin:/bin")
            .env("RUST_MIN_STACK", "67108864")
            .env("LD_PRELOAD", var("MACROSIM_SHIM"))
            .env("MACROSIM_RANDOM", world.at("random").int().to_string())
            .env("PADDING", "x".repeat(world.at("padding").usize()))
            .current_dir(if world.at("elsewhere").bool() { "/" } else { &self.dir })
            .stdin(Stdio::null())
            .stdout(Stdio::piped())
            .stderr(Stdio::piped());
        unsafe {
            c.pre_exec(|| {
                personality(0x0040000);
                alarm(100);
                Ok(())
            });
        }
        let o = c.output().expect("rustc");
        use std::os::unix::process::ExitStatusExt;
        let err = String::from_utf8_lossy(&o.stderr).into_owned();
        Said {
            text: String::from_utf8_lossy(&o.stdout).into_owned(),
            errors: errors(&err),
            died: o.status.signal().map(|s| format!("signal {}", s)).or_else(|| {
                if err.contains("compiler unexpectedly panicked") {
                    Some("the compiler panicked".into())
                } else {
                    None
                }
            }),
        }
    }
}

fn cut(s: &str) -> String {
    s.chars().take(300).collect()
}

/// Grammars with awkward names, next to one another in one crate (C17).
fn building(seed: u64, index: u64) -> Json {
    let mut rng = Rng::new(derive(seed, &[0x3ac17, index]));
    let n = rng.range(2, 8);
    let mut list: Vec<Json> = Vec::new();
    let spoilt = rng.chance(1, 10);
    while list.len() < n {
        let mut p = gen::program(&mut rng);
        for _ in 0..30 {
            if gen::usable(&p) {
                break;
            }
            p = gen::program(&mut rng);
        }
        if rng.chance(9, 10) {
            p = match alpha::awkward(&p, &mut rng) {
                Some(q) => q,
                None => continue,
            };
        }
        let mut t = p.print(Style::Raw);
        let mut did = Vec::new();
        if spoilt && rng.chance(1, 3) {
            t = texts::damage(&t, "", &mut rng, &mut did);
        }
        if t.len() > 4000 || !placeable(&t) || verdict(&t) == Verdict::Unknown {
            continue;
        }
        list.push(obj([
            ("text", t.into()),
            ("damage", Json::Arr(did.into_iter().map(Into::into).collect())),
            ("place", rng.below(8).into()),
        ]));
    }
    obj([
        ("sim", "builds".into()),
        // later editions know other tokens
        ("edition", (if spoilt { 2018 } else { *rng.pick(&[2018i64, 2018, 2021, 2024]) }).into()),
        ("random", (rng.next() as i64 & 0xffff_ffff).into()),
        ("padding", (if rng.chance(1, 2) { rng.below(3000) } else { 0 }).into()),
        ("elsewhere", rng.chance(1, 3).into()),
        ("invocations", Json::Arr(list)),
    ])
}

impl Macros {
    fn build(&mut self, sc: &Json, stats: &mut Stats) -> Outcome {
        let mut o = Outcome::default();
        let mut source = String::from("#![allow(warnings)]\n");
        let mut parts: Vec<(String, bool, usize, usize)> = Vec::new();
        let mut order = Fnv::default();
        for (i, inv) in sc.at("invocations").arr().iter().enumerate() {
            let t = inv.at("text").str();
            if inv.at("place").usize() < 6 && !placeable(t) {
                continue;
            }
            for d in inv.at("damage").arr() {
                stats.count(&format!("fault:{}", d.str()));
            }
            let code = match command(t) {
                Some(c) => c,
                None if verdict(t) == Verdict::Accept => {
                    o.fail("C17", "crash", format!("the generator crashes on {:?}", cut(t)));
                    return o;
                }
                None => continue,
            };
            let first = source.matches('\n').count() + 1;
            let used = "const _: fn(&str) -> bool = |s| <Ast as ::chewed::Parse>::parse_str(s).is_ok();";
            match inv.at("place").usize() {
                0 => source.push_str(&format!("mod m{} {{\nchomp_macro::nibble! {{\n{}\n}}\n", i, t)),
                1 => source.push_str(&format!("mod m{} {{\nuse chomp_macro::nibble;\nnibble!({}\n);\n", i, t)),
                2 => source.push_str(&format!("mod m{} {{ ::chomp_macro::nibble![ {}\n];\n", i, t)),
                3 => source.push_str(&format!("mod m{} {{ pub mod deeper {{ use chomp_macro::nibble as other; other! {{ {}\n}} }} use deeper::Ast;\n", i, t)),
                4 => source.push_str(&format!("fn f{}() {{ chomp_macro::nibble! {{ {}\n}}\n", i, t)),
                5 => source.push_str(&format!("trait T{} {{ fn f() {{ chomp_macro::nibble! ( {}\n);\n", i, t)),
                _ => match &code {
                    Ok(c) => source.push_str(&format!("mod m{} {{\n{}\n", i, c)),
                    Err(_) => continue,
                },
            }
            if code.is_ok() {
                source.push_str(used);
            }
            source.push_str(if inv.at("place").usize() == 5 { "\n}}\n" } else { "\n}\n" });
            order.num(dst::hash_str(t));
            stats.state(dst::hash_str(t));
            stats.count(if code.is_ok() { "grammars to build" } else { "refused neighbours" });
            parts.push((t.to_owned(), code.is_ok(), first, source.matches('\n').count()));
        }
        let s = self.rustc(&source, sc, false);
        stats.count("compiler processes");
        let mut log = Fnv::default();
        if let Some(d) = &s.died {
            o.fail("C17", "died", format!("the compiler died: {}", d));
            return o;
        }
        for e in &s.errors {
            log.str(&e.0);
        }
        let none = !parts.iter().any(|p| !p.1);
        stats.count(if s.errors.is_empty() { "outcome:builds" } else { "outcome:errors" });
        for (msg, first, last, ..) in &s.errors {
            match parts.iter().find(|p| *first >= p.2 && *last <= p.3) {
                Some((t, true, ..)) => {
                    o.fail("C17", "does not build", format!("the code for {:?} does not compile: {}", cut(t), msg))
                }
                Some(_) => {}
                // an error without a place
                None if none => o.fail("C17", "does not build", format!("the code does not compile: {}", msg)),
                None => {}
            }
        }
        stats.schedules.insert(order.0);
        o.log = log;
        o
    }
}

/// The text of a grammar, spaced at random, and where its faults are.
fn blamed(inv: &Json) -> Option<blame::Blame> {
    let p = match read(inv.at("text").str()) {
        Read::Ok(p) => p,
        _ => return None,
    };
    let mut rng = Rng::new(inv.at("gaps").int() as u64);
    let plain = inv.at("gaps").int() % 2 == 0;
    let mut gap = || {
        if plain {
            return " ";
        }
        *rng.pick(&[" ", " ", " ", " ", "  ", "\n", " /* \u{e9} */ ", " // n\n", "\t", "\r\n", "\n\n\t"])
    };
    blame::blame(&p, &mut gap)
}

/// Grammars that break rules, next to good ones (C18).
fn blaming(seed: u64, index: u64) -> Json {
    let mut rng = Rng::new(derive(seed, &[0x3ac18, index]));
    let n = rng.range(4, 12);
    let mut list: Vec<Json> = Vec::new();
    while list.len() < n {
        // the same grammar may come twice
        let t = if !list.is_empty() && rng.chance(1, 8) {
            rng.pick(&list).at("text").str().to_owned()
        } else if rng.chance(1, 5) {
            let t = texts::grammar(&mut rng, Style::Raw);
            let mut did = Vec::new();
            texts::damage(&t, "", &mut rng, &mut did)
        } else {
            let mut p = gen::program(&mut rng);
            if rng.chance(1, 4) {
                gen::recur(&mut p, &mut rng);
            }
            for _ in 0..rng.range(0, 3) {
                gen::nudge(&mut p, &mut rng);
            }
            if rng.chance(1, 4) {
                p = gen::dress(&p, &mut rng);
            }
            p.print(Style::Raw)
        };
        let inv = obj([
            ("text", t.clone().into()),
            ("gaps", (rng.below(1 << 30) as i64).into()),
            ("place", rng.below(4).into()),
        ]);
        if t.len() > 3000 || !placeable(&t) {
            continue;
        }
        match blamed(&inv) {
            None => continue,
            Some(b) if b.places.is_empty() && rng.chance(4, 5) => continue,
            Some(b) if b.places.iter().any(|p| matches!(p.1, blame::Rule::Undeclared(_))) && rng.chance(5, 6) => continue,
            Some(_) => list.push(inv),
        }
    }
    obj([
        ("sim", "blame".into()),
        ("random", (rng.next() as i64 & 0xffff_ffff).into()),
        ("padding", (if rng.chance(1, 2) { rng.below(3000) } else { 0 }).into()),
        ("elsewhere", rng.chance(1, 3).into()),
        ("invocations", Json::Arr(list)),
    ])
}

impl Macros {
    fn blame(&mut self, sc: &Json, stats: &mut Stats) -> Outcome {
        let mut o = Outcome::default();
        let mut source = String::from("#![allow(warnings)]\n");
        let mut parts: Vec<(blame::Blame, usize)> = Vec::new();
        let mut order = Fnv::default();
        for (i, inv) in sc.at("invocations").arr().iter().enumerate() {
            let b = match blamed(inv) {
                Some(b) if placeable(&b.text) => b,
                _ => continue,
            };
            source.push_str(match inv.at("place").usize() {
                0 => "mod m# { chomp_macro::nibble! {",
                1 => "mod m# {\nuse chomp_macro::nibble;\nnibble!(",
                2 => "mod m# { ::chomp_macro::nibble![",
                _ => "mod m# { use chomp_macro::nibble as other; /* \u{e9} */ other! {",
            }.replace('#', &i.to_string()).as_str());
            let at = source.len();
            source.push_str(&b.text);
            source.push_str(match inv.at("place").usize() {
                0 | 3 => "} }\n",
                1 => "); }\n",
                _ => "]; }\n",
            });
            order.num(dst::hash_str(&b.text));
            stats.state(dst::hash_str(&b.text));
            parts.push((b, at));
        }
        let s = self.rustc(&source, sc, true);
        stats.count("compiler processes");
        let mut log = Fnv::default();
        if let Some(d) = &s.died {
            o.fail("C18", "died", format!("the compiler died: {}", d));
            return o;
        }
        for (b, at) in &parts {
            let rules: std::collections::BTreeSet<_> = b.places.iter().map(|p| format!("rule:{}", p.1.title())).collect();
            let m = match (command(&b.text).unwrap_or_else(|| Ok(String::new())), b.places.is_empty()) {
                (Ok(_), true) => {
                    stats.count("outcome:in order");
                    continue;
                }
                (Err(m), false) => m,
                // whether it is accepted is judged elsewhere (C10)
                _ => {
                    stats.count("outcome:not judged");
                    continue;
                }
            };
            // with what message is judged elsewhere (C19)
            let said = s.errors.iter().find(|e| e.0 == m && e.3 + 1 >= *at && e.4 <= at + b.text.len() + 2);
            let e = match said {
                Some(e) => e,
                None => {
                    let around = |e: &&(String, usize, usize, usize, usize)| e.0 == m && e.3 < *at && e.4 > at + b.text.len();
                    if let Some(e) = s.errors.iter().find(around) {
                        let d = format!("{:?}: {:?} points at all of {:?}", cut(&b.text), m, cut(&source[e.3..e.4]));
                        o.fail("C18", "points at no place", d);
                    }
                    stats.count("outcome:not said");
                    continue;
                }
            };
            log.str(&e.0);
            log.num((e.3 - at) as u64);
            stats.count(if b.places.len() == 1 { "outcome:points, one place is right" } else { "outcome:points" });
            for r in &rules {
                stats.count(r);
            }
            let here: Vec<_> = b.places.iter().filter(|p| p.0 .0 + at == e.3).collect();
            if !here.is_empty() && !here.iter().any(|p| p.1.named_by(&m)) {
                let rules: Vec<_> = here.iter().map(|p| &p.1).collect();
                let d = format!("{:?}: at byte {} {:?} is broken, the message is {:?}", cut(&b.text), e.3 - at, rules, m);
                o.fail("C18", "names another rule", d);
            }
            if here.is_empty() {
                let there: String = source[e.3..].chars().take(30).collect();
                let right: Vec<String> = b
                    .places
                    .iter()
                    .take(6)
                    .map(|p| format!("{:?} at {}: {:?}", p.1, p.0 .0, cut(&b.text[p.0 .0..p.0 .1])))
                    .collect();
                o.fail(
                    "C18",
                    "points elsewhere",
                    format!(
                        "{:?}: {:?} points at byte {} ({:?}), the faults are {:?}",
                        cut(&b.text), m, e.3 as i64 - *at as i64, there, right
                    ),
                );
            }
        }
        stats.schedules.insert(order.0);
        o.log = log;
        o
    }
}

impl Sim for Macros {
    fn scenario(&mut self, property: &str, seed: u64, index: u64) -> Json {
        match property {
            "C17" => return building(seed, index),
            "C18" => return blaming(seed, index),
            _ => {}
        }
        let mut rng = Rng::new(derive(seed, &[0x3ac0, index]));
        let n = if rng.chance(1, 12) { rng.range(12, 40) } else { rng.range(1, 9) };
        let mut list: Vec<Json> = Vec::new();
        let mut texts: Vec<String> = Vec::new();
        while list.len() < n {
            let mut t = if !texts.is_empty() && rng.chance(1, 3) {
                rng.pick(&texts).clone()
            } else {
                {
                let style = if rng.chance(2, 3) { Style::Raw } else { Style::Ascii };
                texts::grammar(&mut rng, style)
            }
            };
            if t.len() > 4000 {
                continue;
            }
            let mut did = Vec::new();
            if rng.chance(1, 4) {
                let wild = rng.chance(1, 2);
                t = texts::respell(&t, &mut rng, wild);
            }
            if rng.chance(1, 8) {
                let e = texts::edges(&t, &mut rng);
                if placeable(&e) {
                    t = e;
                }
            }
            if rng.chance(1, 6) {
                t = texts::rename(&t, &mut rng);
            }
            let other = texts.last().cloned().unwrap_or_default();
            if rng.chance(2, 5) {
                for _ in 0..rng.range(1, 2) {
                    let d = texts::damage(&t, &other, &mut rng, &mut did);
                    if placeable(&d) {
                        t = d;
                    }
                }
            }
            if !placeable(&t) || verdict(&t) == Verdict::Unknown {
                continue;
            }
            texts.push(t.clone());
            list.push(obj([
                ("text", t.into()),
                ("damage", Json::Arr(did.into_iter().map(Into::into).collect())),
                ("place", rng.below(4).into()),
            ]));
        }
        obj([
            ("sim", "macros".into()),
            ("random", (rng.next() as i64 & 0xffff_ffff).into()),
            ("padding", (if rng.chance(1, 2) { rng.below(3000) } else { 0 }).into()),
            ("elsewhere", rng.chance(1, 3).into()),
            ("invocations", Json::Arr(list)),
        ])
    }

    fn run(&mut self, property: &str, sc: &Json, stats: &mut Stats) -> Outcome {
        match property {
            "C17" => return self.build(sc, stats),
            "C18" => return self.blame(sc, stats),
            _ => {}
        }
        let mut o = Outcome::default();
        let texts: Vec<&str> = sc.at("invocations").arr().iter().map(|i| i.at("text").str()).collect();
        let texts: Vec<&str> = texts.into_iter().filter(|t| placeable(t)).collect();
        let places: Vec<usize> = sc.at("invocations").arr().iter().map(|i| i.at("place").usize()).collect();
        let want: Vec<Option<Result<String, String>>> = texts.iter().map(|t| command(t)).collect();

        // the command's code, expanded as it stands
        let mut plain = String::from("#![allow(warnings)]\n");
        let mut missing = false;
        for (i, w) in want.iter().enumerate() {
            if let Some(Ok(code)) = w {
                if !self.known.contains_key(code) {
                    plain.push_str(&format!("mod m{} {{\n{}\n}}\n", i, code));
                    missing = true;
                }
            }
        }
        let hash = |s: &str| dst::hash_str(s);
        if missing {
            let p = self.expand(&plain, &Json::parse("{\"random\":1,\"padding\":0}").unwrap());
            if let Some(d) = &p.died {
                panic!("reference expansion: {}", d);
            }
            let m = modules(&p.text).unwrap_or_else(|e| panic!("reference expansion: {}", e));
            for (i, s) in &m {
                if let Some(Ok(code)) = &want[*i] {
                    self.known.insert(code.clone(), hash(s));
                }
            }
        }
        if self.known.len() > 20_000 {
            self.known.clear();
        }

        let mut source = String::from("#![allow(warnings)]\n");
        let mut lines = Vec::new();
        for (i, t) in texts.iter().enumerate() {
            let first = source.matches('\n').count() + 1;
            let from = source.len();
            let place = places.get(i).copied().unwrap_or(0);
            let s = match place {
                0 => format!("mod m{} {{\nchomp_macro::nibble! {{\n{}\n}}\n}}\n", i, t),
                1 => format!("mod m{} {{\nuse chomp_macro::nibble;\nnibble!({}\n);\n}}\n", i, t),
                2 => format!("mod m{} {{ ::chomp_macro::nibble![ {}\n]; }}\n", i, t),
                _ => format!("mod m{} {{ use chomp_macro::nibble as other; other! {{ {}\n}} }}\n", i, t),
            };
            source.push_str(&s);
            lines.push((first, source.matches('\n').count(), from, source.len()));
        }
        let s = self.expand(&source, sc);
        let mut log = Fnv::default();
        stats.count("compiler processes");
        if let Some(d) = &s.died {
            o.fail(property, "died", format!("the compiler died expanding the macro: {}", d));
            return o;
        }
        let got = match modules(&s.text) {
            Ok(m) => m,
            Err(e) => {
                o.fail(property, "unreadable", format!("the expansion is not readable: {}", e));
                return o;
            }
        };
        for i in sc.at("invocations").arr() {
            for d in i.at("damage").arr() {
                stats.count(&format!("fault:{}", d.str()));
            }
        }
        let mut order = Fnv::default();
        for (i, w) in want.iter().enumerate() {
            stats.count("invocations");
            let (first, last, from, to) = lines[i];
            let here: Vec<_> = s
                .errors
                .iter()
                .filter(|e| e.1 >= first && e.2 <= last && e.3 >= from && e.4 <= to)
                .collect();
            log.num(here.len() as u64);
            for e in &here {
                log.str(&e.0);
            }
            let body = got.get(&i).cloned().unwrap_or_default();
            log.str(&body);
            stats.state(dst::hash_str(texts[i]));
            order.num(dst::hash_str(texts[i]));
            match w {
                // a crash has no message of its own
                None => stats.count("outcome:the command crashes"),
                Some(Ok(code)) => {
                    stats.count("outcome:expands to the command's code");
                    let text = match places.get(i).copied().unwrap_or(0) {
                        1 | 3 => strip_use(&body),
                        _ => body,
                    };
                    // errors of later passes (names, types) are not the macro's
                    if Some(&hash(&text)) != self.known.get(code) {
                        let said = here.first().map_or(String::new(), |e| format!("; the compiler says {:?}", e.0));
                        o.fail(
                            property,
                            "other code",
                            format!(
                                "invocation {} of {:?} does not expand to the command's code{}: {}",
                                i,
                                cut(texts[i]),
                                said,
                                cut(&text)
                            ),
                        );
                    }
                }
                Some(Err(m)) => {
                    stats.count("outcome:the command's error");
                    if !here.iter().any(|e| e.0 == *m) {
                        let all: Vec<_> = here.iter().map(|e| e.0.clone()).collect();
                        let elsewhere = s.errors.iter().any(|e| e.0 == *m);
                        o.fail(
                            property,
                            "other error",
                            format!(
                                "invocation {} of {:?}: the command says {:?}, the compiler says {:?} there{}",
                                i,
                                cut(texts[i]),
                                m,
                                all,
                                if elsewhere { " (but says it elsewhere)" } else { "" }
                            ),
                        );
                    }
                }
            }
        }
        stats.schedules.insert(order.0);
        o.log = log;
        o
    }
}

/// Without the `use` that some modules start with.
fn strip_use(body: &str) -> String {
    match body.find(';') {
        Some(i) => body[i + 1..].to_owned(),
        None => body.to_owned(),
    }
}

fn main() {
    let dir = std::env::temp_dir().join(format!("macrosim-{}", std::process::id()));
    fs::create_dir_all(&dir).expect("scratch");
    let rustc = std::env::var("MACROSIM_RUSTC").unwrap_or_else(|_| "rustc".into());
    let mut m = Macros { dir: dir.to_str().unwrap().to_owned(), rustc, known: BTreeMap::new() };
    let t = std::thread::Builder::new().stack_size(256 << 20);
    let d = dir.clone();
    let r = t.spawn(move || dst::report::main(&mut m)).unwrap().join();
    let _ = fs::remove_dir_all(&d);
    if r.is_err() {
        std::process::exit(101);
    }
}
