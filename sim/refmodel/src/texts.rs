//! Grammar texts: a corpus, random ones, other spellings, and damage.
use dst::Rng;

use crate::gen;
use crate::syntax::Style;

pub const CORPUS: &[(&str, &str)] = &[
    ("sheep", include_str!("../../corpus/sheep.nb")),
    ("ratata", include_str!("../../corpus/ratata.nb")),
    ("regex", include_str!("../../corpus/regex.nb")),
    ("regex_fix", include_str!("../../corpus/regex_fix.nb")),
    ("arith", include_str!("../../corpus/arith.nb")),
    ("shared_open", include_str!("../../corpus/shared_open.nb")),
    ("wide_literals", include_str!("../../corpus/wide_literals.nb")),
    ("nullable_tail", include_str!("../../corpus/nullable_tail.nb")),
    ("church", include_str!("../../corpus/church.nb")),
    ("deep_fix", include_str!("../../corpus/deep_fix.nb")),
    ("shadow", include_str!("../../corpus/shadow.nb")),
    ("json", include_str!("../../corpus/json.nb")),
    ("nibble_exp", include_str!("../../corpus/nibble_exp.nb")),
];

/// Pieces of text: words, string literals, runs of white space, single characters.
pub fn pieces(text: &str) -> Vec<String> {
    let c: Vec<char> = text.chars().collect();
    let mut out = Vec::new();
    let mut p = 0;
    while p < c.len() {
        let s = p;
        let word = |x: char| x.is_alphanumeric() || x == '_';
        if word(c[p]) {
            while p < c.len() && word(c[p]) {
                p += 1;
            }
        } else if c[p].is_whitespace() {
            while p < c.len() && c[p].is_whitespace() {
                p += 1;
            }
        } else if c[p] == '"' {
            p += 1;
            while p < c.len() && c[p] != '"' {
                p += if c[p] == '\\' { 2 } else { 1 };
            }
            p = (p + 1).min(c.len());
        } else {
            p += 1;
        }
        out.push(c[s..p].iter().collect());
    }
    out
}

/// A grammar, often well typed: its text.
pub fn grammar(rng: &mut Rng, style: Style) -> String {
    if rng.chance(1, 12) {
        return rng.pick(&CORPUS[..11]).1.to_owned();
    }
    if rng.chance(1, 14) {
        return gen::wild(rng).print(style);
    }
    let mut p = gen::program(rng);
    for _ in 0..4 {
        if gen::usable(&p) {
            break;
        }
        p = gen::program(rng);
    }
    if rng.chance(1, 4) {
        gen::nudge(&mut p, rng);
    }
    p.print(style)
}

const COMMENTS: &[&str] = &[" // note\n", "/* x */", "/* let a /* in */ = \"*/\"; */", " /// doc\n", "/**/", "//\n"];
const BLANKS: &[&str] = &[" ", "  ", "\n", "\t", "\r\n", "\n\n", " \n ", "\u{b}", "\u{c}", "\u{85}", "\u{200e}", "\u{2028}"];

/// The same grammar written otherwise. `wild` spellings only the full token
/// syntax knows: comments, raw strings, hexadecimal escapes of anything.
pub fn respell(text: &str, rng: &mut Rng, wild: bool) -> String {
    let mut out = String::new();
    let rate = rng.range(2, 20);
    for p in pieces(text) {
        let first = p.chars().next().unwrap();
        let hit = rng.below(rate) == 0;
        if first.is_whitespace() {
            if hit && wild && rng.chance(1, 3) {
                out.push(' ');
                out.push_str(rng.pick(COMMENTS));
                out.push(' ');
            } else if hit {
                out.push_str(rng.pick(BLANKS));
                if rng.chance(1, 4) {
                    out.push_str(rng.pick(BLANKS));
                }
            } else {
                out.push_str(&p);
            }
        } else if first == '"' && hit && p.len() > 2 && p.ends_with('"') {
            let inner = &p[1..p.len() - 1];
            if wild && rng.chance(1, 3) && !inner.contains('\\') {
                out.push_str(&format!("r#\"{}\"#", inner));
                continue;
            }
            out.push('"');
            let mut esc = false;
            let mut brace = 0;
            for ch in inner.chars() {
                if esc {
                    out.push(ch);
                    esc = false;
                    brace = i32::from(ch == 'u') * 2;
                } else if brace > 0 {
                    out.push(ch);
                    if ch == '}' {
                        brace = 0;
                    }
                } else if ch == '\\' {
                    out.push(ch);
                    esc = true;
                } else if inner.contains("\\x") {
                    out.push(ch);
                } else {
                    match rng.below(4) {
                        0 if (ch as u32) < 0x80 => out.push_str(&format!("\\x{:02X}", ch as u32)),
                        1 => out.push_str(&format!("\\u{{{:x}}}", ch as u32)),
                        2 => out.push_str(&format!("\\u{{{:06X}}}", ch as u32)),
                        _ => out.push(ch),
                    }
                }
            }
            out.push('"');
        } else {
            out.push_str(&p);
            if "=|.;():!/".contains(&p) && hit {
                out.push_str(rng.pick(BLANKS));
            }
        }
    }
    out
}

const EDGES: &[&str] = &[
    "\\x00", "\\x01", "\\x09", "\\x0A", "\\x0d", "\\x1F", "\\x20", "\\x22", "\\x27", "\\x41", "\\x5C", "\\x7e", "\\x7F",
    "\\0", "\\'", "\\\"", "\\\\", "\\t", "\\r", "\\n", "\\u{0}", "\\u{000000}", "\\u{a}", "\\u{22}", "\\u{7F}", "\\u{80}",
    "\\u{0fF}", "\\u{100}", "\\u{D7FF}", "\\u{E000}", "\\u{fffd}", "\\u{FFFF}", "\\u{10000}", "\\u{10FFFF}", "\\u{0010ff}",
];
const BEYOND: &[&str] = &[
    "\\u{d800}", "\\u{DFFF}", "\\u{110000}", "\\u{FFFFFF}", "\\u{1234567}", "\\u{}", "\\u{1_0}", "\\x80", "\\x8", "\\xfF", "\\a", "\\U{41}",
    "\\x 1",
];

/// Escapes at the edges of what they can say, put into the string literals.
pub fn edges(text: &str, rng: &mut Rng) -> String {
    let p = pieces(text);
    let rate = rng.range(1, 6);
    let beyond = rng.chance(1, 4);
    let mut out = String::new();
    for (i, x) in p.iter().enumerate() {
        let raw = i > 0 && (p[i - 1] == "#" || p[i - 1] == "r");
        if !raw && x.len() > 1 && x.starts_with('"') && x.ends_with('"') && rng.below(rate) == 0 {
            let inner = &x[1..x.len() - 1];
            let mut esc = String::new();
            for _ in 0..rng.range(1, 2) {
                esc.push_str(if beyond && rng.chance(1, 8) { rng.pick(BEYOND) } else { rng.pick(EDGES) });
            }
            match rng.below(3) {
                0 => out.push_str(&format!("\"{}\"", esc)),
                1 => out.push_str(&format!("\"{}{}\"", esc, inner)),
                _ => out.push_str(&format!("\"{}{}\"", inner, esc)),
            }
        } else {
            out.push_str(x);
        }
    }
    out
}

/// The same grammar in a file of a few to a few hundred kilobytes.
pub fn bulk(text: &str, rng: &mut Rng, wild: bool) -> String {
    let size = *rng.pick(&[4_000, 8_180, 16_380, 32_760, 65_530, 65_530, 131_070, 200_000, 262_140, 400_000]) + rng.below(24);
    let mut v = pieces(text);
    let mut len = text.len();
    let (mut n, mut blanks) = (0, 0);
    let whole = wild && rng.chance(1, 4);
    while len < size {
        let most = if whole { size } else { 3000 };
        let k = rng.range(1, most).min(size - len).max(1);
        let gaps: Vec<usize> = (0..v.len()).filter(|&i| v[i].starts_with([' ', '\n'])).collect();
        let mut block = String::new();
        let at = match rng.below(3) {
            // each blank is a level of the self-hosted parser's stack
            0 if !gaps.is_empty() && (wild || blanks < 4) => {
                let k = k.min(3000);
                blanks += 1;
                block.extend(std::iter::repeat(*rng.pick(&[' ', '\n', '\t'])).take(k));
                gaps[rng.below(gaps.len())]
            }
            1 if wild && !gaps.is_empty() => {
                block.push_str("\n// ");
                block.extend(std::iter::repeat(*rng.pick(&['x', 'é', '漢', '"'])).take(k));
                block.push('\n');
                gaps[rng.below(gaps.len())]
            }
            _ => {
                let c = *rng.pick(&['a', 'q', '0', ' ', 'é', '🙂']);
                block.push_str(&format!("let pad_{} = \"", n));
                block.extend(std::iter::repeat(c).take(k));
                block.push_str("\";\n");
                n += 1;
                0
            }
        };
        len += block.len();
        v.insert(at, block);
    }
    v.concat()
}

const POOL: &[&str] = &[
    "let", "match", "_", "!", "/", ".", "|", ":", ";", "(", ")", "=", "\"\"", "\"a\"", "\"b\"", "x", "y", "self",
    "fn", "__", "1", "'", "#", "\"", "\\", "//", "/*", "r\"a\"", "'a'", "\u{e9}", "\"\u{e9}\"", "\u{0}", "{", "}", "[",
    ",", "b\"a\"", "\"\\u{d800}\"", "\"\\u{110000}\"", "\"\\x80\"", "\"\\q\"", "\"\\\n  a\"", "0x", "r#match", "Some",
    "\u{feff}", "/ /", "!!", "..", "\"a\"x", "c\"a\"", "cr#\"a\"#", "br\"a\"", "b'a'", "c'a'", "1.5e3", "1u8", "'l", "'static",
    "r##\"a\"##", "r#\"\"a\"\"#", "-1", "0b12", "1e", "\"a\"_", "$", "@", "~", "?", "%", "<-", "=>", "::", "#!", "\"\\u{1F_600}\"",
];

/// What a damaged disk, a cut transfer or a slip of the editor leaves.
/// Counts what was done in `did`.
pub fn damage(text: &str, other: &str, rng: &mut Rng, did: &mut Vec<&'static str>) -> String {
    let chars: Vec<char> = text.chars().collect();
    let join = |v: &[char]| v.iter().collect::<String>();
    if chars.is_empty() {
        return other.to_owned();
    }
    let n = chars.len();
    match rng.below(14) {
        0 => {
            did.push("text cut");
            join(&chars[..rng.below(n)])
        }
        1 => {
            did.push("range lost");
            let a = rng.below(n);
            let b = (a + rng.range(1, 12)).min(n);
            format!("{}{}", join(&chars[..a]), join(&chars[b..]))
        }
        2 => {
            did.push("range repeated");
            let a = rng.below(n);
            let b = (a + rng.range(1, 40)).min(n);
            format!("{}{}", join(&chars[..b]), join(&chars[a..]))
        }
        3 => {
            did.push("character damaged");
            let mut v = chars;
            let i = rng.below(n);
            v[i] = char::from_u32(v[i] as u32 ^ (1 << rng.below(8))).unwrap_or('?');
            join(&v)
        }
        4 | 5 => {
            let mut l: Vec<&str> = text.split_inclusive('\n').collect();
            let i = rng.below(l.len());
            match rng.below(4) {
                0 => {
                    did.push("line lost");
                    l.remove(i);
                }
                1 => {
                    did.push("line repeated");
                    let j = rng.below(l.len() + 1);
                    let x = l[i];
                    l.insert(j, x);
                }
                2 => {
                    did.push("lines swapped");
                    let j = rng.below(l.len());
                    l.swap(i, j);
                }
                _ => {
                    did.push("line from another text");
                    let o: Vec<&str> = other.split_inclusive('\n').collect();
                    if !o.is_empty() {
                        l.insert(i, *rng.pick(&o));
                    }
                }
            }
            l.concat()
        }
        6 => {
            // what ends some files, and begins others
            let x = *rng.pick(&["\0", "\0\0\0\0", "\u{1a}", "\u{feff}", "\u{4}", "\u{fffe}", "\r", "\n", "\u{2028}", ";", "\\", "_"]);
            if rng.chance(2, 3) {
                did.push("something at the end");
                format!("{}{}", text, x)
            } else {
                did.push("something at the beginning");
                format!("{}{}", x, text)
            }
        }
        _ => {
            let mut v = pieces(text);
            let solid: Vec<usize> = (0..v.len()).filter(|&i| !v[i].trim().is_empty()).collect();
            if solid.is_empty() {
                return rng.pick(POOL).to_string();
            }
            let i = *rng.pick(&solid);
            let j = *rng.pick(&solid);
            match rng.below(6) {
                0 => {
                    did.push("token lost");
                    v.remove(i);
                }
                1 => {
                    did.push("token repeated");
                    let x = v[i].clone();
                    v.insert(i, format!("{} ", x));
                }
                2 => {
                    did.push("tokens swapped");
                    v.swap(i, j);
                }
                3 => {
                    did.push("token replaced");
                    v[i] = v[j].clone();
                }
                4 => {
                    did.push("token replaced from the pool");
                    v[i] = rng.pick(POOL).to_string();
                }
                _ => {
                    did.push("token inserted");
                    let x = if rng.chance(1, 2) { v[j].clone() } else { rng.pick(POOL).to_string() };
                    v.insert(i, format!(" {} ", x));
                }
            }
            v.concat()
        }
    }
}

const NAMES: &[&str] = &[
    "fn", "match", "let", "self", "Self", "super", "crate", "type", "r", "b", "br", "c", "x", "X", "a_b", "aB", "A__b",
    "a0", "Z9_", "async", "dyn", "try", "union", "None", "Some", "Ast", "u", "n",
];

/// Every occurrence of one word becomes another word, or only one of them.
pub fn rename(text: &str, rng: &mut Rng) -> String {
    let mut v = pieces(text);
    let words: Vec<String> = v
        .iter()
        .filter(|w| w.starts_with(|c: char| c.is_ascii_alphabetic()) && *w != "let" && *w != "match")
        .cloned()
        .collect();
    if words.is_empty() {
        return text.to_owned();
    }
    let old = rng.pick(&words).clone();
    let mut new = rng.pick(NAMES).to_string();
    if rng.chance(1, 4) {
        for _ in 0..*rng.pick(&[14, 15, 16, 30, 31, 32, 62, 63, 64, 127, 128, 255, 256, 500, 1000, 5000]) {
            new.push(*rng.pick(&['a', 'z', 'A', '_', '0', '9']));
        }
    }
    let places: Vec<usize> = (0..v.len()).filter(|&i| v[i] == old).collect();
    let only = if rng.chance(1, 3) { Some(*rng.pick(&places)) } else { None };
    for i in places {
        if only.map_or(true, |o| o == i) {
            v[i] = new.clone();
        }
    }
    v.concat()
}
