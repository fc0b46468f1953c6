//! Reads `Debug` output of generated values and compares it with the
//! reference parse tree.
use refmodel::eval::Core;
use refmodel::gen::BRANCH;
use refmodel::machine::Tree;
use refmodel::Node;

#[derive(Debug)]
struct Shape {
    name: String,
    kids: Vec<Shape>,
}

fn parse(c: &[char], p: &mut usize) -> Option<Shape> {
    let s = *p;
    while *p < c.len() && (c[*p].is_alphanumeric() || c[*p] == '_' || c[*p] == '#') {
        *p += 1;
    }
    if s == *p {
        return None;
    }
    let name: String = c[s..*p].iter().collect();
    let mut kids = Vec::new();
    let skip = |p: &mut usize| {
        while c.get(*p) == Some(&' ') {
            *p += 1;
        }
    };
    if c.get(*p) == Some(&'(') {
        *p += 1;
        loop {
            skip(p);
            if c.get(*p) == Some(&')') {
                *p += 1;
                break;
            }
            kids.push(parse(c, p)?);
            skip(p);
            if c.get(*p) == Some(&',') {
                *p += 1;
            }
        }
    } else if c.get(*p) == Some(&' ') && c.get(*p + 1) == Some(&'{') {
        *p += 2;
        loop {
            skip(p);
            if c.get(*p) == Some(&'}') {
                *p += 1;
                break;
            }
            while *p < c.len() && c[*p] != ':' {
                *p += 1;
            }
            *p += 1;
            skip(p);
            kids.push(parse(c, p)?);
            skip(p);
            if c.get(*p) == Some(&',') {
                *p += 1;
            }
        }
    }
    Some(Shape { name, kids })
}

fn position(name: &str) -> Option<usize> {
    let bare = name.trim_end_matches(|c: char| c.is_ascii_digit());
    if bare == "Branch" {
        return name[bare.len()..].parse::<usize>().ok()?.checked_sub(1);
    }
    BRANCH.iter().position(|b| *b == bare)
}

/// Do the labels of a grammar say which alternative they belong to?
pub fn positional(core: &Core) -> bool {
    core.nodes.iter().all(|n| match n {
        Node::Alt(v) => v.iter().enumerate().all(|(i, (_, l))| match l {
            Some(l) => BRANCH.iter().position(|b| b == l) == Some(i),
            None => true,
        }),
        _ => true,
    })
}

fn same(t: &Tree, s: &Shape, path: &str) -> Result<(), String> {
    match t {
        Tree::Leaf(_) => {
            if s.kids.is_empty() {
                Ok(())
            } else {
                Err(format!("{}: a literal has parts", path))
            }
        }
        Tree::Seq(v) => {
            if v.len() != s.kids.len() {
                return Err(format!("{}: {} parts instead of {}", path, s.kids.len(), v.len()));
            }
            v.iter().zip(&s.kids).enumerate().try_for_each(|(i, (t, s))| same(t, s, &format!("{}.{}", path, i)))
        }
        Tree::Choice(i, label, inner) => {
            if s.kids.len() != 1 {
                return Err(format!("{}: an alternative has {} parts", path, s.kids.len()));
            }
            // equal alternations share one type whatever their labels, so only
            // the position the recorded name stands for counts
            if let Some(k) = position(&s.name) {
                if k != *i {
                    return Err(format!("{}: took alternative {} ({:?}), recorded as {}", path, i, label, s.name));
                }
            }
            same(inner, &s.kids[0], &format!("{}|{}", path, i))
        }
    }
}

/// `debug` was printed for the value `tree` describes.
pub fn compare(tree: &Tree, debug: &str) -> Result<(), String> {
    let c: Vec<char> = debug.chars().collect();
    let mut p = 0;
    match parse(&c, &mut p) {
        // not a shape this reader knows: nothing to say
        None => Ok(()),
        Some(s) if p == c.len() => same(tree, &s, ""),
        Some(_) => Ok(()),
    }
}
