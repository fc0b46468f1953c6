//! Arithmetic: a reference evaluator and a generator.
use dst::Rng;

#[derive(Clone, Debug, PartialEq)]
pub enum Verdict {
    Value(i64),
    Reject,
    /// Overflow, division by zero: not judged.
    Outside,
}

struct Stack {
    vals: Vec<Option<i64>>,
    ops: Vec<char>,
    outside: bool,
}

impl Stack {
    fn fold(&mut self) {
        let op = self.ops.pop().expect("operator");
        let b = self.vals.pop().expect("value");
        let a = self.vals.pop().expect("value");
        let r = match (a, b) {
            (Some(a), Some(b)) => match op {
                '+' => a.checked_add(b),
                '-' => a.checked_sub(b),
                '*' => a.checked_mul(b),
                _ => a.checked_div(b),
            },
            _ => None,
        };
        self.outside |= r.is_none();
        self.vals.push(r);
    }
    fn fold_while(&mut self, level: u8) {
        while self.ops.last().map_or(false, |&o| o != '(' && rank(o) >= level) {
            self.fold();
        }
    }
}

fn rank(op: char) -> u8 {
    u8::from(matches!(op, '*' | '/')) + 1
}

/// Two stacks, one pass.
pub fn evaluate(text: &[char]) -> Verdict {
    let mut s = Stack { vals: Vec::new(), ops: Vec::new(), outside: false };
    let mut p = 0;
    let mut operand = true;
    let mut good = true;
    let number = |p: &mut usize| -> Option<Option<i64>> {
        let from = *p;
        let mut v = Some(0_i64);
        while let Some(d) = text.get(*p).and_then(|c| if c.is_ascii() { c.to_digit(10) } else { None }) {
            v = v.and_then(|v| v.checked_mul(10)).and_then(|v| v.checked_add(i64::from(d)));
            *p += 1;
        }
        if *p == from {
            None
        } else {
            Some(v)
        }
    };
    while p < text.len() {
        let c = text[p];
        if c == ' ' {
            p += 1;
        } else if operand {
            let negative = c == '-';
            if c == '(' {
                s.ops.push('(');
                p += 1;
                continue;
            }
            if negative {
                p += 1;
                while text.get(p) == Some(&' ') {
                    p += 1;
                }
            }
            match number(&mut p) {
                Some(v) => {
                    s.outside |= v.is_none();
                    s.vals.push(if negative { v.map(|v| -v) } else { v });
                    operand = false;
                }
                None => {
                    good = false;
                    break;
                }
            }
        } else if c == ')' {
            s.fold_while(1);
            if s.ops.pop() != Some('(') {
                good = false;
                break;
            }
            p += 1;
        } else if matches!(c, '+' | '-' | '*' | '/') {
            s.fold_while(rank(c));
            s.ops.push(c);
            operand = true;
            p += 1;
        } else {
            good = false;
            break;
        }
    }
    if operand {
        good = false;
        // an operator with nothing after it
        while s.ops.last() == Some(&'(') {
            s.ops.pop();
        }
        s.ops.pop();
    }
    // what was complete before the end may have been computed
    while let Some(&o) = s.ops.last() {
        if o == '(' {
            good = false;
            s.ops.pop();
        } else if s.vals.len() >= 2 {
            s.fold();
        } else {
            good = false;
            break;
        }
    }
    match (s.outside, good, s.vals.last()) {
        (true, _, _) => Verdict::Outside,
        (_, true, Some(Some(v))) if s.vals.len() == 1 => Verdict::Value(*v),
        _ => Verdict::Reject,
    }
}

fn spaces(rng: &mut Rng, lots: bool, out: &mut String) {
    let n = if lots { rng.below(4) } else { usize::from(rng.chance(1, 6)) };
    let n = if n == 3 && rng.chance(1, 60) { rng.below(400) } else { n };
    for _ in 0..n {
        out.push(' ');
    }
}

fn number(rng: &mut Rng, out: &mut String) {
    if rng.chance(1, 12) {
        let n = if rng.chance(1, 12) { rng.below(300) } else { rng.below(3) };
        for _ in 0..n {
            out.push('0');
        }
    }
    let n = match rng.below(20) {
        0 => rng.next() as i64 & i64::MAX,
        1 => i64::MAX - rng.below(3) as i64,
        2..=4 => rng.below(100_000) as i64,
        _ => rng.below(12) as i64,
    };
    out.push_str(&n.to_string());
}

fn term(rng: &mut Rng, budget: &mut usize, depth: usize, lots: bool, out: &mut String) {
    if depth > 0 && *budget > 0 && rng.chance(2, 5) {
        out.push('(');
        spaces(rng, lots, out);
        expr(rng, budget, depth - 1, lots, out);
        out.push(')');
    } else {
        if rng.chance(1, 5) {
            out.push('-');
            spaces(rng, lots, out);
        }
        number(rng, out);
    }
    spaces(rng, lots, out);
}

fn expr(rng: &mut Rng, budget: &mut usize, depth: usize, lots: bool, out: &mut String) {
    term(rng, budget, depth, lots, out);
    let more = match rng.below(4) {
        0 => 0,
        1 => 1,
        _ => rng.below(6),
    };
    for _ in 0..more {
        if *budget == 0 {
            return;
        }
        *budget -= 1;
        out.push(*rng.pick(&['+', '-', '+', '-', '*', '/', '*']));
        spaces(rng, lots, out);
        term(rng, budget, depth, lots, out);
    }
}

pub fn text(rng: &mut Rng) -> String {
    let mut out = String::new();
    let lots = rng.chance(1, 3);
    spaces(rng, lots, &mut out);
    match rng.below(24) {
        0 => {
            // deep
            let n = rng.range(20, 300);
            for _ in 0..n {
                out.push('(');
                if rng.chance(1, 4) {
                    spaces(rng, lots, &mut out);
                    out.push_str(&format!("{}{}", rng.below(3), rng.pick(&["+", "-", "*"])));
                }
            }
            number(rng, &mut out);
            for _ in 0..n {
                out.push(')');
                if rng.chance(1, 8) {
                    out.push_str(&format!("{}{}", rng.pick(&["+", "-"]), rng.below(5)));
                }
            }
        }
        1 => {
            // long
            let ops: &[&str] = if rng.chance(1, 2) { &["+", "-"] } else { &["*1/", "/", "-", "+0*"] };
            number(rng, &mut out);
            for _ in 0..rng.range(50, 600) {
                out.push_str(rng.pick(ops));
                spaces(rng, lots, &mut out);
                out.push_str(&rng.range(1, 9).to_string());
                spaces(rng, lots, &mut out);
            }
        }
        _ => {
            let depth = rng.below(7);
            let mut budget = rng.range(1, 40);
            expr(rng, &mut budget, depth, lots, &mut out);
        }
    }
    out
}
