//! Surface syntax and its printer.

#[derive(Clone, Debug, PartialEq)]
pub enum Ex {
    Eps,
    Lit(String),
    Var(String),
    Cat(Vec<Ex>),
    /// Alternatives with optional labels. A single labelled one is a label.
    Alt(Vec<(Ex, Option<String>)>),
    Fix(Box<Ex>),
    Call(Box<Ex>, Vec<Ex>),
    Lam(Vec<String>, Box<Ex>),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Let {
    pub name: String,
    pub args: Vec<String>,
    pub body: Ex,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Prog {
    pub lets: Vec<Let>,
    pub goal: Ex,
}

/// How to write literals.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Style {
    /// Printable characters as they are, even outside ASCII.
    Raw,
    /// Only the subset the self-hosted front end reads.
    Ascii,
}

pub fn lit_text(s: &str, style: Style) -> String {
    let mut out = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            '\r' => out.push_str("\\r"),
            '\t' => out.push_str("\\t"),
            '\0' => out.push_str("\\0"),
            ' '..='~' => out.push(c),
            c if (c as u32) < 0x80 => out.push_str(&format!("\\x{:02x}", c as u32)),
            c if style == Style::Raw && c.is_alphanumeric() => out.push(c),
            c => out.push_str(&format!("\\u{{{:x}}}", c as u32)),
        }
    }
    out.push('"');
    out
}

struct Printer {
    out: String,
    style: Style,
}

impl Printer {
    fn term(&mut self, e: &Ex) {
        match e {
            Ex::Eps => self.out.push('_'),
            Ex::Lit(s) => {
                let t = lit_text(s, self.style);
                self.out.push_str(&t)
            }
            Ex::Var(v) => self.out.push_str(v),
            Ex::Fix(inner) => {
                self.out.push('!');
                self.term(inner)
            }
            Ex::Cat(_) | Ex::Alt(_) | Ex::Call(..) | Ex::Lam(..) => {
                self.out.push('(');
                self.expr(e);
                self.out.push(')')
            }
        }
    }
    fn call(&mut self, e: &Ex) {
        if let Ex::Call(on, args) = e {
            self.term(on);
            for a in args {
                self.out.push(' ');
                self.term(a);
            }
        } else {
            self.term(e)
        }
    }
    fn cat(&mut self, e: &Ex) {
        if let Ex::Cat(v) = e {
            for (i, x) in v.iter().enumerate() {
                if i > 0 {
                    self.out.push_str(" . ");
                }
                self.call(x);
            }
        } else {
            self.call(e)
        }
    }
    fn alt(&mut self, e: &Ex) {
        if let Ex::Alt(v) = e {
            for (i, (x, l)) in v.iter().enumerate() {
                if i > 0 {
                    self.out.push_str(" | ");
                }
                self.cat(x);
                if let Some(l) = l {
                    self.out.push_str(" : ");
                    self.out.push_str(l);
                }
            }
        } else {
            self.cat(e)
        }
    }
    fn expr(&mut self, e: &Ex) {
        if let Ex::Lam(args, inner) = e {
            self.out.push('/');
            self.out.push_str(&args.join(" "));
            self.out.push_str("/ ");
            self.alt(inner)
        } else {
            self.alt(e)
        }
    }
}

pub fn print_expr(e: &Ex, style: Style) -> String {
    let mut p = Printer { out: String::new(), style };
    p.expr(e);
    p.out
}

impl Let {
    pub fn print(&self, style: Style) -> String {
        let mut s = format!("let {}", self.name);
        for a in &self.args {
            s.push(' ');
            s.push_str(a);
        }
        s.push_str(" = ");
        s.push_str(&print_expr(&self.body, style));
        s.push(';');
        s
    }
}

impl Prog {
    /// One statement per line.
    pub fn lines(&self, style: Style) -> Vec<String> {
        let mut out: Vec<String> = self.lets.iter().map(|l| l.print(style)).collect();
        out.push(format!("match {};", print_expr(&self.goal, style)));
        out
    }
    pub fn print(&self, style: Style) -> String {
        let mut s = self.lines(style).join("\n");
        s.push('\n');
        s
    }
}

pub fn size(e: &Ex) -> usize {
    1 + match e {
        Ex::Eps | Ex::Lit(_) | Ex::Var(_) => 0,
        Ex::Cat(v) => v.iter().map(size).sum(),
        Ex::Alt(v) => v.iter().map(|(e, _)| size(e)).sum(),
        Ex::Fix(e) => size(e),
        Ex::Call(e, a) => size(e) + a.iter().map(size).sum::<usize>(),
        Ex::Lam(_, e) => size(e),
    }
}
