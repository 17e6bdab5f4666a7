//! Tokens of a generated program and the rendering of their layout.
use crate::engine::Src;
use crate::sexp::X;
use std::collections::BTreeSet;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Gap {
    /// nothing
    No,
    /// a space only where two operator characters would merge
    Tight,
    /// optional blanks
    Sp0,
    /// blanks
    Sp1,
    /// optional blanks or newlines
    Nl0,
    /// blanks or newlines, at least one
    Nl1,
    /// before a "."
    Dot,
    /// after a "."
    DotR,
    /// left and right of a binary operator
    OpL,
    OpR,
    /// end of a statement
    Term,
    /// end of the last statement of a body
    TermOpt,
    /// between a condition and a branch
    Then,
    /// between a condition and a loop body
    Do,
    /// a newline is required (never ";")
    Line,
    /// beginning of the program
    Start,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum K {
    Normal,
    Regex,
    Sym,
    /// piece of a literal that follows embedded code
    Raw,
}

#[derive(Clone, Debug)]
pub struct Tok {
    pub text: String,
    pub gap: Gap,
    pub kind: K,
    /// here-document bodies introduced by this token
    pub here: Option<usize>,
}

#[derive(Clone, Debug)]
pub struct Body {
    pub toks: Vec<usize>,
    pub term: String,
    /// the terminator may be indented
    pub dash: bool,
}

#[derive(Clone, Debug)]
pub struct Prog {
    pub toks: Vec<Tok>,
    pub order: Vec<usize>,
    pub bodies: Vec<Body>,
    /// expected tree; spans are token indices
    pub x: X,
    /// expected table
    pub table: Vec<String>,
    /// (a, b): the text is incomplete from the end of token a to the start of token b
    pub opens: Vec<(usize, usize)>,
    pub feats: BTreeSet<&'static str>,
    /// first tokens of the top-level statements
    pub starts: Vec<usize>,
}

#[derive(Clone, Debug)]
pub struct Laid {
    pub src: String,
    /// start and end (exclusive) of every token
    pub pos: Vec<(usize, usize)>,
    /// start of the body, end of the terminator line
    pub bodies: Vec<(usize, usize)>,
}

pub fn wordish(c: char) -> bool {
    c.is_ascii_alphanumeric() || c == '_' || !c.is_ascii()
}

fn punctish(c: char) -> bool {
    c.is_ascii_punctuation() && !"()[]{},;\"'`_".contains(c)
}

/// Would the two tokens be read differently without a space in between?
pub fn must_space(a: &Tok, b: &Tok) -> bool {
    if b.kind == K::Raw || a.text.ends_with("#{") {
        return false;
    }
    let (la, fb) = match (a.text.chars().last(), b.text.chars().next()) {
        (Some(a), Some(b)) => (a, b),
        _ => return false,
    };
    if wordish(la) && (wordish(fb) || "?!:".contains(fb)) {
        return true;
    }
    // directly adjacent "=" belongs to the name
    let name_ext = (la == '?' || la == '!') && a.text.chars().next().map_or(false, |c| wordish(c) || c == ':');
    if name_ext && (punctish(fb) && fb != '.') {
        return true;
    }
    match a.kind {
        K::Sym => {
            if punctish(fb) && fb != '.' || "[\"'".contains(fb) || fb == '.' && !wordish(la) {
                return true;
            }
        }
        K::Regex => {
            if wordish(fb) || fb == '/' {
                return true;
            }
        }
        _ => {}
    }
    if (la == '"' || la == '\'') && fb == ':' {
        return true;
    }
    if (la == '<' && a.text.ends_with("<<")) && (wordish(fb) || "\"'`".contains(fb)) {
        return true;
    }
    if la == '%' && (fb.is_ascii_punctuation()) {
        return true;
    }
    if la == '?' && a.text == "?" || a.text.starts_with('?') && a.text.chars().count() == 2 && fb == '?' {
        return true;
    }
    if wordish(la) && fb == '`' {
        return true;
    }
    punctish(la) && punctish(fb)
}

fn tight_space(a: &Tok, b: &Tok) -> bool {
    let la = a.text.chars().last().unwrap_or(' ');
    let fb = b.text.chars().next().unwrap_or(' ');
    matches!((la, fb), ('!', '~') | ('!', '=') | ('*', '*') | ('&', '&') | ('&', '.') | ('-', '>'))
}

struct R<'a> {
    p: &'a Prog,
    s: &'a mut Src,
    /// percentage of gaps that are not canonical
    wild: u64,
    out: String,
    pos: Vec<(usize, usize)>,
    bodies: Vec<(usize, usize)>,
    pending: Vec<usize>,
    in_body: bool,
    opl_spaced: bool,
}

const COMMENTS: &[&str] = &[
    "", " x", " comment", " end", " \"", " 'q", " #{x}", " é日本", " }", " <<A", " \\", " if x do", " a = 1", "# #", " )]", "\t|", " /r", " =begin", " __END__",
];

impl<'a> R<'a> {
    fn put(&mut self, text: &str) {
        for chunk in text.split_inclusive('\n') {
            match chunk.strip_suffix('\n') {
                // a CR in front of a newline within a literal belongs to the newline
                Some(line) if !line.ends_with('\r') && self.s.chance(self.wild, 500) => {
                    self.out.push_str(line);
                    self.out.push_str("\r\n");
                }
                _ => self.out.push_str(chunk),
            }
            if chunk.ends_with('\n') && !self.in_body && !self.pending.is_empty() {
                self.flush();
            }
        }
    }

    /// the bodies of the here-documents of the line just ended
    fn flush(&mut self) {
        let pending = std::mem::take(&mut self.pending);
        let opl = self.opl_spaced;
        for b in pending {
            let start = self.out.len();
            self.in_body = true;
            let body = self.p.bodies[b].clone();
            let mut prev = None;
            for (i, t) in body.toks.iter().enumerate() {
                self.tok(prev, *t, body.toks.get(i + 1).copied());
                prev = Some(*t);
            }
            self.in_body = false;
            if body.dash && self.s.chance(self.wild, 200) {
                let ind = *self.s.pick(&[" ", "  ", "\t", " \t ", "\x0c", " \x0b"]);
                self.out.push_str(ind);
            }
            self.out.push_str(&body.term);
            let nl = if self.s.chance(self.wild, 500) { "\r\n" } else { "\n" };
            self.out.push_str(nl);
            self.bodies[b] = (start, self.out.len());
        }
        self.opl_spaced = opl;
    }

    fn blank1(&mut self) -> String {
        let mut r = String::new();
        let n = 1 + self.s.len(2);
        for _ in 0..n {
            match self.s.below(7) {
                0..=2 => r.push(' '),
                3 => r.push('\t'),
                4 => r.push_str("  "),
                // directly behind a name
                5 if !self.in_body && self.out.ends_with(wordish) => {
                    r.push_str(*self.s.pick(&["\\\n", "\\\n", "\\\r\n"]))
                }
                _ => {
                    if self.in_body {
                        r.push(' ')
                    } else {
                        r.push_str(*self.s.pick(&[" \\\n", " \\\n", " \\\r\n"]))
                    }
                }
            }
        }
        r
    }

    fn blank0(&mut self) -> String {
        if self.s.coin() {
            self.blank1()
        } else {
            String::new()
        }
    }

    fn indent(&mut self) -> String {
        self.s.pick(&["", " ", "  ", "\t", "    ", ""]).to_string()
    }

    fn comment(&mut self) -> String {
        let c = *self.s.pick(COMMENTS);
        format!(" #{}", c)
    }

    /// a newline, perhaps with comments and blank lines
    fn newline(&mut self) -> String {
        let mut r = String::new();
        match self.s.below(4) {
            0 => {}
            1 => r.push_str(self.s.pick_str(&[" ", "\t", "  "])),
            2 => r = self.comment(),
            _ => {
                if self.pending.is_empty() {
                    r.push('\r');
                }
            }
        }
        r.push('\n');
        for _ in 0..self.s.len(2) {
            match self.s.below(3) {
                0 => r.push('\n'),
                1 => r.push_str(" \t\n"),
                _ => {
                    let c = *self.s.pick(COMMENTS);
                    r.push_str(&format!("#{}\n", c));
                }
            }
        }
        r.push_str(&self.indent());
        r
    }

    fn newlines(&mut self) -> String {
        let mut r = self.newline();
        if self.s.chance(1, 6) {
            r.push_str(&self.newline());
        }
        r
    }

    fn gap(&mut self, prev: Option<usize>, cur: usize, next: Option<usize>) -> String {
        let p = self.p;
        let b = &p.toks[cur];
        let glue = prev.map_or(false, |a| must_space(&p.toks[a], b));
        let wild = self.s.chance(self.wild, 100);
        let body = self.in_body;
        match b.gap {
            Gap::No => String::new(),
            Gap::Tight => {
                if prev.map_or(false, |a| tight_space(&p.toks[a], b)) {
                    " ".into()
                } else {
                    String::new()
                }
            }
            Gap::Sp0 => {
                if wild {
                    if glue {
                        self.blank1()
                    } else {
                        self.blank0()
                    }
                } else if glue {
                    " ".into()
                } else {
                    String::new()
                }
            }
            Gap::Sp1 => {
                if wild {
                    self.blank1()
                } else {
                    " ".into()
                }
            }
            Gap::Nl0 | Gap::Nl1 => {
                let need = glue || b.gap == Gap::Nl1;
                if wild {
                    if !body && self.s.coin() {
                        self.newlines()
                    } else if need {
                        self.blank1()
                    } else {
                        self.blank0()
                    }
                } else if need {
                    " ".into()
                } else {
                    String::new()
                }
            }
            Gap::Dot => {
                if wild && !body {
                    match self.s.below(4) {
                        0 => " ".into(),
                        1 => format!("\n{}", self.indent()),
                        2 => format!(" {}\n  ", ""),
                        _ => self.newline(),
                    }
                } else {
                    String::new()
                }
            }
            Gap::DotR => {
                if wild {
                    let n = if body { 2 } else { 4 };
                    match self.s.below(n) {
                        0 => " ".into(),
                        1 => "\t ".into(),
                        2 => format!("\n{}", self.indent()),
                        _ => self.newline(),
                    }
                } else {
                    String::new()
                }
            }
            Gap::OpL => {
                let glue_r = next.map_or(false, |n| must_space(b, &p.toks[n]));
                if wild && !glue && !glue_r && self.s.coin() {
                    self.opl_spaced = false;
                    String::new()
                } else {
                    self.opl_spaced = true;
                    if wild {
                        self.blank1()
                    } else {
                        " ".into()
                    }
                }
            }
            Gap::OpR => {
                if !self.opl_spaced {
                    if wild && !body && self.s.coin() {
                        self.newlines()
                    } else {
                        String::new()
                    }
                } else if wild {
                    if !body && self.s.coin() {
                        self.newlines()
                    } else {
                        self.blank1()
                    }
                } else {
                    " ".into()
                }
            }
            Gap::Term => {
                if body {
                    "; ".into()
                } else if wild {
                    match self.s.below(4) {
                        0 => self.newlines(),
                        1 => format!("{};{}", self.blank0(), self.blank0()),
                        2 => format!(";{}", self.newline()),
                        _ => format!("{}; ", self.newline()),
                    }
                } else {
                    "\n".into()
                }
            }
            Gap::Line => {
                if wild {
                    self.newlines()
                } else {
                    "\n".into()
                }
            }
            Gap::TermOpt => {
                if body {
                    " ".into()
                } else if wild {
                    match self.s.below(4) {
                        0 => self.newlines(),
                        1 => self.blank1(),
                        2 => format!("{};{}", self.blank0(), self.blank0()),
                        _ => format!(";{}", self.newline()),
                    }
                } else {
                    "\n".into()
                }
            }
            Gap::Then => {
                if body {
                    " then ".into()
                } else if wild {
                    match self.s.below(6) {
                        0 => self.newlines(),
                        1 => format!("{};{}", self.blank0(), self.blank0()),
                        2 => format!("{}then{}", self.blank1(), self.blank1()),
                        3 => format!("{}then{}", self.newline(), self.newline()),
                        4 => format!(";{}then ", self.blank0()),
                        _ => format!("{}then{}", self.blank1(), self.newlines()),
                    }
                } else {
                    "\n".into()
                }
            }
            Gap::Do => {
                if body {
                    " do ".into()
                } else if wild {
                    match self.s.below(4) {
                        0 => self.newlines(),
                        1 => format!("{};{}", self.blank0(), self.blank0()),
                        2 => format!("{}do{}", self.blank1(), self.blank1()),
                        _ => format!("{}do{}", self.blank1(), self.newlines()),
                    }
                } else {
                    "\n".into()
                }
            }
            Gap::Start => {
                if wild && !body {
                    match self.s.below(4) {
                        0 => self.newlines(),
                        1 => format!("#{}\n", self.s.pick_str(COMMENTS)),
                        2 => self.blank0(),
                        _ => format!("{};{}", self.blank0(), self.newline()),
                    }
                } else {
                    String::new()
                }
            }
        }
    }

    fn tok(&mut self, prev: Option<usize>, cur: usize, next: Option<usize>) {
        let g = self.gap(prev, cur, next);
        self.put(&g);
        let start = self.out.len();
        let t = &self.p.toks[cur];
        if let Some(h) = t.here {
            self.pending.push(h);
        }
        let text = t.text.clone();
        self.put(&text);
        self.pos[cur] = (start, self.out.len());
    }
}

/// Render a program with the layout chosen by `s`; `wild` is the percentage of
/// places with an unusual layout (0: canonical layout).
pub fn render(p: &Prog, s: &mut Src, wild: u64) -> Laid {
    let mut r = R {
        p,
        s,
        wild,
        out: String::new(),
        pos: vec![(0, 0); p.toks.len()],
        bodies: vec![(0, 0); p.bodies.len()],
        pending: vec![],
        in_body: false,
        opl_spaced: true,
    };
    let mut prev = None;
    for (i, t) in p.order.iter().enumerate() {
        r.tok(prev, *t, p.order.get(i + 1).copied());
        prev = Some(*t);
    }
    if !r.pending.is_empty() {
        r.put("\n");
        // a terminator on the last line needs no newline
        if r.s.chance(r.wild, 200) && r.out.ends_with('\n') {
            r.out.pop();
        }
    } else if r.s.chance(r.wild, 100) {
        match r.s.below(5) {
            0 => r.put("\n"),
            1 => {
                let n = r.newlines();
                r.put(&n)
            }
            2 => {
                let c = r.comment();
                r.put(&c)
            }
            3 => r.put(" ; "),
            _ => r.put("  "),
        }
    }
    Laid { src: r.out, pos: r.pos, bodies: r.bodies }
}

/// Turn token spans into inclusive byte ranges.
pub fn resolve(x: &X, pos: &[(usize, usize)]) -> X {
    X {
        tag: x.tag.clone(),
        kids: x.kids.iter().map(|k| resolve(k, pos)).collect(),
        span: x.span.map(|(a, b)| (pos[a].0, pos[b].1 - 1)),
        ext: x.ext.map(|(a, b)| (pos[a].0, pos[b].1 - 1)),
        kw: x.kw,
    }
}
