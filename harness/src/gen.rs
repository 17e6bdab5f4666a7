//! Generator of programs of the supported language together with the tree
//! Ruby's grammar assigns to them.
use crate::engine::Src;
use crate::layout::*;
use crate::lits::*;
use crate::sexp::{dstr_norm, ident, qs, X};
use std::collections::BTreeSet;

mod more;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum Lv {
    Arg,
    Tern,
    Range,
    Lor,
    Land,
    Eq,
    Cmp,
    Bor,
    Band,
    Shift,
    Add,
    Mul,
    Umin,
    Pow,
    Unary,
    Post,
}

/// What a check concentrates on.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum F {
    All,
    Op,
    Num,
    Str,
    Here,
    Regex,
    Interp,
    Call,
    Cmd,
    Param,
    Assign,
    Flow,
    Def,
    Scope,
    Coll,
    Name,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sk {
    Top,
    Class,
    Method,
    Block,
}

#[derive(Clone, Debug, Default)]
pub struct Scope {
    pub kind: Option<Sk>,
    pub vars: Vec<String>,
    kws: Vec<String>,
    kwrest: Option<String>,
    blk: Option<String>,
    fwd: bool,
}

impl Scope {
    pub fn x(&self) -> X {
        let nm = |o: &Option<String>| X::a(o.clone().unwrap_or("-".into()));
        X::n(
            "lvars",
            vec![
                X::n("tbl", self.vars.iter().map(|s| X::a(s.clone())).collect()),
                X::n("kws", self.kws.iter().map(|s| X::a(s.clone())).collect()),
                X::n("kwrest", vec![nm(&self.kwrest)]),
                X::n("blk", vec![nm(&self.blk)]),
                X::n("fwd", vec![X::a(if self.fwd { "..." } else { "-" })]),
            ],
        )
    }
}

#[derive(Clone)]
pub struct Cfg {
    pub focus: F,
    pub fuel: i64,
    pub heredoc: bool,
    /// variables of the outer context, with their depth
    pub ext: Vec<(String, usize)>,
    /// table of the binding (the top scope is a block scope then)
    pub init: Vec<String>,
    pub binding: bool,
    pub multi_line_tokens: bool,
    /// generate __LINE__; the tree holds (int L<token>)
    pub line: bool,
}

impl Cfg {
    pub fn new(focus: F, size: u64) -> Cfg {
        Cfg {
            focus,
            fuel: 3 + size as i64 / 2,
            heredoc: true,
            ext: vec![],
            init: vec![],
            binding: false,
            multi_line_tokens: true,
            line: false,
        }
    }
}

/// first token restrictions
const CMD: u8 = 1;
const NODIGIT: u8 = 2;
const STMT: u8 = 4;

pub const VARS: &[&str] = &[
    "a", "b", "c", "x", "y", "zz", "_v", "foo_1", "é", "名前", "_0", "ifx", "end_", "do_it", "in_", "nil_", "self_", "e1", "thenx", "aB", "or_else", "__x", "trueish", "w", "q",
];
pub const CMDS: &[&str] = &["puts", "foo", "bar", "p", "raise", "attr", "go_on", "fn1", "defx", "beginner", "été", "print!", "ok?"];
pub const METHODS: &[&str] = &[
    "foo", "bar", "size", "each", "to_s", "empty?", "save!", "é_x", "a1", "Baz", "x", "y", "z",
];
pub const RESERVED: &[&str] = &[
    "if", "end", "class", "def", "nil", "true", "self", "while", "do", "then", "and", "or", "not", "in", "for", "begin", "rescue", "ensure", "return", "yield", "super", "module", "case", "when", "else", "elsif", "unless",
    "until", "next", "break", "redo", "alias", "undef", "false", "retry", "__LINE__",
];
pub const CONSTS: &[&str] = &["A", "B", "Foo", "BAR_1", "Zé", "If", "ENDX", "Object", "T1"];
pub const IVARS: &[&str] = &["@a", "@foo", "@_x", "@if", "@é", "@A1"];
pub const CVARS: &[&str] = &["@@a", "@@foo_bar", "@@end", "@@ñ"];
pub const GVARS: &[&str] = &["$a", "$foo", "$_x", "$stdout", "$if", "$A", "$é", "$_", "$~", "$!", "$;", "$,", "$/", "$0", "$?", "$<", "$>", "$-w", "$-0", "$-_", "$$", "$*", "$.", "$@"];

pub struct G<'a, 'b> {
    pub s: &'b mut Src,
    pub cfg: &'a Cfg,
    pub toks: Vec<Tok>,
    order: Vec<usize>,
    bodies: Vec<Body>,
    pub scopes: Vec<Scope>,
    fuel: i64,
    depth: usize,
    no_do: bool,
    /// a negative literal here would not be one (left operand of **)
    noneg: bool,
    /// names not to be used as identifiers
    avoid: Vec<String>,
    no_here: bool,
    in_body: bool,
    in_loop: bool,
    /// do not declare variables in this scope (parameter defaults)
    no_decl: Option<usize>,
    pub gap: Gap,
    lead: u8,
    /// the right edge of the last expression is an assignment
    open: bool,
    /// no block argument in the next argument list
    noblk: bool,
    opens: Vec<(usize, usize)>,
    pub feats: BTreeSet<&'static str>,
    term_no: usize,
    starts: Vec<usize>,
}

fn is_lit(x: &X) -> bool {
    matches!(x.tag.as_str(), "true" | "false" | "nil" | "int" | "big" | "float" | "sym" | "str" | "bytes")
}
pub fn flag(v: bool) -> X {
    X::a(if v { "t" } else { "f" })
}
pub fn arr(v: Vec<X>) -> X {
    let c = v.iter().all(is_lit);
    X::n("array", vec![X::n("elems", v), flag(c)])
}
pub fn hash(v: Vec<(X, X)>) -> X {
    let c = v.iter().all(|(a, b)| is_lit(a) && is_lit(b));
    X::n("hash", vec![X::n("pairs", v.into_iter().map(|(a, b)| X::n("=>", vec![a, b])).collect()), flag(c)])
}
pub fn sym(s: &str) -> X {
    X::n("sym", vec![X::a(qs(s))])
}
pub fn lv(d: usize, n: &str) -> X {
    X::n("lvar", vec![X::a(d.to_string()), X::a(n)])
}
pub fn seq(mut v: Vec<X>) -> X {
    if v.len() == 1 {
        v.remove(0)
    } else {
        X::n("seq", v)
    }
}
pub fn asgn(l: Vec<X>, r: Vec<X>) -> X {
    X::n("asgn", vec![X::n("lhs", l), X::n("rhs", r)])
}
pub fn begin(body: X, rescues: Vec<X>, els: Option<X>, ens: Option<X>) -> X {
    let o = |x: Option<X>| x.unwrap_or(X::a("none"));
    X::n("begin", vec![body, X::n("rescues", rescues), o(els), o(ens)])
}
pub fn rescue(exc: Vec<X>, asg: Option<X>, body: X) -> X {
    X::n("rescue", vec![X::n("exc", exc), asg.unwrap_or(X::a("none")), body])
}
pub fn iff(c: X, t: X, e: X) -> X {
    X::n("if", vec![c, t, e])
}
pub fn call(r: X, name: &str, al: Al) -> X {
    X::n("call", vec![r, X::a(qs(name)), al.x()])
}
pub fn konst(top: bool, parent: Option<X>, path: &str) -> X {
    X::n("const", vec![flag(top), parent.unwrap_or(X::a("none")), X::a(path)])
}

#[derive(Default, Clone)]
pub struct Al {
    pub args: Vec<X>,
    pub kw: Vec<(String, X)>,
    pub ds: Vec<X>,
    pub blk: Option<X>,
    pub fwd: bool,
    pub splat: bool,
}
impl Al {
    pub fn x(self) -> X {
        let mut k = vec![X::n("args", self.args)];
        if !self.kw.is_empty() {
            k.push(X::n("kw", self.kw.into_iter().map(|(n, v)| X::n(format!("{}:", n), vec![v])).collect()));
        }
        if !self.ds.is_empty() {
            k.push(X::n("dsplat", self.ds));
        }
        if let Some(b) = self.blk {
            k.push(X::n("block", vec![b]));
        }
        if self.fwd {
            k.push(X::a("fwd"));
        }
        if self.splat {
            k.push(X::a("has_splat"));
        }
        X::n("al", k)
    }
    pub fn is_empty(&self) -> bool {
        self.args.is_empty() && self.kw.is_empty() && self.ds.is_empty() && self.blk.is_none() && !self.fwd
    }
}

enum Piece {
    S(Val),
    X(X),
}

impl<'a, 'b> G<'a, 'b> {
    pub fn new(s: &'b mut Src, cfg: &'a Cfg) -> G<'a, 'b> {
        let top = Scope { kind: Some(if cfg.binding { Sk::Block } else { Sk::Top }), vars: cfg.init.clone(), ..Default::default() };
        G {
            s,
            cfg,
            toks: vec![],
            order: vec![],
            bodies: vec![],
            scopes: vec![top],
            fuel: cfg.fuel,
            depth: 0,
            no_do: false,
            noneg: false,
            avoid: vec![],
            no_here: !cfg.heredoc,
            in_body: false,
            in_loop: false,
            no_decl: None,
            gap: Gap::Start,
            lead: 0,
            open: false,
            opens: vec![],
            noblk: false,
            feats: BTreeSet::new(),
            term_no: 0,
            starts: vec![],
        }
    }

    pub fn finish(self, x: X) -> Prog {
        Prog {
            toks: self.toks,
            order: self.order,
            bodies: self.bodies,
            x,
            table: self.scopes[0].vars.clone(),
            opens: self.opens,
            feats: self.feats,
            starts: self.starts,
        }
    }

    // ------------------------------------------------------------ tokens

    fn tk(&mut self, text: &str, kind: K) -> usize {
        let gap = std::mem::replace(&mut self.gap, Gap::Sp0);
        self.lead = 0;
        self.toks.push(Tok { text: text.to_string(), gap, kind, here: None });
        let i = self.toks.len() - 1;
        self.order.push(i);
        i
    }
    pub fn t(&mut self, text: &str) -> usize {
        self.tk(text, K::Normal)
    }
    pub fn tg(&mut self, gap: Gap, text: &str) -> usize {
        self.gap = gap;
        self.t(text)
    }
    fn last(&self) -> usize {
        self.toks.len() - 1
    }
    fn next(&self) -> usize {
        self.toks.len()
    }
    fn opens_from(&mut self, a: usize) {
        // incomplete until the next token
        let b = self.next();
        self.opens.push((a, b));
    }
    fn feat(&mut self, f: &'static str) {
        self.feats.insert(f);
    }
    fn nl0(&self) -> Gap {
        if self.in_body {
            Gap::Sp0
        } else {
            Gap::Nl0
        }
    }

    // ------------------------------------------------------------ scopes

    pub fn lookup(&self, name: &str) -> Option<usize> {
        let mut d = 0;
        for (i, sc) in self.scopes.iter().enumerate().rev() {
            if sc.vars.iter().any(|v| v == name) {
                return Some(d);
            }
            if i == 0 {
                break;
            }
            match sc.kind.unwrap() {
                Sk::Block => d += 1,
                _ => return None,
            }
        }
        self.cfg.ext.iter().find(|(n, _)| n == name).map(|(_, e)| e + d)
    }
    /// a variable that is visible here, or (rarely) one of a scope further out that is not
    fn visible_name(&mut self) -> Option<String> {
        let mut v: Vec<String> = vec![];
        let mut closed = false;
        for (i, sc) in self.scopes.iter().enumerate().rev() {
            v.extend(sc.vars.iter().filter(|n| *n != "..." && !n.starts_with('&')).cloned());
            if sc.kind != Some(Sk::Block) && (i > 0 || self.cfg.ext.is_empty()) {
                closed = true;
                if !v.is_empty() && !self.s.chance(1, 6) {
                    break;
                }
            }
        }
        if !closed || self.s.chance(1, 8) {
            v.extend(self.cfg.ext.iter().map(|(n, _)| n.clone()));
        }
        if v.is_empty() {
            return None;
        }
        let k = self.s.us(v.len());
        Some(v.swap_remove(k))
    }
    pub fn declare(&mut self, name: &str) -> usize {
        match self.lookup(name) {
            Some(d) => d,
            None => {
                self.scopes.last_mut().unwrap().vars.push(name.to_string());
                0
            }
        }
    }
    fn can_declare(&self) -> bool {
        self.no_decl != Some(self.scopes.len() - 1)
    }
    fn in_method(&self) -> bool {
        for sc in self.scopes.iter().rev() {
            match sc.kind.unwrap() {
                Sk::Method => return true,
                Sk::Class | Sk::Top => return false,
                Sk::Block => {}
            }
        }
        false
    }
    fn can_forward(&self) -> bool {
        for sc in self.scopes.iter().rev() {
            if sc.kind == Some(Sk::Method) {
                return sc.fwd;
            }
            if sc.kind != Some(Sk::Block) {
                return false;
            }
        }
        false
    }
    fn push(&mut self, k: Sk) {
        self.scopes.push(Scope { kind: Some(k), ..Default::default() });
    }
    fn pop_info(&mut self, params: Vec<X>, body: X) -> X {
        let sc = self.scopes.pop().unwrap();
        X::n("info", vec![X::n("params", params), sc.x(), body])
    }

    fn spend(&mut self) -> bool {
        self.fuel -= 1;
        self.fuel >= 0 && self.depth < 24
    }

    fn is(&self, f: F) -> bool {
        self.cfg.focus == f
    }

    // ------------------------------------------------------------ programs

    pub fn program(&mut self) -> X {
        let mut v = vec![];
        let n = 1 + self.s.len(3) + if self.cfg.fuel > 20 { self.s.us(4) } else { 0 };
        for i in 0..n {
            if i > 0 {
                self.gap = Gap::Term;
            } else {
                self.gap = Gap::Start;
            }
            let st = self.next();
            self.starts.push(st);
            v.push(self.stmt());
            if self.fuel <= 0 && i > 0 {
                break;
            }
        }
        seq(v)
    }

    /// statements; the first gap is set by the caller
    pub fn stmts(&mut self, min: usize) -> X {
        self.depth += 1;
        let noneg = std::mem::replace(&mut self.noneg, false);
        let n = if self.fuel <= 0 { min } else { min + self.s.weighted(&[3, 6, 3, 1]).saturating_sub(min) };
        let mut v = vec![];
        let first = self.gap;
        for i in 0..n {
            self.gap = if i > 0 { Gap::Term } else { first };
            v.push(self.stmt());
        }
        self.noneg = noneg;
        self.depth -= 1;
        seq(v)
    }

    /// statements followed by a closing token; first gap and closing gap given
    fn body(&mut self, first: Gap, min: usize) -> X {
        self.gap = first;
        self.lead = 0;
        let n = self.next();
        let x = self.stmts(min);
        if self.next() == n {
            // empty: the closing word comes right after the opening one
            self.gap = match first {
                Gap::Nl0 => Gap::Nl1,
                g => g,
            };
        } else {
            self.gap = Gap::TermOpt;
        }
        self.lead = 0;
        x
    }

    pub fn stmt(&mut self) -> X {
        self.depth += 1;
        self.lead = STMT;
        let a = self.next();
        let x = self.stmt0();
        self.depth -= 1;
        self.ext(a, x)
    }

    /// Note the tokens from `a` on as those of `x`.
    fn ext(&self, a: usize, mut x: X) -> X {
        if x.ext.is_none() && a < self.next() {
            x.ext = Some((a, *self.order.last().unwrap()));
        }
        x
    }

    fn stmt0(&mut self) -> X {
        if !self.spend() {
            let x = self.atom();
            self.open = false;
            return x;
        }
        let f = self.cfg.focus;
        let w_assign = if matches!(f, F::Assign | F::Scope) { 30 } else { 8 };
        let w_flow = if f == F::Flow { 30 } else { 6 };
        let w_def = match f {
            F::Def | F::Param => 30,
            F::Scope => 10,
            _ => 4,
        };
        let w_cmd = if matches!(f, F::Cmd | F::Call) { 20 } else { 5 };
        let w_expr = 12;
        let w_mod = if f == F::Flow { 15 } else { 4 };
        let k = self.s.weighted(&[w_expr, w_assign, w_flow, w_cmd, w_mod, w_def, 3, 1]);
        match k {
            0 => self.expr_stmt(),
            1 => self.assign_stmt(),
            2 => self.flow_stmt(),
            3 => self.command(true),
            4 => self.modified(),
            5 => self.definition(),
            6 => self.jump(),
            _ => self.alias(),
        }
    }

    /// and / or chains
    pub fn expr_stmt(&mut self) -> X {
        let a = self.next();
        let x = self.expr_stmt0();
        self.ext(a, x)
    }

    fn expr_stmt0(&mut self) -> X {
        let start = self.next();
        let (gap, lead) = (self.gap, self.lead);
        let n = if self.s.chance(1, if self.is(F::Op) { 3 } else { 8 }) { 1 + self.s.len(2) } else { 0 };
        self.gap = gap;
        self.lead = lead;
        let mut x = self.expr_operand(n == 0);
        for i in 0..n {
            let and = self.s.coin();
            let o = self.tg(Gap::Sp1, if and { "and" } else { "or" });
            self.opens_from(o);
            self.gap = Gap::Nl1;
            self.feat("and_or");
            let last = i + 1 == n;
            let r = if last && self.s.chance(1, 10) && self.scopes.len() > 1 && !self.no_do {
                self.jump()
            } else {
                self.expr_operand(last)
            };
            x = X::n(if and { "&&" } else { "||" }, vec![x, r]);
            x = self.ext(start, x);
        }
        x
    }

    fn expr_operand(&mut self, last: bool) -> X {
        let a = self.next();
        let x = self.expr_operand0(last);
        self.ext(a, x)
    }

    fn expr_operand0(&mut self, _last: bool) -> X {
        if self.s.chance(1, if self.is(F::Cmd) { 3 } else { 12 }) && self.fuel > 0 {
            self.fuel -= 1;
            return self.command(true);
        }
        self.arg(true)
    }

    /// condition of a construct
    fn cond(&mut self) -> X {
        let old = std::mem::replace(&mut self.noneg, false);
        let x = self.expr_stmt();
        self.noneg = old;
        x
    }
    fn cond_no_do(&mut self) -> X {
        let old = std::mem::replace(&mut self.no_do, true);
        let x = self.cond();
        self.no_do = old;
        x
    }

    /// STMT if COND etc.
    fn modified(&mut self) -> X {
        let (gap, lead) = (self.gap, self.lead);
        let start = self.next();
        // the statement before the modifier
        let n = 1 + self.s.len(1);
        self.gap = gap;
        self.lead = lead;
        let mut x = match self.s.below(6) {
            0 | 1 => self.expr_stmt(),
            2 => self.assign_stmt(),
            3 => self.command(true),
            4 => self.jump(),
            _ => self.arg(true),
        };
        let mut jump = matches!(x.tag.as_str(), "return" | "break" | "next" | "redo");
        for _ in 0..n {
            let mut k = self.s.below(5);
            if k == 4 && (self.open || jump) {
                k = 0;
            }
            jump = false;
            let m = ["if", "unless", "while", "until", "rescue"][k as usize];
            let o = self.tg(Gap::Sp1, m);
            self.opens_from(o);
            self.gap = if self.in_body { Gap::Sp1 } else { Gap::Nl1 };
            self.feat("modifier");
            let e = X::n("seq", vec![]);
            if k == 4 {
                // the operand extends over and/or
                let c = self.cond();
                x = begin(x, vec![rescue(vec![], None, c)], None, None);
                x = self.ext(start, x);
                continue;
            }
            let c = self.cond();
            x = match k {
                0 => iff(c, x, e),
                1 => iff(c, e, x),
                2 => X::n("while_mod", vec![c, x]),
                _ => X::n("until_mod", vec![c, x]),
            };
            x = self.ext(start, x);
        }
        x
    }

    /// a jump without value within an expression
    fn bare_jump(&mut self) -> Option<X> {
        let (in_class, in_loop) = (self.in_class(), self.in_loop);
        let kw = match (in_class, in_loop) {
            (true, false) => return None,
            (true, true) => self.s.pick_str(&["break", "next", "redo"]),
            (false, false) => "return",
            (false, true) => self.s.pick_str(&["break", "next", "redo", "return"]),
        };
        self.t(kw);
        self.feat("jump");
        self.open = false;
        Some(match kw {
            "redo" => X::a("redo"),
            kw => X::n(kw, vec![X::a("nil")]),
        })
    }

    fn in_class(&self) -> bool {
        for sc in self.scopes.iter().rev() {
            match sc.kind.unwrap() {
                Sk::Block => {}
                Sk::Class => return true,
                _ => return false,
            }
        }
        false
    }

    fn jump(&mut self) -> X {
        let mut in_class = false;
        for sc in self.scopes.iter().rev() {
            match sc.kind.unwrap() {
                Sk::Block => {}
                Sk::Class => {
                    in_class = true;
                    break;
                }
                _ => break,
            }
        }
        let w_ret = if in_class { 0 } else { 3 };
        let w = if self.in_loop { 3 } else { 0 };
        if w_ret + w == 0 {
            return self.arg(true);
        }
        let k = self.s.weighted(&[w_ret, w, w, w / 3]);
        let (kw, tag) = [("return", "return"), ("break", "break"), ("next", "next"), ("redo", "redo")][k];
        if k == 3 {
            self.t(kw);
            self.open = false;
            return X::a("redo");
        }
        self.t(kw);
        self.feat("jump");
        self.open = false;
        let nil = X::a("nil");
        let v = match self.s.below(5) {
            0 => nil,
            1 => {
                self.gap = Gap::Sp1;
                self.lead = STMT;
                let old = std::mem::replace(&mut self.no_do, true);
                let x = if self.s.chance(1, 4) { self.command(false) } else { self.arg(true) };
                self.no_do = old;
                x
            }
            2 | 3 => {
                self.gap = Gap::Sp1;
                self.lead = STMT;
                let old = std::mem::replace(&mut self.no_do, true);
                let x = self.arg(true);
                self.no_do = old;
                x
            }
            _ => {
                self.gap = Gap::Sp1;
                self.lead = STMT;
                let old = std::mem::replace(&mut self.no_do, true);
                let v = self.mrhs();
                self.no_do = old;
                v
            }
        };
        X::n(tag, vec![v])
    }

    /// several or splatted values; gap set by the caller
    fn mrhs(&mut self) -> X {
        let n = 1 + self.s.len(3);
        let mut v = vec![];
        let force = n == 1;
        for i in 0..n {
            if i > 0 {
                let c = self.tg(Gap::Sp0, ",");
                self.opens_from(c);
                self.gap = self.nl0();
            }
            if force || self.s.chance(1, 5) {
                let o = self.t("*");
                self.opens_from(o);
                self.gap = Gap::Tight;
                let x = self.expr(Lv::Tern, true);
                v.push(X::n("splat", vec![x]));
                self.feat("splat");
            } else {
                v.push(self.arg(true));
            }
        }
        self.feat("mrhs");
        arr(v)
    }

    fn alias(&mut self) -> X {
        let t = self.t("alias");
        self.opens_from(t);
        self.feat("alias");
        if self.s.chance(1, 6) {
            let a = *self.s.pick(&["$a", "$foo", "$é", "$-w", "$MATCH", "$LOAD_PATH"]);
            let b = *self.s.pick(&["$b", "$stdin", "$_x", "$-1", "$~", "$&", "$'", "$:", "$\"", "$`", "$+", "$LOADED_FEATURES", "$;"]);
            let i = self.tg(Gap::Nl1, a);
            let j = self.tg(Gap::Sp1, b);
            self.open = false;
            return X::n("alias", vec![sym(a).at((i, i)), sym(b).at((j, j))]);
        }
        let mut v = vec![];
        for _ in 0..2 {
            let n = self.any_method_name();
            self.gap = Gap::Nl1;
            let i = if self.s.coin() { self.tk(&format!(":{}", n), K::Sym) } else { self.tk(&n, K::Sym) };
            v.push(sym(&n).at((i, i)));
        }
        self.open = false;
        X::n("alias", v)
    }

    fn any_method_name(&mut self) -> String {
        match self.s.below(6) {
            0 => self.method_name(),
            1 => self.var_name(),
            2 => self.s.pick_str(&["+", "-", "*", "/", "%", "==", "===", "=~", "<=>", "<", "<=", ">", ">=", "<<", ">>", "&", "|", "[]", "[]=", "+@", "-@", "!=", "**", "^", "!", "~", "!~", "`"]).to_string(),
            3 => format!("{}=", self.s.pick_str(&["foo", "bar", "Foo", "é", "if"])),
            4 => self.const_name(),
            _ => self.s.pick_str(&["if", "end", "class", "nil", "self", "do", "then", "yield", "return", "true"]).to_string(),
        }
    }

    // ------------------------------------------------------------ expressions

    pub fn arg(&mut self, tail: bool) -> X {
        self.expr(Lv::Arg, tail)
    }

    /// An expression that can stand as an operand of level `lv`. `tail` tells
    /// whether an assignment may follow as its last operand.
    pub fn expr(&mut self, lv: Lv, tail: bool) -> X {
        self.depth += 1;
        self.open = false;
        let a = self.next();
        let x = self.expr0(lv, tail);
        self.depth -= 1;
        self.ext(a, x)
    }

    fn expr0(&mut self, level: Lv, tail: bool) -> X {
        if !self.spend() {
            return self.atom();
        }
        let f = self.cfg.focus;
        let b = |w: u64, on: bool| if on { w * 6 + 6 } else { w };
        let lit_focus = matches!(f, F::Num | F::Str | F::Regex | F::Interp | F::Here | F::Name);
        let w = [
            b(10, lit_focus),                               // atom
            b(8, f == F::Op),                               // operator
            b(8, matches!(f, F::Call | F::Cmd | F::Name)),  // postfix chain
            b(3, matches!(f, F::Coll)),                     // collection
            b(2, matches!(f, F::Assign | F::Scope)),        // assignment
            b(2, matches!(f, F::Scope | F::Param)),         // lambda
            b(2, f == F::Flow),                             // control flow as a value
            b(3, f == F::Op),                               // parenthesised
            b(3, matches!(f, F::Interp)),                   // interpolation
            b(1, f == F::Here),                             // heredoc
        ];
        match self.s.weighted(&w) {
            0 => self.atom(),
            1 => self.operator(level, tail),
            2 => self.chain(),
            3 => {
                if self.lead & (CMD | STMT) != 0 || self.s.coin() {
                    self.array()
                } else {
                    self.hash()
                }
            }
            4 => {
                if tail {
                    self.assign_expr(false)
                } else {
                    self.paren()
                }
            }
            5 => self.lambda(),
            6 => {
                if self.lead & (CMD | STMT) != 0 {
                    self.paren()
                } else {
                    self.flow()
                }
            }
            7 => self.paren(),
            8 => self.interpolated(),
            _ => {
                if self.no_here {
                    self.atom()
                } else {
                    self.heredoc()
                }
            }
        }
    }

    /// ( STMTS )
    pub fn paren(&mut self) -> X {
        let o = self.t("(");
        self.feat("paren");
        let n = self.s.weighted(&[8, 2, 1]);
        let (no_do, lp) = (std::mem::replace(&mut self.no_do, false), self.in_loop);
        let noneg = std::mem::replace(&mut self.noneg, false);
        self.gap = self.nl0();
        let x = match n {
            0 => {
                // a plain expression
                self.lead = STMT;
                self.expr_stmt()
            }
            1 => self.stmts(1),
            _ => self.stmts(2),
        };
        self.no_do = no_do;
        self.noneg = noneg;
        self.in_loop = lp;
        let c = self.tg(self.nl0(), ")");
        self.opens.push((o, c));
        self.open = false;
        x
    }

    fn operator(&mut self, level: Lv, tail: bool) -> X {
        // (level, spelling)
        const OPS: &[(Lv, &str)] = &[
            (Lv::Add, "+"),
            (Lv::Add, "-"),
            (Lv::Mul, "*"),
            (Lv::Mul, "/"),
            (Lv::Mul, "%"),
            (Lv::Pow, "**"),
            (Lv::Shift, "<<"),
            (Lv::Shift, ">>"),
            (Lv::Band, "&"),
            (Lv::Bor, "|"),
            (Lv::Bor, "^"),
            (Lv::Cmp, "<"),
            (Lv::Cmp, "<="),
            (Lv::Cmp, ">"),
            (Lv::Cmp, ">="),
            (Lv::Eq, "=="),
            (Lv::Eq, "!="),
            (Lv::Eq, "==="),
            (Lv::Eq, "=~"),
            (Lv::Eq, "!~"),
            (Lv::Eq, "<=>"),
            (Lv::Land, "&&"),
            (Lv::Lor, "||"),
            (Lv::Range, ".."),
            (Lv::Range, "..."),
            (Lv::Tern, "?"),
            (Lv::Umin, "-@"),
            (Lv::Unary, "!"),
            (Lv::Unary, "~"),
            (Lv::Unary, "+@"),
            (Lv::Arg, "defined?"),
            (Lv::Post, "defined?("),
        ];
        let (l, op) = *self.s.pick(OPS);
        // a defined? is also the last operand. cf. !defined? a
        let last = l == Lv::Arg && tail && self.s.coin();
        if !last && (l < level || (l == Lv::Arg && !tail)) {
            // needs parentheses
            let o = self.t("(");
            self.gap = self.nl0();
            let no_do = std::mem::replace(&mut self.no_do, false);
            let noneg = std::mem::replace(&mut self.noneg, false);
            self.lead = STMT;
            let x = self.op(l, op, true);
            self.no_do = no_do;
            self.noneg = noneg;
            let c = self.tg(self.nl0(), ")");
            self.opens.push((o, c));
            self.open = false;
            x
        } else {
            self.op(l, op, tail)
        }
    }

    fn sub(l: Lv) -> Lv {
        // next tighter level
        use Lv::*;
        match l {
            Arg => Tern,
            Tern => Range,
            Range => Lor,
            Lor => Land,
            Land => Eq,
            Eq => Cmp,
            Cmp => Bor,
            Bor => Band,
            Band => Shift,
            Shift => Add,
            Add => Mul,
            Mul => Umin,
            Umin => Pow,
            Pow => Unary,
            Unary => Post,
            Post => Post,
        }
    }

    fn op(&mut self, l: Lv, op: &str, tail: bool) -> X {
        let a = self.next();
        let x = self.op0(l, op, tail);
        self.ext(a, x)
    }

    fn op0(&mut self, l: Lv, op: &str, tail: bool) -> X {
        self.feat("operator");
        match op {
            "defined?(" => {
                let o = self.t("defined?");
                self.tg(Gap::No, "(");
                self.gap = self.nl0();
                let no_do = std::mem::replace(&mut self.no_do, false);
                let noneg = std::mem::replace(&mut self.noneg, false);
                let x = self.expr_stmt();
                self.no_do = no_do;
                self.noneg = noneg;
                let c = self.tg(self.nl0(), ")");
                self.opens.push((o, c));
                self.open = false;
                X::n("defined", vec![x])
            }
            "defined?" => {
                let o = self.t("defined?");
                self.opens_from(o);
                self.gap = Gap::Sp1;
                let x = self.expr(Lv::Unary, false);
                X::n("defined", vec![x])
            }
            "?" => {
                let c = self.expr(Lv::Range, false);
                let q = self.tg(Gap::Sp1, "?");
                self.gap = if self.in_body { Gap::Sp1 } else { Gap::Nl1 };
                let a = match self.s.chance(1, 10) {
                    true => match self.bare_jump() {
                        Some(x) => x,
                        None => self.arg(tail),
                    },
                    false => self.arg(tail),
                };
                let col = self.tg(if self.in_body { Gap::Sp1 } else { Gap::Nl1 }, ":");
                self.gap = if self.in_body { Gap::Sp1 } else { Gap::Nl1 };
                let end = self.next();
                let b = if tail { self.arg(true) } else { self.expr(Lv::Tern, false) };
                self.opens.push((q, end));
                let _ = col;
                self.feat("ternary");
                iff(c, a, b)
            }
            "-@" | "+@" | "!" | "~" => {
                let cmd = self.lead & CMD != 0;
                let o = self.t(&op[..1]);
                self.opens_from(o);
                self.gap = if cmd { Gap::Tight } else { Gap::Sp0 };
                let sign = op.len() == 2;
                if sign {
                    self.lead = NODIGIT;
                }
                let x = match op {
                    "-@" => self.expr(Lv::Umin, tail),
                    // the operand may be a unary minus
                    _ => self.expr(Lv::Unary, tail),
                };
                X::n(
                    match op {
                        "-@" => "u-",
                        "+@" => "u+",
                        "!" => "u!",
                        _ => "u~",
                    },
                    vec![x],
                )
            }
            ".." | "..." => {
                let a = self.expr(Lv::Lor, false);
                let o = self.tg(Gap::OpL, op);
                self.gap = Gap::OpR;
                self.opens_from(o);
                let b = self.expr(Lv::Lor, tail);
                let c = [&a, &b].iter().all(|x| x.tag == "int" || x.tag == "big");
                self.feat("range");
                X::n(op, vec![a, b, flag(c)])
            }
            "**" => {
                // -2 ** x would be -(2 ** x)
                let noneg = std::mem::replace(&mut self.noneg, true);
                let a = self.expr(Lv::Unary, false);
                self.noneg = noneg;
                let o = self.tg(Gap::OpL, "**");
                self.gap = Gap::OpR;
                self.opens_from(o);
                let b = if self.s.chance(1, 4) {
                    let m = self.t("-");
                    self.opens_from(m);
                    self.gap = Gap::Sp0;
                    self.lead = NODIGIT;
                    let x = self.expr(Lv::Umin, tail);
                    X::n("u-", vec![x])
                } else {
                    self.expr(Lv::Pow, tail)
                };
                X::n("**", vec![a, b])
            }
            _ => {
                let (ll, rl) = match l {
                    Lv::Eq => (Lv::Cmp, Lv::Cmp),
                    _ => (l, Self::sub(l)),
                };
                let a = self.expr(ll, false);
                let o = self.tg(Gap::OpL, op);
                self.gap = Gap::OpR;
                self.opens_from(o);
                let b = self.expr(rl, tail);
                match op {
                    "!~" => X::n("u!", vec![X::n("=~", vec![a, b])]),
                    "==" => X::n("==", vec![a, b]),
                    _ => X::n(op, vec![a, b]),
                }
            }
        }
    }

    // ------------------------------------------------------------ atoms

    pub fn atom(&mut self) -> X {
        let a = self.next();
        let x = self.atom0();
        self.ext(a, x)
    }

    fn atom0(&mut self) -> X {
        let f = self.cfg.focus;
        self.open = false;
        let w_num = if f == F::Num { 60 } else { 6 };
        let w_str = if f == F::Str { 60 } else { 5 };
        let w_re = if f == F::Regex { 60 } else { 1 };
        let w_name = if matches!(f, F::Name | F::Scope) { 60 } else { 16 };
        let w_sym = if matches!(f, F::Str | F::Name) { 20 } else { 3 };
        let w_int = if f == F::Interp { 30 } else { 0 };
        let w_here = if f == F::Here { 40 } else { 0 };
        let w_misc = if self.cfg.line { 14 } else { 4 };
        loop {
            match self.s.weighted(&[w_name, w_num, w_str, w_sym, w_misc, w_re, w_int, w_here]) {
                0 => return self.name(),
                1 => {
                    if self.lead & NODIGIT != 0 {
                        return self.name();
                    }
                    return self.number();
                }
                2 => return self.string(),
                3 => return self.symbol(),
                4 => {
                    if self.cfg.line && self.s.coin() {
                        let i = self.t("__LINE__");
                        self.feat("line");
                        return X::n("int", vec![X::a(format!("L{}", i))]).at((i, i));
                    }
                    let (t, x) = match self.s.below(5) {
                        0 => ("nil", X::a("nil")),
                        1 => ("true", X::a("true")),
                        2 => ("false", X::a("false")),
                        3 => ("self", X::a("self")),
                        _ => ("__FILE__", X::n("str", vec![X::a(qs(FILE))])),
                    };
                    self.t(t);
                    return x;
                }
                5 => return self.regex(),
                6 => {
                    if self.fuel > -20 {
                        self.fuel -= 1;
                        return self.interpolated();
                    }
                    return self.name();
                }
                _ => {
                    if self.no_here || self.fuel < -20 {
                        return self.name();
                    }
                    self.fuel -= 1;
                    return self.heredoc();
                }
            }
        }
    }

    fn number(&mut self) -> X {
        self.feat("number");
        let neg = !self.noneg && self.s.chance(1, 8);
        match self.s.weighted(&[8, 3, 1]) {
            0 => {
                let (t, v) = uint(self.s);
                if neg {
                    // only where it cannot be read as an operand of "-"
                    let a = self.t("-");
                    let b = self.tg(Gap::No, &t);
                    self.opens_from_range(a, b);
                    return int_x(&-v).at((a, b));
                }
                let i = self.t(&t);
                int_x(&v).at((i, i))
            }
            1 => {
                let (t, v) = ufloat(self.s);
                if neg {
                    let a = self.t("-");
                    let b = self.tg(Gap::No, &t);
                    self.opens_from_range(a, b);
                    return float_x(-v).at((a, b));
                }
                let i = self.t(&t);
                float_x(v).at((i, i))
            }
            _ => {
                if self.s.coin() {
                    let (t, v) = uint(self.s);
                    if t.starts_with('0') && t.len() > 1 {
                        let i = self.t("7");
                        return int_x(&num::BigInt::from(7)).at((i, i));
                    }
                    let i = self.t(&format!("{}i", t));
                    X::n("imag", vec![int_x(&v)]).at((i, i))
                } else {
                    let (t, v) = ufloat(self.s);
                    let i = self.t(&format!("{}i", t));
                    X::n("imag", vec![float_x(v)]).at((i, i))
                }
            }
        }
    }

    fn opens_from_range(&mut self, a: usize, b: usize) {
        self.opens.push((a, b));
    }

    /// a name that is not in the lists
    fn fresh(&mut self, upper: bool) -> String {
        const FIRST: &[&str] = &["a", "b", "k", "z", "_", "é", "日", "ß", "Ω", "ⅷ", "😀", "λ"];
        const REST: &[&str] = &["a", "e", "x", "Z", "_", "0", "9", "é", "日", "Ω", "1", "d", "😀", "Q", "ñ"];
        let mut r = String::new();
        match self.s.below(5) {
            _ if upper => r.push_str(self.s.pick_str(&["A", "B", "Z", "Nil", "End", "If", "Self", "True", "BEGINx", "E"])),
            0 => r.push_str(self.s.pick_str(FIRST)),
            1 => {
                // begins with a reserved word
                r.push_str(self.s.pick_str(RESERVED));
                r.push_str(self.s.pick_str(&["_", "x", "1", "é", "Z", "end", "if", "_a"]));
            }
            2 => {
                r.push_str(self.s.pick_str(&["_", "a", "x_", "é", "un", "re", "i"]));
                r.push_str(self.s.pick_str(RESERVED));
            }
            3 => {
                r.push_str(self.s.pick_str(FIRST));
                r.push_str(self.s.pick_str(REST));
            }
            _ => {
                // one letter more or less than a reserved word
                let w = self.s.pick_str(RESERVED);
                if self.s.coin() && w.len() > 2 {
                    r.push_str(&w[..w.len() - 1]);
                } else {
                    r.push_str(w);
                    r.push_str(self.s.pick_str(&["s", "e", "t", "r"]));
                }
            }
        }
        if r.chars().next() == Some('Ω') && !upper {
            r.insert(0, 'o');
        }
        let n = if self.s.chance(1, 20) { self.s.us(300) } else { self.s.len(4) };
        for _ in 0..n {
            r.push_str(self.s.pick_str(REST));
        }
        const MORE: &[&str] = &["__FILE__", "__LINE__", "__END__", "__ENCODING__", "__method__", "defined", "BEGIN", "END", "retry", "p", "lambda"];
        if RESERVED.contains(&r.as_str()) || CMDS.contains(&r.as_str()) || MORE.contains(&r.as_str()) || r.starts_with("__") || matches!(r.as_bytes(), [b'_', b'1'..=b'9']) {
            r.push('q');
        }
        self.feat("random_name");
        r
    }
    fn odd_name(&mut self) -> bool {
        if matches!(self.cfg.focus, F::Name) {
            self.s.chance(2, 5)
        } else {
            self.s.chance(1, 12)
        }
    }
    pub fn var_name(&mut self) -> String {
        if self.odd_name() {
            return self.fresh(false);
        }
        self.s.pick_str(VARS).to_string()
    }
    /// A reserved word with ! or ?: an ordinary method name.
    fn word_fid(&mut self) -> String {
        let w = self.s.pick_str(RESERVED);
        self.feat("word_fid");
        format!("{}{}", if w.starts_with('_') { "nil" } else { w }, self.s.pick_str(&["?", "!"]))
    }
    fn const_name(&mut self) -> String {
        if self.odd_name() {
            return self.fresh(true);
        }
        self.s.pick_str(CONSTS).to_string()
    }
    fn method_name(&mut self) -> String {
        if self.odd_name() {
            let u = self.s.chance(1, 6);
            if self.s.chance(1, 4) {
                return self.word_fid();
            }
            let n = self.fresh(u);
            return format!("{}{}", n, self.s.pick_str(&["", "", "?", "!"]));
        }
        self.s.pick_str(METHODS).to_string()
    }
    fn cmd_name(&mut self) -> String {
        if self.odd_name() {
            // never the name of a variable
            if self.s.chance(1, 4) {
                return self.word_fid();
            }
            let n = self.fresh(false);
            return format!("{}cm{}", n, self.s.pick_str(&["", "", "?", "!"]));
        }
        self.s.pick_str(CMDS).to_string()
    }
    fn ivar_name(&mut self) -> String {
        if self.odd_name() {
            let u = self.s.coin();
            return format!("@{}", self.fresh(u));
        }
        self.s.pick_str(IVARS).to_string()
    }
    fn cvar_name(&mut self) -> String {
        if self.odd_name() {
            let u = self.s.coin();
            return format!("@@{}", self.fresh(u));
        }
        self.s.pick_str(CVARS).to_string()
    }
    fn gvar_name(&mut self) -> String {
        if self.odd_name() {
            let u = self.s.coin();
            if self.s.chance(1, 5) {
                // much like a name with a meaning of its own
                let w = self.s.pick_str(&["LOAD_PATH", "LOADED_FEATURES"]);
                return match self.s.below(5) {
                    0 => format!("${}", &w[..w.len() - 1]),
                    1 => format!("$_{}", w),
                    2 => format!("${}", w.to_lowercase()),
                    3 => format!("${}{}", w, self.s.pick_str(&["S", "_", "1", "é", "x"])),
                    _ => format!("$-{}", self.s.pick_str(&["a", "d", "i", "l", "p", "v", "F", "I", "K", "W", "0"])),
                };
            }
            return format!("${}", self.fresh(u));
        }
        self.s.pick_str(GVARS).to_string()
    }

    /// variable, constant or bare call
    pub fn name(&mut self) -> X {
        self.feat("name");
        match self.s.weighted(&[10, 3, 3, 1, 2]) {
            0 => self.ident(),
            1 => self.constant(),
            2 => {
                let n = self.ivar_name();
 let n: &str = &n;
                let i = self.t(n);
                X::n("ivar", vec![X::a(n)]).at((i, i))
            }
            3 => {
                let n = self.cvar_name();
 let n: &str = &n;
                let i = self.t(n);
                X::n("cvar", vec![X::a(n)]).at((i, i))
            }
            _ => self.gvar(),
        }
    }

    fn gvar(&mut self) -> X {
        if self.s.chance(1, 5) {
            let (t, v) = match self.s.below(3) {
                0 => {
                    let n = 1 + self.s.below(9);
                    (format!("${}", n), 100 + n)
                }
                1 => {
                    let n = 10 + self.s.below(90);
                    (format!("${}", n), 100 + n)
                }
                _ => {
                    let (t, v) = *self.s.pick(&[("$&", 0), ("$'", 1), ("$:", 10), ("$LOAD_PATH", 10), ("$\"", 11), ("$LOADED_FEATURES", 11)]);
                    (t.to_string(), v)
                }
            };
            let i = self.t(&t);
            return X::n("svar", vec![X::a(v.to_string())]).at((i, i));
        }
        // the last two cannot be set
        let n = if self.s.chance(1, 12) { self.s.pick_str(&["$`", "$+"]).to_string() } else { self.gvar_name() };
 let n: &str = &n;
        let i = self.t(n);
        X::n("gvar", vec![X::a(n)]).at((i, i))
    }

    pub fn ident(&mut self) -> X {
        // prefer variables that exist
        let n = if self.s.coin() {
            match self.visible_name() {
                Some(n) => n,
                None => self.var_name(),
            }
        } else {
            self.var_name()
        };
        if n == "..." || self.avoid.contains(&n) && self.lookup(&n).is_none() {
            let i = self.t("self");
            return X::a("self").at((i, i));
        }
        let i = self.t(&n);
        match self.lookup(&n) {
            Some(d) => {
                if d > 0 {
                    self.feat("outer_var");
                }
                lv(d, &n).at((i, i))
            }
            None => ident(&n).at((i, i)),
        }
    }

    fn constant(&mut self) -> X {
        let n = 1 + self.s.len(2);
        let top = self.s.chance(1, 8) && self.lead & CMD == 0;
        let start = self.next();
        let mut path = String::new();
        if top {
            let o = self.t("::");
            self.opens_from(o);
        }
        for i in 0..n {
            let c = self.const_name();
 let c: &str = &c;
            if i > 0 {
                let o = self.tg(Gap::No, "::");
                self.opens_from(o);
                path.push_str("::");
            }
            if i > 0 || top {
                self.gap = Gap::No;
            }
            path.push_str(c);
            self.t(c);
        }
        let end = self.last();
        konst(top, None, &path).at((start, end))
    }

    // ------------------------------------------------------------ text literals

    pub fn symbol(&mut self) -> X {
        self.feat("symbol");
        match self.s.weighted(&[6, 3, 3, 2]) {
            0 => {
                let n = match self.s.below(8) {
                    0 if self.s.chance(1, 3) => self.s.pick_str(&["$a", "$foo", "$_x", "$é", "$-w", "$~", "$!", "$&", "$1", "$12", "$_", "$LOAD_PATH", "$0"]).to_string(),
                    0 => self.const_name(),
                    1 => self.ivar_name(),
                    2 => self.cvar_name(),
                    3 => self.s.pick_str(RESERVED).to_string(),
                    4 => format!("{}=", self.var_name()),
                    5 => format!("{}{}", self.var_name(), self.s.pick_str(&["?", "!"])),
                    _ => self.var_name(),
                };
                let i = self.tk(&format!(":{}", n), K::Sym);
                sym(&n).at((i, i))
            }
            1 => {
                let n = self.s.pick_str(&["+", "-", "*", "/", "%", "**", "==", "===", "=~", "<=>", "<", "<=", ">", ">=", "<<", ">>", "&", "|", "^", "!", "!=", "~", "[]", "[]=", "+@", "-@", "!~", "`"]).to_string();
                let i = self.tk(&format!(":{}", n), K::Sym);
                sym(&n).at((i, i))
            }
            2 => {
                // :"..."
                let d = Delim { open: "\"", close: '"', nest: None };
                let mut t = Text::new();
                let o = Opts { bytes: false, nl: self.cfg.multi_line_tokens && !self.in_body, interp: true, cont: false };
                for _ in 0..self.s.len(6) {
                    dq_atom(self.s, &mut t, d, o, 0);
                }
                let i = self.tk(&format!(":\"{}\"", t.src), K::Normal);
                sym(&t.val.text()).at((i, i))
            }
            _ => {
                let d = Delim { open: "'", close: '\'', nest: None };
                let mut t = Text::new();
                let nl = self.cfg.multi_line_tokens && !self.in_body;
                for _ in 0..self.s.len(6) {
                    sq_atom(self.s, &mut t, d, nl, 0);
                }
                let i = self.tk(&format!(":'{}'", t.src), K::Normal);
                sym(&t.val.text()).at((i, i))
            }
        }
    }

    fn delim(&mut self) -> Delim {
        if self.s.chance(2, 3) {
            let (o, c, n) = *self.s.pick(BRACKETS);
            Delim { open: o, close: c, nest: Some(n) }
        } else {
            let d = *self.s.pick(PLAIN_DELIMS);
            Delim { open: d, close: d.chars().next().unwrap(), nest: None }
        }
    }

    fn text_len(&mut self) -> usize {
        let max = 4 + self.s.size as usize / 4;
        if self.s.chance(1, 3) {
            self.s.us(max)
        } else {
            self.s.len(6)
        }
    }

    /// a literal without embedded code
    pub fn string(&mut self) -> X {
        self.feat("string");
        let nl = self.cfg.multi_line_tokens && !self.in_body;
        let w_cmd = 1;
        match self.s.weighted(&[6, 4, 3, 2, 2, 1, w_cmd]) {
            0 | 1 => {
                // "..." '...' and adjacent ones
                let n = 1 + if self.s.chance(1, 6) { 1 + self.s.len(2) } else { 0 };
                let mut val = Val::default();
                let first = self.next();
                for i in 0..n {
                    if i > 0 {
                        self.gap = Gap::Sp0;
                        self.feat("adjacent");
                    }
                    let mut t = Text::new();
                    let len = self.text_len();
                    let text = if self.s.coin() {
                        let d = Delim { open: "\"", close: '"', nest: None };
                        let o = Opts { bytes: true, nl, interp: true, cont: true };
                        for _ in 0..len {
                            dq_atom(self.s, &mut t, d, o, 0);
                        }
                        format!("\"{}\"", t.src)
                    } else {
                        let d = Delim { open: "'", close: '\'', nest: None };
                        for _ in 0..len {
                            sq_atom(self.s, &mut t, d, nl, 0);
                        }
                        format!("'{}'", t.src)
                    };
                    val.binary |= t.val.binary;
                    val.bytes.extend(&t.val.bytes);
                    self.t(&text);
                }
                if n == 1 {
                    val.x().at((first, first))
                } else {
                    val.x()
                }
            }
            2 => {
                // %() %Q()
                let d = self.delim();
                let mut t = Text::new();
                let o = Opts { bytes: true, nl, interp: true, cont: true };
                for _ in 0..self.text_len() {
                    dq_atom(self.s, &mut t, d, o, 0);
                }
                let q = if self.s.coin() || self.lead & CMD != 0 && d.open == "=" { "Q" } else { "" };
                self.t(&format!("%{}{}{}{}", q, d.open, t.src, d.close));
                self.feat("percent");
                t.val.x()
            }
            3 => {
                let d = self.delim();
                let mut t = Text::new();
                for _ in 0..self.text_len() {
                    sq_atom(self.s, &mut t, d, nl, 0);
                }
                self.t(&format!("%q{}{}{}", d.open, t.src, d.close));
                self.feat("percent");
                t.val.x()
            }
            4 => self.words(),
            5 => {
                // ?x
                let (t, v) = match self.s.below(5) {
                    0 => {
                        let c = *self.s.pick(UNI);
                        (format!("?{}", c), c)
                    }
                    1 => {
                        let c = *self.s.pick(&['a', 'Z', '0', '_', '"', '\'', '#', '(', ')', ';', ',', '{', '}', '|', '?', '!', '+', '/', ':']);
                        (format!("?{}", c), c)
                    }
                    2 => {
                        let (a, c) = *self.s.pick(&[('n', '\n'), ('t', '\t'), ('s', ' '), ('e', '\x1b'), ('\\', '\\'), ('a', '\x07'), ('r', '\r')]);
                        (format!("?\\{}", a), c)
                    }
                    3 => {
                        let v = 0x20 + self.s.below(0x5f);
                        (format!("?\\x{:02x}", v), char::from_u32(v as u32).unwrap())
                    }
                    _ => {
                        let c = *self.s.pick(&['é', 'あ', '\u{fffd}', 'A']);
                        (format!("?\\u{:04x}", c as u32), c)
                    }
                };
                self.feat("char");
                let i = self.t(&t);
                X::n("str", vec![X::a(qs(&v.to_string()))]).at((i, i))
            }
            _ => {
                // `...`
                let d = Delim { open: "`", close: '`', nest: None };
                let mut t = Text::new();
                let o = Opts { bytes: false, nl, interp: true, cont: true };
                for _ in 0..self.text_len() {
                    dq_atom(self.s, &mut t, d, o, 0);
                }
                self.t(&format!("`{}`", t.src));
                self.feat("backquote");
                X::n("cmd", vec![t.val.x()])
            }
        }
    }

    /// %w %i
    fn words(&mut self) -> X {
        let is_sym = self.s.coin();
        let d = self.delim();
        let nl = self.cfg.multi_line_tokens && !self.in_body;
        let ws: &[&str] = if nl { &[" ", "  ", "\n", "\t", " \n "] } else { &[" ", "  ", "\t"] };
        let mut src = String::new();
        let mut v = vec![];
        let n = self.s.len(5);
        if self.s.chance(1, 4) {
            src.push_str(self.s.pick_str(ws));
        }
        for i in 0..n {
            if i > 0 {
                src.push_str(self.s.pick_str(ws));
            }
            let mut w = String::new();
            for _ in 0..1 + self.s.len(4) {
                let c = match self.s.below(4) {
                    0 => *self.s.pick(&['é', 'あ', '😀', '\u{3000}']),
                    _ => *self.s.pick(&['a', 'b', 'X', '1', '_', '-', '+', ',', '#', '"', '\'', '?', ':', ';', '.', '=', '!', '@', '$', '&', '*', '{', '}', '/', '|']),
                };
                if c == d.close || Some(c) == d.nest {
                    if self.s.coin() {
                        src.push('\\');
                    } else {
                        continue;
                    }
                }
                src.push(c);
                w.push(c);
            }
            if self.s.chance(1, 8) && d.nest.is_some() {
                // nested brackets
                let o = d.nest.unwrap();
                src.push(o);
                src.push('k');
                src.push(d.close);
                w.push(o);
                w.push('k');
                w.push(d.close);
            }
            if w.is_empty() {
                src.push('w');
                w.push('w');
            }
            v.push(w);
        }
        if self.s.chance(1, 4) {
            src.push_str(self.s.pick_str(ws));
        }
        self.feat("words");
        self.t(&format!("%{}{}{}{}", if is_sym { "i" } else { "w" }, d.open, src, d.close));
        arr(v.iter().map(|w| if is_sym { sym(w) } else { X::n("str", vec![X::a(qs(w))]) }).collect())
    }

    /// "...#{code}..." and the like
    pub fn interpolated(&mut self) -> X {
        self.feat("interpolation");
        let nl = self.cfg.multi_line_tokens && !self.in_body;
        // quoted symbols and %-literals at the beginning of an argument are fine too
        let k = self.s.weighted(&[6, 2, 2, 1, 1]);
        if k == 1 {
            return self.regex_interp();
        }
        let d = match k {
            0 => Delim { open: "\"", close: '"', nest: None },
            2 => self.delim(),
            3 => Delim { open: "`", close: '`', nest: None },
            _ => Delim { open: ":\"", close: '"', nest: None },
        };
        let open = match k {
            2 if self.lead & CMD != 0 && d.open == "=" => format!("%Q{}", d.open),
            2 => format!("%{}{}", if self.s.coin() { "Q" } else { "" }, d.open),
            _ => d.open.to_string(),
        };
        let mut pieces = vec![];
        let o = Opts { bytes: false, nl, interp: true, cont: true };
        let tight = Text::new();
        // the one with code may come after ones without
        if k == 0 && self.s.chance(1, 6) {
            for _ in 0..1 + self.s.len(1) {
                let mut t = Text::new();
                let dq = self.s.coin();
                let len = self.s.len(4);
                for _ in 0..len {
                    if dq {
                        dq_atom(self.s, &mut t, d, o, 0);
                    } else {
                        sq_atom(self.s, &mut t, Delim { open: "'", close: '\'', nest: None }, nl, 0);
                    }
                }
                let q = if dq { '"' } else { '\'' };
                self.t(&format!("{}{}{}", q, t.src, q));
                pieces.push(Piece::S(t.val));
                self.gap = Gap::Sp0;
                self.feat("adjacent");
            }
        }
        let first = self.next();
        self.pieces(&open, &d.close.to_string(), d, o, &mut pieces, 1, tight, 0);
        let last = self.last();
        if last > first {
            self.opens.push((first, last));
        }
        // adjacent literals
        if k == 0 && self.s.chance(1, 6) {
            self.gap = Gap::Sp0;
            self.feat("adjacent");
            let d = Delim { open: "\"", close: '"', nest: None };
            let mut t = Text::new();
            for _ in 0..self.s.len(4) {
                dq_atom(self.s, &mut t, d, o, 0);
            }
            self.t(&format!("\"{}\"", t.src));
            pieces.push(Piece::S(t.val));
            if self.s.coin() {
                self.gap = Gap::Sp0;
                let f = self.next();
                self.pieces("\"", "\"", d, o, &mut pieces, 1, Text::new(), 0);
                let l = self.last();
                if l > f {
                    self.opens.push((f, l));
                }
            }
        }
        let x = dstr(pieces);
        match k {
            3 => X::n("cmd", vec![x]),
            4 => call(x, "to_sym", Al::default()),
            _ => x,
        }
    }

    /// Emit the pieces of a literal with embedded code. Text level is literal text.
    fn pieces(&mut self, open: &str, close: &str, d: Delim, o: Opts, out: &mut Vec<Piece>, min: usize, t0: Text, wild: usize) {
        let _ = wild;
        let mut t = t0;
        let n = min + self.s.len(2);
        let mut prefix = open.to_string();
        let mut kind = K::Normal;
        // brackets opened in an earlier piece of the text
        let mut open_nest = 0;
        for _ in 0..n {
            let len = self.s.len(4);
            for _ in 0..len {
                dq_atom(self.s, &mut t, d, o, 0);
            }
            if let Some(b) = d.nest {
                // an unclosed bracket that is closed in a later piece
                if self.s.chance(1, 10) {
                    if open_nest > 0 {
                        t.src.push(d.close);
                        t.val.ch(d.close);
                        open_nest -= 1;
                    } else if b != '{' || !t.src.ends_with('#') {
                        t.src.push(b);
                        t.val.ch(b);
                        open_nest += 1;
                    }
                }
            }
            out.push(Piece::S(std::mem::take(&mut t.val)));
            let src = std::mem::take(&mut t.src);
            if self.s.chance(1, 4) {
                // #@x
                let (v, x) = match self.s.below(6) {
                    4 => {
                        let n = if self.s.coin() { 1 + self.s.below(9) } else { 10 + self.s.below(90) };
                        (format!("${}", n), X::n("svar", vec![X::a((100 + n).to_string())]))
                    }
                    5 => {
                        const PUNCT: &[(&str, u32)] = &[("$&", 0), ("$'", 1), ("$:", 10), ("$\"", 11), ("$~", 99), ("$!", 99), ("$?", 99), ("$/", 99), ("$0", 99), ("$-w", 99), ("$-0", 99), ("$+", 99), ("$*", 99), ("$$", 99), ("$,", 99), ("$;", 99), ("$<", 99), ("$>", 99)];
                        let (v, n) = *self.s.pick(PUNCT);
                        if v.ends_with(d.close) || d.nest.map_or(false, |c| v.ends_with(c)) {
                            ("$_x".to_string(), X::n("gvar", vec![X::a("$_x")]))
                        } else if n == 99 {
                            (v.to_string(), X::n("gvar", vec![X::a(v)]))
                        } else {
                            (v.to_string(), X::n("svar", vec![X::a(n.to_string())]))
                        }
                    }
                    0 => {
                        let v = self.cvar_name();
 let v: &str = &v;
                        (v.to_string(), X::n("cvar", vec![X::a(v)]))
                    }
                    1 => {
                        let v = self.s.pick_str(&["$a", "$foo", "$_x", "$A"]);
                        (v.to_string(), X::n("gvar", vec![X::a(v)]))
                    }
                    _ => {
                        let v = self.ivar_name();
 let v: &str = &v;
                        (v.to_string(), X::n("ivar", vec![X::a(v)]))
                    }
                };
                if kind == K::Raw {
                    self.gap = Gap::No;
                }
                self.tk(&format!("{}{}#", prefix, src), kind);
                let i = self.toks.len();
                self.gap = Gap::No;
                self.tk(&v, K::Raw);
                out.push(Piece::X(x.at((i, i))));
                prefix = String::new();
                kind = K::Raw;
                t = Text::new();
                t.no_ident = true;
                self.feat("hash_var");
            } else {
                if kind == K::Raw && prefix.is_empty() {
                    self.gap = Gap::No;
                }
                self.tk(&format!("{}{}#{{", prefix, src), kind);
                let (no_do, no_here, lp) = (std::mem::replace(&mut self.no_do, false), std::mem::replace(&mut self.no_here, true), self.in_loop);
                self.gap = self.nl0();
                let x = self.stmts(0);
                self.no_do = no_do;
                self.no_here = no_here;
                self.in_loop = lp;
                out.push(Piece::X(x));
                self.gap = self.nl0();
                prefix = "}".to_string();
                kind = K::Raw;
                t = Text::new();
            }
        }
        let len = self.s.len(4);
        for _ in 0..len {
            dq_atom(self.s, &mut t, d, o, 0);
        }
        for _ in 0..open_nest {
            t.src.push(d.close);
            t.val.ch(d.close);
        }
        out.push(Piece::S(std::mem::take(&mut t.val)));
        if prefix.is_empty() {
            self.gap = Gap::No;
        }
        let text = format!("{}{}{}", prefix, t.src, close);
        if !text.is_empty() {
            self.tk(&text, kind);
        }
        self.gap = Gap::Sp0;
    }

    // ------------------------------------------------------------ regular expressions

    fn regex_atom(&mut self, src: &mut String, val: &mut String, cls: bool, free: &mut bool, st: &mut ReSt) {
        // `st` carries what may not come next
        let nl = self.cfg.multi_line_tokens && !self.in_body;
        match self.s.weighted(&[10, 2, 6, 2, 2]) {
            0 => {
                // outside of a class, a lone bracket is an ordinary character
                if !cls && self.s.chance(1, 40) {
                    st.clear();
                    src.push(']');
                    val.push(']');
                    return;
                }
                let c = *self.s.pick(&['a', 'b', 'z', '0', '7', '.', '*', '+', '?', '|', '^', '$', '-', ',', '!', '"', '\'', '=', '<', '>', '&', '@', '_', ' ', ';', '`', '%', '~', 'f', '#', '{', '}']);
                if st.no_hex && c.is_ascii_hexdigit() || st.no_oct && c.is_ascii_digit() || st.hash && "{@$".contains(c) || st.no_ident && wordish(c) {
                    return;
                }
                if src.is_empty() && st.first && st.cmd && (c == ' ' || c == '=') {
                    return;
                }
                if c == '#' && *free {
                    return;
                }
                st.clear();
                st.hash = c == '#';
                src.push(c);
                if !(*free && !cls && c == ' ') {
                    val.push(c);
                }
            }
            1 => {
                let c = *self.s.pick(&['é', 'あ', '😀', '\u{3000}']);
                if st.no_ident {
                    return;
                }
                st.clear();
                src.push(c);
                val.push(c);
            }
            2 => {
                let prev = std::mem::take(st);
                match self.s.below(7) {
                    0 => {
                        let (a, b) = *self.s.pick(&[('n', "\\n"), ('t', "\\t"), ('r', "\\r"), ('f', "\\f"), ('v', "\\v"), ('a', "\\a"), ('e', "\\x1b"), ('s', "[[:space:]]")]);
                        src.push('\\');
                        src.push(a);
                        val.push_str(b);
                    }
                    1 => {
                        src.push_str("\\b");
                        val.push_str(if cls { "\\x08" } else { "\\b" });
                    }
                    2 => {
                        let c = *self.s.pick(&['d', 'w', 'S', 'D', 'W', 'A', 'z', 'Z', 'G', 'B', 'h', 'H', '.', '*', '(', ')', '[', ']', '{', '}', '/', '\\', '?', '+', '|', '^', '$', '-', '#', ' ', '8']);
                        if c == '8' && cls {
                            *st = prev;
                            return;
                        }
                        src.push('\\');
                        src.push(c);
                        val.push('\\');
                        val.push(c);
                        st.no_oct = c == '8';
                    }
                    3 => {
                        let v = self.s.below(256);
                        let short = v < 16 && self.s.coin();
                        let h = if short { format!("{:x}", v) } else { format!("{:02x}", v) };
                        let h = if self.s.coin() { h.to_uppercase() } else { h };
                        src.push_str(&format!("\\x{}", h));
                        val.push_str(&format!("\\x{:02x}", v));
                        st.no_hex = short;
                    }
                    4 => {
                        // octal: 0, 0n, nn, nnn
                        let v = self.s.below(128);
                        let mut h = format!("{:o}", v);
                        if h.len() == 1 {
                            h.insert(0, '0');
                        }
                        src.push_str(&format!("\\{}", h));
                        val.push_str(&format!("\\x{:02x}", v));
                        st.no_oct = true;
                    }
                    5 => {
                        if cls {
                            *st = prev;
                            return;
                        }
                        let n = 1 + self.s.below(9);
                        src.push_str(&format!("\\{}", n));
                        val.push_str(&format!("\\{}", n));
                        st.no_oct = true;
                    }
                    _ => {
                        let c = *self.s.pick(&['k', 'p', 'R', 'X', 'K', 'é', 'u', 'l', '%', ',']);
                        src.push('\\');
                        src.push(c);
                        val.push('\\');
                        val.push(c);
                        if c == 'u' {
                            src.push_str("00e9");
                            val.push_str("00e9");
                        }
                    }
                }
            }
            3 => {
                if st.first && st.cmd && src.is_empty() {
                    return;
                }
                if *free {
                    st.clear();
                    // whitespace or a comment
                    match self.s.below(4) {
                        0 => src.push(' '),
                        1 => src.push('\t'),
                        2 if nl => src.push('\n'),
                        3 if nl && !cls => {
                            let c = self.s.pick_str(&["# c\n", "#\n", "# ) x (\n", "# é \\d\n", "#' \"\n", "#a b # c\n"]);
                            src.push_str(c);
                        }
                        _ => src.push('\t'),
                    }
                    if cls {
                        // kept inside of a class
                        let added: String = src.chars().rev().take(1).collect();
                        if " \t\n".contains(added.as_str()) {
                            val.push_str(&added);
                        }
                    }
                } else if nl && self.s.chance(1, 3) {
                    // a line break behind a backslash is dropped
                    st.clear();
                    src.push_str("\\\n");
                } else if nl {
                    st.clear();
                    src.push('\n');
                    val.push('\n');
                }
            }
            _ => {
                if cls {
                    // a class within a class
                    st.clear();
                    match self.s.below(3) {
                        0 => {
                            let o = self.s.pick_str(&["[:alpha:]", "[:^digit:]", "&&[^s]", "[s]", "&&"]);
                            src.push_str(o);
                            val.push_str(o);
                        }
                        _ => {
                            let o = self.s.pick_str(&["[q", "[^q", "&&[q"]);
                            src.push_str(o);
                            val.push_str(o);
                            let mut st2 = ReSt::default();
                            for _ in 0..self.s.len(3) {
                                self.regex_atom(src, val, true, free, &mut st2);
                            }
                            if st2.hash {
                                src.push('r');
                                val.push('r');
                            }
                            src.push(']');
                            val.push(']');
                        }
                    }
                    return;
                }
                let prev = std::mem::take(st);
                match self.s.below(3) {
                    0 => {
                        // character class
                        src.push('[');
                        val.push('[');
                        if self.s.chance(1, 4) {
                            src.push('^');
                            val.push('^');
                        }
                        src.push('q');
                        val.push('q');
                        let mut st2 = ReSt::default();
                        for _ in 0..self.s.len(5) {
                            self.regex_atom(src, val, true, free, &mut st2);
                        }
                        if st2.hash {
                            src.push('r');
                            val.push('r');
                        }
                        src.push(']');
                        val.push(']');
                    }
                    1 => {
                        let o = self.s.pick_str(&["(", "(?:", "(?=", "(?<n>", "(?i)("]);
                        src.push_str(o);
                        val.push_str(o);
                        for _ in 0..self.s.len(4) {
                            self.regex_atom(src, val, false, free, st);
                        }
                        src.push(')');
                        val.push(')');
                        st.clear();
                    }
                    _ => {
                        let o = self.s.pick_str(&["a{2}", "b{1,3}", "c{2,}", "[[:alpha:]]", ".*?", "\\p{Alpha}"]);
                        if (prev.no_ident || prev.no_hex) && o.starts_with(wordish) {
                            *st = prev;
                            return;
                        }
                        src.push_str(o);
                        val.push_str(o);
                    }
                }
            }
        }
    }

    fn regex_opts(&mut self, free: bool) -> (String, String) {
        let mut o = String::new();
        let mut v = "m".to_string();
        let xpos = self.s.us(3);
        let n = self.s.len(3);
        for i in 0..n.max(1) {
            if free && i == xpos.min(n.saturating_sub(1)) {
                o.push('x');
            }
            if n == 0 {
                break;
            }
            match self.s.below(5) {
                0 => {
                    o.push('i');
                    v.push('i');
                }
                1 => {
                    o.push('m');
                    v.push('s');
                }
                2 => o.push('o'),
                3 if free && o.contains('x') => o.push('x'),
                3 => o.push('u'),
                _ => o.push(*self.s.pick(&['n', 'n', 'e', 's'])),
            }
        }
        (o, v)
    }

    /// %r with plain text
    fn percent_regex(&mut self) -> X {
        self.feat("percent_regex");
        let d = self.delim();
        let nl = self.cfg.multi_line_tokens && !self.in_body;
        let (mut src, mut val) = (String::new(), String::new());
        for _ in 0..self.text_len() {
            match self.s.below(12) {
                0 => {
                    let c = *self.s.pick(&['é', 'あ', '😀', '\u{3000}']);
                    src.push(c);
                    val.push(c);
                }
                1 if nl => src.push_str("\\\n"),
                2 if nl => {
                    src.push('\n');
                    val.push('\n');
                }
                3 => {
                    let t = self.s.pick_str(&["\\d", "\\w", "\\.", "\\n", "\\\\", "\\/"]);
                    src.push_str(t);
                    val.push_str(t);
                }
                4 if d.nest.is_some() => {
                    let t = format!("{}k{}", d.nest.unwrap(), d.close);
                    src.push_str(&t);
                    val.push_str(&t);
                }
                _ => {
                    let c = *self.s.pick(&['a', 'Z', '0', '/', '/', '.', '*', '+', '?', '^', '$', '|', '-', ' ', '"', '\'', ',', ':', '@', '=', '!', '%', '&', '~']);
                    if c != d.close {
                        src.push(c);
                        val.push(c);
                    }
                }
            }
        }
        let (o, v) = self.regex_opts(false);
        self.tk(&format!("%r{}{}{}{}", d.open, src, d.close, o), K::Regex);
        X::n("regexp", vec![X::n("parts", vec![X::n("str", vec![X::a(qs(&val))])]), X::a(qs(&v)), flag(true)])
    }

    pub fn regex(&mut self) -> X {
        if self.s.chance(1, 10) {
            return self.percent_regex();
        }
        self.feat("regex");
        let mut free = self.s.chance(1, 3);
        if free {
            self.feat("regex_x");
        }
        let mut st = ReSt { first: true, cmd: self.lead & CMD != 0, ..Default::default() };
        let (mut src, mut val) = (String::new(), String::new());
        for _ in 0..self.text_len() {
            self.regex_atom(&mut src, &mut val, false, &mut free, &mut st);
        }
        let (o, v) = self.regex_opts(free);
        self.tk(&format!("/{}/{}", src, o), K::Regex);
        X::n("regexp", vec![X::n("parts", vec![X::n("str", vec![X::a(qs(&val))])]), X::a(qs(&v)), flag(true)])
    }

    /// A part of a regular expression between interpolations, which may begin inside of a class.
    fn regex_piece(&mut self, src: &mut String, val: &mut String, cls: &mut bool, free: &mut bool, st: &mut ReSt) {
        if *cls {
            for _ in 0..self.s.len(2) {
                self.regex_atom(src, val, true, free, st);
            }
            if self.s.chance(1, 3) {
                return;
            }
            if st.hash {
                src.push('r');
                val.push('r');
            }
            src.push(']');
            val.push(']');
            st.clear();
            *cls = false;
        }
        for _ in 0..self.s.len(4) {
            self.regex_atom(src, val, false, free, st);
        }
    }

    fn regex_interp(&mut self) -> X {
        self.feat("regex_interp");
        let mut free = self.s.chance(1, 3);
        let n = 1 + self.s.len(2);
        let mut parts = vec![];
        let mut prefix = "/".to_string();
        let mut kind = K::Regex;
        let first = self.next();
        let mut st = ReSt { first: true, cmd: self.lead & CMD != 0, ..Default::default() };
        // inside of a character class
        let mut cls = false;
        for _ in 0..n {
            let (mut src, mut val) = (String::new(), String::new());
            self.regex_piece(&mut src, &mut val, &mut cls, &mut free, &mut st);
            if !cls && self.s.chance(1, 5) {
                self.feat("regex_class_interp");
                let o = self.s.pick_str(&["[", "[^", "[q", "[q[^r]", "[\\]"]);
                src.push_str(o);
                val.push_str(o);
                st.clear();
                cls = true;
                for _ in 0..self.s.len(2) {
                    self.regex_atom(&mut src, &mut val, true, &mut free, &mut st);
                }
            }
            if st.hash {
                src.push('r');
                val.push('r');
            }
            parts.push(X::n("str", vec![X::a(qs(&val))]));
            if prefix.is_empty() {
                self.gap = Gap::No;
            }
            st = ReSt::default();
            if self.s.chance(1, 4) {
                self.tk(&format!("{}{}#", prefix, src), kind);
                let v = self.ivar_name();
 let v: &str = &v;
                self.gap = Gap::No;
                let i = self.tk(v, K::Raw);
                parts.push(X::n("ivar", vec![X::a(v)]).at((i, i)));
                prefix = String::new();
                st.no_ident = true;
            } else {
                self.tk(&format!("{}{}#{{", prefix, src), kind);
                let (no_do, no_here) = (std::mem::replace(&mut self.no_do, false), std::mem::replace(&mut self.no_here, true));
                self.gap = self.nl0();
                let x = self.stmts(0);
                self.no_do = no_do;
                self.no_here = no_here;
                // a plain string literal as embedded code would be taken as pattern text under x
                if x.tag == "str" {
                    self.tg(Gap::Sp0, ";");
                    let i = self.t("nil");
                    parts.push(seq(vec![x, X::a("nil").at((i, i))]));
                } else {
                    parts.push(x);
                }
                self.gap = self.nl0();
                prefix = "}".to_string();
            }
            kind = K::Raw;
        }
        let (mut src, mut val) = (String::new(), String::new());
        let mut f2 = free;
        self.regex_piece(&mut src, &mut val, &mut cls, &mut f2, &mut st);
        if cls {
            if st.hash {
                src.push('r');
                val.push('r');
            }
            src.push(']');
            val.push(']');
        }
        parts.push(X::n("str", vec![X::a(qs(&val))]));
        if prefix.is_empty() {
            self.gap = Gap::No;
        }
        let (o, v) = self.regex_opts(free);
        let i = self.tk(&format!("{}{}/{}", prefix, src, o), K::Raw);
        // letters may not follow directly
        self.toks[i].kind = K::Raw;
        self.opens.push((first, i));
        self.gap = Gap::Sp0;
        let c = parts.iter().all(is_lit);
        X::n("regexp", vec![X::n("parts", parts), X::a(qs(&v)), flag(c)])
    }

    // ------------------------------------------------------------ here-documents

    pub fn heredoc(&mut self) -> X {
        self.feat("heredoc");
        self.term_no += 1;
        let base = *self.s.pick(&["A", "EOS", "e", "Tx", "end", "é", "_H"]);
        let term = if self.s.coin() { base.to_string() } else { format!("{}{}", base, self.term_no) };
        let dash = self.s.coin();
        let mode = self.s.weighted(&[4, 3, 3, 1]); // plain, "", '', ``
        let q = ["", "\"", "'", "`"][mode];
        let tok = self.t(&format!("<<{}{}{}{}", if dash { "-" } else { "" }, q, term, q));
        let b = self.bodies.len();
        self.bodies.push(Body { toks: vec![], term: term.clone(), dash });
        self.toks[tok].here = Some(b);
        let saved = std::mem::take(&mut self.order);
        let saved_flags = (self.no_here, self.in_body, self.no_do, self.gap);
        self.no_here = true;
        self.in_body = true;
        self.no_do = false;
        let x = if mode == 2 {
            // raw lines
            let mut text = String::new();
            for _ in 0..self.s.len(4) {
                let mut line = String::new();
                for _ in 0..self.s.len(6) {
                    match self.s.below(5) {
                        0 => line.push(*self.s.pick(UNI)),
                        1 => line.push_str(self.s.pick_str(&["\\n", "\\", "#{x}", "\\\\", "'", "\"", "#@a", "<<A", "/*"])),
                        _ => line.push_str(self.s.pick_str(PLAIN)),
                    }
                }
                if self.collides(&line, &term) {
                    line.push('!');
                }
                if self.s.chance(1, 6) {
                    line = self.near_term(&term, dash, b);
                }
                text.push_str(&line);
                text.push('\n');
            }
            self.gap = Gap::No;
            if !text.is_empty() {
                self.tk(&text, K::Raw);
            }
            X::n("str", vec![X::a(qs(&text))])
        } else {
            let d = Delim { open: "", close: '\0', nest: None };
            // line by line
            let mut pieces: Vec<Piece> = vec![];
            let lines = self.s.len(3);
            let o = Opts { bytes: false, nl: false, interp: true, cont: false };
            for _ in 0..lines {
                // every line begins with something that cannot be the terminator
                let mut t = Text::new();
                let lead = self.s.pick_str(&["", "|", "  ", "x", "- "]);
                t.src.push_str(lead);
                t.val.bytes.extend(lead.as_bytes());
                let interp = self.s.chance(1, 3);
                if self.s.chance(1, 6) {
                    let mut line = self.near_term(&term, dash, b);
                    line.push('\n');
                    self.gap = Gap::No;
                    self.tk(&line, K::Raw);
                    pieces.push(Piece::S(Val { bytes: line.into_bytes(), binary: false }));
                } else if interp {
                    self.gap = Gap::No;
                    let n0 = self.toks.len();
                    self.pieces("", "\n", d, o, &mut pieces, 1, t, 0);
                    self.toks[n0].kind = K::Raw;
                    self.toks[n0].gap = Gap::No;
                    pieces.push(Piece::S(Val { bytes: b"\n".to_vec(), binary: false }));
                    self.feat("heredoc_interp");
                } else {
                    for _ in 0..self.s.len(5) {
                        dq_atom(self.s, &mut t, d, o, 0);
                    }
                    if self.collides(&t.src, &term) {
                        t.src.push('!');
                        t.val.ch('!');
                    }
                    if self.s.chance(1, 8) && !t.src.is_empty() && !t.src.ends_with('\\') {
                        // continued line
                        t.src.push_str("\\\n");
                        t.src.push_str("; z");
                        t.val.bytes.extend(b"; z");
                    }
                    t.src.push('\n');
                    t.val.ch('\n');
                    self.gap = Gap::No;
                    self.tk(&t.src.clone(), K::Raw);
                    pieces.push(Piece::S(t.val));
                }
            }
            let has_code = pieces.iter().any(|p| matches!(p, Piece::X(_)));
            let x = if has_code {
                dstr(pieces)
            } else {
                let mut v = Val::default();
                for p in pieces {
                    if let Piece::S(s) = p {
                        v.bytes.extend(&s.bytes);
                    }
                }
                v.x()
            };
            if mode == 3 {
                X::n("cmd", vec![x])
            } else {
                x
            }
        };
        self.no_here = saved_flags.0;
        self.in_body = saved_flags.1;
        self.no_do = saved_flags.2;
        let body_toks = std::mem::replace(&mut self.order, saved);
        self.bodies[b].toks = body_toks;
        self.gap = Gap::Sp0;
        self.lead = 0;
        x
    }

    /// A line that is nearly the terminator.
    fn near_term(&mut self, term: &str, dash: bool, b: usize) -> String {
        self.feat("near_terminator");
        let other = if b > 0 { self.bodies[b - 1].term.clone() } else { "Z".to_string() };
        let line = match self.s.below(16) {
            13 => format!("\u{3000}{}", term),
            14 => format!("{}\u{a0}{}", if dash { "  " } else { "" }, term),
            0 => format!("{} ", term),
            1 => format!("{}\t", term),
            2 => format!(" {}", term),
            3 => format!("\t  {}", term),
            4 => format!("{};", term),
            5 => format!("{0}{0}", term),
            6 => format!("x {}", term),
            7 => format!("<<{}", term),
            8 => term.to_uppercase(),
            9 => term.chars().take(term.chars().count() - 1).collect(),
            10 => format!("'{}'", term),
            11 => format!("  {} ", term),
            12 => format!("{}.x", term),
            _ => other,
        };
        let ends = |t: &str| if dash { t.trim_start_matches(|c| matches!(c, ' ' | '\t'..='\r')) == term } else { t == term };
        if ends(&line) {
            format!("{}!", line)
        } else {
            line
        }
    }

    fn collides(&self, line: &str, term: &str) -> bool {
        line.trim() == term || line.trim_end_matches('\r') == term
    }
}

#[derive(Default)]
struct ReSt {
    no_hex: bool,
    no_oct: bool,
    hash: bool,
    no_ident: bool,
    first: bool,
    cmd: bool,
}
impl ReSt {
    fn clear(&mut self) {
        self.no_hex = false;
        self.no_oct = false;
        self.hash = false;
        self.no_ident = false;
        self.first = false;
    }
}

pub const FILE: &str = "dir/prog.rb";

fn dstr(pieces: Vec<Piece>) -> X {
    dstr_norm(pieces.into_iter().map(|p| match p {
        Piece::S(v) => v.x(),
        Piece::X(x) => x,
    }).collect())
}
