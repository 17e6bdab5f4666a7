//! Location-free (but span-carrying) view of the parser's public AST.
//!
//! Every `ruruby_parse::Node` is turned into an `X`: a tag, children and the
//! node's source range.  Oracles build the `X` they expect on their own and
//! compare; `span: None` on the expected side means "not specified".
use ruruby_parse::*;

#[derive(Clone, Debug)]
pub struct X {
    pub tag: String,
    pub kids: Vec<X>,
    pub span: Option<(usize, usize)>,
    /// first and last token of the construct, for generated trees
    pub ext: Option<(usize, usize)>,
    /// located at its first word
    pub kw: bool,
}

impl X {
    pub fn n(tag: impl Into<String>, kids: Vec<X>) -> X {
        X { tag: tag.into(), kids, span: None, ext: None, kw: false }
    }
    pub fn a(tag: impl Into<String>) -> X {
        X { tag: tag.into(), kids: vec![], span: None, ext: None, kw: false }
    }
    pub fn at(mut self, s: (usize, usize)) -> X {
        self.span = Some(s);
        self
    }
    /// structural equality, spans ignored
    pub fn same(&self, o: &X) -> bool {
        self.tag == o.tag
            && self.kids.len() == o.kids.len()
            && self.kids.iter().zip(&o.kids).all(|(a, b)| a.same(b))
    }
    pub fn show(&self) -> String {
        let mut s = String::new();
        self.write(&mut s);
        s
    }
    fn write(&self, out: &mut String) {
        if self.kids.is_empty() {
            out.push_str(&self.tag);
            return;
        }
        out.push('(');
        out.push_str(&self.tag);
        for k in &self.kids {
            out.push(' ');
            k.write(out);
        }
        out.push(')');
    }
    /// first differing subtree, as text
    pub fn diff(&self, o: &X) -> Option<String> {
        if self.same(o) {
            return None;
        }
        if self.tag == o.tag && self.kids.len() == o.kids.len() {
            for (a, b) in self.kids.iter().zip(&o.kids) {
                if let Some(d) = a.diff(b) {
                    return Some(d);
                }
            }
        }
        Some(format!("expected {} got {}", self.show(), o.show()))
    }
    pub fn size(&self) -> usize {
        1 + self.kids.iter().map(|k| k.size()).sum::<usize>()
    }
    pub fn walk<'a>(&'a self, f: &mut dyn FnMut(&'a X)) {
        f(self);
        for k in &self.kids {
            k.walk(f);
        }
    }
}

pub fn qs(s: &str) -> String {
    format!("{:?}", s)
}

fn list(tag: &str, v: &[Node]) -> X {
    X::n(tag, v.iter().map(dump).collect())
}

/// An argument-less, parenthesis-less call written as a bare name is reported
/// either as an identifier or as an argument-less function call, depending on
/// the syntactic position.  Both denote the same thing; use one form.
pub fn ident(name: &str) -> X {
    X::n("ident", vec![X::a(name)])
}

fn is_plain(a: &ArgList) -> bool {
    a.args.is_empty()
        && a.kw_args.is_empty()
        && a.hash_splat.is_empty()
        && a.block.is_none()
        && !a.forwarding
}

pub fn dump(n: &Node) -> X {
    let x = dump_kind(&n.kind);
    X { span: Some((n.loc.0, n.loc.1)), ..x }
}

pub fn opt(n: &Option<Box<Node>>) -> X {
    match n {
        Some(n) => dump(n),
        None => X::a("none"),
    }
}

fn nreal(n: &NReal) -> X {
    match n {
        NReal::Integer(i) => X::n("int", vec![X::a(i.to_string())]),
        NReal::Bignum(b) => X::n("big", vec![X::a(b.to_string())]),
        NReal::Float(f) => X::n("float", vec![X::a(format!("{:?}", f))]),
    }
}

pub fn arglist(a: &ArgList) -> X {
    let mut kids = vec![list("args", &a.args)];
    if !a.kw_args.is_empty() {
        kids.push(X::n(
            "kw",
            a.kw_args
                .iter()
                .map(|(k, v)| X::n(format!("{}:", k), vec![dump(v)]))
                .collect(),
        ));
    }
    if !a.hash_splat.is_empty() {
        kids.push(list("dsplat", &a.hash_splat));
    }
    if let Some(b) = &a.block {
        kids.push(X::n("block", vec![dump(b)]));
    }
    if a.forwarding {
        kids.push(X::a("fwd"));
    }
    if a.splat {
        kids.push(X::a("has_splat"));
    }
    X::n("al", kids)
}

pub fn lvar(l: &LvarCollector) -> X {
    let names = l.table();
    let nm = |i: Option<LvarId>| match i {
        Some(i) => X::a(names.get(i.as_usize()).cloned().unwrap_or("<bad id>".into())),
        None => X::a("-"),
    };
    X::n(
        "lvars",
        vec![
            X::n("tbl", names.iter().map(|s| X::a(s.clone())).collect()),
            X::n("kws", l.kw.iter().map(|i| nm(Some(*i))).collect()),
            X::n("kwrest", vec![nm(l.kwrest_param())]),
            X::n("blk", vec![nm(l.block_param())]),
            X::n("fwd", vec![nm(l.forwarding_param)]),
        ],
    )
}

pub fn param(p: &FormalParam) -> X {
    let x = match &p.kind {
        ParamKind::Param(s) => X::n("req", vec![X::a(s.clone())]),
        ParamKind::Post(s) => X::n("post", vec![X::a(s.clone())]),
        ParamKind::Optional(s, d) => X::n("opt", vec![X::a(s.clone()), dump(d)]),
        ParamKind::Rest(Some(s)) => X::n("rest", vec![X::a(s.clone())]),
        ParamKind::Rest(None) => X::n("rest", vec![X::a("-")]),
        ParamKind::Keyword(s, d) => X::n("key", vec![X::a(s.clone()), opt(d)]),
        ParamKind::KWRest(s) => X::n("kwrest", vec![X::a(s.clone())]),
        ParamKind::Block(s) => X::n("blockparam", vec![X::a(s.clone())]),
        ParamKind::Delegate => X::a("delegate"),
        ParamKind::Destruct(v) => X::n(
            "destruct",
            v.iter()
                .map(|(s, l)| X::a(s.clone()).at((l.0, l.1)))
                .collect(),
        ),
        #[allow(unreachable_patterns)]
        other => X::a(format!("{:?}", other)),
    };
    x.at((p.loc.0, p.loc.1))
}

pub fn block_info(b: &BlockInfo) -> X {
    X::n(
        "info",
        vec![
            X::n("params", b.params.iter().map(param).collect()),
            lvar(&b.lvar),
            dump(&b.body),
        ],
    )
    .at((b.loc.0, b.loc.1))
}

pub fn binop_name(op: &BinOp) -> String {
    match op {
        BinOp::Add => "+".into(),
        BinOp::Sub => "-".into(),
        BinOp::Mul => "*".into(),
        BinOp::Div => "/".into(),
        BinOp::Rem => "%".into(),
        BinOp::Exp => "**".into(),
        BinOp::Shr => ">>".into(),
        BinOp::Shl => "<<".into(),
        BinOp::BitAnd => "&".into(),
        BinOp::BitOr => "|".into(),
        BinOp::BitXor => "^".into(),
        BinOp::Compare => "<=>".into(),
        BinOp::Cmp(c) => format!("{:?}", c),
        BinOp::LAnd => "&&".into(),
        BinOp::LOr => "||".into(),
        BinOp::Match => "=~".into(),
        #[allow(unreachable_patterns)]
        other => format!("{:?}", other),
    }
}

fn b(v: bool) -> X {
    X::a(if v { "t" } else { "f" })
}

fn dump_kind(k: &NodeKind) -> X {
    use NodeKind::*;
    match k {
        SelfValue => X::a("self"),
        Nil => X::a("nil"),
        Integer(i) => X::n("int", vec![X::a(i.to_string())]),
        Bignum(i) => X::n("big", vec![X::a(i.to_string())]),
        Float(f) => X::n("float", vec![X::a(format!("{:?}", f))]),
        Imaginary(r) => X::n("imag", vec![nreal(r)]),
        Bool(v) => X::a(if *v { "true" } else { "false" }),
        String(s) => X::n("str", vec![X::a(qs(s))]),
        Bytes(v) => X::n("bytes", vec![X::a(format!("{:02x?}", v))]),
        InterporatedString(v) => dstr_norm(v.iter().map(dump).collect()),
        Command(n) => X::n("cmd", vec![dump(n)]),
        Symbol(s) => X::n("sym", vec![X::a(qs(s))]),
        Range { start, end, exclude_end, is_const } => X::n(
            if *exclude_end { "..." } else { ".." },
            vec![dump(start), dump(end), b(*is_const)],
        ),
        Array(v, c) => X::n("array", vec![list("elems", v), b(*c)]),
        Hash(v, c) => X::n(
            "hash",
            vec![
                X::n(
                    "pairs",
                    v.iter().map(|(k, v)| X::n("=>", vec![dump(k), dump(v)])).collect(),
                ),
                b(*c),
            ],
        ),
        RegExp(v, o, c) => X::n("regexp", vec![list("parts", v), X::a(qs(o)), b(*c)]),
        LocalVar(d, s) => X::n("lvar", vec![X::a(d.to_string()), X::a(s.clone())]),
        Ident(s) => ident(s),
        InstanceVar(s) => X::n("ivar", vec![X::a(s.clone())]),
        GlobalVar(s) => X::n("gvar", vec![X::a(s.clone())]),
        SpecialVar(i) => X::n("svar", vec![X::a(i.to_string())]),
        ClassVar(s) => X::n("cvar", vec![X::a(s.clone())]),
        Const { toplevel, parent, prefix, name } => X::n(
            "const",
            vec![
                b(*toplevel),
                opt(parent),
                X::a(format!("{}{}", prefix.iter().map(|s| format!("{}::", s)).collect::<std::string::String>(), name)),
            ],
        ),
        BinOp(op, l, r) => X::n(binop_name(op), vec![dump(l), dump(r)]),
        UnOp(op, l) => X::n(
            match op {
                ruruby_parse::UnOp::BitNot => "u~",
                ruruby_parse::UnOp::Not => "u!",
                ruruby_parse::UnOp::Pos => "u+",
                ruruby_parse::UnOp::Neg => "u-",
            },
            vec![dump(l)],
        ),
        Index { base, index } => X::n("index", vec![dump(base), list("idx", index)]),
        Splat(n) => X::n("splat", vec![dump(n)]),
        AssignOp(op, l, r) => X::n(format!("{}=", binop_name(op)), vec![dump(l), dump(r)]),
        MulAssign(l, r) => X::n("asgn", vec![list("lhs", l), list("rhs", r)]),
        CompStmt(v) => list("seq", v),
        If { cond, then_, else_ } => X::n("if", vec![dump(cond), dump(then_), dump(else_)]),
        For { param, iter, body } => X::n(
            "for",
            vec![
                X::n(
                    "vars",
                    param.iter().map(|(d, s)| X::a(format!("{}/{}", d, s))).collect(),
                ),
                dump(iter),
                block_info(body),
            ],
        ),
        While { cond, body, cond_op, postfix } => X::n(
            format!(
                "{}{}",
                if *cond_op { "while" } else { "until" },
                if *postfix { "_mod" } else { "" }
            ),
            vec![dump(cond), dump(body)],
        ),
        Case { cond, when_, else_ } => X::n(
            "case",
            vec![
                opt(cond),
                X::n(
                    "whens",
                    when_
                        .iter()
                        .map(|w| X::n("when", vec![list("vals", &w.when), dump(&w.body)]))
                        .collect(),
                ),
                dump(else_),
            ],
        ),
        Begin { body, rescue, else_, ensure } => X::n(
            "begin",
            vec![
                dump(body),
                X::n(
                    "rescues",
                    rescue
                        .iter()
                        .map(|r| {
                            X::n(
                                "rescue",
                                vec![list("exc", &r.exception_list), opt(&r.assign), dump(&r.body)],
                            )
                        })
                        .collect(),
                ),
                opt(else_),
                opt(ensure),
            ],
        ),
        Lambda(i) => X::n("lambda", vec![block_info(i)]),
        Break(n) => X::n("break", vec![dump(n)]),
        Next(n) => X::n("next", vec![dump(n)]),
        Redo => X::a("redo"),
        Return(n) => X::n("return", vec![dump(n)]),
        Yield(a) => X::n("yield", vec![arglist(a)]),
        MethodDef(s, i) => X::n("def", vec![X::a(qs(s)), block_info(i)]),
        SingletonMethodDef(o, s, i) => {
            X::n("defs", vec![dump(o), X::a(qs(s)), block_info(i)])
        }
        ClassDef { base, name, superclass, info, is_module } => X::n(
            if *is_module { "module" } else { "class" },
            vec![opt(base), X::a(name.clone()), opt(superclass), block_info(info)],
        ),
        SingletonClassDef { singleton, info } => {
            X::n("sclass", vec![dump(singleton), block_info(info)])
        }
        MethodCall { receiver, method, arglist: a, safe_nav } => X::n(
            if *safe_nav { "call&" } else { "call" },
            vec![dump(receiver), X::a(qs(method)), arglist(a)],
        ),
        FuncCall { method, arglist: a, safe_nav } => {
            if is_plain(a) && !*safe_nav {
                ident(method)
            } else {
                X::n(
                    if *safe_nav { "fcall&" } else { "fcall" },
                    vec![X::a(qs(method)), arglist(a)],
                )
            }
        }
        Defined(n) => X::n("defined", vec![dump(n)]),
        Super(None) => X::a("zsuper"),
        Super(Some(a)) => X::n("super", vec![arglist(a)]),
        AliasMethod(a, o) => X::n("alias", vec![dump(a), dump(o)]),
        DiscardLhs => X::a("discard"),
        #[allow(unreachable_patterns)]
        other => X::a(format!("{:?}", other)),
    }
}

/// The pieces of an interpolated string; neighbouring literal pieces are one piece,
/// empty ones are none.
pub fn dstr_norm(pieces: Vec<X>) -> X {
    let mut out: Vec<X> = vec![];
    for x in pieces {
        if x.tag == "str" {
            if x.kids[0].tag == "\"\"" {
                continue;
            }
            if let Some(l) = out.last_mut() {
                if l.tag == "str" {
                    let (a, b) = (l.kids[0].tag.clone(), x.kids[0].tag.clone());
                    let t = format!("{}{}", &a[..a.len() - 1], &b[1..]);
                    l.kids[0].tag = t;
                    l.span = None;
                    continue;
                }
            }
        }
        out.push(x);
    }
    X::n("dstr", out)
}
