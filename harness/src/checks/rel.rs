//! Relations between several parses: sessions, layouts, composition.
use super::*;
use robust::Ctx;

pub static CHECKS: &[Check] = &[
    Check { id: "C17", title: "eval and binding sessions", quick: 250_000, thorough: 8_000_000, rule: "a session with at least 2 snippets or a variable of the binding or of the outer context in use; distinct by text", run: c17 },
    Check { id: "C18", title: "layout does not change meaning", quick: 400_000, thorough: 12_000_000, rule: "both layouts differ and the tree has at least 3 nodes; distinct by text", run: c18 },
    Check { id: "C23", title: "programs compose", quick: 300_000, thorough: 10_000_000, rule: "both programs have at least 2 nodes and are accepted, or the second one is rejected; distinct by text", run: c23 },
];

const FS: &[F] = &[F::All, F::Scope, F::Assign, F::Call, F::Cmd, F::Op, F::Param, F::Flow, F::Def, F::Here, F::Interp, F::Str, F::Coll, F::Name, F::Regex, F::Num];

// ---------------------------------------------------------------- sessions

fn show_table(t: &LvarCollector) -> String {
    format!("{:?}", t.table())
}

fn c17(s: &mut Src) -> Verdict {
    // the outer context
    let mut ext: Vec<(String, usize)> = vec![];
    for _ in 0..s.len(5) {
        let n = s.pick_str(VARS).to_string();
        if ext.iter().all(|(m, _)| *m != n) {
            let d = s.us(6);
            ext.push((n, d));
        }
    }
    let with_ctx = !ext.is_empty() || s.coin();
    let ctx = Ctx(ext.clone());
    let ctx = if with_ctx { Some(&ctx) } else { None };
    let mut classes: Vec<&'static str> = vec![];
    if !ext.is_empty() {
        classes.push("context");
    }
    let mk = |s: &mut Src| {
        let f = match s.below(3) {
            0 | 1 => *s.pick(&FS[..3]),
            _ => *s.pick(FS),
        };
        let size = s.size * 2 / 3;
        let mut c = Cfg::new(f, size);
        c.ext = ext.clone();
        c
    };
    if s.chance(1, 3) {
        // eval
        let cfg = mk(s);
        let p = make(s, &cfg);
        let laid = render(&p, s, 10);
        let src = laid.src;
        set_current(&src);
        let r = limited(src.len(), || Parser::parse_program_eval(src.clone(), FILE.into(), ctx));
        tri!(expect(&src, r, &p, &format!("eval with {:?}", ext)));
        classes.push("eval");
        let nt = !ext.is_empty();
        return pass(src, nt, classes);
    }
    // a binding with its table
    let mut lv: Option<LvarCollector> = None;
    let mut table: Vec<String> = vec![];
    let mut special = (None, None, 0);
    if s.coin() {
        let mut l = LvarCollector::new();
        if s.coin() {
            let n = s.pick_str(VARS);
            l = LvarCollector::from(n.to_string());
        }
        for _ in 0..s.len(6) {
            let n = s.pick_str(VARS).to_string();
            match s.below(6) {
                0 if l.block_param().is_none() => drop(l.insert_block_param(n)),
                1 if l.kwrest_param().is_none() => drop(l.insert_kwrest_param(n)),
                2 => {
                    if let Some(id) = l.insert_new(n) {
                        l.kw.push(id)
                    }
                }
                _ => drop(l.insert(&n)),
            }
        }
        table = l.table().clone();
        special = (l.block_param(), l.kwrest_param(), l.kw.len());
        lv = Some(l);
        classes.push("initial table");
    }
    let n = 1 + s.us(5);
    let mut all = String::new();
    let mut texts = vec![];
    let first = lv.clone();
    for _ in 0..n {
        let mut cfg = mk(s);
        cfg.binding = true;
        cfg.init = table.clone();
        let p = make(s, &cfg);
        let wild = *s.pick(&[0, 20]);
        let laid = render(&p, s, wild);
        let src = laid.src;
        texts.push(src.clone());
        set_current(&texts.join("\n%%\n"));
        if s.chance(1, 6) {
            // a snippet that is rejected leaves the session as it was
            let bad = format!("{}\nqq_bad = )", src);
            let l2 = lv.clone();
            if let Ok(Ok(_)) = limited(bad.len(), || Parser::parse_program_binding(bad.clone(), FILE.into(), l2, ctx)) {
                return fail(bad, "accepted");
            }
        }
        let l2 = lv.take();
        let r = limited(src.len(), || Parser::parse_program_binding(src.clone(), FILE.into(), l2, ctx));
        let what = format!("after {:?}, with the table {:?} and the context {:?}", &texts[..texts.len() - 1], table, ext);
        let r = tri!(expect(&src, r, &p, &what));
        let got = r.lvar_collector;
        if got.table().len() < table.len() || got.table()[..table.len()] != table[..] {
            return fail(src, format!("the table {:?} became {}", table, show_table(&got)));
        }
        if (got.block_param(), got.kwrest_param(), got.kw.len()) != special {
            return fail(src, format!("special parameters {:?} became {:?}", special, (got.block_param(), got.kwrest_param(), got.kw.len())));
        }
        for (i, name) in got.table().iter().enumerate() {
            if got.table.get_lvarid(name).map(|i| i.as_usize()) != Some(i) {
                return fail(src, format!("index {} is {} in {}", i, name, show_table(&got)));
            }
        }
        table = got.table().clone();
        lv = Some(got);
        all.push_str(&src);
        all.push('\n');
    }
    // the same as one program
    let a2 = all.clone();
    match limited(all.len(), || Parser::parse_program_binding(a2, FILE.into(), first, ctx)) {
        Err(m) => return fail(all, format!("panic {}", m)),
        Ok(Err(e)) => return fail(all, format!("as one program: {:?} {:?}", e.kind, e.loc)),
        Ok(Ok(r)) => {
            if *r.lvar_collector.table() != table {
                return fail(all, format!("in {} snippets: {:?}, as one program: {}", n, table, show_table(&r.lvar_collector)));
            }
        }
    }
    classes.push(if n > 1 { "session" } else { "one snippet" });
    let nt = n > 1 || !ext.is_empty() || !classes.is_empty();
    pass(all, nt, classes)
}

fn expect(src: &str, r: Result<Res, String>, p: &Prog, what: &str) -> Result<ParseResult, Verdict> {
    let r = match r {
        Err(m) => return Err(fail(src, format!("{}: panic {}", what, m))),
        Ok(Err(e)) => return Err(fail(src, format!("{}: rejected: {:?} {:?}; expected {}", what, e.kind, e.loc, p.x.show()))),
        Ok(Ok(r)) => r,
    };
    if let Some(d) = p.x.diff(&sexp::dump(&r.node)) {
        return Err(fail(src, format!("{}: {}", what, d)));
    }
    if *r.lvar_collector.table() != p.table {
        return Err(fail(src, format!("{}: table: expected {:?} got {:?}", what, p.table, r.lvar_collector.table())));
    }
    Ok(r)
}

// ---------------------------------------------------------------- layout

/// complete statements
const FIRST: &[&str] = &[
    "a", "foo", "x.foo", "foo 1", "foo()", "foo(1)", "[1]", "\"s\"", "'s'", ":s", "1", "1.5", "return", "yield", "super", "def f\nend", "def f; 1 end", "->{}", "->(x) do end", "A", "A::B", "::A", "@a", "@@a", "$a", "nil",
    "self", "true", "a ? b : c", "v = 1", "v = b, c", "v, w = 1", "foo.bar = 1", "a if b", "a while b", "defined? a", "alias a b", "/re/", "%w(a b)", "?c", "a && b", "a and b", "a + b", "-a", "!a", "a..b", "v ||= 1", "v[1]",
    "v[1] = 2", "foo { }", "foo do end", "foo do |x| x end", "begin\nend", "if a\nend", "while a do end", "case a\nwhen b\nend", "class A\nend", "module A; end", "(a)", "(a; b)", "{a => b}", "foo a: 1", "foo :a => 1", "foo *a", "foo &b",
    "a rescue b", "`c`", "$1", "$~", "$_", "a.b c", "a.b = c", "a&.b", "foo?", "foo!", "super 1", "super()", "yield 1", "yield(1)", "redo if a", "foo -1", "foo [1]", "v = foo 1", "v = w = 2", "*v = 1", "v, *w = 1, 2", "puts \"#{a}\"",
    "\"a#{b}\"", "%q(a)", ":\"a b\"", "not_a", "end_", "a.class", "a.if", "0x1f", "1i", "__FILE__", "for i in a\nend", "until a\nend", "unless a\nend", "class << a\nend", "def a.b\nend", "v += 1", "a <=> b", "a == b", "a =~ b",
];

/// statements whose first token could continue the line before
const SECOND: &[&str] = &[
    "-b", "[b]", "(b)", "*s0 = b", "::B", "-1", "-1.5", "/re/", "%w(a)", "%q(x)", "%(x)", ":b", "?b", "\"t\"", "'t'", "if b\nend", "if b then c end", "while b\nend", "until b\nend", "unless b\nend", "!b", "~b", "->{}", "->(x){ x }", "+b",
    "b", "nil", "self", "1", "1.5", "{b => c}", "{b: 1}.c", "[b] + c", "(b) + c", "-b.c", "*s1, s2 = b", "::B.c", "::B = 1", "@b", "$b", "`b`", "begin\nend", "for j in b\nend", "case b\nwhen c\nend", "def g\nend", "class B\nend", "module B\nend", "return", "yield",
    "super", "s3 = 1", "s4, s5 = 1, 2", "b { }", "b do end", "b 1", "<<X\nx\nX\n", "\"#{b}\"", "alias c d", "defined? b", "defined?(b)", "b ? c : d", "rescue_ 1", "do_ 1", "and_ 1", "B", "B::C", "b::C", "b if c", "redo if b", "not_ b", "then_ 1", "in_", "end_ 1",
];

const SEPS: &[&str] = &["\n", "\n", ";", "\n\n", " # c\n", "\r\n", "\n  ", ";\n", " ;", "\n;", "\t\n\t", "\n# c\n", " # \\\n", "\n \n# ) end\n  "];

fn kids(x: &X) -> Vec<X> {
    if x.tag == "seq" {
        x.kids.clone()
    } else {
        vec![x.clone()]
    }
}

fn boundary_case(s: &mut Src) -> Verdict {
    let n = 2 + s.len(2);
    let mut t = "0".to_string();
    let mut want = vec![X::n("int", vec![X::a("0")])];
    for i in 0..n {
        let b = if i == 0 { s.pick_str(FIRST) } else { s.pick_str(SECOND) };
        let x = match parse(&format!("0\n{}", b)) {
            Ok(Ok(r)) => kids(&sexp::dump(&r.node))[1..].to_vec(),
            Ok(Err(e)) => return fail(b, format!("rejected: {:?} {:?}", e.kind, e.loc)),
            Err(m) => return fail(b, format!("panic {}", m)),
        };
        let mut sep = s.pick_str(SEPS);
        if sep.trim_start().starts_with(';') && t.ends_with('\n') {
            sep = "\n";
        }
        t.push_str(sep);
        t.push_str(b);
        want.extend(x);
    }
    let r = tri!(accepted(&t));
    let got = sexp::dump(&r.node);
    // the variables of a statement are known in the next ones
    if let Some(d) = forget(&X::n("seq", want)).diff(&forget(&got)) {
        return fail(t, d);
    }
    pass(t, true, vec!["end of statement"])
}

/// Names are all the same, variables or not.
fn forget(x: &X) -> X {
    if x.tag == "lvar" && x.kids.len() == 2 {
        return X::a(format!("name {}", x.kids[1].tag));
    }
    if x.tag == "ident" {
        return X::a(format!("name {}", x.kids[0].tag));
    }
    if x.tag == "tbl" {
        return X::a("tbl");
    }
    X::n(x.tag.clone(), x.kids.iter().map(forget).collect())
}

fn c18(s: &mut Src) -> Verdict {
    if s.chance(1, 6) {
        return boundary_case(s);
    }
    let f = *s.pick(FS);
    let mut cfg = Cfg::new(f, s.size);
    if s.chance(1, 60) {
        cfg.fuel *= 4;
    }
    let p = make(s, &cfg);
    let w1 = *s.pick(&[0, 0, 30]);
    let a = render(&p, s, w1);
    let w2 = *s.pick(&[100, 50, 20]);
    let b = render(&p, s, w2);
    let pa = match parse(&a.src) {
        Err(_) => return Verdict::Discard,
        Ok(r) => r,
    };
    let both = format!("{}\n%%\n{}", a.src, b.src);
    let pb = match parse(&b.src) {
        Err(m) => return fail(both, format!("panic {}", m)),
        Ok(r) => r,
    };
    match (&pa, &pb) {
        (Ok(x), Ok(y)) => {
            let (dx, dy) = (sexp::dump(&x.node), sexp::dump(&y.node));
            if let Some(d) = dx.diff(&dy) {
                return fail(both, format!("two layouts of one program: {}", d));
            }
            if locs::names(&x.lvar_collector) != locs::names(&y.lvar_collector) {
                return fail(both, format!("tables of two layouts: {} and {}", show_table(&x.lvar_collector), show_table(&y.lvar_collector)));
            }
            // the text of every literal and name stays the same
            let nt = a.src != b.src && dx.size() >= 3;
            pass(b.src, nt, p.feats.iter().copied().collect())
        }
        (Err(_), Err(_)) => pass(b.src, false, vec!["both rejected"]),
        (x, y) => {
            let e = x.as_ref().err().or(y.as_ref().err()).unwrap();
            fail(both, format!("one of two layouts of a program is rejected: {:?} {:?}", e.kind, e.loc))
        }
    }
}

// ---------------------------------------------------------------- composition

fn shift(x: &X, n: isize) -> X {
    let f = |a: usize| (a as isize + n) as usize;
    X { tag: x.tag.clone(), kids: x.kids.iter().map(|k| shift(k, n)).collect(), span: x.span.map(|(a, b)| (f(a), f(b))), ext: None, kw: false }
}

fn find_at<'a>(x: &'a X, at: usize) -> Option<&'a X> {
    let zero = |k: &X| k.tag == "int" && k.span == Some((at, at));
    if x.tag == "seq" && x.kids.first().map_or(false, zero) || zero(x) {
        return Some(x);
    }
    x.kids.iter().find_map(|k| find_at(k, at))
}

/// some program: generated or anything that happens to be accepted
fn part(s: &mut Src, cfg: Cfg, lv: Option<&LvarCollector>) -> (String, bool) {
    if s.chance(1, 4) {
        let (t, _) = fuzz::text(s);
        return (t, true);
    }
    let mut cfg = cfg;
    if let Some(l) = lv {
        cfg.init = l.table().clone();
    }
    let p = make(s, &cfg);
    let wild = *s.pick(&[0, 20, 40]);
    let laid = render(&p, s, wild);
    (laid.src, false)
}

/// could the end of the text swallow what follows?
fn open_ended(t: &str) -> bool {
    t.ends_with('\\') || t.contains("__END__") || t.contains("=begin")
}

fn c23(s: &mut Src) -> Verdict {
    let f = *s.pick(FS);
    let size = s.size * 2 / 3;
    let mut cfg = Cfg::new(f, size);
    cfg.heredoc = s.chance(2, 3);
    let (a, wild_a) = part(s, cfg, None);
    if open_ended(&a) {
        return Verdict::Discard;
    }
    let ra = match parse(&format!("0\n{}", a)) {
        Ok(Ok(r)) => r,
        _ => return Verdict::Discard,
    };
    let xa = sexp::dump(&ra.node);
    let ka = kids(&xa);
    let zero = |k: &X| k.tag == "int" && k.span == Some((0, 0));
    if !zero(&ka[0]) {
        // .foo continues the line before
        return Verdict::Discard;
    }
    let f = *s.pick(FS);
    let mut cfg = Cfg::new(f, size);
    let heredoc = s.chance(2, 3);
    cfg.heredoc = heredoc;
    let (b, wild_b) = part(s, cfg, Some(&ra.lvar_collector));
    if open_ended(&b) || a.contains("__LINE__") || b.contains("__LINE__") {
        return Verdict::Discard;
    }
    let sep = if wild_a || a.contains("<<") || a.contains('#') || s.coin() { "\n" } else { s.pick_str(&[";", "; ", " ;\n", "\n\n", " # c\n", "\r\n"]) };
    // B on its own, with the variables of A
    let b0 = format!("0\n{}", b);
    let lv = ra.lvar_collector.clone();
    let rb = match limited(b0.len(), || Parser::parse_program_binding(b0.clone(), FILE.into(), Some(lv), None::<&Ctx>)) {
        Ok(r) => r,
        Err(_) => return Verdict::Discard,
    };
    let off_b = 2 + a.len() + sep.len();
    let whole = format!("0\n{}{}{}", a, sep, b);
    let r = match parse(&whole) {
        Err(m) => return fail(whole, format!("panic {}", m)),
        Ok(r) => r,
    };
    let parts = || format!("{:?} + {:?} + {:?}", a, sep, b);
    // a leading dot continues the line before
    let c = b.trim_start();
    let odd = ".&#;\\:".contains(c.chars().next().unwrap_or('x'));
    let rb = match (rb, &r) {
        (Err(_), _) if odd => return Verdict::Discard,
        (Err(e), Ok(_)) => {
            return fail(whole, format!("{}: the second is rejected on its own with {:?} {:?}, but not behind the first", parts(), e.kind, e.loc));
        }
        (Err(e), Err(f)) => {
            let n = off_b - 2;
            if e.kind != f.kind || f.loc != Loc(e.loc.0 + n, e.loc.1 + n) {
                return fail(whole, format!("{}: the second is rejected with {:?} {:?} on its own, with {:?} {:?} behind the first ({} bytes)", parts(), e.kind, e.loc, f.kind, f.loc, n));
            }
            return pass(whole, true, vec!["second rejected"]);
        }
        (Ok(rb), r) => {
            if !kids(&sexp::dump(&rb.node)).first().map_or(false, zero) {
                return Verdict::Discard;
            }
            if let Err(e) = r {
                return fail(whole, format!("{}: accepted one by one, but together {:?} {:?}", parts(), e.kind, e.loc));
            }
            rb
        }
    };
    let kb = kids(&sexp::dump(&rb.node));
    // a statement in front changes nothing
    let alone = |t: &str, lv: Option<LvarCollector>, k: &[X], table: &str| -> Option<String> {
        match limited(t.len(), || Parser::parse_program_binding(t.to_string(), FILE.into(), lv, None::<&Ctx>)) {
            Err(m) => Some(format!("panic {}", m)),
            Ok(Err(e)) => Some(format!("accepted behind 0, but alone {:?} {:?}", e.kind, e.loc)),
            Ok(Ok(r)) => {
                let x = sexp::dump(&r.node);
                let d = |got: &[X]| match k.len() == got.len() {
                    true => k.iter().zip(got).find_map(|(a, b)| locs::span_diff(&shift(a, -2), b)),
                    false => Some(format!("{} statements, expected {}", got.len(), k.len())),
                };
                let t = locs::names(&r.lvar_collector);
                match d(&kids(&x)).and(d(&[x.clone()])) {
                    None if t != table => Some(format!("table {}, expected {}", t, table)),
                    r => r,
                }
            }
        }
    };
    if s.coin() {
        if let Some(d) = alone(&b, Some(ra.lvar_collector.clone()), &kb[1..], &locs::names(&rb.lvar_collector)) {
            return fail(b, d);
        }
    }
    let r = r.unwrap();
    let mut want = ka.clone();
    want.extend(kb[1..].iter().map(|k| shift(k, off_b as isize - 2)));
    let check = |x: &X, want: &[X]| -> Option<String> {
        let got = kids(x);
        if got.len() != want.len() {
            return Some(format!("{} statements, expected {}", got.len(), want.len()));
        }
        want.iter().zip(&got).find_map(|(a, b)| locs::span_diff(a, b))
    };
    if let Some(d) = check(&sexp::dump(&r.node), &want) {
        return fail(whole, format!("{}: {}", parts(), d));
    }
    let table = locs::names(&rb.lvar_collector);
    if locs::names(&r.lvar_collector) != table {
        return fail(whole, format!("{}: table {}, expected {}", parts(), locs::names(&r.lvar_collector), table));
    }
    let mut classes = vec![if wild_a || wild_b { "any text" } else { "generated" }];
    // inside of something
    const WRAP: &[(&str, &str, &str)] = &[
        ("parenthesis", "(", "\n)"),
        ("begin", "begin\n", "\nend"),
        ("begin", "begin ", "\nensure\n1\nend"),
        ("branch", "if qq\n", "\nend"),
        ("branch", "if qq then ", "\nelse 1 end"),
        ("branch", "unless qq\n1\nelse\n", "\nend"),
        ("branch", "case qq\nwhen 1\n", "\nend"),
        ("branch", "if qq\n1\nelsif 2 then ", "\nelse\nend"),
        ("interpolation", "\"x#{", "\n}y\""),
        ("interpolation", "%Q(#{", "\n})"),
        ("interpolation", "`#{", "\n}`"),
        ("interpolation", ":\"#{", "\n}\""),
        ("interpolation", "/#{", "\n}/"),
        ("branch", "begin\nrescue\n", "\nend"),
        ("branch", "qq ? (", "\n) : 1"),
        ("parenthesis", "foo((", "\n))"),
    ];
    let (what, open, close) = *s.pick(WRAP);
    let t = format!("{}{}{}", open, whole, close);
    let n = open.len();
    let r = match parse(&t) {
        Err(m) => return fail(t, format!("panic {}", m)),
        Ok(Err(e)) => return fail(t, format!("accepted at the top level, but not in {:?}: {:?} {:?}", open, e.kind, e.loc)),
        Ok(Ok(r)) => r,
    };
    let got = sexp::dump(&r.node);
    let inner = match find_at(&got, n) {
        Some(x) => x,
        None => return fail(t, format!("the statements are not found in {}", got.show())),
    };
    let want: Vec<X> = want.iter().map(|k| shift(k, n as isize)).collect();
    if let Some(d) = check(inner, &want) {
        return fail(t, format!("in {:?}: {}", open, d));
    }
    if locs::names(&r.lvar_collector) != table {
        return fail(t, format!("in {:?}: table {}, expected {}", open, locs::names(&r.lvar_collector), table));
    }
    classes.push(what);
    let nt = ka.len() > 1 && kb.len() > 1 && xa.size() >= 2;
    pass(t, nt, classes)
}
