//! Generated programs against the tree Ruby's grammar assigns to them.
use super::*;

const RULE: &str = "the program has one of the constructs the property is about, and a tree of at least 3 nodes; distinct by text";

macro_rules! tree_check {
    ($id:literal, $title:literal, $f:expr, $need:expr) => {
        Check { id: $id, title: $title, quick: 500_000, thorough: 15_000_000, rule: RULE, run: |s| tree(s, $f, $need) }
    };
}

pub static CHECKS: &[Check] = &[
    Check {
        id: "C04",
        title: "operators group by precedence and associativity",
        quick: 500_000,
        thorough: 15_000_000,
        rule: RULE,
        run: |s| if s.chance(1, 2) { ops::chain(s) } else { tree(s, F::Op, &["operator", "and_or", "ternary", "range"]) },
    },
    tree_check!("C05", "numeric literals denote their value", F::Num, &["number"]),
    tree_check!("C06", "text literals denote their text", F::Str, &["string", "symbol", "words", "char", "percent", "backquote", "adjacent"]),
    tree_check!("C07", "here-documents", F::Here, &["heredoc"]),
    tree_check!("C08", "regular expressions", F::Regex, &["regex", "regex_interp", "regex_x"]),
    tree_check!("C09", "interpolation", F::Interp, &["interpolation", "heredoc_interp", "regex_interp", "hash_var"]),
    tree_check!("C10", "calls", F::Call, &["fcall", "chain", "command", "yield", "super", "index", "dot_call", "op_call"]),
    tree_check!("C11", "command calls and block binding", F::Cmd, &["command", "block", "nested_command", "command_do"]),
    tree_check!("C12", "parameter lists", F::Param, &["params"]),
    tree_check!("C13", "assignments", F::Assign, &["assign", "masgn", "op_asgn", "asgn_local"]),
    tree_check!("C14", "control flow", F::Flow, &["flow", "modifier", "jump", "ternary"]),
    tree_check!("C15", "definitions", F::Def, &["def", "class", "module", "sclass", "alias"]),
    tree_check!("C16", "local variables", F::Scope, &["asgn_local", "outer_var", "params"]),
    tree_check!("C24", "collections", F::Coll, &["array", "hash", "range"]),
    tree_check!("C25", "names", F::Name, &["random_name", "name", "symbol"]),
    Check { id: "C28", title: "any composition", quick: 600_000, thorough: 20_000_000, rule: "at least 3 different constructs and a tree of at least 10 nodes, or a large program; distinct by text", run: c28 },
];

fn tree(s: &mut Src, f: F, need: &[&'static str]) -> Verdict {
    let f = if s.chance(1, 10) { F::All } else { f };
    let cfg = Cfg::new(f, s.size);
    let p = make(s, &cfg);
    let wild = *s.pick(&[0, 10, 40]);
    let laid = render(&p, s, wild);
    tri!(compare(&laid, &p));
    let nt = need.iter().any(|n| p.feats.contains(n)) && p.x.size() >= 3;
    pass(laid.src, nt, p.feats.iter().copied().collect())
}

fn c28(s: &mut Src) -> Verdict {
    if s.size >= 60 && s.chance(1, 40) {
        return scale(s);
    }
    const FS: &[F] = &[F::All, F::Op, F::Num, F::Str, F::Here, F::Regex, F::Interp, F::Call, F::Cmd, F::Param, F::Assign, F::Flow, F::Def, F::Scope, F::Coll, F::Name];
    let f = if s.chance(1, 3) { *s.pick(FS) } else { F::All };
    let mut cfg = Cfg::new(f, s.size);
    if s.chance(1, 50) {
        cfg.fuel *= 6;
    }
    let p = make(s, &cfg);
    let laid = render(&p, s, 30);
    tri!(compare(&laid, &p));
    let nt = p.feats.len() >= 3 && p.x.size() >= 10;
    pass(laid.src, nt, p.feats.iter().copied().collect())
}

/// Large programs: many elements, many variables, long texts, deep nesting.
fn scale(s: &mut Src) -> Verdict {
    let id = |n: &str| sexp::ident(n);
    let int = |n: usize| X::n("int", vec![X::a(n.to_string())]);
    let lvar = |n: &str| lv(0, n);
    let max = if s.chance(1, 10) { 3000 } else { 300 };
    let n = 2 + s.us(max);
    let d = 2 + s.us(150);
    let mut table: Vec<String> = vec![];
    // a short literal or name; several are the same as one before them
    let mix = |s: &mut Src| -> (String, X) {
        match s.below(9) {
            0 => ("nil".to_string(), X::a("nil")),
            1 => ("true".to_string(), X::a("true")),
            2 => ("self".to_string(), X::a("self")),
            3 => ("''".to_string(), X::n("str", vec![X::a("\"\"")])),
            4 => (":b".to_string(), sym("b")),
            5 => ("\"s\"".to_string(), X::n("str", vec![X::a("\"s\"")])),
            6 => ("[]".to_string(), arr(vec![])),
            7 => ("a".to_string(), id("a")),
            _ => {
                let i = s.us(20);
                (i.to_string(), int(i))
            }
        }
    };
    let (src, x): (String, X) = match s.below(25) {
        16 => {
            // many statements of many kinds
            let sep = s.pick_str(&["\n", ";", "\n\n", " ; # c\n"]);
            let (t, v): (Vec<String>, Vec<X>) = (0..n).map(|_| mix(s)).unzip();
            (t.join(sep), seq(v))
        }
        17 => {
            // many keyword arguments, labels repeated
            let al = Al { kw: (0..n).map(|i| (format!("k{}", i * i % 7), int(i))).collect(), ..Default::default() };
            let t: Vec<String> = (0..n).map(|i| format!("k{}: {}", i * i % 7, i)).collect();
            (format!("foo({})", t.join(", ")), X::n("fcall", vec![X::a(sexp::qs("foo")), al.x()]))
        }
        18 => {
            // many mixed arguments
            let (t, v): (Vec<String>, Vec<X>) = (0..n).map(|_| mix(s)).unzip();
            let recv = s.chance(1, 2);
            let al = Al { args: v, ..Default::default() };
            if recv {
                (format!("b.foo({})", t.join(", ")), call(id("b"), "foo", al))
            } else {
                (format!("foo({})", t.join(",")), X::n("fcall", vec![X::a(sexp::qs("foo")), al.x()]))
            }
        }
        19 => {
            // many mixed elements
            let (t, v): (Vec<String>, Vec<X>) = (0..n).map(|_| mix(s)).unzip();
            (format!("[{}]", t.join(" ,\n ")), arr(v))
        }
        20 => {
            // many pairs with equal keys
            let kv: Vec<((String, X), (String, X))> = (0..n).map(|_| (mix(s), mix(s))).collect();
            let t: Vec<String> = kv.iter().map(|(k, v)| format!("{} => {}", k.0, v.0)).collect();
            table.push("x".into());
            (format!("x = {{{}}}", t.join(", ")), asgn(vec![lvar("x")], vec![hash(kv.into_iter().map(|(k, v)| (k.1, v.1)).collect())]))
        }
        21 => {
            // many words
            let w: Vec<String> = (0..n).map(|i| s.pick_str(&["a", "bb", "é", "nil"]).to_string() + &(i % 5).to_string()).collect();
            let t = format!("%w({})", w.join(s.pick_str(&[" ", "\n", "  "])));
            (t, arr(w.iter().map(|w| X::n("str", vec![X::a(sexp::qs(w))])).collect()))
        }
        22 => {
            // many branches
            let kv: Vec<((String, X), (String, X))> = (0..n).map(|_| (mix(s), mix(s))).collect();
            let t: Vec<String> = kv.iter().map(|(k, v)| format!("when {} then {}\n", k.0, v.0)).collect();
            let w = kv.into_iter().map(|(k, v)| X::n("when", vec![X::n("vals", vec![k.1]), v.1])).collect();
            (format!("case a\n{}else\n b\nend", t.concat()), X::n("case", vec![id("a"), X::n("whens", w), id("b")]))
        }
        23 => {
            // many targets and values
            let names: Vec<String> = (0..n).map(|i| format!("v{}", i)).collect();
            let (t, v): (Vec<String>, Vec<X>) = (0..n).map(|_| mix(s)).unzip();
            // `a` is not assigned, so it stays a bare name
            let l = names.iter().map(|n| lvar(n)).collect();
            let src = format!("{} = {}", names.join(", "), t.join(", "));
            table.extend(names);
            (src, asgn(l, v))
        }
        24 => {
            // a string of many pieces
            let mut v = vec![];
            let mut t = String::new();
            for i in 0..n {
                let (a, x) = mix(s);
                t.push_str(&format!("p{}#{{{}}}", i % 3, a));
                v.push(X::n("str", vec![X::a(sexp::qs(&format!("p{}", i % 3)))]));
                v.push(x);
            }
            (format!("\"{}\"", t), sexp::dstr_norm(v))
        }
        0 => {
            // many elements
            let v: Vec<String> = (0..n).map(|i| i.to_string()).collect();
            (format!("[{}]", v.join(", ")), arr((0..n).map(int).collect()))
        }
        1 => {
            // many arguments
            let v: Vec<String> = (0..n).map(|i| i.to_string()).collect();
            let al = Al { args: (0..n).map(int).collect(), ..Default::default() };
            (format!("foo {}", v.join(",\n")), X::n("fcall", vec![X::a(sexp::qs("foo")), al.x()]))
        }
        2 => {
            // many variables, and the last of them
            let mut t = String::new();
            let mut v = vec![];
            for i in 0..n {
                let name = format!("v{}", i);
                t.push_str(&format!("{} = {}\n", name, i));
                v.push(asgn(vec![lvar(&name)], vec![int(i)]));
                table.push(name);
            }
            let k = s.us(n);
            t.push_str(&format!("v{}", k));
            v.push(lvar(&format!("v{}", k)));
            (t, seq(v))
        }
        3 => {
            // many statements
            let t: Vec<String> = (0..n).map(|i| format!("foo({})", i)).collect();
            let v = (0..n).map(|i| X::n("fcall", vec![X::a(sexp::qs("foo")), Al { args: vec![int(i)], ..Default::default() }.x()]));
            (t.join("\n"), seq(v.collect()))
        }
        4 => {
            // a long string
            let u = s.pick_str(&["a", "é日", "\\n", "x y ", "\\u{1F600}"]);
            let val = u.replace("\\n", "\n").replace("\\u{1F600}", "\u{1F600}").repeat(n);
            (format!("\"{}\"", u.repeat(n)), X::n("str", vec![X::a(sexp::qs(&val))]))
        }
        5 => {
            // a long operator chain
            let t: Vec<&str> = (0..n.min(400)).map(|_| "a").collect();
            let mut x = id("a");
            for _ in 1..t.len() {
                x = X::n("+", vec![x, id("a")]);
            }
            (t.join(" + "), x)
        }
        6 => {
            // a long method chain
            let k = n.min(400);
            let mut x = id("a");
            for _ in 0..k {
                x = call(x, "foo", Al::default());
            }
            (format!("a{}", ".foo".repeat(k)), x)
        }
        7 => {
            let mut x = id("a");
            for _ in 0..d {
                x = arr(vec![x]);
            }
            (format!("{}a{}", "[".repeat(d), "]".repeat(d)), x)
        }
        8 => (format!("{}a{}", "(".repeat(d), ")".repeat(d)), id("a")),
        9 => {
            let mut x = id("a");
            for _ in 0..d {
                x = iff(id("b"), x, X::n("seq", vec![]));
            }
            (format!("{}a\n{}", "if b\n".repeat(d), "end\n".repeat(d)), x)
        }
        10 => {
            // nested blocks, an outer variable at full depth
            let mut x = lv(d, "a");
            for _ in 0..d {
                let info = X::n("info", vec![X::n("params", vec![]), Scope::default().x(), x]);
                let al = Al { blk: Some(X::n("lambda", vec![info])), ..Default::default() };
                x = X::n("fcall", vec![X::a(sexp::qs("foo")), al.x()]);
            }
            table.push("a".into());
            (format!("a = 1\n{}a{}", "foo { ".repeat(d), " }".repeat(d)), X::n("seq", vec![asgn(vec![lvar("a")], vec![int(1)]), x]))
        }
        11 => {
            let mut x = id("a");
            for _ in 0..d.min(60) {
                x = sexp::dstr_norm(vec![X::n("str", vec![X::a("\"x\"")]), x, X::n("str", vec![X::a("\"y\"")])]);
            }
            (format!("{}a{}", "\"x#{".repeat(d.min(60)), "}y\"".repeat(d.min(60))), x)
        }
        12 => {
            let mut x = id("a");
            for _ in 0..d {
                x = X::n("fcall", vec![X::a(sexp::qs("foo")), Al { args: vec![x], ..Default::default() }.x()]);
            }
            (format!("{}a{}", "foo(".repeat(d), ")".repeat(d)), x)
        }
        13 => {
            let mut x = id("a");
            for _ in 0..d {
                x = X::n("u!", vec![x]);
            }
            (format!("{}a", "!".repeat(d)), x)
        }
        14 => {
            // many pairs
            let t: Vec<String> = (0..n).map(|i| format!("k{}: {}", i, i)).collect();
            (format!("x = {{{}}}", t.join(", ")), {
                table.push("x".into());
                asgn(vec![lvar("x")], vec![hash((0..n).map(|i| (sym(&format!("k{}", i)), int(i))).collect())])
            })
        }
        _ => {
            // a long name and a long number
            let name = "q".repeat(n);
            let num = "7".repeat(n);
            let v: num::BigInt = num.parse().unwrap();
            table.push(name.clone());
            (format!("{} = {}", name, num), asgn(vec![lvar(&name)], vec![crate::lits::int_x(&v)]))
        }
    };
    let r = tri!(accepted(&src));
    if let Some(d) = x.diff(&sexp::dump(&r.node)) {
        return fail(src, d);
    }
    if *r.lvar_collector.table() != table {
        return fail(src, format!("table: expected {:?} got {:?}", table, r.lvar_collector.table()));
    }
    pass(src, true, vec!["scale"])
}
