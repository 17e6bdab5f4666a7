//! Totality, purity, provenance.
use super::*;
use std::path::PathBuf;

pub static CHECKS: &[Check] = &[
    Check {
        id: "C01",
        title: "a tree or an error for any text",
        quick: 1_200_000,
        thorough: 30_000_000,
        rule: "texts of at least 3 characters; distinct by text",
        run: c01,
    },
    Check {
        id: "C02",
        title: "parsing is a pure function",
        quick: 300_000,
        thorough: 8_000_000,
        rule: "texts of at least 3 characters; distinct by text",
        run: c02,
    },
    Check {
        id: "C03",
        title: "source and path provenance",
        quick: 800_000,
        thorough: 15_000_000,
        rule: "texts of at least 1 character; distinct by text",
        run: c03,
    },
];

/// A context that knows some names.
pub struct Ctx(pub Vec<(String, usize)>);
impl LocalsContext for Ctx {
    fn find_lvar(&self, id: &str) -> Option<usize> {
        self.0.iter().find(|(n, _)| n == id).map(|(_, d)| *d)
    }
}

fn entry(s: &mut Src, t: &str) -> Res {
    let ctx = Ctx(vec![("a".into(), 0), ("x".into(), 3)]);
    match s.below(4) {
        0 | 1 => Parser::parse_program(t.to_string(), "dir/prog.rb"),
        2 => Parser::parse_program_eval(t.to_string(), PathBuf::from("e"), if s.coin() { Some(&ctx) } else { None }),
        _ => {
            let lv = if s.coin() { Some(LvarCollector::from("a".to_string())) } else { None };
            Parser::parse_program_binding(t.to_string(), PathBuf::from("b"), lv, if s.coin() { Some(&ctx) } else { None })
        }
    }
}

fn c01(s: &mut Src) -> Verdict {
    let (t, kind) = fuzz::text(s);
    set_current(&t);
    let r = limited(t.len(), || {
        let r = entry(s, &t);
        let used = verif_hooks::used();
        (r, used)
    });
    let (r, used) = match r {
        Err(m) => return fail(t, format!("panic {}", m)),
        Ok(r) => r,
    };
    if let Ok(v) = std::env::var("VH_WORK") {
        let n = t.len() as u64;
        if used > v.parse::<u64>().unwrap() * (n + 100) {
            return fail(t, format!("work {}", used));
        }
    }
    let r = guarded(|| match &r {
        Ok(r) => {
            let d = format!("{:?}", r.node);
            let n = r.node.loc;
            let e = r.source_info.get_location(&n);
            (true, d.len() + e.len())
        }
        Err(e) => {
            let d = format!("{:?} {:?}", e.kind, e.loc);
            let l = e.source_info.get_location(&e.loc);
            (false, d.len() + l.len())
        }
    });
    match r {
        Err(m) => fail(t, format!("panic while formatting: {}", m)),
        Ok((ok, _)) => {
            let nt = t.chars().count() >= 3;
            pass(t, nt, vec![kind, if ok { "accepted" } else { "rejected" }])
        }
    }
}

/// Everything observable of a result but the source record.
fn view(r: &Res) -> String {
    match r {
        Ok(r) => format!("{:?} {:?}", r.node, r.lvar_collector),
        Err(e) => format!("{:?} {:?}", e.kind, e.loc),
    }
}

fn c02(s: &mut Src) -> Verdict {
    let (mut t, kind) = fuzz::text(s);
    if s.chance(1, 8) {
        // the path can be seen from within
        let a = s.us(t.len() + 1);
        let a = fuzz::boundary(&t, a);
        t = s.pick_str(&["__FILE__\n", "p __FILE__;", "[__FILE__, __LINE__]\n"]).to_string() + &t[a..];
    }
    set_current(&t);
    let base = match parse(&t) {
        Err(m) => return fail(t, format!("panic {}", m)),
        Ok(r) => view(&r),
    };
    // what is parsed in between must not matter
    let n = s.len(3);
    let mut near = None;
    for _ in 0..n {
        let o = if s.chance(1, 3) {
            // nearly the same text
            let a = s.us(t.len() + 1);
            let a = fuzz::boundary(&t, a);
            let o = match s.below(3) {
                0 => t[..a].to_string(),
                1 => format!("{}{}{}", &t[..a], s.pick_str(&["x", "1", " ", "\n", "#", "\""]), t[a..].chars().skip(1).collect::<String>()),
                _ => format!("{}{}", t, s.pick_str(&["x", "1", " ", "\n", "\nb = 1", "#"])),
            };
            near = parse(&o).ok().map(|r| (o.clone(), view(&r)));
            o
        } else {
            fuzz::text(s).0
        };
        let _ = limited(o.len(), || drop(entry(s, &o)));
    }
    if let Some((o, v)) = near {
        // the similar one as well
        match parse(&o).map(|r| view(&r)) {
            Ok(w) if w == v => {}
            r => return fail(o, format!("again, after others: {:?} but at first {}", r, v)),
        }
    }
    let k = s.below(8);
    let t2 = t.clone();
    let what = ["the second time", "eval without context", "eval with an empty context", "binding without variables", "another thread", "another path", "binding with an empty table", "another path"][k as usize];
    const PATHS: &[&str] = &["qq7.rb", "/qq7", "/qq7/b/../c.rb", "qq7日本.rb", "-qq7", "(qq7)", "qq7/", "/qq7 x/dir/prog.rbx", "qq7/prog.rb", "dir/qq70.rb", "qq7/abcd.ef", "/qq7/é/.rb", "/usr/bin", "/etc/passwd", "/proc/self/exe"];
    let path = s.pick_str(PATHS);
    let base = if what == "another path" { base.replace(FILE, "<path>") } else { base };
    let r = limited(t.len(), || match k {
        0 => view(&Parser::parse_program(t2, FILE)),
        1 => view(&Parser::parse_program_eval(t2, FILE.into(), None::<&Ctx>)),
        2 => view(&Parser::parse_program_eval(t2, FILE.into(), Some(&Ctx(vec![])))),
        3 => view(&Parser::parse_program_binding(t2, FILE.into(), None, None::<&Ctx>)),
        4 if s.chance(1, 8) => std::thread::Builder::new()
            .stack_size(STACK)
            .spawn(move || view(&Parser::parse_program(t2, FILE)))
            .unwrap()
            .join()
            .unwrap_or("panic".into()),
        4 => view(&Parser::parse_program(t2, FILE)),
        6 => view(&Parser::parse_program_binding(t2, FILE.into(), Some(LvarCollector::new()), Some(&Ctx(vec![])))),
        _ => view(&Parser::parse_program(t2, path)).replace(path, "<path>"),
    });
    match r {
        Err(m) => fail(t, format!("{}: panic {}", what, m)),
        Ok(v) if v != base => {
            fail(t, format!("{}: {} but at first {}", what, v, base))
        }
        _ => {
            let nt = t.chars().count() >= 3;
            pass(t, nt, vec![kind, what])
        }
    }
}

fn c03(s: &mut Src) -> Verdict {
    let (mut t, kind) = fuzz::text(s);
    match s.below(8) {
        0 => t.push('\n'),
        1 => t.push_str("\r\n"),
        2 => t.insert(0, '\u{feff}'),
        3 => t.push_str("\n\n"),
        4 => t.push('\0'),
        5 => t = t.replace('\n', "\r\n"),
        _ => {}
    }
    const PARTS: &[&str] = &["a.rb", "dir", "日本", "x y", ".hidden", "..", "a.b.c", "-e", "(eval)", "é.rb", "~", "*", "A", "1", ".", ""];
    let n = 1 + s.len(4);
    let mut path = String::new();
    if s.coin() {
        path.push('/');
    }
    for i in 0..n {
        if i > 0 {
            path.push('/');
        }
        let mut p = s.pick_str(PARTS);
        if i + 1 == n && matches!(p, ".." | "." | "") || i == 0 && p == "" {
            p = "z.rb";
        }
        path.push_str(p);
    }
    let short = path.rsplit('/').next().unwrap().to_string();
    set_current(&t);
    let want = if t.ends_with('\n') { t.clone() } else { format!("{}\n", t) };
    let ctx = Ctx(vec![("a".into(), 1)]);
    let k = s.below(4);
    let (t2, p2) = (t.clone(), path.clone());
    let r = limited(t.len(), || match k {
        0 | 1 => Parser::parse_program(t2, p2),
        2 => Parser::parse_program_eval(t2, p2.into(), Some(&ctx)),
        _ => Parser::parse_program_binding(t2, p2.into(), None, Some(&ctx)),
    });
    let (si, ok) = match r {
        Err(m) => return fail(t, format!("panic {}", m)),
        Ok(Ok(r)) => (r.source_info, true),
        Ok(Err(e)) => (e.source_info, false),
    };
    if si.code != want {
        return fail(t, format!("carried source {:?}, given {:?}", si.code, want));
    }
    if si.path != PathBuf::from(&path) || si.path.as_os_str().to_str() != Some(&path) {
        return fail(t, format!("carried path {:?}, given {:?}", si.path, path));
    }
    if si.file_name() != path {
        return fail(t, format!("file name {:?}, path {:?}", si.file_name(), path));
    }
    if si.short_file_name() != short {
        return fail(t, format!("short file name {:?}, path {:?}", si.short_file_name(), path));
    }
    if ok && k < 2 {
        // __FILE__ is that path
        let r = limited(20, || Parser::parse_program("__FILE__".into(), path.clone()));
        let got = match r {
            Ok(Ok(r)) => sexp::dump(&r.node).show(),
            o => format!("{:?}", o.is_ok()),
        };
        if got != X::n("str", vec![X::a(sexp::qs(&path))]).show() {
            return fail(t, format!("__FILE__ is {} with the path {:?}", got, path));
        }
    }
    let nt = !t.is_empty();
    pass(t, nt, vec![kind, if ok { "accepted" } else { "rejected" }])
}
