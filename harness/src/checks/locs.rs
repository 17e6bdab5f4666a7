//! Source locations and excerpts.
use super::*;
use robust::Ctx;

pub static CHECKS: &[Check] = &[
    Check { id: "C19", title: "locations are valid and exact", quick: 400_000, thorough: 10_000_000, rule: "at least 5 locations were checked, or an error location; distinct by text", run: c19 },
    Check { id: "C20", title: "excerpts show and underline the right text", quick: 300_000, thorough: 8_000_000, rule: "at least 3 excerpts were checked, or the text of an error; distinct by text", run: c20 },
];

fn valid(code: &str, l: (usize, usize), eof: bool) -> Option<String> {
    let n = code.len();
    if eof && l.0 == l.1 && (l.0 == n || l.0 + 1 == n) {
        return None;
    }
    if l.0 > l.1 {
        return Some("the range is empty".into());
    }
    if l.1 >= n {
        return Some(format!("the range ends behind the source of {} bytes", n));
    }
    if !code.is_char_boundary(l.0) || !code.is_char_boundary(l.1 + 1) {
        return Some("the range cuts a character".into());
    }
    None
}

/// All locations of a tree, with what they belong to.
fn all<'a>(x: &'a X) -> Vec<(&'a X, (usize, usize))> {
    let mut v = vec![];
    x.walk(&mut |k| {
        if let Some(l) = k.span {
            v.push((k, l));
        }
    });
    v
}

/// Locations specified by `want` (by structure) that `got` does not have.
fn exact(want: &X, got: &X, code: &str) -> Option<String> {
    if let (Some(w), Some(g)) = (want.span, got.span) {
        if w != g {
            return Some(format!("{} is at {:?}, spelled at {:?} {:?}", got.show(), g, w, code.get(w.0..=w.1)));
        }
    }
    want.kids.iter().zip(&got.kids).find_map(|(a, b)| exact(a, b, code))
}


/// Constructs located at exactly their text.
const EXACT: &[&str] = &[
    "alias", "int", "big", "float", "imag", "cvar", "gvar", "ivar", "lvar", "svar", "sym", "self", "true", "false", "nil", "redo", "zsuper", "array", "hash", "while", "until", "for", "regexp", "super", "str", "bytes", "dstr", "cmd",
    "req", "opt", "rest", "post", "key", "kwrest", "blockparam", "delegate",
];
/// Constructs located at their first word.
const KEYWORD: &[&str] = &["def", "defs", "return", "break", "next", "yield", "lambda"];
/// Constructs that cover exactly their parts.
const HULL: &[&str] = &[
    "+", "-", "*", "/", "%", "**", "<<", ">>", "&", "|", "^", "<=>", "==", "!=", "<", "<=", ">", ">=", "===", "=~", "&&", "||", "..", "...", "+=", "-=", "*=", "/=", "%=", "**=", "<<=", ">>=", "&=", "|=", "^=", "asgn", "begin", "seq",
    "destruct", "regexp", "cmd", "defined",
];
const UNARY: &[&str] = &["u+", "u-", "u~", "u!", "splat"];

/// The hull of the locations of the parts.
fn hull(x: &X) -> Option<(usize, usize)> {
    let mut h: Option<(usize, usize)> = None;
    for k in &x.kids {
        let s = if k.span.is_some() { k.span } else { hull(k) };
        if let Some(s) = s {
            h = Some(h.map_or(s, |h| (h.0.min(s.0), h.1.max(s.1))));
        }
    }
    h
}

/// How the location of a construct (`got`) relates to its text (`want`).
fn strict(want: &X, got: &X, code: &str) -> Option<String> {
    if let Some(g) = got.span {
        let tag = got.tag.as_str();
        let h = match (tag, &got.kids[..]) {
            // (the bodies of here-documents may lie between statements)
            ("seq", [a, .., b]) => a.span.zip(b.span).map(|(a, b)| (a.0.min(b.0), a.1.max(b.1))),
            ("asgn", [l, r]) => match (l.kids.first().and_then(|k| k.span), hull(r)) {
                (Some(a), Some(b)) => Some((a.0.min(b.0), a.1.max(b.1))),
                _ => None,
            },
            ("begin", [body, rescues, rest @ ..]) => {
                let all = std::iter::once(body).chain(rescues.kids.iter().map(|r| &r.kids[2])).chain(rest);
                all.filter_map(|k| k.span).reduce(|a, b| (a.0.min(b.0), a.1.max(b.1)))
            }
            _ => hull(got),
        };
        let text = code.get(g.0..=g.1).unwrap_or("");
        let bad = |why: String| Some(format!("{} is at {:?} {:?}: {}", got.show(), g, text, why));
        if let Some(w) = want.ext {
            // the bodies of here-documents may follow later
            let end = w.1.max(hull(got).map_or(0, |h| h.1));
            let spelled = code.get(w.0..=w.1).unwrap_or("");
            if spelled.starts_with("<<") && matches!(tag, "str" | "bytes" | "dstr" | "cmd") {
                if let Some(why) = here_doc(spelled, g, w, code) {
                    return bad(why);
                }
            } else {
                if g.0 < w.0 || g.1 > end {
                    return bad(format!("its text is at {:?} {:?}", w, spelled));
                }
                let cut = matches!(tag, "super") && g.1 < end && spelled.contains("<<");
                if EXACT.contains(&tag) && g != (w.0, end) && g != w && !cut {
                    return bad(format!("it is spelled at {:?} {:?}", w, spelled));
                }
                if tag == "lambda" && !spelled.starts_with("->") && g != (w.0, end) {
                    return bad(format!("the block is at {:?} {:?}", w, spelled));
                }
                if KEYWORD.contains(&tag) && !(tag == "lambda" && !spelled.starts_with("->")) && (g.0 != w.0 || !matches!(text, "def" | "return" | "break" | "next" | "yield" | "->")) {
                    return bad(format!("it does not begin like {:?}", spelled));
                }
                if matches!(tag, "case" | "sclass") && g.0 != w.0 {
                    return bad(format!("it does not begin like {:?}", spelled));
                }
                if tag == "if" && h.is_some() {
                    let start = if want.kw { w.0 } else { h.unwrap().0 };
                    if g.0 != start {
                        return bad(format!("it should begin at {}", start));
                    }
                }
                if matches!(tag, "while_mod" | "until_mod") && !spelled.contains("<<") && (g.1 != end && g.1 != w.1 || h.map_or(false, |h| g.0 != h.0)) {
                    return bad(format!("it should begin at {:?} and end at {}", h.map(|h| h.0), end));
                }
                if UNARY.contains(&tag) && g.0 != w.0 && !(tag == "u!" && h.map_or(false, |h| h.0 == g.0)) {
                    return bad(format!("it does not begin like {:?}", spelled));
                }
                let path = spelled.starts_with(|c: char| c.is_alphanumeric() || c == ':');
                if tag == "const" && (g.1 != w.1 && g.1 != end || path && got.kids[1].tag == "none" && g.0 != w.0) {
                    return bad(format!("it is spelled at {:?} {:?}", w, spelled));
                }
            }
        }
        match tag {
            "ident" if text != got.kids[0].tag => return bad("not its name".into()),
            "fcall" if qs_(text) != got.kids[0].tag => return bad("not its name".into()),
            _ => {}
        }
        if let Some(h) = h {
            if HULL.contains(&tag) && g != h {
                return bad(format!("its parts are at {:?} {:?}", h, code.get(h.0..=h.1)));
            }
            if UNARY.contains(&tag) {
                if g.1 != h.1 {
                    return bad(format!("its operand is at {:?} {:?}", h, code.get(h.0..=h.1)));
                }
                if g.0 > h.0 {
                    return bad(format!("its operand is at {:?}", h));
                }
            }
            if tag == "const" && g.0 > h.0 {
                return bad("it does not cover its scope".into());
            }
        }
    }
    want.kids.iter().zip(&got.kids).find_map(|(a, b)| strict(a, b, code))
}

fn qs_(s: &str) -> String {
    sexp::qs(s)
}

/// A here-document is located at its body (at "<<" if that is empty).
fn here_doc(spelled: &str, g: (usize, usize), w: (usize, usize), code: &str) -> Option<String> {
    let term = spelled[2..].trim_start_matches('-').trim_matches(&['"', '\'', '`'][..]);
    let indent = spelled.starts_with("<<-");
    if g.0 == w.0 {
        return if g.1 <= w.1 { None } else { Some("not \"<<\"".into()) };
    }
    if g.0 <= w.1 || &code[g.0 - 1..g.0] != "\n" || &code[g.1..=g.1] != "\n" {
        return Some("not the body of a here-document".into());
    }
    let line = code[g.1 + 1..].split('\n').next().unwrap_or("");
    let line = line.strip_suffix('\r').unwrap_or(line);
    let line = if indent { line.trim_start_matches(&[' ', '\t', '\x0b', '\x0c', '\r'][..]) } else { line };
    if line != term {
        return Some(format!("the body is followed by {:?}", line));
    }
    None
}

fn shift(x: &X, n: usize) -> X {
    X { tag: x.tag.clone(), kids: x.kids.iter().map(|k| shift(k, n)).collect(), span: x.span.map(|(a, b)| (a + n, b + n)), ext: None, kw: false }
}

pub fn span_diff(a: &X, b: &X) -> Option<String> {
    if a.tag != b.tag || a.kids.len() != b.kids.len() {
        return Some(format!("{} became {}", a.show(), b.show()));
    }
    // an empty sequence has no text of its own
    if a.span != b.span && !(a.tag == "seq" && a.kids.is_empty()) {
        return Some(format!("{} should be at {:?}, is at {:?}", a.show(), a.span, b.span));
    }
    a.kids.iter().zip(&b.kids).find_map(|(a, b)| span_diff(a, b))
}

/// All of a table but where numbered parameters were seen.
pub fn names(t: &LvarCollector) -> String {
    format!("{:?} {:?} {:?} {:?} {:?}", t.table, t.kw, t.kwrest_param(), t.block_param(), t.forwarding_param)
}

const PREFIX: &[&str] = &["\n", "\n\n", "# c\n", "# é日本 😀\n\n", "  \t\n", ";\n", " ;;\n", "\r\n", "# \"\n", "\\\n\n", "# <<A\n", "#\n#\n\n   \n"];

fn prefixed(code: &str, r: &Res, s: &mut Src) -> Option<(String, String)> {
    let mut pre = String::new();
    for _ in 0..1 + s.len(4) {
        pre.push_str(s.pick_str(PREFIX));
    }
    let n = pre.len();
    let t = format!("{}{}", pre, code);
    let msg = match (r, parse(&t)) {
        (_, Err(m)) => format!("panic {}", m),
        (Ok(a), Ok(Ok(b))) => match span_diff(&shift(&sexp::dump(&a.node), n), &sexp::dump(&b.node)) {
            Some(d) => d,
            None if names(&a.lvar_collector) != names(&b.lvar_collector) => "another table".into(),
            None => return None,
        },
        (Err(a), Ok(Err(b))) => {
            if a.kind == b.kind && Loc(a.loc.0 + n, a.loc.1 + n) == b.loc {
                return None;
            }
            format!("{:?} at {:?} became {:?} at {:?}, {} bytes further on", a.kind, a.loc, b.kind, b.loc, n)
        }
        (a, Ok(b)) => format!("accepted: {} became {}", a.is_ok(), b.is_ok()),
    };
    Some((t, format!("behind the prefix {:?}: {}", pre, msg)))
}

fn c19(s: &mut Src) -> Verdict {
    if s.chance(1, 3) {
        // any text: errors
        let (t, kind) = fuzz::text(s);
        let r = match parse(&t) {
            Err(m) => return fail(t, format!("panic {}", m)),
            Ok(r) => r,
        };
        let mut classes = vec![kind];
        match &r {
            Ok(r) => {
                let x = sexp::dump(&r.node);
                let code = &r.source_info.code;
                for (k, l) in all(&x) {
                    if let Some(m) = valid(code, l, k.tag == "seq" && k.kids.is_empty()) {
                        return fail(t, format!("{} at {:?}: {}", k.show(), l, m));
                    }
                }
                classes.push("tree of any text");
            }
            Err(e) => {
                if let Some(m) = valid(&e.source_info.code, (e.loc.0, e.loc.1), true) {
                    return fail(t, format!("{:?} at {:?}: {}", e.kind, e.loc, m));
                }
                classes.push("error");
            }
        }
        // __LINE__ is meant to change; an encoding comment or __END__ is not special here
        if !t.contains("__LINE__") {
            if let Some((t, m)) = prefixed(&t, &r, s) {
                return fail(t, m);
            }
        }
        let nt = t.len() >= 3;
        return pass(t, nt, classes);
    }
    let f = *s.pick(&[F::All, F::Op, F::Num, F::Str, F::Here, F::Interp, F::Name, F::Scope, F::Call, F::Assign, F::Param]);
    let cfg = Cfg::new(f, s.size);
    let p = make(s, &cfg);
    let wild = *s.pick(&[0, 20, 40]);
    let laid = render(&p, s, wild);
    let r = tri!(compare(&laid, &p));
    let code = &r.source_info.code;
    let x = sexp::dump(&r.node);
    let locs = all(&x);
    for (k, l) in &locs {
        if let Some(m) = valid(code, *l, false) {
            return fail(&*laid.src, format!("{} at {:?}: {}", k.show(), l, m));
        }
    }
    if let Some(m) = exact(&resolve(&p.x, &laid.pos), &x, code) {
        return fail(&*laid.src, m);
    }
    if let Some(m) = strict(&resolve(&p.x, &laid.pos), &x, code) {
        return fail(&*laid.src, m);
    }
    if let Some((t, m)) = prefixed(&laid.src, &Ok(r.clone()), s) {
        return fail(t, m);
    }
    let nt = locs.len() >= 5;
    pass(laid.src, nt, p.feats.iter().copied().collect())
}

// ---------------------------------------------------------------- excerpts

/// Display width of characters whose width is beyond dispute.
fn width(t: &str) -> Option<usize> {
    let mut w = 0;
    let mut it = t.chars().peekable();
    while let Some(c) = it.next() {
        if c == '\x1b' && it.peek() == Some(&'[') {
            // a control sequence occupies no column
            it.next();
            match it.find(|c| !matches!(c, '0'..='9' | ';')) {
                Some('m') => continue,
                _ => return None,
            }
        }
        w += match c {
            ' '..='~' => 1,
            'à'..='ö' | 'ø'..='ÿ' | 'ñ' => 1,
            'α'..='ω' => 1,
            '\u{4e00}'..='\u{9fff}' | 'ぁ'..='ん' | '가'..='힣' | '😀' => 2,
            _ => return None,
        };
    }
    Some(w)
}

pub fn excerpt(si: &SourceInfo, l: Loc) -> Result<bool, String> {
    let code = &si.code;
    if l.0 != l.1 && code[l.0..].starts_with('\n') {
        // an empty sequence of statements: begins with the end of a line
        si.get_location(&l);
        return Ok(false);
    }
    let line = 1 + code.as_bytes()[..l.0.min(code.len())].iter().filter(|b| **b == b'\n').count();
    if si.get_line(&l) != line {
        return Err(format!("the line of {:?} is {}, not {}", l, line, si.get_line(&l)));
    }
    let out = si.get_location(&l);
    let mut it = out.strip_suffix('\n').unwrap_or(&out).split('\n');
    let head = it.next().unwrap_or("");
    if head != format!("{}:{}", si.file_name(), line) {
        return Err(format!("the excerpt for {:?} in line {} begins with {:?}", l, line, head));
    }
    // the lines it touches
    let mut top = 0;
    let mut first = true;
    let mut known = true;
    let end_of_input = l.0 >= code.len();
    let mut lines: Vec<&str> = code.split('\n').collect();
    if code.ends_with('\n') && !end_of_input {
        lines.pop();
    }
    for text in lines {
        let end = top + text.len(); // the newline
        let touched = top <= l.1.min(code.len()) && end >= l.0.min(code.len());
        if touched {
            let (a, b) = (l.0.max(top), (l.1 + 1).min(end));
            let only_newline = a >= end;
            if only_newline && !first && text.is_empty() {
                // an empty line in the middle: shown or not, there is nothing to mark
            }
            let shown = it.next();
            let marks = it.next();
            let (shown, marks) = match (shown, marks) {
                (Some(a), Some(b)) => (a, b),
                _ => return Err(format!("the excerpt for {:?} has no line for {:?}:\n{}", l, text, out)),
            };
            let pad = marks.len() - marks.trim_start_matches(' ').len();
            let carets = marks.len() - pad;
            if !marks[pad..].bytes().all(|b| b == b'^') {
                return Err(format!("strange marks {:?} for {:?}:\n{}", marks, l, out));
            }
            if text.len() < 80 && shown != text && !(only_newline && shown.is_empty()) {
                return Err(format!("the line {:?} is not shown for {:?}:\n{}", text, l, out));
            }
            match (width(text), width(&text[a.min(end) - top..b.max(a).min(end) - top])) {
                (Some(full), Some(w)) => {
                    // a newline which is part of the range may be marked as well
                    let newline = l.1 >= end && l.0 <= end;
                    let ok_len = if only_newline { carets <= 1 } else { carets == w || newline && carets == w + 1 };
                    if !ok_len {
                        return Err(format!("{} columns are marked, not {}, for {:?}:\n{}", carets, w, l, out));
                    }
                    // where in the line is the text shown?
                    let mut found = false;
                    for (o, _) in text.char_indices().chain(std::iter::once((text.len(), ' '))) {
                        if text[o..].starts_with(shown) && o <= a.min(end) - top && width(&text[o..a.min(end) - top]) == Some(pad) {
                            // everything covered is on display
                            let e = o + shown.len();
                            if e >= b.min(end) - top || only_newline || width(&text[e..b.min(end) - top]) == Some(0) {
                                found = true;
                            }
                        }
                    }
                    // the end of a line may be all there is on the last screen line
                    if !found && !(only_newline && shown.is_empty()) {
                        return Err(format!("the marks for {:?} are not below its text in {:?}:\n{}", l, text, out));
                    }
                    use std::io::IsTerminal;
                    if full < 80 && !std::io::stdout().is_terminal() && shown != text {
                        return Err(format!("the line {:?} is not shown for {:?}:\n{}", text, l, out));
                    }
                }
                _ => known = false,
            }
            first = false;
        }
        top = end + 1;
    }
    if it.next().is_some() {
        return Err(format!("the excerpt for {:?} has more lines than it touches:\n{}", l, out));
    }
    Ok(known)
}

fn c20(s: &mut Src) -> Verdict {
    let mut pre = String::new();
    if s.chance(1, 4) {
        // long lines
        let u = s.pick_str(&["a", "日", "é", "x日", "ab cd ", "😀", "\x1b[31mred\x1b[0m", "a\x1b[1;42m日"]);
        let n = *s.pick(&[1, 2, 5, 10, 40, 80, 130]);
        let n = 1 + s.us(n);
        pre = format!("\"{}\"; ", u.repeat(n));
    } else if s.chance(1, 4) {
        pre = "\n".repeat(s.us(30));
    }
    let mut classes = vec![];
    let mut n = 0;
    let (text, si, mut locs) = if s.chance(1, 3) {
        let (t, kind) = fuzz::text(s);
        let t = format!("{}{}", pre, t);
        classes.push(kind);
        match parse(&t) {
            Err(m) => return fail(t, format!("panic {}", m)),
            Ok(Ok(r)) => {
                let x = sexp::dump(&r.node);
                let v: Vec<Loc> = all(&x).into_iter().map(|(_, l)| Loc(l.0, l.1)).collect();
                (t, r.source_info, v)
            }
            Ok(Err(e)) => {
                classes.push("error");
                n += 3;
                (t, e.source_info, vec![e.loc])
            }
        }
    } else {
        let f = *s.pick(&[F::All, F::Here, F::Str, F::Interp, F::Name, F::Flow, F::Def]);
        let mut cfg = Cfg::new(f, s.size);
        cfg.line = true;
        let p = make(s, &cfg);
        let wild = *s.pick(&[0, 20, 40]);
        let laid = render(&p, s, wild);
        let t = format!("{}{}", pre, laid.src);
        let r = tri!(accepted(&t));
        // __LINE__
        let mut want = p.x.clone();
        fix_lines(&mut want, &laid, &pre);
        let got = sexp::dump(&r.node);
        let g2 = if pre.starts_with('"') {
            // the statement in front
            seq(match &got {
                x if x.tag == "seq" && x.kids.len() >= 2 => x.kids[1..].to_vec(),
                x => vec![x.clone()],
            })
        } else {
            got.clone()
        };
        if p.feats.contains("line") {
            if let Some(d) = want.diff(&g2) {
                // a program that is a sequence stays one
                if !(pre.starts_with('"') && want.tag == "seq") {
                    return fail(t, format!("__LINE__: {}", d));
                }
            }
            classes.push("line");
        }
        let v: Vec<Loc> = all(&got).into_iter().map(|(_, l)| Loc(l.0, l.1)).collect();
        (t, r.source_info, v)
    };
    // some of them, the end of the input and any other range
    while locs.len() > 12 {
        let k = s.us(locs.len());
        locs.swap_remove(k);
    }
    let _ = robust_ctx();
    let len = si.code.len();
    locs.push(Loc(len, len));
    locs.push(Loc(len - 1, len - 1));
    for _ in 0..3 {
        let mut a = s.us(len);
        let mut b = (a + s.us(40)).min(len - 1);
        if si.code.as_bytes()[a] == b'\n' {
            // no construct begins with the end of a line
            b = a;
        }
        while !si.code.is_char_boundary(a) {
            a -= 1;
        }
        while !si.code.is_char_boundary(b + 1) {
            b += 1;
        }
        // not from within a control sequence
        if let Some(k) = si.code[..=b].rfind('\x1b') {
            let e = k + si.code[k..].find(|c: char| c == 'm' || c == '\n').unwrap_or(0);
            if e > b && si.code.as_bytes()[e] == b'm' {
                b = e;
            }
        }
        if let Some(k) = si.code[..a].rfind('\x1b') {
            if !si.code[k..a].contains('m') {
                a = k;
            }
        }
        locs.push(Loc(a, b));
    }
    if s.chance(1, 2000) {
        // the same excerpt on standard error
        classes.push("show_loc");
        let (l, want) = match guarded(|| (locs[0], si.get_location(&locs[0]))) {
            Ok(x) => x,
            Err(m) => return fail(text, format!("panic for the excerpt of {:?}: {}", locs[0], m)),
        };
        match show_loc(&si, l) {
            Ok(got) if got == want => {}
            Ok(got) => return fail(text, format!("show_loc({:?}) prints\n{}\nnot\n{}", l, got, want)),
            Err(_) => {}
        }
    }
    for l in locs {
        let r = guarded(|| excerpt(&si, l));
        match r {
            Err(m) => return fail(text, format!("panic for the excerpt of {:?}: {}", l, m)),
            Ok(Err(m)) => return fail(text, m),
            Ok(Ok(known)) => n += known as usize,
        }
    }
    pass(text, n >= 3, classes)
}

/// What `show_loc` prints, by another process ("vh showloc").
fn show_loc(si: &SourceInfo, l: Loc) -> std::io::Result<String> {
    use std::io::Write;
    use std::process::{Command, Stdio};
    let mut c = Command::new(std::env::current_exe()?)
        .arg("showloc")
        .arg(&si.path)
        .args([l.0.to_string(), l.1.to_string()])
        .stdin(Stdio::piped())
        .stdout(Stdio::inherit())
        .stderr(Stdio::piped())
        .spawn()?;
    c.stdin.take().unwrap().write_all(si.code.as_bytes())?;
    Ok(String::from_utf8_lossy(&c.wait_with_output()?.stderr).into_owned())
}

fn robust_ctx() -> Ctx {
    Ctx(vec![])
}

fn fix_lines(x: &mut X, laid: &Laid, pre: &str) {
    if x.tag == "int" {
        if let Some(i) = x.kids.first().and_then(|k| k.tag.strip_prefix('L')) {
            let i: usize = i.parse().unwrap();
            let p = laid.pos[i].0;
            let n = 1 + (pre.to_string() + &laid.src[..p]).matches('\n').count();
            x.kids[0].tag = n.to_string();
        }
    }
    for k in &mut x.kids {
        fix_lines(k, laid, pre);
    }
}

/// How the locations of constructs relate to their first and last token (for the development of the oracle).
pub fn spans(n: u64) {
    use std::collections::BTreeMap;
    let mut m: BTreeMap<String, [usize; 6]> = BTreeMap::new();
    let mut eg: BTreeMap<(String, usize), String> = BTreeMap::new();
    fn go(a: &X, b: &X, code: &str, m: &mut BTreeMap<String, [usize; 6]>, eg: &mut BTreeMap<(String, usize), String>) {
        if let (Some(w), Some(g)) = (a.ext, b.span) {
            let e = m.entry(a.tag.clone()).or_default();
            let i = match g.0.cmp(&w.0) {
                std::cmp::Ordering::Less => 0,
                std::cmp::Ordering::Equal => 1,
                _ => 2,
            };
            let j = 3 + match g.1.cmp(&w.1) {
                std::cmp::Ordering::Less => 0,
                std::cmp::Ordering::Equal => 1,
                _ => 2,
            };
            e[i] += 1;
            e[j] += 1;
            for k in [i, j] {
                if k != 1 && k != 4 {
                    let t = format!("{:?} at {:?} in {:?}", code.get(w.0..=w.1), code.get(g.0..=g.1), code);
                    let v = eg.entry((a.tag.clone(), k)).or_insert_with(|| t.clone());
                    if t.len() < v.len() {
                        *v = t;
                    }
                }
            }
        }
        if let Some(g) = b.span {
            // compared with the hull of its parts
            let mut h: Option<(usize, usize)> = None;
            for k in &b.kids {
                let l: Vec<_> = if k.span.is_some() { vec![k] } else { k.kids.iter().collect() };
                for k in l {
                    if let Some(s) = k.span {
                        h = Some(h.map_or(s, |h: (usize, usize)| (h.0.min(s.0), h.1.max(s.1))));
                    }
                }
            }
            if let Some(w) = h {
                let tag = format!("~{}", a.tag);
                let e = m.entry(tag.clone()).or_default();
                let i = if g.0 < w.0 { 0 } else if g.0 == w.0 { 1 } else { 2 };
                let j = if g.1 < w.1 { 3 } else if g.1 == w.1 { 4 } else { 5 };
                e[i] += 1;
                e[j] += 1;
                for k in [i, j] {
                    if k != 1 && k != 4 {
                        let t = format!("{:?} at {:?} in {:?}", code.get(w.0..=w.1), code.get(g.0..=g.1), code);
                        let v = eg.entry((tag.clone(), k)).or_insert_with(|| t.clone());
                        if t.len() < v.len() {
                            *v = t;
                        }
                    }
                }
            }
        }
        for (a, b) in a.kids.iter().zip(&b.kids) {
            go(a, b, code, m, eg);
        }
    }
    for i in 0..n {
        let mut s = Src::random(i * 7919 + 77, 5 + i % 60);
        let s = &mut s;
        let f = *s.pick(&[F::All, F::Op, F::Num, F::Str, F::Here, F::Interp, F::Name, F::Scope, F::Call, F::Assign, F::Param, F::Flow, F::Def, F::Coll, F::Cmd, F::Regex]);
        let cfg = Cfg::new(f, s.size);
        let p = make(s, &cfg);
        let laid = render(&p, s, 0);
        if let Ok(r) = compare(&laid, &p) {
            go(&resolve(&p.x, &laid.pos), &sexp::dump(&r.node), &r.source_info.code, &mut m, &mut eg);
        }
    }
    for (t, e) in m {
        println!("{:14} {:?}", t, e);
        for k in 0..6 {
            if let Some(x) = eg.get(&(t.clone(), k)) {
                println!("      {} {}", ["start before", "", "start behind", "end before", "", "end behind"][k], x.chars().take(220).collect::<String>());
            }
        }
    }
}
