//! Incomplete and invalid programs.
use super::*;

pub static CHECKS: &[Check] = &[
    Check { id: "C21", title: "incomplete input is an unexpected end of input", quick: 600_000, thorough: 20_000_000, rule: "the text judged has at least 2 characters; distinct by text", run: c21 },
    Check { id: "C22", title: "ill-formed programs are refused", quick: 600_000, thorough: 20_000_000, rule: "the text judged has at least 3 characters; distinct by text", run: c22 },
];

const FS: &[F] = &[F::All, F::All, F::Flow, F::Call, F::Cmd, F::Op, F::Param, F::Def, F::Assign, F::Interp, F::Str, F::Coll, F::Regex, F::Name, F::Scope, F::Num];

// ---------------------------------------------------------------- end of input

/// parse by one of the entry points
fn any_parse(s: &mut Src, code: &str) -> Result<Res, String> {
    set_current(code);
    let c = code.to_string();
    match s.below(6) {
        0 => limited(code.len(), || Parser::parse_program_eval(c, FILE.into(), None::<&robust::Ctx>)),
        1 => limited(code.len(), || Parser::parse_program_binding(c, FILE.into(), None, None::<&robust::Ctx>)),
        _ => limited(code.len(), || Parser::parse_program(c, FILE)),
    }
}

enum Want {
    Eof,
    EofOrOk,
    Ok,
    Other,
}

fn judge(s: &mut Src, code: String, want: Want, what: &'static str) -> Verdict {
    let r = match any_parse(s, &code) {
        Err(m) => return fail(code, format!("panic {}", m)),
        Ok(r) => r,
    };
    let (got, eof) = match &r {
        Ok(_) => ("accepted".to_string(), false),
        Err(e) => (format!("{:?} {:?}", e.kind, e.loc), matches!(e.kind, ParseErrKind::UnexpectedEOF)),
    };
    let ok = match want {
        Want::Eof => eof,
        Want::EofOrOk => eof || r.is_ok(),
        Want::Ok => r.is_ok(),
        Want::Other => !eof && r.is_err(),
    };
    if !ok {
        let want = match want {
            Want::Eof => "an unexpected end of input",
            Want::EofOrOk => "accepted or an unexpected end of input",
            Want::Ok => "accepted",
            Want::Other => "a syntax error other than the end of input",
        };
        return fail(code, format!("{}: expected {}, got {}", what, want, got));
    }
    let nt = code.chars().count() > 1;
    pass(code, nt, vec![what])
}

const TAILS: &[&str] = &["", "", "", "", "\n", " ", "\n\n", " # c\n", "\n# c", "\t\n", "\r\n"];

/// the characters of the text where a cut leaves no half of a line continuation
fn clean_cut(t: &str) -> bool {
    !t.ends_with('\\') && !t.ends_with('\r')
}

fn c21(s: &mut Src) -> Verdict {
    let f = *s.pick(FS);
    let k = s.weighted(&[30, 12, 12, 14, 8, 16, 4]);
    let size = s.size;
    let mut cfg = Cfg::new(if k == 4 { F::Here } else if k == 3 && s.coin() { *s.pick(&[F::Str, F::Interp, F::Regex, F::Coll]) } else { f }, size);
    cfg.heredoc = matches!(k, 1 | 4 | 6);
    let p = make(s, &cfg);
    let wild = *s.pick(&[0, 10, 40]);
    let laid = render(&p, s, wild);
    match k {
        0 => open_cut(s, &p, &laid),
        1 => {
            // every prefix of complete lines
            let t = &laid.src;
            let cuts: Vec<usize> = t.char_indices().filter(|(i, c)| *c == '\n' && !t[..*i].ends_with('\\')).map(|(i, _)| i + 1).collect();
            if cuts.is_empty() {
                return judge(s, t.clone(), Want::Ok, "complete");
            }
            let c = *s.pick(&cuts);
            let next = t[c..].trim_start();
            if next.starts_with('.') || next.starts_with('&') || next.starts_with('#') {
                return Verdict::Discard;
            }
            judge(s, t[..c].to_string(), Want::EofOrOk, "lines")
        }
        2 => {
            let i = s.us(p.order.len());
            let t = p.order[i];
            let code = laid.src[..laid.pos[t].1].to_string();
            if p.starts.contains(&p.order.get(i + 1).copied().unwrap_or(usize::MAX)) || i + 1 == p.order.len() {
                return judge(s, code, Want::Ok, "complete");
            }
            judge(s, code, Want::EofOrOk, "token prefix")
        }
        3 => literal_cut(s, &p, &laid),
        4 => heredoc_cut(s, &p, &laid),
        5 => wrong_before_end(s, &p, &laid),
        _ => {
            let tail = s.pick_str(&["", "\n", "\n\n", "\n# c", "\n  ", "\n;", "\n; # x\n;"]);
            judge(s, laid.src + tail, Want::Ok, "complete")
        }
    }
}

fn open_cut(s: &mut Src, p: &Prog, laid: &Laid) -> Verdict {
    let opens: Vec<(usize, usize)> = p.opens.iter().copied().filter(|(a, b)| a < b && *b < p.toks.len()).collect();
    if opens.is_empty() {
        return Verdict::Discard;
    }
    let (a, b) = *s.pick(&opens);
    let k = a + s.us(b - a);
    let from = laid.pos[k].1;
    let to = laid.pos[k + 1].0;
    // in the gap behind the token
    let mut at = from;
    if to > from && s.chance(1, 3) {
        at = from + s.us(to - from + 1);
        // not within "then" or "do"
        if matches!(p.toks[k + 1].gap, Gap::Then | Gap::Do) {
            at = to;
        }
        while !laid.src.is_char_boundary(at) {
            at -= 1;
        }
    }
    // a line that is continued by a dot is complete without it
    if p.toks[k + 1].kind == K::Raw || p.toks[k + 1].gap == Gap::Dot {
        at = from;
    }
    let mut code = laid.src[..at].to_string();
    if !clean_cut(&code) {
        return Verdict::Discard;
    }
    let mut tail = s.pick_str(TAILS);
    use Gap::*;
    if tail.contains('\n') && !matches!(p.toks[k + 1].gap, Nl0 | Nl1 | OpR | DotR | Term | TermOpt | Then | Do | Line) {
        tail = " ";
    }
    if tail.contains('#') && [".", "&.", "::", "alias", "def", "?"].contains(&&*p.toks[k].text) {
        tail = "";
    }
    code.push_str(tail);
    judge(s, code, Want::Eof, "open construct")
}

/// where a literal token may be cut: (first, last) byte
fn literal_range(p: &Prog, k: usize) -> Option<(usize, usize)> {
    let t = &p.toks[k].text;
    let c = t.chars().next()?;
    if t.ends_with("#{") {
        return Some((t.find(|c: char| c.is_ascii_punctuation() && c != ':' && c != '%').map_or(1, |i| i + 1), t.len()));
    }
    match p.toks[k].kind {
        K::Raw => {
            let body = t.trim_end_matches(|c: char| c.is_ascii_lowercase());
            return if body.len() > 1 { Some((1, body.len() - 1)) } else { None };
        }
        K::Regex => {
            let body = t.trim_end_matches(|c: char| c.is_ascii_lowercase());
            return Some((if t.starts_with('%') { 3 } else { 1 }, body.len() - 1));
        }
        _ => {}
    }
    let close = t.chars().last()?;
    match c {
        '"' | '\'' | '`' if t.len() > 1 && close == c => Some((1, t.len() - 1)),
        ':' if t.len() > 2 && t[1..].starts_with(|c| c == '"' || c == '\'') => Some((2, t.len() - 1)),
        '%' if t.len() > 2 => {
            let open = t[1..].chars().position(|c| !c.is_ascii_alphanumeric())? + 1;
            let o = t[open..].chars().next()?;
            Some((open + o.len_utf8(), t.len() - close.len_utf8()))
        }
        _ => None,
    }
}

fn literal_cut(s: &mut Src, p: &Prog, laid: &Laid) -> Verdict {
    let v: Vec<(usize, (usize, usize))> = p.order.iter().filter_map(|k| literal_range(p, *k).map(|r| (*k, r))).filter(|(_, (a, b))| a <= b).collect();
    if v.is_empty() {
        return Verdict::Discard;
    }
    let (k, (a, b)) = *s.pick(&v);
    let mut at = laid.pos[k].0 + a + s.us(b - a + 1);
    while !laid.src.is_char_boundary(at) {
        at -= 1;
    }
    let code = laid.src[..at].to_string();
    judge(s, code, Want::Eof, "literal")
}

fn heredoc_cut(s: &mut Src, p: &Prog, laid: &Laid) -> Verdict {
    if p.bodies.is_empty() {
        return Verdict::Discard;
    }
    let i = s.us(p.bodies.len());
    let (start, end) = laid.bodies[i];
    let end = end.min(laid.src.len());
    let b = &p.bodies[i];
    let line = laid.src[..end].trim_end_matches('\n').rfind(&b.term).unwrap_or(start);
    if line < start {
        return Verdict::Discard;
    }
    let intro = match p.toks.iter().position(|t| t.here == Some(i)) {
        Some(t) => laid.pos[t].1,
        None => return Verdict::Discard,
    };
    let lo = if s.chance(1, 4) { intro } else { start };
    let mut at = lo + s.us(line + b.term.len() - lo);
    while !laid.src.is_char_boundary(at) {
        at -= 1;
    }
    let code = laid.src[..at].to_string();
    // a line that happens to be the beginning of the terminator
    let last = code.rsplit('\n').next().unwrap_or("");
    if at >= start && last.trim() == b.term {
        return Verdict::Discard;
    }
    judge(s, code, Want::Eof, "here-document")
}

const CLOSERS: &[&str] = &[")", "]", "}", "end"];

/// wrong whatever follows
const WRONG: &[&str] = &[
    ")", "]", "}", "end", "else", "elsif a", "when 1", "rescue", "ensure", "then", "in a", "1 2", "=> 1", "(1]", "[1)", "{1 => 2)", "(1 2)", "[1 2]", "def 1; end", "class a; end", "module 1; end", "1 = 2", "nil = 1", "a = )", "(a + )",
    "foo(,)", "[,]", "1.5 2", "\"s\" 1", ":s 1", "[1] 2", "{1 2}", "foo(1 2)", "foo(1; 2)", "if )", "while ]", "case )", "for 1 in a", "for in a", "alias 1 2", "->(1) { }", "foo { |1| }", "def f(1); end", "def f(a, a); end", "self = 1", 
    "1 +) 2", "x ? 1 ; 2", "x ? ) : 2", "\"#{)}\"", "\"#{1 2}\"", "/#{]}/", "`#{end}`", "@1", "$)(", "0x", "0b2", "09", "1__0", "1e", "\"\\u{110000}\"", "\"\\xzz\"", "a.1", "a::1", "a..b..c", "a == b == c", "foo(&a, b)", "foo(&b) { }", "foo(...)",
    "1 if then", "begin )", "begin; a; else b ]", "def f; class A; end; end", "def f; A = 1; end", "foo(a: 1, 2 => )", "%w(a) 1", "?a 1", "/r/ 1", "<<A 1\nA\n", "a b c: ]", "super = 1", "yield = 1", "a, 1 = 2", "a, b + 1 = 2", "*a, *b = 1", "break = 1",
    "if a then ; else ) end",
];

fn wrong_before_end(s: &mut Src, p: &Prog, laid: &Laid) -> Verdict {
    let rest = s.pick_str(&["", "\n", "\nfoo", "\nfoo(1)\n", " 1", "\n(", "\ndef f", "\n[1,", "\n\"", "\n}"]);
    if s.coin() {
        // a closing token that closes nothing, in the midst of the program
        let i = s.us(p.order.len());
        let t = p.order[i];
        let tok = &p.toks[t];
        if tok.kind != K::Normal && tok.kind != K::Raw || tok.text.len() < 3 && ["%", "?", "/", "<<", ":", "::", ".", "&.", "*", "&", "|"].contains(&&*tok.text) || tok.text == "def" || tok.text == "alias" {
            return Verdict::Discard;
        }
        let before = if i > 0 { &*p.toks[p.order[i - 1]].text } else { "" };
        let next = p.order.get(i + 1).map(|t| p.toks[*t].kind);
        if before == "alias" || before.ends_with('#') || tok.text.ends_with('#') || next == Some(K::Raw) && !tok.text.ends_with("#{") && "\"'`%/:".contains(tok.text.chars().next().unwrap_or(' ')) {
            return Verdict::Discard;
        }
        let mut used = vec![];
        for (a, b) in &p.opens {
            if *a <= t && t < *b && *b < p.toks.len() {
                let b = &p.toks[*b];
                used.push(if b.kind == K::Raw { "}".to_string() } else { b.text.clone() });
            }
        }
        let free: Vec<&str> = CLOSERS.iter().copied().filter(|c| !used.iter().any(|u| u == c)).collect();
        if free.is_empty() {
            return Verdict::Discard;
        }
        let c = *s.pick(&free);
        let code = format!("{} {}{}", &laid.src[..laid.pos[t].1], c, rest);
        return judge(s, code, Want::Other, "closes nothing");
    }
    let w = s.pick_str(WRONG);
    let code = format!("{}\n{}\n{}", laid.src, w, rest);
    judge(s, code, Want::Other, "wrong line")
}

// ---------------------------------------------------------------- invalid programs

fn both(s: &mut Src, bad: &str, good: &str, what: &'static str) -> Verdict {
    match any_parse(s, good) {
        Err(m) => return fail(good, format!("panic {}", m)),
        Ok(Err(e)) => return fail(good, format!("{}: the valid neighbour is rejected: {:?} {:?}", what, e.kind, e.loc)),
        Ok(Ok(_)) => {}
    }
    rejected(s, bad, what)
}

fn rejected(s: &mut Src, bad: &str, what: &'static str) -> Verdict {
    match any_parse(s, bad) {
        Err(m) => fail(bad, format!("panic {}", m)),
        Ok(Ok(r)) => fail(bad, format!("{}: accepted as {}", what, sexp::dump(&r.node).show())),
        Ok(Err(_)) => pass(bad, bad.chars().count() > 2, vec![what]),
    }
}

fn c22(s: &mut Src) -> Verdict {
    match s.weighted(&[22, 14, 12, 8, 6, 8, 14, 40, 14, 10, 8, 10, 10, 10]) {
        k @ 0..=6 => {
            let f = if k == 6 && s.coin() { F::Op } else { *s.pick(FS) };
            let mut cfg = Cfg::new(f, s.size);
            cfg.heredoc = false;
            let p = make(s, &cfg);
            let wild = *s.pick(&[0, 10, 40]);
            let laid = render(&p, s, wild);
            match k {
                0 => missing(s, &p, &laid),
                1 => surplus(s, &p, &laid),
                2 => mismatched(s, &p, &laid),
                3 => two_operands(s, &p, &laid),
                4 => no_operator(s, &p, &laid),
                5 => no_operand(s, &p, &laid),
                _ => line_operator(s, &p, &laid),
            }
        }
        7 => template(s),
        8 => params(s),
        9 => in_method(s),
        10 => forwarding(s),
        11 => numbered(s),
        12 => targets(s),
        _ => arguments(s),
    }
}

/// Can a closing brace or "end" be taken for another one when there is one more or one less of them?
fn unclear(p: &Prog, laid: &Laid, c: &str) -> bool {
    let has = |l: &[&str]| p.toks.iter().any(|t| l.contains(&&*t.text));
    match c {
        // embedded code
        "}" => p.toks.iter().any(|t| t.kind == K::Raw || t.text.ends_with("#{")),
        // the "do" of a loop may be left out
        "end" => has(&["while", "until", "for"]) && laid.src.contains("do"),
        _ => false,
    }
}

/// is the text at the position read the same way, whatever came before?
fn safe_next(t: &str) -> bool {
    let t = t.trim_start_matches(|c| c == ' ' || c == '\t');
    match t.chars().next() {
        None => true,
        Some(c) => wordish(c) || ")]},.;\n\r#=".contains(c),
    }
}

fn closers(p: &Prog, laid: &Laid) -> Vec<(usize, usize)> {
    p.opens
        .iter()
        .copied()
        .filter(|(a, b)| a < b && *b < p.toks.len() && p.toks[*b].kind == K::Normal && CLOSERS.contains(&&*p.toks[*b].text) && safe_next(&laid.src[laid.pos[*b].1..]))
        .collect()
}

fn missing(s: &mut Src, p: &Prog, laid: &Laid) -> Verdict {
    let v = closers(p, laid);
    if v.is_empty() {
        return Verdict::Discard;
    }
    let (_, b) = *s.pick(&v);
    if unclear(p, laid, &p.toks[b].text) {
        return Verdict::Discard;
    }
    let (x, y) = laid.pos[b];
    let bad = format!("{} {}", &laid.src[..x], &laid.src[y..]);
    both(s, &bad, &laid.src, "missing closer")
}

fn surplus(s: &mut Src, p: &Prog, laid: &Laid) -> Verdict {
    if s.chance(1, 3) {
        // "end" as a statement
        if unclear(p, laid, "end") {
            return Verdict::Discard;
        }
        let v: Vec<usize> = (1..p.order.len()).filter(|i| p.toks[p.order[*i]].gap == Gap::Term).collect();
        let bad = if v.is_empty() {
            format!("{}\nend", laid.src)
        } else {
            let i = *s.pick(&v);
            let at = laid.pos[p.order[i - 1]].1;
            format!("{}\nend\n{}", &laid.src[..at], &laid.src[laid.pos[p.order[i]].0..])
        };
        return both(s, &bad, &laid.src, "surplus end");
    }
    let i = s.us(p.order.len());
    let t = p.order[i];
    let tok = &p.toks[t];
    let before = if i > 0 { &*p.toks[p.order[i - 1]].text } else { "" };
    let next = p.order.get(i + 1).map(|t| p.toks[*t].kind);
    if ["%", "?", "/", "<<", ":", "::", ".", "&.", "*", "&", "|", "def", "alias"].contains(&&*tok.text) || before == "alias" || before.ends_with('#') || tok.text.ends_with('#') {
        return Verdict::Discard;
    }
    if tok.kind == K::Regex || next == Some(K::Raw) && !tok.text.ends_with("#{") && "\"'`%/:".contains(tok.text.chars().next().unwrap_or(' ')) {
        return Verdict::Discard;
    }
    let at = laid.pos[t].1;
    if !safe_next(&laid.src[at..]) {
        return Verdict::Discard;
    }
    let c = s.pick_str(&CLOSERS[..3]);
    if unclear(p, laid, c) {
        return Verdict::Discard;
    }
    let bad = format!("{} {} {}", &laid.src[..at], c, &laid.src[at..]);
    both(s, &bad, &laid.src, "surplus closer")
}

fn mismatched(s: &mut Src, p: &Prog, laid: &Laid) -> Verdict {
    let v = closers(p, laid);
    if v.is_empty() {
        return Verdict::Discard;
    }
    let (_, b) = *s.pick(&v);
    let (x, y) = laid.pos[b];
    if unclear(p, laid, "}") || unclear(p, laid, "end") {
        return Verdict::Discard;
    }
    if s.coin() {
        // swapped with an enclosing one
        let outer: Vec<usize> = v.iter().filter(|(a2, b2)| *a2 < b && *b2 > b && p.toks[*b2].text != p.toks[b].text && v.iter().any(|(a, c)| *c == b && a2 < a)).map(|(_, b2)| *b2).collect();
        if !outer.is_empty() {
            let b2 = *s.pick(&outer);
            let (x2, y2) = laid.pos[b2];
            let bad = format!("{} {} {} {} {}", &laid.src[..x], p.toks[b2].text, &laid.src[y..x2], p.toks[b].text, &laid.src[y2..]);
            return both(s, &bad, &laid.src, "swapped closers");
        }
    }
    let c = s.pick_str(CLOSERS);
    if c == p.toks[b].text {
        return Verdict::Discard;
    }
    let bad = format!("{} {} {}", &laid.src[..x], c, &laid.src[y..]);
    both(s, &bad, &laid.src, "mismatched closer")
}

fn is_number(t: &Tok) -> bool {
    t.kind == K::Normal && t.text.chars().all(|c| c.is_ascii_digit())
}

/// complete literals
const OPERANDS: &[&str] = &["1", "2.5", "\"s\"", "'t'", ":u", "nil", "self", "qz", "qz.qy", "[1]", "@qi", "$qg", "QC", "(1)", "{ 1 => 2 }", "->{}", "%w(a)", "?c", "true", "`c`", "__LINE__"];

fn two_operands(s: &mut Src, p: &Prog, laid: &Laid) -> Verdict {
    let v: Vec<usize> = p.order.iter().copied().filter(|t| is_number(&p.toks[*t])).collect();
    if v.is_empty() {
        return Verdict::Discard;
    }
    let t = *s.pick(&v);
    let at = laid.pos[t].1;
    if !safe_next(&laid.src[at..]) {
        return Verdict::Discard;
    }
    let o = s.pick_str(&["1", "2.5", "\"s\"", ":u", "nil", "qz", "@qi", "QC", "'t'"]);
    let bad = format!("{} {} {}", &laid.src[..at], o, &laid.src[at..]);
    both(s, &bad, &laid.src, "two operands")
}

fn no_operator(s: &mut Src, p: &Prog, laid: &Laid) -> Verdict {
    let v: Vec<usize> = (1..p.order.len().max(2) - 1)
        .filter(|i| {
            let (a, o, b) = (&p.toks[p.order[i - 1]], &p.toks[p.order[*i]], p.order.get(i + 1).map(|t| &p.toks[*t]));
            let b = match b {
                Some(b) => b,
                None => return false,
            };
            is_number(a) && o.gap == Gap::OpL && b.gap == Gap::OpR && b.text.chars().next().map_or(false, wordish) && !RESERVED.contains(&&*b.text) && b.text != "defined?"
        })
        .collect();
    if v.is_empty() {
        return Verdict::Discard;
    }
    let i = *s.pick(&v);
    let (x, y) = laid.pos[p.order[i]];
    let bad = format!("{} {}", &laid.src[..x], laid.src[y..].trim_start());
    // a comment in between must not be cut open
    if laid.src[x..].trim_start().starts_with('#') || laid.src[y..].trim_start().starts_with('#') || laid.src[y..].trim_start().starts_with('\\') {
        return Verdict::Discard;
    }
    let a = laid.pos[p.order[i - 1]].1;
    if laid.src[a..x].contains('\n') {
        return Verdict::Discard;
    }
    both(s, &bad, &laid.src, "missing operator")
}

/// operators that no expression begins with
const NOT_FIRST: &[&str] = &["==", "!=", "===", "=~", "!~", "<=>", "<", ">", "<=", ">=", "&&", "||", "^", "|", "&", "**", "=", "and", "or", "=>", ">>"];

/// An expression that is complete at the end of its line does not go on in the next one.
fn line_operator(s: &mut Src, p: &Prog, laid: &Laid) -> Verdict {
    let v: Vec<usize> = (1..p.order.len())
        .filter(|i| {
            let o = &p.toks[p.order[*i]];
            o.kind == K::Normal && matches!(o.gap, Gap::OpL | Gap::Sp1) && (NOT_FIRST.contains(&&*o.text) || o.text.len() >= 2 && o.text.ends_with('=') && o.text.starts_with(|c: char| "+-*&|^<>".contains(c)))
        })
        .collect();
    if v.is_empty() {
        return Verdict::Discard;
    }
    let i = *s.pick(&v);
    let (x, _) = laid.pos[p.order[i]];
    let a = laid.pos[p.order[i - 1]].1;
    if laid.src[a..x].contains(|c: char| c != ' ') {
        return Verdict::Discard;
    }
    let bad = format!("{}{}{}", &laid.src[..a], s.pick_str(&["\n", "\n ", " \n\n", " # c\n", "\r\n"]), &laid.src[x..]);
    both(s, &bad, &laid.src, "operator in the next line")
}

fn no_operand(s: &mut Src, p: &Prog, laid: &Laid) -> Verdict {
    let v: Vec<usize> = (1..p.order.len())
        .filter(|i| {
            let (o, b) = (&p.toks[p.order[i - 1]], &p.toks[p.order[*i]]);
            let last = p.order.get(i + 1).map_or(true, |n| {
                let n = &p.toks[*n];
                n.kind == K::Normal && ([")", "]", "}", ",", "then", "=>"].contains(&&*n.text) || n.text == "end" && n.gap != Gap::TermOpt)
            });
            last && is_number(b) && b.gap == Gap::OpR && !["%", "/", "<<", "?", ":"].contains(&&*o.text)
        })
        .collect();
    if v.is_empty() {
        return Verdict::Discard;
    }
    let i = *s.pick(&v);
    let (x, y) = laid.pos[p.order[i]];
    let bad = format!("{} {}", &laid.src[..x], &laid.src[y..]);
    both(s, &bad, &laid.src, "missing operand")
}

// ---------------------------------------------------------------- planted statements

/// constructs around a statement that change nothing for it
const NEUTRAL: &[(&str, &str)] = &[
    ("if qc\n", "\nend"),
    ("while qc do\n", "\nend"),
    ("begin\n", "\nrescue\nend"),
    ("begin\nqc\nensure\n", "\nend"),
    ("begin\nrescue QE\n", "\nelse\nend"),
    ("(\n", "\n)"),
    ("[1, (", ")]"),
    ("qf((", "))"),
    ("qf 1, (", ")"),
    ("qx = begin\n", "\nend"),
    ("\"a#{", "}b\""),
    ("`#{\n", "\n}`"),
    ("/#{", "}/"),
    (":\"#{", "}\""),
    ("case 1\nwhen 2\n", "\nelse\nend"),
    ("case 1\nwhen 2, 3 then 4\nelse\n", "\nend"),
    ("for qi in qc\n", "\nend"),
    ("unless qc then 1\nelse\n", "\nend"),
    ("if qc\nelsif qd\n", "\nend"),
    ("{ qa: (", ") }"),
    ("qc ? (", ") : 1"),
    ("qc && (", ")"),
    ("1 + (", ")"),
    ("qx[(", ")]"),
    ("qx.qy = (", ")"),
    ("until qc\n", "\nend.qf"),
    ("return (", ")"),
    ("-(", ")"),
    ("!(", ")"),
    ("qx, qy = 1, (", ")"),
    ("qf(qk: (", "))"),
    ("qf(*(", "))"),
    ("(", ") if qc"),
    ("(", ") rescue 1"),
    ("(", ").qf"),
    ("1\n", "\n2"),
    (";", ";"),
];
const BLOCKS: &[(&str, &str)] = &[("qf {\n", "\n}"), ("qf do\n", "\nend"), ("qf 1 do |qv|\n", "\nend"), ("->(qv) {\n", "\n}"), ("-> {\n", "\n}"), ("qx.qf { |qv, *qw| ", " }"), ("qf(1) do\n", "\nrescue\nend")];
const DEFS: &[(&str, &str)] = &[("def qm\n", "\nend"), ("def qm(qa, qb = 1)\n", "\nensure\nend"), ("def self.qm qa\n", "\nend"), ("def qo.qm()\n", "\nend"), ("def +(qa)\n", "\nend"), ("def qm=(qa)\n", "\nend")];
const CLASSES: &[(&str, &str)] = &[("class QK\n", "\nend"), ("module QM\n", "\nend"), ("class QK < QB\n", "\nrescue\nend"), ("class << self\n", "\nend"), ("class QA::QK\n", "\nend")];
const SCLASS: (&str, &str) = ("class << self\n", "\nend");

fn wrap(w: (&str, &str), t: &str) -> String {
    format!("{}{}{}", w.0, t, w.1)
}

/// Neutral constructs, blocks and methods (which close over nothing relevant).
fn nest(s: &mut Src, ws: &[&[(&'static str, &'static str)]], max: usize) -> Vec<(&'static str, &'static str)> {
    let mut v = vec![];
    for _ in 0..s.len(max) {
        let set = *s.pick(ws);
        v.push(*s.pick(set));
    }
    v
}

fn apply(v: &[(&str, &str)], t: &str) -> String {
    let mut r = t.to_string();
    for w in v.iter().rev() {
        r = wrap(*w, &r);
    }
    r
}

/// both texts between the statements of a program
fn plant(s: &mut Src, bad: &str, good: Option<&str>, what: &'static str) -> Verdict {
    let (mut pre, mut post) = (String::new(), String::new());
    if s.chance(1, 3) {
        let f = *s.pick(FS);
        let size = s.size / 2;
        pre = fuzz::program(s, f, 10);
        pre.push('\n');
        if !matches!(parse(&pre), Ok(Ok(_))) || pre.contains("__END__") {
            pre.clear();
        }
        if s.coin() {
            let mut cfg = Cfg::new(f, size);
            cfg.heredoc = false;
            let p = make(s, &cfg);
            post = format!("\n{}", render(&p, s, 0).src);
        }
    }
    let bad = format!("{}{}{}", pre, bad, post);
    match good {
        Some(g) => {
            let g = format!("{}{}{}", pre, g, post);
            both(s, &bad, &g, what)
        }
        None => rejected(s, &bad, what),
    }
}

/// (invalid, valid)
const LITERALS: &[(&str, &str)] = &[
    ("0x", "0x1"), ("0xg", "0xf"), ("0xfg", "0xff"), ("0b", "0b1"), ("0b2", "0b0"), ("0b12", "0b11"), ("0o8", "0o7"), ("08", "07"), ("09", "0_7"), ("018", "017"), ("1_", "1"), ("1__0", "1_0"), ("1e", "1e1"), ("1e+", "1e+1"), ("1e-", "1e-1"), ("1.5e", "1.5e2"),
    ("0x_1", "0x1"), ("0x1_", "0x1"), ("0x1__2", "0x1_2"), ("0b_1", "0b1"), ("0b1_", "0b10"), ("1_.5", "1_0.5"), ("0_8", "0_7"), ("1a", "1"), ("12_a", "12"), ("1e1_", "1e1"), ("1.5_", "1.5"), ("1e_5", "1e5"), ("1_e5", "1e5"), ("0_", "0"), ("1e1.5", "1e1"), ("1.5.5", "1.5"), ("1x", "1"), ("1ii", "1i"), ("0b1.5", "0b1"), ("1.5e3e", "1.5e3"),
    ("\"\\u{110000}\"", "\"\\u{10ffff}\""), ("\"\\u{}\"", "\"\\u{0}\""), ("\"\\u12\"", "\"\\u0012\""), ("\"\\x\"", "\"\\x1\""), ("\"\\xZ\"", "\"\\xA\""), ("\"\\u{d800}\"", "\"\\u{d7ff}\""), ("\"\\ud800\"", "\"\\ud7ff\""), ("\"\\u\"", "\"\\u1234\""), ("\"\\u{12g}\"", "\"\\u{12}\""), ("\"\\u{1 g}\"", "\"\\u{1 a}\""), ("\"\\u{1234567}\"", "\"\\u{012345}\""),
    ("\"\\u{1,2}\"", "\"\\u{1 2}\""), (":\"\\u12\"", ":\"\\u1212\""), ("%Q(\\u12)", "%Q(\\u1212)"), ("%(\\xg)", "%(\\xa)"), ("?\\u{110000}", "?\\u{10}"), ("?\\xg", "?\\xf"), (":\"\\xg\"", ":\"\\xf\""), ("`\\u{110000}`", "`\\u{11000}`"), ("\"\\u{ffffffff}\"", "\"\\u{ffff}\""), ("?ab", "?a"),
    ("\"a\" 'b' 1", "\"a\" 'b'"), ("'a'b", "'a'"), ("\"a\"b", "\"a\""), ("@", "@q"), ("@@", "@@q"), ("@1", "@q1"), ("@@1", "@@q1"), ("@ q", "@q"), ("@@ q", "@@q"), ("$ q", "$q"), (":", ":q"), (": q", ":q"), (":1", ":q1"), (":)", ":q"), ("%a", "%w(a)"), 
        ("0d", "0d0"), ("0dq", "0d1"), ("0d_1", "0d0_1"), ("0D1_", "0D1"), ("0d1.5", "0d1"), ("0d1__2", "0d1_2"), ("0X", "0X0"), ("0Xg", "0XF"), ("0B2", "0B0"), ("0O8", "0O7"), ("0d1e5", "0d15"), ("09.5", "9.5"), ("0x1.8", "0x18"),
];
/// literals without an end, at the end of the text
const UNTERMINATED: &[(&str, &str)] = &[
    ("\"#{\"", "\"#{1}\""), ("\"#{1\"", "\"#{1}\""), ("%w(a", "%w(a)"), ("%(a", "%(a)"), ("%q{a{b}", "%q{a{b}}"), ("`a", "`a`"), ("/a", "/a/"), ("\"a", "\"a\""), ("'a", "'a'"), ("\"\\\"", "\"\\\\\""), ("'\\'", "'\\\\'"), ("%i[a", "%i[a]"), ("\"a\n", "\"a\n\""), (":\"a", ":\"a\""), ("<<QA\na\n", "<<QA\na\nQA\n"),("<<QA\na\n QA\n", "<<-QA\na\n QA\n"),("<<\"QA\"\n#{1\nQA\n", "<<\"QA\"\n#{1}\nQA\n"),("<<'QA\na\nQA\n", "<<'QA'\na\nQA\n"),
];
const TARGETS: &[(&str, &str)] = &[
    ("def qf(nil); end", "def qf(qa); end"), ("def qf(nil = 1); end", "def qf(qa = 1); end"), ("def qf(qb, *nil); end", "def qf(qb, *qa); end"), ("qf { |qb, &nil| }", "qf { |qb, &qa| }"), ("->(**nil) { }", "->(**qa) { }"), ("qf do |(qb, nil)| end", "qf do |(qb, qa)| end"), ("for nil in qb do end", "for qa in qb do end"), ("for qb, nil in qb do end", "for qb, qa in qb do end"), ("def qf(self); end", "def qf(qa); end"), ("def qf(self = 1); end", "def qf(qa = 1); end"), ("def qf(qb, *self); end", "def qf(qb, *qa); end"), ("qf { |qb, &self| }", "qf { |qb, &qa| }"), ("->(**self) { }", "->(**qa) { }"), ("qf do |(qb, self)| end", "qf do |(qb, qa)| end"), ("for self in qb do end", "for qa in qb do end"), ("for qb, self in qb do end", "for qb, qa in qb do end"), ("def qf(true); end", "def qf(qa); end"), ("def qf(true = 1); end", "def qf(qa = 1); end"), ("def qf(qb, *true); end", "def qf(qb, *qa); end"), ("qf { |qb, &true| }", "qf { |qb, &qa| }"), ("->(**true) { }", "->(**qa) { }"), ("qf do |(qb, true)| end", "qf do |(qb, qa)| end"), ("for true in qb do end", "for qa in qb do end"), ("for qb, true in qb do end", "for qb, qa in qb do end"), ("def qf(false); end", "def qf(qa); end"), ("def qf(false = 1); end", "def qf(qa = 1); end"), ("def qf(qb, *false); end", "def qf(qb, *qa); end"), ("qf { |qb, &false| }", "qf { |qb, &qa| }"), ("->(**false) { }", "->(**qa) { }"), ("qf do |(qb, false)| end", "qf do |(qb, qa)| end"), ("for false in qb do end", "for qa in qb do end"), ("for qb, false in qb do end", "for qb, qa in qb do end"), ("def qf(__FILE__); end", "def qf(qa); end"), ("def qf(__FILE__ = 1); end", "def qf(qa = 1); end"), ("def qf(qb, *__FILE__); end", "def qf(qb, *qa); end"), ("qf { |qb, &__FILE__| }", "qf { |qb, &qa| }"), ("->(**__FILE__) { }", "->(**qa) { }"), ("qf do |(qb, __FILE__)| end", "qf do |(qb, qa)| end"), ("for __FILE__ in qb do end", "for qa in qb do end"), ("for qb, __FILE__ in qb do end", "for qb, qa in qb do end"), ("def qf(__LINE__); end", "def qf(qa); end"), ("def qf(__LINE__ = 1); end", "def qf(qa = 1); end"), ("def qf(qb, *__LINE__); end", "def qf(qb, *qa); end"), ("qf { |qb, &__LINE__| }", "qf { |qb, &qa| }"), ("->(**__LINE__) { }", "->(**qa) { }"), ("qf do |(qb, __LINE__)| end", "qf do |(qb, qa)| end"), ("for __LINE__ in qb do end", "for qa in qb do end"), ("for qb, __LINE__ in qb do end", "for qb, qa in qb do end"), ("def qf(qa?); end", "def qf(qa); end"), ("def qf(qa? = 1); end", "def qf(qa = 1); end"), ("def qf(qb, *qa?); end", "def qf(qb, *qa); end"), ("qf { |qb, &qa?| }", "qf { |qb, &qa| }"), ("->(**qa?) { }", "->(**qa) { }"), ("qf do |(qb, qa?)| end", "qf do |(qb, qa)| end"), ("for qa? in qb do end", "for qa in qb do end"), ("for qb, qa? in qb do end", "for qb, qa in qb do end"), ("def qf(qa!); end", "def qf(qa); end"), ("def qf(qa! = 1); end", "def qf(qa = 1); end"), ("def qf(qb, *qa!); end", "def qf(qb, *qa); end"), ("qf { |qb, &qa!| }", "qf { |qb, &qa| }"), ("->(**qa!) { }", "->(**qa) { }"), ("qf do |(qb, qa!)| end", "qf do |(qb, qa)| end"), ("for qa! in qb do end", "for qa in qb do end"), ("for qb, qa! in qb do end", "for qb, qa in qb do end"), ("def qf(qa?: 1); end", "def qf(qa: 1); end"), ("->(qa!:) { }", "->(qa:) { }"), ("def qf(qa,); end", "def qf(qa); end"), ("def qf(*qa, qb,); end", "def qf(*qa, qb); end"), ("->(qa,) { }", "->(qa) { }"), ("qf { |qa = 1,| }", "qf { |qa = 1| }"), ("qf { |*qa,| }", "qf { |qa,| }"), ("qf do |qa:,| end", "qf do |qa:| end"), ("def qf(qa:,); end", "def qf(qa:); end"), ("def qf(qa, (qb, qc),); end", "def qf(qa, (qb, qc,)); end"), ("qf { |,| }", "qf { |qa,| }"), ("->(,) { }", "->() { }"), ("qf { |qa,,| }", "qf { |qa, qb,| }"), ("case qa; end", "case qa; when 1; end"), ("case qa; else 1; end", "case qa; when qb; else 1; end"), ("case; else 1; end", "case; when qa; else 1; end"), ("case qa; then 1; end", "case qa; when qb then 1; end"), ("case qa when 1 then 2 else 3 when 4 end", "case qa when 1 then 2 when 4 then 3 else 4 end"),
    ("$1 = 2", "$a = 2"), ("$& = 2", "$~ = 2"), ("$' += 2", "$_ += 2"), ("$` ||= 2", "$! ||= 2"), ("$+ = 2", "$, = 2"), ("qa, $10 = 1, 2", "qa, $a = 1, 2"), ("*$1 = 2", "*$a = 2"), ("begin; qa; rescue => $1; end", "begin; qa; rescue => $a; end"), ("$1, qa = 2", "$:, qa = 2"),
    ("alias $qa $1", "alias $qa $&"), ("alias $qa $10", "alias $qa $a10"), ("alias $10 $qa", "alias $a10 $qa"), ("alias $qa $123", "alias $qa $_123"), ("alias $1 $qa", "alias $~ $qa"), ("alias $qa qb", "alias $qa $qb"), ("alias qa $qb", "alias qa qb"), ("alias :qa $qb", "alias :qa :qb"), ("alias $qa :qb", "alias $qa $qb"),
    ("$(", "$;"), ("qf $)", "qf $/"), ("$[", "$@"), ("$]", "$*"), ("$^", "$,"), ("$%", "$/"), ("$|", "$;"), ("$#", "$~"), ("$- ", "$-w"), ("[$-, 1]", "[$-a, 1]"), (":$(", ":$;"), (":$- ", ":$-w"), ("${", "$<"), ("$}", "$>"),
    ("1 = 2", "qa = 2"), ("\"s\" = 2", "qa = 2"), ("nil = 1", "qnil = 1"), ("self = 1", "self.q = 1"), ("true = 1", "@true = 1"), ("false = 1", "$false = 1"), ("qf() = 1", "qf = 1"), ("qf(1) = 2", "qf[1] = 2"), ("qa.qb() = 1", "qa.qb = 1"), ("qa.qb(1) = 2", "qa.qb[1] = 2"), ("qa&.qb() = 1", "qa&.qb = 1"), ("qa::qb(1) = 2", "qa::qb = 2"),
    ("[1] = 2", "qa[1] = 2"), ("qx = {} = 1", "qx = qy = 1"), (":s = 1", "qs = 1"), ("qa? = 1", "qa = 1"), ("qa! = 1", "qa = 1"), ("qx.qa? = 1", "qx.qa = 1"), ("qx.qa! = 1", "qx.qa = 1"), ("__LINE__ = 1", "__LINE = 1"), ("__FILE__ = 1", "_FILE__ = 1"), ("1 += 2", "qa += 2"), ("qf() += 1", "qf += 1"), ("qf() ||= 1", "qf ||= 1"), ("qa.qb() += 1", "qa.qb += 1"), ("qa.qb(1) ||= 2", "qa.qb ||= 2"),
    ("qa, 1 = 2", "qa, qb = 2"), ("1, qa = 2", "qb, qa = 2"), ("qa, nil = 1, 2", "qa, qn = 1, 2"), ("qa, qf() = 1, 2", "qa, qf = 1, 2"), ("qf(), qa = 1, 2", "qf, qa = 1, 2"), ("qa.qb(1), qc = 2, 3", "qa.qb, qc = 2, 3"), ("qa, qb.qc() = 1, 2", "qa, qb.qc = 1, 2"), ("*1 = qa", "*qb = qa"), ("*qf() = qa", "*qf = qa"), ("qa, *1 = 1", "qa, *qb = 1"), ("*qa, *qb = 1", "*qa, qb = 1"), ("*qa, qb, *qc = 1", "*qa, qb, qc = 1"), ("qa, *qb, *qc = 1", "qa, *qb, qc = 1"), ("qa, *qb, qc, *qd = 1", "qa, qb, qc, *qd = 1"), ("*qa, :b = 1", "*qa, qb = 1"), ("self, qa = 1", "self.qb, qa = 1"), ("qa, \"b\" = 1", "qa, qb = 1"),
    ("for 1 in qa\nend", "for qb in qa\nend"), ("begin\nrescue => 1\nend", "begin\nrescue => qa\nend"), ("begin\nrescue => qf()\nend", "begin\nrescue => qf\nend"), ("begin\nrescue => nil\nend", "begin\nrescue => @qn\nend"), ("begin\nrescue QE => qf(1)\nend", "begin\nrescue QE => qf[1]\nend"), ("->{} = 1", "qa = ->{}"), ("/re/ = 1", "qa = /re/"), ("begin\nend = 1", "qa = begin\nend"), ("QA() = 1", "qA = 1"), ("yield = 1", "yield_ = 1"), ("super = 1", "super_ = 1"),
    ("super() = 1", "super().qa = 1"), ("yield(1) = 2", "yield(1).qa = 2"), ("1 ||= 2", "qa ||= 2"), ("nil &&= 2", "qa &&= 2"), ("self += 1", "self[0] += 1"), ("1.5 -= 1", "qa -= 1"), ("\"a#{qb}\" = 1", "qa = \"a#{qb}\""), ("qf { } = 1", "qx = qf { }"), ("qf do end = 1", "qf = 1"), ("qa.qb { } = 1", "qa.qb = 1"), ("qa + 1 = 2", "qa + qb = 2"), ("-1 = qa", "qb = -1"), ("`c` = 1", "qa = `c`"), ("%w(a) = 1", "qa = %w(a)"), ("?a = 1", "qa = ?a"), ("1i = 2", "qi = 2"), ("1.5 = 2", "q1 = 2"),
    ("qx = 1 = 2", "qx = qy = 2"), ("qx = qf() = 2", "qx = qf = 2"), ("qa && 1 = 2", "qa && qb = 2"), ("qf(1 = 2)", "qf(qa = 2)"), ("[1 = 2]", "[qa = 2]"), ("qa == 1 = 2", "qa == qb = 2"), ("qa? += 1", "qa += 1"), ("qa!, qb = 1", "qa, qb = 1"), ("({}) = 2", "qx = ({})"), ("(1) = 2", "(qa = 2)"), ("if qa\nend = 1", "qb = if qa\nend"), ("defined?(qa) = 1", "qb = defined?(qa)"), ("qf 1 = 2", "qf qa = 2"), ("1 <<= 2", "qa <<= 2"), ("[qa, qb] = 1, 2", "qa, qb = 1, 2"), ("qa, (1) = 2", "qa, qc = 2"), ("qa.() = 1", "qa.qb = 1"), ("qa[1]() = 2", "qa[1] = 2"), ("nil.qf() = 2", "nil.qf = 2"), ("qa, self[]= = 1", "qa, self[] = 1"),
    ("qx = 1 += 2", "qx = qy += 2"), ("qf(nil = 1)", "qf(qn = 1)"), ("{ 1 => 2 = 3 }", "{ 1 => qa = 3 }"), ("qa ? 1 = 2 : 3", "qa ? qb = 2 : 3"), ("return 1 = 2", "return qa = 2"), ("qa if 1 = 2", "qa if qb = 2"), ("puts(1) { } = 1", "puts(1) { }"),
];
const OPERATORS: &[(&str, &str)] = &[
    ("qa <=> qb <=> qc", "qa <=> (qb <=> qc)"), ("qa == qb == qc", "(qa == qb) == qc"), ("qa != qb == qc", "(qa != qb) == qc"), ("qa == qb != qc", "qa == (qb != qc)"), ("qa =~ qb =~ qc", "qa =~ (qb =~ qc)"), ("qa === qb === qc", "(qa === qb) === qc"), ("qa == qb === qc", "qa == (qb === qc)"), ("qa <=> qb == qc", "qa <=> (qb == qc)"), ("qa =~ qb !~ qc", "qa =~ (qb !~ qc)"), ("qa !~ qb !~ qc", "(qa !~ qb) !~ qc"), ("qa .. qb .. qc", "(qa .. qb) .. qc"), ("qa ... qb .. qc", "qa ... (qb .. qc)"), ("qa..qb...qc", "(qa..qb)...qc"), ("1..2..3", "(1..2)..3"), ("1 == 2 == 3", "1 == (2 == 3)"), ("qa == qb + 1 == qc", "qa == (qb + 1 == qc)"), ("qa == 1 <=> 2", "(qa == 1) <=> 2"),
    ("(qa +)", "(qa + 1)"), ("(* qa)", "(1 * qa)"), ("(qa &&)", "(qa && 1)"), ("(&& qa)", "(1 && qa)"), ("(qa || || qb)", "(qa || 1 || qb)"), ("(qa ? qb)", "(qa ? qb : 1)"), ("(qa ? : qb)", "(qa ? 1 : qb)"), ("(qa ? qb :)", "(qa ? qb : 1)"), ("(qa and)", "(qa and 1)"), ("(and qa)", "(1 and qa)"), ("(qa or)", "(qa or 1)"), ("(or qb)", "(1 or qb)"), ("(!)", "(!1)"), ("(-)", "(-1)"), ("(~)", "(~1)"), ("(qa =)", "(qa = 1)"), ("(= qa)", "(qb = qa)"), ("(qa +=)", "(qa += 1)"), ("(+= qa)", "(qb += qa)"), ("(qa ||=)", "(qa ||= 1)"), ("(qa.)", "(qa.qb)"), ("(qa::)", "(qa::QB)"), ("(qa&.)", "(qa&.qb)"),
    ("[qa,,qb]", "[qa,qb]"), ("[,qa]", "[qa]"), ("[,]", "[]"), ("qf(,qa)", "qf(qa)"), ("qf(,)", "qf()"), ("qf(qa,,qb)", "qf(qa,qb)"), ("qf qa,,qb", "qf qa,qb"), ("{ qa }", "{ qa => 1 }"), ("{ qa => }", "{ qa => 1 }"), ("{ => qa }", "{ 1 => qa }"), ("{ qa, qb }", "{ qa => 1 }"), ("{ , }", "{ }"), ("{ qa: 1,, qb: 2 }", "{ qa: 1, qb: 2 }"), ("{ 1 => 2 3 => 4 }", "{ 1 => 2, 3 => 4 }"), ("{ qa: 1 qb: 2 }", "{ qa: 1, qb: 2 }"),
        ("begin; qa; else; qb; end", "begin; qa; rescue; else; qb; end"), ("begin\nelse\nend", "begin\nrescue\nelse\nend"), ("begin; qa; else; qb; ensure; qc; end", "begin; qa; rescue QE; qd; else; qb; ensure; qc; end"), ("def qf\nqa\nelse\nqb\nend", "def qf\nqa\nrescue\nelse\nqb\nend"), ("qf do else end", "qf do\nrescue\nelse end"), ("-> do qa; else; qb end", "-> do qa\nrescue; else; qb end"), ("begin; qa; rescue; else; qb; else; end", "begin; qa; rescue; else; qb; ensure; end"), ("begin; else; rescue; end", "begin; rescue; else; end"), ("def qf(qk:;) end", "def qf(qk:) end"), ("-> qk: 1", "-> qk: 1 do end"), ("(qa **= )", "(qa **= 1)"), ("qa ** = 1", "qa **= 1"), ("1 **= 2", "qa **= 2"), ("nil **= 2", "@qa **= 2"), ("(defined? )", "(defined? qa)"), ("(!defined?)", "(!defined? qa)"), ("return if: 1", "return if 1"), ("1 if: 1", "qf if: 1"), ("nil if:1", "nil if :a"),
    ("1 2", "1; 2"), ("\"a\" 1", "\"a\"; 1"), (":a :b", ":a; :b"), ("@a @b", "@a + @b"), ("nil nil", "nil; nil"), ("1 qa", "1 + qa"), ("qa 1 2", "qa 1, 2"), ("(1) 2", "(1); 2"), ("[1] 2", "[1]; 2"), ("qx = 1 qy", "qx = 1; qy"), ("qf(1) 2", "qf(1); 2"), ("qf() qb", "qf(); qb"), ("[1 2]", "[1, 2]"), ("qf(1 2)", "qf(1, 2)"), ("if 1 2 end", "if 1 then 2 end"), ("while 1 2 end", "while 1 do 2 end"), ("until 1 2 end", "until 1; 2 end"), ("unless 1 2 end", "unless 1; 2 end"), ("for qi in 1 2 end", "for qi in 1 do 2 end"), ("case 1 when 2 3 end", "case 1 when 2 then 3 end"), ("begin 1 2 end", "begin 1; 2 end"), ("return 1 2", "return 1, 2"), ("yield 1 2", "yield 1, 2"), ("->{ 1 2 }", "->{ 1; 2 }"), ("qf { 1 2 }", "qf { 1; 2 }"), ("qf do 1 2 end", "qf do 1; 2 end"), ("\"#{1 2}\"", "\"#{1; 2}\""), ("1 if 2 3", "1 if 2"), ("$a $b", "$a; $b"), ("true false", "true; false"), ("def qm; 1 2 end", "def qm; 1; 2 end"), ("def qm() 1 2 end", "def qm() 1; 2 end"), ("->{} 1", "->{}; 1"), ("{} 1", "[]; 1"), ("qf[1] 2", "qf[1]; 2"), ("QA::QB 1 2", "QA::QB; 1; 2"), ("qa.qb 1 2", "qa.qb 1, 2"), ("super 1 2", "super 1, 2"), ("alias qa qb qc", "alias qa qb"), ("redo 1", "redo"), ("self 1", "self"), ("__LINE__ 1", "__LINE__"), ("1.5 :a", "1.5; :a"), ("%w(a) %w(b) 1", "%w(a); 1"), ("qx ? 1 2 : 3", "qx ? 1 : 3"), ("qx ? 1 : 2 3", "qx ? 1 : 2"), ("{ 1 2 => 3 }", "{ 1 => 3 }"), ("1 => 2", "{ 1 => 2 }"), ("class QA 1 2 end", "class QA; 1; 2 end"), ("class QA\n< QB\nend", "class QA < QB\nend"), ("class QA::QB\n<QC; end", "class QA::QB <\nQC; end"), ("class QA; < QB; end", "class QA < QB; end"), ("class QA #c\n< QB\nend", "class QA < QB #c\nend"),
    ("qa * * qb", "qa * qb"), ("qa == == qb", "qa == qb"), ("qa && && qb", "qa && qb"), ("qa <=> <=> qb", "qa <=> qb"), ("qa | | qb", "qa | qb"), ("qa ^ ^ qb", "qa ^ qb"), ("qa >> >> qb", "qa >> qb"), ("1 < < qb", "1 < qb"), ("1 .. .. qb", "1 .. qb"), ("1 ** ** qb", "1 ** qb"), ("qa =~ =~ qb", "qa =~ qb"), ("=> qa", "[1]"), ("1 : qb", "qa ? 1 : qb"), ("qa = = qb", "qa = qb"), ("qa ||| qb", "qa || qb"), ("qa &&& qb", "qa && qb"), ("qa => = qb", "{ qa => qb }.qc"), ("(qa = qb = )", "(qa = qb = 1)"), ("qa ? qb : : qc", "qa ? qb : :qc"), ("(&qa)", "(qb &qa)"), ("(**qa)", "qf(**qa)"), ("(&.qa)", "(qb&.qa)"), ("(..)", "(1..2)"), ("1 + * 2", "1 + 2"), ("1 * ) 2", "1 * 2"), ("qa.1", "qa.q1"), ("qa.@b", "qa.b"), ("qa.\"b\"", "qa.b"), ("qa::1", "qa::q1"), ("(1.)", "(1.0)"), ("[1 => ]", "qf(1 => 2)"), ("[=> 1]", "[1]"), ("qf(1 => )", "qf(1 => 2)"), ("qf(=> 1)", "qf(1 => 1)"), ("(qf 1 =>)", "(qf 1 => 2)"), ("qf(*)", "qf(*qa)"), ("qf(**)", "qf(**qa)"), ("qf(&)", "qf(&qa)"), ("(qf *)", "(qf *qa)"), ("(qf **)", "(qf **qa)"), ("qa[1 2]", "qa[1, 2]"), ("qa[,]", "qa[]"), ("qa[1,,2]", "qa[1,2]"), ("(!= 1)", "(1 != 1)"), ("(== 1)", "(1 == 1)"), ("(1 <<)", "(1 << 1)"), ("(+)", "(+ qa)"), ("[+]", "[1]"), ("[qa +]", "[qa + 1]"), ("{ qa => qb + }", "{ qa => qb + 1 }"), ("qf(qa +)", "qf(qa + 1)"), ("\"#{qa +}\"", "\"#{qa + 1}\""), ("if qa + then qb end", "if qa + 1 then qb end"), ("qa >= >= 1", "qa >= 1"), ("1 = > 2", "1 >= 2"), ("qa & & qb", "qa & qb"), ("1 <= <= 2", "1 <= 2"), ("1 != != 2", "1 != 2"), ("1 || && 2", "1 || 2"), ("1 and or 2", "1 and 2"), ("1 or or 2", "1 or 2"), ("qx = and 1", "qx = 1 and 1"), ("1 ... ... 2", "1 ... 2"),
];
const BLOCK_ARGS: &[(&str, &str)] = &[
    ("qf(&qb) { }", "qf(qb) { }"), ("qf(&qb) do end", "qf(qb) do end"), ("qf &qb do end", "qf qb do end"), ("qa.qf(&qb) { }", "qa.qf(&qb)"), ("qa.qf &qb do end", "qa.qf qb do end"), ("super &qb do end", "super qb do end"), ("super(&qb) do end", "super(qb) do end"), ("qf(1, &qb) { }", "qf(1) { }"), ("qf(a: 1, &qb) { }", "qf(a: 1, &qb)"), ("qf(1 => 2, &qb) { }", "qf(1 => 2) { }"), ("qa.(&qb) { }", "qa.(qb) { }"), ("qa::qf(&qb) { }", "qa::qf(qb) { }"), ("qa&.qf(&qb) { }", "qa&.qf(qb) { }"), ("QA(&qb) { }", "QA(&qb)"), ("QA::QB(&qb) { }", "QA::QB(qb) { }"), ("qf(&qb) { |x| x }", "qf(qb) { |x| x }"), ("qf?(&qb) {}", "qf?(qb) {}"), ("qf!(&qb) do end", "qf!(qb) do end"), ("[qf(&qb) {}]", "[qf(qb) {}]"), ("qf(&qa, &qb)", "qf(qa, &qb)"), ("qf(&qa, qb)", "qf(qb, &qa)"), ("qf &qa, qb", "qf qb, &qa"), ("qf(&qa, b: 1)", "qf(b: 1, &qa)"), ("qf(&qa, *qb)", "qf(*qb, &qa)"), ("(&qb)", "(qb)"), ("[&qb]", "[*qb]"), ("qx = &qb", "qx = *qb"), ("puts qf(&qb) { }", "puts qf(qb) { }"), ("qf 1, &qb do end", "qf 1, qb do end"), ("qf(1 => 2, &qb) do end", "qf(1 => 2, &qb)"), ("qf :a => 1, &qb do end", "qf :a => 1"), ("yield(&qb)", "yield(qb)"), ("yield &qb", "yield qb"), ("yield(1, &qb)", "yield(1, qb)"), ("qf(*qa, &qb) { }", "qf(*qa) { }"), ("qf(**qa, &qb) do end", "qf(**qa) do end"), ("qf(&:a) { }", "qf(:a) { }"), ("qf(&:a) do |x| x end", "qf(:a) do |x| x end"), ("qf(&->{}) { }", "qf(->{}) { }"), ("qf(&qe { }) { }", "qf(qe { }) { }"), ("qa.qb(1).qf(&qb) { }.qc", "qa.qb(1).qf(&qb).qc { }"), ("qa.if(&qb) { }", "qa.if(qb) { }"), ("qf(1, 2, a: 3, **qh, &qb) { }", "qf(1, 2, a: 3, **qh) { }"),
];
/// A construct that is complete at the end of a line does not go on in the next one.
const NEXT_LINE: &[(&str, &str)] = &[
    ("qf\ndo end", "qf do end"), ("qf(1)\ndo end", "qf(1) do end"), ("qf 1\ndo |qx| end", "qf 1 do |qx| end"), ("qa.qf\ndo end", "qa.qf do end"), ("qa.qf(1)\ndo end", "qa.qf(1) do end"), ("qa.qf 1\ndo qx end", "qa.qf 1 do qx end"), ("qx = qf\ndo qx end", "qx = qf do qx end"), ("qf(1)\n{ |qx| qx }", "qf(1) { |qx| qx }"), ("qf\n{ |qx| qx }", "qf { |qx| qx }"), ("qa.qf\n{ |qx| qx }", "qa.qf { |qx| qx }"), ("->(qx)\n{ |qa| }", "->(qx) { qa }"), ("qa.qf # c\n do qx end", "qa.qf do qx end"), ("qa[1]\ndo end", "qa[1].qf do end"), ("qf qa\n, qb", "qf qa, qb"), ("qa = 1\n, 2", "qa = 1, 2"), ("qa\n, qb = 1, 2", "qa, qb = 1, 2"), ("qf qa\n=> qb", "qf qa => qb"), ("return 1\n, 2", "return 1, 2"), ("alias qa qb\n=> 1", "alias qa qb\n1"),
];
const KEYWORDS: &[(&str, &str)] = &[
    ("(else)", "(elsex)"), ("(elsif qa)", "(elsifx qa)"), ("(when qa)", "(whenx qa)"), ("(rescue)", "(rescuex)"), ("(ensure)", "(ensurex)"), ("(then)", "(thenx)"), ("(do)", "(dox)"), ("(in)", "(inx)"), ("(else 1)", "(1)"), ("(then 1)", "(1)"), ("(do 1)", "(1)"), ("[else]", "[elsex]"), ("[then]", "[thenx]"), ("qf(do)", "qf(dox)"), ("[rescue]", "[rescuex]"), ("qf(ensure)", "qf(ensurex)"), ("qf(when)", "qf(whenx)"), ("qx = else", "qx = elsex"), ("qx = then", "qx = thenx"), ("1 + in", "1 + inx"), ("(end)", "(endx)"), ("class qa; end", "class QA; end"), ("module qa; end", "module QA; end"), ("class QA < ; end", "class QA < QB; end"), ("class 1; end", "class Q1; end"), ("module QA < QB; end", "module QA; end"), ("class; end", "class QA; end"), ("module; end", "module QA; end"), ("def 1; end", "def q1; end"), ("def \"a\"; end", "def a; end"), ("def; end", "def q; end"), ("def qf(; end", "def qf(); end"), ("def qf); end", "def qf; end"), ("def qf qa qb; end", "def qf qa; qb; end"), ("def qf.g.h; end", "def qf.g; h; end"), ("def .a; end", "def qx.a; end"), ("def qa.; end", "def qa.qb; end"), ("def @qa qb; end", "def @qa.qb; end"), ("def $qa qb; end", "def $qa.qb; end"), ("def @qa; end", "def @qa::qb; end"), ("def $qa; end", "def $qa::qb; end"), ("def @qa.; end", "def @qa.q; end"), ("def self::; end", "def self::q; end"), ("def QA::; end", "def QA::q; end"), ("def 1.a; end", "def self.a; end"), ("alias 1 2", "alias q1 q2"), ("alias qa \"b\"", "alias qa b"), ("alias qa,qb", "alias qa qb"), ("(alias qa)", "(alias qa qb)"), ("for in qa; end", "for qi in qa; end"), ("for qa qb; end", "for qa in qb; end"), ("for qa in; end", "for qa in qb; end"), ("for qa, in", "for qa, qb in qc; end"), ("if qa; else qb; else qc; end", "if qa; elsif qb; else qc; end"), ("if qa; else qb; elsif qc; end", "if qa; elsif qb; else; qc; end"), ("case qa; else qb; when qc; end", "case qa; when qc; else qb; end"), ("begin; ensure; rescue; end", "begin; rescue; ensure; end"), ("begin; ensure; ensure; end", "begin; ensure; end"), ("begin; rescue; else; rescue; end", "begin; rescue; rescue; else; end"), ("begin; rescue; else; else; end", "begin; rescue; else; end"), ("begin; ensure; else; end", "begin; rescue; else; ensure; end"),
    ("while; end", "while qa; end"), ("if; end", "if qa; end"), ("unless; end", "unless qa; end"), ("until; end", "until qa; end"), ("unless qa; elsif qb; end", "unless qa; else qb; end"), ("(qa rescue)", "(qa rescue 1)"), ("(qa if)", "(qa if 1)"), ("(qa while)", "(qa while 1)"), ("(qa unless)", "(qa unless 1)"), ("(qa until)", "(qa until 1)"), ("qa if qb then", "qa if qb"), ("if qa do qb end", "if qa then qb end"), ("unless qa do end", "unless qa then end"), ("while qa then end", "while qa do end"), ("class << ; end", "class << self; end"), ("begin; rescue => ; end", "begin; rescue => qe; end"), ("begin; rescue QA, ; end", "begin; rescue QA; end"), ("begin; rescue , QA; end", "begin; rescue QA; end"), ("case qa; when; qb; end", "case qa; when qb; end"), ("case qa; when , qb; end", "case qa; when qb; end"), ("case qa; when qb, ; end", "case qa; when qb; end"), ("when qa; qb; end", "case qa; when qb; end"), ("qa; end", "qa; endx"), ("if qa; qb; end; end", "if qa; qb; end; endx"), ("(qa; end)", "(qa; endx)"), ("[end]", "[endx]"), ("qf(end)", "qf(endx)"), ("begin; ); end", "begin; (); end"), ("if qa; ); end", "if qa; (1); end"), ("qf { ); }", "qf { (1) }"), ("\"#{end}\"", "\"#{endx}\""), ("(1]", "(1)"), ("[1)", "[1]"), ("{a: 1)", "{a: 1}.q"), ("qf(1]", "qf(1)"), ("qf(1}", "qf(1)"), ("qa[1)", "qa[1]"), ("begin }", "begin end"), ("if qa }", "if qa; end"), ("qf { end", "qf { }"), ("qf do }", "qf do end"), ("->{ end", "->{ }"), ("->do }", "->do end"), ("def qf }", "def qf; end"), ("class QA }", "class QA; end"), ("-> 1", "-> { 1 }"), ("->(", "->() { }"), ("->(qa { }", "->(qa) { }"), ("->)", "->{ }"), ("qf { |qa }", "qf { |qa| }"), ("qf { |qa }|", "qf { |qa| }"), ("qf do |qa end", "qf do |qa| end"), ("while qa do", "while qa do end"), ("if if qa end", "if qa; end"), ("case", "case 1; when 2; end"), ("case end", "case 1; when 2; end"), ("return return 1 2", "return"), ("break 1 2", "break 1"), ("next 1 2", "next 1"), ("(defined?)", "(defined? 1)"), ("defined?()", "defined?(1)"), ("yield yield 1 2", "yield yield 1"), ("begin; begin; end", "begin; begin; end; end"), ("if qa; if qb; end", "if qa; if qb; end; end"), ("def qf; def qg; end", "def qf; def qg; end; end"), ("qf do; qf do; end", "qf do; qf do; end; end"), ("while qa; while qb; end", "while qa; while qb; end; end"), ("qf(qf(1)", "qf(qf(1))"), ("qf { qf { }", "qf { qf { } }"), ("[[1]", "[[1]]"), ("((1)", "((1))"), ("{1 => {2 => 3}", "qf({1 => {2 => 3}})"), ("case 1; when 2; case 3; when 4; end", "case 1; when 2; case 3; when 4; end; end"), ("begin; rescue; begin; end", "begin; rescue; begin; end; end"),
];

fn template(s: &mut Src) -> Verdict {
    let (set, what): (&[(&'static str, &'static str)], &'static str) = *s.pick(&[
        (LITERALS, "malformed literal"),
        (UNTERMINATED, "unterminated literal"),
        (TARGETS, "assignment target"),
        (OPERATORS, "operator or operand"),
        (OPERATORS, "operator or operand"),
        (BLOCK_ARGS, "block argument and block"),
        (KEYWORDS, "keyword or closer"),
        (NEXT_LINE, "continued in the next line"),
    ]);
    let (bad, good) = *s.pick(set);
    if good.is_empty() {
        return Verdict::Discard;
    }
    if what == "unterminated literal" {
        let pre = s.pick_str(&["", "qa\n", "qx = ", "qf ", "[1, 2]; ", "qf(1)\n# c\n", "1 +\n", "qa and ", "return ", "self.qb = "]);
        let post = s.pick_str(&["", "", "\n", "\n1\n"]);
        return both(s, &format!("{}{}{}", pre, bad, post), &format!("{}{}{}", pre, good, post), what);
    }
    let mut v = nest(s, &[NEUTRAL, NEUTRAL, BLOCKS, DEFS], 4);
    if s.chance(1, 4) && !bad.contains("class") && !bad.contains("module") {
        v.insert(0, *s.pick(CLASSES));
    }
    // "class" and "module" are not allowed in methods
    if bad.contains("class") || bad.contains("module") {
        v.retain(|w| !DEFS.contains(w));
    }
    plant(s, &apply(&v, bad), Some(&apply(&v, good)), what)
}


// ---------------------------------------------------------------- parameter lists

#[derive(Clone, Copy, PartialEq)]
enum Pk {
    Req,
    Destr,
    Opt,
    Rest,
    NoRest,
    Key,
    KwRest,
    Blk,
    Fwd,
}

/// req* opt* rest? post* key* kwrest? blk?, or req* ...
fn params_ok(v: &[Pk], is_def: bool) -> bool {
    // 0 req, 1 opt, 2 post after opt, 3 rest and post after it, 4 key, 5 kwrest, 6 end
    let mut st = 0;
    for p in v {
        st = match p {
            Pk::Req | Pk::Destr => match st {
                0 => 0,
                1 => 2,
                2 | 3 => st,
                _ => return false,
            },
            Pk::Opt if st <= 1 => 1,
            Pk::Rest | Pk::NoRest if st <= 1 => 3,
            Pk::Key if st <= 4 => 4,
            Pk::KwRest if st <= 4 => 5,
            Pk::Blk if st <= 5 => 6,
            Pk::Fwd if st == 0 && is_def => 6,
            _ => return false,
        };
    }
    true
}

fn params(s: &mut Src) -> Verdict {
    let form = s.us(7);
    let is_def = form <= 2;
    let n = s.len(6).max(1);
    let mut v: Vec<Pk> = (0..n).map(|_| *s.pick(&[Pk::Req, Pk::Req, Pk::Destr, Pk::Opt, Pk::Opt, Pk::Rest, Pk::NoRest, Pk::Key, Pk::KwRest, Pk::Blk, Pk::Fwd])).collect();
    if s.chance(2, 3) {
        // nearly in order
        let rank = |p: &Pk| match p {
            Pk::Req | Pk::Destr => 0,
            Pk::Opt => 1,
            Pk::Rest | Pk::NoRest => 2,
            Pk::Key => 4,
            Pk::KwRest => 5,
            Pk::Blk => 6,
            Pk::Fwd => 7,
        };
        v.sort_by_key(rank);
        v.dedup_by(|a, b| rank(a) == rank(b) && (rank(a) == 2 || rank(a) >= 5));
        if s.coin() && v.len() > 1 {
            let i = s.us(v.len() - 1);
            v.swap(i, i + 1);
        }
        if s.chance(1, 3) {
            let at = s.us(v.len() + 1);
            v.insert(at, *s.pick(&[Pk::Req, Pk::Destr, Pk::Opt, Pk::Rest, Pk::Key]));
        }
    }
    let mut ok = params_ok(&v, is_def);
    // names, sometimes one twice
    let mut names: Vec<String> = vec![];
    let mut next = 0;
    let twice = s.chance(1, 8);
    let mut fresh = |s: &mut Src, names: &mut Vec<String>, ok: &mut bool| {
        if twice && !names.is_empty() && s.chance(1, 2) {
            *ok = false;
            return s.pick(&names[..]).clone();
        }
        next += 1;
        let n = format!("q{}", next);
        names.push(n.clone());
        n
    };
    let bar = form == 3 || form == 4;
    let paren = form <= 1 || form == 5;
    let mut items: Vec<String> = vec![];
    let last = v.len() - 1;
    for (i, p) in v.iter().enumerate() {
        let val = if form == 6 { s.pick_str(&["1", "nil", "[1]", "\"s\"", "1 + 2"]) } else if bar { s.pick_str(&["1", "nil", "qz", "[1]", "\"s\"", "qz.qy"]) } else { s.pick_str(&["1", "nil", "qz", "[1]", "\"s\"", "1 + 2", "qz ? 1 : 2", "->{}", "qz(1)", "[qz { }]"]) };
        items.push(match p {
            Pk::Req => fresh(s, &mut names, &mut ok),
            Pk::Destr => {
                let k = 1 + s.len(2);
                let l: Vec<String> = (0..k).map(|_| fresh(s, &mut names, &mut ok)).collect();
                format!("({})", l.join(", "))
            }
            Pk::Opt => format!("{} = {}", fresh(s, &mut names, &mut ok), val),
            Pk::Rest => format!("*{}", fresh(s, &mut names, &mut ok)),
            // not as the last parameter without parentheses
            Pk::NoRest if i == last && !paren && !bar => format!("*{}", fresh(s, &mut names, &mut ok)),
            Pk::NoRest => "*".to_string(),
            Pk::Key if (i == last && !paren && !bar) || s.coin() => format!("{}: {}", fresh(s, &mut names, &mut ok), val),
            Pk::Key => format!("{}:", fresh(s, &mut names, &mut ok)),
            Pk::KwRest => format!("**{}", fresh(s, &mut names, &mut ok)),
            Pk::Blk => format!("&{}", fresh(s, &mut names, &mut ok)),
            Pk::Fwd => "...".to_string(),
        });
    }
    // a parenthesis after the name of a method opens its parameter list
    if form == 2 && items[0].starts_with('(') || form == 6 && items[0].starts_with('(') {
        return Verdict::Discard;
    }
    let l = items.join(s.pick_str(&[", ", ",", " , "]));
    let code = match form {
        0 => format!("def qm({}) 1 end", l),
        1 => format!("def self.qm({})\n1\nend", l),
        2 => format!("def qm {}\n1\nend", l),
        3 => format!("qf {{ |{}| 1 }}", l),
        4 => format!("qf(1) do |{}|\n1\nend", l),
        5 => format!("->({}) {{ 1 }}", l),
        _ => format!("-> {} {{ 1 }}", l),
    };
    // braces and brackets in a default are not the body of the lambda
    if form == 6 && v.iter().any(|p| matches!(p, Pk::Opt | Pk::Key)) && code.matches('{').count() > 1 {
        return Verdict::Discard;
    }
    let w = nest(s, &[NEUTRAL, NEUTRAL, BLOCKS], 2);
    let code = apply(&w, &code);
    decide(s, &code, ok, n_tag(ok, "parameter list"))
}

/// Multiple assignment: at most one splat among targets that can be assigned.
fn targets(s: &mut Src) -> Verdict {
    const GOOD: &[&str] = &["qa", "qb", "@qa", "$qa", "@@qa", "QA", "qa.qb", "qa[1]", "qa[]", "self.qb", "QA::QB", "QA::qb", "qa&.qb", "qa.qb.qc", "qa(1).qb", "self[0]", "qa.QB", "[1][0]", "qa[*qb]", "::QA"];
    const BAD: &[&str] = &["1", "nil", "self", "qf()", "\"s\"", "qa?", "$1", ":s", "qa.qb(1)", "(1)", "[1]", "true", "__LINE__", "qa!", "qf(1)", "1.5", "->{}", "%w(a)", "qa.qb?", "$&"];
    let n = s.len(8);
    let mut items: Vec<String> = vec![];
    let (mut ok, mut splats) = (true, 0);
    let many = s.chance(1, 4);
    for _ in 0..n {
        let mut t = if s.chance(1, 20) {
            ok = false;
            s.pick_str(BAD)
        } else {
            s.pick_str(GOOD)
        }
        .to_string();
        if if splats == 0 { s.chance(1, 4) } else { s.chance(1, if many { 4 } else { 40 }) } {
            splats += 1;
            t.insert(0, '*');
        }
        items.push(t);
    }
    if splats > 1 {
        ok = false;
    }
    let mut l = items.join(s.pick_str(&[", ", ",", " , ", ",\n"]));
    if n < 2 || s.chance(1, 10) {
        if n == 0 {
            return Verdict::Discard;
        }
        l.push(',');
        // nothing is left over for a comma after a splat
        ok &= splats == 0;
    }
    let r = s.pick_str(&["1", "1, 2", "*qz", "1, *qz", "qz", "[1, 2]", "qz(1)", "nil, \"s\"", "*qz, 1, 2", "-> { 1 }"]);
    let code = format!("{}{}{}", l, s.pick_str(&[" = ", "=", " =\n", " = "]), r);
    let w = nest(s, &[NEUTRAL, NEUTRAL, BLOCKS], 2);
    let code = apply(&w, &code);
    decide(s, &code, ok, n_tag(ok, "targets"))
}

/// Arguments: positional ones and splats, keywords and double splats, a block.
fn arguments(s: &mut Src) -> Verdict {
    let n = 1 + s.len(7);
    let form = s.us(9);
    let mut v: Vec<usize> = (0..n).map(|_| s.weighted(&[5, 2, 3, 2, 1])).collect();
    if s.chance(3, 4) {
        // nearly in order
        let rank = |k: &usize| [0, 0, 1, 1, 2][*k];
        v.sort_by_key(rank);
        v.dedup_by(|a, b| *a == 4 && *b == 4);
        if s.coin() && v.len() > 1 {
            let i = s.us(v.len() - 1);
            v.swap(i, i + 1);
        }
    }
    if form == 8 {
        v.retain(|k| *k != 4);
        if v.is_empty() {
            return Verdict::Discard;
        }
    }
    let mut ok = true;
    let mut st = 0;
    for k in &v {
        let r = [0, 0, 1, 1, 2][*k];
        ok &= r >= st && st < 2;
        st = r;
    }
    let items: Vec<String> = v
        .iter()
        .map(|k| {
            let val = s.pick_str(&["1", "qz", "nil", "\"s\"", "[1]", "qz(1)", "1 + 2", "qz.qy", "-> { }", "{ 1 => 2 }", ":s", "qz ? 1 : 2"]);
            match k {
                0 if val.starts_with('{') => "(1)".to_string(),
                0 => val.to_string(),
                1 => format!("*{}", s.pick_str(&["qz", "[1]", "qz(1)", "@q", "qz.qy"])),
                2 => format!("{}: {}", s.pick_str(&["qk", "if", "QK", "nil", "qk2"]), val),
                3 => format!("**{}", s.pick_str(&["qz", "qz(1)", "@q", "qz.qy"])),
                _ => format!("&{}", s.pick_str(&["qz", "@q", ":s", "qz.qy"])),
            }
        })
        .collect();
    let l = items.join(s.pick_str(&[", ", ",", " , ", ",\n"]));
    let comma = if v.last() != Some(&4) && s.chance(1, 6) { s.pick_str(&[",", ", ", ",\n"]) } else { "" };
    let code = match form {
        0 => format!("qf({}{})", l, comma),
        1 => format!("qf {}", l),
        2 => format!("qa.qf({}{})", l, comma),
        3 => format!("qa.qf {}", l),
        4 => format!("qa.({})", l),
        5 => format!("qa::qf({})", l),
        6 => format!("qa&.qf({}\n)", l),
        7 => format!("def qm; super({}) end", l),
        _ => format!("def qm; yield({}) end", l),
    };
    let (form_cmd, first) = (form == 1 || form == 3, &items[0]);
    // a bracket after a space is an index in the eyes of this parser
    if form_cmd && (first.starts_with('[') || first.starts_with('(') || first.starts_with('-')) {
        return Verdict::Discard;
    }
    let w = nest(s, &[NEUTRAL, NEUTRAL, BLOCKS], 2);
    let code = apply(&w, &code);
    decide(s, &code, ok, n_tag(ok, "arguments"))
}

fn n_tag(ok: bool, what: &'static str) -> (&'static str, &'static str) {
    (what, if ok { "valid" } else { "invalid" })
}

/// The model says whether the text is a program.
fn decide(s: &mut Src, code: &str, ok: bool, tag: (&'static str, &'static str)) -> Verdict {
    match any_parse(s, code) {
        Err(m) => fail(code, format!("panic {}", m)),
        Ok(Ok(r)) if !ok => fail(code, format!("{}: accepted as {}", tag.0, sexp::dump(&r.node).show())),
        Ok(Err(e)) if ok => fail(code, format!("{}: the valid text is rejected: {:?} {:?}", tag.0, e.kind, e.loc)),
        _ => pass(code, code.chars().count() > 2, vec![tag.0, tag.1]),
    }
}

// ---------------------------------------------------------------- rules about the context

fn in_method(s: &mut Src) -> Verdict {
    let stmt = s.pick_str(&[
        "QZ = 1",
        "QZ ||= 1",
        "QZ += 1",
        "qa, QZ = 1, 2",
        "QZ, qa = 1, 2",
        "qa, *QZ = 1, 2",
        "begin\n1\nrescue QE => QZ\nend",
        "begin\n1\nrescue => QZ\nend",
        "qa = QZ = 1",
        "qf(QZ = 1)",
        "[1, QZ = 1]",
        "QZ &&= 2 if qa",
        "class QZ\nend",
        "class QZ < QB\n1\nend",
        "class QA::QZ\nend",
        "module QZ\nend",
        "module QA::QZ\n1\nend",
    ]);
    let mut v = vec![];
    // a class can only be where a method is not the innermost of the two
    let mut method = false;
    for _ in 0..1 + s.len(6) {
        match s.weighted(&[4, 2, 3, 2, 1]) {
            0 => v.push(*s.pick(NEUTRAL)),
            1 => v.push(*s.pick(BLOCKS)),
            2 => {
                v.push(*s.pick(DEFS));
                method = true;
            }
            3 if !method => v.push(*s.pick(CLASSES)),
            _ => {
                v.push(SCLASS);
                method = false;
            }
        }
    }
    let code = apply(&v, stmt);
    decide(s, &code, !method, n_tag(!method, "constant, class or module in a method"))
}

fn forwarding(s: &mut Src) -> Verdict {
    const FWD: &[(&str, &str)] = &[("def qm(...)\n", "\nend"), ("def qm(qa, ...)\n", "\nensure\nend"), ("def self.qm(...)\n", "\nend"), ("def +(...)\n", "\nend"), ("def qm(qa, qb, ...)\n", "\nend")];
    let mut v = vec![];
    let mut has = false;
    let mut method = false;
    for _ in 0..1 + s.len(5) {
        match s.weighted(&[4, 2, 2, 4, 2, 1]) {
            0 => v.push(*s.pick(NEUTRAL)),
            1 => v.push(*s.pick(BLOCKS)),
            2 => {
                v.push(*s.pick(DEFS));
                has = false;
                method = true;
            }
            3 => {
                v.push(*s.pick(FWD));
                has = true;
                method = true;
            }
            4 if !method => {
                v.push(*s.pick(CLASSES));
                has = false;
            }
            _ => {
                v.push(SCLASS);
                has = false;
                method = false;
            }
        }
    }
    let (st, good) = *s.pick(&[
        ("qg(...)", true),
        ("qg(1, ...)", true),
        ("qa.qg(...)", true),
        ("qa.qg(qb, 1, ...)", true),
        ("QG(...)", true),
        ("qx = qg(...)", true),
        ("qg(qh(...))", true),
        ("qg(...).qh", true),
        ("super(...)", true),
        ("super(1, ...)", true),
        ("qa::qg(...)", true),
        ("qa&.qg(...)", true),
        ("qg(..., 1)", false),
        ("qg(..., *qa)", false),
        ("qg(..., &qb)", false),
        ("qg(..., a: 1)", false),
        ("qg(..., ...)", false),
        ("qg(...) { }", false),
        ("qg(...) do end", false),
        ("qg(1, ...) { |x| x }", false),
        ("qa.qg(...) { }", false),
        ("super(...) { }", false),
        ("qx = ...", false),
        ("[...]", false),
        ("(...)", false),
        ("qg[...]", false),
    ]);
    let ok = has && good;
    let code = apply(&v, st);
    decide(s, &code, ok, n_tag(ok, "argument forwarding"))
}

/// Statements of a block. Returns the text, whether `_1` is used directly, whether it is used in a block
/// within (without a method or class in between), and whether all is well.
fn nb(s: &mut Src, depth: usize, in_block: bool) -> (String, bool, bool, bool) {
    let (mut uses, mut inner, mut ok) = (false, false, true);
    let mut stmts: Vec<String> = vec![];
    let n = 1 + s.len(3);
    for _ in 0..n {
        let t = match s.weighted(&[3, if in_block { 4 } else { 0 }, if depth > 0 { 7 } else { 0 }, if depth > 0 { 1 } else { 0 }]) {
            0 => s.pick_str(&["1", "qz", "qf(1)", "qx = 2", "[]", "__1", "_a1", "_12", "_0"]).to_string(),
            1 => {
                uses = true;
                let u = s.pick_str(&["_1", "_2", "_9"]);
                let t = s.pick_str(&["@", "qf(@)", "@ + 1", "qf @", "[@, 1]", "qx = @", "\"a#{@}\"", "@.qf", "@[0]", "if @ then 1 end", "for qi in [@]\n@\nend", "1 ? @ : 2", "qf(qk: @)", "while @; end", "(@)", "qf 1, @", "@ && @"]);
                t.replace('@', u)
            }
            2 => {
                let (t, u, i, o) = nb(s, depth - 1, true);
                let (w, params) = *s.pick(&[
                    (("qf {\n", "\n}"), false),
                    (("qf do\n", "\nend"), false),
                    (("-> {\n", "\n}"), false),
                    (("-> do\n", "\nend"), false),
                    (("qx.qf(1) { ", " }"), false),
                    (("qx = qf(qa) do\n", "\nend"), false),
                    (("[qf { ", " }]"), false),
                    (("qf { |qv| ", " }"), true),
                    (("qf do |*qv|\n", "\nend"), true),
                    (("qf { || ", " }"), true),
                    (("qf { | | ", " }"), true),
                    (("->(qv) { ", " }"), true),
                    (("->() { ", " }"), true),
                    (("-> qv do\n", "\nend"), true),
                    (("qf { |qv, &qb|\n", "\n}"), true),
                ]);
                ok &= o && !(u && (params || i));
                inner |= u || i;
                wrap(w, &t)
            }
            _ => {
                // nothing passes through a method or a class
                let (t, _, _, o) = nb(s, depth - 1, false);
                ok &= o;
                let w = if s.coin() { *s.pick(&DEFS[..3]) } else { SCLASS };
                wrap(w, &t)
            }
        };
        stmts.push(t);
    }
    (stmts.join(s.pick_str(&["\n", "; "])), uses, inner, ok)
}

fn numbered(s: &mut Src) -> Verdict {
    if s.chance(1, 8) {
        let t = s.pick_str(&["_1 = 1", "_1 += 1", "_2 ||= 1", "_1, qa = 1, 2", "qa, _9 = 1, 2", "for _1 in qa; end", "qf { |_1| 1 }", "->(_1) { }", "def qm(_1); end", "def _1; end", "def _3(qa)\n1\nend", "def self._1; end", "def qa._9(qb); end", "begin; rescue => _3; end", "qf { _1 = 1 }", "qf { qa, _1 = 1, 2 }", "qf { |qa, _2| 1 }", "def qm(*_1); end", "def qm(&_1); end", "def qm(_4 = 1); end", "def qm(**_1); end", "qf { |(qa, _1)| 1 }", "qf { for _1 in qa; end }"]);
        let w = nest(s, &[NEUTRAL, DEFS], 3);
        return decide(s, &apply(&w, t), false, n_tag(false, "numbered parameter as a variable"));
    }
    let (t, _, _, ok) = nb(s, 4, false);
    decide(s, &t, ok, n_tag(ok, "numbered parameters"))
}
