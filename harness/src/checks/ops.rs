//! Flat operator sequences against a precedence table (operator precedence climbing).
use super::*;
use crate::sexp::ident;

enum T {
    /// operand
    A(String, X),
    Un(&'static str),
    Bin(&'static str),
}

/// Ruby's table: level (higher binds tighter) and associativity.
fn level(op: &str) -> (u8, char) {
    match op {
        "and" | "or" => (0, 'l'),
        "?" => (2, 'r'),
        ".." | "..." => (3, 'n'),
        "||" => (4, 'l'),
        "&&" => (5, 'l'),
        "<=>" | "==" | "===" | "!=" | "=~" | "!~" => (6, 'n'),
        "<" | "<=" | ">" | ">=" => (7, 'l'),
        "|" | "^" => (8, 'l'),
        "&" => (9, 'l'),
        "<<" | ">>" => (10, 'l'),
        "+" | "-" => (11, 'l'),
        "*" | "/" | "%" => (12, 'l'),
        // unary minus: 13
        "**" => (14, 'r'),
        // ! ~ unary plus: 15
        _ => unreachable!(),
    }
}

const BIN: &[&str] = &[
    "+", "-", "*", "/", "%", "**", "<<", ">>", "&", "|", "^", "<", "<=", ">", ">=", "==", "!=", "===", "=~", "!~", "<=>", "&&", "||", "..", "...", "?", "and", "or",
];

struct P<'a> {
    t: &'a [T],
    i: usize,
}

impl<'a> P<'a> {
    fn unary(&mut self) -> Option<X> {
        match self.t.get(self.i)? {
            T::A(_, x) => {
                self.i += 1;
                Some(x.clone())
            }
            T::Un(u) => {
                self.i += 1;
                if *u == "-" {
                    let x = self.climb(14)?;
                    return Some(X::n("u-", vec![x]));
                }
                let x = self.climb(15)?;
                Some(X::n(format!("u{}", u), vec![x]))
            }
            T::Bin(_) => None,
        }
    }
    /// operators of at least level `min`
    fn climb(&mut self, min: u8) -> Option<X> {
        let mut l = self.unary()?;
        let mut last = None;
        while let Some(T::Bin(op)) = self.t.get(self.i) {
            if *op == ":" {
                break;
            }
            let (lv, assoc) = level(op);
            if lv < min {
                break;
            }
            if assoc == 'n' && last == Some(lv) {
                return None; // not associative
            }
            self.i += 1;
            if *op == "?" {
                let a = self.climb(2)?;
                match self.t.get(self.i) {
                    Some(T::Bin(":")) => self.i += 1,
                    _ => return None,
                }
                let b = self.climb(2)?;
                l = iff(l, a, b);
                last = Some(lv);
                continue;
            }
            let r = self.climb(if assoc == 'r' { lv } else { lv + 1 })?;
            last = Some(lv);
            l = match *op {
                ".." | "..." => {
                    let c = [&l, &r].iter().all(|x| x.tag == "int");
                    X::n(*op, vec![l, r, flag(c)])
                }
                "!~" => X::n("u!", vec![X::n("=~", vec![l, r])]),
                "and" => X::n("&&", vec![l, r]),
                "or" => X::n("||", vec![l, r]),
                o => X::n(o, vec![l, r]),
            };
        }
        Some(l)
    }
}

fn operand(s: &mut Src, neg: bool) -> T {
    let n = s.pick_str(&["a", "b", "c", "d"]);
    match s.below(6) {
        0..=2 => T::A(n.into(), ident(n)),
        3 => {
            let k = s.below(100);
            if neg && s.coin() {
                T::A(format!("-{}", k + 1), X::n("int", vec![X::a(format!("-{}", k + 1))]))
            } else {
                T::A(k.to_string(), X::n("int", vec![X::a(k.to_string())]))
            }
        }
        4 => T::A(format!("@{}", n), X::n("ivar", vec![X::a(format!("@{}", n))])),
        _ => T::A(format!("{}.foo", n), call(ident(n), "foo", Al::default())),
    }
}

pub fn chain(s: &mut Src) -> Verdict {
    let n = 1 + s.us(2 + s.size as usize / 8);
    let mut t: Vec<T> = vec![];
    let mut pending = 0;
    // a few operators only, so that equal levels meet often
    let few: Vec<&'static str> = (0..1 + s.us(5)).map(|_| *s.pick(BIN)).collect();
    let pick_all = s.coin();
    for i in 0..=n {
        // unary operators; a minus in front of a number would be part of it
        let mut unary = false;
        for _ in 0..s.len(3) {
            t.push(T::Un(*s.pick(&["!", "-", "~", "+"])));
            unary = true;
        }
        let o = if unary {
            let v = s.pick_str(&["a", "b", "@c"]);
            T::A(v.into(), if v == "@c" { X::n("ivar", vec![X::a(v)]) } else { ident(v) })
        } else {
            operand(s, true)
        };
        t.push(o);
        if i < n {
            let mut op = if pick_all { *s.pick(BIN) } else { *s.pick(&few) };
            if op == "?" {
                pending += 1;
            } else if pending > 0 && s.chance(1, 3) {
                op = ":";
                pending -= 1;
            }
            if op == "and" || op == "or" {
                if pending > 0 {
                    op = "+";
                }
            }
            t.push(T::Bin(op));
        }
    }
    while pending > 0 {
        pending -= 1;
        t.push(T::Bin(":"));
        t.push(operand(s, false));
    }
    // a negative literal as the left operand of ** is not one
    for i in (0..t.len() - 1).rev() {
        if let (T::A(v, _), T::Bin("**")) = (&t[i], &t[i + 1]) {
            if let Some(r) = v.strip_prefix('-') {
                let r = r.to_string();
                let x = X::n("int", vec![X::a(r.clone())]);
                t[i] = T::A(r, x);
                t.insert(i, T::Un("-"));
            }
        }
    }
    let mut src = String::new();
    let mut glue = false;
    for (i, k) in t.iter().enumerate() {
        match k {
            T::A(v, _) => src.push_str(v),
            T::Un(u) => {
                if glue && src.ends_with(|c: char| c.is_ascii_punctuation()) && s.coin() {
                    src.push(' ');
                }
                src.push_str(u);
                if let Some(T::Un(_)) = t.get(i + 1) {
                    if !matches!((u, &t[i + 1]), (&"!", T::Un("!")) | (&"~", _) | (&"-", T::Un("-")) | (&"+", T::Un("+"))) {
                        src.push(' ');
                    }
                }
            }
            T::Bin(op) => {
                // blanks on both sides
                src.push(' ');
                src.push_str(op);
                src.push_str(if s.chance(1, 12) { "\n  " } else { " " });
            }
        }
        glue = true;
    }
    let mut p = P { t: &t, i: 0 };
    let want = p.climb(0).filter(|_| p.i == t.len());
    match (want, tri2(&src)) {
        (_, Err(m)) => fail(src, m),
        (Some(x), Ok(Ok(r))) => match x.diff(&sexp::dump(&r.node)) {
            Some(d) => fail(src, d),
            None => pass(src, n >= 2, vec!["chain"]),
        },
        (Some(x), Ok(Err(e))) => fail(src, format!("rejected: {:?} {:?}; expected {}", e.kind, e.loc, x.show())),
        (None, Ok(Ok(r))) => fail(src, format!("accepted as {}; the chain has no parse", sexp::dump(&r.node).show())),
        (None, Ok(Err(_))) => pass(src, false, vec!["no_parse"]),
    }
}

fn tri2(src: &str) -> Result<Res, String> {
    parse(src).map_err(|m| format!("panic {}", m))
}
