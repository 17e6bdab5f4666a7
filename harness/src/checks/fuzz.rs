//! Arbitrary texts: valid programs, mutated ones, token soup and random characters.
use super::*;

const WORDS: &[&str] = &[
    "if", "unless", "while", "until", "for", "in", "do", "end", "def", "class", "module", "begin", "rescue", "ensure", "else", "elsif", "case", "when", "then", "return", "break", "next", "redo", "yield", "super",
    "alias", "undef", "not", "and", "or", "nil", "true", "false", "self", "__FILE__", "__LINE__", "defined?", "BEGIN", "END", "retry", "__END__", "a", "b", "foo", "x", "A", "Foo", "@a", "@@a", "$a", "@", "@@", "$", "a?",
    "a!", "a=", "_1", "_2", "_", "=begin", "=end", "lambda", "proc", "puts", "p", "é", "日本", "😀", "\u{a0}", "\u{3000}", "\u{feff}", "\u{7f}",
];
const PUNCT: &[&str] = &[
    "+", "-", "*", "/", "%", "**", "==", "===", "=~", "!~", "!=", "<=>", "<", "<=", ">", ">=", "<<", ">>", "&", "|", "^", "~", "!", "&&", "||", "&.", ".", "..", "...", "?", ":", "::", ",", ";", "=", "+=", "-=", "*=",
    "/=", "%=", "**=", "||=", "&&=", "<<=", ">>=", "|=", "&=", "^=", "=>", "->", "(", ")", "[", "]", "{", "}", "[]", "[]=", "()", "{}", "\n", "\n", " ", "  ", "\t", "\r\n", "\\\n", "\\", "#", "# c\n", "\0",
];
const LITS: &[&str] = &[
    "0", "1", "12", "0x1f", "0b101", "0o17", "017", "08", "0x", "0b", "0o", "1_000", "1_", "1__0", "1.5", "1.", "1e5", "1e", "1e+", "1.5e-3", "1i", "1.5i", "1r", "9223372036854775808", "99999999999999999999999", "1e400",
    "\"", "'", "`", "\"a\"", "'a'", "`a`", "\"#{", "#{", "#@a", "#$a", "#@@a", "\"#@1\"", "%q(", "%Q(", "%w(", "%i(", "%(", "%r(", "%x(", "%W(", "%I(", "%s(", "%w", "%q", "%", "%[", "%<a<b>c>", "%w(a b)", "%i[a b]",
    "/a/", "/", "/#{a}/x", "/[/", "/(?#", "/x", "/mx", ":a", ":\"a\"", ":\"", ":'", ":+", ":[]=", ":a?", ":@a", ":$a", ":", "a:", "\"a\":", "?a", "?\\n", "?", "?\\", "?\\u{1F600}", "?é", "<<A", "<<-A", "<<~A", "<<'A'",
    "<<\"A\"", "<<`A`", "<<A\n", "\nA\n", "<<A,<<B\n", "\nB\n", "<<-\"A B\"", "$1", "$99", "$99999999999", "$~", "$_", "$!", "$:", "$\"", "$-w", "$&", "$'", "$;", "$,", "$.", "$/", "$\\", "$0", "$?", "$*", "$$", "$<", "$>",
    "\\n", "\\u", "\\u{", "\\u{110000}", "\\u{D800}", "\\ud800", "\\x", "\\xff", "\\777", "\\0", "%w\u{3000}a\u{3000}", "%q日", "%r😀", "日", "%Q\u{a0}", "%i\u{85}",
    "\\M-a", "\\C-a", "\\c", "\\e", "\\",
    "|a|", "|a, b|", "|a = 1|", "|(a, b), *c|", "|&b|", "|**k|", "|a:|", "||", "(a, b = 1, *c, d, e:, f: 1, **g, &h)", "(...)", "(*)", "(&)", "(**)", "*a", "**a", "&a", "&:a", "a: 1", "\"a\" => 1",
];

fn soup(s: &mut Src) -> String {
    let n = 1 + s.us(4 + s.size as usize);
    let mut t = String::new();
    let spaced = s.coin();
    for _ in 0..n {
        let w = match s.below(4) {
            0 => s.pick_str(WORDS),
            1 => s.pick_str(LITS),
            _ => s.pick_str(PUNCT),
        };
        if spaced && s.chance(2, 3) {
            t.push(' ');
        }
        t.push_str(w);
    }
    t
}

fn any_char(s: &mut Src) -> char {
    match s.below(12) {
        0..=4 => (32 + s.below(95)) as u8 as char,
        5 => s.below(32) as u8 as char,
        6 => *s.pick(&['é', '日', '😀', '\u{300}', '\u{a0}', '\u{3000}', '\u{feff}', '\u{7f}', '\u{2028}', '\u{85}', '\u{1F468}', '\u{200d}', '٣', '\u{ff21}', 'ǅ', '\u{10ffff}', '\u{d7ff}', '\u{e000}']),
        7 => char::from_u32(s.below(0x3000) as u32).unwrap_or('x'),
        8 => char::from_u32(s.below(0x110000) as u32).unwrap_or('y'),
        _ => *s.pick(&['"', '\'', '`', '#', '{', '}', '(', ')', '[', ']', '\\', '\n', '%', '/', '?', ':', '|', '&', '*', '<', '=', '@', '$', '.', ',', ';', '-', '~', '0', 'x', 'e', '_']),
    }
}

pub fn program(s: &mut Src, f: F, wild: u64) -> String {
    let cfg = Cfg::new(f, s.size);
    let p = make(s, &cfg);
    render(&p, s, wild).src
}

const FS: &[F] = &[F::All, F::Op, F::Num, F::Str, F::Here, F::Regex, F::Interp, F::Call, F::Cmd, F::Param, F::Assign, F::Flow, F::Def, F::Scope, F::Coll, F::Name];

pub fn boundary(t: &str, mut i: usize) -> usize {
    while !t.is_char_boundary(i) {
        i -= 1;
    }
    i
}

/// A few edits of a text.
pub fn mutate(s: &mut Src, mut t: String) -> String {
    let n = 1 + s.len(4);
    for _ in 0..n {
        let a = s.us(t.len() + 1);
        let a = boundary(&t, a);
        match s.below(9) {
            0 => t.truncate(a),
            1 => {
                // delete a piece
                let l = 1 + s.us(6);
                let b = boundary(&t, (a + l).min(t.len()));
                if a < b {
                    t.replace_range(a..b, "");
                }
            }
            2 => t.insert(a, any_char(s)),
            3 => {
                let w = match s.below(3) {
                    0 => s.pick_str(WORDS),
                    1 => s.pick_str(LITS),
                    _ => s.pick_str(PUNCT),
                };
                t.insert_str(a, w);
            }
            4 => {
                // replace a character
                if let Some(c) = t[a..].chars().next() {
                    let d = any_char(s);
                    t.replace_range(a..a + c.len_utf8(), &d.to_string());
                }
            }
            5 => {
                // repeat a piece somewhere else
                let l = 1 + s.us(20);
                let b = boundary(&t, (a + l).min(t.len()));
                let piece = t[a.min(b)..b.max(a)].to_string();
                let at = s.us(t.len() + 1);
                let at = boundary(&t, at);
                t.insert_str(at, &piece);
            }
            6 => {
                // drop the beginning
                t = t[a..].to_string();
            }
            7 => {
                // swap two halves
                t = format!("{}{}", &t[a..], &t[..a]);
            }
            _ => {
                // drop the spaces or the newlines
                let c = *s.pick(&[' ', '\n', '"', ')', '}']);
                let mut left = 1 + s.us(3);
                let mut r = String::new();
                for (i, k) in t.char_indices() {
                    if k == c && i >= a && left > 0 {
                        left -= 1;
                    } else {
                        r.push(k);
                    }
                }
                t = r;
            }
        }
    }
    t
}

fn nest(s: &mut Src) -> String {
    const PAIRS: &[(&str, &str)] = &[
        ("(", ")"), ("[", "]"), ("{a => ", "}"), ("foo(", ")"), ("foo { ", " }"), ("foo do\n", "\nend"), ("if a\n", "\nend"), ("\"#{", "}\""), ("->{", "}"), ("while a do ", " end"), ("begin\n", "\nend"), ("def f\n", "\nend"),
        ("class A\n", "\nend"), ("!", ""), ("-", ""), ("a ? ", " : b"), ("a = ", ""), ("foo ", ""), ("a[", "]"), ("case a\nwhen b\n", "\nend"), ("a + ", ""), ("*", ""), ("defined? ", ""), ("not ", ""), ("/#{", "}/"), ("`#{", "}`"),
        ("->(a = ", ") {}"), ("foo(*", ")"), ("foo(a: ", ")"), ("a.b(", ")"), ("%q(", ")"), ("(a, ", ") = b"), ("return ", ""), ("[*", "]"), ("a ||= ", ""), ("x.y = ", ""), ("a and ", ""), ("unless a then ", " end"), ("a rescue ", ""), ("{a: ", "}"), ("a **", ""), ("a ?b :", ""), ("|", ""), ("((", "))"), ("foo a do |x| ", " end"), ("%w(", ")"), ("a, ", ""), ("for a in ", ""), ("<<A + ", "\nA\n"), ("def a.", ""), ("&", ""), ("a::", ""), ("yield ", ""), ("super ", "")
    ];
    let n = 1 + s.us(200);
    let mix = s.chance(1, 4);
    // one construct, or a few in turn, possibly joined by a word
    let mut period: Vec<(&str, &str)> = vec![];
    for _ in 0..1 + s.weighted(&[3, 3, 2, 1]) {
        period.push(match s.below(8) {
            0 => (s.pick_str(PUNCT), ""),
            1 => (s.pick_str(WORDS), s.pick_str(&["", "", " ", ")", "\nend", "}", "]", "\""])),
            2 => (s.pick_str(LITS), ""),
            _ => *s.pick(PAIRS),
        });
    }
    let sep = s.pick_str(&["", "", " "]);
    let (mut a, mut b) = (String::new(), String::new());
    for i in 0..n {
        let (o, c) = if mix { *s.pick(PAIRS) } else { period[i % period.len()] };
        a.push_str(sep);
        a.push_str(o);
        b.insert_str(0, c);
    }
    match s.below(4) {
        0 => format!("{}a", a),
        1 => format!("{}{}", a, b),
        _ => format!("{}a{}", a, b),
    }
}

/// (text, what it is)
pub fn text(s: &mut Src) -> (String, &'static str) {
    match s.weighted(&[5, 12, 5, 3, 1, 1, 2]) {
        0 => {
            let f = *s.pick(FS);
            (program(s, f, 30), "program")
        }
        1 => {
            let f = *s.pick(FS);
            let w = *s.pick(&[0, 30]);
            let t = program(s, f, w);
            (mutate(s, t), "mutated program")
        }
        2 => (soup(s), "token soup"),
        3 => {
            let t = soup(s);
            (mutate(s, t), "mutated soup")
        }
        4 => {
            let n = s.us(40);
            let mut t = String::new();
            for _ in 0..n {
                t.push(any_char(s));
            }
            (t, "characters")
        }
        5 => {
            let t = nest(s);
            let t = if s.chance(1, 4) { mutate(s, t) } else { t };
            (t, "nesting")
        }
        _ => {
            // two programs cut and joined
            let a = program(s, F::All, 10);
            let f = *s.pick(FS);
            let b = program(s, f, 10);
            let i = s.us(a.len() + 1);
            let j = s.us(b.len() + 1);
            let (i, j) = (boundary(&a, i), boundary(&b, j));
            (format!("{}{}", &a[..i], &b[j..]), "splice")
        }
    }
}
