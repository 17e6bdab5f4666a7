//! Literals: source spelling together with the value Ruby assigns to it.
use crate::engine::Src;
use crate::sexp::{qs, X};
use num::{BigInt, BigUint, Num, One, ToPrimitive, Zero};

// ---------------------------------------------------------------- numbers

fn seps(s: &mut Src, d: &str) -> String {
    // digit separators
    let mut r = String::new();
    let sep = s.chance(1, 3);
    for (i, c) in d.chars().enumerate() {
        if i > 0 && sep && s.chance(1, 3) {
            r.push('_');
        }
        r.push(c);
    }
    r
}

fn digits(s: &mut Src, n: usize, base: u64, upper: bool) -> String {
    (0..n)
        .map(|_| {
            let c = std::char::from_digit(s.below(base) as u32, 16).unwrap();
            if upper {
                c.to_ascii_uppercase()
            } else {
                c
            }
        })
        .collect()
}

/// (spelling, value) of a non-negative integer
pub fn uint(s: &mut Src) -> (String, BigInt) {
    let form = s.weighted(&[8, 2, 1, 2, 2, 1]);
    let base: u32 = [10, 16, 8, 8, 2, 10][form];
    let v: BigUint = match s.weighted(&[6, 3, 2, 2, 1]) {
        0 => BigUint::from(s.below(10)),
        1 => BigUint::from(s.below(100_000)),
        2 => {
            // around machine boundaries
            let e = *s.pick(&[7u32, 8, 15, 16, 31, 32, 53, 62, 63, 64, 65, 127, 128]);
            let b = BigUint::one() << e;
            match s.below(4) {
                0 => b,
                1 => b - BigUint::one(),
                2 => b + BigUint::one(),
                _ => b + BigUint::from(s.below(1000)),
            }
        }
        3 => {
            let n = 1 + s.us(20);
            BigUint::from_str_radix(&digits(s, n, 10, false), 10).unwrap()
        }
        _ => {
            let n = 1 + s.us(30 + 3 * s.size as usize);
            BigUint::from_str_radix(&digits(s, n, 10, false), 10).unwrap()
        }
    };
    let mut d = v.to_str_radix(base);
    if form == 1 {
        d = d.chars().map(|c| if s.coin() { c.to_ascii_uppercase() } else { c }).collect();
    }
    if form != 0 && s.chance(1, 5) {
        d = format!("{}{}", "0".repeat(1 + s.us(3)), d);
    }
    let d = seps(s, &d);
    let upper = s.chance(1, 5);
    let prefix = |c: char| if upper { c.to_ascii_uppercase() } else { c };
    let t = match form {
        0 => d,
        1 => format!("0{}{}", prefix('x'), d),
        2 => format!("0{}{}", prefix('o'), d),
        3 => {
            if s.chance(1, 4) {
                format!("0_{}", d)
            } else {
                format!("0{}", d)
            }
        }
        4 => format!("0{}{}", prefix('b'), d),
        _ => format!("0{}{}", prefix('d'), d),
    };
    (t, BigInt::from(v))
}

pub fn int_x(v: &BigInt) -> X {
    match v.to_i64() {
        Some(i) => X::n("int", vec![X::a(i.to_string())]),
        None => X::n("big", vec![X::a(v.to_string())]),
    }
}

pub fn float_x(f: f64) -> X {
    X::n("float", vec![X::a(format!("{:?}", f))])
}

/// (spelling, integer part digits+fraction digits, decimal exponent)
pub fn ufloat(s: &mut Src) -> (String, f64) {
    let long = s.chance(1, 6);
    let n = if long { 1 + s.us(25) } else { 1 + s.us(3) };
    let mut ip = digits(s, n, 10, false);
    ip = ip.trim_start_matches('0').to_string();
    if ip.is_empty() {
        ip = "0".into();
    }
    let ips = seps(s, &ip);
    let (fp, fps) = if s.chance(5, 6) {
        let n = if long { 1 + s.us(25) } else { 1 + s.us(3) };
        let fp = digits(s, n, 10, false);
        let fps = seps(s, &fp);
        (fp, format!(".{}", fps))
    } else {
        (String::new(), String::new())
    };
    let (e, es) = if fp.is_empty() || s.chance(1, 3) {
        let n = match s.below(4) {
            0 => s.below(10),
            1 => s.below(40),
            2 => s.below(320),
            _ => s.below(30),
        };
        let ch = if s.coin() { 'e' } else { 'E' };
        let ds = if s.chance(1, 8) && n >= 10 { format!("{}_{}", n / 10, n % 10) } else { n.to_string() };
        match s.below(3) {
            0 => (n as i64, format!("{}{}", ch, ds)),
            1 => (-(n as i64), format!("{}-{}", ch, ds)),
            _ => (n as i64, format!("{}+{}", ch, ds)),
        }
    } else {
        (0, String::new())
    };
    let val = exact(&format!("{}{}", ip, fp), e - fp.len() as i64);
    (format!("{}{}{}", ips, fps, es), val)
}

/// The double nearest to digits * 10^exp, computed with exact integers.
pub fn exact(dig: &str, exp: i64) -> f64 {
    let d = BigUint::from_str_radix(dig, 10).unwrap();
    if d.is_zero() {
        return 0.0;
    }
    let (mut num, mut den) = (d, BigUint::one());
    if exp >= 0 {
        num *= BigUint::from(10u32).pow(exp as u32);
    } else {
        den *= BigUint::from(10u32).pow((-exp) as u32);
    }
    // scale so that 2^63 <= num/den < 2^65
    let shift = 64 - (num.bits() as i64 - den.bits() as i64);
    // value = num/den; q = floor(value * 2^shift)
    let (sn, sd) = if shift >= 0 { (num << shift as usize, den) } else { (num, den << (-shift) as usize) };
    let mut q = &sn / &sd;
    let rem = &sn % &sd;
    let mut e2 = -shift; // value = q * 2^e2 (plus remainder)
    let mut sticky = !rem.is_zero();
    // precision available (subnormals have less)
    let bits = q.bits() as i64;
    let top = bits + e2; // value < 2^top
    let prec = if top - 53 < -1074 { (top + 1074).max(0) } else { 53 };
    let drop = bits - prec;
    let mut half = false;
    if drop > 0 {
        let mask = (BigUint::one() << drop as usize) - BigUint::one();
        let low = &q & &mask;
        let h = BigUint::one() << (drop as usize - 1);
        half = low >= h;
        sticky |= if half { low != h } else { !low.is_zero() };
        q >>= drop as usize;
        e2 += drop;
    }
    if half && (sticky || q.bit(0)) {
        q += BigUint::one();
    }
    // q has at most 54 bits now
    let m = q.to_u64().unwrap() as f64;
    // two steps keep the scaling exact
    if e2 > 971 {
        if q.bits() as i64 + e2 > 1024 {
            return f64::INFINITY;
        }
    }
    let mut r = m;
    let mut k = e2;
    while k > 0 {
        let st = k.min(1000);
        r *= 2f64.powi(st as i32);
        k -= st;
    }
    while k < 0 {
        let st = (-k).min(1000);
        r *= 2f64.powi(-(st as i32));
        k += st;
    }
    r
}

// ---------------------------------------------------------------- text

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Val {
    pub bytes: Vec<u8>,
    /// a byte escape of 0x80 or more was used
    pub binary: bool,
}

impl Val {
    pub fn ch(&mut self, c: char) {
        let mut b = [0; 4];
        self.bytes.extend_from_slice(c.encode_utf8(&mut b).as_bytes());
    }
    pub fn text(&self) -> String {
        String::from_utf8(self.bytes.clone()).unwrap()
    }
    pub fn x(&self) -> X {
        if self.binary {
            X::n("bytes", vec![X::a(format!("{:02x?}", self.bytes))])
        } else {
            X::n("str", vec![X::a(qs(&self.text()))])
        }
    }
}

pub const UNI: &[char] = &[
    'é', 'ß', 'あ', '日', '本', '𝒳', '😀', '\u{a0}', '\u{3000}', '\u{200b}', 'Ω', 'я', '\u{301}', '\u{fffd}', '\u{2028}', '\u{85}', '\u{7f}', 'ｶ', '한', '\u{10ffff}', '\u{e000}',
];

pub const PLAIN: &[&str] = &[
    "a", "b", "z", "0", "7", " ", "A", "_", "f", "x", "e", "-", "+", ".", ",", ":", ";", "=", "!", "?", "@", "$", "&", "*", "|", "~", "^", "%", "{", "}", "(", ")", "[", "]", "<", ">", "/", "'", "\"", "`", "\t",
    "end", "if ", "n", "u", "#", "do", "<<A",
];

/// What ends a literal and which bracket nests in it.
#[derive(Clone, Copy, Debug)]
pub struct Delim {
    pub open: &'static str,
    pub close: char,
    pub nest: Option<char>,
}

pub struct Text {
    pub src: String,
    pub val: Val,
    /// characters that may not come next
    no_hex: bool,
    no_oct: bool,
    hash: bool,
    pub no_ident: bool,
}

impl Text {
    pub fn new() -> Text {
        Text { src: String::new(), val: Val::default(), no_hex: false, no_oct: false, hash: false, no_ident: false }
    }
    fn ok(&self, c: char) -> bool {
        !(self.no_hex && c.is_ascii_hexdigit()
            || self.no_oct && c.is_digit(8)
            || self.hash && "{@$".contains(c)
            || self.no_ident && (c.is_ascii_alphanumeric() || c == '_' || !c.is_ascii()))
    }
    fn clear(&mut self) {
        self.no_hex = false;
        self.no_oct = false;
        self.hash = false;
        self.no_ident = false;
    }
    fn raw(&mut self, c: char) {
        self.clear();
        self.src.push(c);
        self.val.ch(c);
    }
    fn esc(&mut self, src: &str, c: char) {
        self.clear();
        self.src.push_str(src);
        self.val.ch(c);
    }
}

#[derive(Clone, Copy)]
pub struct Opts {
    /// byte escapes of 0x80 and more
    pub bytes: bool,
    /// raw newlines
    pub nl: bool,
    /// "#{...}" is code here
    pub interp: bool,
    /// line continuation inside of the literal
    pub cont: bool,
}

/// One element of an escape-processing text.
pub fn dq_atom(s: &mut Src, t: &mut Text, d: Delim, o: Opts, depth: usize) {
    match s.weighted(&[10, 3, 8, 2, 2]) {
        0 => {
            let a = *s.pick(PLAIN);
            for c in a.chars() {
                plain(t, c, d, o);
            }
        }
        1 => {
            let c = *s.pick(UNI);
            if t.ok(c) {
                t.raw(c);
            }
        }
        2 => dq_escape(s, t, d, o),
        3 => {
            if o.nl {
                t.raw('\n');
            } else if t.ok(' ') {
                t.raw(' ');
            }
        }
        _ => {
            // balanced brackets
            match d.nest {
                Some(open) if depth < 3 => {
                    if !t.ok(open) {
                        return;
                    }
                    // rarely a deep nest
                    let n = if s.chance(1, 60) { 1 + s.below(300) as usize } else { 1 };
                    for _ in 0..n {
                        t.raw(open);
                    }
                    for _ in 0..s.len(4) {
                        dq_atom(s, t, d, o, depth + 1);
                    }
                    for _ in 0..n {
                        t.raw(d.close);
                    }
                }
                _ => {
                    if t.ok('q') {
                        t.raw('q')
                    }
                }
            }
        }
    }
}

fn plain(t: &mut Text, c: char, d: Delim, o: Opts) {
    if c == d.close || Some(c) == d.nest || c == '\\' || !t.ok(c) {
        // as an escape
        if c.is_ascii_punctuation() {
            t.esc(&format!("\\{}", c), c);
        }
        return;
    }
    t.raw(c);
    if c == '#' && o.interp {
        t.hash = true;
    }
}

fn dq_escape(s: &mut Src, t: &mut Text, d: Delim, o: Opts) {
    match s.below(9) {
        0 => {
            let (a, c) = *s.pick(&[
                ('n', '\n'),
                ('t', '\t'),
                ('r', '\r'),
                ('s', ' '),
                ('e', '\x1b'),
                ('a', '\x07'),
                ('b', '\x08'),
                ('f', '\x0c'),
                ('v', '\x0b'),
            ]);
            t.esc(&format!("\\{}", a), c);
        }
        1 => {
            let c = *s.pick(&['\\', '"', '\'', '#', '/', '{', '}', '(', ')', '[', ']', '<', '>', '|', '`', '!', '?', '.', '-', '@', '$', ' ']);
            t.esc(&format!("\\{}", c), c);
        }
        2 => {
            let c = *s.pick(&['d', 'g', 'h', 'i', 'j', 'k', 'l', 'm', 'o', 'p', 'q', 'w', 'y', 'z', 'A', 'B', 'D', 'E', 'N', 'S', 'U', 'Z', '8', '9', '_']);
            t.esc(&format!("\\{}", c), c);
        }
        3 => {
            let c = *s.pick(UNI);
            t.esc(&format!("\\{}", c), c);
        }
        4 => {
            // \x
            let max = if o.bytes { 256 } else { 128 };
            let v = s.below(max) as u8;
            let short = v < 16 && s.coin();
            let up = s.coin();
            let h = match (short, up) {
                (true, false) => format!("{:x}", v),
                (true, true) => format!("{:X}", v),
                (false, false) => format!("{:02x}", v),
                (false, true) => format!("{:02X}", v),
            };
            t.clear();
            t.src.push_str(&format!("\\x{}", h));
            t.val.bytes.push(v);
            if v >= 0x80 {
                t.val.binary = true;
            }
            t.no_hex = short;
        }
        5 => {
            // octal
            let max = if o.bytes { 256 } else { 128 };
            let v = s.below(max) as u8;
            let mut h = format!("{:o}", v);
            while h.len() < 3 && s.coin() {
                h.insert(0, '0');
            }
            t.clear();
            t.src.push_str(&format!("\\{}", h));
            t.val.bytes.push(v);
            if v >= 0x80 {
                t.val.binary = true;
            }
            t.no_oct = h.len() < 3;
        }
        6 => {
            let c = uchar(s, 0x10000);
            let up = s.coin();
            let h = if up { format!("{:04X}", c as u32) } else { format!("{:04x}", c as u32) };
            t.esc(&format!("\\u{}", h), c);
        }
        7 => {
            t.clear();
            let n = 1 + s.len(3);
            let mut h = vec![];
            for _ in 0..n {
                let c = uchar(s, 0x110000);
                let mut d = format!("{:x}", c as u32);
                while d.len() < 6 && s.chance(1, 3) {
                    d.insert(0, '0');
                }
                if s.coin() {
                    d = d.to_uppercase();
                }
                h.push(d);
                t.val.ch(c);
            }
            let sep = if s.chance(1, 4) { "  " } else { " " };
            t.src.push_str("\\u{");
            if s.chance(1, 5) {
                t.src.push(' ');
            }
            t.src.push_str(&h.join(sep));
            if s.chance(1, 5) {
                t.src.push(' ');
            }
            t.src.push('}');
        }
        _ => {
            if o.cont && o.nl {
                t.clear();
                t.src.push_str("\\\n");
            } else if d.close.is_ascii_punctuation() {
                t.esc(&format!("\\{}", d.close), d.close);
            } else {
                t.esc("\\\\", '\\');
            }
        }
    }
}

fn uchar(s: &mut Src, max: u64) -> char {
    let v = match s.below(4) {
        0 => s.below(0x80),
        1 => s.below(0x800),
        2 => s.below(0x10000.min(max)),
        _ => s.below(max),
    };
    char::from_u32(v as u32).unwrap_or('\u{d7ff}')
}

/// One element of a raw (single-quoted) text.
pub fn sq_atom(s: &mut Src, t: &mut Text, d: Delim, nl: bool, depth: usize) {
    match s.weighted(&[8, 3, 4, 2, 2]) {
        0 => {
            let a = *s.pick(PLAIN);
            for c in a.chars() {
                if c == d.close || Some(c) == d.nest {
                    t.esc(&format!("\\{}", c), c);
                } else {
                    t.raw(c);
                }
            }
        }
        1 => {
            let c = *s.pick(UNI);
            t.raw(c);
        }
        2 => match s.below(4) {
            0 => t.esc("\\\\", '\\'),
            1 => t.esc(&format!("\\{}", d.close), d.close),
            2 => match d.nest {
                Some(o) => t.esc(&format!("\\{}", o), o),
                None => t.esc("\\\\", '\\'),
            },
            _ => {
                // any other escape stands for itself
                let c = *s.pick(&['n', 'x', 'u', '0', '#', 'a', ' ', 'é', 's', '1', '.']);
                if c == d.close || Some(c) == d.nest {
                    return;
                }
                t.src.push('\\');
                t.val.ch('\\');
                t.raw(c);
            }
        },
        3 => {
            if nl {
                if s.chance(1, 4) {
                    // a backslash before a line break stands for itself
                    t.src.push('\\');
                    t.val.ch('\\');
                }
                t.raw('\n')
            } else {
                t.raw(' ')
            }
        }
        _ => match d.nest {
            Some(open) if depth < 3 => {
                let n = if s.chance(1, 60) { 1 + s.below(300) as usize } else { 1 };
                for _ in 0..n {
                    t.raw(open);
                }
                for _ in 0..s.len(4) {
                    sq_atom(s, t, d, nl, depth + 1);
                }
                for _ in 0..n {
                    t.raw(d.close);
                }
            }
            _ => {
                for c in "#{x}".chars() {
                    if c != d.close && Some(c) != d.nest {
                        t.raw(c);
                    }
                }
            }
        },
    }
}

pub const BRACKETS: &[(&str, char, char)] = &[("(", ')', '('), ("[", ']', '['), ("{", '}', '{'), ("<", '>', '<')];
pub const PLAIN_DELIMS: &[&str] = &["!", "=", "|", "/", "-", "^", "~", "+", "*", ",", ".", ":", ";", "?", "%", "&", "'", "\"", "`"];

#[cfg(test)]
mod test {
    use super::exact;
    #[test]
    fn nearest() {
        for t in ["1", "3", "12345678901234567890", "9007199254740993", "1797693134862315708", "4940656458412465", "2225073858507201", "5", "24703282292062327"] {
            for e in -345i64..320 {
                let r: f64 = format!("{}e{}", t, e).parse().unwrap();
                assert_eq!(r, exact(t, e), "{}e{}", t, e);
            }
        }
    }
}
