//! Statements, assignments, calls, definitions and control flow.
use super::*;

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Pk {
    Def,
    DefBare,
    Block,
    Lambda,
    LambdaBare,
}

const OPDEFS: &[&str] = &["+", "-", "*", "/", "%", "==", "===", "=~", "<=>", "<", "<=", ">", ">=", "<<", ">>", "&", "|", "[]", "[]=", "+@", "-@", "!="];
const ASGN_OPS: &[&str] = &["+=", "-=", "*=", "/=", "%=", "**=", "|=", "&=", "^=", "<<=", ">>=", "||=", "&&="];
/// methods called with an explicit receiver
const OPCALLS: &[&str] = &["+", "-", "*", "/", "%", "==", "<=>", "<", ">=", "<<", ">>", "&", "|", "^", "[]", "+@", "-@", "!=", "=~", "===", "**", "~", "!"];

impl<'a, 'b> G<'a, 'b> {
    /// Inside of brackets or a body that forgets the surrounding restrictions.
    fn bracket<R>(&mut self, f: impl FnOnce(&mut Self) -> R) -> R {
        let no_do = std::mem::replace(&mut self.no_do, false);
        let noneg = std::mem::replace(&mut self.noneg, false);
        let r = f(self);
        self.no_do = no_do;
        self.noneg = noneg;
        r
    }

    fn comma(&mut self) {
        let c = self.tg(Gap::Sp0, ",");
        self.opens_from(c);
        self.gap = self.nl0();
    }

    // ------------------------------------------------------------ assignments

    /// A target; a local variable is returned by name and declared later.
    fn target(&mut self, multi: bool) -> Result<X, (String, usize)> {
        let w_local = if self.can_declare() { 10 } else { 0 };
        let w_const = if self.in_method() || self.lead & CMD != 0 { 0 } else { 2 };
        self.open = false;
        match self.s.weighted(&[w_local, 3, 1, 2, w_const, 3, 3]) {
            0 => {
                let old = if self.s.chance(1, 3) { self.visible_name() } else { None };
                let n = match old {
                    Some(n) => n,
                    None => self.var_name(),
                };
                let i = self.t(&n);
                Err((n, i))
            }
            1 => {
                let n = self.ivar_name();
 let n: &str = &n;
                let i = self.t(n);
                Ok(X::n("ivar", vec![X::a(n)]).at((i, i)))
            }
            2 => {
                let n = self.cvar_name();
 let n: &str = &n;
                let i = self.t(n);
                Ok(X::n("cvar", vec![X::a(n)]).at((i, i)))
            }
            3 if self.s.chance(1, 12) => {
                let (t, v) = *self.s.pick(&[("$:", 10), ("$LOAD_PATH", 10), ("$\"", 11), ("$LOADED_FEATURES", 11)]);
                let i = self.t(t);
                Ok(X::n("svar", vec![X::a(v.to_string())]).at((i, i)))
            }
            3 => {
                let n = self.gvar_name();
 let n: &str = &n;
                let i = self.t(n);
                Ok(X::n("gvar", vec![X::a(n)]).at((i, i)))
            }
            4 => {
                if self.s.chance(1, 5) {
                    // scoped constant
                    let base = self.target_base();
                    return Ok(self.scope_const(base));
                }
                Ok(self.constant())
            }
            5 => {
                // index
                let base = self.target_base();
                Ok(self.index(base))
            }
            _ => {
                let base = self.target_base();
                let n = self.s.below(4);
                let safe = n == 3 && !multi;
                let (g, d) = if n == 2 { (Gap::No, "::") } else if safe { (Gap::Dot, "&.") } else { (Gap::Dot, ".") };
                let o = self.tg(g, d);
                self.opens_from(o);
                self.gap = if n == 2 { Gap::No } else { Gap::DotR };
                let m = if n == 2 {
                    self.s.pick_str(&["foo", "bar", "x", "é_x", "a1"])
                } else {
                    self.s.pick_str(&["foo", "bar", "x", "é_x", "a1", "Baz", "if", "end", "class", "self", "y"])
                };
                let i = self.tk(m, K::Sym);
                Ok(X::n(if safe { "call&" } else { "call" }, vec![base, X::a(qs(m)), Al::default().x()]).at((i, i)))
            }
        }
    }

    /// The expression in front of the last part of an index or attribute target.
    fn target_base(&mut self) -> X {
        if self.fuel > 0 && self.s.chance(1, 3) {
            self.fuel -= 1;
            let noneg = std::mem::replace(&mut self.noneg, true);
            let start = self.next();
            let x = self.base();
            self.noneg = noneg;
            let n = self.s.len(1);
            self.suffixes(start, x, n, true)
        } else {
            match self.s.below(4) {
                0 => {
                    let i = self.t("self");
                    X::a("self").at((i, i))
                }
                1 => {
                    let n = self.ivar_name();
 let n: &str = &n;
                    let i = self.t(n);
                    X::n("ivar", vec![X::a(n)]).at((i, i))
                }
                _ => self.ident(),
            }
        }
    }

    fn resolve_target(&mut self, t: Result<X, (String, usize)>) -> X {
        match t {
            Ok(x) => x,
            Err((n, i)) => {
                self.feat("asgn_local");
                lv(self.declare(&n), &n).at((i, i))
            }
        }
    }

    /// target OP= and the tree with a hole for the value
    fn asgn_op(&mut self, lhs: &X) -> Option<&'static str> {
        let _ = lhs;
        if self.s.chance(1, 3) {
            let op = *self.s.pick(ASGN_OPS);
            self.feat("op_asgn");
            let o = self.tg(Gap::Sp0, op);
            self.opens_from(o);
            self.gap = self.nl0();
            Some(op)
        } else {
            let o = self.tg(Gap::Sp0, "=");
            self.opens_from(o);
            self.gap = self.nl0();
            None
        }
    }

    fn asgn_x(op: Option<&str>, lhs: X, rhs: Vec<X>) -> X {
        match op {
            None => asgn(vec![lhs], rhs),
            Some(op @ ("||=" | "&&=")) => X::n(&op[..2], vec![lhs.clone(), asgn(vec![lhs], rhs)]),
            Some(op) => {
                let mut rhs = rhs;
                X::n(op, vec![lhs, rhs.remove(0)])
            }
        }
    }

    fn rescue_tail(&mut self, v: X) -> X {
        let o = self.tg(Gap::Sp1, "rescue");
        self.opens_from(o);
        self.gap = if self.in_body { Gap::Sp1 } else { Gap::Nl1 };
        self.feat("asgn_rescue");
        let r = self.arg(true);
        begin(v, vec![rescue(vec![], None, r)], None, None)
    }

    pub(super) fn assign_expr(&mut self, _stmt: bool) -> X {
        self.feat("assign");
        let t = self.target(false);
        let lhs = self.resolve_target(t);
        let op = self.asgn_op(&lhs);
        let mut v = self.arg(true);
        if !self.open && self.s.chance(1, 12) && v.tag != "return" {
            v = self.rescue_tail(v);
        }
        self.open = true;
        Self::asgn_x(op, lhs, vec![v])
    }

    pub(super) fn assign_stmt(&mut self) -> X {
        self.feat("assign");
        if self.s.chance(1, 4) && self.can_declare() {
            return self.multi_assign();
        }
        let t = self.target(false);
        let lhs = self.resolve_target(t);
        let op = self.asgn_op(&lhs);
        let mut list = false;
        let mut v = match self.s.weighted(&[8, 3, if op.is_none() { 4 } else { 0 }]) {
            0 => vec![self.arg(true)],
            1 => vec![self.command(true)],
            _ => {
                list = true;
                self.rhs_list(false)
            }
        };
        if !list && !self.open && self.s.chance(1, 8) {
            let x = v.remove(0);
            v.push(self.rescue_tail(x));
        }
        self.open = true;
        Self::asgn_x(op, lhs, v)
    }

    /// several or splatted values
    fn rhs_list(&mut self, multi: bool) -> Vec<X> {
        let x = self.mrhs();
        // one target, or an unknown number of values: an array
        let elems = &x.kids[0].kids;
        if !multi || elems.iter().any(|e| e.tag == "splat") {
            vec![x]
        } else {
            elems.clone()
        }
    }

    fn multi_assign(&mut self) -> X {
        self.feat("masgn");
        let n = 1 + self.s.len(4);
        let splat = if n == 1 || self.s.chance(1, 3) { Some(self.s.us(n)) } else { None };
        let trailing = n == 1 && splat != Some(0) || splat.is_none() && self.s.chance(1, 8);
        let splat = if n == 1 && self.s.coin() { None } else { splat };
        let trailing = trailing || (n == 1 && splat.is_none());
        // names that are targets here are not used inside of other targets
        let saved = self.avoid.clone();
        self.avoid = VARS.iter().filter(|v| self.lookup(v).is_none()).map(|v| v.to_string()).collect();
        let (gap, lead) = (self.gap, self.lead);
        let mut ts = vec![];
        for i in 0..n {
            if i == 0 {
                self.gap = gap;
                self.lead = lead;
            } else {
                self.comma();
            }
            let sp = splat == Some(i);
            if sp {
                let o = self.t("*");
                self.opens_from(o);
                self.gap = Gap::Tight;
                self.feat("msplat");
            }
            let t = self.target(true);
            ts.push((sp, t));
        }
        if trailing {
            self.tg(Gap::Sp0, ",");
        }
        self.avoid = saved;
        let o = self.tg(Gap::Sp0, "=");
        self.opens_from(o);
        self.gap = self.nl0();
        let mut lhs = vec![];
        for (sp, t) in ts {
            let x = self.resolve_target(t);
            lhs.push(if sp { X::n("splat", vec![x]) } else { x });
        }
        if trailing {
            lhs.push(X::a("discard"));
        }
        let mut list = false;
        let mut v = match self.s.weighted(&[6, 2, 6]) {
            0 => vec![self.arg(true)],
            1 => vec![self.command(true)],
            _ => {
                list = true;
                self.rhs_list(lhs.len() > 1)
            }
        };
        if !list && !self.open && self.s.chance(1, 10) {
            let x = v.remove(0);
            v.push(self.rescue_tail(x));
        }
        self.open = true;
        asgn(lhs, v)
    }

    // ------------------------------------------------------------ collections

    pub(super) fn array(&mut self) -> X {
        self.feat("array");
        let o = self.t("[");
        let v = self.bracket(|g| {
            g.gap = g.nl0();
            g.elements(6, true)
        });
        let c = self.tg(self.nl0(), "]");
        self.opens.push((o, c));
        self.open = false;
        arr(v)
    }

    /// comma separated values with splats; trailing comma
    fn elements(&mut self, max: usize, trailing: bool) -> Vec<X> {
        let n = self.s.len(max);
        let mut v = vec![];
        let first = self.gap;
        for i in 0..n {
            if i > 0 {
                self.comma();
            } else {
                self.gap = first;
            }
            if self.s.chance(1, 8) {
                let o = self.t("*");
                self.opens_from(o);
                self.gap = Gap::Tight;
                let x = self.expr(Lv::Tern, true);
                v.push(X::n("splat", vec![x]));
            } else {
                v.push(self.arg(true));
            }
        }
        if n > 0 && trailing && self.s.chance(1, 8) {
            self.tg(Gap::Sp0, ",");
            self.feat("trailing_comma");
        }
        v
    }

    fn label(&mut self) -> String {
        let n = match self.s.below(6) {
            0 => self.s.pick_str(RESERVED).to_string(),
            1 => self.const_name(),
            2 => format!("{}{}", self.var_name(), self.s.pick_str(&["?", "!"])),
            3 => {
                // quoted
                let d = self.s.coin();
                let q = if d { "\"" } else { "'" };
                let t = self.s.pick_str(&["a", "a b", "if", "é", "1", "x-y", "A", "a:b", ":", "#"]);
                self.t(&format!("{}{}{}:", q, t, q));
                self.feat("quoted_label");
                return t.to_string();
            }
            _ => self.var_name(),
        };
        self.t(&format!("{}:", n));
        n
    }

    pub(super) fn hash(&mut self) -> X {
        self.feat("hash");
        let o = self.t("{");
        let n = self.s.len(5);
        let v = self.bracket(|g| {
            let mut v = vec![];
            for i in 0..n {
                if i > 0 {
                    g.comma();
                } else {
                    g.gap = g.nl0();
                }
                if g.s.coin() {
                    let k = g.label();
                    let l = g.last();
                    g.opens_from(l);
                    g.gap = g.nl0();
                    let x = g.arg(true);
                    v.push((sym(&k), x));
                } else {
                    let k = g.expr(Lv::Tern, false);
                    let o = g.tg(Gap::Sp0, "=>");
                    g.opens_from(o);
                    g.gap = g.nl0();
                    let x = g.arg(true);
                    v.push((k, x));
                }
            }
            if n > 0 && g.s.chance(1, 6) {
                g.tg(Gap::Sp0, ",");
                g.feat("trailing_comma");
            }
            v
        });
        let c = self.tg(self.nl0(), "}");
        self.opens.push((o, c));
        self.open = false;
        hash(v)
    }

    // ------------------------------------------------------------ calls

    /// Arguments. The gap (and lead) of the first one is set by the caller.
    fn args(&mut self, paren: bool, min: usize) -> Al {
        let mut al = Al::default();
        let noblk = std::mem::replace(&mut self.noblk, false);
        let max = if matches!(self.cfg.focus, F::Call | F::Cmd) { 4 } else { 3 };
        let mut n = min + self.s.len(max - min);
        let mut first = true;
        let (gap, lead) = (self.gap, self.lead);
        macro_rules! sep {
            () => {
                if first {
                    first = false;
                    self.gap = gap;
                    self.lead = lead;
                } else {
                    self.comma();
                }
            };
        }
        let fwd = self.can_forward() && paren && self.s.chance(1, 4);
        // positional part
        let npos = if n == 0 { 0 } else { self.s.us(n + 1).max(if n == 1 { self.s.us(2) } else { 0 }) };
        for _ in 0..npos {
            n -= 1;
            sep!();
            if self.s.chance(1, 8) {
                let o = self.t("*");
                self.opens_from(o);
                self.gap = Gap::Tight;
                let x = self.expr(Lv::Tern, false);
                al.args.push(X::n("splat", vec![x]));
                al.splat = true;
                self.feat("splat");
            } else {
                al.args.push(self.arg(true));
            }
        }
        if fwd {
            sep!();
            self.t("...");
            al.fwd = true;
            self.feat("fwd");
            self.open = false;
            return al;
        }
        // keywords or pairs
        let pairs = n > 0 && self.s.chance(1, 4);
        if pairs {
            let mut v = vec![];
            for _ in 0..n {
                sep!();
                let k = self.expr(Lv::Tern, false);
                let o = self.tg(Gap::Sp0, "=>");
                self.opens_from(o);
                self.gap = self.nl0();
                let x = self.arg(true);
                v.push((k, x));
            }
            al.args.push(hash(v));
            self.feat("pair_args");
        } else {
            for _ in 0..n {
                let f = first && !paren;
                sep!();
                if self.s.chance(1, 6) {
                    let o = self.t("**");
                    self.opens_from(o);
                    self.gap = Gap::Tight;
                    let x = self.expr(Lv::Tern, false);
                    al.ds.push(x);
                    self.feat("dsplat");
                } else {
                    let k = self.label();
                    let l = self.last();
                    self.opens_from(l);
                    self.gap = self.nl0();
                    let x = self.arg(true);
                    al.kw.push((k, x));
                    self.feat("kwarg");
                }
            }
        }
        // block argument
        if self.s.chance(1, 10) && (paren || !first) && !noblk {
            sep!();
            let o = self.t("&");
            self.opens_from(o);
            self.gap = Gap::Tight;
            let x = self.expr(Lv::Tern, false);
            al.blk = Some(x);
            self.feat("block_arg");
        } else if paren && !first && self.s.chance(1, 10) {
            self.tg(Gap::Sp0, ",");
            self.feat("trailing_comma");
        }
        al
    }

    /// "(" ARGS ")" directly after a name
    fn paren_args(&mut self, g: Gap) -> Al {
        let o = self.tg(g, "(");
        let al = self.bracket(|g| {
            g.gap = g.nl0();
            g.args(true, 0)
        });
        let c = self.tg(self.nl0(), ")");
        self.opens.push((o, c));
        self.open = false;
        al
    }

    fn block_scope(&mut self, brace: bool) -> X {
        self.feat("block");
        let in_loop = std::mem::replace(&mut self.in_loop, true);
        self.push(Sk::Block);
        let mut ps = vec![];
        let mut piped = false;
        if self.s.chance(1, if matches!(self.cfg.focus, F::Param | F::Scope) { 2 } else { 3 }) || self.is(F::Param) {
            self.tg(self.nl0(), "|");
            self.gap = Gap::Sp0;
            ps = self.params(Pk::Block);
            self.tg(Gap::Sp0, "|");
            piped = true;
        } else if self.s.chance(1, 12) {
            self.tg(self.nl0(), "||");
            piped = true;
        }
        let first = if piped {
            *self.s.pick(&[Gap::Nl0, Gap::Term])
        } else if brace {
            Gap::Nl0
        } else {
            Gap::Nl1
        };
        let first = if first == Gap::Nl0 { self.nl0() } else if first == Gap::Nl1 && self.in_body { Gap::Sp1 } else { first };
        let body = if brace { self.bracket(|g| g.body(first, 0)) } else { self.bracket(|g| g.body_rescue(first, 0)) };
        self.in_loop = in_loop;
        self.pop_info(ps, body)
    }

    fn brace_block(&mut self) -> X {
        let o = self.tg(Gap::Sp0, "{");
        let x = self.block_scope(true);
        let c = self.t("}");
        self.opens.push((o, c));
        self.open = false;
        let x = X::n("lambda", vec![x]);
        self.ext(o, x)
    }

    fn do_block(&mut self) -> X {
        let o = self.tg(Gap::Sp1, "do");
        self.feat("do_block");
        let x = self.block_scope(false);
        let c = self.t("end");
        self.opens.push((o, c));
        self.open = false;
        let x = X::n("lambda", vec![x]);
        self.ext(o, x)
    }

    /// perhaps a block after a call
    fn maybe_block(&mut self, al: &mut Al, num: u64, den: u64) {
        if al.blk.is_some() || al.fwd || self.fuel <= 0 || !self.s.chance(num, den) {
            return;
        }
        self.fuel -= 1;
        al.blk = Some(if self.no_do || self.s.coin() { self.brace_block() } else { self.do_block() });
    }

    fn func_name(&mut self) -> String {
        if self.s.chance(1, 4) {
            self.var_name()
        } else if self.s.chance(1, 8) {
            self.const_name()
        } else {
            self.cmd_name()
        }
    }

    fn fcall_x(name: &str, al: Al) -> X {
        if al.is_empty() {
            ident(name)
        } else {
            X::n("fcall", vec![X::a(qs(name)), al.x()])
        }
    }

    /// a primary that is not a bare number
    fn base(&mut self) -> X {
        let a = self.next();
        let x = self.base0();
        self.ext(a, x)
    }

    fn base0(&mut self) -> X {
        self.open = false;
        let cmd = self.lead & CMD != 0;
        let strict = self.lead & (CMD | STMT) != 0;
        let w_meth = if self.in_method() { 2 } else { 0 };
        let k = self.s.weighted(&[8, 6, 3, 3, 2, 2, if strict { 0 } else { 2 }, w_meth, w_meth, if cmd { 0 } else { 1 }, 2]);
        match k {
            0 => self.name(),
            1 => {
                // foo(...)
                let n = self.func_name();
 let n: &str = &n;
                let i = self.t(n);
                let mut al = self.paren_args(Gap::No);
                self.maybe_block(&mut al, 1, 5);
                self.feat("fcall");
                Self::fcall_x(n, al).at((i, i))
            }
            2 => {
                // foo { }
                let n = self.cmd_name();
 let n: &str = &n;
                let i = self.t(n);
                let mut al = Al::default();
                self.maybe_block(&mut al, 1, 1);
                self.open = false;
                Self::fcall_x(n, al).at((i, i))
            }
            3 => self.paren(),
            4 => self.array(),
            5 => self.string(),
            6 => self.flow(),
            7 => {
                // yield
                self.feat("yield");
                self.t("yield");
                self.noblk = true;
                let al = if self.s.coin() { self.paren_args(Gap::No) } else { Al::default() };
                self.noblk = false;
                X::n("yield", vec![al.x()])
            }
            8 => {
                self.feat("super");
                self.t("super");
                if self.s.coin() {
                    let mut al = self.paren_args(Gap::No);
                    self.maybe_block(&mut al, 1, 5);
                    X::n("super", vec![al.x()])
                } else {
                    X::a("zsuper")
                }
            }
            9 => self.lambda(),
            _ => {
                if self.lead & NODIGIT != 0 {
                    self.symbol()
                } else {
                    self.number()
                }
            }
        }
    }

    fn index(&mut self, base: X) -> X {
        let o = self.tg(Gap::No, "[");
        let v = self.bracket(|g| {
            g.gap = g.nl0();
            g.elements(3, true)
        });
        let c = self.tg(self.nl0(), "]");
        self.opens.push((o, c));
        self.open = false;
        self.feat("index");
        X::n("index", vec![base, X::n("idx", v)]).at((o, c))
    }

    fn scope_const(&mut self, base: X) -> X {
        self.tg(Gap::No, "::");
        let o = self.last();
        self.opens_from(o);
        self.gap = Gap::No;
        let n = self.const_name();
 let n: &str = &n;
        self.t(n);
        if base.tag == "const" {
            let mut k = base.kids;
            let p = format!("{}::{}", k[2].tag, n);
            k[2] = X::a(p);
            X::n("const", k)
        } else {
            konst(false, Some(base), n)
        }
    }

    fn meth_name(&mut self) -> String {
        match self.s.below(10) {
            0 => self.s.pick_str(RESERVED).to_string(),
            1 => self.var_name(),
            2 => self.const_name(),
            _ => self.method_name(),
        }
    }

    fn suffixes(&mut self, start: usize, mut x: X, n: usize, no_block_end: bool) -> X {
        for i in 0..n {
            let last = i + 1 == n;
            // "[" directly after yield or super would be an argument for a reader
            let bare = matches!(x.tag.as_str(), "zsuper") || x.tag == "yield" && x.kids[0].kids.iter().all(|k| k.kids.is_empty());
            let k = self.s.weighted(&[10, if bare { 0 } else { 4 }, 2, 2, 2, 1, 1]);
            self.feat("chain");
            x = match k {
                0 | 2 => {
                    let safe = k == 2;
                    let o = if safe {
                        self.feat("safe_nav");
                        self.tg(Gap::Dot, "&.")
                    } else {
                        self.tg(Gap::Dot, ".")
                    };
                    self.opens_from(o);
                    self.gap = Gap::DotR;
                    let n = self.meth_name();
                    self.tk(&n, K::Sym);
                    self.call_tail(x, &n, safe, last && no_block_end)
                }
                1 => self.index(x),
                3 => {
                    // ::method
                    let o = self.tg(Gap::No, "::");
                    self.opens_from(o);
                    self.gap = Gap::No;
                    if self.s.coin() {
                        let n = self.s.pick_str(&["foo", "bar", "x", "size", "empty?", "save!"]);
                        self.tk(n, K::Sym);
                        self.call_tail(x, n, false, last && no_block_end)
                    } else {
                        let n = self.const_name();
 let n: &str = &n;
                        let i = self.tk(n, K::Sym);
                        let mut al = self.paren_args(Gap::No);
                        if !(last && no_block_end) {
                            self.maybe_block(&mut al, 1, 6);
                        }
                        call(x, n, al).at((i, i))
                    }
                }
                4 => self.scope_const(x),
                5 => {
                    // .()
                    let k = self.s.below(4);
                    let o = match k {
                        0 | 1 => self.tg(Gap::Dot, "."),
                        2 => self.tg(Gap::Dot, "&."),
                        _ => self.tg(Gap::No, "::"),
                    };
                    self.opens_from(o);
                    let g = if k != 3 && self.s.chance(1, 3) { Gap::DotR } else { Gap::No };
                    let mut al = self.paren_args(g);
                    if !(last && no_block_end) {
                        self.maybe_block(&mut al, 1, 6);
                    }
                    self.feat("dot_call");
                    X::n(if k == 2 { "call&" } else { "call" }, vec![x, X::a(qs("call")), al.x()]).at((o, o))
                }
                _ => {
                    // .+(1)
                    let safe = self.s.chance(1, 4);
                    let o = self.tg(Gap::Dot, if safe { "&." } else { "." });
                    self.opens_from(o);
                    self.gap = Gap::DotR;
                    let n = self.s.pick_str(OPCALLS);
                    let i = self.tk(n, K::Sym);
                    let mut al = self.paren_args(Gap::No);
                    if !(last && no_block_end) {
                        self.maybe_block(&mut al, 1, 6);
                    }
                    self.feat("op_call");
                    X::n(if safe { "call&" } else { "call" }, vec![x, X::a(qs(n)), al.x()]).at((i, i))
                }
            };
            self.open = false;
            x = self.ext(start, x);
        }
        x
    }

    fn call_tail(&mut self, x: X, n: &str, safe: bool, no_block: bool) -> X {
        let i = self.last();
        let mut al = if self.s.coin() { self.paren_args(Gap::No) } else { Al::default() };
        if !no_block {
            self.maybe_block(&mut al, 1, 5);
        }
        X::n(if safe { "call&" } else { "call" }, vec![x, X::a(qs(n)), al.x()]).at((i, i))
    }

    pub(super) fn chain(&mut self) -> X {
        let start = self.next();
        let x = self.base();
        let n = 1 + self.s.len(3);
        let x = self.suffixes(start, x, n, false);
        self.open = false;
        x
    }

    /// An expression that begins like nothing that could continue an expression.
    fn clear_arg(&mut self) -> X {
        let a = self.next();
        let x = match self.s.below(14) {
            0 | 1 => self.name(),
            2 => {
                self.noneg = true;
                let x = self.number();
                self.noneg = false;
                x
            }
            3 => self.string_plain(),
            4 => {
                let i = self.t("`ls`");
                X::n("cmd", vec![X::n("str", vec![X::a(qs("ls"))])]).at((i, i))
            }
            5 => self.lambda(),
            6 | 7 => {
                let not = self.s.coin();
                let o = self.t(if not { "!" } else { "~" });
                self.opens_from(o);
                self.gap = Gap::Tight;
                let x = self.expr(Lv::Post, false);
                X::n(if not { "u!" } else { "u~" }, vec![x])
            }
            8 => {
                let o = self.t("defined?");
                self.opens_from(o);
                self.gap = Gap::Sp1;
                let x = self.name();
                X::n("defined", vec![x])
            }
            9 => self.begin_expr(),
            10 => self.case_expr(),
            11 if self.in_method() => {
                self.t("yield");
                self.noblk = true;
                let al = self.paren_args(Gap::No);
                self.noblk = false;
                X::n("yield", vec![al.x()])
            }
            12 if self.in_method() => {
                self.t("super");
                X::n("super", vec![self.paren_args(Gap::No).x()])
            }
            _ => self.gvar(),
        };
        self.open = false;
        self.ext(a, x)
    }

    fn string_plain(&mut self) -> X {
        let a = self.next();
        let v = self.s.pick_str(&["", "a", "x y", "é"]);
        let q = if self.s.coin() { '"' } else { '\'' };
        self.t(&format!("{}{}{}", q, v, q));
        self.ext(a, X::n("str", vec![X::a(qs(v))]))
    }

    /// NAME ARGS without parentheses
    pub(super) fn command(&mut self, top: bool) -> X {
        let a = self.next();
        let x = self.command0(top);
        self.ext(a, x)
    }

    fn command0(&mut self, top: bool) -> X {
        self.feat("command");
        self.open = false;
        let first = self.next();
        let do_ok = top && !self.no_do;
        let w_meth = if self.in_method() { 3 } else { 0 };
        let kind = self.s.weighted(&[10, 4, w_meth, w_meth, 1]);
        let mut recv = None;
        let mut name = String::new();
        let mut safe = false;
        let mut var = false;
        match kind {
            0 => {
                let v = if self.s.chance(1, 6) { self.visible_name() } else { None };
                match v {
                    Some(v) if v != "..." => {
                        name = v;
                        var = true;
                    }
                    _ => name = self.cmd_name(),
                }
                self.t(&name);
            }
            1 => {
                let start = self.next();
                let b = self.base();
                let n = self.s.len(2);
                let b = self.suffixes(start, b, n, false);
                safe = self.s.chance(1, 8);
                let o = if safe { self.tg(Gap::Dot, "&.") } else { self.tg(Gap::Dot, ".") };
                self.opens_from(o);
                self.gap = Gap::DotR;
                name = if self.s.chance(1, 8) { self.s.pick_str(RESERVED).to_string() } else { self.method_name() };
                self.tk(&name, K::Sym);
                recv = Some(b);
            }
            2 => {
                self.t("yield");
                self.feat("yield");
            }
            3 => {
                self.t("super");
                self.feat("super");
            }
            _ => {
                name = self.s.pick_str(&["Integer", "Foo", "Zé", "If"]).to_string();
                self.t(&name);
            }
        }
        let i = self.last();
        let no_do = std::mem::replace(&mut self.no_do, true);
        self.gap = Gap::Sp1;
        self.lead = CMD;
        let i0 = self.next();
        let mut al = Al::default();
        let nested = self.fuel > 0 && self.s.chance(1, 10);
        if var {
            // what can only be an argument
            self.feat("variable_command");
            self.fuel -= 1;
            let x = self.clear_arg();
            al.args.push(x);
            for _ in 0..self.s.len(1) {
                let c = self.tg(Gap::Sp0, ",");
                self.opens_from(c);
                self.gap = self.nl0();
                let x = self.arg(false);
                al.args.push(x);
            }
        } else if nested {
            self.fuel -= 1;
            self.feat("nested_command");
            let x = if self.s.chance(1, 3) && !self.in_method() && kind == 0 {
                self.def_method()
            } else {
                self.command(false)
            };
            al.args.push(x);
        } else {
            self.noblk = kind == 2;
            al = self.args(false, 1);
        }
        // strings and variables can follow directly
        if !var && self.toks[i0].text.starts_with(&['"', '\'', '`', '@', '$'][..]) && self.s.chance(1, 4) {
            self.toks[i0].gap = Gap::Tight;
            self.feat("command_no_space");
        }
        self.no_do = no_do;
        let mut had_do = false;
        if do_ok && kind != 2 && al.blk.is_none() && self.fuel > 0 && self.s.chance(1, if self.is(F::Cmd) { 3 } else { 6 }) {
            self.fuel -= 1;
            al.blk = Some(self.do_block());
            self.feat("command_do");
            had_do = true;
        }
        let mut x = match (kind, recv) {
            (2, _) => X::n("yield", vec![al.x()]),
            (3, _) => X::n("super", vec![al.x()]),
            (_, Some(r)) => X::n(if safe { "call&" } else { "call" }, vec![r, X::a(qs(&name)), al.x()]).at((i, i)),
            _ => Self::fcall_x(&name, al).at((i, i)),
        };
        if had_do && self.s.chance(1, 4) {
            x = self.ext(first, x);
            self.tg(Gap::Dot, ".");
            let o = self.last();
            self.opens_from(o);
            self.gap = Gap::DotR;
            let n = self.method_name();
 let n: &str = &n;
            let i = self.tk(n, K::Sym);
            let al = if self.s.coin() { self.paren_args(Gap::No) } else { Al::default() };
            x = call(x, n, al).at((i, i));
            self.open = false;
        }
        x
    }

    // ------------------------------------------------------------ parameters

    /// Comma separated parameters, declared in the innermost scope.
    pub(super) fn params(&mut self, pk: Pk) -> Vec<X> {
        self.feat("params");
        let cur = self.scopes.len() - 1;
        let saved = (self.no_decl, self.no_here);
        self.no_decl = Some(cur);
        self.no_here = true;
        let mut out = vec![];
        let mut first = true;
        let mut pstart = self.next();
        let gap = self.gap;
        let bare = matches!(pk, Pk::LambdaBare);
        let big = if self.is(F::Param) { 4 } else { 2 };
        macro_rules! sep {
            () => {
                if first {
                    first = false;
                    self.gap = gap;
                } else {
                    self.comma();
                }
                pstart = self.next();
            };
        }
        macro_rules! add {
            ($x: expr) => {{
                let x = self.ext(pstart, $x);
                out.push(x);
            }};
        }
        macro_rules! name {
            () => {{
                let n = self.fresh_param();
                self.scopes[cur].vars.push(n.clone());
                n
            }};
        }
        let nreq = self.s.len(big);
        for _ in 0..nreq {
            sep!();
            if !bare && self.s.chance(1, 6) && pk != Pk::DefBare {
                let o = self.t("(");
                let k = 1 + self.s.len(2);
                let mut v = vec![];
                for i in 0..k {
                    if i > 0 {
                        self.comma();
                    } else {
                        self.gap = self.nl0();
                    }
                    let n = name!();
                    let t = self.t(&n);
                    v.push(X::a(n).at((t, t)));
                }
                if self.s.chance(1, 5) {
                    self.tg(Gap::Sp0, ",");
                }
                let c = self.tg(self.nl0(), ")");
                self.opens.push((o, c));
                add!(X::n("destruct", v));
                self.feat("destruct");
            } else {
                let n = name!();
                self.t(&n);
                add!(X::n("req", vec![X::a(n)]));
            }
        }
        let mut post_ok = false;
        let nopt = if pk == Pk::Def && self.s.chance(1, 8) { 0 } else { self.s.len(big) };
        if pk == Pk::Def && self.s.chance(1, 8) {
            sep!();
            self.t("...");
            self.scopes[cur].vars.push("...".into());
            self.scopes[cur].fwd = true;
            add!(X::a("delegate"));
            self.feat("delegate");
            self.no_decl = saved.0;
            self.no_here = saved.1;
            return out;
        }
        for _ in 0..nopt {
            sep!();
            let n = name!();
            self.t(&n);
            let o = self.tg(Gap::Sp0, "=");
            self.opens_from(o);
            self.gap = Gap::Sp0;
            let d = self.default(pk);
            add!(X::n("opt", vec![X::a(n), d]));
            post_ok = true;
            self.feat("opt_param");
        }
        if self.s.chance(1, 3) {
            sep!();
            self.t("*");
            let l = self.last();
            self.opens_from(l);
            if self.s.chance(1, 5) {
                add!(X::n("rest", vec![X::a("-")]));
            } else {
                let n = name!();
                self.tg(Gap::Tight, &n);
                add!(X::n("rest", vec![X::a(n)]));
            }
            post_ok = true;
            self.feat("rest_param");
        }
        if post_ok {
            for _ in 0..self.s.len(big) {
                sep!();
                let n = name!();
                self.t(&n);
                add!(X::n("post", vec![X::a(n)]));
                self.feat("post_param");
            }
        }
        let nkey = if self.s.chance(1, 2) { self.s.len(big) } else { 0 };
        for i in 0..nkey {
            sep!();
            let n = name!();
            self.scopes[cur].kws.push(n.clone());
            self.t(&format!("{}:", n));
            let last = i + 1 == nkey;
            let d = if self.s.chance(1, 3) {
                X::a("none")
            } else {
                self.gap = Gap::Sp0;
                if pk == Pk::Block {
                    self.default(Pk::Block)
                } else {
                    self.default(pk)
                }
            };
            add!(X::n("key", vec![X::a(n), d]));
            self.feat("key_param");
        }
        if self.s.chance(1, 5) {
            sep!();
            self.t("**");
            let l = self.last();
            self.opens_from(l);
            let n = name!();
            self.scopes[cur].kwrest = Some(n.clone());
            self.tg(Gap::Tight, &n);
            add!(X::n("kwrest", vec![X::a(n)]));
            self.feat("kwrest_param");
        }
        if self.s.chance(1, 5) {
            sep!();
            self.t("&");
            let l = self.last();
            self.opens_from(l);
            let n = name!();
            self.scopes[cur].blk = Some(n.clone());
            self.tg(Gap::Tight, &n);
            add!(X::n("blockparam", vec![X::a(n)]));
            self.feat("block_param");
        } else if pk == Pk::Block && out.len() == nreq && nreq > 0 && self.s.chance(1, 6) {
            // |a, |
            self.tg(Gap::Sp0, ",");
            self.feat("trailing_param_comma");
        }
        if out.is_empty() && matches!(pk, Pk::Block | Pk::DefBare | Pk::LambdaBare) {
            sep!();
            let n = name!();
            self.t(&n);
            add!(X::n("req", vec![X::a(n)]));
        }
        if pk == Pk::DefBare && out.last().map_or(false, |x| x.tag == "rest" && x.kids[0].tag == "-") {
            sep!();
            let n = name!();
            self.t(&n);
            add!(X::n("post", vec![X::a(n)]));
        }
        let _ = (first, pstart);
        self.no_decl = saved.0;
        self.no_here = saved.1;
        self.lead = 0;
        out
    }

    fn fresh_param(&mut self) -> String {
        let old = if self.s.chance(1, 4) { self.visible_name() } else { None };
        let n = match old {
            Some(n) => n,
            None => self.var_name(),
        };
        let sc = self.scopes.last().unwrap();
        if !sc.vars.contains(&n) {
            return n;
        }
        let start = self.s.us(VARS.len());
        for k in 0..VARS.len() {
            let n = VARS[(start + k) % VARS.len()];
            if !sc.vars.iter().any(|v| v == n) {
                return n.to_string();
            }
        }
        format!("p{}", sc.vars.len())
    }

    fn default(&mut self, pk: Pk) -> X {
        let old = (self.no_do, self.noneg, self.no_decl);
        self.no_do = true;
        self.noneg = false;
        if self.s.chance(1, 3) {
            // it may assign variables
            self.no_decl = None;
        }
        let nvars = self.scopes.last().unwrap().vars.len();
        let x = match pk {
            // a brace behind a name would be its block
            Pk::LambdaBare => match self.s.below(4) {
                0 | 1 => self.number(),
                2 => self.paren(),
                _ => {
                    let n = self.s.pick_str(&["nil", "true", "self", "false"]);
                    self.t(n);
                    X::a(n)
                }
            },
            Pk::Block => match self.s.below(6) {
                5 => self.paren(),
                0 => self.ident(),
                1 => self.number(),
                2 => {
                    let n = self.s.pick_str(&["nil", "true", "self", "false"]);
                    self.t(n);
                    X::a(n)
                }
                3 => self.atom(),
                _ => self.chain(),
            },
            Pk::Def => self.expr(Lv::Tern, false),
            // the next line must not be taken as a continuation
            _ => self.expr(Lv::Lor, false),
        };
        self.no_do = old.0;
        self.noneg = old.1;
        self.no_decl = old.2;
        if self.scopes.last().unwrap().vars.len() > nvars {
            self.feat("assigning_default");
        }
        self.open = false;
        x
    }

    pub(super) fn lambda(&mut self) -> X {
        self.feat("lambda");
        let o = self.t("->");
        let in_loop = std::mem::replace(&mut self.in_loop, true);
        self.push(Sk::Block);
        let ps = match self.s.below(4) {
            0 | 1 => vec![],
            2 => {
                let a = self.tg(Gap::Sp0, "(");
                self.gap = self.nl0();
                let p = self.bracket(|g| g.params(Pk::Lambda));
                let b = self.tg(self.nl0(), ")");
                self.opens.push((a, b));
                p
            }
            _ => {
                self.gap = Gap::Sp0;
                self.bracket(|g| g.params(Pk::LambdaBare))
            }
        };
        let brace = self.s.coin();
        let first = if brace {
            self.tg(Gap::Sp0, "{");
            self.nl0()
        } else {
            self.tg(Gap::Sp1, "do");
            if self.in_body {
                Gap::Sp1
            } else {
                Gap::Nl1
            }
        };
        let body = self.bracket(|g| if brace { g.body(first, 0) } else { g.body_rescue(first, 0) });
        let c = self.t(if brace { "}" } else { "end" });
        self.opens.push((o, c));
        self.in_loop = in_loop;
        self.open = false;
        let info = self.pop_info(ps, body);
        X::n("lambda", vec![info])
    }

    // ------------------------------------------------------------ definitions

    pub(super) fn definition(&mut self) -> X {
        let w_class = if self.in_method() { 0 } else { 3 };
        match self.s.weighted(&[8, w_class, w_class, 2]) {
            0 => self.def_method(),
            1 => self.class_def(false),
            2 => self.class_def(true),
            _ => self.singleton_class(),
        }
    }

    fn def_name(&mut self) -> String {
        match self.s.below(8) {
            0 => self.s.pick_str(OPDEFS).to_string(),
            1 => format!("{}=", self.s.pick_str(&["foo", "x", "é_x", "Baz", "if", "class", "_a"])),
            2 => self.s.pick_str(&["if", "end", "class", "nil", "self", "do", "then", "def", "yield", "return", "true", "not", "and", "in", "defined?", "BEGIN", "END"]).to_string(),
            3 => self.const_name(),
            4 => self.var_name(),
            _ => self.method_name(),
        }
    }

    pub(super) fn def_method(&mut self) -> X {
        self.feat("def");
        let o = self.t("def");
        self.gap = Gap::Sp1;
        let owner = if self.s.chance(1, 4) {
            let x = match self.s.below(7) {
                0 => self.ident(),
                1 => {
                    let n = self.const_name();
 let n: &str = &n;
                    let i = self.t(n);
                    konst(false, None, n).at((i, i))
                }
                2 => {
                    let n = self.ivar_name();
 let n: &str = &n;
                    let i = self.t(n);
                    X::n("ivar", vec![X::a(n)]).at((i, i))
                }
                3 => {
                    let n = self.s.pick_str(&["$a", "$foo", "$_x"]);
                    let i = self.t(n);
                    X::n("gvar", vec![X::a(n)]).at((i, i))
                }
                4 => {
                    let n = self.s.pick_str(&["nil", "true", "false"]);
                    let i = self.t(n);
                    X::a(n).at((i, i))
                }
                _ => {
                    let i = self.t("self");
                    X::a("self").at((i, i))
                }
            };
            let d = if self.s.chance(1, 4) { "::" } else { "." };
            self.tg(Gap::No, d);
            self.gap = if d == "." { Gap::DotR } else { Gap::No };
            self.feat("defs");
            Some(x)
        } else {
            None
        };
        let n = if owner.is_some() && self.s.chance(1, 8) {
            self.s.pick_str(&["**", "^", "!", "~", "!~", "`"]).to_string()
        } else {
            self.def_name()
        };
        self.tk(&n, K::Sym);
        let in_loop = std::mem::replace(&mut self.in_loop, false);
        self.push(Sk::Method);
        let mut first = Gap::Term;
        let ps = match self.s.below(4) {
            0 => vec![],
            1 => {
                self.gap = Gap::Sp1;
                self.bracket(|g| g.params(Pk::DefBare))
            }
            _ => {
                let a = self.tg(Gap::Sp0, "(");
                self.gap = self.nl0();
                let p = if self.s.chance(1, 8) { vec![] } else { self.bracket(|g| g.params(Pk::Def)) };
                let b = self.tg(self.nl0(), ")");
                self.opens.push((a, b));
                if self.s.chance(1, 4) {
                    first = if self.in_body { Gap::Sp1 } else { Gap::Nl1 };
                }
                p
            }
        };
        let body = self.bracket(|g| g.body_rescue(first, 0));
        let c = self.t("end");
        self.opens.push((o, c));
        self.in_loop = in_loop;
        self.open = false;
        let info = self.pop_info(ps, body);
        match owner {
            Some(ow) => X::n("defs", vec![ow, X::a(qs(&n)), info]),
            None => X::n("def", vec![X::a(qs(&n)), info]),
        }
    }

    fn class_body(&mut self) -> X {
        let in_loop = std::mem::replace(&mut self.in_loop, false);
        self.push(Sk::Class);
        let body = self.bracket(|g| g.body_rescue(Gap::Term, 0));
        self.in_loop = in_loop;
        self.open = false;
        self.pop_info(vec![], body)
    }

    fn class_def(&mut self, module: bool) -> X {
        self.feat(if module { "module" } else { "class" });
        let o = self.t(if module { "module" } else { "class" });
        self.gap = Gap::Sp1;
        let k = self.s.weighted(&[6, 3, 1, 1]);
        let name0 = self.next();
        let mut last = o;
        let (base, name) = match k {
            0 => {
                let n = self.const_name();
 let n: &str = &n;
                last = self.t(n);
                (None, n.to_string())
            }
            1 | 3 => {
                if k == 3 {
                    self.t("::");
                    self.gap = Gap::No;
                }
                let n = 2 + self.s.len(1);
                let mut path: Vec<String> = vec![];
                for i in 0..n {
                    if i > 0 {
                        self.tg(Gap::No, "::");
                        self.gap = Gap::No;
                    }
                    let c = self.const_name();
                    last = self.t(&c);
                    path.push(c);
                }
                let name = path.pop().unwrap();
                (Some(konst(k == 3, None, &path.join("::"))), name.to_string())
            }
            _ => {
                self.t("::");
                self.gap = Gap::No;
                let n = self.const_name();
 let n: &str = &n;
                last = self.t(n);
                (Some(konst(true, None, "Object")), n.to_string())
            }
        };
        let sup = if !module && self.s.chance(1, 3) {
            let l = self.tg(Gap::Sp0, "<");
            self.opens_from(l);
            self.gap = Gap::Sp0;
            self.feat("superclass");
            Some(if self.s.coin() { self.constant() } else { self.expr(Lv::Lor, false) })
        } else {
            None
        };
        let info = self.class_body();
        let c = self.t("end");
        self.opens.push((o, c));
        let none = X::a("none");
        X::n(
            if module { "module" } else { "class" },
            vec![base.unwrap_or(none.clone()), X::a(name), sup.unwrap_or(none), info],
        )
        .at((name0, last))
    }

    fn singleton_class(&mut self) -> X {
        self.feat("sclass");
        let o = self.t("class");
        self.tg(Gap::Sp1, "<<");
        self.gap = Gap::Sp1;
        let x = if self.s.coin() {
            self.t("self");
            X::a("self")
        } else {
            self.expr(Lv::Lor, false)
        };
        let info = self.class_body();
        let c = self.t("end");
        self.opens.push((o, c));
        X::n("sclass", vec![x, info])
    }

    // ------------------------------------------------------------ control flow

    fn sp1_nl(&self) -> Gap {
        if self.in_body {
            Gap::Sp1
        } else {
            Gap::Nl1
        }
    }

    pub(super) fn flow_stmt(&mut self) -> X {
        self.flow()
    }

    pub(super) fn flow(&mut self) -> X {
        self.feat("flow");
        let w_for = if self.can_declare() { 2 } else { 0 };
        let x = match self.s.weighted(&[8, 3, 3, w_for, 5, 5]) {
            0 => self.if_expr(),
            1 => self.unless_expr(),
            2 => self.while_expr(),
            3 => self.for_expr(),
            4 => self.case_expr(),
            _ => self.begin_expr(),
        };
        self.open = false;
        self.lead = 0;
        x
    }

    fn if_expr(&mut self) -> X {
        let o = self.t("if");
        self.feat("if");
        self.gap = Gap::Sp1;
        let mut conds = vec![];
        let c = self.cond();
        let b = self.body(Gap::Then, 0);
        conds.push((o, c, b));
        for _ in 0..self.s.len(2) {
            let o = self.t("elsif");
            self.feat("elsif");
            self.gap = Gap::Sp1;
            let c = self.cond();
            let b = self.body(Gap::Then, 0);
            conds.push((o, c, b));
        }
        let mut e = if self.s.coin() {
            self.t("else");
            self.feat("else");
            let g = self.sp1_nl();
            self.body(g, 0)
        } else {
            seq(vec![])
        };
        let c = self.t("end");
        self.opens.push((o, c));
        while let Some((o, c, b)) = conds.pop() {
            e = self.ext(o, iff(c, b, e));
            e.kw = true;
        }
        e
    }

    fn unless_expr(&mut self) -> X {
        let o = self.t("unless");
        self.feat("unless");
        self.gap = Gap::Sp1;
        let c = self.cond();
        let b = self.body(Gap::Then, 0);
        let e = if self.s.coin() {
            self.t("else");
            let g = self.sp1_nl();
            self.body(g, 0)
        } else {
            seq(vec![])
        };
        let end = self.t("end");
        self.opens.push((o, end));
        let mut x = self.ext(o, iff(c, e, b));
        x.kw = true;
        x
    }

    fn while_expr(&mut self) -> X {
        let w = self.s.coin();
        let o = self.t(if w { "while" } else { "until" });
        self.feat("while");
        self.gap = Gap::Sp1;
        let c = self.cond_no_do();
        let in_loop = std::mem::replace(&mut self.in_loop, true);
        let b = self.body(Gap::Do, 0);
        self.in_loop = in_loop;
        let end = self.t("end");
        self.opens.push((o, end));
        X::n(if w { "while" } else { "until" }, vec![c, b])
    }

    fn for_expr(&mut self) -> X {
        let o = self.t("for");
        self.feat("for");
        let paren = self.s.chance(1, 6);
        let mut vars = vec![];
        self.gap = Gap::Sp1;
        let mut lp = 0;
        if paren {
            lp = self.t("(");
            self.gap = Gap::Sp0;
        }
        for i in 0..1 + self.s.len(2) {
            if i > 0 {
                self.comma();
            }
            let n = self.var_name();
            self.t(&n);
            let d = self.declare(&n);
            vars.push(X::a(format!("{}/{}", d, n)));
        }
        if paren {
            let rp = self.tg(Gap::Sp0, ")");
            self.opens.push((lp, rp));
        }
        self.tg(if paren { Gap::Sp0 } else { Gap::Sp1 }, "in");
        self.gap = Gap::Sp1;
        let it = self.cond_no_do();
        let in_loop = std::mem::replace(&mut self.in_loop, true);
        let b = self.body(Gap::Do, 0);
        self.in_loop = in_loop;
        let end = self.t("end");
        self.opens.push((o, end));
        X::n(
            "for",
            vec![X::n("vars", vars), it, X::n("info", vec![X::a("params"), Scope::default().x(), b])],
        )
    }

    fn case_expr(&mut self) -> X {
        let o = self.t("case");
        self.feat("case");
        let subj = if self.s.chance(3, 4) {
            self.gap = Gap::Sp1;
            Some(self.cond())
        } else {
            None
        };
        self.gap = Gap::Term;
        let mut whens = vec![];
        for _ in 0..1 + self.s.len(2) {
            self.t("when");
            self.gap = Gap::Sp1;
            let n = 1 + self.s.len(2);
            let mut vals = vec![];
            for i in 0..n {
                if i > 0 {
                    self.comma();
                }
                if self.s.chance(1, 8) {
                    let s = self.t("*");
                    self.opens_from(s);
                    self.gap = Gap::Tight;
                    let x = self.expr(Lv::Tern, false);
                    vals.push(X::n("splat", vec![x]));
                } else {
                    vals.push(self.arg(true));
                }
            }
            let b = self.body(Gap::Then, 0);
            whens.push(X::n("when", vec![X::n("vals", vals), b]));
        }
        let e = if self.s.coin() {
            self.t("else");
            let g = self.sp1_nl();
            self.body(g, 0)
        } else {
            seq(vec![])
        };
        let end = self.t("end");
        self.opens.push((o, end));
        X::n("case", vec![subj.unwrap_or(X::a("none")), X::n("whens", whens), e])
    }

    fn begin_expr(&mut self) -> X {
        let o = self.t("begin");
        self.feat("begin");
        let g = if self.s.coin() { self.sp1_nl() } else { Gap::Term };
        let x = self.body_rescue(g, 0);
        let end = self.t("end");
        self.opens.push((o, end));
        x
    }

    /// BODY [rescue ...] [else ...] [ensure ...], up to the "end"
    pub(super) fn body_rescue(&mut self, first: Gap, min: usize) -> X {
        let b = self.body(first, min);
        let p = if self.is(F::Flow) { 3 } else { 8 };
        if self.fuel <= 0 || !self.s.chance(1, p) {
            return begin(b, vec![], None, None);
        }
        let mut rs = vec![];
        for _ in 0..self.s.len(2) {
            self.gap = Gap::Term;
            rs.push(self.rescue_clause());
        }
        let mut els = None;
        if !rs.is_empty() && self.s.chance(1, 3) {
            self.t("else");
            let g = self.sp1_nl();
            els = Some(self.body(g, 0));
        }
        let mut ens = None;
        if self.s.chance(1, 3) {
            self.feat("ensure");
            self.t("ensure");
            let g = self.sp1_nl();
            ens = Some(self.body(g, 0));
        }
        begin(b, rs, els, ens)
    }

    fn rescue_clause(&mut self) -> X {
        self.t("rescue");
        self.feat("rescue");
        let mut exc = vec![];
        let n = self.s.len(2);
        for i in 0..n {
            if i > 0 {
                self.comma();
            } else {
                self.gap = Gap::Sp1;
            }
            if self.s.chance(1, 6) {
                let o = self.t("*");
                self.opens_from(o);
                self.gap = Gap::Tight;
                let x = self.expr(Lv::Tern, false);
                exc.push(X::n("splat", vec![x]));
            } else if self.s.chance(3, 4) {
                exc.push(self.constant());
            } else {
                exc.push(self.expr(Lv::Tern, false));
            }
        }
        let mut var = None;
        if self.s.coin() {
            let o = self.tg(Gap::Sp0, "=>");
            self.opens_from(o);
            self.gap = Gap::Sp0;
            let t = self.target(false);
            var = Some(self.resolve_target(t));
            self.feat("rescue_var");
        }
        let b = self.body(Gap::Then, 0);
        rescue(exc, var, b)
    }
}
