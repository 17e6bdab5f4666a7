//! The variable table against a model.
use super::*;

pub static CHECKS: &[Check] = &[Check {
    id: "C26",
    title: "the variable table is an insertion-ordered set",
    quick: 600_000,
    thorough: 15_000_000,
    rule: "at least 3 operations, one of them on a name that is already there; distinct by operations",
    run: c26,
}];

const NAMES: &[&str] = &[
    "a", "b", "c", "x", "y", "_", "_1", "_2", "é", "日本", "ab", "aa", "A", "@a", "...", "", "a ", "a\n", "\"", "&", "*", "**", "self", "if", "a?", "😀", "\0", "<unnamed>", "it",
];

#[derive(Default, Clone, Debug)]
struct Model {
    names: Vec<String>,
    blk: Option<usize>,
    kwrest: Option<usize>,
    fwd: Option<usize>,
}

impl Model {
    fn find(&self, n: &str) -> Option<usize> {
        self.names.iter().position(|m| m == n)
    }
    fn add(&mut self, n: &str) -> Option<usize> {
        if self.find(n).is_some() {
            return None;
        }
        self.names.push(n.to_string());
        Some(self.names.len() - 1)
    }
}

fn ix(o: Option<LvarId>) -> Option<usize> {
    o.map(|i| i.as_usize())
}

fn agree(l: &LvarCollector, m: &Model) -> Option<String> {
    if l.table() != &m.names {
        return Some(format!("the listing is {:?}, not {:?}", l.table(), m.names));
    }
    if l.table.0 != m.names {
        return Some(format!("the table is {:?}, not {:?}", l.table.0, m.names));
    }
    if l.len() != m.names.len() {
        return Some(format!("the length is {}, not {}", l.len(), m.names.len()));
    }
    let sp = (ix(l.block_param()), ix(*l.block()), ix(l.kwrest_param()), ix(l.forwarding_param));
    if sp != (m.blk, m.blk, m.kwrest, m.fwd) {
        return Some(format!("special parameters {:?}, not {:?}", sp, (m.blk, m.blk, m.kwrest, m.fwd)));
    }
    for (i, n) in m.names.iter().enumerate() {
        match l.table.get_lvarid(n) {
            Some(id) if id.as_usize() == i && id.as_u32() == i as u32 && id == LvarId::from(i) && id == LvarId::from(i as u32) => {}
            o => return Some(format!("{:?} is at {:?}, not {}", n, o, i)),
        }
        if l.get_name(LvarId::from(i)) != format!("{:?}", n) {
            return Some(format!("the name of {} is {}, not {:?}", i, l.get_name(LvarId::from(i)), n));
        }
    }
    for k in [0usize, 1, 7] {
        let i = m.names.len() + k;
        if l.get_name(LvarId::from(i)) != "<unnamed>" {
            return Some(format!("there is no {}, but its name is {}", i, l.get_name(LvarId::from(i))));
        }
    }
    for n in NAMES {
        if m.find(n).is_none() && l.table.get_lvarid(n).is_some() {
            return Some(format!("{:?} was never inserted, but is at {:?}", n, l.table.get_lvarid(n)));
        }
    }
    None
}

/// The tables of a parsed program.
fn parsed(s: &mut Src) -> Verdict {
    let (t, kind) = fuzz::text(s);
    let r = match parse(&t) {
        Err(_) | Ok(Err(_)) => return Verdict::Discard,
        Ok(Ok(r)) => r,
    };
    let mut bad = None;
    let mut n = 0;
    sexp::dump(&r.node).walk(&mut |x| {
        if x.tag == "tbl" {
            n += x.kids.len();
            for (i, k) in x.kids.iter().enumerate() {
                if x.kids[..i].iter().any(|o| o.tag == k.tag) {
                    bad = Some(format!("{} is twice in {}", k.tag, x.show()));
                }
            }
        }
    });
    let l = &r.lvar_collector;
    let m = Model { names: l.table().clone(), blk: ix(l.block_param()), kwrest: ix(l.kwrest_param()), fwd: ix(l.forwarding_param) };
    let bad = bad.or_else(|| agree(l, &m));
    match bad {
        Some(d) => fail(t, d),
        None => pass(t, n + m.names.len() >= 2, vec!["parsed", kind]),
    }
}

fn c26(s: &mut Src) -> Verdict {
    if s.chance(1, 10) {
        return parsed(s);
    }
    let mut log: Vec<String> = vec![];
    let mut m = Model::default();
    let mut l = match s.below(3) {
        0 => LvarCollector::new(),
        1 => LvarCollector::default(),
        _ => {
            let n = s.pick_str(NAMES);
            log.push(format!("from {:?}", n));
            m.add(n);
            LvarCollector::from(n.to_string())
        }
    };
    let many = s.chance(1, 100);
    let n = if many { 200 + s.us(400) } else { s.us(4 + s.size as usize / 3) };
    // a copy must not change with the original
    let mut copy: Option<(LvarCollector, Model)> = None;
    let mut again = false;
    for k in 0..n {
        let name = if many && s.chance(3, 4) {
            format!("v{}", s.us(500))
        } else if s.chance(1, 20) {
            // long names that differ in one place
            let mut name = "long_name_".repeat(1 + s.us(7));
            let at = s.us(name.len());
            name.insert(at, *s.pick(&['a', 'b', 'é', '_']));
            name
        } else if s.chance(1, 8) {
            format!("n{}", s.us(12))
        } else {
            s.pick_str(NAMES).to_string()
        };
        let op = s.below(14);
        let there = m.find(&name).is_some();
        let r = guarded(|| match op {
            0..=3 => {
                log.push(format!("insert {:?}", name));
                let want = m.find(&name).or_else(|| m.add(&name));
                again |= there;
                (Some(l.insert(&name)), want)
            }
            4 | 5 => {
                log.push(format!("insert_new {:?}", name));
                again |= there;
                (l.insert_new(name.clone()), m.add(&name))
            }
            6 | 7 => {
                log.push(format!("insert_block_param {:?}", name));
                let w = m.add(&name);
                if w.is_some() {
                    m.blk = w;
                }
                again |= there;
                (l.insert_block_param(name.clone()), w)
            }
            8 | 9 => {
                log.push(format!("insert_kwrest_param {:?}", name));
                let w = m.add(&name);
                if w.is_some() {
                    m.kwrest = w;
                }
                again |= there;
                (l.insert_kwrest_param(name.clone()), w)
            }
            10 => {
                log.push("insert_delegate_param".into());
                let w = m.add("...");
                if w.is_some() {
                    m.fwd = w;
                }
                again |= w.is_none();
                (l.insert_delegate_param(), w)
            }
            11 => {
                log.push(format!("get_lvarid {:?}", name));
                (l.table.get_lvarid(&name), m.find(&name))
            }
            12 => {
                log.push("copy".into());
                copy = Some((l.clone(), m.clone()));
                (None, None)
            }
            _ => {
                log.push("swap with the copy".into());
                if let Some((a, b)) = &mut copy {
                    std::mem::swap(&mut l, a);
                    std::mem::swap(&mut m, b);
                }
                (None, None)
            }
        });
        match r {
            Err(e) => return fail(log.join("\n"), format!("panic {}", e)),
            Ok((got, want)) => {
                if ix(got) != want {
                    return fail(log.join("\n"), format!("the last operation returned {:?}, not {:?}", got, want));
                }
            }
        }
        if many && k % 50 != 49 && k + 1 != n {
            continue;
        }
        match guarded(|| agree(&l, &m)) {
            Err(e) => return fail(log.join("\n"), format!("panic {}", e)),
            Ok(Some(d)) => return fail(log.join("\n"), d),
            _ => {}
        }
        if let Some((a, b)) = &copy {
            if let Some(d) = agree(a, b) {
                return fail(log.join("\n"), format!("the copy changed: {}", d));
            }
            let same = b.names == m.names && b.blk == m.blk && b.kwrest == m.kwrest && b.fwd == m.fwd;
            if (*a == l) != same {
                return fail(log.join("\n"), format!("compared with the copy: {}", *a == l));
            }
        }
    }
    let nt = n >= 3 && again;
    let mut classes = vec![];
    for (c, p) in [("ordinary", "insert "), ("new", "insert_new"), ("block", "insert_block"), ("keyword rest", "insert_kwrest"), ("forwarding", "insert_delegate"), ("copy", "copy")] {
        if log.iter().any(|l| l.starts_with(p)) {
            classes.push(c);
        }
    }
    pass(log.join("\n"), nt, classes)
}
