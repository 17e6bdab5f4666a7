//! The checks: one per property.
use crate::engine::*;
use crate::gen::*;
use crate::layout::*;
use crate::sexp::{self, X};
use ruruby_parse::*;

macro_rules! tri {
    ($e:expr) => {
        match $e {
            Ok(v) => v,
            Err(v) => return v,
        }
    };
}

mod cli;
mod fuzz;
mod invalid;
pub mod locs;
mod ops;
mod rel;
mod robust;
mod table;
mod tree;

pub static CHECKS: &[&[Check]] = &[robust::CHECKS, tree::CHECKS, rel::CHECKS, locs::CHECKS, invalid::CHECKS, table::CHECKS, cli::CHECKS];

pub type Res = Result<ParseResult, ParseErr>;

/// Steps of the scanner allowed for a text of n bytes.
pub fn work_bound(n: usize) -> u64 {
    let n = n as u64;
    500 * (n + 100) + 10 * n * n
}

/// Runs a parse; a panic (or too much work) is the outer error.
pub fn limited<T>(n: usize, f: impl FnOnce() -> T) -> Result<T, String> {
    verif_hooks::set_limit(work_bound(n));
    let r = guarded(f);
    verif_hooks::set_limit(u64::MAX);
    r
}

pub fn parse(code: &str) -> Result<Res, String> {
    set_current(code);
    limited(code.len(), || Parser::parse_program(code.to_string(), FILE))
}

/// A program must be accepted.
pub fn accepted(code: &str) -> Result<ParseResult, Verdict> {
    match parse(code) {
        Err(m) => Err(fail(code, format!("panic {}", m))),
        Ok(Err(e)) => Err(fail(code, format!("rejected: {:?} {:?}", e.kind, e.loc))),
        Ok(Ok(r)) => Ok(r),
    }
}

pub fn make(s: &mut Src, cfg: &Cfg) -> Prog {
    let mut g = G::new(s, cfg);
    let x = g.program();
    g.finish(x)
}

/// Parse the laid out program and compare tree and table.
pub fn compare(laid: &Laid, p: &Prog) -> Result<ParseResult, Verdict> {
    let r = match parse(&laid.src) {
        Err(m) => return Err(fail(&*laid.src, format!("panic {}; expected {}", m, p.x.show()))),
        Ok(Err(e)) => return Err(fail(&*laid.src, format!("rejected: {:?} {:?}; expected {}", e.kind, e.loc, p.x.show()))),
        Ok(Ok(r)) => r,
    };
    let got = sexp::dump(&r.node);
    if let Some(d) = p.x.diff(&got) {
        return Err(fail(&*laid.src, d));
    }
    let t = r.lvar_collector.table();
    if *t != p.table {
        return Err(fail(&*laid.src, format!("table: expected {:?} got {:?}", p.table, t)));
    }
    Ok(r)
}

