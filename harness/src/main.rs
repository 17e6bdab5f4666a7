mod checks;
mod engine;
mod gen;
mod layout;
mod lits;
mod sexp;
use std::collections::BTreeMap;
use std::io::Read;

#[allow(clippy::too_many_arguments)]
pub fn evidence_json(
    c: &engine::Check,
    tier: &str,
    seed: u64,
    planned: u64,
    evals: u64,
    discards: u64,
    distinct: u64,
    classes: &BTreeMap<&'static str, u64>,
    samples: Vec<serde_json::Value>,
    bytes: u64,
    maxlen: usize,
    secs: f64,
    result: &str,
    failure: serde_json::Value,
) -> serde_json::Value {
    serde_json::json!({
        "property": c.id,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "result": result,
        "coverage": {
            "evaluations": evals,
            "planned": planned,
            "discarded": discards,
            "distinct_nontrivial": distinct,
            "rule": c.rule,
            "samples": samples,
            "classes": classes,
            "total_input_bytes": bytes,
            "longest_input_bytes": maxlen,
        },
        "failure": failure,
        "wall_s": secs,
    })
}

fn probe() {
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).unwrap();
    for c in s.split("\n%%\n") {
        let c = c.strip_suffix("\n%%").unwrap_or(c).to_string();
        let c2 = c.clone();
        let r = engine::guarded(move || match ruruby_parse::Parser::parse_program(c2, "p") {
            Ok(r) => format!("{} {:?}", sexp::dump(&r.node).show(), r.lvar_collector.table()),
            Err(e) => format!("ERR {:?} {:?}", e.kind, e.loc),
        });
        println!("{:40} => {}", format!("{:?}", c), r.unwrap_or_else(|e| format!("PANIC {}", e)));
    }
}

fn main() {
    engine::install_hook();
    let args: Vec<String> = std::env::args().collect();
    let find = |id: &str| {
        checks::CHECKS.iter().flat_map(|v| v.iter()).find(|c| c.id == id).unwrap_or_else(|| {
            eprintln!("unknown check {}", id);
            std::process::exit(2)
        })
    };
    let seed = std::env::var("VERIF_SEED").ok().and_then(|v| v.parse().ok()).unwrap_or(1);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("run") => engine::parent(find(&args[2]), &tier, seed),
        Some("one") => engine::one(find(&args[2]), args[3].parse().unwrap(), args[4].parse().unwrap()),
        Some("run-child") => engine::main_run(find(&args[2]), &tier, seed),
        Some("replay") => engine::main_replay(find(&args[2]), &args[3]),
        Some("survey") => {
            let n = |i: usize, d: u64| args.get(i).and_then(|v| v.parse().ok()).unwrap_or(d);
            engine::survey(find(&args[2]), seed, n(3, 20000), n(4, 40) as usize);
            0
        }
        Some("showloc") => {
            let mut code = String::new();
            std::io::stdin().read_to_string(&mut code).unwrap();
            let n = |i: usize| args[i].parse().unwrap();
            ruruby_parse::SourceInfo::new(&args[2], code).show_loc(&ruruby_parse::Loc(n(3), n(4)));
            0
        }
        Some("spans") => {
            checks::locs::spans(args.get(2).and_then(|x| x.parse().ok()).unwrap_or(10000));
            0
        }
        Some("probe") => {
            probe();
            0
        }
        _ => {
            eprintln!("usage: vh run ID | vh replay ID FILE | vh probe");
            2
        }
    };
    std::process::exit(code);
}
