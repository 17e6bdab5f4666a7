//! Property-based testing engine: recorded choice sequences, deterministic seeds,
//! parallel search, shrinking, evidence and replay files.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
}

/// Source of choices. In search mode the choices are random and recorded; in
/// replay mode (shrinking, replay files) they are read back, 0 beyond the end.
pub struct Src {
    replay: Option<Vec<u64>>,
    pos: usize,
    pub rec: Vec<u64>,
    rng: Rng,
    /// 0..=100, grows with the case index
    pub size: u64,
}

impl Src {
    pub fn random(seed: u64, size: u64) -> Src {
        Src { replay: None, pos: 0, rec: vec![], rng: Rng::new(seed), size }
    }
    pub fn replay(choices: Vec<u64>, size: u64) -> Src {
        Src { replay: Some(choices), pos: 0, rec: vec![], rng: Rng::new(0), size }
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        let v = match &self.replay {
            Some(c) => {
                let v = c.get(self.pos).copied().unwrap_or(0);
                v.min(n - 1)
            }
            None => self.rng.next() % n,
        };
        self.pos += 1;
        self.rec.push(v);
        v
    }
    pub fn us(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// lo..=hi
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    /// true with probability num/den; 0 means false
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn coin(&mut self) -> bool {
        self.below(2) == 1
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.us(v.len())]
    }
    pub fn pick_str<'a>(&mut self, v: &[&'a str]) -> &'a str {
        v[self.us(v.len())]
    }
    /// index with the given weights; index 0 is the simplest
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut r = self.below(total);
        for (i, x) in w.iter().enumerate() {
            if r < *x {
                return i;
            }
            r -= x;
        }
        w.len() - 1
    }
    /// small geometric-like length in 0..=max
    pub fn len(&mut self, max: usize) -> usize {
        let mut n = 0;
        while n < max && self.chance(1, 2) {
            n += 1;
        }
        n
    }
    pub fn any_u64(&mut self) -> u64 {
        self.below(u64::MAX)
    }
}

pub enum Verdict {
    Pass { text: String, nontrivial: bool, classes: Vec<&'static str> },
    Fail { input: String, msg: String },
    Discard,
}

pub fn pass(text: impl Into<String>, nontrivial: bool, classes: Vec<&'static str>) -> Verdict {
    Verdict::Pass { text: text.into(), nontrivial, classes }
}
pub fn fail(input: impl Into<String>, msg: impl Into<String>) -> Verdict {
    Verdict::Fail { input: input.into(), msg: msg.into() }
}

pub struct Check {
    pub id: &'static str,
    pub title: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub run: fn(&mut Src) -> Verdict,
}

thread_local! {
    pub static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    /// the input being worked on, for panics outside of the guarded parser calls
    pub static CURRENT: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let s = info.to_string();
        LAST_PANIC.with(|p| *p.borrow_mut() = s);
    }));
}

pub fn set_current(s: &str) {
    CURRENT.with(|c| {
        let mut c = c.borrow_mut();
        c.clear();
        c.push_str(s);
    });
}

/// Run `f`, turning a panic into its message.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow().clone())),
    }
}

fn run_case(c: &Check, s: &mut Src) -> Verdict {
    set_current("");
    match guarded(|| (c.run)(s)) {
        Ok(v) => v,
        Err(msg) => {
            let input = CURRENT.with(|c| c.borrow().clone());
            // an inconsistency of the harness itself, not of the code under test
            if msg.contains("src/gen") || msg.contains("src/engine") || msg.contains("HARNESS") {
                eprintln!("HARNESS ERROR in {}: {}\ninput: {:?}", c.id, msg, input);
                std::process::exit(2);
            }
            fail(input, format!("panic: {}", msg))
        }
    }
}

fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 29)
}

pub fn case_seed(seed: u64, id: &str, i: u64) -> u64 {
    let mut r = Rng::new(seed ^ hash_str(id).rotate_left(17) ^ i.wrapping_mul(0xD1342543DE82EF95));
    r.next()
}

pub fn case_size(i: u64) -> u64 {
    // small cases first, then a mix of all sizes
    match i {
        0..=63 => 1 + i / 8,
        _ => {
            let k = i % 32;
            match k {
                0..=15 => 4 + k,
                16..=27 => 20 + (k - 16) * 3,
                28..=30 => 60 + (k - 28) * 10,
                _ => 100,
            }
        }
    }
}

#[derive(Default)]
struct Stats {
    evals: u64,
    discards: u64,
    nontrivial: HashSet<u64>,
    classes: BTreeMap<&'static str, u64>,
    samples: Vec<(u64, String)>,
    bytes: u64,
    maxlen: usize,
}

pub struct Failure {
    pub index: u64,
    pub choices: Vec<u64>,
    pub size: u64,
    pub input: String,
    pub msg: String,
}

pub const STACK: usize = 1 << 30;

/// The case each worker is at, for the parent process to read after a crash.
pub struct Slots(Option<std::fs::File>);
impl Slots {
    fn set(&self, worker: usize, i: u64) {
        use std::os::unix::fs::FileExt;
        if let Some(f) = &self.0 {
            let _ = f.write_at(&i.to_le_bytes(), worker as u64 * 8);
        }
    }
}

fn search(c: &'static Check, seed: u64, n: u64) -> (Stats, Option<Failure>) {
    let slots = Slots(std::env::var("VH_SLOTS").ok().and_then(|p| std::fs::OpenOptions::new().write(true).open(p).ok()));
    let slots = &slots;
    let worker_no = AtomicU64::new(0);
    let next = AtomicU64::new(0);
    let bad = AtomicU64::new(u64::MAX);
    let total = Mutex::new(Stats::default());
    let failure: Mutex<Option<Failure>> = Mutex::new(None);
    let workers = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8);
    std::thread::scope(|sc| {
        for _ in 0..workers {
            std::thread::Builder::new()
                .stack_size(STACK)
                .spawn_scoped(sc, || {
                    let mut st = Stats::default();
                    let me = worker_no.fetch_add(1, Ordering::SeqCst) as usize;
                    'outer: loop {
                        let start = next.fetch_add(64, Ordering::SeqCst);
                        if start >= n {
                            break;
                        }
                        for i in start..(start + 64).min(n) {
                            if i > bad.load(Ordering::SeqCst) {
                                break 'outer;
                            }
                            slots.set(me, i);
                            let size = case_size(i);
                            let mut s = Src::random(case_seed(seed, c.id, i), size);
                            st.evals += 1;
                            match run_case(c, &mut s) {
                                Verdict::Pass { text, nontrivial, classes } => {
                                    st.bytes += text.len() as u64;
                                    st.maxlen = st.maxlen.max(text.len());
                                    if nontrivial {
                                        st.nontrivial.insert(hash_str(&text));
                                        let keep = i % (n / 24 + 1) == 0 || st.samples.len() < 2;
                                        if keep && st.samples.len() < 40 {
                                            let t: String = text.chars().take(400).collect();
                                            st.samples.push((i, t));
                                        }
                                    }
                                    for k in classes {
                                        *st.classes.entry(k).or_default() += 1;
                                    }
                                }
                                Verdict::Discard => st.discards += 1,
                                Verdict::Fail { input, msg } => {
                                    let mut f = failure.lock().unwrap();
                                    if f.as_ref().map_or(true, |f| i < f.index) {
                                        bad.store(i, Ordering::SeqCst);
                                        *f = Some(Failure { index: i, choices: s.rec, size, input, msg });
                                    }
                                    break 'outer;
                                }
                            }
                        }
                    }
                    slots.set(me, u64::MAX);
                    let mut t = total.lock().unwrap();
                    t.evals += st.evals;
                    t.discards += st.discards;
                    t.bytes += st.bytes;
                    t.maxlen = t.maxlen.max(st.maxlen);
                    t.nontrivial.extend(st.nontrivial);
                    t.samples.extend(st.samples);
                    for (k, v) in st.classes {
                        *t.classes.entry(k).or_default() += v;
                    }
                })
                .unwrap();
        }
    });
    let mut t = total.into_inner().unwrap();
    t.samples.sort();
    (t, failure.into_inner().unwrap())
}

fn try_choices(c: &Check, ch: &[u64], size: u64) -> Option<(Vec<u64>, String, String)> {
    let mut s = Src::replay(ch.to_vec(), size);
    match run_case(c, &mut s) {
        Verdict::Fail { input, msg } => {
            let mut rec = s.rec;
            while rec.last() == Some(&0) {
                rec.pop();
            }
            Some((rec, input, msg))
        }
        _ => None,
    }
}

fn less(a: &[u64], b: &[u64]) -> bool {
    (a.len(), a) < (b.len(), b)
}

/// Shrink by deleting, zeroing and reducing choices.
fn shrink(c: &'static Check, f: Failure) -> Failure {
    std::thread::Builder::new()
        .stack_size(STACK)
        .spawn(move || {
            let start = Instant::now();
            let mut tries = 0u32;
            let mut best = f;
            let over = |tries: u32| tries > 20_000 || start.elapsed().as_secs() > 40;
            let attempt = |best: &mut Failure, cand: Vec<u64>, tries: &mut u32| -> bool {
                *tries += 1;
                if let Some((rec, input, msg)) = try_choices(c, &cand, best.size) {
                    if less(&rec, &best.choices) {
                        best.choices = rec;
                        best.input = input;
                        best.msg = msg;
                        return true;
                    }
                }
                false
            };
            // normalise
            let ch = best.choices.clone();
            if let Some((rec, input, msg)) = try_choices(c, &ch, best.size) {
                best.choices = rec;
                best.input = input;
                best.msg = msg;
            }
            // smaller size parameter
            for size in [1u64, 3, 6, 10, 20, 40] {
                if size < best.size {
                    if let Some((rec, input, msg)) = try_choices(c, &best.choices, size) {
                        best.choices = rec;
                        best.size = size;
                        best.input = input;
                        best.msg = msg;
                        break;
                    }
                }
            }
            loop {
                let before = best.choices.clone();
                let mut k = 64usize;
                while k > 0 {
                    let mut i = best.choices.len();
                    while i > 0 {
                        if over(tries) {
                            return best;
                        }
                        i -= 1;
                        if i + k <= best.choices.len() {
                            let mut cand = best.choices.clone();
                            cand.drain(i..i + k);
                            if !attempt(&mut best, cand, &mut tries) && k > 1 {
                                let mut cand = best.choices.clone();
                                cand[i..i + k].iter_mut().for_each(|x| *x = 0);
                                if cand != best.choices {
                                    attempt(&mut best, cand, &mut tries);
                                }
                            }
                        }
                    }
                    k /= 2;
                }
                for i in 0..best.choices.len() {
                    if over(tries) {
                        return best;
                    }
                    if i >= best.choices.len() {
                        break;
                    }
                    let v = best.choices[i];
                    if v == 0 {
                        continue;
                    }
                    let mut lo = 0;
                    let mut hi = v;
                    while lo < hi && !over(tries) {
                        let mid = lo + (hi - lo) / 2;
                        if i >= best.choices.len() {
                            break;
                        }
                        let mut cand = best.choices.clone();
                        cand[i] = mid;
                        if attempt(&mut best, cand, &mut tries) {
                            hi = mid;
                        } else {
                            lo = mid + 1;
                        }
                    }
                }
                if best.choices == before {
                    return best;
                }
            }
        })
        .unwrap()
        .join()
        .unwrap()
}

fn root() -> std::path::PathBuf {
    std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()).into()
}

/// Inputs of recorded, unrepaired findings: lines `known: property=<id> input=<json> <what>`.
fn known(id: &str) -> Vec<(String, String)> {
    let mut v = vec![];
    let text = std::fs::read_to_string(root().join("known_findings.txt")).unwrap_or_default();
    for l in text.lines() {
        if let Some(r) = l.strip_prefix(&format!("known: property={} input=", id)) {
            let mut it = serde_json::Deserializer::from_str(r).into_iter::<String>();
            if let Some(Ok(s)) = it.next() {
                v.push((s, r[it.byte_offset()..].trim().to_string()));
            }
        }
    }
    v
}

/// Development aid: shrink many failures and list the distinct ones.
pub fn survey(c: &'static Check, seed: u64, n: u64, max: usize) {
    let fails = Mutex::new(vec![]);
    let next = AtomicU64::new(0);
    let evals = AtomicU64::new(0);
    std::thread::scope(|sc| {
        for _ in 0..8 {
            std::thread::Builder::new()
                .stack_size(STACK)
                .spawn_scoped(sc, || loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= n || fails.lock().unwrap().len() >= max {
                        break;
                    }
                    evals.fetch_add(1, Ordering::SeqCst);
                    let size = case_size(i);
                    let mut s = Src::random(case_seed(seed, c.id, i), size);
                    if let Verdict::Fail { input, msg } = run_case(c, &mut s) {
                        let f = shrink(c, Failure { index: i, choices: s.rec, size, input, msg });
                        fails.lock().unwrap().push((f.input.len(), f.input, f.msg));
                    }
                })
                .unwrap();
        }
    });
    let mut f = fails.into_inner().unwrap();
    f.sort();
    f.dedup();
    println!("{} cases", evals.into_inner());
    for (_, i, m) in f {
        println!("=====\n{}\n--- {}", i, m.chars().take(700).collect::<String>());
    }
}

/// Seconds one case may take before it counts as a hang.
const HANG: u64 = 100;

/// Runs the search in a child process, so that an abort of the code under test (stack
/// overflow, out of memory) or a hang is found and reported like any other failure.
pub fn parent(c: &'static Check, tier: &str, seed: u64) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let exe = std::env::current_exe().unwrap();
    let slots = std::env::temp_dir().join(format!("vh-slots-{}-{}", c.id, std::process::id()));
    let fresh: Vec<u8> = std::iter::repeat(u64::MAX.to_le_bytes()).take(16).flatten().collect();
    std::fs::write(&slots, &fresh).unwrap();
    let mut child = std::process::Command::new(&exe)
        .args(["run-child", c.id])
        .env("VH_SLOTS", &slots)
        .spawn()
        .unwrap();
    let read = || -> Vec<u64> {
        let b = std::fs::read(&slots).unwrap_or_default();
        b.chunks_exact(8).map(|x| u64::from_le_bytes(x.try_into().unwrap())).collect()
    };
    let mut last = read();
    let mut since = vec![Instant::now(); last.len()];
    let status = loop {
        if let Some(s) = child.try_wait().unwrap() {
            break Some(s);
        }
        std::thread::sleep(std::time::Duration::from_millis(20));
        let now = read();
        let mut hang = false;
        for k in 0..now.len().min(last.len()) {
            if now[k] != last[k] || now[k] == u64::MAX {
                since[k] = Instant::now();
            } else if since[k].elapsed().as_secs() > HANG {
                hang = true;
            }
        }
        last = now;
        if hang {
            let _ = child.kill();
            let _ = child.wait();
            break None;
        }
    };
    if let Some(code) = status.and_then(|s| s.code()) {
        let _ = std::fs::remove_file(&slots);
        return code;
    }
    let how = match status.and_then(|s| s.signal()) {
        Some(s) => format!("killed by signal {}", s),
        None => "a case hangs".to_string(),
    };
    println!("the search ended abnormally ({}); looking for the case", how);
    let mut cand: Vec<u64> = read().into_iter().filter(|i| *i != u64::MAX).collect();
    cand.sort();
    let _ = std::fs::remove_file(&slots);
    for i in cand {
        let mut one = std::process::Command::new(&exe)
            .args(["one", c.id, &seed.to_string(), &i.to_string()])
            .spawn()
            .unwrap();
        let t = Instant::now();
        let what = loop {
            if let Some(s) = one.try_wait().unwrap() {
                break match (s.code(), s.signal()) {
                    (None, Some(n)) => Some(format!("the process is killed by signal {}", n)),
                    (Some(1), _) => Some("the case fails".to_string()),
                    _ => None,
                };
            }
            if t.elapsed().as_secs() > HANG + 20 {
                let _ = one.kill();
                let _ = one.wait();
                break Some(format!("no result within {} s", HANG + 20));
            }
            std::thread::sleep(std::time::Duration::from_millis(20));
        };
        if let Some(what) = what {
            let dir = root().join("replays");
            let _ = std::fs::create_dir_all(&dir);
            let path = dir.join(format!("{}-{}-{}.json", c.id, seed, i));
            let j = serde_json::json!({ "property": c.id, "title": c.title, "seed": seed, "index": i, "message": what });
            let _ = std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap());
            let ev = root().join("evidence");
            let _ = std::fs::create_dir_all(&ev);
            let e = crate::evidence_json(c, tier, seed, 0, i, 0, 0, &BTreeMap::new(), vec![], 0, 0, 0.0, "violated", j);
            let _ = std::fs::write(ev.join(format!("{}.json", c.id)), serde_json::to_string_pretty(&e).unwrap());
            println!("case {}: {}", i, what);
            println!("VIOLATION property={} replay={}", c.id, path.display());
            return 1;
        }
    }
    println!("no case reproduces it");
    2
}

/// One case of the search.
pub fn one(c: &'static Check, seed: u64, i: u64) -> i32 {
    std::thread::Builder::new()
        .stack_size(STACK)
        .spawn(move || {
            let mut s = Src::random(case_seed(seed, c.id, i), case_size(i));
            match run_case(c, &mut s) {
                Verdict::Fail { input, msg } => {
                    println!("input:\n{}\n--- {}", input, msg);
                    1
                }
                _ => 0,
            }
        })
        .unwrap()
        .join()
        .unwrap()
}

pub fn main_run(c: &'static Check, tier: &str, seed: u64) -> i32 {
    let start = Instant::now();
    let n = if tier == "thorough" { c.thorough } else { c.quick };
    let n = match std::env::var("VERIF_CASES") {
        Ok(v) => v.parse().unwrap_or(n),
        Err(_) => n,
    };
    let known = known(c.id);
    for (_, what) in &known {
        println!("KNOWN-FINDING: property={} {}", c.id, what);
    }
    let (st, failure) = search(c, seed, n);
    let mut result = "held";
    let mut code = 0;
    let mut fail_json = serde_json::Value::Null;
    if let Some(f) = failure {
        let f = shrink(c, f);
        if known.iter().any(|(i, _)| *i == f.input) {
            println!("the failure found is a recorded finding: {:?}", f.input);
        } else {
            result = "violated";
            code = 1;
            let dir = root().join("replays");
            let _ = std::fs::create_dir_all(&dir);
            let path = dir.join(format!("{}-{}-{}.json", c.id, seed, f.index));
            let j = serde_json::json!({
                "property": c.id, "title": c.title, "seed": seed, "index": f.index, "size": f.size,
                "choices": f.choices, "input": f.input, "message": f.msg,
            });
            fail_json = j.clone();
            let _ = std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap());
            println!("failing input (shrunk):\n{}\n--- {}", f.input, f.msg);
            println!("VIOLATION property={} replay={}", c.id, path.display());
        }
    }
    let ev = root().join("evidence");
    let _ = std::fs::create_dir_all(&ev);
    let samples: Vec<_> = {
        let k = (st.samples.len() / 20).max(1);
        st.samples.iter().step_by(k).take(20).map(|(i, t)| serde_json::json!({"case": i, "input": t})).collect()
    };
    let j = crate::evidence_json(c, tier, seed, n, st.evals, st.discards, st.nontrivial.len() as u64,
        &st.classes, samples, st.bytes, st.maxlen, start.elapsed().as_secs_f64(), result, fail_json);
    std::fs::write(ev.join(format!("{}.json", c.id)), serde_json::to_string_pretty(&j).unwrap()).unwrap();
    println!(
        "{} {}: {} cases ({} discarded), {} distinct non-trivial, {:.1} s, seed {}",
        c.id, result, st.evals, st.discards, st.nontrivial.len(), start.elapsed().as_secs_f64(), seed
    );
    if code == 0 && (st.evals < n || st.nontrivial.len() < 2) {
        println!("too few cases explored");
        return 2;
    }
    code
}

pub fn main_replay(c: &'static Check, path: &str) -> i32 {
    let j: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(path).unwrap()).unwrap();
    if j["choices"].is_null() {
        return match one(c, j["seed"].as_u64().unwrap(), j["index"].as_u64().unwrap()) {
            0 => 0,
            _ => {
                println!("VIOLATION property={} replay=(given)", c.id);
                1
            }
        };
    }
    let ch: Vec<u64> = j["choices"].as_array().unwrap().iter().map(|v| v.as_u64().unwrap()).collect();
    let size = j["size"].as_u64().unwrap();
    std::thread::Builder::new()
        .stack_size(STACK)
        .spawn(move || match try_choices(c, &ch, size) {
            Some((_, input, msg)) => {
                println!("input:\n{}\n--- {}", input, msg);
                println!("VIOLATION property={} replay=(given)", c.id);
                1
            }
            None => {
                println!("the replayed case holds");
                0
            }
        })
        .unwrap()
        .join()
        .unwrap()
}
