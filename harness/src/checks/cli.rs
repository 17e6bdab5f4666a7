//! The command line against the library.
use super::*;
use std::io::Write;
use std::path::PathBuf;
use std::process::{Command, Stdio};

pub static CHECKS: &[Check] = &[Check {
    id: "C27",
    title: "the command line prints the library's result",
    quick: 40_000,
    thorough: 600_000,
    rule: "texts of at least 3 characters, or a file that cannot be read; distinct by text and way of passing it",
    run: c27,
}];

fn binary() -> PathBuf {
    let root = std::env::var("VERIF_ROOT").unwrap_or("/verif".into());
    PathBuf::from(root).join("harness/target/cli/debug/ruruby-parse")
}

/// a scratch directory of this thread, removed with it
struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
thread_local! {
    static DIR: Scratch = {
        use std::sync::atomic::{AtomicU64, Ordering};
        static N: AtomicU64 = AtomicU64::new(0);
        let d = std::env::temp_dir().join(format!("vh-cli-{}-{}", std::process::id(), N.fetch_add(1, Ordering::SeqCst)));
        std::fs::create_dir_all(&d).unwrap();
        Scratch(d)
    };
}

fn run(args: &[std::ffi::OsString], cwd: &std::path::Path) -> Result<(Option<i32>, Vec<u8>, Vec<u8>), String> {
    let out = Command::new(binary())
        .args(args)
        .current_dir(cwd)
        .env_remove("RUST_BACKTRACE")
        .env_remove("RUST_LIB_BACKTRACE")
        .stdin(Stdio::null())
        .output()
        .map_err(|e| format!("cannot run {:?}: {}", binary(), e))?;
    Ok((out.status.code(), out.stdout, out.stderr))
}

fn cut(t: &[u8]) -> String {
    let t = String::from_utf8_lossy(t);
    t.chars().take(600).collect()
}

/// the excerpt without the file name of its first line
fn anonymous(t: &str) -> String {
    match t.split_once('\n') {
        Some((h, r)) => format!(":{}\n{}", h.rsplit(':').next().unwrap_or(""), r),
        None => t.to_string(),
    }
}

fn c27(s: &mut Src) -> Verdict {
    if s.chance(1, 12) {
        return unreadable(s);
    }
    let size = s.size;
    s.size = size / 2;
    let (mut t, kind) = fuzz::text(s);
    s.size = size;
    if kind == "nesting" || t.contains("__FILE__") || t.len() > 20_000 {
        return Verdict::Discard;
    }
    if s.chance(1, 10) {
        t.insert_str(0, s.pick_str(&["-", "--", "=", "@", "-e ", "/", "#!/usr/bin/env ruby\n", "\u{feff}", "-v", "+", " ", "\n"]));
    }
    let way = s.below(6);
    if way < 3 && t.contains('\0') {
        t = t.replace('\0', " ");
    }
    let long = s.chance(1, 60);
    if long {
        // a long text in front, across the sizes of buffers
        let most = if way < 3 { 100_000 } else { 3 << 20 };
        let n = (1usize << (11 + s.us(11))).min(most) + s.us(7);
        let (a, z) = *s.pick(&[("#", "\n"), ("\"", "\"\n"), ("", "\n"), ("a = '", "'\n"), (":", "\n")]);
        let fill = s.pick_str(&["x", "x", "é", "日", "😀a"]);
        t.insert_str(0, &format!("{}{}{}", a, fill.repeat(n / fill.len()), z));
    }
    let t2 = t.clone();
    set_current(if long { "(a long text)" } else { &t });
    let lib = match limited(t.len(), || Parser::parse_program(t2, PathBuf::from(""))) {
        Ok(r) => r,
        Err(_) => return Verdict::Discard,
    };
    let want = match &lib {
        Ok(r) => match guarded(|| (format!("{:#?}\n", r.node), r.source_info.get_location(&Loc(0, 0)))) {
            Ok(w) => w,
            Err(_) => return Verdict::Discard,
        },
        Err(e) => match guarded(|| (format!("{:?}", e.kind), e.source_info.get_location(&e.loc))) {
            Ok(w) => w,
            Err(_) => return Verdict::Discard,
        },
    };
    let dir = DIR.with(|d| d.0.clone());
    const NAMES: &[&str] = &["prog.rb", "a b.rb", "日本.rb", "noext", "x.y.z", ".hidden", "prog.txt", "-e.rb"];
    let name = s.pick_str(NAMES);
    let mut verbose = false;
    let mut args: Vec<std::ffi::OsString> = vec![];
    let what = match way {
        0 | 1 => {
            if s.chance(1, 6) {
                verbose = true;
                args.push("-v".into());
            }
            args.push("-e".into());
            args.push(t.clone().into());
            "-e"
        }
        2 => {
            args.push(format!("-e={}", t).into());
            "-e="
        }
        _ => {
            if let Err(e) = std::fs::File::create(dir.join(name)).and_then(|mut f| f.write_all(t.as_bytes())) {
                return fail(t, format!("cannot write the file: {}", e));
            }
            if s.chance(1, 6) {
                verbose = true;
                args.push("-v".into());
            }
            if way == 3 {
                args.push(dir.join(name).into());
            } else if name.starts_with('-') {
                args.push(format!("./{}", name).into());
            } else {
                args.push(name.into());
            }
            // arguments of the program
            for _ in 0..s.len(2) {
                args.push(s.pick_str(&["x", "1 + 1", "-v", "--help", "nosuchfile", "-e"]).into());
            }
            "file"
        }
    };
    let r = run(&args, &dir);
    if what == "file" {
        let _ = std::fs::remove_file(dir.join(name));
    }
    let (code, out, err) = match r {
        Ok(r) => r,
        Err(e) => return fail(t, e),
    };
    let shown = match long {
        true => {
            let end: String = t.char_indices().filter(|(i, _)| i + 2000 > t.len()).map(|(_, c)| c).collect();
            format!("a source of {} bytes that ends with {:?}", t.len(), end)
        }
        false => format!("{:?} with the source {:?}", args, t),
    };
    let mut out = &out[..];
    if verbose {
        // the version comes first
        match out.iter().position(|b| *b == b'\n') {
            Some(i) if out.starts_with(b"ruruby-parse ") => out = &out[i + 1..],
            _ => return fail(shown, format!("-v prints {:?}", cut(out))),
        }
    }
    // the main stack of the process is the limit of nested texts
    if code.is_none() && t.len() >= 50 && String::from_utf8_lossy(&err).contains("overflowed its stack") {
        return Verdict::Discard;
    }
    let ok = lib.is_ok();
    if ok {
        let rest = match out.strip_prefix(want.0.as_bytes()) {
            Some(r) => r,
            None => return fail(shown, format!("the tree is\n{}\nprinted was\n{}\nand on stderr\n{}", cut(want.0.as_bytes()), cut(out), cut(&err))),
        };
        if anonymous(&String::from_utf8_lossy(rest)) != anonymous(&want.1) + "\n" {
            return fail(shown, format!("behind the tree {:?} was printed, not {:?}", cut(rest), want.1));
        }
        if code != Some(0) {
            return fail(shown, format!("the exit status is {:?}", code));
        }
    } else {
        if !out.is_empty() {
            return fail(shown, format!("rejected, but {:?} was printed", cut(out)));
        }
        if code == Some(0) {
            return fail(shown, "rejected, but the exit status is 0");
        }
        let e = String::from_utf8_lossy(&err);
        if !e.contains(&want.0) || !e.contains(&anonymous(&want.1)) {
            return fail(shown, format!("the error is {} at\n{}\nprinted was\n{}", want.0, want.1, cut(&err)));
        }
    }
    let nt = t.chars().count() >= 3;
    pass(shown, nt, vec![what, kind, if ok { "accepted" } else { "rejected" }, if long { "long" } else { "short" }])
}

fn unreadable(s: &mut Src) -> Verdict {
    let dir = DIR.with(|d| d.0.clone());
    let p = dir.join(s.pick_str(&["missing.rb", "x y.rb", "日本.rb", "bad"]));
    let k = s.below(4);
    let mut what = "missing file";
    match k {
        0 => {}
        1 => {
            what = "directory";
            let _ = std::fs::create_dir(&p);
        }
        _ => {
            what = "not text";
            let mut b = fuzz::program(s, F::All, 10).into_bytes();
            let at = s.us(b.len() + 1);
            let bad: &[u8] = *s.pick(&[&[0xff][..], &[0xc3], &[0xe3, 0x81], &[0x80], &[0xed, 0xa0, 0x80], &[0xf8, 1, 2], &[0xc0, 0x80], &[0xf4, 0x90, 0x80, 0x80]]);
            for x in bad.iter().rev() {
                b.insert(at, *x);
            }
            if std::str::from_utf8(&b).is_ok() || std::fs::write(&p, &b).is_err() {
                return Verdict::Discard;
            }
        }
    }
    let r = run(&[p.clone().into()], &dir);
    let _ = if k == 1 { std::fs::remove_dir(&p) } else { std::fs::remove_file(&p) };
    let shown = format!("{} {:?}", what, p.file_name().unwrap());
    let (code, out, err) = match r {
        Ok(r) => r,
        Err(e) => return fail(shown, e),
    };
    if !out.is_empty() {
        return fail(shown, format!("printed {:?}", cut(&out)));
    }
    let e = String::from_utf8_lossy(&err);
    if !e.contains(p.file_name().unwrap().to_str().unwrap()) {
        return fail(shown, format!("reported as {:?}", cut(&err)));
    }
    if code.is_none() || e.contains("panicked") {
        return fail(shown, format!("it crashed: {:?} {}", code, cut(&err)));
    }
    pass(shown, true, vec![what])
}
