//! C22: the dump and unroll programs, observed as processes.

use super::c04_08::mutate;
use super::c10_16::{mutate_bytes, mutate_tree, wrapped};
use super::*;
use crate::ctx::*;
use crate::llvm::Scratch;
use crate::mapgen::*;
use crate::obs;
use crate::refmap::{self, Judgement};
use crate::stream::*;
use crate::util::*;
use llvm_mapper::unroll::Bitcode;
use std::os::unix::ffi::OsStringExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

pub static C22: Prop = Prop {
    id: "C22",
    run: c22,
    cases: unlimited,
    min_cases: |_| 24,
    secs: default_secs,
    hang_secs: 120,
    rule: "Cases: the two example programs, built from the repository's tree, run as processes on generated files: streams and bitcode files, raw and wrapped, changed at random, truncated, empty, nested up to a thousand deep, with up to 40000 records or a million operands, random bytes; missing files, directories, files below files, symlink loops, names that aren't UTF-8 and missing arguments; with and without RUST_LOG and RUST_BACKTRACE, with relative and absolute paths. Monitors: exit status (by signal, 101 and the text of a panic are crashes), standard output against what the reference decoder prescribes line by line (dump) or against the mapped modules' content (unroll), standard error non-empty on failures. Distinct: (program, kind of file, outcome).",
    assumptions: &["standard output is a pipe that is read to its end"],
};

struct Ran {
    code: Option<i32>,
    signal: Option<i32>,
    out: String,
    err: String,
}

#[derive(Clone, Copy, PartialEq)]
enum Prog {
    Dump,
    Unroll,
}

fn binary(p: Prog) -> PathBuf {
    let dir = std::env::var("MON_BIN").map(PathBuf::from).unwrap_or_else(|_| {
        std::env::current_exe().ok().and_then(|e| e.parent().map(Path::to_path_buf)).unwrap_or_default()
    });
    dir.join(match p {
        Prog::Dump => "dump-bitstream",
        Prog::Unroll => "unroll-bitstream",
    })
}

fn run(p: Prog, dir: &Path, args: &[std::ffi::OsString], env: &[(&str, &str)]) -> Ran {
    let mut c = Command::new(binary(p));
    c.args(args).current_dir(dir).stdin(Stdio::null());
    for v in ["RUST_LOG", "RUST_BACKTRACE", "RUST_LOG_STYLE", "RUST_LIB_BACKTRACE"] {
        c.env_remove(v);
    }
    for (k, v) in env {
        c.env(k, v);
    }
    crate::llvm::contain(&mut c);
    let o = c.output().unwrap_or_else(|e| panic!("{}: {e}", binary(p).display()));
    Ran {
        code: o.status.code(),
        signal: o.status.signal(),
        out: String::from_utf8_lossy(&o.stdout).into_owned(),
        err: String::from_utf8_lossy(&o.stderr).into_owned(),
    }
}

fn name(p: Prog) -> &'static str {
    match p {
        Prog::Dump => "dump-bitstream",
        Prog::Unroll => "unroll-bitstream",
    }
}

/// Judges what holds of every run; `Some(success)` if it holds.
fn crash(cx: &mut Ctx, p: Prog, r: &Ran, data: &[u8], what: &str) -> Option<bool> {
    cx.eval();
    cx.count(&format!("runs of {}", name(p)), 1);
    let err = clip(&r.err, 500);
    if r.signal.is_some() || r.code == Some(101) || r.err.lines().any(|l| l.starts_with("thread '") && l.contains("panicked at")) {
        cx.violation("crash", format!("{} on {what}: exit {:?}, signal {:?}: {err}", name(p), r.code, r.signal), data);
        return None;
    }
    let ok = r.code == Some(0);
    if !ok && r.err.trim().is_empty() {
        cx.violation("silent", format!("{} on {what}: exit {:?} without a diagnostic", name(p), r.code), data);
        return None;
    }
    Some(ok)
}

/// What the dump program prints below the wrapper.
fn lines(magic: u32, evs: &[Ev]) -> Vec<String> {
    let mut v = vec![format!("Entered bitstream; magic: {magic:#X}")];
    let mut depth = 0;
    for e in evs {
        match e {
            Ev::Enter { id, .. } => {
                v.push(format!("{}BLOCK {id} {{", "\t".repeat(depth)));
                depth += 1;
            }
            Ev::Exit => {
                depth -= 1;
                v.push(format!("{}}}", "\t".repeat(depth)));
            }
            Ev::Rec { code, fields, .. } => v.push(format!("{}RECORD {{ code: {code}, fields: {fields:?} }}", "\t".repeat(depth))),
        }
    }
    v
}

/// The wrapper's words and the bitstream in a file, or None if it has to be refused.
fn payload(d: &[u8]) -> Option<(Option<[u32; 5]>, &[u8])> {
    let word = |i: usize| d.get(4 * i..4 * i + 4).map(|b| u32::from_le_bytes(b.try_into().unwrap()));
    if word(0)? != WRAPPER_MAGIC {
        return (d.len() % 4 == 0).then_some((None, d));
    }
    let w = [word(0)?, word(1)?, word(2)?, word(3)?, word(4)?];
    let (off, size) = (w[2] as usize, w[3] as usize);
    if off + size > d.len() || size % 4 != 0 || size < 4 {
        return None;
    }
    Some((Some(w), &d[off..off + size]))
}

fn check_dump(cx: &mut Ctx, r: &Ran, ok: bool, data: &[u8], what: &str) {
    let shown = || format!("exit {:?}, output {}, error {}; file {}", r.code, clip(&r.out, 600), clip(&r.err, 300), clip(&hex(data), 1200));
    let Some((w, p)) = payload(data) else {
        if ok || !r.out.is_empty() {
            cx.violation("dump", format!("{what}: a container to be refused isn't: {}", shown()), data);
        }
        cx.count("refused containers", 1);
        return;
    };
    let mut out = r.out.as_str();
    if let Some(w) = w {
        let Some(rest) = out.strip_prefix("Wrapper: ") else {
            return cx.violation("dump", format!("{what}: the wrapper isn't shown: {}", shown()), data);
        };
        let end = rest.find("\nEntered").map(|i| i + 1).unwrap_or(rest.len());
        let pat = obs::Pat::Rec(
            ["magic", "version", "offset", "size", "cpu_type"].into_iter().zip(w).map(|(n, v)| (n, obs::Pat::Num(v as u64))).collect(),
        );
        match obs::parse_debug(&rest[..end]).map(|v| obs::matches(&v, &pat, "wrapper")) {
            Some(obs::M::Same) => cx.count("wrappers compared", 1),
            Some(obs::M::Diff(d)) => return cx.violation("dump", format!("{what}: {d}: {}", shown()), data),
            Some(obs::M::Unobserved(u)) => cx.count(&format!("unobserved: {}", clip(&u, 50)), 1),
            None => cx.count("unobserved: unreadable wrapper", 1),
        }
        out = &rest[end..];
    } else if out.starts_with("Wrapper") {
        return cx.violation("dump", format!("{what}: a wrapper that isn't there: {}", shown()), data);
    }
    let magic = u32::from_le_bytes(p[..4].try_into().unwrap());
    let f = reference(p);
    let want = lines(magic, &f.evs);
    let mut got: Vec<&str> = out.split('\n').collect();
    if got.last() == Some(&"") {
        got.pop();
    }
    let at = want.iter().zip(&got).position(|(a, b)| a != b);
    let differ = |at: usize, want: Option<&String>, got: Option<&&str>| {
        format!("{what}: line {at} is {:?}, expected {:?}: {}", got.map(|s| clip(s, 200)), want.map(|s| clip(s, 200)), shown())
    };
    if let Some(at) = at {
        return cx.violation("dump", differ(at, want.get(at), got.get(at)), data);
    }
    match f.status {
        Status::End => {
            if !ok {
                return cx.violation("dump", format!("{what}: a whole stream, but it fails: {}", shown()), data);
            }
            if want.len() != got.len() {
                let at = want.len().min(got.len());
                return cx.violation("dump", differ(at, want.get(at), got.get(at)), data);
            }
        }
        Status::Bad(b) => {
            if ok {
                return cx.violation("dump", format!("{what}: success on a malformed stream ({b}): {}", shown()), data);
            }
            if got.len() > want.len() {
                return cx.violation("dump", differ(want.len(), None, got.get(want.len())), data);
            }
        }
        // Nothing is prescribed from here on.
        Status::Unspec(_) => {
            if ok && got.len() < want.len() {
                return cx.violation("dump", differ(got.len(), want.get(got.len()), None), data);
            }
        }
    }
    cx.count("lines of dumps compared", got.len() as u64);
    cx.distinct(Fnv::new().bytes(what.as_bytes()).u(ok as u64).u(got.len() as u64).u(w.is_some() as u64).0);
}

fn check_unroll(cx: &mut Ctx, r: &Ran, ok: bool, data: &[u8], what: &str) {
    let shown = || format!("exit {:?}, output {}, error {}; file {}", r.code, clip(&r.out, 600), clip(&r.err, 300), clip(&hex(data), 1200));
    // What the file's content demands, where it's decisive.
    let mut must: Option<bool> = None;
    match payload(data) {
        None => must = Some(false),
        Some((_, p)) => {
            let f = reference(p);
            match f.status {
                Status::End => {
                    if let Some(top) = refmap::tree(&f.evs) {
                        if top.iter().map(|b| b.depth()).max().unwrap_or(0) < 100 {
                            let mut j = Judgement::default();
                            let n = refmap::file(&top, &mut j).len();
                            if j.bad.is_some() {
                                must = Some(false);
                            } else if j.unspec.is_none() {
                                must = Some(true);
                                cx.max("max modules unrolled", n as u64);
                            }
                        }
                    }
                }
                Status::Bad(_) => must = Some(false),
                _ => {}
            }
        }
    }
    if let Some(m) = must {
        if m != ok {
            return cx.violation("unroll", format!("{what}: {} although it {} modules: {}", if ok { "succeeds" } else { "fails" }, if m { "maps to" } else { "doesn't map to" }, shown()), data);
        }
        cx.count("unroll outcomes prescribed by the model", 1);
    }
    // What it prints are the mapped modules.
    let lib = match guard(|| Bitcode::try_from(data).map(|b| format!("{b:?}")).ok()) {
        Ok(l) => l,
        Err(p) => return cx.violation("crash", format!("{what}: mapping {p}"), data),
    };
    match (&lib, ok) {
        (Some(l), true) => match (obs::canonical_debug(l), obs::canonical_debug(&r.out)) {
            (Some(a), Some(b)) if a == b => cx.count("unrolled content compared", 1),
            (Some(a), Some(b)) => {
                let at = a.bytes().zip(b.bytes()).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
                let i = (0..=at.saturating_sub(60)).rev().find(|i| a.is_char_boundary(*i) && b.is_char_boundary(*i)).unwrap_or(0);
                return cx.violation("unroll", format!("{what}: the content differs: mapped {}, printed {}: {}", clip(&a[i..], 300), clip(&b[i..], 300), shown()), data);
            }
            _ if r.out.trim().is_empty() => return cx.violation("unroll", format!("{what}: nothing is printed: {}", shown()), data),
            _ => cx.count("unobserved: unreadable output", 1),
        },
        (None, false) => {
            if !r.out.is_empty() {
                return cx.violation("unroll", format!("{what}: output despite a failure: {}", shown()), data);
            }
            cx.count("refusals by unroll", 1);
        }
        _ => return cx.violation("unroll", format!("{what}: mapping in process {}: {}", if lib.is_some() { "succeeds" } else { "fails" }, shown()), data),
    }
    cx.distinct(Fnv::new().bytes(what.as_bytes()).u(ok as u64).u(hash_str(&r.out)).0);
}

fn make(cx: &mut Ctx) -> (Vec<u8>, &'static str) {
    let rng = &mut cx.rng;
    let (mut d, mut what) = match rng.below(12) {
        0 => {
            let n = rng.us(80);
            let mut d = rng.bytes(n);
            if rng.bool() {
                d.splice(0..0, [0x42, 0x43, 0xc0, 0xde]);
            }
            (d, "random bytes")
        }
        1..=4 => {
            let n = rng.ur(1, 60);
            (random_stream(rng, n).bytes(), "stream")
        }
        5 => {
            // Deep nesting: the dump prints it all; whether it unrolls isn't prescribed.
            let mut s = SW::new(0xdec0_4342);
            let n = *rng.pick(&[10usize, 60, 129, 300, 1000]);
            for _ in 0..n {
                s.enter(8, 3);
                if rng.chance(1, 10) {
                    s.unabbrev(1, &[2]);
                }
            }
            for _ in 0..n {
                s.exit();
            }
            (s.bytes(), "deep nesting")
        }
        6 => {
            let mut s = SW::new(random_magic(rng));
            s.enter(8, 3);
            let what = if rng.chance(2, 3) {
                let n = rng.ur(100, 4000);
                let f: Vec<u64> = (0..n).map(|_| rng.wild()).collect();
                s.unabbrev(1, &f);
                "long record"
            } else {
                let n = many(rng, 40_000);
                for i in 0..n as u64 {
                    s.unabbrev(i % 9, &[]);
                }
                "many records"
            };
            s.exit();
            (s.bytes(), what)
        }
        7 if rng.chance(1, 6) => {
            let (s, what) = random_large(rng);
            (s.bytes(), what)
        }
        _ => {
            let f = 1 << rng.below(6) | if rng.chance(1, 3) { 0 } else { focus::SMALL };
            let mut top = file_tree(rng, f);
            let mut what = "file";
            if rng.chance(1, 3) {
                let n = rng.ur(1, 4);
                mutate_tree(rng, &mut top, n);
                what = "changed file";
            }
            let style = if rng.bool() { refmap::Style::Plain } else { refmap::Style::Random };
            let mut d = refmap::write(rng, &top, style);
            if rng.chance(1, 6) {
                mutate_bytes(rng, &mut d);
                what = "changed bytes of a file";
            }
            (d, what)
        }
    };
    if rng.chance(1, 6) && d.len() > 8 {
        let o = random_stream(rng, 10).bytes();
        mutate(rng, &mut d, &o);
        what = "changed bytes";
    }
    if rng.chance(1, 5) {
        d = wrapped(rng, &d);
        what = "wrapped";
        if rng.chance(1, 4) {
            let i = rng.us(20);
            d[i] = if rng.bool() { rng.next() as u8 } else { d[i] ^ 1 << rng.below(8) };
            what = "changed wrapper";
        }
    }
    if rng.chance(1, 8) {
        let n = rng.us(d.len() + 1);
        let n = if rng.bool() { n / 4 * 4 } else { n };
        d.truncate(n);
        what = "truncated";
    }
    if rng.chance(1, 60) {
        let n = rng.us(4);
        d.truncate(n);
        what = "no magic";
    }
    (d, what)
}

fn env(rng: &mut Rng) -> Vec<(&'static str, &'static str)> {
    let mut v = vec![];
    if rng.chance(1, 4) {
        v.push(("RUST_LOG", *rng.pick(&["trace", "debug", "llvm_bitstream=debug", "info", "off", "llvm_mapper=trace"])));
    }
    if rng.chance(1, 6) {
        v.push(("RUST_BACKTRACE", "1"));
    }
    v
}

fn c22(cx: &mut Ctx) {
    let scratch = Scratch::new(cx.case);
    let dir = &scratch.0;
    for i in 0..10 {
        let (data, what) = make(cx);
        let file = format!("input{i}.bc");
        std::fs::write(dir.join(&file), &data).expect("scratch file");
        let arg = if cx.rng.bool() { PathBuf::from(&file) } else { dir.join(&file) };
        // Logging shows the state at every step, which takes long when that's large.
        let env = if data.len() > 8000 { vec![] } else { env(&mut cx.rng) };
        for p in [Prog::Dump, Prog::Unroll] {
            let r = run(p, dir, &[arg.clone().into_os_string()], &env);
            let what = format!("{what}{}", if env.iter().any(|e| e.0 == "RUST_LOG") { ", logging" } else { "" });
            let Some(ok) = crash(cx, p, &r, &data, &what) else { return };
            cx.count(&format!("{}: {}", name(p), if ok { "success" } else { "failure" }), 1);
            match p {
                Prog::Dump => check_dump(cx, &r, ok, &data, &what),
                Prog::Unroll => check_unroll(cx, &r, ok, &data, &what),
            }
            if !cx.violations.is_empty() {
                return;
            }
            cx.sample(|| format!("{} on {} bytes ({what}): exit {:?}, output {}", name(p), data.len(), r.code, clip(&r.out, 200)));
        }
    }
    unreadable(cx, dir);
}

/// Files that can't be read, and wrong usage.
fn unreadable(cx: &mut Ctx, dir: &Path) {
    let p = if cx.rng.bool() { Prog::Dump } else { Prog::Unroll };
    let (args, what): (Vec<std::ffi::OsString>, &str) = match cx.rng.below(7) {
        0 => (vec!["missing.bc".into()], "a missing file"),
        1 => (vec![dir.as_os_str().to_owned()], "a directory"),
        2 => (vec!["input0.bc/x".into()], "a path below a file"),
        3 => {
            let l = dir.join("loop");
            let _ = std::os::unix::fs::symlink(&l, &l);
            (vec![l.into_os_string()], "a symlink loop")
        }
        4 => (vec![], "no argument"),
        5 => (vec![std::ffi::OsString::from_vec(b"missing\xff.bc".to_vec())], "a missing file whose name isn't UTF-8"),
        _ => {
            std::fs::write(dir.join("empty"), b"").expect("scratch file");
            (vec!["empty".into()], "an empty file")
        }
    };
    let env = env(&mut cx.rng);
    let r = run(p, dir, &args, &env);
    let Some(ok) = crash(cx, p, &r, &[], what) else { return };
    if ok || !r.out.is_empty() {
        return cx.violation("unreadable", format!("{} on {what}: exit {:?}, output {}", name(p), r.code, clip(&r.out, 300)), &[]);
    }
    cx.count(&format!("{}: {what}", name(p)), 1);
    cx.distinct(hash_str(what) ^ p as u64);
}
