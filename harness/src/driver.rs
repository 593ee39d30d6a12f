//! The driver: spawns worker processes, attributes their deaths and hangs to cases, merges what
//! the monitors observed, and writes the evidence.

use crate::ctx::*;
use crate::props::{self, Prop};
use crate::util::*;
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::{Read, Write};
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

pub const STACK: usize = 2 << 20;
const WORKERS: usize = 8;

pub fn verif_dir() -> PathBuf {
    std::env::var("MON_VERIF").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

/// `known: property=<id> key=<key> <description>` lines.
pub fn known_findings(prop: &str) -> Vec<(String, String)> {
    let text = fs::read_to_string(verif_dir().join("KNOWN_FINDINGS.txt")).unwrap_or_default();
    let mut v = vec![];
    for l in text.lines() {
        let Some(rest) = l.strip_prefix("known: property=") else { continue };
        let Some((p, rest)) = rest.split_once(" key=") else { continue };
        if p != prop {
            continue;
        }
        let (key, desc) = rest.split_once(' ').unwrap_or((rest, ""));
        v.push((key.to_string(), desc.to_string()));
    }
    v
}

fn parse_tier(s: &str) -> Tier {
    if s == "thorough" {
        Tier::Thorough
    } else {
        Tier::Quick
    }
}

/// Runs one case, turning panics that escape the monitors into a violation (if they come from the
/// code under test) or a harness error.
fn run_case(p: &Prop, cx: &mut Ctx, case: u64) -> Result<(), String> {
    cx.start(case);
    match guard(|| (p.run)(cx)) {
        Ok(()) => Ok(()),
        Err(e) => {
            if e.file.contains("harness/src") || e.file.starts_with("src/") {
                Err(format!("harness error in {} case {}: {}", p.id, case, e))
            } else {
                cx.violation("panic", format!("{e}"), &[]);
                Ok(())
            }
        }
    }
}

fn on_stack<R: Send + 'static>(f: impl FnOnce() -> R + Send + 'static) -> R {
    std::thread::Builder::new()
        .stack_size(STACK)
        .spawn(f)
        .expect("spawn")
        .join()
        .unwrap_or_else(|_| std::process::exit(2))
}

pub fn find(id: &str) -> &'static Prop {
    props::ALL.iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {id}");
        std::process::exit(2)
    })
}

/// A process that hangs in the library must not outlive the one that watches it.
fn follow_parent() {
    let parent = std::os::unix::process::parent_id();
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        if std::os::unix::process::parent_id() != parent {
            std::process::exit(3);
        }
    });
}

/// `case ID TIER SEED CASE OUT`: one case on its own.
pub fn single(args: &[String]) {
    follow_parent();
    let p = find(&args[0]);
    let tier = parse_tier(&args[1]);
    let seed: u64 = args[2].parse().unwrap();
    let case: u64 = args[3].parse().unwrap();
    let out = args.get(4).cloned();
    install_panic_hook();
    let (cx, r) = on_stack(move || {
        let mut cx = Ctx::new(p.id, tier, seed);
        let r = run_case(p, &mut cx, case);
        (cx, r)
    });
    if let Err(e) = r {
        eprintln!("{e}");
        std::process::exit(2);
    }
    let known: HashSet<String> = known_findings(p.id).into_iter().map(|k| k.0).collect();
    let mut bad = false;
    for v in &cx.violations {
        if known.contains(&v.key) {
            continue;
        }
        bad = true;
        println!("[{}] {}", v.key, v.msg);
    }
    if let Some(out) = out {
        write_result(&cx, Path::new(&out), 1);
    }
    std::process::exit(if bad { 3 } else { 0 });
}

fn write_result(cx: &Ctx, out: &Path, cases: u64) {
    let mut s = String::new();
    s.push_str(&format!("N {}\nE {}\n", cases, cx.evals));
    for (k, v) in &cx.counters {
        s.push_str(&format!("C {} {}\n", v, k));
    }
    for x in &cx.samples {
        s.push_str(&format!("S {}\n", hex(x.as_bytes())));
    }
    for v in &cx.violations {
        s.push_str(&format!(
            "V {} {} {} {}\n",
            v.case,
            hex(v.key.as_bytes()),
            hex(v.msg.as_bytes()),
            hex(&v.input)
        ));
    }
    for d in &cx.distinct {
        s.push_str(&format!("D {:x}\n", d));
    }
    s.push_str("OK\n");
    let tmp = out.with_extension("tmp");
    fs::write(&tmp, s).unwrap();
    fs::rename(&tmp, out).unwrap();
}

/// `worker ID TIER SEED START STEP OUT PROGRESS DEADLINE_MS`
pub fn worker(args: &[String]) {
    follow_parent();
    let p = find(&args[0]);
    let tier = parse_tier(&args[1]);
    let seed: u64 = args[2].parse().unwrap();
    let start: u64 = args[3].parse().unwrap();
    let step: u64 = args[4].parse().unwrap();
    let out = PathBuf::from(&args[5]);
    let progress = fs::OpenOptions::new().write(true).create(true).open(&args[6]).unwrap();
    let deadline = Duration::from_millis(args[7].parse().unwrap());
    let t0 = Instant::now();
    install_panic_hook();
    let known: HashSet<String> = known_findings(p.id).into_iter().map(|k| k.0).collect();
    let r: Result<(), String> = on_stack(move || {
        let mut cx = Ctx::new(p.id, tier, seed);
        let mut c = start;
        let mut n = 0;
        let mut rec = [0u8; 16];
        while c < (p.cases)(tier) {
            if c >= (p.min_cases)(tier) && t0.elapsed() > deadline {
                break;
            }
            rec[..8].copy_from_slice(&c.to_le_bytes());
            rec[8..].copy_from_slice(&1u64.to_le_bytes());
            progress.write_all_at(&rec, 0).unwrap();
            run_case(p, &mut cx, c)?;
            n += 1;
            if cx.violations.iter().any(|v| !known.contains(&v.key)) {
                break;
            }
            // Known findings are reported once; keep room for others.
            cx.violations.truncate(2);
            c += step;
        }
        rec[8..].copy_from_slice(&2u64.to_le_bytes());
        progress.write_all_at(&rec, 0).unwrap();
        write_result(&cx, &out, n);
        Ok(())
    });
    if let Err(e) = r {
        eprintln!("{e}");
        std::process::exit(2);
    }
    std::process::exit(0);
}

#[derive(Default)]
struct Merged {
    cases: u64,
    evals: u64,
    counters: BTreeMap<String, u64>,
    samples: Vec<String>,
    violations: Vec<Violation>,
    distinct: HashSet<u64>,
}

fn merge(m: &mut Merged, path: &Path) -> bool {
    let Ok(text) = fs::read_to_string(path) else { return false };
    if !text.ends_with("OK\n") {
        return false;
    }
    let s = |h: &str| String::from_utf8_lossy(&unhex(h)).into_owned();
    for l in text.lines() {
        let Some((k, rest)) = l.split_once(' ') else { continue };
        match k {
            "N" => m.cases += rest.parse::<u64>().unwrap(),
            "E" => m.evals += rest.parse::<u64>().unwrap(),
            "C" => {
                let (n, key) = rest.split_once(' ').unwrap();
                let n: u64 = n.parse().unwrap();
                let e = m.counters.entry(key.to_string()).or_insert(0);
                if key.starts_with("max ") {
                    *e = (*e).max(n);
                } else {
                    *e += n;
                }
            }
            "S" => {
                if m.samples.len() < 12 {
                    m.samples.push(s(rest))
                }
            }
            "V" => {
                let f: Vec<&str> = rest.split(' ').collect();
                m.violations.push(Violation {
                    case: f[0].parse().unwrap(),
                    key: s(f[1]),
                    msg: s(f[2]),
                    input: unhex(f.get(3).copied().unwrap_or("")),
                });
            }
            "D" => {
                m.distinct.insert(u64::from_str_radix(rest, 16).unwrap());
            }
            _ => {}
        }
    }
    true
}

struct Worker {
    child: Option<Child>,
    shard: u64,
    gen: u32,
    last: [u8; 16],
    changed: Instant,
    deaths: u32,
}

fn tail(path: &Path) -> String {
    let mut s = String::new();
    if let Ok(mut f) = fs::File::open(path) {
        let mut b = vec![];
        let _ = f.read_to_end(&mut b);
        let b = &b[b.len().saturating_sub(600)..];
        s = String::from_utf8_lossy(b).trim().replace('\n', " / ");
    }
    s
}

/// Some cases run in a build without overflow checks and debug assertions, as users' are. Which
/// ones is settled by their number, so that they can be repeated.
const PLAIN_SHARD: u64 = 6;

/// A command that runs the build in which a case belongs.
fn program(case: u64) -> Command {
    if case % WORKERS as u64 == PLAIN_SHARD {
        if let Some(dir) = std::env::var_os("MON_PLAIN") {
            let exe = Path::new(&dir).join("molluscmon");
            let mut c = Command::new(exe);
            c.env("MON_BIN", dir);
            return c;
        }
    }
    Command::new(std::env::current_exe().unwrap())
}

/// Runs one case in a process of its own. `Ok(None)`: it passed.
fn rerun(p: &Prop, tier: Tier, seed: u64, case: u64, dir: &Path, limit: Duration) -> Option<Violation> {
    let out = dir.join(format!("single-{case}"));
    let err = dir.join(format!("single-{case}.err"));
    let _ = fs::remove_file(&out);
    let mut ch = program(case)
        .args(["case", p.id, tier.name(), &seed.to_string(), &case.to_string()])
        .arg(&out)
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(fs::File::create(&err).unwrap())
        .spawn()
        .unwrap();
    let t = Instant::now();
    loop {
        if let Some(st) = ch.try_wait().unwrap() {
            if st.code() == Some(0) {
                return None;
            }
            if st.code() == Some(3) {
                let mut m = Merged::default();
                merge(&mut m, &out);
                return m.violations.into_iter().next();
            }
            if st.code() == Some(2) {
                return None;
            }
            return Some(Violation {
                key: "crash".into(),
                msg: format!(
                    "the process running case {case} died of {} ({})",
                    st.signal().map(|s| format!("signal {s}")).unwrap_or_else(|| format!("{st}")),
                    tail(&err)
                ),
                input: vec![],
                case,
            });
        }
        if t.elapsed() > limit {
            let _ = ch.kill();
            let _ = ch.wait();
            return Some(Violation {
                key: "hang".into(),
                msg: format!("case {case} was still running after {} s", limit.as_secs()),
                input: vec![],
                case,
            });
        }
        std::thread::sleep(Duration::from_millis(5));
    }
}

/// `run ID TIER SEED`
pub fn run(args: &[String]) -> i32 {
    let p = find(&args[0]);
    let tier = parse_tier(args.get(1).map(|s| s.as_str()).unwrap_or("quick"));
    let seed: u64 = args.get(2).and_then(|s| s.parse().ok()).unwrap_or(1);
    let t0 = Instant::now();
    let dir = std::env::temp_dir().join(format!("molluscmon-{}-{}", p.id, std::process::id()));
    fs::create_dir_all(&dir).unwrap();
    let _ = fs::create_dir_all(verif_dir().join("evidence"));
    let known = known_findings(p.id);
    let known_keys: HashSet<&str> = known.iter().map(|k| k.0.as_str()).collect();

    let deadline = Duration::from_secs_f64((p.secs)(tier));
    let hang = Duration::from_secs(p.hang_secs);
    let mut m = Merged::default();
    let mut errors: Vec<String> = vec![];
    let mut notes: Vec<String> = vec![];
    let n = WORKERS as u64;

    let path = |shard: u64, gen: u32, what: &str| dir.join(format!("w{shard}-{gen}.{what}"));
    let spawn = |shard: u64, gen: u32, start: u64, left: Duration| -> Child {
        program(start)
            .args(["worker", p.id, tier.name(), &seed.to_string(), &start.to_string(), &n.to_string()])
            .arg(path(shard, gen, "out"))
            .arg(path(shard, gen, "progress"))
            .arg(left.as_millis().to_string())
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(fs::File::create(path(shard, gen, "err")).unwrap())
            .spawn()
            .unwrap()
    };
    let mut ws: Vec<Worker> = (0..n)
        .map(|i| Worker {
            child: Some(spawn(i, 0, i, deadline)),
            shard: i,
            gen: 0,
            last: [0; 16],
            changed: Instant::now(),
            deaths: 0,
        })
        .collect();

    let mut stop = false;
    while ws.iter().any(|w| w.child.is_some()) && !stop {
        std::thread::sleep(Duration::from_millis(20));
        for w in ws.iter_mut() {
            let Some(ch) = w.child.as_mut() else { continue };
            let mut rec = [0u8; 16];
            if let Ok(f) = fs::File::open(path(w.shard, w.gen, "progress")) {
                let _ = f.read_at(&mut rec, 0);
            }
            if rec != w.last {
                w.last = rec;
                w.changed = Instant::now();
            }
            let case = u64::from_le_bytes(rec[..8].try_into().unwrap());
            let started = rec[8] == 1;
            let status = ch.try_wait().unwrap();
            let hung = status.is_none() && w.changed.elapsed() > hang;
            if status.is_none() && !hung {
                continue;
            }
            if hung {
                let _ = ch.kill();
                let _ = ch.wait();
            }
            w.child = None;
            if let Some(st) = status {
                if st.code() == Some(0) {
                    let before = m.cases;
                    if !merge(&mut m, &path(w.shard, w.gen, "out")) {
                        errors.push(format!("worker {} left no result", w.shard));
                    }
                    if w.shard == PLAIN_SHARD && std::env::var_os("MON_PLAIN").is_some() {
                        *m.counters.entry("cases without overflow checks and assertions".into()).or_insert(0) += m.cases - before;
                    }
                    if m.violations.iter().any(|v| !known_keys.contains(v.key.as_str())) {
                        stop = true;
                    }
                    continue;
                }
                if st.code() == Some(2) {
                    errors.push(tail(&path(w.shard, w.gen, "err")));
                    stop = true;
                    continue;
                }
            }
            // The worker died or hung: attribute it to the case it was running.
            let how = if hung { "hung".to_string() } else { format!("{}", status.unwrap()) };
            if !started {
                errors.push(format!("worker {} {} outside a case: {}", w.shard, how, tail(&path(w.shard, w.gen, "err"))));
                stop = true;
                continue;
            }
            let limit = hang.max(Duration::from_secs(20)) * 2;
            let mut seen = None;
            for _ in 0..3 {
                seen = rerun(p, tier, seed, case, &dir, limit);
                if seen.is_some() || hung {
                    break;
                }
            }
            match seen {
                Some(v) => {
                    let fresh = !known_keys.contains(v.key.as_str());
                    m.violations.push(v);
                    if fresh {
                        // One is enough: the other workers may all hang as well.
                        stop = true;
                        break;
                    }
                }
                None => notes.push(format!(
                    "worker {} {} during case {} ({}), which did not repeat alone",
                    w.shard, how, case, tail(&path(w.shard, w.gen, "err"))
                )),
            }
            w.deaths += 1;
            if w.deaths > 20 {
                errors.push(format!("worker {} died too often", w.shard));
                continue;
            }
            w.gen += 1;
            w.last = [0; 16];
            w.changed = Instant::now();
            w.child = Some(spawn(w.shard, w.gen, case + n, deadline.saturating_sub(t0.elapsed())));
        }
    }
    for w in ws.iter_mut() {
        if let Some(ch) = w.child.as_mut() {
            let _ = ch.kill();
            let _ = ch.wait();
        }
    }

    // Report.
    let mut fresh: Vec<&Violation> = vec![];
    let mut known_seen: BTreeMap<String, u64> = BTreeMap::new();
    for v in &m.violations {
        if known_keys.contains(v.key.as_str()) {
            *known_seen.entry(v.key.clone()).or_insert(0) += 1;
        } else {
            fresh.push(v);
        }
    }
    for (k, d) in &known {
        if known_seen.contains_key(k) {
            println!("KNOWN-FINDING: property={} {}", p.id, d);
        } else {
            notes.push(format!("known finding {k} was not observed on this run"));
        }
    }
    fresh.sort_by_key(|v| v.case);
    if let Some(v) = fresh.first() {
        let rdir = verif_dir().join("replays");
        let _ = fs::create_dir_all(&rdir);
        let rp = rdir.join(format!("{}-{}-{}-{}.json", p.id, tier.name(), seed, v.case));
        let body = format!(
            "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"case\": {},\n \"key\": {},\n \"message\": {},\n \"input_hex\": {}\n}}\n",
            jstr(p.id), jstr(tier.name()), seed, v.case, jstr(&v.key), jstr(&v.msg), jstr(&hex(&v.input))
        );
        let _ = fs::write(&rp, body);
        println!("VIOLATION property={} replay={}", p.id, rp.display());
        println!("  [{}] {}", v.key, v.msg);
    }
    let wall = t0.elapsed().as_secs_f64();
    write_evidence(p, tier, seed, &m, fresh.len(), &known_seen, &notes, wall);
    for x in &notes {
        println!("note: {x}");
    }
    for e in &errors {
        eprintln!("error: {e}");
    }
    println!(
        "{} {}: {} cases, {} evaluations, {} distinct, {} violations, {:.1} s",
        p.id, tier.name(), m.cases, m.evals, m.distinct.len(), fresh.len(), wall
    );
    if std::env::var("MON_VERBOSE").is_ok() {
        for (k, v) in &m.counters {
            println!("  {k}: {v}");
        }
        for s in m.samples.iter().take(3) {
            println!("  sample: {}", clip(s, 300));
        }
    }
    let _ = fs::remove_dir_all(&dir);
    if !fresh.is_empty() {
        1
    } else if !errors.is_empty() {
        2
    } else {
        0
    }
}

#[allow(clippy::too_many_arguments)]
fn write_evidence(
    p: &Prop,
    tier: Tier,
    seed: u64,
    m: &Merged,
    violations: usize,
    known: &BTreeMap<String, u64>,
    notes: &[String],
    wall: f64,
) {
    let list = |v: &[String]| v.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", ");
    let map = |v: &BTreeMap<String, u64>| {
        v.iter().map(|(k, n)| format!("{}: {}", jstr(k), n)).collect::<Vec<_>>().join(", ")
    };
    let body = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n  \"cases\": {},\n  \"workers\": {},\n  \"observed\": {{{}}},\n  \"known_findings_observed\": {{{}}},\n  \"notes\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
        jstr(p.id),
        jstr(tier.name()),
        seed,
        m.evals,
        m.distinct.len(),
        jstr(p.rule),
        list(&m.samples),
        m.cases,
        WORKERS,
        map(&m.counters),
        map(known),
        list(notes),
        p.assumptions.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", "),
        wall,
        violations
    );
    let path = verif_dir().join("evidence").join(format!("{}.json", p.id));
    let mut f = fs::File::create(path).unwrap();
    f.write_all(body.as_bytes()).unwrap();
}

/// `replay PATH`
pub fn replay(args: &[String]) -> i32 {
    let text = fs::read_to_string(&args[0]).expect("replay file");
    let get = |k: &str| -> String {
        let at = text.find(&format!("\"{k}\": ")).expect(k) + k.len() + 4;
        let rest = &text[at..];
        let end = rest.find([',', '\n']).unwrap();
        rest[..end].trim_matches('"').to_string()
    };
    let st = program(get("case").parse().expect("case"))
        .args(["case", &get("property"), &get("tier"), &get("seed"), &get("case")])
        .status()
        .unwrap();
    if st.success() {
        println!("the case passes");
        0
    } else {
        println!("VIOLATION property={} replay={}", get("property"), args[0]);
        1
    }
}
