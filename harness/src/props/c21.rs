//! C21: results depend only on the input bytes.

use super::c04_08::mutate;
use super::c10_16::{around, mutate_bytes, mutate_tree, wrapped};
use super::*;
use crate::ambient;
use crate::ctx::*;
use crate::llvm::Scratch;
use crate::mapgen::*;
use crate::obs;
use crate::refmap::{self, *};
use crate::stream::*;
use crate::util::*;
use llvm_bitcursor::BitCursor;
use llvm_bitstream::error::Error as BsError;
use llvm_bitstream::Bitstream;
use llvm_mapper::unroll::Bitcode;
use std::borrow::Cow;
use std::cell::{Cell, RefCell};
use std::fmt::Write as _;
use std::io::{Seek, SeekFrom};
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Barrier, Mutex};

pub static C21: Prop = Prop {
    id: "C21",
    run: c21,
    cases: unlimited,
    min_cases: |_| 64,
    secs: default_secs,
    hang_secs: 60,
    rule: "Cases: six to twelve inputs (generated streams and bitcode files, raw and wrapped, with and without random changes; random bytes), each parsed and mapped once for a baseline transcript (wrapper, magic, entries or modules, error), then again: from other kinds of buffers, through other entry points, at every log level, in other orders, in one reused buffer with contents of equal length, after files that fail at any record of any block, with the steps of several parsers interleaved on one thread, handed from thread to thread in the middle, files close to the limits several times at once on four threads, on named threads with the C library's environment, clock, process and directory functions answering differently (and, if any environment variable was ever asked for, in other processes where it has each of 13 values), re-entrantly from within buffer accesses and log messages, and on four threads at once with injected yields; also histories of cursor operations on a prefix against a limited cursor. Oracle: transcripts (for some, with the contents of the modules) are equal. Distinct: (way, transcript).",
    assumptions: &["schedules of the concurrent part are those that the injected yields and the machine produce; they are counted"],
};

#[derive(Clone, Copy, Debug, PartialEq)]
enum How {
    Next,
    Advance,
    Mixed,
    /// `from_raw` or `from_wrapped`, as the magic demands.
    Explicit,
    ByRef,
}

const WAYS: [How; 5] = [How::Next, How::Advance, How::Mixed, How::Explicit, How::ByRef];

fn is_wrapped(d: &[u8]) -> bool {
    d.len() >= 4 && d[..4] == WRAPPER_MAGIC.to_le_bytes()
}

/// A parse in progress.
struct Parse<T: AsRef<[u8]>> {
    out: String,
    bs: Option<Bitstream<T>>,
    n: usize,
    how: How,
}

impl<T: AsRef<[u8]>> Parse<T> {
    fn open(buf: T, wrapped: bool, how: How) -> Self {
        let mut out = String::new();
        let r = guard(|| match how {
            How::Explicit if wrapped => Bitstream::from_wrapped(buf).map(|(w, b)| (Some(w), b)),
            How::Explicit => Bitstream::from_raw(buf).map(|b| (None, b)),
            _ => Bitstream::from(buf),
        });
        let bs = match r {
            Err(p) => {
                let _ = write!(out, "open: {p}");
                None
            }
            Ok(Err(e)) => {
                // Explicit opening may word the same refusal differently.
                let _ = write!(out, "refused");
                if how != How::Explicit {
                    let _ = write!(out, ": {e:?}");
                }
                None
            }
            Ok(Ok((w, b))) => {
                let _ = write!(out, "{:?} {:#x}", w, b.magic);
                Some(b)
            }
        };
        Parse { out, bs, n: 0, how }
    }
    /// One more entry; false at the end.
    fn step(&mut self) -> bool {
        let Some(bs) = &mut self.bs else { return false };
        let advance = match self.how {
            How::Advance => true,
            How::Mixed => (self.n * 7 + 3) % 5 < 2,
            _ => false,
        };
        self.n += 1;
        let by_ref = self.how == How::ByRef;
        let r = guard(|| {
            if advance {
                match bs.advance() {
                    Ok(e) => Some(Ok(e)),
                    Err(BsError::Exhausted) => None,
                    Err(e) => Some(Err(e)),
                }
            } else if by_ref {
                bs.by_ref().take(1).last()
            } else {
                bs.next()
            }
        });
        let more = match r {
            Err(p) => {
                let _ = write!(self.out, " {p}");
                false
            }
            Ok(None) => {
                self.out.push_str(" end");
                false
            }
            Ok(Some(Err(e))) => {
                let _ = write!(self.out, " {e:?}");
                false
            }
            Ok(Some(Ok(e))) => {
                let _ = write!(self.out, " {:?}", ev_of(e));
                self.n < 1 << 20
            }
        };
        if !more {
            self.bs = None;
        }
        more
    }
    fn run(mut self) -> String {
        while self.step() {}
        self.out
    }
}

fn parse<T: AsRef<[u8]>>(buf: T, wrapped: bool, how: How) -> String {
    Parse::open(buf, wrapped, how).run()
}

fn mapped<E: std::fmt::Debug>(r: Result<Result<Bitcode, E>, Panic>) -> String {
    let (s, ok) = match r {
        Err(p) => return format!("{p}"),
        Ok(Err(e)) => (format!("{e:?}"), false),
        Ok(Ok(b)) => (format!("{b:?}"), true),
    };
    match obs::canonical_debug(&s) {
        Some(c) => format!("{} {c}", if ok { "mapped" } else { "refused" }),
        // Unreadable output: maps in it have no order.
        None if ok && s.contains('{') => {
            let mut b = s.into_bytes();
            b.sort();
            format!("mapped, {:x}", hash_bytes(&b))
        }
        None => format!("refused {s}"),
    }
}

fn map(data: &[u8]) -> String {
    mapped(guard(|| Bitcode::try_from(data)))
}

/// Like [map], with what the mapper logs of each module's contents.
fn observed(data: &[u8]) -> String {
    let (mut s, seen) = obs::capture(|| map(data));
    for (name, list) in [("contexts", &seen.contexts), ("functions", &seen.functions), ("aliases", &seen.aliases)] {
        for l in list {
            // Without a readable form, maps in it have no order.
            let c = obs::canonical_debug(l).unwrap_or_else(|| format!("{} bytes", l.len()));
            let _ = write!(s, "; {name} {c}");
        }
    }
    s
}

fn map_from<T: AsRef<[u8]>>(buf: T, how: How, wrapped: bool) -> String {
    let r = guard(|| match how {
        How::Explicit if wrapped => Bitstream::from_wrapped(buf).map(|r| r.1),
        How::Explicit => Bitstream::from_raw(buf),
        _ => Bitstream::from(buf).map(|r| r.1),
    });
    match r {
        Err(p) => format!("{p}"),
        Ok(Err(_)) => "refused at opening".into(),
        Ok(Ok(bs)) => mapped(guard(|| Bitcode::try_from(bs))),
    }
}

struct Case {
    data: Vec<u8>,
    kind: &'static str,
    wrapped: bool,
    /// The baselines.
    parsed: String,
    mapped: String,
    /// Like `mapped`, with the modules' contents.
    seen: String,
}

fn input(rng: &mut Rng) -> (Vec<u8>, &'static str) {
    match rng.below(16) {
        0 => {
            let n = rng.us(120);
            let mut d = rng.bytes(n);
            if rng.bool() {
                d.splice(0..0, [0x42, 0x43, 0xc0, 0xde]);
                d.truncate(d.len() / 4 * 4);
            }
            (d, "random bytes")
        }
        1..=5 => {
            let n = rng.ur(1, 40);
            let mut d = random_stream(rng, n).bytes();
            let mut kind = "stream";
            if rng.chance(1, 3) {
                let o = random_stream(rng, 10).bytes();
                for _ in 0..rng.ur(1, 3) {
                    mutate(rng, &mut d, &o);
                }
                kind = "changed stream";
            }
            if rng.chance(1, 4) {
                d = wrapped(rng, &d);
                if rng.chance(1, 5) {
                    let i = rng.us(20);
                    d[i] = rng.next() as u8;
                }
                kind = "wrapped stream";
            }
            (d, kind)
        }
        _ => {
            let f = 1 << rng.below(6) | if rng.chance(1, 25) { 0 } else { focus::SMALL };
            let mut top = file_tree(rng, f);
            let mut kind = "file";
            if rng.chance(1, 3) {
                let n = rng.ur(1, 5);
                mutate_tree(rng, &mut top, n);
                kind = "changed file";
            }
            let style = if rng.bool() { refmap::Style::Plain } else { refmap::Style::Random };
            let mut d = refmap::write(rng, &top, style);
            if rng.chance(1, 6) {
                mutate_bytes(rng, &mut d);
                kind = "changed bytes of a file";
            }
            if rng.chance(1, 6) {
                d = wrapped(rng, &d);
            }
            (d, kind)
        }
    }
}

/// Compares a transcript with its baseline.
fn same(cx: &mut Ctx, key: &str, way: &str, c: &Case, want: &str, got: &str) -> bool {
    cx.eval();
    if want != got {
        let at = want.bytes().zip(got.bytes()).position(|(a, b)| a != b).unwrap_or(want.len().min(got.len()));
        let from = |s: &str| {
            let mut i = at.saturating_sub(80).min(s.len());
            while !s.is_char_boundary(i) {
                i -= 1;
            }
            clip(&s[i..], 600)
        };
        cx.violation(
            key,
            format!("{} ({} bytes): {way}: results differ at {at}: first ...{} then ...{}; input {}", c.kind, c.data.len(), from(want), from(got), clip(&hex(&c.data), 1200)),
            &c.data,
        );
        return false;
    }
    cx.count(key, 1);
    cx.distinct(Fnv::new().bytes(way.as_bytes()).u(hash_str(want)).0);
    true
}

/// An explicitly opened stream's refusal isn't worded alike.
fn loose(s: &str) -> &str {
    if s.starts_with("refused") {
        "refused"
    } else {
        s
    }
}

/// A mapping's baseline, for a way in which opening and mapping are separate steps.
fn in_steps<'a>(c: &'a Case) -> &'a str {
    if c.parsed.starts_with("refused") {
        "refused at opening"
    } else {
        &c.mapped
    }
}

struct Shared(Arc<Vec<u8>>, usize, usize);
impl AsRef<[u8]> for Shared {
    fn as_ref(&self) -> &[u8] {
        &self.0[self.1..self.1 + self.2]
    }
}

/// Every access hands out a slice at another address, as a reallocating buffer would.
struct Moving {
    copies: Vec<Vec<u8>>,
    n: Cell<usize>,
    len: usize,
}
impl Moving {
    fn new(d: &[u8]) -> Moving {
        let copies = (0..3)
            .map(|i| {
                let mut v = vec![0x5a; i];
                v.extend(d);
                v.extend(vec![0xa5; i]);
                v
            })
            .collect();
        Moving { copies, n: Cell::new(0), len: d.len() }
    }
}
impl AsRef<[u8]> for Moving {
    fn as_ref(&self) -> &[u8] {
        let i = self.n.get() % 3;
        self.n.set(self.n.get() + 1);
        &self.copies[i][i..i + self.len]
    }
}

fn c21(cx: &mut Ctx) {
    for _ in 0..4 {
        prefix(cx);
        if !cx.violations.is_empty() {
            return;
        }
    }
    let n = cx.rng.ur(6, 12);
    let mut cases: Vec<Case> = vec![];
    for _ in 0..n {
        let (data, kind) = input(&mut cx.rng);
        let wrapped = is_wrapped(&data);
        let (parsed, mapped, seen) = ambient::watched(|| (parse(data.as_slice(), wrapped, How::Next), map(&data), observed(&data)));
        cx.count("inputs", 1);
        if mapped.starts_with("mapped") {
            cx.count("inputs that map", 1);
        }
        if parsed.ends_with(" end") {
            cx.count("inputs that parse", 1);
        }
        cases.push(Case { data, kind, wrapped, parsed, mapped, seen });
    }
    let cases = Arc::new(cases);
    let i = cx.rng.us(n);
    cx.sample(|| format!("{}: {} bytes: {}", cases[i].kind, cases[i].data.len(), clip(&cases[i].parsed, 300)));
    let surroundings = cx.rng.us(n);
    for c in cases.iter() {
        supplies(cx, c);
        entry_points(cx, c);
        logging(cx, c);
        if !cx.violations.is_empty() {
            return;
        }
    }
    same_place(cx, &cases);
    if elsewhere(cx, &cases[surroundings]) {
        let c = at_limits(&mut cx.rng);
        elsewhere(cx, &c);
        other_processes(cx, &cases);
    }
    // What takes long isn't done hundreds of times.
    let cases: Vec<Case> = match Arc::try_unwrap(cases) {
        Ok(v) => v.into_iter().filter(|c| c.data.len() < 30_000 && c.seen.len() < 300_000).collect(),
        Err(_) => unreachable!(),
    };
    if cases.is_empty() || !cx.violations.is_empty() {
        return;
    }
    let cases = Arc::new(cases);
    repeated(cx, &cases);
    interleaved(cx, &cases);
    aborted(cx);
    handed_over(cx, &cases);
    reentrant(cx, &cases);
    if cx.violations.is_empty() {
        concurrent(cx, &cases);
        together(cx);
    }
}

fn supplies(cx: &mut Ctx, c: &Case) {
    let d = &c.data;
    let mut odd = vec![0u8; 1 + cx.rng.us(7)];
    let at = odd.len();
    odd.extend(d);
    odd.extend(cx.rng.bytes(5));
    let mut roomy = Vec::with_capacity(d.len() + 64);
    roomy.extend(d);
    let shared = Arc::new(odd.clone());
    macro_rules! way {
        ($name:expr, $e:expr) => {
            let s = parse($e, c.wrapped, How::Next);
            if !same(cx, "supplied another way", concat!("parsing ", $name), c, &c.parsed, &s) {
                return;
            }
            let s = map_from($e, How::Next, c.wrapped);
            if !same(cx, "supplied another way", concat!("mapping ", $name), c, in_steps(c), &s) {
                return;
            }
        };
    }
    way!("an owned vector", d.clone());
    way!("a vector with room to spare", roomy.clone());
    way!("a borrowed vector", d);
    way!("a boxed slice", d.clone().into_boxed_slice());
    way!("an Rc", Rc::<[u8]>::from(d.as_slice()));
    way!("an Arc", Arc::<[u8]>::from(d.as_slice()));
    way!("a borrowed Cow", Cow::Borrowed(d.as_slice()));
    way!("a slice at an odd address", &odd[at..at + d.len()]);
    way!("a view into a shared buffer", Shared(shared.clone(), at, d.len()));
    way!("a buffer that moves", Moving::new(d));
    let s = map(&odd[at..at + d.len()]);
    same(cx, "supplied another way", "mapping a slice at an odd address", c, &c.mapped, &s);
}

/// What [elsewhere] compares, printed by another process: a line for each input in a file.
pub fn transcript(path: &str) {
    let all = std::fs::read(path).expect("read");
    let mut rest = all.as_slice();
    let mut out = String::new();
    while let Some((n, r)) = rest.split_first_chunk::<8>() {
        let (d, r) = r.split_at(u64::from_le_bytes(*n) as usize);
        let _ = writeln!(out, "{:?}", (parse(d, is_wrapped(d), How::Next), map(d)));
        rest = r;
    }
    print!("{out}");
}

/// In other surroundings: on another thread, at another time, with other environment variables.
fn elsewhere(cx: &mut Ctx, c: &Case) -> bool {
    let seed = cx.rng.next() >> 1 | 1;
    let tries = ambient::VALUES.len() as u64;
    for k in 0..tries {
        let before = ambient::seen();
        let name = ["main", "", "worker-7", "tokio-runtime-worker", "\u{20ac}"][(seed.wrapping_add(k) % 5) as usize];
        let (p, m, s) = std::thread::scope(|s| {
            std::thread::Builder::new()
                .name(name.into())
                .stack_size(crate::driver::STACK)
                .spawn_scoped(s, || {
                    ambient::perturbed(seed.wrapping_add(k).max(1), || {
                        (parse(c.data.as_slice(), c.wrapped, How::Next), map(&c.data), if c.seen.is_empty() { String::new() } else { observed(&c.data) })
                    })
                })
                .expect("spawn")
                .join()
                .unwrap()
        });
        if !same(cx, "in other surroundings", "parsing in other surroundings", c, &c.parsed, &p)
            || !same(cx, "in other surroundings", "mapping in other surroundings", c, &c.mapped, &m)
            || !c.seen.is_empty() && !same(cx, "in other surroundings", "observed in other surroundings", c, &c.seen, &s)
        {
            return false;
        }
        if ambient::seen() == before {
            // It asked for nothing, so there is no other answer.
            break;
        }
        cx.count("runs that looked at their surroundings", 1);
    }
    true
}

/// What the library asks its environment for may be kept for the rest of the process, so it's also
/// asked in other processes.
fn other_processes(cx: &mut Ctx, cases: &[Case]) {
    let names = ambient::names();
    if names.is_empty() {
        return;
    }
    let mut more = vec![];
    for _ in 0..200 {
        let (data, kind) = input(&mut cx.rng);
        let wrapped = is_wrapped(&data);
        more.push(Case { parsed: parse(data.as_slice(), wrapped, How::Next), mapped: map(&data), seen: String::new(), data, kind, wrapped });
    }
    more.push(at_limits(&mut cx.rng));
    let all: Vec<&Case> = cases.iter().chain(&more).collect();
    let mut bytes = vec![];
    for c in &all {
        bytes.extend((c.data.len() as u64).to_le_bytes());
        bytes.extend(&c.data);
    }
    let dir = Scratch::new(cx.case);
    let file = dir.file("inputs", &bytes);
    for n in &names {
        for v in ambient::VALUES {
            let mut cmd = std::process::Command::new(std::env::current_exe().expect("exe"));
            cmd.arg("transcript").arg(&file).env_remove(n);
            if let Some(v) = v {
                cmd.env(n, v.to_str().unwrap_or(""));
            }
            let Ok(o) = cmd.output() else { continue };
            let o = String::from_utf8_lossy(&o.stdout).into_owned();
            let mut lines = o.lines();
            let way = format!("in a process where {n} is {v:?}");
            for c in &all {
                let want = format!("{:?}", (&c.parsed, &c.mapped));
                if !same(cx, "in another environment", &way, c, &want, lines.next().unwrap_or("no answer")) {
                    return;
                }
            }
        }
    }
}

fn entry_points(cx: &mut Ctx, c: &Case) {
    for how in WAYS {
        let s = parse(c.data.as_slice(), c.wrapped, how);
        let (w, g) = if how == How::Explicit { (loose(&c.parsed), loose(&s)) } else { (c.parsed.as_str(), s.as_str()) };
        if !same(cx, "through another entry point", &format!("{how:?}"), c, w, g) {
            return;
        }
    }
    for how in [How::Next, How::Explicit] {
        let s = map_from(c.data.as_slice(), how, c.wrapped);
        if !same(cx, "through another entry point", "mapping an opened stream", c, in_steps(c), &s) {
            return;
        }
    }
}

fn logging(cx: &mut Ctx, c: &Case) {
    use log::Level::*;
    for level in [Error, Warn, Info, Debug, Trace] {
        if level < Debug && cx.rng.chance(2, 3) {
            continue;
        }
        let how = *cx.rng.pick(&WAYS[..3]);
        let ((p, m), n) = obs::verbose(level, || (parse(c.data.as_slice(), c.wrapped, how), map(&c.data)));
        cx.count("log messages formatted", n);
        if !same(cx, "logging", "parsing while logging", c, &c.parsed, &p) || !same(cx, "logging", "mapping while logging", c, &c.mapped, &m) {
            return;
        }
    }
    // What only the log shows has to be the same each time, too.
    let shown = |s: &obs::Captured| -> Vec<Option<String>> {
        s.contexts.iter().chain(&s.functions).chain(&s.aliases).map(|t| obs::canonical_debug(t)).collect()
    };
    let mut seen: Option<Vec<Option<String>>> = None;
    for _ in 0..2 {
        let (r, s) = obs::capture(|| map(&c.data));
        if !same(cx, "logging", "mapping while observed", c, &c.mapped, &r) {
            return;
        }
        let s = shown(&s);
        if let Some(first) = &seen {
            for (a, b) in first.iter().zip(&s) {
                if let (Some(a), Some(b)) = (a, b) {
                    if !same(cx, "contexts, functions and aliases", "observed entities", c, a, b) {
                        return;
                    }
                } else {
                    cx.count("unobserved: unreadable log", 1);
                }
            }
            if first.len() != s.len() {
                same(cx, "contexts, functions and aliases", "observed entities", c, &format!("{} entities", first.len()), &format!("{} entities", s.len()));
                return;
            }
        }
        seen = Some(s);
    }
}

/// Inputs of one length in one buffer, one after the other.
fn same_place(cx: &mut Ctx, cases: &[Case]) {
    let mut all: Vec<(Vec<u8>, &'static str)> = vec![];
    // A file with other letters in its strings.
    let f = *cx.rng.pick(&[focus::TEXTS, focus::TOP, focus::ENTITIES, focus::STRTAB]);
    let mut top = file_tree(&mut cx.rng, f | focus::SMALL);
    let style = if cx.rng.bool() { refmap::Style::Plain } else { refmap::Style::Random };
    let seed = cx.rng.clone();
    let base = refmap::write(&mut seed.clone(), &top, style);
    for _ in 0..10 {
        for p in paths(&top) {
            for n in &mut at(&mut top, &p).items {
                if let refmap::Node::R(_, f) = n {
                    for v in f {
                        if (b'g' as u64..=b'w' as u64).contains(v) && cx.rng.chance(1, 6) {
                            *v ^= 1 + cx.rng.below(2);
                        }
                    }
                }
            }
        }
        let d = refmap::write(&mut seed.clone(), &top, style);
        if d.len() == base.len() {
            all.push((d, "a file with other letters"));
        }
    }
    all.push((base, "a file"));
    let c = cx.rng.pick(cases);
    all.push((c.data.clone(), c.kind));
    // Others of the same lengths: changed, wrapped or not, cut off, padded.
    for _ in 0..6 {
        let mut d = cx.rng.pick(&all).0.clone();
        let len = d.len();
        match cx.rng.below(5) {
            0 | 1 => {
                // A wrapper in front of as much of the stream as there's room for.
                if is_wrapped(&d) {
                    d.drain(..20.min(len));
                } else {
                    d = wrapped(&mut cx.rng, &d);
                }
            }
            2 => {
                // A shorter file in a wrapper, with something behind it.
                let small = file_tree(&mut cx.rng, focus::TEXTS | focus::SMALL);
                let e = refmap::write(&mut cx.rng, &small, refmap::Style::Plain);
                d = wrapped(&mut cx.rng, &e);
            }
            3 => {
                let i = cx.rng.us(len.max(1) - 1);
                if let Some(b) = d.get_mut(i) {
                    *b ^= 1 << cx.rng.below(8);
                }
            }
            _ => mutate_bytes(&mut cx.rng, &mut d),
        }
        d.resize(len, 0);
        all.push((d, "a changed file"));
    }
    // Each in its own place first, all of which exist at once.
    let base: Vec<Case> = all
        .into_iter()
        .map(|(data, kind)| {
            let wrapped = is_wrapped(&data);
            let (parsed, mapped, seen) = (parse(data.as_slice(), wrapped, How::Next), map(&data), observed(&data));
            Case { data, kind, wrapped, parsed, mapped, seen }
        })
        .collect();
    let mut buf = vec![0u8; base.iter().map(|c| c.data.len()).max().unwrap_or(0)];
    for _ in 0..40 {
        let c = cx.rng.pick(&base);
        let n = c.data.len();
        buf[..n].copy_from_slice(&c.data);
        let d = &buf[..n];
        let ok = match cx.rng.below(4) {
            0 => same(cx, "in a reused buffer", "parsing", c, &c.parsed, &parse(d, c.wrapped, How::Next)),
            1 => same(cx, "in a reused buffer", "mapping", c, &c.mapped, &map(d)),
            2 => same(cx, "in a reused buffer", "mapping an opened stream", c, in_steps(c), &map_from(d, How::Next, c.wrapped)),
            _ => same(cx, "in a reused buffer", "mapping with contents", c, &c.seen, &observed(d)),
        };
        if !ok {
            return;
        }
    }
}

/// In another order, after other inputs.
fn repeated(cx: &mut Ctx, cases: &[Case]) {
    for _ in 0..3 * cases.len() {
        let c = &cases[cx.rng.us(cases.len())];
        let how = *cx.rng.pick(&WAYS[..3]);
        let ok = if cx.rng.bool() {
            let s = parse(c.data.as_slice(), c.wrapped, how);
            same(cx, "repeated in another order", "parsing again", c, &c.parsed, &s)
        } else {
            let s = observed(&c.data);
            same(cx, "repeated in another order", "mapping again", c, &c.seen, &s)
        };
        if !ok {
            return;
        }
    }
}

/// A file that fails to map at any point of any block leaves nothing behind for the next one.
fn aborted(cx: &mut Ctx) {
    let f = *cx.rng.pick(&[focus::TYPES, focus::ATTRS, focus::ENTITIES, focus::TEXTS, focus::TOP]);
    let top = file_tree(&mut cx.rng, f | focus::SMALL);
    let style = if cx.rng.bool() { refmap::Style::Plain } else { refmap::Style::Random };
    let data = refmap::write(&mut cx.rng, &top, style);
    let want = observed(&data);
    for _ in 0..24 {
        let mut bad = top.clone();
        let ps = paths(&bad);
        if ps.is_empty() {
            return;
        }
        let p = cx.rng.pick(&ps).clone();
        let b = at(&mut bad, &p);
        // The state that's kept while a block is mapped depends on the records just before.
        let i = cx.rng.ur(0, b.items.len());
        let rec = match cx.rng.below(4) {
            0 => (cx.rng.range(40, 200), vec![]),
            1 => (cx.rng.range(1, 26), vec![]),
            2 => (cx.rng.range(1, 26), vec![u64::MAX, 300]),
            _ => (cx.rng.range(1, 26), vec![cx.rng.wild()]),
        };
        b.items.insert(i, Node::R(rec.0, rec.1));
        if cx.rng.chance(1, 3) {
            b.items.truncate(i + 1);
        }
        let bytes = refmap::write(&mut cx.rng, &bad, style);
        let s = map(&bytes);
        cx.count(if s.starts_with("mapped") { "changed files that map, before another" } else { "files that fail to map, before another" }, 1);
        let got = observed(&data);
        let c = Case { data: data.clone(), kind: "file", wrapped: false, parsed: String::new(), mapped: String::new(), seen: String::new() };
        if !same(cx, "mapped after a failure", "mapping after another file", &c, &want, &got) {
            if let Some(v) = cx.violations.last_mut() {
                v.msg.push_str(&clip(&format!("; the other file {bad:?}"), 3000));
            }
            return;
        }
    }
}

/// Several parsers alive at once on one thread, also of the same input.
fn interleaved(cx: &mut Ctx, cases: &[Case]) {
    let n = cx.rng.ur(2, 5);
    let which: Vec<usize> = (0..n).map(|_| cx.rng.us(cases.len())).collect();
    let mut ps: Vec<Option<Parse<&[u8]>>> = which
        .iter()
        .map(|i| Some(Parse::open(cases[*i].data.as_slice(), cases[*i].wrapped, *cx.rng.pick(&WAYS[..3]))))
        .collect();
    let mut live = n;
    while live > 0 {
        let k = cx.rng.us(n);
        let burst = cx.rng.ur(1, 4);
        let Some(p) = &mut ps[k] else { continue };
        for _ in 0..burst {
            if !p.step() {
                let p = ps[k].take().unwrap();
                live -= 1;
                if !same(cx, "interleaved on a thread", "parsing in turns", &cases[which[k]], &cases[which[k]].parsed, &p.out) {
                    return;
                }
                break;
            }
        }
        cx.count("turns of interleaved parsers", 1);
        if cx.rng.chance(1, 40) {
            // Opening, dropping and mapping in between.
            let c = &cases[cx.rng.us(cases.len())];
            let s = map(&c.data);
            if !same(cx, "interleaved on a thread", "mapping in between", c, &c.mapped, &s) {
                return;
            }
            drop(guard(|| Bitstream::from(c.data.as_slice()).map(|mut b| b.1.next().is_some())));
        }
    }
}

/// Whether a type can be sent to another thread, without requiring it: a parser which can't (one
/// that shares its abbreviations by `Rc`, say) is still a correct parser.
struct Sends<T>(std::marker::PhantomData<T>);
trait SendsNot {
    const YES: bool = false;
}
impl<T> SendsNot for Sends<T> {}
impl<T: Send> Sends<T> {
    const YES: bool = true;
}
/// Only ever sent if what's in it may be.
struct Sent<T>(T);
unsafe impl<T> Send for Sent<T> {}

/// A parse continued on other threads.
fn handed_over(cx: &mut Ctx, cases: &[Case]) {
    if !Sends::<Parse<Vec<u8>>>::YES {
        cx.count("handovers impossible: the parser can't be sent", 1);
        return;
    }
    let k = cx.rng.us(cases.len());
    let c = &cases[k];
    let mut p = Sent(Parse::open(c.data.clone(), c.wrapped, How::Next));
    let mut more = true;
    let mut hops = 0;
    while more && hops < 4 {
        let steps = cx.rng.ur(0, 20);
        hops += 1;
        (p, more) = std::thread::scope(|s| {
            s.spawn(move || {
                let mut p = p;
                let whole: &mut Sent<_> = &mut p;
                for _ in 0..steps {
                    if !whole.0.step() {
                        return (p, false);
                    }
                }
                (p, true)
            })
            .join()
            .unwrap()
        });
    }
    cx.count("handovers between threads", hops);
    let s = p.0.run();
    same(cx, "handed from thread to thread", "parsing on several threads", c, &c.parsed, &s);
}

/// A buffer whose n-th access runs something else first.
struct Reentrant<'a> {
    data: &'a [u8],
    n: Cell<u64>,
    every: u64,
    other: &'a Case,
    busy: &'a Cell<bool>,
    bad: &'a RefCell<Option<(bool, String)>>,
    runs: &'a Cell<u64>,
}
impl AsRef<[u8]> for Reentrant<'_> {
    fn as_ref(&self) -> &[u8] {
        let n = self.n.get();
        self.n.set(n + 1);
        if n % self.every == self.every - 1 && !self.busy.get() && self.runs.get() < 12 {
            self.busy.set(true);
            self.runs.set(self.runs.get() + 1);
            let m = map(&self.other.data);
            if m != self.other.mapped {
                *self.bad.borrow_mut() = Some((false, m));
            }
            let p = parse(self.other.data.as_slice(), self.other.wrapped, How::Next);
            if p != self.other.parsed {
                *self.bad.borrow_mut() = Some((true, p));
            }
            self.busy.set(false);
        }
        self.data
    }
}

fn reentrant(cx: &mut Ctx, cases: &[Case]) {
    let c = &cases[cx.rng.us(cases.len())];
    let other = &cases[cx.rng.us(cases.len())];
    let (busy, bad, runs) = (Cell::new(false), RefCell::new(None), Cell::new(0));
    let every = match cx.rng.below(3) {
        0 => 1 + cx.rng.below(8),
        1 => 10 + cx.rng.below(90),
        _ => 100 + cx.rng.below(1000),
    };
    let buf = || Reentrant { data: &c.data, n: Cell::new(0), every, other, busy: &busy, bad: &bad, runs: &runs };
    let s = parse(buf(), c.wrapped, How::Next);
    same(cx, "with others run from buffer accesses", "parsing", c, &c.parsed, &s);
    runs.set(0);
    let s = map_from(buf(), How::Next, c.wrapped);
    same(cx, "with others run from buffer accesses", "mapping", c, in_steps(c), &s);
    cx.count("re-entrant runs", runs.get());
    if let Some((p, s)) = bad.take() {
        let want = if p { &other.parsed } else { &other.mapped };
        same(cx, "with others run from buffer accesses", "the inner run", other, want, &s);
    }
    // The same from within the mapper, which doesn't access the buffer: from its log messages.
    let most = if cx.rng.bool() { 6 } else { 60 };
    let every = 1 + cx.rng.below(most);
    let inner = Rc::new((Cell::new(0u64), Cell::new(0u64), RefCell::new(None)));
    let hook = {
        let (inner, data, want) = (inner.clone(), other.data.clone(), other.seen.clone());
        move |target: &str| {
            let (n, runs, bad) = &*inner;
            n.set(n.get() + target.starts_with("llvm_mapper") as u64);
            if target.starts_with("llvm_mapper") && n.get() % every == 0 && runs.get() < 20 {
                runs.set(runs.get() + 1);
                let s = observed(&data);
                if s != want {
                    bad.replace(Some(s));
                }
            }
        }
    };
    let s = obs::hooked(Rc::new(hook), || observed(&c.data));
    same(cx, "with others run from log messages", "mapping", c, &c.seen, &s);
    cx.count("runs from log messages", inner.1.get());
    if let Some(s) = inner.2.take() {
        same(cx, "with others run from log messages", "the inner run", other, &other.seen, &s);
    }
}

// ---- Threads -----------------------------------------------------------------------------------

thread_local! {
    static NOISE: Cell<u64> = const { Cell::new(0) };
}

struct Noisy<'a> {
    data: &'a [u8],
    me: u64,
    last: &'a AtomicU64,
    switches: &'a AtomicU64,
}
impl AsRef<[u8]> for Noisy<'_> {
    fn as_ref(&self) -> &[u8] {
        if self.last.swap(self.me, Ordering::Relaxed) != self.me {
            self.switches.fetch_add(1, Ordering::Relaxed);
        }
        noise(97);
        self.data
    }
}

/// Now and then, a delay.
fn noise(rarity: u64) {
    let mut x = NOISE.with(|n| n.get());
    let r = splitmix(&mut x);
    NOISE.with(|n| n.set(x));
    match r % rarity {
        0..=3 => std::thread::yield_now(),
        4 => {
            for _ in 0..r >> 56 {
                std::hint::spin_loop();
            }
        }
        5 if r >> 60 == 0 => std::thread::sleep(std::time::Duration::from_micros((r >> 32) % 40)),
        _ => {}
    }
}

fn concurrent(cx: &mut Ctx, cases: &Arc<Vec<Case>>) {
    const THREADS: u64 = 4;
    let (last, switches) = (AtomicU64::new(99), AtomicU64::new(0));
    let order = Mutex::new(Vec::<(u64, usize, bool)>::new());
    let barrier = Barrier::new(THREADS as usize);
    let stop = AtomicBool::new(false);
    let mut plans = vec![];
    let hot = cx.rng.us(cases.len());
    for _ in 0..THREADS {
        let mut plan: Vec<(usize, u64)> = (0..cases.len().min(6)).map(|_| (cx.rng.us(cases.len()), cx.rng.below(4))).collect();
        // The same input on every thread at once.
        plan.insert(0, (hot, cx.rng.below(4)));
        plans.push((cx.rng.next(), plan));
    }
    // Either with the modules' contents and with delays in the middle of mapping, or with or
    // without logging on some threads.
    let contents = cx.rng.chance(1, 3);
    let logged = !contents && cx.rng.bool();
    if logged || contents {
        obs::global_level(log::LevelFilter::Debug);
    }
    let bad: Vec<(usize, bool, String)> = std::thread::scope(|s| {
        let hs: Vec<_> = plans
            .iter()
            .enumerate()
            .map(|(t, (seed, plan))| {
                let (last, switches, order, barrier, stop, cases) = (&last, &switches, &order, &barrier, &stop, &cases[..]);
                std::thread::Builder::new()
                    .stack_size(2 << 20)
                    .spawn_scoped(s, move || {
                        let mut bad = vec![];
                        NOISE.with(|n| n.set(*seed));
                        if logged && t % 2 == 0 {
                            obs::verbose_here(Some(log::Level::Debug));
                        }
                        barrier.wait();
                        for (i, k) in plan {
                            if stop.load(Ordering::Relaxed) {
                                break;
                            }
                            let c = &cases[*i];
                            order.lock().unwrap().push((t as u64, *i, true));
                            let buf = || Noisy { data: &c.data, me: t as u64, last, switches };
                            match k {
                                0 => {
                                    let s = parse(buf(), c.wrapped, How::Next);
                                    if s != c.parsed {
                                        bad.push((*i, true, s));
                                    }
                                }
                                1 => {
                                    let s = parse(buf(), c.wrapped, How::Advance);
                                    if s != c.parsed {
                                        bad.push((*i, true, s));
                                    }
                                }
                                2 => {
                                    let s = map_from(buf(), How::Next, c.wrapped);
                                    if s != in_steps(c) {
                                        bad.push((*i, false, s));
                                    }
                                }
                                _ if contents => {
                                    let delays = |t: &str| if t.starts_with("llvm_mapper") { noise(12) };
                                    let s = obs::hooked(Rc::new(delays), || observed(&c.data));
                                    if s != c.seen {
                                        bad.push((*i, false, s));
                                    }
                                }
                                _ => {
                                    let s = map(&c.data);
                                    if s != c.mapped {
                                        bad.push((*i, false, s));
                                    }
                                }
                            }
                            order.lock().unwrap().push((t as u64, *i, false));
                            if !bad.is_empty() {
                                stop.store(true, Ordering::Relaxed);
                            }
                        }
                        obs::verbose_here(None);
                        bad
                    })
                    .expect("spawn")
            })
            .collect();
        hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
    });
    if logged || contents {
        obs::global_level(log::LevelFilter::Off);
    }
    let order = order.into_inner().unwrap();
    let runs = order.len() as u64 / 2;
    let mut h = Fnv::new();
    let mut running: i64 = 0;
    let mut most = 0;
    for (t, i, start) in &order {
        h = h.u(*t).u(*i as u64).u(*start as u64);
        running += if *start { 1 } else { -1 };
        most = most.max(running as u64);
    }
    cx.distinct(h.0);
    cx.evals(runs);
    cx.count("concurrent runs", runs);
    cx.count(if contents { "concurrent schedules with delays inside of the mapper" } else { "concurrent schedules" }, 1);
    cx.count("switches between threads at buffer accesses", switches.load(Ordering::Relaxed));
    cx.max("max runs in progress at once", most);
    for (i, p, s) in bad {
        let c = &cases[i];
        let want = match p || s.starts_with("refused at") {
            true => &c.parsed,
            false if contents => &c.seen,
            false => &c.mapped,
        };
        if !same(cx, "concurrent", "with others on other threads", c, want, &s) {
            return;
        }
    }
}

/// A file close to what's specified to work.
fn at_limits(rng: &mut Rng) -> Case {
    let top = match rng.below(8) {
        0..=4 => {
            let chain = rng.ur(120, 199);
            around(type_table_with(rng, chain, chain).0)
        }
        5 | 6 => {
            let mut top = around(type_table(rng, 5).0);
            let k = nested(rng);
            if rng.bool() {
                top[1].items.push(Node::B(k));
            } else {
                top.insert(0, k);
            }
            top
        }
        _ => {
            let n = rng.ur(200, 2100);
            around(type_table(rng, n).0)
        }
    };
    let style = if rng.bool() { refmap::Style::Plain } else { refmap::Style::Random };
    let data = refmap::write(rng, &top, style);
    let wrapped = is_wrapped(&data);
    let (parsed, mapped) = ambient::watched(|| (parse(data.as_slice(), wrapped, How::Next), map(&data)));
    Case { parsed, mapped, seen: String::new(), kind: "file at the limits", data, wrapped }
}

/// Files close to what's specified to work, several times on each of a few threads at once: what
/// one of them uses up isn't missing for another.
fn together(cx: &mut Ctx) {
    const THREADS: usize = 4;
    let c = at_limits(&mut cx.rng);
    let rounds = cx.rng.ur(2, 8);
    let seeds: Vec<u64> = (0..THREADS).map(|_| cx.rng.next()).collect();
    let delayed = cx.rng.bool();
    if delayed {
        obs::global_level(log::LevelFilter::Debug);
    }
    let barrier = Barrier::new(THREADS);
    let bad: Vec<String> = std::thread::scope(|s| {
        let hs: Vec<_> = seeds
            .iter()
            .map(|seed| {
                let (c, barrier) = (&c, &barrier);
                std::thread::Builder::new()
                    .stack_size(2 << 20)
                    .spawn_scoped(s, move || {
                        NOISE.with(|n| n.set(*seed));
                        let mut bad = vec![];
                        for _ in 0..rounds {
                            barrier.wait();
                            let s = if delayed {
                                let delays = |t: &str| if t.starts_with("llvm_") { noise(40) };
                                obs::hooked(Rc::new(delays), || map(&c.data))
                            } else {
                                map(&c.data)
                            };
                            if s != c.mapped {
                                bad.push(s);
                            }
                        }
                        bad
                    })
                    .expect("spawn")
            })
            .collect();
        hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
    });
    if delayed {
        obs::global_level(log::LevelFilter::Off);
    }
    cx.evals((THREADS * rounds) as u64);
    cx.count("runs of files at the limits, at once", (THREADS * rounds) as u64);
    if c.mapped.starts_with("mapped") {
        cx.count("files at the limits that map", 1);
    }
    for s in bad {
        if !same(cx, "concurrent", "with itself on other threads", &c, &c.mapped, &s) {
            return;
        }
    }
}

// ---- Prefixes ----------------------------------------------------------------------------------

fn prefix(cx: &mut Ctx) {
    let n = cx.rng.us(60);
    let mut data = if cx.rng.chance(1, 4) { vec![0xff; n] } else { cx.rng.bytes(n) };
    let extra = cx.rng.us(24);
    let tail = if cx.rng.bool() { vec![0xff; extra] } else { cx.rng.bytes(extra) };
    data.extend(tail);
    let limited = guard(|| BitCursor::new_with_len(data.as_slice(), n));
    let mut a = match limited {
        Ok(Ok(c)) => c,
        o => return cx.violation("prefix", format!("a cursor limited to {n} of {} bytes: {:?}", data.len(), o.map(|r| r.map(|_| ()))), &data),
    };
    let mut b = BitCursor::new(&data[..n]);
    let mut log: Vec<String> = vec![];
    let mut failed = false;
    for _ in 0..cx.rng.ur(1, 60) {
        let w = match cx.rng.below(4) {
            0 => cx.rng.us(70),
            1 => 1 + cx.rng.us(63),
            _ => 1 + cx.rng.us(12),
        };
        let near = |rng: &mut Rng| match rng.below(6) {
            0 => rng.wild() as i64,
            1 => n as i64 + rng.below(12) as i64 - 6,
            2 => -(rng.us(n + 2) as i64),
            _ => rng.us(n + 2) as i64,
        };
        let op = cx.rng.below(11);
        let o = near(&mut cx.rng);
        let p = match cx.rng.below(3) {
            0 => n * 8 + cx.rng.us(80),
            1 => (n * 8).saturating_sub(cx.rng.us(70)),
            _ => cx.rng.us(n * 8 + 1),
        };
        let what = |c: &mut BitCursor<&[u8]>| -> (String, bool) {
            fn r<T: std::fmt::Debug, E: std::fmt::Debug>(n: &str, x: Result<T, E>) -> (String, bool) {
                (format!("{n} {x:?}"), x.is_err())
            }
            let o = match guard(|| match op {
                0 => r("read", c.read(w)),
                1 => r("read_as u8", c.read_as::<u8>(w)),
                2 => r("read_as u32", c.read_as::<u32>(w)),
                3 => r("read_exact u16", c.read_exact::<u16>()),
                4 => r("read_exact u32", c.read_exact::<u32>()),
                5 => r("read_vbr", c.read_vbr(w % 36)),
                6 => r("read_svbr", c.read_svbr(w % 36)),
                7 => r("seek_bit", c.seek_bit(p)),
                8 => r("seek start", c.seek(SeekFrom::Start(o as u64)).map_err(|e| e.to_string())),
                9 => {
                    if w % 2 == 0 {
                        r("seek end", c.seek(SeekFrom::End(o)).map_err(|e| e.to_string()))
                    } else {
                        r("seek current", c.seek(SeekFrom::Current(o)).map_err(|e| e.to_string()))
                    }
                }
                _ => {
                    c.align32();
                    ("align32".into(), false)
                }
            }) {
                Ok(s) => s,
                Err(p) => (format!("{p}"), true),
            };
            let st = (c.tell_bit(), c.tell_byte(), c.exhausted(), c.byte_len(), c.bit_len());
            (format!("{} then {st:?}", o.0), o.1)
        };
        log.push(format!("op {op} ({w}, {o}, {p})"));
        let (x, y) = (what(&mut a), what(&mut b));
        cx.eval();
        if x != y {
            cx.violation(
                "prefix",
                format!("limited to {n} of {} bytes: {}, over the prefix alone: {}; history {}; data {}", data.len(), x.0, y.0, log.join(", "), hex(&data)),
                &data,
            );
            return;
        }
        failed |= x.1;
        if failed && cx.rng.chance(3, 4) {
            let p = cx.rng.us(n * 8 + 1);
            log.push(format!("seek_bit({p})"));
            let (x, y) = (guard(|| a.seek_bit(p).is_ok()), guard(|| b.seek_bit(p).is_ok()));
            if matches!((&x, &y), (Ok(true), Ok(true))) {
                failed = false;
            } else {
                cx.violation("prefix", format!("seek_bit({p}): {x:?} and {y:?}; history {}", log.join(", ")), &data);
                return;
            }
        }
        cx.count(if failed { "operations on a prefix after an error" } else { "operations on a prefix" }, 1);
    }
    cx.distinct(Fnv::new().u(n as u64).u(extra as u64).u(log.len() as u64).0);
}
