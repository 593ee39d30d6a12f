//! C09 and C23: bitcode written by LLVM's own tools.

use super::c04_08::parse;
use super::c10_16::wrapped;
use super::*;
use crate::ctx::*;
use crate::llvm::*;
use crate::mapgen::many;
use crate::obs::*;
use crate::refmap::{self, part, RefModule};
use crate::stream::*;
use crate::util::*;
use crate::{irgen, layout, real};
use llvm_bitstream::Bitstream;

pub static C09: Prop = Prop {
    id: "C09",
    run: c09,
    cases: unlimited,
    min_cases: |_| 24,
    secs: default_secs,
    hang_secs: 120,
    rule: "Cases: files written by LLVM 18's tools: random modules from llvm-stress, with and without optimization, debug information, use lists, module hashes and summaries; generated modules with every kind of global entity, constant and metadata; random C and C++ programs compiled for 27 targets with debug information, LTO, profiling, coverage and sanitizers; precompiled headers and serialized diagnostics; several modules joined by llvm-cat; any of them in a wrapper. Oracle: the same file's dump by llvm-bcanalyzer, compared entry by entry (wrapper words, block IDs and lengths, record codes, all operands, blobs, abbreviation IDs). Distinct: (block ID, record code, abbreviated or not, shape of the operands) seen in compared files.",
    assumptions: &["llvm-bcanalyzer 18.1.3 reports what a file contains"],
};

/// The first difference between the analyzer's lines and the parsed entries.
fn compare(lines: &[Line], wrapper: Option<[u32; 5]>, evs: &[Ev]) -> Result<(), String> {
    let mut lines = lines;
    match (lines.first(), wrapper) {
        (Some(Line::Wrapper(w)), Some(g)) if *w == g => lines = &lines[1..],
        (Some(Line::Wrapper(w)), g) => return Err(format!("the wrapper is {w:x?}, got {g:x?}")),
        (_, Some(g)) => return Err(format!("there is no wrapper, got {g:x?}")),
        _ => {}
    }
    for (i, l) in lines.iter().enumerate() {
        let Some(e) = evs.get(i) else {
            return Err(format!("entry {i} is missing: {l:?}"));
        };
        let same = match (l, e) {
            (Line::Enter { id, words }, Ev::Enter { id: gid, len }) => id == gid && words * 4 == *len,
            (Line::Exit, Ev::Exit) => true,
            (Line::Rec { abbrev, code, ops, tail }, Ev::Rec { abbrev: ga, code: gc, fields }) => {
                abbrev == ga
                    && code == gc
                    && fields.starts_with(ops)
                    && match tail {
                        Tail::None => fields.len() == ops.len(),
                        Tail::Blob(b) => fields[ops.len()..].iter().copied().eq(b.iter().map(|b| *b as u64)),
                        Tail::Strings(v) => strings(&fields[..ops.len()], &fields[ops.len()..]).is_some_and(|g| g == *v),
                    }
            }
            _ => false,
        };
        if !same {
            return Err(format!("entry {i} is {}, got {}", clip(&format!("{l:?}"), 400), e.short()));
        }
    }
    if evs.len() != lines.len() {
        return Err(format!("{} entries, got {}", lines.len(), evs.len()));
    }
    Ok(())
}

/// The strings of a metadata string table: counts and offset, then lengths and characters.
fn strings(ops: &[u64], blob: &[u64]) -> Option<Vec<Vec<u8>>> {
    let [n, offset] = *ops else { return None };
    let b: Vec<u8> = blob.iter().map(|x| *x as u8).collect();
    let mut r = crate::bits::ModelReader::new(&b);
    let mut at = offset as usize;
    let mut out = vec![];
    for _ in 0..n {
        let crate::bits::ModelVbr::Value(l) = r.vbr(6) else { return None };
        out.push(b.get(at..at + l as usize)?.to_vec());
        at += l as usize;
    }
    Some(out)
}

fn c09(cx: &mut Ctx) {
    let s = Scratch::new(cx.case);
    let r = match real::any(&mut cx.rng, &s) {
        Ok(r) => r,
        Err(e) => {
            cx.count("files that LLVM's tools refused to make", 1);
            if std::env::var("MON_VERBOSE").is_ok() {
                eprintln!("{}", clip(&e, 800));
            }
            return;
        }
    };
    let data = std::fs::read(s.path(&r.file)).expect("LLVM's output");
    check(cx, &s, &r.file, &r.how, &data);
    if !data.starts_with(&WRAPPER_MAGIC.to_le_bytes()) && data.len() % 4 == 0 && cx.rng.chance(1, 3) {
        let w = wrapped(&mut cx.rng, &data);
        s.file("wrapped.bc", &w);
        check(cx, &s, "wrapped.bc", &format!("{}, wrapped", r.how), &w);
    }
}

fn check(cx: &mut Ctx, s: &Scratch, file: &str, how: &str, data: &[u8]) {
    let want = match analyze(s, file) {
        Ok(w) => w,
        Err(e) => {
            cx.count("files that the analyzer doesn't report in full", 1);
            if std::env::var("MON_VERBOSE").is_ok() {
                eprintln!("{how}: {}", clip(&e, 400));
            }
            return;
        }
    };
    cx.eval();
    let wrapper = match guard(|| Bitstream::from(data)) {
        Ok(Ok((w, _))) => w.map(|w| [w.magic, w.version, w.offset, w.size, w.cpu_type]),
        Ok(Err(e)) => return cx.violation("refused", format!("{how}: opening fails: {e:?}"), data),
        Err(p) => return cx.violation("panic", format!("{how}: opening: {p}"), data),
    };
    let (_, evs, end) = parse(data, usize::MAX);
    if !matches!(end, End::None) {
        return cx.violation("refused", format!("{how}: after {} of {} entries: {end:?}", evs.len(), want.len()), data);
    }
    if let Err(d) = compare(&want, wrapper, &evs) {
        return cx.violation("content", format!("{how}: {d}"), data);
    }
    let mut open = vec![];
    for e in &evs {
        match e {
            Ev::Enter { id, .. } => {
                open.push(*id);
                cx.max("max depth of blocks", open.len() as u64);
                cx.distinct(hash_bytes(format!("{open:?}").as_bytes()));
            }
            Ev::Exit => {
                open.pop();
            }
            Ev::Rec { abbrev, code, fields } => {
                cx.count(if abbrev.is_some() { "abbreviated records" } else { "unabbreviated records" }, 1);
                let top = fields.iter().copied().max().unwrap_or(0);
                cx.max("max operands in a record", fields.len() as u64);
                cx.distinct(Fnv::new().u(*open.last().unwrap_or(&99)).u(*code).u(abbrev.unwrap_or(0)).u(64 - (fields.len() as u64).leading_zeros() as u64).u((64 - top.leading_zeros() as u64) / 8).0);
            }
        }
    }
    cx.count("files compared", 1);
    cx.count("entries compared", evs.len() as u64);
    cx.count(&format!("files by {}", how.split([' ', '|']).next().unwrap_or("")), 1);
    if wrapper.is_some() {
        cx.count("wrapped files", 1);
    }
    cx.sample(|| format!("{how}: {} bytes, {} entries", data.len(), evs.len()));
}

// ---- C23 ---------------------------------------------------------------------------------------

pub static C23: Prop = Prop {
    id: "C23",
    run: c23,
    cases: unlimited,
    min_cases: |_| 24,
    secs: default_secs,
    hang_secs: 120,
    rule: "Cases: random IR (global variables, types of every kind, declarations, aliases, COMDATs, sections, collectors, attributes of functions, results and parameters, module assembly, layouts, triples, names with any characters) written by a generator that also knows the entities; assembled by llvm-as with different options; up to five (seldom 60) modules joined by llvm-cat with and without its binary mode, seldom with thousands of entities, texts of 20000 bytes or hundreds of parameters. Oracle: the generator's knowledge of the source. Distinct: (kinds of entities in the module, layout and triple present, log2 of the counts of functions, aliases and sections, way of joining).",
    assumptions: &["llvm-as 18.1.3 writes what its input says"],
};

fn producer() -> String {
    static P: std::sync::OnceLock<String> = std::sync::OnceLock::new();
    P.get_or_init(|| {
        let o = std::process::Command::new(tool("llvm-config")).arg("--version").output().expect("llvm-config");
        format!("LLVM{}", String::from_utf8_lossy(&o.stdout).trim())
    })
    .clone()
}

fn c23(cx: &mut Ctx) {
    let s = Scratch::new(cx.case);
    let n = match cx.rng.below(60) {
        0 => many(&mut cx.rng, 60),
        1..=20 => cx.rng.ur(2, 5),
        _ => 1,
    };
    let alone = n == 1 && cx.rng.chance(4, 5);
    let mut made = vec![];
    for i in 0..n {
        let size = match cx.rng.below(4) {
            _ if n > 5 => cx.rng.ur(1, 3),
            _ if n == 1 && cx.rng.chance(1, 40) => many(&mut cx.rng, 1200),
            0 => 1,
            1 | 2 => cx.rng.ur(2, 8),
            _ => cx.rng.ur(8, 30),
        };
        let src = irgen::module(&mut cx.rng, size, !alone);
        s.file(&format!("m{i}.ll"), src.text.as_bytes());
        let out = format!("m{i}.bc");
        let ll = format!("m{i}.ll");
        let mut a = vec!["-disable-verify", &ll, "-o", &out];
        match cx.rng.below(4) {
            0 => a.push("-preserve-bc-uselistorder"),
            1 => a.push("-module-hash"),
            _ => {}
        }
        if let Err(e) = run(&s, "llvm-as", &a) {
            cx.count("modules that the assembler refused", 1);
            if std::env::var("MON_VERBOSE").is_ok() {
                eprintln!("{}", clip(&e, 800));
            }
            continue;
        }
        cx.count("modules assembled", 1);
        made.push((out, src));
    }
    if made.is_empty() {
        return;
    }
    let (file, join) = if alone {
        (made[0].0.clone(), 0)
    } else {
        let b = cx.rng.bool();
        let mut a = vec![];
        if b {
            a.push("-b");
        }
        a.extend(made.iter().map(|m| m.0.as_str()));
        a.extend(["-o", "cat.bc"]);
        if let Err(e) = run(&s, "llvm-cat", &a) {
            cx.count("files that llvm-cat refused", 1);
            if std::env::var("MON_VERBOSE").is_ok() {
                eprintln!("{}", clip(&e, 800));
            }
            return;
        }
        ("cat.bc".to_string(), 1 + b as u64)
    };
    let mut data = std::fs::read(s.path(&file)).expect("LLVM's output");
    if cx.rng.chance(1, 6) && !data.starts_with(&WRAPPER_MAGIC.to_le_bytes()) {
        data = wrapped(&mut cx.rng, &data);
    }
    let shown = || clip_to(&made.iter().map(|m| m.1.text.as_str()).collect::<Vec<_>>().join("\n; ----\n"), 1500);
    cx.eval();
    let m = match refmap::map(&data) {
        Ok(m) => m,
        Err(p) => return cx.violation("panic", format!("{p}\nsource:\n{}", shown()), &data),
    };
    let got = match m.result {
        Ok(g) => g,
        Err(e) => return cx.violation("refused", format!("{e}\nsource:\n{}", shown()), &data),
    };
    let mut want: Vec<RefModule> = made.iter().map(|m| m.1.want.clone()).collect();
    for (i, w) in want.iter_mut().enumerate() {
        w.producer = producer();
        if let Some(g) = got.modules.get(i) {
            // Whether the end of the last line starts another one is left open.
            let lines = g.module.asm.join("\n");
            let a = &made[i].1.asm;
            if lines == *a || format!("{lines}\n") == *a {
                w.asm = g.module.asm.clone();
            } else {
                w.asm = a.split('\n').map(String::from).collect();
            }
        }
    }
    let o = refmap::compare(&want, &got, &m.seen, part::IDENT | part::TEXTS | part::COMDATS | part::FUNCTIONS | part::ALIASES);
    if let Some(d) = o.diff {
        return cx.violation("content", format!("{d}\nsource:\n{}", shown()), &data);
    }
    for u in o.unobserved {
        cx.count(&format!("unobserved: {}", clip(&u, 60)), 1);
    }
    for (i, (_, src)) in made.iter().enumerate() {
        let table = got.modules[i].strtab.as_ref();
        // Looking for all of many names takes long.
        let every = 1 + table.len() * src.names.len() / 50_000_000;
        for n in src.names.iter().step_by(every) {
            if !contains(table, n.as_bytes()) {
                return cx.violation("content", format!("module {i}: the string table lacks {n:?}"), &data);
            }
        }
        let ctx = m.seen.contexts.get(i).and_then(|c| parse_debug(c));
        if let (Some(l), Some(v)) = (&src.layout, ctx.as_ref().and_then(|c| c.field("datalayout"))) {
            if let layout::V::Is(l) = layout::model(l) {
                if let M::Diff(d) = matches(v, &l.pat(), "the layout") {
                    return cx.violation("content", format!("module {i}: {d}\nsource:\n{}", shown()), &data);
                }
                cx.count("layouts compared", 1);
            }
        }
        let lg = |n: usize| 64 - (n as u64).leading_zeros() as u64;
        cx.count("functions compared", src.want.functions.len() as u64);
        cx.count("aliases compared", src.want.aliases.len() as u64);
        cx.count("COMDATs compared", src.want.comdats.len() as u64);
        cx.count("modules compared", 1);
        cx.distinct(
            Fnv::new().u(src.feats).u(src.has_layout as u64).u(src.want.triple.is_some() as u64).u(lg(src.want.functions.len())).u(lg(src.want.aliases.len())).u(lg(src.want.sections.len())).u(join).0,
        );
    }
    cx.sample(|| format!("{} modules, {} bytes, joined {join}:\n{}", made.len(), data.len(), shown()));
}

fn contains(h: &[u8], n: &[u8]) -> bool {
    n.is_empty() || h.windows(n.len()).any(|w| w == n)
}
