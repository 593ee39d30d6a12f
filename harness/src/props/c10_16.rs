//! C10 to C16: mapping bitstreams to modules.

use super::c01_03::StepBuf;
use super::*;
use crate::ctx::*;
use crate::mapgen::*;
use crate::refmap::*;
use crate::stream::*;
use crate::tables as t;
use crate::util::*;
use llvm_bitstream::Bitstream;
use llvm_mapper::unroll::Bitcode;
use std::cell::Cell;

/// Uses everything that a mapped file offers.
pub fn use_all(cx: &mut Ctx, bc: &Bitcode, data: &[u8], what: &str) -> bool {
    let refs: Vec<(u64, u64)> = (0..4).map(|_| (cx.rng.wild(), cx.rng.wild())).collect();
    cx.guarded(what, data, || {
        let mut n = 0usize;
        for m in &bc.modules {
            n += m.module.triple.len() + m.module.asm.len() + m.module.deplibs.len();
            n += m.identification.producer.len() + m.identification.epoch as usize % 2;
            n += m.strtab.as_ref().len() + m.symtab.as_ref().map(|s| s.as_ref().len()).unwrap_or(0);
            for (o, s) in &refs {
                n += m.strtab.get(&(*o, *s).into()).map(|s| s.len()).unwrap_or(0);
            }
        }
        n + format!("{bc:?}").len()
    })
    .is_some()
}

/// Maps a file and compares what the mapper does with what the model demands.
pub fn judge_file(cx: &mut Ctx, data: &[u8], top: &[Blk], parts: u32, what: &str) {
    let mut j = Judgement::default();
    let want = file(top, &mut j);
    cx.eval();
    let m = match map(data) {
        Err(p) => return cx.violation("panic", format!("{what}: mapping: {p}; file {}", clip(&format!("{top:?}"), 1500)), data),
        Ok(m) => m,
    };
    let shown = || clip(&format!("{top:?}"), 2000);
    match (&m.result, &j) {
        (Ok(_), Judgement { bad: Some(b), .. }) => {
            cx.violation("accepted", format!("{what}: mapped although it's illegal ({b}); file {}", shown()), data);
        }
        (Err(_), Judgement { bad: Some(b), .. }) => {
            let k: String = b.chars().filter(|c| !c.is_ascii_digit()).take(60).collect();
            let k = k.split(['{', '(', '"']).next().unwrap_or("").trim().to_string();
            cx.count(&format!("refused: {k}"), 1);
            cx.distinct(hash_str(&k));
        }
        (r, Judgement { unspec: Some(_), .. }) => {
            cx.count(if r.is_ok() { "unspecified, mapped" } else { "unspecified, refused" }, 1);
        }
        (Err(e), _) => {
            cx.violation("refused", format!("{what}: a legal file is refused: {e}; file {}", shown()), data);
        }
        (Ok(bc), _) => {
            let o = compare(&want, bc, &m.seen, parts);
            if let Some(d) = o.diff {
                cx.violation("content", format!("{what}: {d}; file {}", shown()), data);
                return;
            }
            for u in o.unobserved {
                let u: String = u.chars().filter(|c| !c.is_ascii_digit()).take(50).collect();
                cx.count(&format!("unobserved: {u}"), 1);
            }
            cx.count("files mapped and compared", 1);
            cx.count("modules compared", want.len() as u64);
            for w in &want {
                if parts & part::TYPES != 0 {
                    cx.count("types compared", w.types.len() as u64);
                }
                if parts & part::ATTRS != 0 {
                    cx.count("attribute groups compared", w.groups.len() as u64);
                    cx.count("attribute lists compared", w.lists.len() as u64);
                }
                if parts & part::FUNCTIONS != 0 {
                    cx.count("functions compared", w.functions.len() as u64);
                    cx.count("aliases compared", w.aliases.len() as u64);
                    cx.count("COMDATs compared", w.comdats.len() as u64);
                }
                if parts & part::TEXTS != 0 {
                    cx.count("strings compared", (w.asm.len() + w.deplibs.len() + w.sections.len() + w.gcs.len() + 2) as u64);
                }
            }
            cx.distinct(hash_str(&format!("{want:?}")));
        }
    }
    cx.sample(|| format!("{what}: {}: {}", if m.result.is_ok() { "mapped" } else { "refused" }, shown()));
}

/// Writes a tree in some style and checks the writer now and then.
pub fn encode(cx: &mut Ctx, top: &[Blk]) -> Vec<u8> {
    let style = if cx.rng.bool() { Style::Plain } else { Style::Random };
    let data = write(&mut cx.rng, top, style);
    if cx.rng.chance(1, 40) {
        let r = reference(&data);
        assert!(r.status == Status::End && tree(&r.evs).as_deref() == Some(top), "the writer is wrong: {:?}", r.status);
        cx.count("encodings checked with the reference decoder", 1);
    }
    if cx.rng.chance(1, 10) {
        cx.count("wrapped files", 1);
        return wrapped(&mut cx.rng, &data);
    }
    data
}

pub fn wrapped(rng: &mut Rng, data: &[u8]) -> Vec<u8> {
    let off = 20 + 4 * rng.us(4);
    let mut v = vec![];
    for w in [WRAPPER_MAGIC, rng.next() as u32, off as u32, data.len() as u32, rng.next() as u32] {
        v.extend(w.to_le_bytes());
    }
    v.resize(off, 0xa5);
    v.extend(data);
    for _ in 0..4 * rng.us(3) {
        v.push(rng.next() as u8);
    }
    v
}

// ---- C10 ---------------------------------------------------------------------------------------

pub static C10: Prop = Prop {
    id: "C10",
    run: c10,
    cases: unlimited,
    min_cases: |_| 64,
    secs: default_secs,
    hang_secs: 60,
    rule: "Cases: random bytes; random well-formed streams whose block IDs and codes are those of bitcode; legal files with one to twenty random changes to their blocks, records, codes, operand counts and operands, or to their bytes; legal files with one construct that the library doesn't support; files that LLVM's tools wrote, with changed bytes, and with changed trees (with and without function bodies); blocks and types nested up to 30000 deep. Monitors: panic hook and unwinding, step budget on the buffer, worker death and hang detection, stack of 2 MiB; everything that a mapped file offers is used. Distinct: (kind of case, result or error text without numbers).",
    assumptions: &[],
};

fn error_class(e: &str) -> u64 {
    hash_str(&e.chars().filter(|c| !c.is_ascii_digit()).take(160).collect::<String>())
}

/// Maps hostile data under a step budget.
pub fn hostile_map(cx: &mut Ctx, data: &[u8], what: &str) -> Option<Result<(), String>> {
    let budget = 8192 + 64 * 8 * data.len() as u64;
    let left = Cell::new(budget);
    cx.eval();
    let via_stream = cx.rng.bool();
    let r = guard(|| {
        if via_stream {
            match Bitstream::from(StepBuf { data, left: &left }) {
                Ok((_, bs)) => Bitcode::try_from(bs).map_err(|e| format!("{e:?} {e}")),
                Err(e) => Err(format!("{e:?} {e}")),
            }
        } else {
            Bitcode::try_from(data).map_err(|e| format!("{e:?} {e}"))
        }
    });
    match r {
        Err(p) => {
            cx.violation("panic", format!("{what}: {p}"), data);
            None
        }
        Ok(Err(e)) => {
            cx.sample(|| format!("{what}: {} bytes ({}): {}", data.len(), hex(&data[..data.len().min(48)]), clip(&e, 160)));
            cx.count("errors", 1);
            cx.distinct(error_class(&e));
            Some(Err(e))
        }
        Ok(Ok(bc)) => {
            cx.count("mapped", 1);
            cx.distinct(hash_str(what) ^ bc.modules.len() as u64);
            use_all(cx, &bc, data, what).then_some(Ok(()))
        }
    }
}

pub fn mutate_tree(rng: &mut Rng, top: &mut Vec<Blk>, n: usize) {
    for _ in 0..n {
        let ps = paths(top);
        if ps.is_empty() {
            return;
        }
        let p = rng.pick(&ps).clone();
        match rng.below(12) {
            0 => {
                // Change a block's ID.
                at(top, &p).id = if rng.bool() { rng.range(1, 30) } else { rng.wild_bits(32).max(1) };
            }
            1 => {
                // Copy a block to somewhere else.
                let b = at(top, &p).clone();
                if b.nodes() > 3000 {
                    continue;
                }
                let q = rng.pick(&ps).clone();
                if rng.chance(1, 4) {
                    let i = rng.ur(0, top.len());
                    top.insert(i, b);
                } else {
                    let d = at(top, &q);
                    let i = rng.ur(0, d.items.len());
                    d.items.insert(i, Node::B(b));
                }
            }
            2 => {
                if p.len() == 1 {
                    top.remove(p[0]);
                } else {
                    let i = p[p.len() - 1];
                    at(top, &p[..p.len() - 1]).items.remove(i);
                }
            }
            3 => {
                let i = rng.us(top.len());
                let k = rng.us(top.len());
                top.swap(i, k);
            }
            _ => {
                change_block(rng, at(top, &p), &[]);
            }
        }
    }
}

pub fn mutate_bytes(rng: &mut Rng, d: &mut Vec<u8>) {
    for _ in 0..rng.ur(1, 6) {
        if d.is_empty() {
            return;
        }
        let i = rng.us(d.len());
        match rng.below(7) {
            0 => d[i] = rng.next() as u8,
            1 | 2 => d[i] ^= 1 << rng.below(8),
            3 => {
                let w = i / 4 * 4;
                d.truncate(w);
            }
            4 => {
                let w = i / 4 * 4;
                let v = (rng.wild() as u32).to_le_bytes();
                for (k, b) in v.iter().enumerate() {
                    if let Some(x) = d.get_mut(w + k) {
                        *x = *b;
                    }
                }
            }
            5 => {
                let n = 4 * rng.ur(1, 8);
                let w = i / 4 * 4;
                let junk = rng.bytes(n);
                d.splice(w..w, junk);
            }
            _ => {
                // Copy a stretch elsewhere.
                let n = rng.us(d.len() - i).min(64);
                let k = rng.us(d.len());
                let c = d[i..i + n].to_vec();
                for (o, b) in c.into_iter().enumerate() {
                    if let Some(x) = d.get_mut(k + o) {
                        *x = b;
                    }
                }
            }
        }
    }
}

const IR_IDS: &[u64] = &[8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26];

fn random_ir_block(rng: &mut Rng, depth: usize) -> Blk {
    let id = if rng.chance(1, 20) { rng.wild_bits(32).max(1) } else { *rng.pick(IR_IDS) };
    let mut b = Blk::new(id);
    for _ in 0..rng.us(10) {
        if depth < 5 && rng.chance(1, 4) {
            let k = random_ir_block(rng, depth + 1);
            b.items.push(Node::B(k));
            continue;
        }
        let n = match rng.below(4) {
            0 => rng.us(3),
            1 => rng.us(40),
            _ => rng.us(14),
        };
        let wild = rng.bool();
        let f: Vec<u64> = (0..n).map(|_| if wild { rng.wild() } else { rng.below(30) }).collect();
        b.put(rng.below(28), &f);
    }
    b
}

/// Files that LLVM's tools wrote, with changes; their function bodies removed or not.
fn c10_real(cx: &mut Ctx) {
    let s = crate::llvm::Scratch::new(cx.case);
    let Ok(r) = crate::real::any(&mut cx.rng, &s) else {
        return cx.count("files that LLVM's tools refused to make", 1);
    };
    let data = std::fs::read(s.path(&r.file)).expect("LLVM's output");
    cx.count("files from LLVM's tools", 1);
    hostile_map(cx, &data, "LLVM's file");
    for _ in 0..8 {
        let mut d = data.clone();
        mutate_bytes(&mut cx.rng, &mut d);
        hostile_map(cx, &d, "LLVM's file, changed bytes");
    }
    let Some(top) = Some(reference(&data)).filter(|r| r.status == Status::End).and_then(|r| tree(&r.evs)) else { return };
    for k in 0..12 {
        let mut top = top.clone();
        for b in &mut top {
            // Bodies aren't supported, and would hide the rest.
            b.items.retain(|n| !matches!(n, Node::B(b) if b.id == 12));
            if !b.items.iter().any(|n| matches!(n, Node::B(b) if b.id == 14)) && b.id == 8 {
                b.items.push(Node::B(Blk::new(14)));
            }
        }
        if k > 0 {
            let n = if cx.rng.bool() { 1 } else { cx.rng.ur(1, 20) };
            mutate_tree(&mut cx.rng, &mut top, n);
        }
        let d = encode(cx, &top);
        if let Some(Ok(())) = hostile_map(cx, &d, "LLVM's file without bodies, changed tree") {
            cx.count("mapped files made of LLVM's", 1);
        }
    }
}

/// Blocks in blocks and types of types, far beyond what recursion can follow.
fn c10_deep(cx: &mut Ctx) {
    let rng = &mut cx.rng;
    let n = many(rng, 30_000);
    let mut s = SW::new(0xdec0_4342);
    let mut d = if rng.bool() {
        let id = rng.bool().then(|| *rng.pick(&[0u64, 8, 9, 10, 11, 12, 13, 14, 15, 17, 23, 25, 99]));
        let place = rng.below(4);
        let nest = |s: &mut SW, rng: &mut Rng| {
            for _ in 0..n {
                let id = id.unwrap_or_else(|| if rng.bool() { 8 + rng.below(18) } else { random_block_id(rng) });
                s.enter(id, rng.ur(3, 6));
                if rng.chance(1, 20) {
                    s.unabbrev(rng.below(30), &[rng.below(9), rng.below(9)]);
                }
            }
            for _ in 0..n {
                s.exit();
            }
        };
        if place == 0 {
            nest(&mut s, rng);
        }
        crate::modgen::skeleton(&mut s, |s| {
            if place == 1 {
                nest(s, rng);
            }
            s.enter(17, 4);
            s.unabbrev(1, &[1]);
            s.unabbrev(7, &[32]);
            if place == 2 {
                nest(s, rng);
            }
            s.exit();
        });
        if place == 3 {
            nest(&mut s, rng);
        }
        s.bytes()
    } else {
        // Every type refers to one before or behind it.
        let kind = rng.bool().then(|| rng.below(6));
        let (step, back, wide) = (rng.range(1, 3), rng.bool(), rng.chance(1, 5));
        crate::modgen::skeleton(&mut s, |s| {
            s.enter(17, 4);
            s.unabbrev(1, &[n as u64 + 1]);
            if back {
                s.unabbrev(7, &[32]);
            }
            for i in 0..n as u64 {
                let t = if back { (i + 1).saturating_sub(rng.range(1, step)) } else { (i + rng.range(1, step)).min(n as u64) };
                let t = if rng.chance(1, 500) { rng.below(n as u64 + 2) } else { t };
                match kind.unwrap_or_else(|| rng.below(6)) {
                    0 => s.unabbrev(8, &[t, 0]),
                    1 => s.unabbrev(11, &[1, t]),
                    2 if wide => s.unabbrev(18, &[0, t, t, t]),
                    2 => s.unabbrev(18, &[0, t]),
                    3 if wide => s.unabbrev(21, &[0, t, t]),
                    3 => s.unabbrev(21, &[0, t]),
                    4 => s.unabbrev(20, &[0, t]),
                    _ => s.unabbrev(10, &[1, t]),
                }
            }
            if !back {
                s.unabbrev(7, &[32]);
            }
            s.exit();
        });
        s.bytes()
    };
    if cx.rng.chance(1, 6) {
        mutate_bytes(&mut cx.rng, &mut d);
    }
    hostile_map(cx, &d, "deep nesting");
}

fn c10(cx: &mut Ctx) {
    if cx.case % 64 == 63 {
        return c10_real(cx);
    }
    if cx.case % 64 == 31 {
        return c10_deep(cx);
    }
    match cx.case % 8 {
        0 => {
            for _ in 0..60 {
                let n = cx.rng.us(200);
                let mut d = cx.rng.bytes(n);
                if cx.rng.chance(3, 4) {
                    d.splice(0..0, [0x42, 0x43, 0xc0, 0xde]);
                    d.truncate(d.len() / 4 * 4);
                }
                hostile_map(cx, &d, "random bytes");
            }
        }
        1 => {
            for _ in 0..20 {
                let mut top: Vec<Blk> = vec![];
                let n = cx.rng.ur(1, 6);
                for _ in 0..n {
                    let b = random_ir_block(&mut cx.rng, 0);
                    top.push(b);
                }
                if cx.rng.chance(3, 4) {
                    // What any module needs, around the random content.
                    let mut m = Blk::new(8).rec(1, &[2]).blk(Blk::new(17).rec(1, &[1]).rec(7, &[32])).blk(Blk::new(14));
                    let b = random_ir_block(&mut cx.rng, 1);
                    m.items.extend(b.items);
                    top = vec![ident(&mut cx.rng, false), m, blob(23, b"some names")];
                }
                let d = encode(cx, &top);
                hostile_map(cx, &d, "random bitcode");
            }
        }
        2 | 3 | 4 => {
            for _ in 0..10 {
                let f = 1 << cx.rng.below(6);
                let mut top = file_tree(&mut cx.rng, f);
                let n = if cx.rng.bool() { 1 } else { cx.rng.ur(1, 20) };
                mutate_tree(&mut cx.rng, &mut top, n);
                let d = encode(cx, &top);
                hostile_map(cx, &d, "changed tree");
            }
        }
        5 | 6 => {
            for _ in 0..4 {
                let f = 1 << cx.rng.below(6);
                let top = file_tree(&mut cx.rng, f);
                let d = encode(cx, &top);
                for _ in 0..12 {
                    let mut d = d.clone();
                    mutate_bytes(&mut cx.rng, &mut d);
                    hostile_map(cx, &d, "changed bytes");
                }
            }
        }
        _ => {
            for _ in 0..12 {
                unsupported(cx);
            }
        }
    }
}

/// Constructs that the library doesn't support must be reported as errors.
fn unsupported(cx: &mut Ctx) {
    let mut top = file_tree(&mut cx.rng, focus::ENTITIES);
    let ms: Vec<usize> = (0..top.len()).filter(|i| top[*i].id == 8).collect();
    if ms.is_empty() {
        return;
    }
    let mi = *cx.rng.pick(&ms);
    let m = &mut top[mi];
    let rng = &mut cx.rng;
    let what;
    match rng.below(6) {
        0 => {
            what = "a function body";
            let b = match rng.below(3) {
                0 => Blk::new(12),
                1 => Blk::new(12).rec(1, &[1]).rec(10, &[]),
                _ => Blk::new(12).rec(1, &[1]).blk(Blk::new(11)).blk(Blk::new(14)),
            };
            let at = rng.ur(0, m.items.len());
            m.items.insert(at, Node::B(b));
        }
        1 => {
            what = "a legacy attribute entry";
            let n = m.blocks(9).len();
            if n == 0 {
                m.items.push(Node::B(Blk::new(9).rec(1, &[1, 2])));
            } else {
                for it in &mut m.items {
                    if let Node::B(b) = it {
                        if b.id == 9 {
                            let at = rng.ur(0, b.items.len());
                            let f: Vec<u64> = (0..2 * rng.us(4)).map(|_| rng.small()).collect();
                            b.items.insert(at, Node::R(1, f));
                        }
                    }
                }
            }
        }
        2 | 3 => {
            what = "a legacy version";
            let v = rng.below(2);
            for it in &mut m.items {
                if let Node::R(1, f) = it {
                    f[0] = v;
                }
            }
            if m.records(8).is_empty() && m.records(14).is_empty() && m.records(12).is_empty() {
                return;
            }
        }
        4 => {
            what = "a legacy function record";
            // Without the name's reference, and too short for anything else.
            let n = rng.us(10);
            let f: Vec<u64> = (0..n).map(|_| rng.below(4)).collect();
            m.put(8, &f);
        }
        _ => {
            what = "a legacy COMDAT record";
            let n = rng.us(3);
            let f: Vec<u64> = (0..n).map(|_| rng.below(4)).collect();
            m.put(12, &f);
        }
    }
    let d = encode(cx, &top);
    if let Some(Ok(())) = hostile_map(cx, &d, what) {
        cx.violation("unsupported", format!("a file with {what} is mapped: {}", clip(&format!("{top:?}"), 2000)), &d);
    }
    cx.count(&format!("refused: {what}"), 1);
}

// ---- C11 ---------------------------------------------------------------------------------------

pub static C11: Prop = Prop {
    id: "C11",
    run: c11,
    cases: unlimited,
    min_cases: |_| 64,
    secs: default_secs,
    hang_secs: 60,
    rule: "Cases: sequences of up to 30 (seldom 140) top-level blocks (identifications, modules, string tables, symbol tables, seldom another block, also one with up to 98 levels of blocks in it, a record or a truncation), random ones and legal ones with one block moved, dropped, repeated or inserted; each block's content is unique. A model of the grouping decides between refusal and the exact list of modules with their identification, content and tables. Distinct: the sequence of block IDs.",
    assumptions: &[],
};

fn tagged(rng: &mut Rng, id: u64, k: usize) -> Blk {
    match id {
        13 => {
            if rng.chance(1, 12) {
                Blk::new(13).rec(2, &[k as u64]).rec(1, &chars(&format!("producer {k}")))
            } else {
                Blk::new(13).rec(1, &chars(&format!("producer {k}"))).rec(2, &[k as u64])
            }
        }
        8 => {
            let mut b = Blk::new(8)
                .rec(1, &[2])
                .blk(Blk::new(17).rec(1, &[2]).rec(2, &[]).rec(21, &[0, 0]))
                .rec(2, &chars(&format!("triple-{k}")))
                .rec(4, &chars(&format!("asm {k}\nx")));
            if rng.chance(1, 3) {
                b.put(8, &[0, 6, 1, 0, 1, 0, 0, 0, 0, 0]);
            }
            if rng.chance(1, 80) {
                b = b.blk(nested(rng));
            }
            b.blk(Blk::new(14))
        }
        // Mostly distinct contents, but also ones that look like nothing, or like another table's.
        23 => match rng.below(8) {
            0 => blob(23, b""),
            1 => blob(23, &[0; 9][..rng.ur(1, 9)]),
            2 => blob(23, b"table 000"),
            _ => blob(23, format!("table {k:03}").as_bytes()),
        },
        25 => match rng.below(8) {
            0 => blob(25, b""),
            1 => blob(25, &[0; 9][..rng.ur(1, 9)]),
            2 => blob(25, b"symbols 000"),
            _ => blob(25, format!("symbols {k:03}").as_bytes()),
        },
        id => Blk::new(id).rec(1, &[k as u64]),
    }
}

fn c11(cx: &mut Ctx) {
    for _ in 0..20 {
        let mut ids: Vec<u64> = vec![];
        let scenario = cx.rng.below(5);
        if scenario == 0 {
            for _ in 0..cx.rng.ur(0, 10) {
                ids.push(*cx.rng.pick(&[13, 8, 13, 8, 23, 25, 23]));
            }
        } else {
            let most = match cx.rng.below(100) {
                0 => 300,
                1..=9 => 30,
                _ => 5,
            };
            let n = cx.rng.ur(0, most);
            // Tables after about one module in four, or in many.
            let rare = *cx.rng.pick(&[4, 4, 20, 500]);
            for i in 0..n {
                ids.extend([13, 8]);
                let p = cx.rng.below(rare);
                if p == 0 || i + 1 == n {
                    let tail: &[u64] = *cx.rng.pick(&[&[23][..], &[25, 23], &[23, 25], &[23, 23], &[25, 23, 25], &[25, 25, 23, 23]]);
                    ids.extend(tail);
                } else if p == 1 {
                    // A symbol table alone.
                    ids.push(25);
                }
            }
        }
        let mut label = "legal layout";
        if scenario >= 2 {
            for _ in 0..cx.rng.ur(1, 2) {
                label = "changed layout";
                match cx.rng.below(5) {
                    0 if !ids.is_empty() => {
                        let i = cx.rng.us(ids.len());
                        ids.remove(i);
                    }
                    1 if !ids.is_empty() => {
                        let i = cx.rng.us(ids.len());
                        let v = ids[i];
                        ids.insert(i, v);
                    }
                    2 if ids.len() > 1 => {
                        let i = cx.rng.us(ids.len() - 1);
                        ids.swap(i, i + 1);
                    }
                    3 if ids.len() > 1 => {
                        let i = cx.rng.us(ids.len());
                        let v = ids.remove(i);
                        let k = cx.rng.ur(0, ids.len());
                        ids.insert(k, v);
                    }
                    _ => {
                        let i = cx.rng.ur(0, ids.len());
                        let v = if cx.rng.chance(1, 3) {
                            *cx.rng.pick(&[17, 14, 9, 10, 12, 22, 24, 26, 1, 7, 27, 100, 8 | 1 << 31, 1 << 31, u32::MAX as u64])
                        } else {
                            *cx.rng.pick(&[13, 8, 23, 25])
                        };
                        ids.insert(i, v);
                    }
                }
            }
        }
        let top: Vec<Blk> = ids.iter().enumerate().map(|(k, id)| tagged(&mut cx.rng, *id, k)).collect();
        let d = encode(cx, &top);
        cx.distinct(hash_str(&format!("{ids:?}")));
        judge_file(cx, &d, &top, part::IDENT | part::TEXTS | part::TABLES | part::FUNCTIONS, label);
        if cx.rng.chance(1, 6) && !top.is_empty() {
            // A record at top level, or an end in the middle of a block.
            let mut s = SW::new(0xdec0_4342);
            let cut = cx.rng.us(top.len());
            for b in &top[..cut] {
                emit(&mut cx.rng, &mut s, b, Style::Plain);
            }
            let what;
            if cx.rng.bool() {
                what = "a record at top level";
                s.put_id(3);
                s.w.vbr(cx.rng.below(30), 6);
                s.w.vbr(0, 6);
                s.w.align32();
            } else {
                what = "an end inside a block";
                s.enter(top[cut].id, 4);
                let nested = cx.rng.us(3);
                for n in &top[cut].items {
                    match n {
                        Node::R(c, f) => s.unabbrev(*c, f),
                        Node::B(b) => emit(&mut cx.rng, &mut s, b, Style::Plain),
                    }
                }
                if nested == 0 {
                    // To the next word, as padding would read as the block's end.
                    s.enter(15, 4);
                    s.exit();
                }
                for _ in 0..nested {
                    s.enter(15, 4);
                }
            }
            if what == "a record at top level" {
                for b in &top[cut..] {
                    emit(&mut cx.rng, &mut s, b, Style::Plain);
                }
            }
            let d = s.w.bytes.clone();
            if let Some(Ok(())) = hostile_map(cx, &d, what) {
                cx.violation("accepted", format!("a file with {what} is mapped: {top:?} cut at {cut}"), &d);
            }
            cx.count(&format!("refused: {what}"), 1);
        }
    }
}

// ---- C12 ---------------------------------------------------------------------------------------

pub static C12: Prop = Prop {
    id: "C12",
    run: c12,
    cases: unlimited,
    min_cases: |_| 64,
    secs: default_secs,
    hang_secs: 60,
    rule: "Cases: legal files with random texts (empty, one character, control characters, any Unicode, up to 70000 bytes, up to thousands of them) for producer, triple, assembly, sections, collectors and dependent libraries and random bytes in string and symbol tables, unchanged or with one change to those records or blocks (dropped, repeated, reordered, cut, operands that aren't bytes or aren't UTF-8). A model gives the exact texts or demands a refusal. Distinct: the expected content, and reasons for refusals.",
    assumptions: &["section and collector tables and the version are observed through the mapper's log"],
};

/// Drops, repeats or moves a block inside of the blocks with an ID.
fn change_blocks(rng: &mut Rng, b: &mut Blk, id: u64) {
    let Some(i) = b.items.iter().position(|n| matches!(n, Node::B(k) if k.id == id)) else {
        return;
    };
    match rng.below(3) {
        0 => {
            b.items.remove(i);
        }
        1 => {
            let k = b.items[i].clone();
            let at = rng.ur(0, b.items.len());
            b.items.insert(at, k);
        }
        _ => {
            let k = Node::B(Blk::new(id));
            let at = rng.ur(0, b.items.len());
            b.items.insert(at, k);
        }
    }
}

fn pick_block<'a>(rng: &mut Rng, top: &'a mut [Blk], id: u64) -> Option<&'a mut Blk> {
    let is: Vec<usize> = (0..top.len()).filter(|i| top[*i].id == id).collect();
    if is.is_empty() {
        return None;
    }
    Some(&mut top[*rng.pick(&is)])
}

fn pick_inner<'a>(rng: &mut Rng, top: &'a mut [Blk], id: u64) -> Option<&'a mut Blk> {
    let m = pick_block(rng, top, 8)?;
    m.items.iter_mut().find_map(|n| match n {
        Node::B(b) if b.id == id => Some(b),
        _ => None,
    })
}

fn c12(cx: &mut Ctx) {
    for _ in 0..20 {
        let mut top = file_tree(&mut cx.rng, focus::TEXTS);
        let mut label = "texts";
        if cx.rng.bool() {
            label = "changed texts";
            let rng = &mut cx.rng;
            match rng.below(6) {
                0 => {
                    if let Some(b) = pick_block(rng, &mut top, 13) {
                        change_block(rng, b, &[1, 2]);
                    }
                }
                1 => {
                    let id = *rng.pick(&[23, 25]);
                    if let Some(b) = pick_block(rng, &mut top, id) {
                        change_block(rng, b, &[1]);
                    }
                }
                2 => {
                    let id = *rng.pick(&[9, 10, 14, 17]);
                    if let Some(b) = pick_block(rng, &mut top, 8) {
                        change_blocks(rng, b, id);
                    }
                }
                _ => {
                    if let Some(b) = pick_block(rng, &mut top, 8) {
                        let codes: &[u64] = *rng.pick(&[&[1, 2, 3, 4, 5, 6, 11][..], &[2, 3, 4], &[5, 6, 11]]);
                        change_block(rng, b, codes);
                    }
                }
            }
        }
        let d = encode(cx, &top);
        judge_file(cx, &d, &top, part::IDENT | part::TEXTS | part::TABLES, label);
    }
}

// ---- C13 ---------------------------------------------------------------------------------------

pub static C13: Prop = Prop {
    id: "C13",
    run: c13,
    cases: unlimited,
    min_cases: |_| 64,
    secs: default_secs,
    hang_secs: 60,
    rule: "Cases: string tables of 0 to 300 bytes (text, text with multi-byte characters, arbitrary bytes), looked up with offsets and sizes at, around and far beyond their bounds, up to the point where their sum wraps; every outcome is compared with the addressed bytes. Modules with functions, aliases and COMDATs whose name references are legal or changed in one number are judged by the model. Distinct: (length class, offset class, size class, outcome), and the expected names.",
    assumptions: &["names of functions, aliases and COMDATs are observed through the mapper's log"],
};

fn c13(cx: &mut Ctx) {
    // Lookups.
    for _ in 0..6 {
        let style = cx.rng.below(3);
        let bytes = match style {
            0 => words(&mut cx.rng, 0).into_bytes(),
            1 => {
                let n = cx.rng.us(80);
                cx.rng.bytes(n)
            }
            _ => (0..cx.rng.us(300)).map(|i| b'a' + (i % 26) as u8).collect(),
        };
        let top = vec![
            ident(&mut cx.rng, false),
            Blk::new(8).rec(1, &[2]).blk(Blk::new(17).rec(1, &[0])).blk(Blk::new(14)),
            blob(23, &bytes),
        ];
        let d = write(&mut cx.rng, &top, Style::Plain);
        cx.eval();
        let Some(r) = cx.guarded("mapping", &d, || Bitcode::try_from(d.as_slice())) else { continue };
        let Ok(bc) = r else {
            cx.violation("refused", format!("a module with the string table {} is refused: {r:?}", hex(&bytes)), &d);
            continue;
        };
        let Some(m) = bc.modules.first() else {
            cx.violation("content", "no module", &d);
            continue;
        };
        let n = bytes.len() as u64;
        for _ in 0..150 {
            let near = |rng: &mut Rng| match rng.below(9) {
                0 => n,
                1 => n.wrapping_sub(1),
                2 => n + 1,
                3 => rng.wild(),
                4 => u64::MAX - rng.below(n + 4),
                5 => n.wrapping_neg().wrapping_add(rng.below(3)),
                6 => (1 << 32) | rng.below(n + 2),
                _ => rng.below(n + 2),
            };
            let (o, s) = match cx.rng.below(5) {
                0 => {
                    let o = near(&mut cx.rng);
                    // A sum that wraps to within the table.
                    (o, o.wrapping_neg().wrapping_add(cx.rng.below(n + 2)))
                }
                1 => {
                    let o = cx.rng.below(n + 1);
                    (o, n - o)
                }
                2 => {
                    let o = cx.rng.below(n + 1);
                    (o, (n - o) + cx.rng.below(2))
                }
                _ => (near(&mut cx.rng), near(&mut cx.rng)),
            };
            let end = o as u128 + s as u128;
            let want = if s == 0 || end > n as u128 { None } else { std::str::from_utf8(&bytes[o as usize..end as usize]).ok() };
            cx.eval();
            let got = cx.guarded(&format!("lookup of {s} bytes at {o} in a table of {n}"), &d, || {
                let a = m.strtab.get(&(o, s).into()).map(String::from);
                let b = m.strtab.try_get(&(o as usize, s as usize).into()).ok().map(String::from);
                (a, b)
            });
            let Some((a, b)) = got else { break };
            if a.as_deref() != want || b.as_deref() != want {
                cx.violation("lookup", format!("{s} bytes at {o} in the table {}: get gives {a:?}, try_get {b:?}, expected {want:?}", hex(&bytes)), &d);
                break;
            }
            let class = |x: u64| (x > n) as u64 + (x == n) as u64 * 2 + (x == 0) as u64 * 4 + (x >> 32 != 0) as u64 * 8;
            cx.distinct(Fnv::new().u(class(o)).u(class(s)).u(want.is_some() as u64).u((end >> 64) as u64).u((end == n as u128) as u64).u(n.min(20)).0);
            cx.count(if want.is_some() { "lookups that give text" } else { "lookups that fail" }, 1);
            if end >> 64 != 0 {
                cx.count("lookups whose end wraps", 1);
            }
        }
    }
    // Names in modules.
    for _ in 0..10 {
        let mut top = file_tree(&mut cx.rng, focus::STRTAB);
        let mut label = "names";
        if cx.rng.chance(1, 8) {
            // The references stay, but there's nothing behind them.
            if let Some(b) = pick_block(&mut cx.rng, &mut top, 23) {
                for n in &mut b.items {
                    if let Node::R(1, f) = n {
                        f.clear();
                    }
                }
                label = "names without a string table";
            }
        } else if cx.rng.chance(2, 3) {
            let rng = &mut cx.rng;
            let len = pick_block(rng, &mut top, 23).map(|b| b.records(1).first().map(|f| f.len()).unwrap_or(0)).unwrap_or(0) as u64;
            if let Some(b) = pick_block(rng, &mut top, 8) {
                let mut rs: Vec<&mut Vec<u64>> = b
                    .items
                    .iter_mut()
                    .filter_map(|n| match n {
                        Node::R(8 | 12 | 14, f) => Some(f),
                        _ => None,
                    })
                    .collect();
                if !rs.is_empty() {
                    label = "changed names";
                    let i = rng.us(rs.len());
                    let f = &mut rs[i];
                    match rng.below(6) {
                        0 => f[1] = other_value(rng, f[1]),
                        1 => f[0] = other_value(rng, f[0]),
                        2 => f[1] = len.saturating_sub(f[0]) + rng.below(2),
                        3 => f[0] = len.saturating_sub(f[1]) + rng.below(2),
                        4 => {
                            f[0] = rng.wild();
                            f[1] = f[0].wrapping_neg().wrapping_add(rng.below(len + 1));
                        }
                        _ => {
                            f[0] = rng.below(len + 1);
                            f[1] = rng.below(len + 2);
                        }
                    }
                }
            }
        }
        let d = encode(cx, &top);
        judge_file(cx, &d, &top, part::FUNCTIONS | part::ALIASES | part::COMDATS | part::TABLES, label);
    }
}

// ---- C14 ---------------------------------------------------------------------------------------

pub static C14: Prop = Prop {
    id: "C14",
    run: c14,
    cases: unlimited,
    min_cases: |_| 64,
    secs: default_secs,
    hang_secs: 60,
    rule: "Cases: legal type tables of up to 200 (seldom thousands of) entries over every kind of type, with backward and forward references, shared and deep types, anonymous, named, opaque and consecutive structs; every pairing of a type constructor with an element type; tables with one change (any operand, a retargeted reference, a count, a code, a name), self-referring ones included. A model resolves the table, or demands a refusal; the resolved table is compared entry by entry, recursively. Distinct: the expected tables, and reasons for refusals.",
    assumptions: &["the resolved type table is observed through the mapper's log (MapCtx isn't public)", "types deeper than 200 levels or larger than 2^19 nodes when expanded may be refused", "types that refer to themselves only through typed pointers may be refused"],
};

pub fn around(types: Blk) -> Vec<Blk> {
    vec![
        Blk::new(13).rec(1, &chars("LLVM")).rec(2, &[0]),
        Blk::new(8).rec(1, &[2]).blk(types).blk(Blk::new(14)),
        blob(23, b"mainhelper"),
    ]
}

/// A type of each kind that a constructor could be applied to, as the entries 0 to 3 of a table.
fn operand_type(rng: &mut Rng) -> Vec<Ty> {
    let plain: Vec<u64> = plain_type_codes().collect();
    let base = [Ty::Plain("Void"), Ty::Int(32), Ty::Plain("Float")];
    let mut v = base.to_vec();
    v.push(match rng.below(24) {
        k if k < 13 => plain_type(plain[k as usize]),
        13 => Ty::Int(rng.range(1, 1 << 23)),
        14 => Ty::Opaque(0),
        15 => Ty::Ptr(1, 0),
        16 => Ty::Struct { name: None, elems: vec![1, 2], packed: false, opaque: false },
        17 => Ty::Struct { name: Some("s".into()), elems: vec![1], packed: true, opaque: false },
        18 => Ty::Struct { name: Some("o".into()), elems: vec![], packed: false, opaque: true },
        19 => Ty::Array(3, 1),
        20 => Ty::Vec(4, 2, false),
        21 => Ty::Vec(4, 1, true),
        22 => Ty::Fn(false, 0, vec![1]),
        _ => Ty::Fn(true, 1, vec![]),
    });
    v
}

fn c14(cx: &mut Ctx) {
    for k in 0..24 {
        let rng = &mut cx.rng;
        let (mut b, label);
        match (cx.case + k) % 6 {
            0 | 1 => {
                let n = match rng.below(10) {
                    0 => 0,
                    1 if rng.chance(1, 30) => if rng.bool() { many(rng, 40_000) } else { rng.ur(65_530, 70_000) },
                    1 => rng.ur(40, 200),
                    _ => rng.ur(1, 25),
                };
                b = type_table(rng, n).0;
                label = "legal type table";
            }
            2 => {
                // Constructor times element.
                let mut v = operand_type(rng);
                let t = 3;
                let c = match rng.below(8) {
                    0 => Ty::Ptr(t, 0),
                    1 => Ty::Array(2, t),
                    2 => Ty::Vec(2, t, false),
                    3 => Ty::Vec(2, t, true),
                    4 => Ty::Struct { name: None, elems: vec![1, t], packed: false, opaque: false },
                    5 => Ty::Struct { name: Some("n".into()), elems: vec![t], packed: true, opaque: false },
                    6 => Ty::Fn(false, t, vec![1]),
                    _ => Ty::Fn(false, 0, vec![1, t]),
                };
                v.push(c);
                b = type_block(&v);
                label = "constructor and element";
            }
            3 => {
                let n = rng.ur(1, 12);
                let (mut tb, v) = type_table(rng, n);
                // Retarget one reference, or several.
                let n = v.len() as u64;
                for _ in 0..rng.ur(1, 3) {
                    let rs: Vec<usize> = (0..tb.items.len())
                        .filter(|i| matches!(&tb.items[*i], Node::R(8 | 11 | 12 | 18 | 20 | 21, f) if !f.is_empty()))
                        .collect();
                    if rs.is_empty() {
                        break;
                    }
                    if let Node::R(c, f) = &mut tb.items[*rng.pick(&rs)] {
                        let at = match *c {
                            8 => 0,
                            11 | 12 => 1,
                            18 | 20 => {
                                if f.len() == 1 {
                                    f.push(0);
                                }
                                rng.ur(1, f.len() - 1)
                            }
                            _ => rng.ur(1, f.len() - 1),
                        };
                        if at < f.len() {
                            f[at] = if rng.chance(1, 4) { n + rng.below(2) } else { rng.below(n) };
                        }
                    }
                }
                b = tb;
                label = "retargeted reference";
            }
            4 => {
                let n = rng.ur(1, 10);
                b = type_table(rng, n).0;
                change_block(rng, &mut b, &[]);
                label = "changed type table";
            }
            _ => {
                // Boundary operands.
                let mut v = vec![Ty::Int(8), Ty::Plain("Float"), Ty::Plain("Void")];
                let k = rng.below(9);
                v.push(match k {
                    0 => Ty::Int(*rng.pick(&[0, 1, 2, (1 << 23) - 1, 1 << 23, (1 << 23) + 1, (1 << 24) - 1, 1 << 24, 1 << 32, (1 << 32) + 1, (1 << 32) + 32, u64::MAX])),
                    1 => Ty::Ptr(0, *rng.pick(&[0, 1, (1 << 23) - 1, (1 << 24) - 1, 1 << 24, 1 << 32, (1 << 32) + 1, u64::MAX])),
                    2 => Ty::Opaque(*rng.pick(&[0, 1, (1 << 23) - 1, (1 << 24) - 1, 1 << 24, 1 << 32, (1 << 32) + 1, u64::MAX])),
                    3 => Ty::Array(*rng.pick(&[0, 1, 1 << 32, u64::MAX]), 0),
                    4 => Ty::Vec(*rng.pick(&[0, 1, u32::MAX as u64]), 0, rng.bool()),
                    5 => Ty::Array(1, *rng.pick(&[0, 4, 5, 1 << 32, u64::MAX, (1 << 32) | 1])),
                    6 => Ty::Struct { name: None, elems: vec![0; rng.us(500)], packed: rng.bool(), opaque: false },
                    7 => Ty::Fn(rng.bool(), 2, vec![1; rng.us(500)]),
                    _ => Ty::Struct { name: Some(if rng.chance(1, 12) { long_text(rng, 70_000) } else { words(rng, 0) }), elems: vec![0], packed: rng.bool(), opaque: false },
                });
                b = type_block(&v);
                if rng.chance(1, 3) {
                    if let Node::R(_, f) = &mut b.items[0] {
                        f[0] = other_value(rng, f[0]);
                    }
                }
                label = "boundary operand";
            }
        }
        if cx.rng.chance(1, 30) {
            // The count's record need not come first.
            let n = b.items.remove(0);
            let at = cx.rng.ur(0, b.items.len());
            b.items.insert(at, n);
        }
        let top = around(b);
        let d = encode(cx, &top);
        judge_file(cx, &d, &top, part::TYPES, label);
    }
}

// ---- C15 ---------------------------------------------------------------------------------------

pub static C15: Prop = Prop {
    id: "C15",
    run: c15,
    cases: unlimited,
    min_cases: |_| 64,
    secs: default_secs,
    hang_secs: 60,
    rule: "Cases: legal attribute groups and lists (every known attribute, integer operands over their whole range, string attributes with any text of up to 70000 bytes, up to 2100 groups, lists and groups per list, any group numbers and parameter indices); single attributes over all IDs up to 260 and beyond, all kinds and boundary values; groups and lists with one change. A model decodes them or demands a refusal; decoded groups and lists are compared in order. Distinct: the expected groups and lists, and reasons for refusals.",
    assumptions: &["groups and lists are observed through the mapper's log", "attribute IDs 87 to 199 and the type-carrying kinds 5 and 6 may be refused or accepted", "the integer that LLVM's writer stores for align and alignstack is the alignment in bytes"],
};

fn around_attrs(g: Blk, l: Option<Blk>) -> Vec<Blk> {
    let mut m = Blk::new(8).rec(1, &[2]).blk(g);
    if let Some(l) = l {
        m = m.blk(l);
    }
    let m = m.blk(Blk::new(17).rec(1, &[0])).blk(Blk::new(14));
    vec![Blk::new(13).rec(1, &chars("LLVM")).rec(2, &[0]), m, blob(23, b"mainhelper")]
}

fn c15(cx: &mut Ctx) {
    for k in 0..24 {
        let rng = &mut cx.rng;
        let (g, l, label);
        match (cx.case + k) % 5 {
            0 | 1 => {
                let (a, b, _) = attributes(rng, true);
                g = a;
                l = rng.chance(7, 8).then_some(b);
                label = "legal attributes";
            }
            2 => {
                // One attribute of any ID and kind.
                let id = if rng.chance(1, 10) { rng.wild() } else { rng.below(260) };
                let v = match rng.below(5) {
                    0 => rng.below(6),
                    1 => 1 << rng.below(64),
                    2 => (1u64 << rng.below(64)).wrapping_sub(1),
                    _ => rng.wild(),
                };
                let kind = if rng.chance(1, 8) { rng.wild_bits(4) } else { rng.below(2) };
                let mut f = vec![1, *rng.pick(&[0, 1, 0xffff_ffff])];
                if rng.bool() {
                    f.extend([0, 18]);
                }
                f.extend([kind, id]);
                if kind == 1 {
                    f.push(v);
                }
                if rng.bool() {
                    f.extend([0, 20]);
                }
                g = Blk::new(10).rec(3, &f);
                l = Some(Blk::new(9).rec(2, &[1]));
                label = "single attribute";
            }
            3 => {
                let (mut a, b, _) = attributes(rng, true);
                change_block(rng, &mut a, &[3]);
                g = a;
                l = Some(b);
                label = "changed group";
            }
            _ => {
                let (a, mut b, _) = attributes(rng, true);
                if rng.chance(1, 4) {
                    // Records of the other block.
                    b.put(3, &[1, 2, 0, 18]);
                } else {
                    change_block(rng, &mut b, &[2]);
                }
                g = a;
                l = Some(b);
                label = "changed list";
            }
        }
        let top = around_attrs(g, l);
        let d = encode(cx, &top);
        judge_file(cx, &d, &top, part::ATTRS, label);
    }
}

// ---- C16 ---------------------------------------------------------------------------------------

pub static C16: Prop = Prop {
    id: "C16",
    run: c16,
    cases: unlimited,
    min_cases: |_| 64,
    secs: default_secs,
    hang_secs: 60,
    rule: "Cases: modules with up to a dozen (seldom 2100) function, alias and COMDAT records over tables of types, attribute lists, sections and collectors, with all lengths of the records and all codes of their operands; single records with one operand set to every small number or to a boundary or wild number, or cut short; and random changes. A model decodes them or demands a refusal. Distinct: the expected entities, and reasons for refusals.",
    assumptions: &["functions, aliases and COMDATs are observed through the mapper's log", "operands above 32 bits for codes with a fallback, and function alignments above LLVM's maximum, may be refused or accepted"],
};

fn c16(cx: &mut Ctx) {
    for k in 0..12 {
        let mut top = file_tree(&mut cx.rng, focus::ENTITIES);
        let mut label = "entities";
        let rng = &mut cx.rng;
        match (cx.case + k) % 4 {
            0 => {}
            1 | 2 => {
                // One operand of one record.
                if let Some(b) = pick_block(rng, &mut top, 8) {
                    let mut rs: Vec<(u64, &mut Vec<u64>)> = b
                        .items
                        .iter_mut()
                        .filter_map(|n| match n {
                            Node::R(c @ (8 | 12 | 14), f) => Some((*c, f)),
                            _ => None,
                        })
                        .collect();
                    if !rs.is_empty() {
                        label = "one operand changed";
                        let i = rng.us(rs.len());
                        let f = &mut rs[i].1;
                        if rng.chance(1, 6) {
                            let n = rng.us(f.len());
                            f.truncate(n);
                        } else {
                            let from = if rng.chance(1, 10) { 0 } else { 2 };
                            let at = rng.ur(from.min(f.len() - 1), f.len() - 1);
                            f[at] = match rng.below(5) {
                                0 | 1 => rng.below(12),
                                2 => rng.below(130),
                                _ => other_value(rng, f[at]),
                            };
                        }
                    }
                }
            }
            _ => {
                if let Some(b) = pick_block(rng, &mut top, 8) {
                    change_block(rng, b, &[8, 12, 14]);
                    label = "changed entities";
                }
            }
        }
        let d = encode(cx, &top);
        judge_file(cx, &d, &top, part::FUNCTIONS | part::ALIASES | part::COMDATS, label);
        let _ = t::LAST_KNOWN_ATTR;
    }
    let _ = pick_inner;
}
