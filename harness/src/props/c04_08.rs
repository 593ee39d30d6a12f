//! C04 to C08: the stream parser.

use super::c01_03::StepBuf;
use super::*;
use crate::bits::*;
use crate::ctx::*;
use crate::mem;
use crate::stream::*;
use crate::util::*;
use llvm_bitstream::Bitstream;
use std::cell::Cell;

/// What the writer expects must be what the reference decoder sees: a check of the harness.
fn self_check(s: &SW, data: &[u8]) {
    let r = reference(data);
    assert!(
        r.status == Status::End && r.evs == s.evs,
        "writer and reference decoder disagree: {:?}, {} entries against {}; first difference {:?}",
        r.status,
        r.evs.len(),
        s.evs.len(),
        r.evs.iter().zip(&s.evs).find(|(a, b)| a != b)
    );
}

/// Opens and collects; every panic ends in `End::Panic`.
pub fn parse<T: AsRef<[u8]>>(data: T, max: usize) -> (Option<u32>, Vec<Ev>, End) {
    match guard(|| Bitstream::from(data)) {
        Err(p) => (None, vec![], End::Panic(p)),
        Ok(Err(e)) => (None, vec![], End::Err(format!("{e:?}"))),
        Ok(Ok((_, mut bs))) => {
            let m = bs.magic;
            let (evs, end) = collect(&mut bs, max);
            (Some(m), evs, end)
        }
    }
}

pub static C04: Prop = Prop {
    id: "C04",
    run: c04,
    cases: unlimited,
    min_cases: |_| 64,
    secs: default_secs,
    hang_secs: 60,
    rule: "Cases: random well-formed streams (any magic, up to hundreds of nested blocks, abbreviation ID widths 2 to 32, any codes, operand counts up to 10^5, 64-bit operands, abbreviations, BLOCKINFO blocks at any place; now and then up to 600 levels, 70000 abbreviations, 600 registered block IDs, 60000 entries or 20000 items in a row that aren't reported) from a writer that records the entries a parser must report; an independent reference decoder confirms the writer. The reported entries, their end and the repetition of the end are compared. Distinct: (features used, log2 of the number of entries, maximum depth class, kind of the last entries).",
    assumptions: &["well-formed streams are those LLVM's bitstream writer can produce, plus redundant VBR chunks within 64 bits"],
};

fn c04(cx: &mut Ctx) {
    if cx.case % 32 == 9 {
        let (s, what) = random_large(&mut cx.rng);
        cx.count(&format!("large: {what}"), 1);
        return c04_one(cx, &s);
    }
    let n = if cx.case % 64 == 0 { 1 } else { 12 };
    for _ in 0..n {
        let s = if cx.case % 64 == 0 {
                        let mut s;
            if cx.case % 128 == 0 {
                s = random_stream(&mut cx.rng, 4000);
            } else {
                // One enormous record of each kind.
                s = SW::new(random_magic(&mut cx.rng));
                s.enter(9, 3);
                let n = long_len(&mut cx.rng, 17);
                let f: Vec<u64> = (0..n).map(|_| cx.rng.wild()).collect();
                s.unabbrev(7, &f);
                let b: Vec<u64> = (0..n).map(|_| cx.rng.below(256)).collect();
                let mut vals = vec![5];
                vals.extend(&b);
                s.define(&vec![Op::Fixed(3), Op::Blob]);
                s.abbreviated(4, &vals);
                s.define(&vec![Op::Lit(5), Op::Array(Box::new(Op::Fixed(8)))]);
                s.abbreviated(5, &vals);
                s.exit();
            }
            s.enter(8, 4);
            s.exit();
            s
        } else {
            let steps = match cx.rng.below(4) {
                0 => cx.rng.ur(0, 6),
                1 => cx.rng.ur(0, 300),
                _ => cx.rng.ur(1, 60),
            };
            random_stream(&mut cx.rng, steps)
        };
        c04_one(cx, &s);
        if !cx.violations.is_empty() {
            return;
        }
    }
}

pub fn max_depth(evs: &[Ev]) -> usize {
    let mut d = 0usize;
    let mut m = 0;
    for e in evs {
        match e {
            Ev::Enter { .. } => d += 1,
            Ev::Exit => d -= 1,
            _ => {}
        }
        m = m.max(d);
    }
    m
}

fn shape_hash(s: &SW) -> u64 {
    let lg = 64 - (s.evs.len() as u64).leading_zeros() as u64;
    Fnv::new().u(s.feats).u(lg).u(max_depth(&s.evs).min(8) as u64).0
}

fn c04_one(cx: &mut Ctx, s: &SW) {
    let data = s.bytes();
    self_check(s, &data);
    cx.eval();
    let magic = u32::from_le_bytes(data[..4].try_into().unwrap());
    let bs = match guard(|| Bitstream::from(data.as_slice())) {
        Err(p) => return cx.violation("panic", format!("opening: {p}"), &data),
        Ok(Err(e)) => return cx.violation("refused", format!("a well-formed stream was refused: {e:?}; {}", hex(&data)), &data),
        Ok(Ok(b)) => b,
    };
    let (w, mut bs) = bs;
    if w.is_some() || bs.magic != magic {
        return cx.violation("magic", format!("magic {:#x} (wrapper: {}), expected {magic:#x}", bs.magic, w.is_some()), &data);
    }
    let (evs, end) = collect(&mut bs, usize::MAX);
    if let Some(m) = judge(&s.evs, Status::End, &evs, &end) {
        return cx.violation("entries", format!("{m}; stream {}", hex(&data)), &data);
    }
    for i in 0..3 {
        match guard(|| if i < 2 { bs.next().map(|r| format!("{r:?}")) } else { bs.advance().ok().map(|r| format!("{r:?}")) }) {
            Ok(None) => {}
            o => return cx.violation("end", format!("after its end, the stream went on with {o:?}; stream {}", hex(&data)), &data),
        }
    }
    cx.count("streams parsed", 1);
    cx.count("entries compared", s.evs.len() as u64);
    cx.count("bytes parsed", data.len() as u64);
    cx.max("max depth of nesting", max_depth(&s.evs) as u64);
    for (bit, name) in [
        (feat::BLOCKINFO, "streams with BLOCKINFO"),
        (feat::BLOB, "streams with blobs"),
        (feat::ARRAY, "streams with arrays"),
        (feat::CHAR6, "streams with char6"),
        (feat::PADDED, "streams with padded VBRs"),
    ] {
        if s.feats & bit != 0 {
            cx.count(name, 1);
        }
    }
    let tail = s.evs.iter().rev().take(3).fold(0u64, |a, e| {
        a * 4
            + match e {
                Ev::Enter { .. } => 1,
                Ev::Exit => 2,
                Ev::Rec { abbrev, .. } => 3 + abbrev.is_some() as u64,
            }
    });
    cx.distinct(Fnv::new().u(shape_hash(s)).u(tail).0);
    cx.sample(|| format!("{} bytes, {} entries, features {:b}: {}", data.len(), s.evs.len(), s.feats, hex(&data)));
}

pub static C05: Prop = Prop {
    id: "C05",
    run: c05,
    cases: unlimited,
    min_cases: |_| 64,
    secs: default_secs,
    hang_secs: 60,
    rule: "Cases: (a) one record, of up to 2^18 (2^21) operands, written in up to eight encodings (unabbreviated and random legal abbreviations) across nested blocks, re-entered blocks and BLOCKINFO registrations; (b) valid prefixes followed by the use of an abbreviation that is out of scope (the parent's, a closed sibling's, another block ID's, one too many) or by an illegal definition. Oracle: the writer's entries, then an error. Distinct: (features, scenario, abbreviation shape).",
    assumptions: &["abbreviations whose first operand is an array or blob, arrays of zero-width elements and widths above 32 are unspecified and not generated"],
};

fn abbr_shape(a: &Abbr) -> u64 {
    let mut h = Fnv::new();
    for o in a {
        h = h.u(match o {
            Op::Lit(_) => 1,
            Op::Fixed(w) => 100 + w,
            Op::Vbr(w) => 200 + w,
            Op::Char6 => 2,
            Op::Array(e) => match **e {
                Op::Fixed(w) => 300 + w,
                Op::Vbr(w) => 400 + w,
                _ => 3,
            },
            Op::Blob => 4,
        });
    }
    h.0
}

/// A length around a power of two, or of any magnitude.
fn long_len(rng: &mut Rng, bits: u64) -> usize {
    (match rng.below(3) {
        0 => (1u64 << rng.range(6, bits)) + rng.below(5) - 2,
        1 => *rng.pick(&[65535, 65536, 65537, 65600, 131072]),
        _ => rng.range(1 << 10, 1 << bits),
    }) as usize
}

/// One long record, unabbreviated and with each kind of operand that repeats.
fn c05_long(cx: &mut Ctx) {
    let bits = if cx.thorough() { 21 } else { 18 };
    let rng = &mut cx.rng;
    let n = long_len(rng, bits);
    let code = rng.below(64);
    let char6 = rng.bool();
    let fields: Vec<u64> = (0..n).map(|_| if char6 { *rng.pick(CHAR6) as u64 } else { rng.below(256) }).collect();
    let mut vals = vec![code];
    vals.extend(&fields);
    let mut s = SW::new(random_magic(rng));
    s.enter(8 + rng.below(3), rng.ur(4, 7));
    let mut ways = vec![Op::Array(Box::new(Op::Fixed(8))), Op::Array(Box::new(Op::Vbr(rng.range(2, 32)))), Op::Blob];
    if char6 {
        ways.push(Op::Array(Box::new(Op::Char6)));
    }
    for w in &ways {
        s.define(&vec![Op::Vbr(6), w.clone()]);
    }
    for _ in 0..3 {
        match rng.us(ways.len() + 1) {
            0 => s.unabbrev(code, &fields),
            i => s.abbreviated(3 + i as u64, &vals),
        }
    }
    s.unabbrev(1, &[2]);
    s.exit();
    let data = s.bytes();
    self_check(&s, &data);
    if check_stream(cx, &s, &data, Status::End, "a long record") {
        cx.count("streams with long records compared", 1);
        cx.max("max operands of a record", n as u64);
    }
}

fn c05(cx: &mut Ctx) {
    if cx.case % 64 == 5 {
        return c05_long(cx);
    }
    if cx.case % 64 == 11 {
        let (s, what) = random_large(&mut cx.rng);
        let data = s.bytes();
        self_check(&s, &data);
        if check_stream(cx, &s, &data, Status::End, what) {
            cx.count(&format!("large: {what}"), 1);
        }
        return;
    }
    for _ in 0..16 {
        if cx.rng.bool() {
            c05_encodings(cx);
        } else {
            c05_illegal(cx);
        }
        if !cx.violations.is_empty() {
            return;
        }
    }
}

fn check_stream(cx: &mut Ctx, s: &SW, data: &[u8], status: Status, what: &str) -> bool {
    cx.eval();
    let (_, evs, end) = parse(data, usize::MAX);
    if let Some(m) = judge(&s.evs, status, &evs, &end) {
        cx.violation("entries", format!("{what}: {m}; stream {}", hex(data)), data);
        return false;
    }
    true
}

fn c05_encodings(cx: &mut Ctx) {
    let rng = &mut cx.rng;
    let magic = random_magic(rng);
    let mut s = SW::new(magic);
    let code = random_code(rng);
    let fields = random_fields(rng);
    let mut vals = vec![code];
    vals.extend(&fields);
    let ids: Vec<u64> = (0..3).map(|i| 8 + i).collect();
    let mut shapes = vec![];
    // Registrations.
    let regs = rng.us(3);
    for _ in 0..regs {
        s.feats |= feat::BLOCKINFO;
        s.enter(0, rng.ur(2, 5));
        for _ in 0..rng.ur(1, 3) {
            let b = *rng.pick(&ids);
            s.unabbrev(1, &[b]);
            for _ in 0..rng.us(3) {
                let a = abbr_for(rng, &vals);
                s.define(&a);
            }
        }
        s.exit();
    }
    let n = rng.ur(2, 24);
    let mut count = 0;
    for _ in 0..n {
        let d = s.depth();
        if d == 0 {
            let id = *rng.pick(&ids);
            s.enter(id, rng.ur(3, 7));
            continue;
        }
        match rng.below(9) {
            0 if d < 4 => {
                let id = *rng.pick(&ids);
                s.enter(id, rng.ur(3, 7));
            }
            1 => s.exit(),
            2 => {
                // A registration in the middle only concerns later blocks.
                s.enter(0, rng.ur(2, 5));
                let b = *rng.pick(&ids);
                s.unabbrev(1, &[b]);
                let a = abbr_for(rng, &vals);
                s.define(&a);
                s.exit();
            }
            3 => {
                if s.id_fits(s.next_abbrev_id()) {
                    let a = abbr_for(rng, &vals);
                    s.define(&a);
                }
            }
            4 => s.unabbrev(code, &fields),
            _ => {
                let us: Vec<_> = s.usable().into_iter().filter(|(_, a)| fits(a, &vals)).collect();
                if us.is_empty() {
                    s.unabbrev(code, &fields);
                } else {
                    let (id, a) = rng.pick(&us).clone();
                    note_abbr(&mut s, id, &a, &vals);
                    shapes.push(abbr_shape(&a));
                    s.abbreviated(id, &vals);
                    count += 1;
                }
            }
        }
    }
    while s.depth() > 0 {
        s.exit();
    }
    let data = s.bytes();
    self_check(&s, &data);
    if !check_stream(cx, &s, &data, Status::End, "one record in several encodings") {
        return;
    }
    cx.count("abbreviated encodings of records compared", count);
    for sh in shapes {
        cx.distinct(Fnv::new().u(sh).u(s.feats & (feat::BLOCKINFO_ABBREV_USED | feat::LOCAL_USED | feat::MIXED_ORIGIN | feat::EMPTY_TAIL)).0);
    }
    cx.sample(|| format!("record {code} {:?} in {count} abbreviated encodings: {}", clip(&format!("{fields:?}"), 80), hex(&data)));
}

fn c05_illegal(cx: &mut Ctx) {
    let rng = &mut cx.rng;
    let magic = random_magic(rng);
    let mut s = SW::new(magic);
    let sh = Shape { steps: rng.us(20), max_depth: 3, abbrev_bias: true, blockinfo: true };
    random_content(rng, &mut s, &sh);
    let depth = rng.ur(1, 3);
    for _ in 0..depth {
        let id = random_block_id(rng);
        s.enter(id, rng.ur(4, 8));
        for _ in 0..rng.us(4) {
            let c = random_code(rng);
            let f = random_fields(rng);
            put_record(rng, &mut s, c, &f, true);
        }
    }
    let any = |rng: &mut Rng| match rng.below(4) {
        0 => Op::Lit(rng.small()),
        1 => Op::Fixed(rng.range(1, 9)),
        2 => Op::Vbr(rng.range(2, 9)),
        _ => Op::Char6,
    };
    let scenario = rng.below(14);
    let mut in_blockinfo = false;
    if (6..13).contains(&scenario) && rng.chance(1, 3) {
        s.enter(0, 4);
        s.unabbrev(1, &[9]);
        in_blockinfo = true;
    }
    let why = match scenario {
        0 => {
            // One too many.
            let id = s.next_abbrev_id();
            if !s.id_fits(id) {
                return;
            }
            s.put_id(id);
            "the first undefined abbreviation"
        }
        1 => {
            if !s.id_fits(s.next_abbrev_id()) {
                return;
            }
            let id = s.next_abbrev_id() + rng.below(9);
            let top = (1u64 << s.width()) - 1;
            s.put_id(if s.id_fits(id) { id } else { top.max(s.next_abbrev_id()) });
            "an undefined abbreviation"
        }
        2 => {
            // The parent's abbreviation, in a child of another ID.
            let a = random_abbr(rng);
            let id = s.next_abbrev_id();
            s.define(&a);
            s.enter(77_777, 9);
            let id = id.max(s.next_abbrev_id());
            s.put_id(id);
            "the parent's abbreviation"
        }
        3 => {
            // A closed block's abbreviation, in the next block with the same ID.
            s.enter(55_555, 8);
            let a = random_abbr(rng);
            let id = s.next_abbrev_id();
            s.define(&a);
            let v = vals_for(rng, &a);
            s.abbreviated(id, &v);
            s.exit();
            s.enter(55_555, 8);
            s.put_id(id);
            "a closed block's abbreviation"
        }
        4 => {
            // One registered for another block ID.
            s.enter(0, 3);
            s.unabbrev(1, &[66_666]);
            let a = random_abbr(rng);
            s.define(&a);
            s.exit();
            s.enter(66_667, 8);
            s.put_id(4);
            "an abbreviation of another block ID"
        }
        5 => {
            // Registered while the block was open already; or used inside BLOCKINFO itself.
            if rng.bool() {
                s.enter(44_444, 8);
                s.enter(0, 3);
                s.unabbrev(1, &[44_444]);
                let a = random_abbr(rng);
                s.define(&a);
                s.exit();
                s.put_id(4);
                "an abbreviation registered after the block began"
            } else {
                s.enter(0, 4);
                s.unabbrev(1, &[9]);
                let a = random_abbr(rng);
                s.define(&a);
                let id = s.next_abbrev_id();
                if id > 15 {
                    return;
                }
                s.put_id(id);
                "an abbreviation used inside the BLOCKINFO that registers it"
            }
        }
        6 => {
            s.define_raw(&[]);
            "a definition without operands"
        }
        7 => {
            let mut ops = vec![any(rng)];
            for _ in 0..rng.us(3) {
                ops.push(any(rng));
            }
            ops.push(Op::Array(Box::new(Op::Char6)));
            s.define_raw(&ops);
            "an array as the last operand"
        }
        8 => {
            let mut ops = vec![any(rng)];
            ops.push(Op::Array(Box::new(Op::Char6)));
            ops.push(Op::Fixed(rng.range(1, 8)));
            for _ in 0..rng.ur(1, 3) {
                ops.push(any(rng));
            }
            s.define_raw(&ops);
            "an array before the next to last operand"
        }
        9 => {
            let mut ops = vec![any(rng)];
            ops.push(Op::Blob);
            for _ in 0..rng.ur(1, 3) {
                ops.push(any(rng));
            }
            s.define_raw(&ops);
            "a blob that isn't last"
        }
        10 => {
            let ops = vec![any(rng), Op::Array(Box::new(Op::Char6)), Op::Lit(rng.small())];
            s.define_raw(&ops);
            "an array of a literal"
        }
        11 => {
            let e = if rng.bool() { Op::Blob } else { Op::Array(Box::new(Op::Char6)) };
            let ops = vec![any(rng), Op::Array(Box::new(Op::Char6)), e];
            s.define_raw(&ops);
            "an array of arrays or blobs"
        }
        13 => {
            // A later BLOCKINFO block replaces what earlier ones registered, for the same block or another.
            let n = rng.ur(1, 3);
            for (i, bid) in [88_888, if rng.bool() { 88_888 } else { 88_889 }].into_iter().enumerate() {
                s.enter(0, 3);
                if i == 0 || bid == 88_888 || rng.bool() {
                    s.unabbrev(1, &[bid]);
                    for _ in 0..n {
                        let a = random_abbr(rng);
                        s.define(&a);
                    }
                }
                s.exit();
            }
            s.enter(88_888, 8);
            let id = s.next_abbrev_id();
            s.put_id(id);
            "an abbreviation that a later BLOCKINFO block replaced"
        }
        _ => {
            s.put_id(2);
            s.w.vbr(2, 5);
            s.w.put(1, 1);
            s.w.vbr(3, 8);
            s.w.put(0, 1);
            let e = *rng.pick(&[0u64, 6, 7]);
            s.w.put(e, 3);
            "an unknown operand encoding"
        }
    };
    let want = s.evs.len();
    let feats = s.feats;
    // Something plausible afterwards, which must not be reached.
    for _ in 0..rng.us(40) {
        let b = if rng.bool() { 0 } else { rng.below(256) };
        s.w.put(b, 8);
    }
    s.w.put(0, 64);
    let mut t = s.clone();
    t.evs.truncate(want);
    let data = t.bytes();
    let r = reference(&data);
    if !(matches!(r.status, Status::Bad(_)) && r.evs.len() == want) {
        panic!("the reference decoder doesn't see {why}: {:?}, {} entries of {want}", r.status, r.evs.len());
    }
    // Block lengths of unclosed blocks were never filled in.
    t.evs = r.evs;
    if !check_stream(cx, &t, &data, Status::Bad(why), why) {
        return;
    }
    cx.count("illegal uses and definitions refused", 1);
    cx.count(&format!("refused: {why}"), 1);
    cx.distinct(Fnv::new().u(scenario).u(in_blockinfo as u64).u(depth as u64).u(feats & 0x7).u(1).0);
}

pub static C06: Prop = Prop {
    id: "C06",
    run: c06,
    cases: unlimited,
    min_cases: |_| 64,
    secs: default_secs,
    hang_secs: 60,
    rule: "Cases: valid streams truncated at every word, bit flips, overwritten, inserted, deleted, duplicated and spliced bytes and words, random bytes after a magic, and small dense random streams. Monitors: no panic, crash or hang; buffer accesses bounded by a multiple of the input's size; nesting consistency; a truncation's entries are a prefix; agreement with an independent reference decoder up to the point where the format stops saying. Distinct: (mutation, the reference's verdict, log2 of the entries seen, outcome).",
    assumptions: &[
        "what follows after an error is unspecified",
        "a data end between entries inside an open block may be reported as the end or as an error",
    ],
};

/// Parses under a step budget and applies the monitors that hold for all inputs.
pub fn hostile(cx: &mut Ctx, data: &[u8], what: &str) -> Option<(Vec<Ev>, End)> {
    let budget = 4096 + 64 * 8 * data.len() as u64;
    let left = Cell::new(budget);
    cx.eval();
    let (_, evs, end) = parse(StepBuf { data, left: &left }, 1 << 22);
    if let End::Panic(p) = &end {
        cx.violation("panic", format!("{what}: after {} entries: {p}; stream {}", evs.len(), hex(data)), data);
        return None;
    }
    cx.max("max buffer accesses per input bit (x100)", (budget - left.get()) * 100 / (1 + 8 * data.len() as u64));
    let mut d = 0i64;
    for (i, e) in evs.iter().enumerate() {
        let bad = match e {
            Ev::Enter { id, .. } => {
                d += 1;
                *id == 0
            }
            Ev::Exit => {
                d -= 1;
                d < 0
            }
            Ev::Rec { .. } => d == 0,
        };
        if bad {
            cx.violation("inconsistent", format!("{what}: entry {i}, {}, at depth {d}; stream {}", e.short(), hex(data)), data);
            return None;
        }
    }
    Some((evs, end))
}

fn c06_input(cx: &mut Ctx, data: &[u8], what: &str, wid: u64) -> bool {
    let Some((evs, end)) = hostile(cx, data, what) else { return false };
    cx.count("entries reported", evs.len() as u64);
    let wrapped = data.len() >= 4 && data[..4] == WRAPPER_MAGIC.to_le_bytes();
    if wrapped {
        return true;
    }
    let r = reference(data);
    if let Some(m) = judge(&r.evs, r.status, &evs, &end) {
        cx.violation("entries", format!("{what}: {m}; stream {}", hex(data)), data);
        return false;
    }
    let (k, why) = match r.status {
        Status::End => (0, ""),
        Status::Bad(w) => (1, w),
        Status::Unspec(w) => (2, w),
    };
    cx.count(["reference: complete", "reference: error", "reference: unspecified beyond a point"][k], 1);
    let lg = 64 - (evs.len() as u64).leading_zeros() as u64;
    cx.distinct(Fnv::new().u(wid).u(hash_str(why)).u(lg).u(r.steps.min(40)).0);
    true
}

pub fn mutate(rng: &mut Rng, data: &mut Vec<u8>, other: &[u8]) -> u64 {
    let kind = rng.below(9);
    let from = 4.min(data.len());
    let n = data.len();
    let at = |rng: &mut Rng| if n > from { rng.ur(from, n - 1) } else { 0 };
    if n <= from {
        data.extend(rng.bytes(8));
        return 99;
    }
    match kind {
        0 => {
            for _ in 0..rng.ur(1, 4) {
                let i = at(rng);
                data[i] ^= 1 << rng.below(8);
            }
        }
        1 => {
            let i = at(rng);
            data[i] = rng.next() as u8;
        }
        2 => {
            let i = at(rng) / 4 * 4;
            let w = if rng.bool() { rng.next() as u32 } else { rng.wild() as u32 };
            data.splice(i..i, w.to_le_bytes());
        }
        3 => {
            let i = at(rng) / 4 * 4;
            let e = (i + 4 * rng.ur(1, 3)).min(n);
            data.drain(i..e);
        }
        4 => {
            let i = at(rng) / 4 * 4;
            let e = (i + 4 * rng.ur(1, 8)).min(n);
            let part = data[i..e].to_vec();
            let j = at(rng) / 4 * 4;
            data.splice(j..j, part);
        }
        5 => {
            // A splice of two streams.
            let i = at(rng) / 4 * 4;
            data.truncate(i);
            let j = rng.us(other.len() / 4 + 1) * 4;
            data.extend_from_slice(&other[j.min(other.len())..]);
        }
        6 => {
            let i = at(rng);
            let e = (i + rng.ur(1, 12)).min(n);
            let v = *rng.pick(&[0u8, 0xff, 0x80, 0x55]);
            for b in &mut data[i..e] {
                *b = v;
            }
        }
        7 => {
            let i = at(rng) / 4 * 4;
            data.truncate(i);
            let k = 4 * rng.us(12);
            data.extend(rng.bytes(k));
        }
        _ => {
            // Anything, also unaligned lengths.
            let i = rng.us(n + 1);
            data.truncate(i);
        }
    }
    kind
}

/// Writes something unusual that follows the grammar down to where it goes wrong (or just odd).
fn nasty(rng: &mut Rng, s: &mut SW) -> u64 {
    let width = |rng: &mut Rng| *rng.pick(&[0, 1, 2, 3, 31, 32, 33, 63, 64, 65, 255, 1 << 16, u32::MAX as u64, u64::MAX]);
    let kind = rng.below(13);
    if kind < 7 || s.depth() == 0 || s.in_blockinfo() {
        let id = if kind < 6 { 0 } else { random_block_id(rng).max(9) };
        s.enter(id, rng.ur(3, 7));
    }
    let scalar = |rng: &mut Rng| match rng.below(4) {
        0 => Op::Lit(rng.small()),
        1 => Op::Fixed(rng.range(1, 64)),
        2 => Op::Vbr(rng.range(2, 32)),
        _ => Op::Char6,
    };
    match kind {
        0 => {
            // A SETBID without operands, and other records, before an abbreviation.
            let code = rng.below(4);
            s.put_id(3);
            s.w.vbr(code, 6);
            s.w.vbr(0, 6);
            let op = scalar(rng);
            s.define_raw(&[op]);
        }
        1 => {
            let op = scalar(rng);
            s.define_raw(&[op]);
        }
        2 => {
            // Abbreviated records inside of BLOCKINFO, among them a SETBID without operands.
            s.unabbrev(1, &[0]);
            let a = if rng.bool() { vec![Op::Lit(1)] } else { vec![Op::Lit(1), Op::Array(Box::new(Op::Vbr(6)))] };
            s.define(&a);
            s.exit();
            s.enter(0, 3);
            s.put_id(4);
            if a.len() > 1 {
                let n = rng.below(2);
                s.w.vbr(n, 6);
                if n > 0 {
                    let v = rng.small();
                    s.w.vbr(v, 6);
                }
            }
            s.define_raw(&[Op::Lit(3)]);
        }
        3 => {
            let id = random_block_id(rng);
            s.put_id(1);
            s.w.vbr(id, 8);
            s.w.vbr(3, 4);
            s.w.align32();
            s.w.put(0, 32);
            s.w.put(rng.below(4), 3);
        }
        4 => {
            // A SETBID to anything, and a block with that ID after it.
            let id = width(rng);
            s.unabbrev(1, &[id]);
            s.define(&vec![Op::Lit(5)]);
            s.exit();
            s.put_id(1);
            s.w.vbr(id, 8);
            s.w.vbr(3, 4);
            s.w.align32();
            s.w.put(0, 32);
            s.w.put(4, 3);
        }
        5 => {
            let code = width(rng);
            s.put_id(3);
            s.w.vbr(code, 6);
            let n = rng.below(3);
            s.w.vbr(n, 6);
            for _ in 0..n {
                let v = width(rng);
                s.w.vbr(v, 6);
            }
        }
        6 | 7 => {
            // A record whose code would be an array's or blob's first element, if it had one.
            let id = s.next_abbrev_id();
            let e = [Op::Char6, Op::Fixed(rng.range(1, 8)), Op::Vbr(rng.range(2, 8))];
            let e = rng.pick(&e).clone();
            let blob = rng.bool();
            s.define_raw(&if blob { vec![Op::Blob] } else { vec![Op::Array(Box::new(Op::Char6)), e] });
            if s.id_fits(id) {
                s.put_id(id);
                let n = rng.below(2);
                s.w.vbr(n, 6);
                if blob {
                    s.w.align32();
                }
                if n > 0 {
                    s.w.put(rng.below(256), 8);
                }
                if blob {
                    s.w.align32();
                }
            }
        }
        8 | 9 => {
            // Operands and elements of any width, used.
            let id = s.next_abbrev_id();
            let w = width(rng);
            let op = if rng.bool() { Op::Fixed(w) } else { Op::Vbr(w) };
            let array = rng.bool();
            s.define_raw(&if array { vec![Op::Lit(1), Op::Array(Box::new(Op::Char6)), op] } else { vec![Op::Lit(1), op] });
            if s.id_fits(id) {
                s.put_id(id);
                if array {
                    let n = match rng.below(4) {
                        0 => 0,
                        1 => 1,
                        2 => rng.below(100),
                        _ => 1 << rng.below(63),
                    };
                    s.w.vbr(n, 6);
                }
                let n = rng.us(100);
                for _ in 0..n {
                    let v = rng.next();
                    s.w.put(v & 0xff, 8);
                }
            }
        }
        10 => {
            let (id, w) = (width(rng), width(rng));
            s.put_id(1);
            s.w.vbr(id, 8);
            s.w.vbr(w, 4);
            s.w.align32();
            s.w.put(rng.below(1 << 32), 32);
            let v = rng.below(16);
            s.w.put(v, 4);
        }
        11 => {
            let n = width(rng);
            s.put_id(2);
            s.w.vbr(n, 5);
            for _ in 0..rng.us(6) {
                let lit = rng.bool() as u64;
                s.w.put(lit, 1);
                if lit == 1 {
                    let v = width(rng);
                    s.w.vbr(v, 8);
                } else {
                    let e = rng.below(8);
                    s.w.put(e, 3);
                    if e == 1 || e == 2 {
                        let v = width(rng);
                        s.w.vbr(v, 5);
                    }
                }
            }
        }
        _ => {
            // More ends than blocks.
            for _ in 0..s.depth() {
                s.exit();
            }
            match rng.below(4) {
                0 => s.put_id(0),
                1 => s.put_id(3),
                2 => s.define_raw(&[Op::Lit(1)]),
                _ => {}
            }
        }
    }
    kind
}

fn c06(cx: &mut Ctx) {
    let steps = cx.rng.ur(1, 40);
    let s = random_stream(&mut cx.rng, steps);
    let o = random_stream(&mut cx.rng, steps);
    let other = o.bytes();
    let data = s.bytes();
    // Truncations.
    let words = data.len() / 4;
    let stride = (words / 40).max(1);
    let mut k = cx.rng.us(stride) + 1;
    while k < words {
        let t = &data[..k * 4];
        if !c06_input(cx, t, "truncated", 1000) {
            return;
        }
        let (_, evs, _) = parse(t, usize::MAX);
        if evs.len() > s.evs.len() || evs[..] != s.evs[..evs.len()] {
            return cx.violation("prefix", format!("the entries of a truncation to {} bytes aren't a prefix; stream {}", k * 4, hex(&data)), &data);
        }
        cx.count("truncations", 1);
        k += stride;
    }
    for _ in 0..24 {
        let mut m = data.clone();
        let mut kind = 0;
        for _ in 0..cx.rng.ur(1, 3) {
            kind = kind * 10 + mutate(&mut cx.rng, &mut m, &other);
        }
        if !c06_input(cx, &m, "mutated", kind % 100) {
            return;
        }
        cx.count("mutations", 1);
    }
    for _ in 0..12 {
        // Dense small streams: random bits biased towards short valid constructs.
        let mut w = BitWriter::new();
        w.put(0xdec0_4342, 32);
        let style = cx.rng.below(3);
        if style > 0 {
            let width = cx.rng.ur(2, 5);
            w.put(1, 2);
            let id = if cx.rng.chance(1, 3) { 0 } else { cx.rng.range(1, 9) };
            w.vbr(id, 8);
            w.vbr(width as u64, 4);
            w.align32();
            w.put(cx.rng.below(9), 32);
            if id == 0 {
                w.put(3, width);
                w.vbr(1, 6);
                w.vbr(1, 6);
                w.vbr(cx.rng.below(9), 6);
            }
        }
        let n = cx.rng.us(60);
        for _ in 0..n {
            match cx.rng.below(4) {
                0 => w.put(0, 4),
                1 => {
                    let v = cx.rng.below(4);
                    w.put(v, 2)
                }
                2 => {
                    let v = cx.rng.below(64);
                    w.put(v & 0x1f, 6)
                }
                _ => {
                    let v = cx.rng.next();
                    w.put(v & 0xff, 8)
                }
            }
        }
        w.align32();
        if !c06_input(cx, &w.bytes, "random", 2000 + style) {
            return;
        }
        cx.count("random streams", 1);
    }
    for _ in 0..8 {
        // What's odd, after something valid.
        let rng = &mut cx.rng;
        let magic = random_magic(rng);
        let mut s = SW::new(magic);
        let sh = Shape { steps: rng.us(8), max_depth: 3, abbrev_bias: true, blockinfo: true };
        random_content(rng, &mut s, &sh);
        if rng.bool() {
            let id = random_block_id(rng);
            s.enter(id, rng.ur(3, 7));
            put_blockinfo(rng, &mut s);
        }
        let kind = nasty(rng, &mut s);
        let n = rng.us(12);
        for _ in 0..n {
            let v = rng.next();
            s.w.put(v & 0xff, 8);
        }
        s.w.align32();
        let data = s.w.bytes.clone();
        if !c06_input(cx, &data, "odd", 4000 + kind) {
            return;
        }
        cx.count("streams that turn odd", 1);
    }
    for _ in 0..4 {
        let n = cx.rng.us(64);
        let b = cx.rng.bytes(n);
        if !c06_input(cx, &b, "random bytes", 3000) {
            return;
        }
    }
    cx.sample(|| format!("{} bytes, and 40 truncations and mutations of them: {}", data.len(), hex(&data)));
}

pub static C07: Prop = Prop {
    id: "C07",
    run: c07,
    cases: unlimited,
    min_cases: |_| 44,
    secs: default_secs,
    hang_secs: 60,
    rule: "Cases: 22 families: operand counts, array, blob, abbreviation-operand and block lengths claimed up to 2^64-1 without data; runs of up to 200000 abbreviation definitions, SETBIDs, BLOCKINFO blocks and empty blocks; nesting up to 100000; and, for the mapper, claimed table sizes, string references, deep nesting and chains of types, each at a random size. Monitors: peak live bytes (counting allocator) against a linear bound in the input's size, and survival on a 2 MiB stack. Distinct: (family, log2 of the claim, log2 of the run length, outcome).",
    assumptions: &[
        "the linear bound is 1 MiB plus 400 bytes per input byte",
        "abbreviations with many literal operands used many times, and string tables shared by many modules, multiply data that was read; that blow-up isn't judged",
    ],
};

fn claim(rng: &mut Rng) -> u64 {
    match rng.below(5) {
        0 => u64::MAX - rng.below(4),
        1 => 1 << rng.range(20, 63),
        2 => (1 << rng.range(20, 63)) + rng.below(5),
        3 => u32::MAX as u64 + rng.below(3),
        _ => rng.next() >> rng.range(0, 40),
    }
}

fn c07(cx: &mut Ctx) {
    let fam = cx.case % 22;
    let rng = &mut cx.rng;
    let mut s = SW::new(0xdec0_4342);
    let mut amount = 0u64;
    let mut map = false;
    let mut len = match rng.below(3) {
        0 => 200_000,
        1 => rng.ur(1, 200_000),
        _ => 1usize << rng.below(17),
    };
    // The expected outcome of the stream parser: an error, or all entries.
    let mut expect_err = false;
    match fam {
        0 => {
            amount = claim(rng);
            s.enter(8, 3);
            s.put_id(3);
            s.w.vbr(1, 6);
            s.w.vbr(amount, 6);
            for _ in 0..rng.us(50) {
                s.w.vbr(rng.small(), 6);
            }
            expect_err = true;
        }
        1 | 2 | 3 => {
            amount = claim(rng);
            s.enter(8, 3);
            let e = [Op::Fixed(1), Op::Char6, Op::Vbr(6)][fam as usize - 1].clone();
            s.define(&vec![Op::Lit(1), Op::Array(Box::new(e))]);
            s.put_id(4);
            s.w.vbr(amount, 6);
            for _ in 0..rng.us(50) {
                s.w.put(rng.below(64), 6);
            }
            expect_err = true;
        }
        4 => {
            amount = claim(rng);
            s.enter(8, 3);
            s.define(&vec![Op::Lit(1), Op::Blob]);
            s.put_id(4);
            s.w.vbr(amount, 6);
            s.w.align32();
            for _ in 0..rng.us(50) {
                s.w.put(rng.below(256), 8);
            }
            expect_err = true;
        }
        5 => {
            amount = claim(rng);
            s.enter(8, 3);
            s.put_id(2);
            s.w.vbr(amount, 5);
            for _ in 0..rng.us(30) {
                s.w.put(1, 1);
                s.w.vbr(rng.small(), 8);
            }
            expect_err = true;
        }
        6 => {
            // A block length that the data doesn't back: an error, or ignored; never memory.
            amount = rng.range(1 << 20, u32::MAX as u64);
            s.enter(8, 3);
            s.unabbrev(1, &[2, 3]);
            s.exit();
            let at = 8;
            s.w.patch32(at, amount as u32);
            if let Ev::Enter { len, .. } = &mut s.evs[0] {
                *len = amount * 4;
            }
        }
        7 => {
            s.enter(8, 3);
            for _ in 0..len {
                s.define(&vec![Op::Vbr(6)]);
            }
            s.unabbrev(1, &[]);
            s.exit();
        }
        8 => {
            s.enter(0, 3);
            for _ in 0..len {
                s.unabbrev(1, &[9]);
            }
            s.exit();
            s.enter(8, 3);
            s.exit();
        }
        9 => {
            for _ in 0..len.min(60_000) {
                s.enter(0, 3);
                s.exit();
            }
            s.enter(8, 3);
            s.exit();
        }
        10 => {
            s.enter(0, 3);
            s.unabbrev(1, &[9]);
            for i in 0..len {
                if i % 3 == 0 {
                    s.unabbrev(2, &[65, 66]);
                } else {
                    s.define(&vec![Op::Fixed(3)]);
                }
            }
            s.exit();
            s.enter(8, 3);
            s.exit();
        }
        11 => {
            s.enter(8, 3);
            for _ in 0..len.min(60_000) {
                s.enter(0, 3);
                s.exit();
            }
            s.exit();
        }
        12 => {
            len = len.min(100_000);
            for i in 0..len {
                s.enter(8 + (i as u64 & 1), 3);
            }
            for _ in 0..len {
                s.exit();
            }
        }
        13 => {
            // Nested too deeply for the mapper.
            map = true;
            len = match rng.below(3) {
                0 => 100_000,
                1 => rng.ur(1000, 100_000),
                _ => rng.ur(1, 3000),
            };
            s.enter(13, 3);
            s.unabbrev(1, &[65]);
            s.unabbrev(2, &[0]);
            s.exit();
            let open = rng.bool();
            for _ in 0..len {
                s.enter(8, 3);
            }
            if !open {
                for _ in 0..len {
                    s.exit();
                }
            }
        }
        14 => {
            // Records that claim a large table.
            map = true;
            amount = claim(rng);
            crate::modgen::skeleton(&mut s, |s| {
                s.enter(17, 4);
                s.unabbrev(1, &[amount]);
                s.unabbrev(2, &[]);
                s.exit();
            });
        }
        15 => {
            map = true;
            amount = claim(rng);
            let (a, b) = (amount, claim(rng));
            crate::modgen::skeleton(&mut s, |s| {
                s.enter(17, 4);
                s.unabbrev(1, &[1]);
                s.unabbrev(2, &[]);
                s.exit();
                s.unabbrev(8, &[a, b, 0, 0, 0, 0, 0, 0]);
            });
        }
        16 => {
            // A chain of types.
            map = true;
            let kind = rng.below(4);
            len = len.min(100_000);
            let back = rng.bool();
            crate::modgen::skeleton(&mut s, |s| {
                s.enter(17, 4);
                s.unabbrev(1, &[len as u64 + 1]);
                if back {
                    s.unabbrev(7, &[32]);
                }
                for i in 0..len as u64 {
                    let t = if back { i } else { i + 1 };
                    match kind {
                        0 => s.unabbrev(8, &[t, 0]),
                        1 => s.unabbrev(11, &[1, t]),
                        2 => s.unabbrev(18, &[0, t]),
                        _ => s.unabbrev(21, &[0, t]),
                    }
                }
                if !back {
                    s.unabbrev(7, &[32]);
                }
                s.exit();
            });
        }
        17 => {
            // Types that double at every step.
            map = true;
            len = rng.ur(2, 300);
            let cyc = rng.chance(1, 3);
            let w = rng.ur(2, 9);
            crate::modgen::skeleton(&mut s, |s| {
                s.enter(17, 4);
                s.unabbrev(1, &[len as u64 + 1]);
                s.unabbrev(7, &[32]);
                for i in 0..len as u64 {
                    let mut f = vec![0u64];
                    f.extend(vec![i; w]);
                    if cyc && i == len as u64 / 2 {
                        f[1] = len as u64;
                    }
                    s.unabbrev(18, &f);
                }
                s.exit();
            });
        }
        18 => {
            // Self reference, in every kind of type.
            map = true;
            let kind = rng.below(6);
            len = 1;
            crate::modgen::skeleton(&mut s, |s| {
                s.enter(17, 4);
                s.unabbrev(1, &[2]);
                match kind {
                    0 => s.unabbrev(8, &[0, 0]),
                    1 => s.unabbrev(11, &[5, 0]),
                    2 => s.unabbrev(12, &[5, 0]),
                    3 => s.unabbrev(18, &[0, 1, 0]),
                    4 => s.unabbrev(21, &[0, 0, 0]),
                    _ => s.unabbrev(18, &[1, 1]),
                }
                s.unabbrev(18, &[0, 0]);
                s.exit();
            });
        }
        19 => {
            // Array and vector types with claimed element counts.
            map = true;
            amount = claim(rng);
            let k = if rng.bool() { 11 } else { 12 };
            crate::modgen::skeleton(&mut s, |s| {
                s.enter(17, 4);
                s.unabbrev(1, &[2]);
                s.unabbrev(7, &[32]);
                s.unabbrev(k, &[amount, 0]);
                s.exit();
            });
        }
        20 => {
            // A function body that declares many basic blocks.
            map = true;
            amount = claim(rng);
            crate::modgen::skeleton(&mut s, |s| {
                s.enter(17, 4);
                s.unabbrev(1, &[1]);
                s.unabbrev(2, &[]);
                s.exit();
                s.enter(12, 4);
                s.unabbrev(1, &[amount]);
                s.exit();
            });
        }
        _ => {
            // Attribute tables with claimed identifiers.
            map = true;
            amount = claim(rng);
            crate::modgen::skeleton(&mut s, |s| {
                s.enter(10, 4);
                s.unabbrev(3, &[amount & 0xffff_ffff, 0xffff_ffff, 0, 1]);
                s.exit();
                s.enter(9, 4);
                s.unabbrev(2, &[amount & 0xffff_ffff]);
                s.exit();
                s.enter(17, 4);
                s.unabbrev(1, &[1]);
                s.unabbrev(2, &[]);
                s.exit();
            });
        }
    }
    let data = s.bytes();
    let bound = (1 << 20) + 400 * data.len() as u64;
    cx.eval();
    let ((n, end), used) = mem::measure(|| {
        // Counting entries only, so that what the monitor keeps doesn't count.
        match guard(|| Bitstream::from(data.as_slice())) {
            Err(p) => (0, End::Panic(p)),
            Ok(Err(e)) => (0, End::Err(format!("{e:?}"))),
            Ok(Ok((_, mut bs))) => {
                let mut n = 0usize;
                loop {
                    match guard(|| bs.next()) {
                        Err(p) => break (n, End::Panic(p)),
                        Ok(None) => break (n, End::None),
                        Ok(Some(Err(e))) => break (n, End::Err(format!("{e:?}"))),
                        Ok(Some(Ok(_))) => n += 1,
                    }
                }
            }
        }
    });
    let tell = |what: &str| format!("family {fam} (claim {amount}, length {len}, {} bytes): {what}", data.len());
    if let End::Panic(p) = &end {
        return cx.violation("panic", tell(&format!("{p}")), &data);
    }
    if used.peak as u64 > bound {
        return cx.violation("memory", tell(&format!("{} bytes were live at once while parsing (largest allocation {}), the bound is {bound}", used.peak, used.largest)), &data);
    }
    if expect_err && !matches!(end, End::Err(_)) {
        return cx.violation("accepted", tell(&format!("ended with {end:?} after {n} entries; an error was due")), &data);
    }
    if !expect_err && fam < 13 && fam != 6 && (n != s.evs.len() || !matches!(end, End::None)) {
        return cx.violation("entries", tell(&format!("{n} entries, then {end:?}; expected {}", s.evs.len())), &data);
    }
    cx.max("max bytes live while parsing, per input byte (x100)", used.peak as u64 * 100 / (data.len() as u64 + 2000));
    let mut outcome = matches!(end, End::None) as u64;
    if map {
        cx.eval();
        let (r, used) = mem::measure(|| guard(|| llvm_mapper::unroll::Bitcode::try_from(data.as_slice()).map(|b| b.modules.len()).map_err(|e| clip(&format!("{e:?}"), 200))));
        let r = match r {
            Err(p) => return cx.violation("panic", tell(&format!("mapping: {p}")), &data),
            Ok(r) => r,
        };
        // The resolved types are trees; their budget is fixed.
        let mbound = bound + (256 << 20);
        if used.peak as u64 > mbound {
            return cx.violation("memory", tell(&format!("{} bytes were live at once while mapping, the bound is {mbound}; {r:?}", used.peak)), &data);
        }
        if fam != 16 && fam != 17 && used.peak as u64 > bound {
            return cx.violation("memory", tell(&format!("{} bytes were live at once while mapping, the bound is {bound}; {r:?}", used.peak)), &data);
        }
        if fam == 13 && len > 20_000 && r.is_ok() {
            return cx.violation("accepted", tell("mapped"), &data);
        }
        if matches!(fam, 15) && r.is_ok() && amount > 64 {
            return cx.violation("accepted", tell("a name outside the string table was accepted"), &data);
        }
        cx.max("max bytes live while mapping (KiB)", used.peak as u64 / 1024);
        cx.count(if r.is_ok() { "mapped" } else { "mapping refused" }, 1);
        outcome += 2 + r.is_ok() as u64;
    }
    cx.count(&format!("family {fam:02}"), 1);
    let lg = |x: u64| 64 - x.leading_zeros() as u64;
    cx.distinct(Fnv::new().u(fam).u(lg(amount)).u(lg(len as u64)).u(outcome).0);
    cx.sample(|| tell(&format!("{n} entries, {end:?}, peak {} bytes", used.peak)));
}

pub static C08: Prop = Prop {
    id: "C08",
    run: c08,
    cases: unlimited,
    min_cases: |_| 64,
    secs: default_secs,
    hang_secs: 60,
    rule: "Cases: random raw and wrapped streams: offsets (multiples of four from 0 to past the end), sizes (exact, shorter, misaligned, past the end, overflowing), random bytes before and after the payload (twice, differently), arbitrary version and CPU words, payloads that look like wrappers, buffers of 0 to 24 bytes; four cases with offsets and sizes around 2^29, 2^31 and 2^32 in a sparse buffer. Oracle: the header words, and the reference decoder on exactly the payload's bytes. Distinct: (kind, offset class, size class, payload outcome, trailing bytes class).",
    assumptions: &["offsets that aren't multiples of four are only required not to panic"],
};

fn c08(cx: &mut Ctx) {
    match cx.case {
        5 => return c08_far(cx, 1 << 29),
        7 => return c08_far(cx, 1 << 31),
        6 | 11 => return c08_far(cx, 1 << 32),
        _ => {}
    }
    for _ in 0..20 {
        c08_one(cx);
        if !cx.violations.is_empty() {
            return;
        }
    }
}

fn c08_one(cx: &mut Ctx) {
    let rng = &mut cx.rng;
    let steps = rng.us(12);
    let mut payload = random_stream(rng, steps).bytes();
    if rng.chance(1, 10) {
        payload[..4].copy_from_slice(&WRAPPER_MAGIC.to_le_bytes());
    }
    if rng.chance(1, 6) {
        let other = payload.clone();
        mutate(rng, &mut payload, &other);
    }
    match rng.below(10) {
        0 => {
            // Short buffers.
            let n = rng.us(25);
            let mut d = rng.bytes(n);
            if rng.bool() {
                for (i, b) in WRAPPER_MAGIC.to_le_bytes().iter().enumerate() {
                    if i < d.len() {
                        d[i] = *b;
                    }
                }
            }
            return c08_judge(cx, &d, "short");
        }
        1 | 2 => {
            // Raw; sometimes with a length that isn't a multiple of four.
            if rng.chance(1, 3) {
                let k = rng.ur(1, 7);
                let extra = rng.bytes(k);
                payload.extend(extra);
            }
            return c08_judge(cx, &payload, "raw");
        }
        _ => {}
    }
    let off = match rng.below(8) {
        0 => rng.us(5) * 4,
        1 | 2 => 20 + rng.us(40) * 4,
        3 => 20 + rng.us(90),
        _ => 20,
    };
    let off_word = match rng.below(20) {
        0 => rng.next() as u32,
        1 => u32::MAX - rng.below(9) as u32,
        _ => off as u32,
    };
    let psize = payload.len() as u64;
    let size_word = match rng.below(12) {
        0 => psize + rng.range(1, 9),
        1 => rng.wild() as u32 as u64,
        2 => u32::MAX as u64 - rng.below(40),
        3 => rng.below(psize + 1),
        4 => rng.below(psize / 4 + 1) * 4,
        5 => 0,
        // The end is aligned, the size isn't.
        6 if off % 4 != 0 => psize + 4 - off as u64 % 4,
        _ => psize,
    } as u32;
    let trail = match rng.below(4) {
        0 | 1 => 0,
        2 => rng.us(9),
        _ => rng.us(200),
    };
    let mut results = vec![];
    let (version, cpu) = (rng.wild() as u32, rng.wild() as u32);
    for _ in 0..2 {
        let mut d = vec![];
        for w in [WRAPPER_MAGIC, version, off_word, size_word, cpu] {
            d.extend_from_slice(&w.to_le_bytes());
        }
        if off >= 20 {
            let pad = cx.rng.bytes(off - 20);
            d.extend(pad);
            d.extend_from_slice(&payload);
        } else {
            d.extend_from_slice(&payload);
        }
        let tail = match cx.rng.below(3) {
            0 => vec![0; trail],
            1 => vec![0xff; trail],
            _ => cx.rng.bytes(trail),
        };
        d.extend(tail);
        c08_judge(cx, &d, "wrapped");
        if !cx.violations.is_empty() {
            return;
        }
        results.push(d);
    }
    cx.sample(|| format!("wrapper with offset {off_word}, size {size_word} around {} bytes: {}", payload.len(), hex(&results[0])));
}

/// Payloads that lie around, begin beyond, or are longer than `mark` bytes: where the count of bits passes 2^32, and that
/// of bytes 2^31 and 2^32. The memory between is untouched zeros.
fn c08_far(cx: &mut Ctx, mark: usize) {
    let last = u32::MAX as usize;
    let mut memory = super::c01_03::Sparse::new(mark + (1 << 16));
    for turn in 0..24 {
        let steps = cx.rng.us(12);
        let payload = random_stream(&mut cx.rng, steps).bytes();
        let n = payload.len();
        // The offset and the size.
        let (off, size) = match turn % 4 {
            // Ends just below, at or beyond the mark.
            0 => (mark - n + cx.rng.us(5) * 4 - 8, n),
            1 => (mark + cx.rng.us(9) * 4 - 16, n),
            // The zeros after the payload belong to it.
            2 => (20 + cx.rng.us(9) * 4, mark - 64 + cx.rng.us(32) * 4),
            _ => (mark - 4096 + cx.rng.us(512) * 4, 4096),
        };
        if n > 1 << 14 || off > last || size > last {
            continue;
        }
        let data = memory.bytes();
        let words = [WRAPPER_MAGIC, cx.rng.wild() as u32, off as u32, size as u32, cx.rng.wild() as u32];
        for (i, w) in words.iter().enumerate() {
            data[4 * i..4 * i + 4].copy_from_slice(&w.to_le_bytes());
        }
        data[off..off + n].copy_from_slice(&payload);
        // What ends with the payload, a little before its end, or where the memory does.
        let end = match cx.rng.below(4) {
            0 => off + size,
            1 => off + size - cx.rng.ur(1, 4),
            _ => data.len(),
        };
        let d = &data[..end];
        c08_judge(cx, d, "far");
        cx.count("containers with far offsets or sizes", 1);
        if !cx.violations.is_empty() {
            return;
        }
        memory.bytes()[off..off + n].fill(0);
    }
}

fn c08_judge(cx: &mut Ctx, d: &[u8], kind: &str) {
    // What a report shows.
    let d_saved = &d[..d.len().min(1 << 16)];
    cx.eval();
    let word = |i: usize| u32::from_le_bytes(d[4 * i..4 * i + 4].try_into().unwrap());
    let is_wrapper = d.len() >= 4 && word(0) == WRAPPER_MAGIC;
    let r = match guard(|| Bitstream::from(d)) {
        Err(p) => return cx.violation("panic", format!("{kind}: opening: {p}; data {}", hex(d_saved)), d),
        Ok(r) => r,
    };
    let desc = |m: &str| format!("{kind}: {m}; data {}", hex(d_saved));
    // What has to happen.
    let payload: Option<&[u8]> = if is_wrapper {
        if d.len() < 20 {
            None
        } else {
            let (off, size) = (word(2) as usize, word(3) as usize);
            if off + size > d.len() || size % 4 != 0 || size < 4 {
                None
            } else {
                Some(&d[off..off + size])
            }
        }
    } else if d.len() % 4 != 0 || d.len() < 4 {
        None
    } else {
        Some(d)
    };
    let offc = if is_wrapper && d.len() >= 20 { (word(2) as u64).min(64) } else { 99 };
    let mut outcome = 0;
    match (payload, r) {
        (None, Err(_)) => cx.count("containers refused", 1),
        (None, Ok(_)) => {
            cx.violation("accepted", desc("a bad container was accepted"), d_saved);
            return;
        }
        (Some(_), Err(e)) => {
            cx.violation("refused", desc(&format!("a good container was refused: {e:?}")), d_saved);
            return;
        }
        (Some(p), Ok((w, mut bs))) => {
            match (&w, is_wrapper) {
                (None, false) => {}
                (Some(w), true) => {
                    let got = [w.magic, w.version, w.offset, w.size, w.cpu_type];
                    let want = [word(0), word(1), word(2), word(3), word(4)];
                    if got != want {
                        return cx.violation("header", desc(&format!("header {got:x?}, expected {want:x?}")), d_saved);
                    }
                }
                _ => return cx.violation("header", desc(&format!("wrapper reported: {}, expected: {is_wrapper}", w.is_some())), d),
            }
            let m = u32::from_le_bytes(p[..4].try_into().unwrap());
            if bs.magic != m {
                return cx.violation("magic", desc(&format!("magic {:#x}, expected {m:#x}", bs.magic)), d_saved);
            }
            let (evs, end) = collect(&mut bs, usize::MAX);
            if is_wrapper && word(2) % 4 != 0 {
                cx.count("payloads at misaligned offsets", 1);
            }
            let r = reference(p);
            if let Some(m) = judge(&r.evs, r.status, &evs, &end) {
                return cx.violation("entries", desc(&m), d_saved);
            }
            outcome = 1 + matches!(r.status, Status::End) as u64;
            cx.count(if is_wrapper { "wrapped payloads compared" } else { "raw streams compared" }, 1);
            cx.count("entries compared", evs.len() as u64);
        }
    }
    let sizec = if is_wrapper && d.len() >= 20 {
        let (o, s) = (word(2) as u64, word(3) as u64);
        let total = d.len() as u64;
        (s % 4) * 8 + if o + s > total { 1 } else if o + s == total { 2 } else { 3 }
    } else {
        d.len() as u64 % 4
    };
    cx.distinct(Fnv::new().u(hash_str(kind)).u(offc).u(sizec).u(outcome).u(d.len().min(24) as u64).0);
}
