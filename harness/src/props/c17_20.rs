//! C17 to C20: data layouts, alignments, types and numeric codes.

use super::*;
use crate::ctx::*;
use crate::layout::{self, Lay, V};
use crate::obs::*;
use crate::refmap::*;
use crate::tables as t;
use crate::util::*;
use llvm_mapper::block::{AttributeGroupDisposition, BlockId, EnumAttribute, IntAttribute, UwTableVariant};
use llvm_mapper::record::{DataLayout, SelectionKind};
use llvm_support::bitcodes::*;
use llvm_support::*;
use std::cmp::Ordering::Equal;
use std::collections::BTreeMap;
use std::convert::TryFrom;

/// Compares what a value's `Debug` shows with a pattern.
fn shown(cx: &mut Ctx, key: &str, what: &str, dbg: &str, p: &Pat, input: &[u8]) -> bool {
    match parse_debug(dbg).map(|v| matches(&v, p, what)) {
        Some(M::Same) => true,
        Some(M::Diff(d)) => {
            cx.violation(key, d, input);
            false
        }
        Some(M::Unobserved(u)) => {
            let u: String = u.chars().filter(|c| !c.is_ascii_digit()).take(50).collect();
            cx.count(&format!("unobserved: {u}"), 1);
            true
        }
        None => {
            cx.count("unobserved: text that isn't a value", 1);
            true
        }
    }
}

// ---- C17 ---------------------------------------------------------------------------------------

pub static C17: Prop = Prop {
    id: "C17",
    run: c17,
    cases: unlimited,
    min_cases: |_| 200,
    secs: default_secs,
    hang_secs: 30,
    rule: "Cases: data layout strings: lists of up to 1100 valid specifications, often with a setting given twice; such lists with one unusual or wrong specification; layouts of LLVM's targets; all of these with one to three characters changed; random ASCII and non-ASCII text. Oracle: a model of the grammar written from the language reference and LLVM's parser, which says what the layout is, that the string is bad, or that it's left open; what was parsed is compared field by field through its Debug output. Distinct: the model's layout, or the reason for which it refuses.",
    assumptions: &[
        "Strings whose meaning LLVM's documentation and implementation leave open (listed in DESIGN.md) are only required not to panic.",
        "The parsed layout is observed through its Debug output, since most of its fields aren't public.",
    ],
};

fn c17(cx: &mut Ctx) {
    if cx.case == 0 {
        for t in layout::TARGETS.lines() {
            judge_layout(cx, t, "a target's layout");
            if !matches!(layout::model(t), V::Is(_)) {
                cx.violation("model", format!("the model doesn't accept {t}"), t.as_bytes());
            }
        }
        cx.count("layouts of LLVM's targets", layout::TARGETS.lines().count() as u64);
        if let Some(d) = cx.guarded("DataLayout::default", &[], || format!("{:?}", DataLayout::default())) {
            shown(cx, "default", "the default layout", &d, &Lay::default().pat(), &[]);
        }
        cx.eval();
    }
    for _ in 0..8 {
        let (s, what) = string(cx);
        judge_layout(cx, &s, what);
    }
    // Through the mapper.
    if cx.rng.chance(1, 4) {
        let (s, what) = string(cx);
        in_a_module(cx, &s, what);
    }
}

fn string(cx: &mut Ctx) -> (String, &'static str) {
    let rng = &mut cx.rng;
    match rng.below(10) {
        0 | 1 | 2 => (layout::valid(rng), "valid"),
        3 => {
            let n = rng.range(1, 4);
            let mut v: Vec<String> = layout::target(rng).split('-').map(String::from).collect();
            for _ in 0..n {
                let at = rng.us(v.len() + 1);
                v.insert(at, layout::valid_spec(rng));
            }
            (v.join("-"), "a target's, extended")
        }
        4 | 5 => {
            let mut v: Vec<String> = match rng.below(3) {
                0 => vec![],
                1 => layout::valid(rng).split('-').map(String::from).collect(),
                _ => layout::target(rng).split('-').map(String::from).collect(),
            };
            let at = rng.us(v.len() + 1);
            v.insert(at, layout::odd_spec(rng));
            (v.join("-"), "odd")
        }
        6 | 7 => {
            let s = if rng.bool() { layout::valid(rng) } else { layout::target(rng).to_string() };
            (layout::mutate(rng, &s), "mutated")
        }
        8 => {
            let n = rng.us(24);
            ((0..n).map(|_| rng.range(32, 126) as u8 as char).collect(), "random ASCII")
        }
        _ => {
            let n = rng.ur(1, 12);
            let s: String = (0..n)
                .map(|_| match rng.below(4) {
                    0 => char::from_u32(rng.below(0x11_0000) as u32).unwrap_or('\u{fffd}'),
                    1 => *rng.pick(&['\u{661}', '\u{e9}', '\u{ff11}', '\u{1f980}', '\u{0}', '\u{a0}']),
                    _ => *rng.pick(&['e', 'p', 'i', 'v', 'f', 'a', 'S', 'n', 'm', 'F', ':', '-', '8', '6', '4']),
                })
                .collect();
            (s, "random text")
        }
    }
}

fn judge_layout(cx: &mut Ctx, s: &str, what: &str) {
    cx.eval();
    let got = match guard(|| s.parse::<DataLayout>().map(|l| format!("{l:?}")).map_err(|e| format!("{e:?} {e}"))) {
        Ok(g) => g,
        Err(p) => return cx.violation("panic", format!("parsing {s:?} ({what}): {p}"), s.as_bytes()),
    };
    let want = layout::model(s);
    verdict(cx, s, what, &want, &got);
    cx.sample(|| format!("{what}: {s:?}: {}", if got.is_ok() { "a layout" } else { "refused" }));
}

fn verdict(cx: &mut Ctx, s: &str, what: &str, want: &V<Lay>, got: &Result<String, String>) {
    match (want, got) {
        (V::Is(l), Ok(d)) => {
            if shown(cx, "content", &format!("the layout of {s:?}"), d, &l.pat(), s.as_bytes()) {
                cx.count("layouts compared", 1);
                cx.distinct(hash_str(&format!("{l:?}")));
            }
        }
        (V::Is(_), Err(e)) => cx.violation("refused", format!("{s:?} ({what}) is refused: {e}"), s.as_bytes()),
        (V::Bad(b), Ok(d)) => cx.violation("accepted", format!("{s:?} ({what}) is accepted although it has {b}: {}", clip(d, 600)), s.as_bytes()),
        (V::Bad(b), Err(_)) => {
            cx.count(&format!("refused: {b}"), 1);
            cx.distinct(hash_str(b));
        }
        (V::Open(o), r) => cx.count(&format!("open, {}: {o}", if r.is_ok() { "accepted" } else { "refused" }), 1),
    }
}

/// The same string as a module's data layout record.
fn in_a_module(cx: &mut Ctx, s: &str, what: &str) {
    if s.is_empty() {
        return;
    }
    let chars: Vec<u64> = s.bytes().map(u64::from).collect();
    let top = vec![
        Blk::new(13).rec(1, &[77]).rec(2, &[0]),
        Blk::new(8).rec(1, &[2]).rec(3, &chars).blk(Blk::new(17).rec(1, &[0])).blk(Blk::new(14)),
        crate::mapgen::blob(23, b"x"),
    ];
    let style = if cx.rng.bool() { Style::Plain } else { Style::Random };
    let data = write(&mut cx.rng, &top, style);
    cx.eval();
    let m = match map(&data) {
        Ok(m) => m,
        Err(p) => return cx.violation("panic", format!("mapping a module with the layout {s:?} ({what}): {p}"), &data),
    };
    // What a string with other than ASCII characters becomes is judged by its characters.
    let want = layout::model(s);
    let got = match m.result {
        Err(e) => Err(e),
        Ok(_) => match m.seen.contexts.first().and_then(|c| parse_debug(c)) {
            Some(c) => {
                if let (V::Is(l), Some(v)) = (&want, c.field("datalayout")) {
                    if let M::Diff(d) = matches(v, &l.pat(), "the module's layout") {
                        return cx.violation("content", format!("{s:?} ({what}): {d}"), &data);
                    }
                    cx.count("layouts compared in modules", 1);
                }
                Ok(())
            }
            None => Ok(()),
        },
    };
    match (&want, &got) {
        (V::Is(_), Err(e)) => cx.violation("refused", format!("a module with the layout {s:?} ({what}) is refused: {e}"), &data),
        (V::Bad(b), Ok(())) => cx.violation("accepted", format!("a module with the layout {s:?} ({what}) is accepted although it has {b}"), &data),
        _ => {}
    }
}

// ---- C18 ---------------------------------------------------------------------------------------

pub static C18: Prop = Prop {
    id: "C18",
    run: c18,
    cases: unlimited,
    min_cases: |_| 60,
    secs: short_secs,
    hang_secs: 30,
    rule: "Cases: every shift from 0 to 255 and every pair of valid alignments; byte and bit counts that are powers of two, near powers of two, and of any magnitude; type widths and address spaces around their bounds and of any magnitude, as 32-bit and 64-bit numbers and as text; type and pointer specifications with every order of preferred and ABI alignment, built directly and from text; sequences of up to 60 updates with clustered keys. Oracle: powers of two computed independently, the layout model for text, a sorted map for collections. Distinct: the accepted value or the rejected input's class, and the final collections.",
    assumptions: &["The library's own published maximum (AddressSpace::MAX, AlignedTypeWidth::MAX) is taken as the range where LLVM's documentation and implementation differ (2^23 to 2^24)."],
};

fn c18(cx: &mut Ctx) {
    if cx.case % 16 == 0 {
        every_shift(cx);
    }
    for _ in 0..60 {
        numbers(cx);
    }
    for _ in 0..10 {
        specs(cx);
    }
    for _ in 0..2 {
        collections(cx);
    }
    cx.sample(|| "a block of alignments, widths, address spaces, specifications and update sequences".into());
}

fn every_shift(cx: &mut Ctx) {
    for s in 0..=255u8 {
        cx.eval();
        let Some(r) = cx.guarded("Align::from_shift", &[s], || Align::from_shift(s).ok()) else { continue };
        let Some(a) = r else {
            if s <= 63 {
                cx.violation("shift", format!("Align::from_shift({s}) is refused"), &[s]);
            }
            continue;
        };
        if s > 63 {
            cx.violation("shift", format!("Align::from_shift({s}) is accepted"), &[s]);
            continue;
        }
        check_align(cx, a, s as u32, "Align::from_shift");
        cx.distinct(s as u64);
        match cx.guarded("MaybeAlign::try_from", &[s], || MaybeAlign::try_from(s).ok().map(|m| (format!("{m:?}"), m == MaybeAlign::from(None), s > 0 && m == MaybeAlign::from(Align::from_shift(s - 1).ok())))) {
            None => {}
            Some(None) => cx.violation("maybe", format!("MaybeAlign::try_from({s}) is refused"), &[s]),
            Some(Some((d, none, same))) => {
                if none != (s == 0) || same != (s > 0) {
                    cx.violation("maybe", format!("MaybeAlign::try_from({s}) is {d}"), &[s]);
                }
            }
        }
    }
    for s in 0..=255u8 {
        cx.eval();
        if let Some(ok) = cx.guarded("MaybeAlign::try_from", &[s], || MaybeAlign::try_from(s).is_ok()) {
            if ok != (s <= 64) {
                cx.violation("maybe", format!("MaybeAlign::try_from({s}) is {}", if ok { "accepted" } else { "refused" }), &[s]);
            }
        }
    }
    let all: Vec<Align> = (0..64).filter_map(|s| Align::from_shift(s).ok()).collect();
    for (i, a) in all.iter().enumerate() {
        for (j, b) in all.iter().enumerate() {
            cx.eval();
            if a.cmp(b) != i.cmp(&j) || a.partial_cmp(b) != Some(i.cmp(&j)) || (a == b) != (i == j) || (a < b) != (i < j) {
                cx.violation("order", format!("alignments 2^{i} and 2^{j} compare as {:?}", a.cmp(b)), &[i as u8, j as u8]);
            }
        }
    }
    for (a, s, n) in [(Align::ALIGN8, 0, 8), (Align::ALIGN16, 1, 16), (Align::ALIGN32, 2, 32), (Align::ALIGN64, 3, 64), (Align::ALIGN128, 4, 128)] {
        if a.shift() != s {
            cx.violation("constant", format!("Align::ALIGN{n} has shift {}", a.shift()), &[]);
        }
    }
}

/// An alignment that has to be 2^s bytes.
fn check_align(cx: &mut Ctx, a: Align, s: u32, from: &str) {
    cx.count("alignments checked", 1);
    let Some((sh, by, d)) = cx.guarded(from, &[s as u8], || (a.shift(), a.byte_align(), format!("{a:?}"))) else { return };
    if sh as u32 != s || by != 1u64 << s {
        cx.violation("value", format!("{from}: expected 2^{s} bytes, got shift {sh}, {by} bytes"), &[s as u8]);
        return;
    }
    shown(cx, "value", from, &d, &Pat::Rec(vec![("byte_align", Pat::Num(1u64 << s))]), &[s as u8]);
    for (n, r) in [
        ("Align::from_shift(shift)", guard(|| Align::from_shift(a.shift()).ok())),
        ("Align::from_byte_align(byte_align)", guard(|| Align::from_byte_align(a.byte_align()).ok())),
    ] {
        match r {
            Ok(Some(b)) if b == a => {}
            Ok(r) => cx.violation("inverse", format!("{n} of 2^{s} bytes is {r:?}"), &[s as u8]),
            Err(p) => cx.violation("panic", format!("{n} of 2^{s} bytes: {p}"), &[s as u8]),
        }
    }
    match guard(|| a.bit_align()) {
        Ok(b) if s <= 60 => {
            if b != 8u64 << s || Align::from_bit_align(b).ok() != Some(a) {
                cx.violation("bit-align", format!("{from}: 2^{s} bytes are {b} bits; back: {:?}", Align::from_bit_align(b)), &[s as u8]);
            }
        }
        Err(p) if s <= 60 => cx.violation("panic", format!("bit_align of 2^{s} bytes: {p}"), &[s as u8]),
        // A number of bits that 64 bits can't hold.
        Ok(b) => {
            if Align::from_bit_align(b).ok() != Some(a) {
                cx.violation("bit-align-overflow", format!("bit_align of 2^{s} bytes is {b}"), &[s as u8]);
            }
        }
        Err(p) => cx.violation("bit-align-overflow", format!("bit_align of 2^{s} bytes: {p}"), &[s as u8]),
    }
}

fn near_power(rng: &mut Rng) -> u64 {
    match rng.below(6) {
        0 | 1 => 1 << rng.below(64),
        2 => (1u64 << rng.below(64)).wrapping_add(rng.below(17)).wrapping_sub(8),
        3 => (1u64 << rng.below(64)) | (1u64 << rng.below(64)),
        4 => rng.below(300),
        _ => rng.wild(),
    }
}

fn numbers(cx: &mut Ctx) {
    let v = near_power(&mut cx.rng);
    let inp = v.to_le_bytes();
    cx.evals(4);
    if let Some(r) = cx.guarded("Align::from_byte_align", &inp, || Align::from_byte_align(v).ok()) {
        match (r, v.is_power_of_two()) {
            (Some(a), true) => check_align(cx, a, v.trailing_zeros(), "Align::from_byte_align"),
            (None, false) => cx.count("alignments refused", 1),
            (r, _) => cx.violation("bytes", format!("Align::from_byte_align({v}) is {r:?}"), &inp),
        }
    }
    if let Some(r) = cx.guarded("Align::from_bit_align", &inp, || Align::from_bit_align(v).ok()) {
        match (r, v % 8 == 0 && (v / 8).is_power_of_two()) {
            (Some(a), true) => check_align(cx, a, (v / 8).trailing_zeros(), "Align::from_bit_align"),
            (None, false) => cx.count("alignments refused", 1),
            (r, _) => cx.violation("bits", format!("Align::from_bit_align({v}) is {r:?}"), &inp),
        }
    }
    // Around the maximum, whatever it is within LLVM's bounds.
    let max = AddressSpace::MAX as u64;
    if !(0x7fffff..=0xffffff).contains(&max) {
        cx.violation("maximum", format!("AddressSpace::MAX is {max}"), &[]);
    }
    let w = match cx.rng.below(4) {
        0 => cx.rng.range(0x7ffff0, 0x80000f),
        1 => cx.rng.wild_bits(32),
        2 => (1u64 << cx.rng.range(24, 63)) + cx.rng.wild_bits(24),
        _ => cx.rng.wild(),
    };
    let inp = w.to_le_bytes();
    let mut ways = vec![];
    ways.push(("u64", guard(|| AddressSpace::try_from(w).ok())));
    if let Ok(x) = u32::try_from(w) {
        ways.push(("u32", guard(|| AddressSpace::try_from(x).ok())));
    }
    ways.push(("text", guard(|| format!("p{w}:64:64").parse::<PointerAlignSpec>().ok().map(|p| p.address_space))));
    for (how, r) in ways {
        cx.eval();
        match r {
            Err(p) => cx.violation("panic", format!("address space {w} from {how}: {p}"), &inp),
            Ok(None) if w > max => cx.count("address spaces refused", 1),
            Ok(Some(a)) if w <= max => {
                shown(cx, "space", "address space", &format!("{a:?}"), &Pat::Num(w), &inp);
                cx.count("address spaces accepted", 1);
            }
            Ok(r) => cx.violation("space", format!("address space {w} from {how} is {r:?}"), &inp),
        }
    }
    let max = AlignedTypeWidth::MAX as u64;
    if !(0x7fffff..=0xffffff).contains(&max) {
        cx.violation("maximum", format!("AlignedTypeWidth::MAX is {max}"), &[]);
    }
    let mut ways = vec![];
    if let Ok(x) = u32::try_from(w) {
        ways.push(("u32", guard(|| AlignedTypeWidth::try_from(x).ok().map(|w| format!("{w:?}")))));
    }
    let k = *cx.rng.pick(&['v', 'f', 'i']);
    if !(k == 'i' && w == 8) {
        ways.push((
            "text",
            guard(|| {
                format!("{k}{w}:64").parse::<TypeAlignSpec>().ok().map(|t| match t.aligned_type {
                    AlignedType::Float(w) | AlignedType::Integer(w) | AlignedType::Vector(w) => format!("{w:?}"),
                    AlignedType::Aggregate => "Aggregate".into(),
                })
            }),
        ));
    }
    for (how, r) in ways {
        cx.eval();
        match r {
            Err(p) => cx.violation("panic", format!("type width {w} from {how}: {p}"), &inp),
            Ok(None) if w > max || w == 0 => cx.count("type widths refused", 1),
            Ok(Some(d)) if w <= max && w > 0 => {
                shown(cx, "width", "type width", &d, &Pat::Num(w), &inp);
                cx.count("type widths accepted", 1);
            }
            Ok(r) => cx.violation("width", format!("type width {w} from {how} is {r:?}"), &inp),
        }
    }
}

fn aligned_type(kind: u8, w: u64) -> Option<AlignedType> {
    let w = || AlignedTypeWidth::try_from(w as u32).ok();
    Some(match kind {
        layout::AGG => AlignedType::Aggregate,
        layout::FLOAT => AlignedType::Float(w()?),
        layout::INT => AlignedType::Integer(w()?),
        _ => AlignedType::Vector(w()?),
    })
}

fn one(p: Pat) -> Pat {
    match p {
        Pat::List(mut v) => v.remove(0),
        p => p,
    }
}

/// Single specifications, from parts and from text.
fn specs(cx: &mut Ctx) {
    let kind = cx.rng.below(4) as u8;
    let w = if kind == layout::AGG { 0 } else { 1 + cx.rng.wild_bits(22) };
    let (a, p) = (cx.rng.below(if cx.rng.clone().bool() { 64 } else { 20 }), cx.rng.below(if cx.rng.clone().bool() { 64 } else { 20 }));
    let (Some(ty), Ok(abi), Ok(pref)) = (aligned_type(kind, w), Align::from_shift(a as u8), Align::from_shift(p as u8)) else {
        return cx.violation("width", format!("type width {w} or shifts {a}, {p} refused"), &[]);
    };
    let inp = format!("kind {kind} width {w} shifts {a} {p}");
    cx.evals(2);
    if let Some(r) = cx.guarded("TypeAlignSpec::new", inp.as_bytes(), || TypeAlignSpec::new(ty, abi, pref).ok()) {
        match (r, p >= a && a <= 15 && p <= 15) {
            (Some(s), true) => {
                let t: BTreeMap<_, _> = [((kind, w), (1u64 << a, 1u64 << p))].into_iter().collect();
                shown(cx, "spec", &inp, &format!("{s:?}"), &one(layout::types_pat(&t)), inp.as_bytes());
                cx.count("type specifications accepted", 1);
            }
            (None, false) => cx.count("type specifications refused", 1),
            (r, _) => cx.violation("spec", format!("TypeAlignSpec::new, {inp}: {r:?}"), inp.as_bytes()),
        }
    }
    let (sp, size, idx) = (cx.rng.below(1 << 23), 1 + cx.rng.wild_bits(20), 1 + cx.rng.wild_bits(20));
    if let Some(r) = cx.guarded("PointerAlignSpec::new", inp.as_bytes(), || {
        AddressSpace::try_from(sp).ok().map(|s| PointerAlignSpec::new(s, abi, pref, size, idx).ok())
    }) {
        match (r.flatten(), p >= a) {
            (Some(s), true) => {
                let t: BTreeMap<_, _> = [(sp, (1u64 << a, 1u64 << p, size, idx))].into_iter().collect();
                shown(cx, "spec", &inp, &format!("{s:?}"), &one(layout::ptrs_pat(&t)), inp.as_bytes());
                cx.count("pointer specifications accepted", 1);
            }
            (None, false) => cx.count("pointer specifications refused", 1),
            // Sizes are only judged when they make sense.
            (None, true) if idx > size => {}
            (r, _) => cx.violation("spec", format!("PointerAlignSpec::new, {inp} space {sp}: {r:?}"), inp.as_bytes()),
        }
    }
    // Text.
    let rng = &mut cx.rng;
    let s = match rng.below(4) {
        0 => layout::odd_spec(rng),
        1 => {
            let s = layout::valid_spec(rng);
            layout::mutate(rng, &s)
        }
        _ => layout::valid_spec(rng),
    };
    let want = layout::model_spec(&s);
    let s2 = s.clone();
    cx.evals(2);
    for (how, mine, r) in [
        ("TypeAlignSpec", s.starts_with(['i', 'v', 'f', 'a']), guard(|| s2.parse::<TypeAlignSpec>().map(|t| format!("{t:?}")).map_err(|e| e.to_string()))),
        ("PointerAlignSpec", s.starts_with('p'), guard(|| s2.parse::<PointerAlignSpec>().map(|t| format!("{t:?}")).map_err(|e| e.to_string()))),
    ] {
        let r = match r {
            Ok(r) => r,
            Err(p) => {
                cx.violation("panic", format!("{how} from {s:?}: {p}"), s.as_bytes());
                continue;
            }
        };
        if !mine {
            if let Ok(d) = r {
                cx.violation("text", format!("{how} from {s:?} is {d}"), s.as_bytes());
            }
            continue;
        }
        match (&want, r) {
            (V::Is(l), Ok(d)) => {
                let p = if how == "TypeAlignSpec" { layout::types_pat(&l.types) } else { layout::ptrs_pat(&l.ptrs) };
                shown(cx, "text", &format!("{how} from {s:?}"), &d, &one(p), s.as_bytes());
                cx.distinct(hash_str(&d));
                cx.count("specifications from text compared", 1);
            }
            (V::Is(_), Err(e)) => cx.violation("text", format!("{how} from {s:?} is refused: {e}"), s.as_bytes()),
            (V::Bad(b), Ok(d)) => cx.violation("text", format!("{how} from {s:?} ({b}) is {d}"), s.as_bytes()),
            (V::Bad(_), Err(_)) => cx.count("specifications from text refused", 1),
            (V::Open(_), _) => {}
        }
    }
}

fn collections(cx: &mut Ctx) {
    let n = cx.rng.range(1, 60);
    let mut types = Lay::default().types;
    let mut ptrs = Lay::default().ptrs;
    let mut widths: Vec<u64> = (0..cx.rng.range(1, 6)).map(|_| *cx.rng.pick(&[1, 7, 8, 16, 31, 32, 64, 65, 80, 128, 8388607])).collect();
    let mut spaces: Vec<u64> = (0..cx.rng.range(1, 8)).map(|_| cx.rng.below(10)).chain([8388607]).collect();
    // Keys that only differ in their upper bits, and keys of any magnitude.
    for keys in [&mut widths, &mut spaces] {
        if cx.rng.bool() {
            let k = keys[0] + (cx.rng.range(1, 126) << *cx.rng.pick(&[8, 12, 15, 16]));
            keys.push(k & 0x7fffff);
            keys.push(1 + cx.rng.wild_bits(22));
        }
    }
    let mut history = vec![];
    let (mut tl, mut pl) = (vec![], vec![]);
    for _ in 0..n {
        let a = cx.rng.below(12);
        let p = a + cx.rng.below(4);
        let (Ok(abi), Ok(pref)) = (Align::from_shift(a as u8), Align::from_shift(p as u8)) else { return };
        if cx.rng.bool() {
            let kind = cx.rng.below(4) as u8;
            let w = if kind == layout::AGG { 0 } else { *cx.rng.pick(&widths) };
            let Some(Ok(s)) = aligned_type(kind, w).map(|t| TypeAlignSpec::new(t, abi, pref)) else { continue };
            types.insert((kind, w), (1 << a, 1 << p));
            history.push(format!("type {kind} {w} {a} {p}"));
            tl.push(s);
        } else {
            let sp = *cx.rng.pick(&spaces);
            let size = 8 * cx.rng.range(1, 16);
            let Ok(space) = AddressSpace::try_from(sp) else { continue };
            let Ok(s) = PointerAlignSpec::new(space, abi, pref, size, size) else { continue };
            ptrs.insert(sp, (1 << a, 1 << p, size, size));
            history.push(format!("pointer {sp} {a} {p} {size}"));
            pl.push(s);
        }
    }
    let inp = history.join("; ");
    cx.evals(tl.len() as u64 + pl.len() as u64);
    let Some((td, pd)) = cx.guarded("update", inp.as_bytes(), || {
        let mut t = TypeAlignSpecs::default();
        let mut p = PointerAlignSpecs::default();
        for s in &tl {
            t.update(*s);
        }
        for s in &pl {
            p.update(*s);
        }
        (format!("{t:?}"), format!("{p:?}"))
    }) else {
        return;
    };
    shown(cx, "collection", &format!("type specifications after {inp}"), &td, &layout::types_pat(&types), inp.as_bytes());
    shown(cx, "collection", &format!("pointer specifications after {inp}"), &pd, &layout::ptrs_pat(&ptrs), inp.as_bytes());
    cx.count("updates applied", history.len() as u64);
    cx.count("collections compared", 2);
    cx.distinct(hash_str(&td) ^ hash_str(&pd));
    // The order of keys.
    for _ in 0..8 {
        if !tl.is_empty() {
            let (x, y) = (*cx.rng.pick(&tl), *cx.rng.pick(&tl));
            let k = |s: &TypeAlignSpec| match s.aligned_type {
                AlignedType::Aggregate => (0, None),
                AlignedType::Float(w) => (1, Some(w)),
                AlignedType::Integer(w) => (2, Some(w)),
                AlignedType::Vector(w) => (3, Some(w)),
            };
            let want = k(&x).cmp(&k(&y));
            let got = (x.aligned_type.cmp(&y.aligned_type), x.aligned_type.partial_cmp(&y.aligned_type), x.aligned_type == y.aligned_type);
            if got != (want, Some(want), want == Equal) {
                cx.violation("order", format!("{x:?} and {y:?} compare as {got:?}, expected {want:?}"), inp.as_bytes());
            }
        }
        let (x, y) = (*cx.rng.pick(&spaces), *cx.rng.pick(&spaces));
        if let (Ok(a), Ok(b)) = (AddressSpace::try_from(x), AddressSpace::try_from(y)) {
            if (a.cmp(&b), a == b) != (x.cmp(&y), x == y) {
                cx.violation("order", format!("address spaces {x} and {y} compare as {:?}", a.cmp(&b)), inp.as_bytes());
            }
        }
        let (x, y) = (1 + cx.rng.wild_bits(22), 1 + cx.rng.wild_bits(22));
        if let (Ok(a), Ok(b)) = (AlignedTypeWidth::try_from(x as u32), AlignedTypeWidth::try_from(y as u32)) {
            if (a.cmp(&b), a == b) != (x.cmp(&y), x == y) {
                cx.violation("order", format!("type widths {x} and {y} compare as {:?}", a.cmp(&b)), inp.as_bytes());
            }
        }
        cx.evals(3);
    }
}

// ---- C19 ---------------------------------------------------------------------------------------

pub static C19: Prop = Prop {
    id: "C19",
    run: c19,
    cases: unlimited,
    min_cases: |_| 100,
    secs: short_secs,
    hang_secs: 30,
    rule: "Cases: pools of up to 40 types built one from another, through Type's constructors and those of the individual kinds of types: every kind of element for every constructor, integer widths around the bounds and of any magnitude, element counts from zero to 2^64-1, structs and functions of zero to six parts, now and then of up to 5000, with and without names, short and long, packing and varargs. Oracle: LLVM's rules for element types (isValidElementType, isValidArgumentType, isValidReturnType), transcribed separately; accessors and Debug output compared with the parts; every predicate compared on every type. Distinct: (constructor, kinds of parts, verdict) and the types built.",
    assumptions: &["The library's own published maximum (IntegerType::MAX_INT_BITS) is taken as the bound on integer widths between 2^23 and 2^24, where LLVM's versions differ."],
};

struct Pool {
    model: Types,
    real: Vec<Type>,
    size: Vec<u64>,
}

fn kind_of(t: &Ty) -> &'static str {
    match t {
        Ty::Plain(n) => n,
        Ty::Int(_) => "Integer",
        Ty::Ptr(..) => "Pointer",
        Ty::Opaque(_) => "OpaquePointer",
        Ty::Struct { .. } => "Struct",
        Ty::Array(..) => "Array",
        Ty::Vec(_, _, true) => "ScalableVector",
        Ty::Vec(..) => "FixedVector",
        Ty::Fn(..) => "Function",
    }
}

fn plain_real(n: &str) -> Type {
    match n {
        "Half" => Type::Half,
        "BFloat" => Type::BFloat,
        "Float" => Type::Float,
        "Double" => Type::Double,
        "Metadata" => Type::Metadata,
        "X86Fp80" => Type::X86Fp80,
        "Fp128" => Type::Fp128,
        "PpcFp128" => Type::PpcFp128,
        "Void" => Type::Void,
        "Label" => Type::Label,
        "X86Mmx" => Type::X86Mmx,
        "X86Amx" => Type::X86Amx,
        "Token" => Type::Token,
        _ => unreachable!(),
    }
}

fn c19(cx: &mut Ctx) {
    let mut pool = Pool { model: Types { v: vec![], usable: true }, real: vec![], size: vec![] };
    for code in plain_type_codes() {
        let m = plain_type(code);
        let Ty::Plain(n) = &m else { continue };
        pool.real.push(plain_real(n));
        pool.model.v.push(m);
        pool.size.push(1);
    }
    for i in 0..pool.real.len() {
        judge_type(cx, &pool, i);
    }
    // Something of every kind first, then anything of anything.
    for i in 0..48 {
        step(cx, &mut pool, i);
    }
    let n = pool.real.len();
    cx.max("max types in a pool", n as u64);
    let last = format!("{:?}", pool.real[n - 1]);
    cx.sample(|| format!("a pool of {n} types ending with {}", clip(&last, 300)));
}

fn step(cx: &mut Ctx, pool: &mut Pool, i: u64) {
    let pick = |cx: &mut Ctx, pool: &Pool| {
        // Recent types are picked more often, so that types nest.
        let n = pool.real.len();
        if cx.rng.chance(1, 3) { n - 1 - cx.rng.us(n.min(6)) } else { cx.rng.us(n) }
    };
    let kind = if i < 8 { i } else { cx.rng.below(8) };
    let e = if i == 1 { 0 } else { pick(cx, pool) };
    let direct = cx.rng.chance(1, 3);
    let count = if cx.rng.bool() { cx.rng.small() } else { cx.rng.wild() };
    let dbg = |r: &dyn std::fmt::Debug| clip(&format!("{r:?}"), 300);
    // (model type, verdict: None when open, built)
    let (m, legal, built, key): (Ty, Option<bool>, Result<Result<Type, String>, Panic>, String) = match kind {
        0 => {
            let w = match cx.rng.below(5) {
                0 => *cx.rng.pick(&[0, 1, 2, 8, 64, 128, (1 << 23) - 1, 1 << 23, (1 << 23) + 1, (1 << 24) - 1, 1 << 24, (1 << 24) + 1, u32::MAX]),
                1 => cx.rng.range(1, 200) as u32,
                _ => cx.rng.wild_bits(32) as u32,
            };
            let max = IntegerType::MAX_INT_BITS;
            if !((1 << 23) - 1..=(1 << 24) - 1).contains(&max) || IntegerType::MIN_INT_BITS != 1 {
                cx.violation("maximum", format!("integer widths are said to be {} to {max}", IntegerType::MIN_INT_BITS), &[]);
            }
            let b = guard(|| {
                if direct {
                    IntegerType::try_from(w).map(Type::Integer).map_err(|e| e.to_string())
                } else {
                    Type::new_integer(w).map_err(|e| e.to_string())
                }
            });
            (Ty::Int(w as u64), Some(w >= 1 && w <= max), b, format!("integer {}", w.leading_zeros()))
        }
        1 | 2 => {
            let sp = cx.rng.below(1 << cx.rng.clone().range(0, 23));
            let Ok(space) = AddressSpace::try_from(sp) else { return };
            let t = pool.real[e].clone();
            if kind == 1 && cx.rng.chance(1, 3) {
                (Ty::Opaque(sp), Some(true), Ok(Ok(Type::OpaquePointer(space))), "opaque".into())
            } else {
                let b = guard(|| {
                    if direct {
                        PointerType::new(t, space).map(Type::Pointer).map_err(|e| e.to_string())
                    } else {
                        Type::new_pointer(t, space).map_err(|e| e.to_string())
                    }
                });
                (Ty::Ptr(e as u64, sp), Some(legal_pointee(&pool.model.v[e])), b, format!("pointer {}", kind_of(&pool.model.v[e])))
            }
        }
        3 => {
            let t = pool.real[e].clone();
            let b = guard(|| {
                if direct {
                    ArrayType::new(count, t).map(Type::Array).map_err(|e| e.to_string())
                } else {
                    Type::new_array(count, t).map_err(|e| e.to_string())
                }
            });
            (Ty::Array(count, e as u64), Some(legal_array_elem(&pool.model.v[e])), b, format!("array {}", kind_of(&pool.model.v[e])))
        }
        4 | 5 => {
            let t = pool.real[e].clone();
            let scal = kind == 5;
            let b = guard(|| match (direct, scal) {
                (true, true) => VectorType::new(count, t).map(Type::ScalableVector).map_err(|e| e.to_string()),
                (true, false) => VectorType::new(count, t).map(Type::FixedVector).map_err(|e| e.to_string()),
                (false, true) => Type::new_scalable_vector(count, t).map_err(|e| e.to_string()),
                (false, false) => Type::new_vector(count, t).map_err(|e| e.to_string()),
            });
            let legal = legal_vector_elem(&pool.model.v[e]) && count > 0;
            let v = if legal && count > u32::MAX as u64 { None } else { Some(legal) };
            (Ty::Vec(count, e as u64, scal), v, b, format!("vector {} {} {scal}", kind_of(&pool.model.v[e]), count == 0))
        }
        6 => {
            let n = if cx.rng.chance(1, 400) { crate::mapgen::many(&mut cx.rng, 5000) } else { cx.rng.us(7) };
            let parts = parts(cx, pool, n, legal_struct_elem);
            let name = match cx.rng.below(3) {
                0 => None,
                1 if cx.rng.chance(1, 200) => Some(crate::mapgen::long_text(&mut cx.rng, 70_000)),
                1 => Some(crate::mapgen::words(&mut cx.rng, 0)),
                _ => Some("struct.\u{e9}\"{\n".to_string()),
            };
            let packed = cx.rng.bool();
            let ts: Vec<Type> = parts.iter().map(|p| pool.real[*p].clone()).collect();
            let nm = name.clone();
            let b = guard(|| {
                if direct {
                    StructType::new(nm, ts, packed).map(Type::Struct).map_err(|e| e.to_string())
                } else {
                    Type::new_struct(nm, ts, packed).map_err(|e| e.to_string())
                }
            });
            let legal = parts.iter().all(|p| legal_struct_elem(&pool.model.v[*p]));
            let bad = parts.iter().position(|p| !legal_struct_elem(&pool.model.v[*p]));
            let key = format!("struct {n} {bad:?} {:?}", bad.map(|b| kind_of(&pool.model.v[parts[b]])));
            (Ty::Struct { name, elems: parts.iter().map(|p| *p as u64).collect(), packed, opaque: false }, Some(legal), b, key)
        }
        _ => {
            let n = if cx.rng.chance(1, 400) { crate::mapgen::many(&mut cx.rng, 5000) } else { cx.rng.us(7) };
            let parts = parts(cx, pool, n, legal_param);
            let va = cx.rng.bool();
            let ts: Vec<Type> = parts.iter().map(|p| pool.real[*p].clone()).collect();
            let t = pool.real[e].clone();
            let b = guard(|| {
                if direct {
                    FunctionType::new(t, ts, va).map(Type::Function).map_err(|e| e.to_string())
                } else {
                    Type::new_function(t, ts, va).map_err(|e| e.to_string())
                }
            });
            let legal = legal_return(&pool.model.v[e]) && parts.iter().all(|p| legal_param(&pool.model.v[*p]));
            let bad = parts.iter().position(|p| !legal_param(&pool.model.v[*p]));
            let key = format!("function {} {n} {bad:?} {:?}", kind_of(&pool.model.v[e]), bad.map(|b| kind_of(&pool.model.v[parts[b]])));
            (Ty::Fn(va, e as u64, parts.iter().map(|p| *p as u64).collect()), Some(legal), b, key)
        }
    };
    cx.eval();
    let desc = format!("{m:?} of {:?}", m_refs(&m).iter().map(|r| kind_of(&pool.model.v[*r as usize])).collect::<Vec<_>>());
    let built = match built {
        Ok(b) => b,
        Err(p) => return cx.violation("panic", format!("building {desc}: {p}"), desc.as_bytes()),
    };
    cx.distinct(hash_str(&format!("{key} {}", built.is_ok())));
    match (built, legal) {
        (Ok(t), Some(true)) | (Ok(t), None) => {
            cx.count("types built", 1);
            let size = 1 + m_refs(&m).iter().map(|r| pool.size[*r as usize]).sum::<u64>();
            pool.model.v.push(m);
            pool.real.push(t);
            pool.size.push(size);
            let i = pool.real.len() - 1;
            judge_type(cx, pool, i);
            if size > 400 || pool.real.len() > 48 {
                pool.model.v.pop();
                pool.real.pop();
                pool.size.pop();
            }
        }
        (Err(_), Some(false)) => cx.count("types refused", 1),
        (Err(_), None) => {}
        (Ok(t), Some(false)) => cx.violation("built", format!("{desc} is built: {}", dbg(&t)), desc.as_bytes()),
        (Err(e), Some(true)) => cx.violation("refused", format!("{desc} is refused: {e}"), desc.as_bytes()),
    }
}

fn m_refs(t: &Ty) -> Vec<u64> {
    Types { v: vec![t.clone()], usable: true }.refs(0)
}

/// Mostly legal parts with at most one that's often illegal.
fn parts(cx: &mut Ctx, pool: &Pool, n: usize, legal: fn(&Ty) -> bool) -> Vec<usize> {
    let ok: Vec<usize> = (0..pool.real.len()).filter(|i| (n < 7 || pool.size[*i] < 4) && legal(&pool.model.v[*i])).collect();
    let mut v: Vec<usize> = (0..n).map(|_| *cx.rng.pick(&ok)).collect();
    if n > 0 && cx.rng.bool() {
        let at = cx.rng.us(n);
        v[at] = cx.rng.us(pool.real.len());
    }
    v
}

fn judge_type(cx: &mut Ctx, pool: &Pool, i: usize) {
    let (m, t) = (&pool.model.v[i], &pool.real[i]);
    cx.eval();
    let d = format!("{t:?}");
    let inp = clip(&d, 500);
    shown(cx, "parts", "a type", &d, &pool.model.pat(i), inp.as_bytes());
    let fp = |m: &Ty| matches!(m, Ty::Plain(n) if ["Half", "BFloat", "Float", "Double", "X86Fp80", "Fp128", "PpcFp128"].contains(n));
    let int = |m: &Ty| matches!(m, Ty::Int(_));
    let scalar = match m {
        Ty::Vec(_, e, _) => *e as usize,
        _ => i,
    };
    let sm = &pool.model.v[scalar];
    let r = guard(|| {
        [
            ("is_floating", t.is_floating(), fp(m)),
            ("is_integer", t.is_integer(), int(m)),
            ("is_pointee", t.is_pointee(), legal_pointee(m)),
            ("is_array_element", t.is_array_element(), legal_array_elem(m)),
            ("is_struct_element", t.is_struct_element(), legal_struct_elem(m)),
            ("is_vector_element", t.is_vector_element(), legal_vector_elem(m)),
            ("is_argument", t.is_argument(), legal_param(m)),
            ("is_return", t.is_return(), legal_return(m)),
            ("is_floating_or_floating_vector", t.is_floating_or_floating_vector(), fp(sm)),
            ("is_integer_or_integer_vector", t.is_integer_or_integer_vector(), int(sm)),
        ]
    });
    match r {
        Err(p) => cx.violation("panic", format!("classifying {inp}: {p}"), inp.as_bytes()),
        Ok(v) => {
            for (n, got, want) in v {
                cx.count("predicates compared", 1);
                if got != want {
                    cx.violation("predicate", format!("{n} of {inp} is {got}"), inp.as_bytes());
                }
            }
        }
    }
    let r = guard(|| {
        let mut bad = vec![];
        if t.scalar_type() != &pool.real[scalar] {
            bad.push(format!("scalar_type is {:?}", t.scalar_type()));
        }
        match (t, m) {
            (Type::Integer(x), Ty::Int(w)) => {
                if x.bit_width() as u64 != *w {
                    bad.push(format!("bit_width is {}", x.bit_width()));
                }
                if x.byte_width() as u64 != w.div_ceil(8) {
                    bad.push(format!("byte_width is {}", x.byte_width()));
                }
            }
            (Type::Pointer(x), Ty::Ptr(e, _)) => {
                if x.pointee() != &pool.real[*e as usize] {
                    bad.push(format!("pointee is {:?}", x.pointee()));
                }
            }
            (Type::Array(x), Ty::Array(_, e)) => {
                if x.element() != &pool.real[*e as usize] {
                    bad.push(format!("element is {:?}", x.element()));
                }
            }
            (Type::FixedVector(x), Ty::Vec(_, e, false)) | (Type::ScalableVector(x), Ty::Vec(_, e, true)) => {
                if x.element() != &pool.real[*e as usize] {
                    bad.push(format!("element is {:?}", x.element()));
                }
            }
            (Type::Struct(x), Ty::Struct { name, elems, .. }) => {
                if &x.name != name {
                    bad.push(format!("name is {:?}", x.name));
                }
                if x.fields.len() != elems.len() || x.fields.iter().zip(elems).any(|(f, e)| f != &pool.real[*e as usize]) {
                    bad.push(format!("fields are {:?}", x.fields));
                }
            }
            (Type::Function(_), Ty::Fn(..)) | (Type::OpaquePointer(_), Ty::Opaque(_)) => {}
            (_, Ty::Plain(_)) => {}
            _ => bad.push("another kind of type".into()),
        }
        bad
    });
    match r {
        Err(p) => cx.violation("panic", format!("taking {inp} apart: {p}"), inp.as_bytes()),
        Ok(v) => {
            cx.count("types taken apart", 1);
            for b in v {
                cx.violation("accessor", format!("{inp}: {}", clip(&b, 500)), inp.as_bytes());
            }
        }
    }
}

// ---- C20 ---------------------------------------------------------------------------------------

pub static C20: Prop = Prop {
    id: "C20",
    run: c20,
    cases: unlimited,
    min_cases: |_| 24,
    secs: short_secs,
    hang_secs: 30,
    rule: "Cases: for each of the decoded enumerations, every number from 0 to 5000, every power of two with its neighbours, known numbers with any higher bit set, and random 64-bit numbers; every binary operator code with every kind of type and vector of such a type. Oracle: tables transcribed from LLVM's headers and from the decoding functions of its bitcode reader. Distinct: (enumeration, number decoded to a meaning).",
    assumptions: &["Numbers that LLVM defines but that are newer than the library (listed in DESIGN.md) may be refused; they may not be given another number's meaning."],
};

struct Table {
    name: &'static str,
    /// What a number decodes to. `None`: refused.
    want: fn(u64) -> Option<&'static str>,
    /// Numbers that are left open.
    open: fn(u64) -> bool,
    /// Decodes, and gives the name and the number that it's turned back into, if that's possible.
    got: fn(u64) -> Option<(String, Option<u64>)>,
}

const IR_BLOCKS: &[&str] = &[
    "Module", "ParamAttr", "ParamAttrGroup", "Constants", "Function", "Identification", "ValueSymtab", "Metadata",
    "MetadataAttachment", "Type", "Uselist", "ModuleStrtab", "GlobalValSummary", "OperandBundleTags", "MetadataKind",
    "Strtab", "FullLtoGlobalValSummary", "Symtab", "SyncScopeNames",
];
const MODULE_CODES: &[&str] = &[
    "", "Version", "Triple", "DataLayout", "Asm", "SectionName", "DepLib", "GlobalVar", "Function", "AliasOld", "", "GcName",
    "Comdat", "VstOffset", "Alias", "MetadataValuesUnused", "SourceFilename", "Hash", "IFunc",
];
const TYPE_CODES: &[&str] = &[
    "", "NumEntry", "Void", "Float", "Double", "Label", "Opaque", "Integer", "Pointer", "FunctionOld", "Half", "Array", "Vector",
    "X86Fp80", "Fp128", "PpcFp128", "Metadata", "X86Mmx", "StructAnon", "StructName", "StructNamed", "Function", "Token", "BFloat",
    "X86Amx", "OpaquePointer",
];
const FUNCTION_CODES: &[&str] = &[
    "", "DeclareBlocks", "InstBinop", "InstCast", "InstGepOld", "InstSelect", "InstExtractelt", "InstInsertelt", "InstShufflevec",
    "InstCmp", "InstRet", "InstBr", "InstSwitch", "InstInvoke", "", "InstUnreachable", "InstPhi", "", "", "InstAlloca", "InstLoad",
    "", "", "InstVaarg", "InstStoreOld", "", "InstExtractval", "InstInsertval", "InstCmp2", "InstVselect", "InstInboundsGepOld",
    "InstIndirectbr", "", "DebugLocAgain", "InstCall", "DebugLoc", "InstFence", "InstCmpxchgOld", "InstAtomicrmwOld", "InstResume",
    "InstLandingpadOld", "InstLoadatomic", "InstStoreatomicOld", "InstGep", "InstStore", "InstStoreatomic", "InstCmpxchg",
    "InstLandingpad", "InstCleanupret", "InstCatchret", "InstCatchpad", "InstCleanuppad", "InstCatchswitch", "", "",
    "OperandBundle", "InstUnop", "InstCallbr", "InstFreeze", "InstAtomicrmw",
];
const BINOPS: &[&str] = &["Add", "Sub", "Mul", "UDiv", "SDiv", "URem", "SRem", "Shl", "LShr", "AShr", "And", "Or", "Xor"];
const RMW: &[&str] = &["Xchg", "Add", "Sub", "And", "Nand", "Or", "Xor", "Max", "Min", "UMax", "UMin", "FAdd", "FSub"];

fn at(t: &'static [&'static str], v: u64) -> Option<&'static str> {
    t.get(usize::try_from(v).ok()?).copied().filter(|s| !s.is_empty())
}

fn never(_: u64) -> bool {
    false
}

macro_rules! refusing {
    ($t:ty) => {
        |v| <$t>::try_from(v).ok().map(|x| (format!("{x:?}"), None))
    };
    ($t:ty, back) => {
        |v| <$t>::try_from(v).ok().map(|x| (format!("{x:?}"), Some(u64::from(x))))
    };
    ($t:ty, as) => {
        |v| <$t>::try_from(v).ok().map(|x| (format!("{x:?}"), Some(x as u64)))
    };
}

static TABLES: &[Table] = &[
    Table {
        name: "ReservedBlockId",
        want: |v| at(&["BlockInfo", "Reserved1", "Reserved2", "Reserved3", "Reserved4", "Reserved5", "Reserved6", "Reserved7"], v),
        open: never,
        got: refusing!(ReservedBlockId, as),
    },
    Table { name: "IrBlockId", want: |v| v.checked_sub(8).and_then(|v| at(IR_BLOCKS, v)), open: never, got: refusing!(IrBlockId, as) },
    Table {
        name: "ReservedAbbrevId",
        want: |v| at(&["EndBlock", "EnterSubBlock", "DefineAbbrev", "UnabbrevRecord"], v),
        open: never,
        got: refusing!(ReservedAbbrevId, as),
    },
    Table { name: "AbbrevOpEnc", want: |v| at(&["", "Fixed", "Vbr", "Array", "Char6", "Blob"], v), open: never, got: refusing!(AbbrevOpEnc, as) },
    Table { name: "BlockInfoCode", want: |v| at(&["", "SetBid", "BlockName", "SetRecordName"], v), open: never, got: refusing!(BlockInfoCode, as) },
    Table { name: "IdentificationCode", want: |v| at(&["", "ProducerString", "Epoch"], v), open: never, got: refusing!(IdentificationCode, as) },
    Table { name: "ModuleCode", want: |v| at(MODULE_CODES, v), open: never, got: refusing!(ModuleCode, back) },
    // 26: TYPE_CODE_TARGET_TYPE
    Table { name: "TypeCode", want: |v| at(TYPE_CODES, v), open: |v| v == 26, got: refusing!(TypeCode, back) },
    Table { name: "StrtabCode", want: |v| at(&["", "Blob"], v), open: never, got: refusing!(StrtabCode, back) },
    Table { name: "SymtabCode", want: |v| at(&["", "Blob"], v), open: never, got: refusing!(SymtabCode, back) },
    Table { name: "AttributeCode", want: |v| at(&["", "EntryOld", "Entry", "GroupCodeEntry"], v), open: never, got: refusing!(AttributeCode, back) },
    // 60: FUNC_CODE_BLOCKADDR_USERS
    Table { name: "FunctionCode", want: |v| at(FUNCTION_CODES, v), open: |v| v == 60, got: refusing!(FunctionCode, back) },
    Table { name: "UnaryOpcode", want: |v| at(&["FNeg"], v), open: never, got: refusing!(UnaryOpcode, back) },
    Table { name: "UnaryOp", want: |v| at(&["FNeg"], v), open: never, got: refusing!(UnaryOp) },
    Table { name: "BinaryOpcode", want: |v| at(BINOPS, v), open: never, got: refusing!(BinaryOpcode, back) },
    Table { name: "RMWOperation", want: |v| at(RMW, v), open: |v| (13..=20).contains(&v), got: refusing!(RMWOperation, back) },
    Table {
        name: "AttributeKind",
        want: |v| at(&["Enum", "IntKeyValue", "", "StrKey", "StrKeyValue"], v),
        open: |v| (5..=7).contains(&v),
        got: refusing!(AttributeKind, as),
    },
    Table {
        name: "AttributeId",
        want: |v| if v >= 1 && v <= t::LAST_KNOWN_ATTR { at(t::ATTRS, v - 1) } else { None },
        open: |v| v > t::LAST_KNOWN_ATTR && v < 200,
        got: refusing!(AttributeId, as),
    },
    Table {
        name: "EnumAttribute",
        want: |v| if t::attr_is_enum(v) { at(t::ATTRS, v - 1) } else { None },
        open: |v| v > t::LAST_KNOWN_ATTR && v < 200,
        got: |v| {
            let id = AttributeId::try_from(v).ok()?;
            EnumAttribute::try_from(id).ok().map(|x| (format!("{x:?}"), None))
        },
    },
    Table { name: "UwTableVariant", want: |v| at(&["None", "Sync", "Async"], v), open: never, got: refusing!(UwTableVariant, as) },
    Table { name: "SelectionKind", want: t::comdat, open: never, got: refusing!(SelectionKind, as) },
    Table { name: "Linkage", want: |v| Some(t::linkage(v)), open: never, got: |v| Some((format!("{:?}", Linkage::from(v)), None)) },
    Table { name: "Visibility", want: t::visibility, open: never, got: refusing!(Visibility, back) },
    Table { name: "DllStorageClass", want: t::dll, open: never, got: refusing!(DllStorageClass, back) },
    Table { name: "ThreadLocalMode", want: |v| Some(t::tls(v)), open: never, got: |v| Some((format!("{:?}", ThreadLocalMode::from(v)), None)) },
    Table { name: "UnnamedAddr", want: |v| Some(t::unnamed_addr(v)), open: never, got: |v| Some((format!("{:?}", UnnamedAddr::from(v)), None)) },
    Table {
        name: "RuntimePreemption",
        want: |v| Some(t::preemption(v)),
        open: never,
        got: |v| Some((format!("{:?}", RuntimePreemption::from(v)), None)),
    },
    Table { name: "CallingConvention", want: t::cc, open: |v| t::NEWER_CCS.contains(&v), got: refusing!(CallingConvention, as) },
];

fn name(s: &str) -> String {
    s.chars().filter(|c| c.is_alphanumeric()).map(|c| c.to_ascii_lowercase()).collect()
}

fn judge_code(cx: &mut Ctx, tb: &Table, v: u64) {
    cx.eval();
    let inp = format!("{} {v}", tb.name);
    let got = match guard(|| (tb.got)(v)) {
        Ok(g) => g,
        Err(p) => return cx.violation("panic", format!("{} from {v}: {p}", tb.name), inp.as_bytes()),
    };
    let want = (tb.want)(v);
    if (tb.open)(v) {
        if let Some((g, back)) = got {
            // A newer meaning is fine; another number's isn't.
            let taken = (0..256).filter(|w| *w != v && !(tb.open)(*w)).any(|w| (tb.want)(w).map(name) == Some(name(&g)));
            if taken || back.map(|b| b != v).unwrap_or(false) {
                cx.violation("code", format!("{} {v} is {g}", tb.name), inp.as_bytes());
            }
        }
        return;
    }
    match (got, want) {
        (None, None) => cx.count("numbers refused", 1),
        (Some((g, back)), Some(w)) => {
            if name(&g) != name(w) {
                cx.violation("code", format!("{} {v} is {g}, expected {w}", tb.name), inp.as_bytes());
            }
            if let Some(b) = back {
                if b != v {
                    cx.violation("back", format!("{} {v} turns back into {b}", tb.name), inp.as_bytes());
                }
            }
            cx.count("numbers with a meaning", 1);
            if v < 5000 {
                cx.distinct(hash_str(&inp));
            }
        }
        (Some((g, _)), None) => cx.violation("code", format!("{} {v} is {g}, which it must not be", tb.name), inp.as_bytes()),
        (None, Some(w)) => cx.violation("code", format!("{} {v} is refused, expected {w}", tb.name), inp.as_bytes()),
    }
}

fn c20(cx: &mut Ctx) {
    let n = TABLES.len() as u64;
    let tb = &TABLES[(cx.case % n) as usize];
    if cx.case < n {
        for v in 0..=5000 {
            judge_code(cx, tb, v);
        }
        for b in 0..64 {
            for d in 0..3 {
                judge_code(cx, tb, (1u64 << b).wrapping_add(d).wrapping_sub(1));
            }
            for low in 0..128 {
                judge_code(cx, tb, (1u64 << b) | low);
                judge_code(cx, tb, u64::MAX << b | low);
            }
        }
        cx.count("enumerations swept", 1);
    } else {
        for _ in 0..200 {
            let low = cx.rng.below(200);
            let hi = cx.rng.next() << cx.rng.range(7, 63);
            let v = cx.rng.wild();
            judge_code(cx, tb, v);
            judge_code(cx, tb, hi | low);
        }
    }
    match cx.case {
        0 => {
            for v in 0..2000 {
                block_id(cx, v);
            }
            binary_ops(cx, true);
        }
        _ => {
            for _ in 0..20 {
                let v = cx.rng.wild();
                block_id(cx, v);
                let hi = cx.rng.next() << cx.rng.range(7, 63) | cx.rng.below(30);
                block_id(cx, hi);
                let d = cx.rng.wild() as u32;
                disposition(cx, d);
                int_attr(cx);
            }
            binary_ops(cx, false);
        }
    }
    cx.sample(|| format!("{}: a block of numbers", tb.name));
}

fn block_id(cx: &mut Ctx, v: u64) {
    cx.eval();
    let inp = format!("BlockId {v}");
    let Some(d) = cx.guarded("BlockId::from", inp.as_bytes(), || format!("{:?}", BlockId::from(v))) else { return };
    let want = match v {
        0..=7 => {
            let n = if v == 0 { "BlockInfo".to_string() } else { format!("Reserved{v}") };
            var("Reserved", vec![var(&n, vec![])])
        }
        8..=26 => var("Ir", vec![var(IR_BLOCKS[v as usize - 8], vec![])]),
        _ => var("Unknown", vec![Pat::Num(v)]),
    };
    shown(cx, "code", &inp, &d, &want, inp.as_bytes());
}

fn disposition(cx: &mut Ctx, v: u32) {
    cx.eval();
    let inp = format!("AttributeGroupDisposition {v}");
    let Some(d) = cx.guarded("AttributeGroupDisposition::from", inp.as_bytes(), || format!("{:?}", AttributeGroupDisposition::from(v))) else { return };
    let want = match v {
        0 => var("Return", vec![]),
        u32::MAX => var("Function", vec![]),
        n => var("Parameter", vec![Pat::Num(n as u64)]),
    };
    shown(cx, "code", &inp, &d, &want, inp.as_bytes());
}

/// Only attributes that carry a number decode together with one.
fn int_attr(cx: &mut Ctx) {
    let v = cx.rng.range(1, t::LAST_KNOWN_ATTR);
    let x = cx.rng.below(3);
    cx.eval();
    let inp = format!("IntAttribute {v} {x}");
    let Ok(id) = AttributeId::try_from(v) else { return };
    let Some(r) = cx.guarded("IntAttribute::try_from", inp.as_bytes(), || IntAttribute::try_from((id, x)).ok().map(|a| format!("{a:?}"))) else { return };
    match (r, t::attr_is_int(v)) {
        (Some(d), true) => {
            let got: String = name(&d.chars().take_while(|c| c.is_alphanumeric()).collect::<String>());
            // The library calls `memory` MemoryKind.
            if !got.starts_with(&name(t::ATTRS[v as usize - 1])) {
                cx.violation("code", format!("{inp} is {d}"), inp.as_bytes());
            }
        }
        (Some(d), false) => cx.violation("code", format!("{inp}, which carries no number, is {d}"), inp.as_bytes()),
        // Not every number is legal for every attribute: see C15.
        (None, _) => {}
    }
}

fn binary_ops(cx: &mut Ctx, all: bool) {
    let mk = |t: Option<Type>| t.into_iter();
    let mut types: Vec<(Type, u8)> = vec![];
    const FP: u8 = 1;
    const INT: u8 = 0;
    const NO: u8 = 2;
    for t in [Type::Half, Type::BFloat, Type::Float, Type::Double, Type::X86Fp80, Type::Fp128, Type::PpcFp128] {
        types.push((t, FP));
    }
    for w in [1, 7, 8, 64, 1 << 20] {
        types.extend(mk(Type::new_integer(w).ok()).map(|t| (t, INT)));
    }
    for t in [Type::Metadata, Type::Void, Type::Label, Type::X86Mmx, Type::X86Amx, Type::Token, Type::OpaquePointer(AddressSpace::default())] {
        types.push((t, NO));
    }
    let base = types.clone();
    for (t, k) in &base {
        let n = 1 + cx.rng.below(16);
        types.extend(mk(Type::new_vector(n, t.clone()).ok()).map(|t| (t, *k)));
        types.extend(mk(Type::new_scalable_vector(n, t.clone()).ok()).map(|t| (t, *k)));
        types.extend(mk(Type::new_array(n, t.clone()).ok()).map(|t| (t, NO)));
        types.extend(mk(Type::new_pointer(t.clone(), AddressSpace::default()).ok()).map(|t| (t, NO)));
        types.extend(mk(Type::new_struct(None, vec![t.clone()], false).ok()).map(|t| (t, NO)));
        types.extend(mk(Type::new_function(t.clone(), vec![], false).ok()).map(|t| (t, NO)));
    }
    let codes: Vec<u64> = if all { (0..300).collect() } else { (0..4).map(|_| if cx.rng.bool() { cx.rng.below(14) } else { cx.rng.wild() }).collect() };
    for v in codes {
        for (ty, k) in &types {
            let inp = format!("BinaryOp {v} {}", clip(&format!("{ty:?}"), 200));
            cx.eval();
            let Some(r) = cx.guarded("BinaryOp::try_from", inp.as_bytes(), || BinaryOp::try_from((v, ty)).ok().map(|o| format!("{o:?}"))) else { continue };
            let want = match (at(BINOPS, v), *k) {
                (Some(n), INT) => Some(n),
                (Some("Add"), FP) => Some("FAdd"),
                (Some("Sub"), FP) => Some("FSub"),
                (Some("Mul"), FP) => Some("FMul"),
                (Some("SDiv"), FP) => Some("FDiv"),
                (Some("SRem"), FP) => Some("FRem"),
                _ => None,
            };
            if r.as_deref().map(name) != want.map(name) {
                cx.violation("operator", format!("{inp} is {r:?}, expected {want:?}"), inp.as_bytes());
            }
            if want.is_some() {
                cx.distinct(hash_str(&inp));
                cx.count("operators decoded", 1);
            } else {
                cx.count("operators refused", 1);
            }
        }
    }
}
