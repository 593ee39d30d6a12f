//! Generating block trees of mappable files, and changing them.

use crate::refmap::*;
use crate::tables as t;
use crate::util::*;

pub fn chars(s: &str) -> Vec<u64> {
    s.bytes().map(u64::from).collect()
}

/// The operands of a string as a writer might store them: characters outside of ASCII plain
/// or sign-extended, to 32 bits or 64.
pub fn stored(rng: &mut Rng, s: &str) -> Vec<u64> {
    let how = rng.below(4);
    s.bytes()
        .map(|b| match if how == 3 { rng.below(3) } else { how } {
            1 => b as i8 as i32 as u32 as u64,
            2 => b as i8 as i64 as u64,
            _ => b as u64,
        })
        .collect()
}

pub mod focus {
    pub const TOP: u32 = 1;
    pub const TEXTS: u32 = 2;
    pub const STRTAB: u32 = 4;
    pub const TYPES: u32 = 8;
    pub const ATTRS: u32 = 16;
    pub const ENTITIES: u32 = 32;
    /// Something in the file is far larger than usual.
    pub const LARGE: u32 = 64;
    /// Nothing is.
    pub const SMALL: u32 = 128;
}

/// The number of things where there are many: around the sizes that buffers, tables and counters
/// tend to have, or anything up to `max`.
pub fn many(rng: &mut Rng, max: usize) -> usize {
    let edges = [9, 16, 17, 20, 32, 33, 48, 64, 65, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 2000, 2048, 2049, 4096, 4097, 5000, 8192, 8193, 10_000, 16_384, 16_385, 20_000, 32_767, 32_768, 32_769, 50_000, 65_535, 65_536, 65_537, 70_000, 100_000];
    let max = if rng.chance(2, 3) { max / 8 } else { max };
    let k = edges.iter().take_while(|e| **e <= max).count();
    match rng.below(4) {
        0 | 1 if k > 0 => edges[rng.us(k)].max(edges[rng.us(k)]),
        2 => rng.ur(max / 2, max),
        _ => rng.ur(max.min(9), max),
    }
}

/// Text of thousands of characters, different everywhere.
pub fn long_text(rng: &mut Rng, max: usize) -> String {
    let n = many(rng, max);
    let style = rng.below(6);
    let mut s = String::with_capacity(n + 4);
    while s.len() < n {
        match style {
            0 => s.push(*rng.pick(b"abcdefghijklmnopqrstuvwxyzABCXYZ0123456789._-/ ") as char),
            1 => s.push(*rng.pick(&['é', 'ß', '日', '𝄞', 'a', '\u{7ff}'])),
            2 => s.push_str(rng.pick(TOKENS)),
            3 => s.push(if rng.chance(1, 60) { '\n' } else { b'a' as char }),
            4 => s.push(*rng.pick(&['\n', 'x', ' '])),
            _ => s.push((b'a' + rng.below(26) as u8) as char),
        }
    }
    let n = (0..=n).rev().find(|i| s.is_char_boundary(*i)).unwrap();
    s.truncate(n);
    s
}

const TOKENS: &[&str] = &[
    "target-features", "target-cpu", "tune-cpu", "frame-pointer", "no-trapping-math", "stack-protector-buffer-size", "min-legal-vector-width",
    "denormal-fp-math", "probe-stack", "patchable-function", "-features", "-cpu", "+sse2", "-avx512f", "+cx8", "x86-64", "cortex-a57", "true", "false",
    "all", "none", "non-leaf", "ieee,ieee", "0", "1", "8", "4294967295", "-1", "+", "-", ",", ":", "=", ";", ".", "_", "$", "@", "%", "!", "#", "*", "?", "'",
    "\"", "\\", "/", "<", ">", "(", ")", "[", "]", "{", "}", "~", "^", "&", "|", " ", "\t", "\n", "\r", "\r\n", "\0", "\x01", "\x7f", "\u{feff}",
    "_Z", "_ZN4core3fmt", "17h0123456789abcdefE", "?foo@@YAXXZ", "__imp_", "llvm.", "llvm.used", ".llvm.", ".str", ".text", ".data", ".init_array",
    "__TEXT,__text", "__DATA,__objc_imageinfo,regular", ".rodata.cst16", ".L", "L_", "main", "_start", "anon", "clang", "rustc", "LLVM", "LLVM18.1.3",
    "18.1.3", "version ", "APPLE_1", "x86_64", "i686", "aarch64", "riscv64", "wasm32", "nvptx64", "unknown", "pc", "apple", "linux", "windows", "darwin",
    "macosx10.15.0", "gnu", "musl", "eabihf", "msvc", "elf", "statepoint-example", "coreclr", "ocaml", "shadow-stack", "lib", "libc.so", "m.lib", ".a",
    "struct.", "class.", "union.", "class.std::vector<int>", "struct.foo.12", "opaque", ".globl f", "nop", "# comment", "// x", "e", "m", "p", "é", "日",
];

const KEYS: &[&str] = &[
    "target-features", "target-cpu", "tune-cpu", "frame-pointer", "no-trapping-math", "stack-protector-buffer-size", "min-legal-vector-width",
    "denormal-fp-math", "denormal-fp-math-f32", "probe-stack", "stack-probe-size", "patchable-function", "patchable-function-entry", "no-jump-tables",
    "no-inline-line-tables", "less-precise-fpmad", "no-infs-fp-math", "no-nans-fp-math", "unsafe-fp-math", "use-soft-float", "null-pointer-is-valid",
    "strictfp", "thunk", "warn-stack-size", "loader-replaceable", "no-builtins", "no-builtin-memcpy", "alloc-family", "correctly-rounded-divide-sqrt-fp-math",
    "wasm-import-module", "wasm-import-name", "wasm-export-name", "sign-return-address", "branch-target-enforcement", "amdgpu-waves-per-eu", "nvptx-f32ftz",
    "vector-function-abi-variant", "split-stack", "cmse_nonsecure_entry", "interrupt", "uwtable", "no-frame-pointer-elim", "instrument-function-entry",
];

/// A string attribute's key and value: often a real key, and a value made of what such values are.
fn key_value(rng: &mut Rng) -> (String, String) {
    let k = if rng.bool() { rng.pick(KEYS).to_string() } else { words(rng, 1) };
    let v = match rng.below(3) {
        0 => words(rng, 1),
        1 => (0..rng.ur(1, 4)).map(|_| *rng.pick(TOKENS)).collect(),
        _ => {
            // A list, maybe with empty items, on either end too.
            let sep = *rng.pick(&[",", ",", ";", " ", "-", ":"]);
            let items = ["", "+sse2", "-avx", "true", "ieee", "0", "x86-64"];
            (0..rng.ur(2, 5)).map(|_| *rng.pick(&items)).collect::<Vec<_>>().join(sep)
        }
    };
    let (k, v) = (k.replace('\0', "x"), v.replace('\0', "y"));
    (k, if v.is_empty() { ",".into() } else { v })
}

/// Text of any kind; `min` is its least length in characters.
pub fn words(rng: &mut Rng, min: usize) -> String {
    let n = match rng.below(8) {
        0 => min,
        1 => min.max(1),
        2 => rng.ur(min, min + 300),
        _ => rng.ur(min, min + 12),
    };
    let style = rng.below(8);
    if style >= 6 {
        // What real files are made of, in any combination: pieces of it may get special treatment.
        return (0..n).map(|_| *rng.pick(TOKENS)).collect();
    }
    (0..n)
        .map(|_| match style {
            0 | 1 => *rng.pick(b"abcdefghijklmnopqrstuvwxyzABCXYZ0123456789._-/ ") as char,
            2 => *rng.pick(&['a', '\n', '\0', '\t', '"', '\\', '\x7f']),
            3 => *rng.pick(&['é', 'ß', '日', '𝄞', '\u{80}', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{10000}', '\u{10ffff}', '\u{d7ff}']),
            4 => *rng.pick(&['\n', 'x', ' ']),
            _ => char::from_u32(rng.below(0x110000) as u32).unwrap_or('\u{fffd}'),
        })
        .collect()
}

/// Bytes that aren't UTF-8.
pub fn not_utf8(rng: &mut Rng) -> Vec<u64> {
    let bad: &[&[u64]] = &[&[0xff], &[0x80], &[0xc3], &[0xc3, 0x28], &[0xe2, 0x82], &[0xed, 0xa0, 0x80], &[0xf4, 0x90, 0x80, 0x80], &[0xc0, 0x80], &[256], &[0x141], &[u64::MAX], &[1 << 32 | 0x41]];
    let mut v = chars(&words(rng, 0));
    v.truncate(20);
    v.retain(|b| *b < 128);
    let at = rng.ur(0, v.len());
    let b = rng.pick(bad).to_vec();
    v.splice(at..at, b);
    v
}

/// A type table of about `n` legal entries, with forward references and every kind of type.
pub fn type_table(rng: &mut Rng, n: usize) -> (Blk, Vec<Ty>) {
    let chain = if rng.chance(1, 30) { rng.ur(2, 199) } else { 0 };
    type_table_with(rng, n, chain)
}

/// A type table with a chain of types, each within the next.
pub fn type_table_with(rng: &mut Rng, n: usize, chain: usize) -> (Blk, Vec<Ty>) {
    let n = n.max(if chain > 0 { chain + rng.us(10) } else { 0 });
    let mut order: Vec<usize> = (0..n).collect();
    // Most tables refer backwards mainly, as LLVM writes them; some in any direction.
    if rng.chance(2, 3) {
        for i in (1..n).rev() {
            let j = rng.us(i + 1);
            order.swap(i, j);
        }
    }
    let mut v: Vec<Option<Ty>> = vec![None; n];
    let mut size = vec![0u64; n];
    let mut depth = vec![0u32; n];
    let plain: Vec<u64> = plain_type_codes().collect();
    let deep = rng.chance(1, 6);
    let mut total = 0u64;
    for (k, &at) in order.iter().enumerate() {
        let done = &order[..k];
        // A reference to an entry that's legal in a place, if there is one.
        let find = |rng: &mut Rng, ok: &dyn Fn(&Ty) -> bool, budget: u64| -> Option<u64> {
            for try_ in 0..12 {
                if done.is_empty() {
                    return None;
                }
                let i = if deep && try_ < 6 { *done.last().unwrap() } else { *rng.pick(done) };
                if ok(v[i].as_ref().unwrap()) && size[i] <= budget && depth[i] < 200 {
                    return Some(i as u64);
                }
            }
            None
        };
        let budget = if n > 2100 { 40 } else { 3000u64 };
        let link = (0 < k && k < chain).then(|| order[k - 1]);
        if let Some(t) = link {
            let e = t as u64;
            let p = v[t].as_ref().unwrap();
            let ok = [legal_struct_elem(p), legal_array_elem(p), legal_pointee(p), legal_return(p), legal_param(p)];
            let ty = match rng.below(8) {
                0 | 1 if ok[1] => Ty::Array(rng.small(), e),
                2 if ok[0] => Ty::Struct { name: None, elems: vec![e], packed: rng.bool(), opaque: false },
                3 if ok[0] => Ty::Struct { name: Some(words(rng, 1)), elems: vec![e], packed: rng.bool(), opaque: false },
                4 if ok[3] => Ty::Fn(rng.bool(), e, vec![]),
                5 if ok[3] && ok[4] => Ty::Fn(rng.bool(), e, vec![]),
                _ => Ty::Ptr(e, rng.small()),
            };
            size[at] = 1 + size[t];
            depth[at] = 1 + depth[t];
            total += size[at];
            v[at] = Some(ty);
            continue;
        }
        let ty = match if k == 0 && chain > 0 || n > 2100 && rng.chance(1, 3) { 15 } else { rng.below(16) } {
            0 | 1 => None,
            2 => find(rng, &legal_pointee, budget).map(|t| {
                let a = if rng.bool() { 0 } else { rng.wild_bits(23) };
                Ty::Ptr(t, a)
            }),
            3 => Some(Ty::Opaque(if rng.bool() { 0 } else { rng.wild_bits(23) })),
            4 | 5 => find(rng, &legal_array_elem, budget).map(|t| {
                let n = if rng.bool() { rng.small() } else { rng.wild() };
                Ty::Array(n, t)
            }),
            6 => find(rng, &legal_vector_elem, budget).map(|t| {
                let n = if rng.bool() { rng.range(1, 64) } else { rng.wild_bits(32).max(1) };
                Ty::Vec(n, t, rng.chance(1, 3))
            }),
            7..=9 => {
                let n = if rng.chance(1, 20) { rng.us(200) } else { rng.us(6) };
                let mut e = vec![];
                for _ in 0..n {
                    e.extend(find(rng, &legal_struct_elem, budget / n as u64));
                }
                let name = rng.bool().then(|| words(rng, 1));
                Some(Ty::Struct { name, elems: e, packed: rng.bool(), opaque: false })
            }
            10 => Some(Ty::Struct { name: Some(words(rng, 1)), elems: vec![], packed: false, opaque: true }),
            11 | 12 => {
                let ret = find(rng, &legal_return, budget);
                let n = if rng.chance(1, 20) { rng.us(200) } else { rng.us(6) };
                let mut p = vec![];
                for _ in 0..n {
                    p.extend(find(rng, &|t| legal_param(t) && !matches!(t, Ty::Struct { opaque: true, .. }), budget / n as u64));
                }
                ret.map(|r| Ty::Fn(rng.bool(), r, p))
            }
            _ => Some(Ty::Int(match rng.below(6) {
                0 => 1,
                1 => 1 << 23,
                2 => rng.range(1, 1 << 23),
                3 => rng.range(1, 128),
                _ => *rng.pick(&[8, 16, 32, 64, 128]),
            })),
        };
        let ty = ty.unwrap_or_else(|| {
            let c = *rng.pick(&plain);
            plain_type(c)
        });
        let mut tmp = Types { v: vec![ty.clone()], usable: true };
        let refs = tmp.refs(0);
        tmp.v.clear();
        size[at] = 1 + refs.iter().map(|r| size[*r as usize]).sum::<u64>();
        depth[at] = 1 + refs.iter().map(|r| depth[*r as usize]).max().unwrap_or(0);
        total += size[at];
        if total > if n > 2100 { 400_000 } else { 100_000 } {
            size[at] = 1;
            depth[at] = 1;
            v[at] = Some(Ty::Int(32));
            continue;
        }
        v[at] = Some(ty);
    }
    let v: Vec<Ty> = v.into_iter().map(|t| t.unwrap()).collect();
    let mut b = type_block(&v);
    for n in &mut b.items {
        if let Node::R(19, f) = n {
            let s = text(f).unwrap_or_default();
            *f = stored(rng, &s);
        }
    }
    (b, v)
}

/// The records for a type table.
pub fn type_block(v: &[Ty]) -> Blk {
    let mut b = Blk::new(17).rec(1, &[v.len() as u64]);
    for t in v {
        match t {
            Ty::Plain(n) => b.put(plain_type_code(n), &[]),
            Ty::Int(w) => b.put(7, &[*w]),
            Ty::Ptr(t, a) => b.put(8, &[*t, *a]),
            Ty::Opaque(a) => b.put(25, &[*a]),
            Ty::Array(n, t) => b.put(11, &[*n, *t]),
            Ty::Vec(n, t, s) => {
                if *s {
                    b.put(12, &[*n, *t, 1])
                } else {
                    b.put(12, &[*n, *t])
                }
            }
            Ty::Struct { name, elems, packed, opaque } => {
                if let Some(n) = name {
                    b.put(19, &chars(n));
                }
                if *opaque {
                    b.put(6, &[0]);
                } else {
                    let mut f = vec![*packed as u64];
                    f.extend(elems);
                    b.put(if name.is_some() { 20 } else { 18 }, &f);
                }
            }
            Ty::Fn(va, r, p) => {
                let mut f = vec![*va as u64, *r];
                f.extend(p);
                b.put(21, &f);
            }
        }
    }
    b
}

fn attr_value(rng: &mut Rng, id: u64) -> u64 {
    match id {
        1 | 25 => {
            if rng.chance(1, 8) {
                0
            } else {
                1 << rng.range(0, 32)
            }
        }
        33 => rng.below(3),
        51 => match rng.below(3) {
            0 => rng.below(40) << 32 | 0xffff_ffff,
            1 => (rng.range(1, 40) << 32) | rng.below(40),
            _ => rng.wild().max(1),
        },
        74 => match rng.below(3) {
            0 => (rng.range(1, 16) << 32) | rng.range(1, 16),
            1 => rng.range(1, 16) << 32,
            _ => rng.wild(),
        },
        82 => {
            if rng.bool() {
                rng.range(0, 63)
            } else {
                rng.wild()
            }
        }
        86 => {
            if rng.bool() {
                rng.range(0, 63)
            } else {
                rng.wild_bits(32)
            }
        }
        _ => {
            if rng.bool() {
                rng.small()
            } else {
                rng.wild()
            }
        }
    }
}

/// One legal attribute's fields.
pub fn attr(rng: &mut Rng, f: &mut Vec<u64>) {
    match rng.below(8) {
        0 | 1 => {
            let k = key_value(rng).0;
            f.push(3);
            f.extend(stored(rng, &k));
            f.push(0);
        }
        2 => {
            let (k, v) = key_value(rng);
            f.push(4);
            f.extend(stored(rng, &k));
            f.push(0);
            f.extend(stored(rng, &v));
            f.push(0);
        }
        3 | 4 => {
            let id = *rng.pick(t::INT_ATTRS);
            f.extend([1, id, attr_value(rng, id)]);
        }
        _ => loop {
            let id = rng.range(1, t::LAST_KNOWN_ATTR);
            if t::attr_is_enum(id) {
                f.extend([0, id]);
                break;
            }
        },
    }
}

/// Attribute groups and lists.
pub fn attributes(rng: &mut Rng, many: bool) -> (Blk, Blk, usize) {
    let large = if rng.chance(1, if many { 60 } else { 200 }) { rng.range(1, 5) } else { 0 };
    attributes_with(rng, many, large)
}

fn attributes_with(rng: &mut Rng, many: bool, large: u64) -> (Blk, Blk, usize) {
    let n = match large {
        1 => self::many(rng, 2100),
        2..=4 => rng.ur(1, 4),
        _ if many => rng.ur(0, 12),
        _ => rng.us(4),
    };
    let mut ids: Vec<u64> = vec![];
    let mut g = Blk::new(10);
    for i in 0..n {
        let id = if rng.chance(1, 3) { rng.wild_bits(32) } else { i as u64 + 1 };
        if ids.contains(&id) {
            continue;
        }
        ids.push(id);
        let place = match rng.below(4) {
            0 => 0,
            1 => 0xffff_ffff,
            2 => rng.range(1, 8),
            _ => rng.wild_bits(32),
        };
        let mut f = vec![id, place];
        let k = match large {
            2 if i == 0 => self::many(rng, 2100),
            _ if many && rng.chance(1, 10) => rng.ur(1, 60),
            _ => rng.ur(1, 5),
        };
        for _ in 0..k {
            attr(rng, &mut f);
        }
        if large == 3 && i == 0 {
            // Long strings.
            let max = *rng.pick(&[600, 70_000]);
            let k = long_text(rng, max).replace('\0', "x");
            f.push(if rng.bool() { 3 } else { 4 });
            let with_value = f.last() == Some(&4);
            f.extend(stored(rng, &k));
            f.push(0);
            if with_value {
                let max = *rng.pick(&[600, 70_000]);
                let v = long_text(rng, max).replace('\0', "y");
                f.extend(stored(rng, &v));
                f.push(0);
            }
            attr(rng, &mut f);
        }
        g.put(3, &f);
    }
    let mut l = Blk::new(9);
    let mut lists = 0;
    if !ids.is_empty() {
        let n = if large == 4 { self::many(rng, 2100) } else { rng.us(if many { 9 } else { 4 }) };
        for i in 0..n {
            let k = if large == 5 && i == 0 { self::many(rng, 2100) } else { rng.ur(1, 4) };
            let f: Vec<u64> = (0..k).map(|_| *rng.pick(&ids)).collect();
            l.put(2, &f);
            lists += 1;
        }
    }
    (g, l, lists)
}

/// A string table under construction.
#[derive(Default, Clone)]
pub struct Names {
    pub bytes: Vec<u8>,
    pub refs: Vec<(u64, u64)>,
}

impl Names {
    pub fn add(&mut self, s: &str) -> [u64; 2] {
        let at = self.bytes.len();
        self.bytes.extend_from_slice(s.as_bytes());
        self.refs.push((at as u64, s.len() as u64));
        [at as u64, s.len() as u64]
    }
    /// A name: new, repeated, or within another one.
    pub fn name(&mut self, rng: &mut Rng) -> [u64; 2] {
        if !self.refs.is_empty() && rng.chance(1, 6) {
            let (o, n) = *rng.pick(&self.refs);
            let s = std::str::from_utf8(&self.bytes[o as usize..(o + n) as usize]).unwrap().to_string();
            let cuts: Vec<usize> = (0..=s.len()).filter(|i| s.is_char_boundary(*i)).collect();
            let i = rng.us(cuts.len() - 1);
            let j = rng.ur(i + 1, cuts.len() - 1);
            return [o + cuts[i] as u64, (cuts[j] - cuts[i]) as u64];
        }
        if rng.chance(1, 8) {
            let n = rng.us(5);
            let junk = rng.bytes(n);
            self.bytes.extend(junk);
        }
        let s = words(rng, 1);
        self.add(&s)
    }
}

pub fn function(rng: &mut Rng, names: &mut Names, types: &[Ty], lists: usize, sections: usize, gcs: usize) -> Option<Vec<u64>> {
    let fts: Vec<u64> = (0..types.len()).filter(|i| matches!(types[*i], Ty::Fn(..))).map(|i| i as u64).collect();
    if fts.is_empty() {
        return None;
    }
    let n = names.name(rng);
    let full = rng.ur(10, 20);
    let one_based = |rng: &mut Rng, n: usize| if n == 0 || rng.chance(1, 3) { 0 } else { rng.range(1, n as u64) };
    let cc = if rng.bool() { 0 } else { rng.pick(t::CCS).0 };
    let mut f = vec![
        n[0],
        n[1],
        *rng.pick(&fts),
        cc,
        if rng.chance(1, 10) { rng.wild() } else { rng.below(2) },
        if rng.chance(1, 10) { rng.wild_bits(32) } else { rng.below(24) },
        one_based(rng, lists),
        if rng.bool() { 0 } else { rng.range(1, 33) },
        one_based(rng, sections),
        rng.below(3),
        one_based(rng, gcs),
        if rng.chance(1, 10) { rng.wild_bits(32) } else { rng.below(4) },
        rng.small(),
        rng.below(3),
        rng.below(3),
        rng.small(),
        rng.small(),
        rng.below(2),
        if rng.bool() { 0 } else { rng.small() },
    ];
    if full < f.len() {
        f.truncate(full);
    } else if full == 20 {
        f.push(rng.small());
    }
    Some(f)
}

pub fn alias(rng: &mut Rng, names: &mut Names, types: &[Ty]) -> Option<Vec<u64>> {
    if types.is_empty() {
        return None;
    }
    let n = names.name(rng);
    let code = |rng: &mut Rng, n: u64| if rng.chance(1, 10) { rng.wild_bits(32) } else { rng.below(n) };
    let mut f = vec![
        n[0],
        n[1],
        rng.below(types.len() as u64),
        if rng.bool() { 0 } else { rng.wild_bits(24) },
        if rng.bool() { rng.small() } else { rng.wild() },
        code(rng, 24),
        rng.below(3),
        rng.below(3),
        code(rng, 7),
        code(rng, 4),
        code(rng, 4),
        // The partition's name.
        rng.small(),
        rng.small(),
    ];
    let full = rng.ur(6, 13);
    f.truncate(full);
    Some(f)
}

pub const LAYOUTS: &[&str] = &[
    "e",
    "e-m:e-p270:32:32-p271:32:32-p272:64:64-i64:64-i128:128-f80:128-n8:16:32:64-S128",
    "e-m:o-i64:64-i128:128-n32:64-S128",
    "E-m:e-i64:64-n32:64-S128-v256:256:256-v512:512:512",
    "e-p:64:64-p1:64:64-p2:32:32-p3:32:32-p4:64:64-p5:32:32-p6:32:32-i64:64-v16:16-v24:32-v32:32-v48:64-v96:128-v192:256-v256:256-v512:512-v1024:1024-v2048:2048-n32:64-S32-A5-G1-ni:7:8",
];

/// Blocks that the mapper has no use for, nested as deep as is specified.
pub fn nested(rng: &mut Rng) -> Blk {
    let mut k = Blk::new(rng.range(40, 60)).rec(1, &[1]);
    let depth = if rng.bool() { rng.ur(90, 98) } else { rng.ur(2, 98) };
    while k.depth() < depth {
        let mut o = Blk::new(*rng.pick(&[15, 16, 18, 40, 41, 42, 99]));
        if rng.chance(1, 4) {
            o.put(rng.below(9), &[rng.small(), 3]);
        }
        o.items.push(Node::B(k));
        if rng.chance(1, 4) {
            o.put(rng.below(9), &[rng.small()]);
        }
        k = o;
    }
    k
}

/// A module's block; its names go to `names`.
pub fn module(rng: &mut Rng, names: &mut Names, focus: u32) -> Blk {
    let f = |x: u32| focus & x != 0;
    // What's large in this module: mostly what the focus is on.
    let large = if !f(focus::LARGE) {
        ""
    } else if f(focus::TEXTS) && rng.chance(3, 4) {
        *rng.pick(&["text", "text", "deplibs", "sections", "gcs"])
    } else if f(focus::ENTITIES) && rng.chance(3, 4) {
        *rng.pick(&["functions", "functions", "aliases", "comdats", "sections", "gcs"])
    } else if f(focus::STRTAB) && rng.chance(3, 4) {
        *rng.pick(&["names", "names", "name", "functions", "aliases", "comdats"])
    } else if f(focus::TYPES) && rng.bool() {
        "types"
    } else if f(focus::TOP) && rng.chance(3, 4) {
        "nesting"
    } else {
        *rng.pick(&["text", "deplibs", "sections", "gcs", "functions", "aliases", "comdats", "names", "name", "types", "nesting", "symbols", "globals"])
    };
    let nt = if large == "types" {
        let max = *rng.pick(&[2100, 2100, 70_000]);
        many(rng, max)
    } else if f(focus::TYPES) {
        match rng.below(8) {
            0 => rng.us(3),
            1 => rng.us(200),
            _ => rng.ur(1, 40),
        }
    } else if f(focus::ENTITIES) {
        rng.ur(4, 16)
    } else {
        rng.us(5)
    };
    let chain = if !f(focus::SMALL) && rng.chance(1, 60) { rng.ur(2, 199) } else { 0 };
    let (mut tb, mut types) = type_table_with(rng, nt, chain);
    if matches!(large, "functions" | "aliases") {
        // Each entity is logged with its whole type.
        while format!("{types:?}").len() > 500 {
            let n = rng.ur(1, 8);
            (tb, types) = type_table(rng, n);
        }
    }
    if (f(focus::ENTITIES | focus::STRTAB) || large == "functions") && !types.iter().any(|t| matches!(t, Ty::Fn(..))) {
        let v = types.len() as u64;
        types.push(Ty::Plain("Void"));
        types.push(Ty::Fn(false, v, vec![]));
        tb = type_block(&types);
    }
    let (g, l, mut lists) = if f(focus::SMALL) { attributes_with(rng, f(focus::ATTRS), 0) } else { attributes(rng, f(focus::ATTRS)) };
    let texts = f(focus::TEXTS);
    let some = |rng: &mut Rng| rng.chance(1, if texts { 2 } else { 5 });
    let mut b = Blk::new(8);
    b.put(1, &[2]);
    if f(focus::ATTRS) || rng.bool() {
        let both = rng.chance(7, 8);
        b.items.push(Node::B(g));
        if both || lists > 0 {
            b.items.push(Node::B(l));
        }
    } else {
        lists = 0;
    }
    b.items.push(Node::B(tb));
    let long = if large == "text" { *rng.pick(&[2, 4, 5, 6, 11]) } else { 0 };
    let word = |rng: &mut Rng, code: u64| if code == long { long_text(rng, 100_000) } else { words(rng, 0) };
    if large == "name" {
        let s = long_text(rng, 70_000);
        let n = names.add(&s);
        b.put(12, &[n[0], n[1], rng.range(1, 5)]);
    }
    if large == "names" {
        let k = many(rng, 100_000);
        let junk = rng.bytes(k);
        names.bytes.extend(junk);
    }
    if some(rng) || long == 2 {
        let s = if rng.bool() { "x86_64-unknown-linux-gnu".to_string() } else { word(rng, 2) };
        b.put(2, &stored(rng, &s));
    }
    if rng.chance(1, 2) {
        b.put(3, &chars(rng.pick(LAYOUTS)));
    }
    if some(rng) || long == 4 {
        let s = word(rng, 4);
        b.put(4, &stored(rng, &s));
    }
    let mut ns = rng.us(if texts || f(focus::ENTITIES) { 5 } else { 2 });
    if large == "sections" {
        ns = many(rng, 2100);
    }
    if long == 5 {
        ns = ns.max(1);
    }
    for i in 0..ns {
        let s = if i == 0 { word(rng, 5) } else { words(rng, 0) };
        b.put(5, &stored(rng, &s));
    }
    if some(rng) || long == 6 || large == "deplibs" {
        let n = if large == "deplibs" { many(rng, 2100) } else { rng.ur(1, 4) };
        for i in 0..n {
            let s = if i == 0 { word(rng, 6) } else { words(rng, 0) };
            b.put(6, &stored(rng, &s));
        }
    }
    let mut ng = rng.us(if texts || f(focus::ENTITIES) { 4 } else { 2 });
    if large == "gcs" {
        ng = many(rng, 2100);
    }
    if long == 11 {
        ng = ng.max(1);
    }
    for i in 0..ng {
        let s = if i == 0 { word(rng, 11) } else { words(rng, 0) };
        b.put(11, &stored(rng, &s));
    }
    if rng.bool() {
        // The source file's name.
        b.put(16, &chars("a.c"));
    }
    let scale = if f(focus::ENTITIES) { 6 } else { 2 };
    let n = if large == "comdats" { many(rng, 2100) } else { rng.us(scale) };
    for _ in 0..n {
        let n = names.name(rng);
        b.put(12, &[n[0], n[1], rng.range(1, 5)]);
    }
    let n = if large == "globals" { many(rng, 2100) } else { rng.us(3) };
    for _ in 0..n {
        // Global variables aren't mapped.
        let v: Vec<u64> = (0..rng.ur(8, 18)).map(|_| rng.small()).collect();
        b.put(7, &v);
    }
    let n = match large {
        "functions" | "aliases" => many(rng, 2100),
        "sections" | "gcs" => many(rng, 100),
        _ => rng.us(2 * scale),
    };
    let kind = match large {
        "functions" => 20,
        "aliases" => 0,
        _ => 14,
    };
    for _ in 0..n {
        if rng.chance(kind, 21) {
            if let Some(r) = function(rng, names, &types, lists, ns, ng) {
                b.put(8, &r);
            }
        } else if let Some(r) = alias(rng, names, &types) {
            b.put(14, &r);
        }
    }
    if rng.chance(1, 3) {
        // Metadata kinds, operand bundle tags, sync scopes.
        for id in [22, 21, 26] {
            b.items.push(Node::B(Blk::new(id).rec(6, &[0, b'd' as u64, b'b' as u64, b'g' as u64])));
        }
    }
    if rng.chance(1, 4) {
        let k = Blk::new(15).rec(3, &[1, 2]).blk(Blk::new(16).rec(11, &[0]));
        b.items.push(Node::B(k));
    }
    let mut vst = Blk::new(14);
    if rng.bool() {
        let n = if large == "symbols" { many(rng, 2100) } else { rng.us(4) };
        for i in 0..n {
            vst.put(3, &[i as u64, rng.small()]);
        }
    }
    b.items.push(Node::B(vst));
    if large == "nesting" {
        let k = nested(rng);
        b.items.push(Node::B(k));
    }
    if rng.chance(1, 5) {
        // The offset of the symbol table and the module's hash.
        b.put(13, &[rng.small()]);
        b.put(17, &[1, 2, 3, 4, 5]);
    }
    b
}

pub fn ident(rng: &mut Rng, any: bool) -> Blk {
    let p = if any { words(rng, 0) } else { "LLVM18.1.3".into() };
    let e = if any && rng.chance(1, 3) { rng.wild() } else { 0 };
    Blk::new(13).rec(1, &stored(rng, &p)).rec(2, &[e])
}

pub fn blob(id: u64, data: &[u8]) -> Blk {
    let f: Vec<u64> = data.iter().map(|b| *b as u64).collect();
    Blk::new(id).rec(1, &f)
}

/// A whole file: one or more modules, sharing string tables in any legal way.
pub fn file_tree(rng: &mut Rng, focus: u32) -> Vec<Blk> {
    let large = focus & focus::SMALL == 0 && rng.chance(1, 60);
    // Many modules, or one of them large.
    let crowd = large && focus & focus::TOP != 0 && rng.bool();
    let focus = if large && !crowd { focus | focus::LARGE } else { focus };
    let n = if crowd {
        many(rng, 140)
    } else if focus & focus::TOP != 0 {
        rng.ur(0, 6)
    } else if rng.chance(1, 5) {
        rng.ur(1, 3)
    } else {
        1
    };
    let mut top = vec![];
    let mut names = Names::default();
    let mut open = 0;
    let any = focus & (focus::TEXTS | focus::TOP) != 0;
    // Whether the modules share tables.
    let shared = rng.chance(1, 2);
    for i in 0..n {
        top.push(ident(rng, any));
        if large && any && !crowd && rng.chance(1, 6) {
            let s = long_text(rng, 70_000);
            if let Some(Node::R(_, f)) = top.last_mut().and_then(|b| b.items.first_mut()) {
                *f = stored(rng, &s);
            }
        }
        // LLVM's writer puts a shared table after several modules, or one after each.
        if focus & focus::STRTAB != 0 && rng.bool() {
            let k = rng.us(20);
            let junk = rng.bytes(k);
            names.bytes.extend(junk);
        }
        top.push(module(rng, &mut names, focus));
        open += 1;
        let last = i + 1 == n;
        if last || (if crowd && shared { rng.chance(1, 40) } else { rng.bool() }) {
            let symtab = |rng: &mut Rng, top: &mut Vec<Blk>| {
                let k = if large && rng.chance(1, 8) { many(rng, 100_000) } else { rng.us(40) };
                let d = rng.bytes(k);
                top.push(blob(25, &d));
            };
            if rng.bool() {
                symtab(rng, &mut top);
            }
            if focus & focus::STRTAB != 0 && rng.bool() {
                let k = rng.us(30);
                let junk = rng.bytes(k);
                names.bytes.extend(junk);
            }
            top.push(blob(23, &names.bytes));
            if rng.chance(1, 5) {
                symtab(rng, &mut top);
            }
            if rng.chance(1, 8) {
                // Without effect on the modules so far.
                top.push(blob(23, b"another one"));
            }
            names = Names::default();
            open = 0;
        }
    }
    debug_assert!(open == 0);
    top
}

// ---- changes -----------------------------------------------------------------------------------

/// The paths of the blocks of a tree.
pub fn paths(top: &[Blk]) -> Vec<Vec<usize>> {
    fn go(b: &Blk, at: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        out.push(at.clone());
        for (i, n) in b.items.iter().enumerate() {
            if let Node::B(k) = n {
                at.push(i);
                go(k, at, out);
                at.pop();
            }
        }
    }
    let mut out = vec![];
    for (i, b) in top.iter().enumerate() {
        go(b, &mut vec![i], &mut out);
    }
    out
}

pub fn at<'a>(top: &'a mut [Blk], path: &[usize]) -> &'a mut Blk {
    let mut b = &mut top[path[0]];
    for i in &path[1..] {
        match &mut b.items[*i] {
            Node::B(k) => b = k,
            _ => unreachable!(),
        }
    }
    b
}

/// A value near or far from another.
pub fn other_value(rng: &mut Rng, v: u64) -> u64 {
    match rng.below(10) {
        // The same byte with the rest of the number set as for a negative one, or partly so.
        9 if v < 256 => {
            let k = rng.ur(7, 15);
            let n = *rng.pick(&[16, 31, 32, 33, 48, 63, 64]);
            v | (u64::MAX >> (64 - n)) & (u64::MAX << k)
        }
        0 => v.wrapping_add(1),
        1 => v.wrapping_sub(1),
        2 => 0,
        3 => v ^ (1 << rng.below(64)),
        4 => v | 1 << 32,
        5 => v.wrapping_add(1 << rng.below(64)),
        6 => rng.small(),
        7 => u64::MAX,
        _ => rng.wild(),
    }
}

/// Changes the records of one block in some way.
pub fn change_block(rng: &mut Rng, b: &mut Blk, codes: &[u64]) -> &'static str {
    let recs: Vec<usize> = (0..b.items.len())
        .filter(|i| matches!(&b.items[*i], Node::R(c, _) if codes.is_empty() || codes.contains(c)))
        .collect();
    if recs.is_empty() || rng.chance(1, 20) {
        let c = if codes.is_empty() || rng.bool() { rng.below(30) } else { *rng.pick(codes) };
        let f: Vec<u64> = (0..rng.us(12)).map(|_| if rng.bool() { rng.small() } else { rng.wild() }).collect();
        let at = rng.ur(0, b.items.len());
        b.items.insert(at, Node::R(c, f));
        return "insert a record";
    }
    let i = *rng.pick(&recs);
    match rng.below(14) {
        0 => {
            b.items.remove(i);
            "drop a record"
        }
        1 => {
            let n = b.items[i].clone();
            let at = rng.ur(0, b.items.len());
            b.items.insert(at, n);
            "repeat a record"
        }
        2 => {
            let k = *rng.pick(&recs);
            b.items.swap(i, k);
            "swap records"
        }
        k => {
            let Node::R(c, f) = &mut b.items[i] else { unreachable!() };
            match k {
                3 => {
                    *c = if rng.bool() { rng.below(32) } else { other_value(rng, *c) };
                    "change a code"
                }
                4 if !f.is_empty() => {
                    f.pop();
                    "drop the last operand"
                }
                5 if !f.is_empty() => {
                    let n = rng.us(f.len());
                    f.truncate(n);
                    "cut the operands"
                }
                6 => {
                    let at = rng.ur(0, f.len());
                    let v = if rng.bool() { rng.small() } else { rng.wild() };
                    f.insert(at, v);
                    "insert an operand"
                }
                7 if !f.is_empty() => {
                    let at = rng.us(f.len());
                    f.remove(at);
                    "drop an operand"
                }
                8 => {
                    *f = not_utf8(rng);
                    "operands that aren't text"
                }
                _ if !f.is_empty() => {
                    let at = rng.us(f.len());
                    f[at] = other_value(rng, f[at]);
                    "change an operand"
                }
                _ => {
                    f.push(rng.wild());
                    "append an operand"
                }
            }
        }
    }
}
