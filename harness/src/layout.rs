//! A model of data layout strings, written from LLVM's language reference and LLVM's own parser.

use crate::obs::*;
use crate::util::*;
use std::collections::BTreeMap;

/// Layouts of the targets that clang 18 and rustc know.
pub static TARGETS: &str = include_str!("layouts.txt");

pub const AGG: u8 = 0;
pub const FLOAT: u8 = 1;
pub const INT: u8 = 2;
pub const VEC: u8 = 3;

#[derive(Clone, Debug, PartialEq)]
pub struct Lay {
    pub big: bool,
    /// Bytes.
    pub stack: Option<u64>,
    pub program: u64,
    pub globals: u64,
    pub alloca: u64,
    /// (kind, width) to ABI and preferred alignment in bytes.
    pub types: BTreeMap<(u8, u64), (u64, u64)>,
    /// Address space to ABI and preferred alignment in bytes, size and index size in bits.
    pub ptrs: BTreeMap<u64, (u64, u64, u64, u64)>,
    pub fptr: Option<(bool, u64)>,
    pub mangling: Option<&'static str>,
    /// None: not to be compared.
    pub native: Option<Vec<u64>>,
    pub ni: Option<Vec<u64>>,
}

impl Default for Lay {
    fn default() -> Lay {
        let mut types = BTreeMap::new();
        for (k, w, a, p) in [
            (AGG, 0, 1, 8),
            (FLOAT, 16, 2, 2),
            (FLOAT, 32, 4, 4),
            (FLOAT, 64, 8, 8),
            (FLOAT, 128, 16, 16),
            (INT, 1, 1, 1),
            (INT, 8, 1, 1),
            (INT, 16, 2, 2),
            (INT, 32, 4, 4),
            (INT, 64, 4, 8),
            (VEC, 64, 8, 8),
            (VEC, 128, 16, 16),
        ] {
            types.insert((k, w), (a, p));
        }
        Lay {
            big: true,
            stack: None,
            program: 0,
            globals: 0,
            alloca: 0,
            types,
            ptrs: [(0, (8, 8, 64, 64))].into_iter().collect(),
            fptr: None,
            mangling: None,
            native: Some(vec![]),
            ni: Some(vec![]),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum V<T> {
    Is(T),
    Bad(&'static str),
    /// LLVM and the library's documentation leave it open.
    Open(&'static str),
}
use V::*;

macro_rules! is {
    ($e:expr) => {
        match $e {
            Is(v) => v,
            Bad(b) => return Bad(b),
            Open(o) => return Open(o),
        }
    };
}

fn num(s: &str) -> V<u64> {
    if s.is_empty() {
        return Bad("missing number");
    }
    if let Some(r) = s.strip_prefix('+') {
        return if !r.is_empty() && r.bytes().all(|b| b.is_ascii_digit()) { Open("a sign") } else { Bad("not a number") };
    }
    if !s.bytes().all(|b| b.is_ascii_digit()) {
        return Bad("not a number");
    }
    if s.len() > 1 && s.starts_with('0') {
        return Open("leading zeroes");
    }
    s.parse().map(Is).unwrap_or(Bad("number out of range"))
}

/// A number of bits that is a power-of-two number of bytes, in bytes.
fn align(s: &str) -> V<u64> {
    let n = is!(num(s));
    if n == 0 || n % 8 != 0 || !(n / 8).is_power_of_two() {
        return Bad("alignment that isn't a power of two bytes");
    }
    if n >= 1 << 32 {
        return Open("an alignment of 2^32 bits or more");
    }
    Is(n / 8)
}

fn space(s: &str) -> V<u64> {
    let n = is!(num(s));
    match n {
        0..=0x7fffff => Is(n),
        0x800000..=0xffffff => Open("an address space of 2^23 or more"),
        _ => Bad("address space out of range"),
    }
}

/// Interprets one specification.
fn spec(l: &mut Lay, s: &str) -> V<()> {
    let Some(c) = s.chars().next() else { return Bad("empty specification") };
    let body = &s[c.len_utf8()..];
    match c {
        'e' | 'E' => {
            if !body.is_empty() {
                return Open("text after the endianness");
            }
            l.big = c == 'E';
        }
        'S' => {
            let n = is!(num(body));
            l.stack = match n {
                0 => None,
                _ => Some(is!(align(body))),
            };
        }
        'P' => l.program = is!(space(body)),
        'G' => l.globals = is!(space(body)),
        'A' => l.alloca = is!(space(body)),
        'p' => {
            let parts: Vec<&str> = body.split(':').collect();
            if parts.len() < 3 {
                return Bad("pointer specification without an ABI alignment");
            }
            let all: Vec<V<u64>> = parts
                .iter()
                .enumerate()
                .map(|(i, p)| match i {
                    0 if p.is_empty() => Is(0),
                    0 => space(p),
                    2 | 3 => align(p),
                    1 | 4 => num(p),
                    _ => Open("too many components"),
                })
                .collect();
            // What's wrong decides before what's open.
            for v in &all {
                if let Bad(b) = v {
                    return Bad(b);
                }
            }
            if let (Is(a), Some(Is(p))) = (&all[2], all.get(3)) {
                if p < a {
                    return Bad("preferred alignment below the ABI alignment");
                }
            }
            for v in &all {
                if let Open(o) = v {
                    return Open(o);
                }
            }
            let n: Vec<u64> = all.iter().map(|v| if let Is(n) = v { *n } else { 0 }).collect();
            let size = n[1];
            let idx = n.get(4).copied().unwrap_or(size);
            if size == 0 || size % 8 != 0 || size >= 1 << 32 {
                return Open("pointer size");
            }
            if idx == 0 || idx > size {
                return Open("index size");
            }
            l.ptrs.insert(n[0], (n[2], n.get(3).copied().unwrap_or(n[2]), size, idx));
        }
        'i' | 'v' | 'f' => {
            let parts: Vec<&str> = body.split(':').collect();
            if parts.len() < 2 {
                return Bad("type specification without an ABI alignment");
            }
            let w = match num(parts[0]) {
                Is(0) => Bad("type width 0"),
                Is(n) if n >= 1 << 24 => Bad("type width out of range"),
                Is(n) if n >= 1 << 23 => Open("a type width of 2^23 or more"),
                v => v,
            };
            let a = align(parts[1]);
            let p = parts.get(2).map(|p| align(p));
            for v in [Some(&w), Some(&a), p.as_ref()].into_iter().flatten() {
                if let Bad(b) = v {
                    return Bad(b);
                }
            }
            let large = |v: &V<u64>| !matches!(v, Is(n) if *n <= 1 << 15) && !matches!(v, Open(o) if *o != "an alignment of 2^32 bits or more");
            if large(&a) || p.as_ref().map(large).unwrap_or(false) {
                return Bad("type alignment out of range");
            }
            if let (Is(a), Some(Is(p))) = (&a, &p) {
                if p < a {
                    return Bad("preferred alignment below the ABI alignment");
                }
            }
            let w = is!(w);
            let a = is!(a);
            let p = match p {
                Some(p) => is!(p),
                None => a,
            };
            if parts.len() > 3 {
                return Open("too many components");
            }
            if c == 'i' && w == 8 && a != 1 {
                return Open("alignment of i8");
            }
            l.types.insert((match c { 'i' => INT, 'v' => VEC, _ => FLOAT }, w), (a, p));
        }
        'a' => {
            let parts: Vec<&str> = body.split(':').collect();
            if parts.len() < 2 && body.is_empty() {
                return Bad("aggregate specification without an alignment");
            }
            if !parts[0].is_empty() {
                return if num(parts[0]) == Is(0) || matches!(num(parts[0]), Open(_)) { Open("a sized aggregate") } else { Bad("a sized aggregate") };
            }
            let a = match num(parts[1]) {
                Is(0) => Is(1),
                Is(_) => align(parts[1]),
                v => v,
            };
            let p = parts.get(2).map(|p| match num(p) {
                Is(0) => Open("a preferred alignment of zero"),
                _ => align(p),
            });
            for v in [Some(&a), p.as_ref()].into_iter().flatten() {
                if let Bad(b) = v {
                    return Bad(b);
                }
                match v {
                    Is(n) if *n > 1 << 15 => return Bad("type alignment out of range"),
                    Open("an alignment of 2^32 bits or more") => return Bad("type alignment out of range"),
                    _ => {}
                }
            }
            if let (Is(a), Some(Is(p))) = (&a, &p) {
                if p < a {
                    return Bad("preferred alignment below the ABI alignment");
                }
            }
            let a = is!(a);
            let p = match p {
                Some(p) => is!(p),
                None => a,
            };
            if parts.len() > 3 {
                return Open("too many components");
            }
            l.types.insert((AGG, 0), (a, p));
        }
        'F' => {
            let mut b = body.chars();
            let k = match b.next() {
                Some('i') => true,
                Some('n') => false,
                _ => return Bad("function pointer alignment kind"),
            };
            let n = is!(num(b.as_str()));
            if n == 0 {
                return Open("a function pointer alignment of zero");
            }
            l.fptr = Some((k, is!(align(b.as_str()))));
        }
        'm' => {
            l.mangling = Some(match body {
                ":e" => "elf",
                ":m" => "mips",
                ":o" => "macho",
                ":x" => "windowsx86coff",
                ":w" => "windowscoff",
                ":a" => "xcoff",
                ":l" => return Open("GOFF mangling"),
                _ => return Bad("mangling"),
            });
        }
        'n' => {
            if let Some(r) = body.strip_prefix('i') {
                let Some(r) = r.strip_prefix(':') else { return Bad("non-integral specification") };
                let all: Vec<V<u64>> = r.split(':').map(|p| match space(p) { Is(0) => Bad("non-integral address space zero"), v => v }).collect();
                let v = is!(list(all));
                l.ni = Some(v);
            } else {
                let all: Vec<V<u64>> = body
                    .split(':')
                    .map(|p| match num(p) {
                        Is(0) => Open("native width 0"),
                        Is(n) if n >= 1 << 32 => Bad("native width out of range"),
                        Is(n) if n >= 1 << 24 => Open("native width of 2^24 or more"),
                        v => v,
                    })
                    .collect();
                let v = is!(list(all));
                l.native = Some(v);
            }
        }
        's' => return Open("old stack specification"),
        _ => return Bad("unknown specification"),
    }
    Is(())
}

fn list(all: Vec<V<u64>>) -> V<Vec<u64>> {
    for v in &all {
        if let Bad(b) = v {
            return Bad(b);
        }
    }
    let mut out = vec![];
    for v in all {
        out.push(is!(v));
    }
    Is(out)
}

/// What a string has to parse to.
pub fn model(s: &str) -> V<Lay> {
    if s.is_empty() {
        return Open("the empty string");
    }
    if !s.is_ascii() {
        return Bad("not ASCII");
    }
    let mut l = Lay::default();
    let mut open = None;
    for p in s.split('-') {
        match spec(&mut l, p) {
            Is(()) => {}
            Bad(b) => return Bad(b),
            Open(o) => open = Some(o),
        }
    }
    match open {
        Some(o) => Open(o),
        None => Is(l),
    }
}

fn align_pat(bytes: u64) -> Pat {
    Pat::Rec(vec![("byte_align", Pat::Num(bytes))])
}

pub fn types_pat(t: &BTreeMap<(u8, u64), (u64, u64)>) -> Pat {
    Pat::List(
        t.iter()
            .map(|((k, w), (a, p))| {
                let ty = match *k {
                    AGG => var("Aggregate", vec![]),
                    FLOAT => var("Float", vec![Pat::Num(*w)]),
                    INT => var("Integer", vec![Pat::Num(*w)]),
                    _ => var("Vector", vec![Pat::Num(*w)]),
                };
                Pat::Rec(vec![("aligned_type", ty), ("abi_alignment", align_pat(*a)), ("preferred_alignment", align_pat(*p))])
            })
            .collect(),
    )
}

pub fn ptrs_pat(t: &BTreeMap<u64, (u64, u64, u64, u64)>) -> Pat {
    Pat::List(
        t.iter()
            .map(|(s, (a, p, z, i))| {
                Pat::Rec(vec![
                    ("address_space", Pat::Num(*s)),
                    ("abi_alignment", align_pat(*a)),
                    ("preferred_alignment", align_pat(*p)),
                    ("pointer_size", Pat::Num(*z)),
                    ("index_size", Pat::Num(*i)),
                ])
            })
            .collect(),
    )
}

impl Lay {
    pub fn pat(&self) -> Pat {
        let mut f = vec![
            ("endianness", var(if self.big { "Big" } else { "Little" }, vec![])),
            ("natural_stack_alignment", opt(self.stack.map(align_pat))),
            ("program_address_space", Pat::Num(self.program)),
            ("global_variable_address_space", Pat::Num(self.globals)),
            ("alloca_address_space", Pat::Num(self.alloca)),
            ("type_alignments", types_pat(&self.types)),
            ("pointer_alignments", ptrs_pat(&self.ptrs)),
            ("aggregate_alignment", align_pat(self.types[&(AGG, 0)].0)),
            (
                "function_pointer_alignment",
                opt(self.fptr.map(|(i, a)| {
                    var(if i { "Independent" } else { "MultipleOfFunctionAlign" }, vec![Pat::Rec(vec![("abi_alignment", align_pat(a))])])
                })),
            ),
            ("mangling", opt(self.mangling.map(|m| var(m, vec![])))),
        ];
        let nums = |v: &Vec<u64>| Pat::List(v.iter().map(|n| Pat::Num(*n)).collect());
        if let Some(v) = &self.native {
            f.push(("native_integer_widths", nums(v)));
        }
        if let Some(v) = &self.ni {
            f.push(("non_integral_address_spaces", nums(v)));
        }
        Pat::Rec(f)
    }
}

fn pow(rng: &mut Rng, max: u64) -> u64 {
    8 << rng.below(max)
}

fn width(rng: &mut Rng) -> u64 {
    match rng.below(5) {
        0 => *rng.pick(&[1, 8, 16, 32, 64, 80, 128, 256, 512]),
        1 => rng.range(1, 70),
        2 => (1 << 23) - 1 - rng.below(3),
        3 => 1 << rng.below(23),
        _ => rng.range(1, (1 << 23) - 1),
    }
}

fn sp(rng: &mut Rng) -> u64 {
    match rng.below(4) {
        0 => (1 << 23) - 1 - rng.below(2),
        1 => rng.range(0, (1 << 23) - 1),
        _ => rng.below(6),
    }
}

/// How many items a list has.
fn items(rng: &mut Rng) -> usize {
    if rng.chance(1, 60) {
        crate::mapgen::many(rng, 1100)
    } else {
        rng.ur(1, 4)
    }
}

/// A valid specification.
pub fn valid_spec(rng: &mut Rng) -> String {
    match rng.below(16) {
        0 => "e".into(),
        1 => "E".into(),
        2 => format!("S{}", if rng.chance(1, 5) { 0 } else { pow(rng, 28) }),
        3 => format!("{}{}", rng.pick(&['P', 'G', 'A']), sp(rng)),
        4 | 5 | 6 => {
            let a = rng.below(10);
            let p = a + rng.below(3);
            let size = 8 * rng.range(1, 32);
            let mut s = format!("p{}:{size}:{}", if rng.bool() { String::new() } else { sp(rng).to_string() }, 8 << a);
            if rng.bool() {
                s += &format!(":{}", 8 << p);
                if rng.bool() {
                    s += &format!(":{}", rng.range(1, size));
                }
            }
            s
        }
        7 | 8 | 9 | 10 => {
            let c = *rng.pick(&['i', 'v', 'f']);
            let w = width(rng);
            let a = if w == 8 && c == 'i' { 0 } else { rng.below(16) };
            let mut s = format!("{c}{w}:{}", 8u64 << a);
            if rng.bool() {
                let hi = if rng.chance(1, 4) { 15 } else { (a + 2).min(15) };
                s += &format!(":{}", 8u64 << rng.range(a, hi));
            }
            s
        }
        11 => {
            let a = rng.below(16);
            let mut s = format!("a:{}", if a == 0 && rng.bool() { 0 } else { 8u64 << a });
            if rng.bool() {
                s += &format!(":{}", 8u64 << rng.range(a, 15));
            }
            s
        }
        12 => format!("F{}{}", rng.pick(&['i', 'n']), pow(rng, 10)),
        13 => format!("m:{}", rng.pick(&['e', 'm', 'o', 'x', 'w', 'a'])),
        14 => {
            let v: Vec<String> = (0..items(rng)).map(|_| width(rng).to_string()).collect();
            format!("n{}", v.join(":"))
        }
        _ => {
            let v: Vec<String> = (0..items(rng)).map(|_| sp(rng).max(1).to_string()).collect();
            format!("ni:{}", v.join(":"))
        }
    }
}

/// A specification with something wrong or unusual.
pub fn odd_spec(rng: &mut Rng) -> String {
    let n = |rng: &mut Rng| -> String {
        match rng.below(10) {
            0 => String::new(),
            1 => "0".into(),
            2 => rng.wild().to_string(),
            3 => (1u128 << rng.range(3, 70)).to_string(),
            4 => format!("{}", 8 * rng.range(1, 40)),
            5 => "x".into(),
            6 => format!("-{}", rng.small()),
            7 => format!("{}{}", rng.pick(&["0", "+", " ", "0x"]), rng.small()),
            8 => rng.range((1 << 23) - 2, (1 << 24) + 2).to_string(),
            _ => (8u64 << rng.below(20)).to_string(),
        }
    };
    match rng.below(12) {
        0 => String::new(),
        1 => ((rng.range(33, 126) as u8) as char).to_string() + &n(rng),
        2 => format!("S{}", n(rng)),
        3 => format!("{}{}", rng.pick(&['P', 'G', 'A']), n(rng)),
        4 | 5 => {
            let k = rng.range(0, 5);
            let mut s = String::from("p");
            if rng.bool() {
                s += &n(rng);
            }
            for _ in 0..k {
                s += &format!(":{}", if rng.bool() { pow(rng, 6).to_string() } else { n(rng) });
            }
            s
        }
        6 | 7 => {
            let mut s = rng.pick(&["i", "v", "f", "a", "ae", "if"]).to_string();
            if rng.chance(4, 5) {
                s += &n(rng);
            }
            for _ in 0..rng.below(4) {
                s += &format!(":{}", if rng.bool() { pow(rng, 17).to_string() } else { n(rng) });
            }
            s
        }
        8 => format!("F{}{}", rng.pick(&["", "i", "n", "x", "I", "ii"]), n(rng)),
        9 => format!("m{}{}", rng.pick(&["", ":", "::", "-", ";"]), rng.pick(&["", "e", "m", "l", "E", "ee", "?", "o", "w:"])),
        10 => {
            let v: Vec<String> = (0..rng.range(0, 3)).map(|_| n(rng)).collect();
            format!("n{}", v.join(":"))
        }
        _ => {
            let v: Vec<String> = (0..rng.range(0, 3)).map(|_| n(rng)).collect();
            format!("ni{}{}", rng.pick(&["", ":", "", ":"]), v.join(":"))
        }
    }
}

pub fn valid(rng: &mut Rng) -> String {
    let n = match rng.below(4) {
        0 if rng.chance(1, 60) => crate::mapgen::many(rng, 1100) as u64,
        0 => 1,
        1 => rng.range(1, 4),
        2 => rng.range(3, 14),
        _ => rng.range(10, 40),
    };
    let mut v: Vec<String> = (0..n).map(|_| valid_spec(rng)).collect();
    // Settings are often given twice.
    if rng.bool() {
        for _ in 0..rng.range(1, 3) {
            let i = rng.us(v.len());
            let mut s = v[i].clone();
            if rng.bool() {
                // Another value for the same key.
                if let Some((k, _)) = v[i].split_once(':') {
                    if k.starts_with(['i', 'v', 'f', 'p']) && k != "i8" {
                        let a = rng.below(6);
                        s = if k.starts_with('p') { format!("{k}:{}:{}", 8 << rng.below(5), 8 << a) } else { format!("{k}:{}:{}", 8 << a, 8 << (a + rng.below(3))) };
                    }
                }
            }
            let at = rng.us(v.len() + 1);
            v.insert(at, s);
        }
    }
    v.join("-")
}

pub fn target(rng: &mut Rng) -> &'static str {
    let n = TARGETS.lines().count();
    TARGETS.lines().nth(rng.us(n)).unwrap()
}

pub fn mutate(rng: &mut Rng, s: &str) -> String {
    let mut c: Vec<char> = s.chars().collect();
    let alphabet: Vec<char> = "eESpPGAivfaFnm:-0123456789:-: +xzsOu\u{e9}\u{2a8a}\0~".chars().collect();
    for _ in 0..rng.range(1, 3) {
        let at = rng.us(c.len() + 1);
        match rng.below(5) {
            0 => c.insert(at, *rng.pick(&alphabet)),
            1 if at < c.len() => {
                c.remove(at);
            }
            2 if at < c.len() => c[at] = *rng.pick(&alphabet),
            3 if at < c.len() => {
                let to = rng.us(c.len());
                c.swap(at, to);
            }
            _ => {
                // Repeat or cut out a stretch.
                let to = rng.ur(at, (at + 12).min(c.len()));
                if rng.bool() {
                    let part: Vec<char> = c[at..to].to_vec();
                    for (i, x) in part.into_iter().enumerate() {
                        c.insert(to + i, x);
                    }
                } else {
                    c.drain(at..to);
                }
            }
        }
    }
    c.into_iter().collect()
}

/// What a single specification has to parse to, in a layout with nothing else in its tables.
pub fn model_spec(s: &str) -> V<Lay> {
    let mut l = Lay::default();
    l.types.clear();
    l.ptrs.clear();
    is!(spec(&mut l, s));
    Is(l)
}
