//! Random IR without function bodies, and what a module written from it has to map to.

use crate::layout::{self, V};
use crate::mapgen::{long_text, many, words};
use crate::obs::*;
use crate::refmap::*;
use crate::tables as t;
use crate::util::*;

pub struct Source {
    pub text: String,
    pub want: RefModule,
    /// What the assembly record holds.
    pub asm: String,
    /// The layout, unless LLVM amends it for the target.
    pub layout: Option<String>,
    pub has_layout: bool,
    /// Names that must be in the string table.
    pub names: Vec<String>,
    pub feats: u64,
}

fn escape(s: &str, keep: impl Fn(u8) -> bool) -> String {
    s.bytes().map(|b| if keep(b) && b != b'"' && b != b'\\' { (b as char).to_string() } else { format!("\\{b:02X}") }).collect()
}

fn quote(s: &str) -> String {
    format!("\"{}\"", escape(s, |b| (32..127).contains(&b)))
}

fn ident(s: &str) -> String {
    let plain = |b: u8| b.is_ascii_alphanumeric() || b"._$-".contains(&b);
    if !s.is_empty() && s.bytes().all(plain) && !s.as_bytes()[0].is_ascii_digit() {
        s.to_string()
    } else {
        quote(s)
    }
}

struct G<'a> {
    rng: &'a mut Rng,
    types: Types,
    texts: Vec<String>,
    defs: String,
    used: std::collections::HashSet<String>,
    sections: Vec<String>,
    gcs: Vec<String>,
    partitions: Vec<String>,
    groups: String,
    ngroups: usize,
    feats: u64,
    /// What makes the names of types differ from those of other modules: LLVM renames types when
    /// it reads modules into one context.
    tag: String,
    reread: bool,
    /// Whether some texts and lists are far longer than usual.
    long: bool,
    /// How long texts get then.
    limit: usize,
}

impl G<'_> {
    fn words(&mut self, min: usize) -> String {
        if self.long && self.rng.chance(1, 8) {
            return long_text(self.rng, self.limit);
        }
        words(self.rng, min)
    }

    /// How many of something that there are usually fewer than `few` of.
    fn count(&mut self, few: usize, lots: usize) -> usize {
        if self.long && self.rng.chance(1, 20) {
            return many(self.rng, lots);
        }
        self.rng.us(few)
    }

    fn name(&mut self) -> String {
        loop {
            let mut s = if self.rng.bool() { format!("{}{}", self.rng.pick(&["f", "_Z3fooi", "a.b", "x$", "-", "."]), self.rng.below(if self.long { 10_000 } else { 40 })) } else { self.words(1) };
            s.retain(|c| c != '\0');
            if s.is_empty() || s.starts_with("llvm.") || !self.used.insert(s.clone()) {
                continue;
            }
            return s;
        }
    }

    fn add(&mut self, ty: Ty, text: String) -> usize {
        if text.len() > if self.long { 4000 } else { 600 } {
            return 0;
        }
        self.types.v.push(ty);
        self.texts.push(text);
        self.texts.len() - 1
    }

    fn pick_type(&mut self, ok: impl Fn(&Ty) -> bool) -> usize {
        for _ in 0..30 {
            let i = self.rng.us(self.texts.len());
            if ok(&self.types.v[i]) {
                return i;
            }
        }
        0
    }

    fn opaque(t: &Ty) -> bool {
        matches!(t, Ty::Struct { opaque: true, .. })
    }

    /// The library limits how large a table of types gets when they are spelled out.
    fn plain(t: &Ty) -> bool {
        matches!(t, Ty::Int(_) | Ty::Opaque(_) | Ty::Plain(_))
    }

    fn elem(t: &Ty) -> bool {
        legal_array_elem(t) && legal_struct_elem(t) && !Self::opaque(t)
    }

    fn new_type(&mut self) {
        let width = match self.rng.below(4) {
            0 => *self.rng.pick(&[1, 8, 16, 32, 64, 128]),
            1 => self.rng.range(1, (1 << 23) - 1),
            2 => (1 << self.rng.range(1, 23)) - self.rng.below(2),
            _ => self.rng.range(1, 300),
        }
        .clamp(1, (1 << 23) - 1);
        match self.rng.below(9) {
            0 => {
                self.add(Ty::Int(width), format!("i{width}"));
            }
            1 => {
                let a = match self.rng.below(3) {
                    0 => 0,
                    1 => self.rng.below(300),
                    _ => self.rng.below(1 << 23),
                };
                let t = if a == 0 && self.rng.bool() { "ptr".into() } else { format!("ptr addrspace({a})") };
                self.add(Ty::Opaque(a), t);
            }
            2 => {
                let e = self.pick_type(Self::elem);
                let n = if self.rng.chance(1, 5) { self.rng.wild() } else { self.rng.below(9) };
                let t = format!("[{n} x {}]", self.texts[e]);
                self.add(Ty::Array(n, e as u64), t);
            }
            3 | 4 => {
                let e = self.pick_type(legal_vector_elem);
                let n = if self.rng.chance(1, 6) { self.rng.range(1, u32::MAX as u64) } else { self.rng.range(1, 17) };
                let s = self.rng.chance(1, 3);
                let t = format!("<{}{n} x {}>", if s { "vscale x " } else { "" }, self.texts[e]);
                self.add(Ty::Vec(n, e as u64, s), t);
            }
            5 => {
                let (elems, body, packed) = self.body();
                self.add(Ty::Struct { name: None, elems, packed, opaque: false }, body);
            }
            6 | 7 => {
                let (elems, body, packed) = self.body();
                let n = format!("{}{}{}", self.rng.pick(&["struct.", "t", "T é ", "\""]), self.texts.len(), self.tag);
                if body.len() > if self.long { 20_000 } else { 500 } {
                    return;
                }
                self.defs += &format!("%{} = type {body}\n", ident(&n));
                self.add(Ty::Struct { name: Some(n.clone()), elems, packed, opaque: false }, format!("%{}", ident(&n)));
            }
            _ => {
                let n = format!("o {}{}", self.texts.len(), self.tag);
                self.defs += &format!("%{} = type opaque\n", ident(&n));
                self.add(Ty::Struct { name: Some(n.clone()), elems: vec![], packed: false, opaque: true }, format!("%{}", ident(&n)));
            }
        }
    }

    fn body(&mut self) -> (Vec<u64>, String, bool) {
        let n = self.count(6, 300);
        let e: Vec<usize> = (0..n).map(|_| self.pick_type(|t| Self::elem(t) && (n < 6 || Self::plain(t)))).collect();
        let packed = self.rng.chance(1, 3);
        let inner: Vec<String> = e.iter().map(|i| self.texts[*i].clone()).collect();
        let b = format!("{{{}}}", inner.join(", "));
        (e.iter().map(|i| *i as u64).collect(), if packed { format!("<{b}>") } else { b }, packed)
    }

    fn table(v: &mut Vec<String>, rng: &mut Rng, long: usize) -> String {
        if !v.is_empty() && rng.chance(if long > 0 { 1 } else { 2 }, 3) {
            return rng.pick(v).clone();
        }
        let mut s = if long > 0 && rng.chance(1, 8) { long_text(rng, long) } else { words(rng, 1) };
        s.retain(|c| c != '\0');
        if s.is_empty() {
            s.push('s');
        }
        v.push(s.clone());
        s
    }

    fn section(&mut self) -> Option<String> {
        self.rng.chance(1, 3).then(|| Self::table(&mut self.sections, self.rng, self.limit))
    }

    fn align(&mut self) -> Option<u64> {
        self.rng.chance(1, 2).then(|| 1 << self.rng.range(0, 32))
    }

    /// Attributes of one position: their text and patterns.
    /// Attributes for a function, or for a value of a type. LLVM drops attributes of values
    /// whose types they don't apply to, so those aren't generated.
    fn attrs(&mut self, place: Place, max: u64, ty: Option<usize>) -> (Vec<String>, Vec<Pat>) {
        let ty = ty.map(|t| self.types.v[t].clone());
        let fits = |id: u64| match (id, &ty) {
            (_, None) => true,
            (24 | 34 | 80, Some(t)) => matches!(t, Ty::Int(_)),
            (1 | 8 | 9 | 11 | 20 | 21 | 39 | 41 | 42 | 47 | 52 | 81, Some(t)) => matches!(t, Ty::Opaque(_)),
            (68, Some(t)) => *t != Ty::Plain("Void"),
            _ => true,
        };
        let names: &[(&str, u64)] = match place {
            Place::Function => FN_ATTRS,
            Place::Return => RET_ATTRS,
            Place::Parameter => PARAM_ATTRS,
        };
        let (mut text, mut pats, mut seen) = (vec![], vec![], vec![]);
        let en = |id: u64| var("Enum", vec![var(enum_name(id), vec![])]);
        let int = |id: u64, v: u64| var("Int", vec![attr_int(id, v, &mut Judgement::default())]);
        for _ in 0..self.rng.below(max + 1) {
            let k = self.rng.below(10);
            if k < 6 {
                let (n, id) = *self.rng.pick(names);
                if !seen.contains(&id) && fits(id) {
                    seen.push(id);
                    text.push(n.to_string());
                    pats.push(en(id));
                }
                continue;
            }
            if k < 8 {
                let key = loop {
                    let mut s = words(self.rng, 1);
                    s.retain(|c| c != '\0');
                    s.truncate(s.char_indices().nth(20).map(|x| x.0).unwrap_or(s.len()));
                    if !s.is_empty() {
                        break format!("{s}{}", seen.len());
                    }
                };
                let h = 1000 + hash_str(&key) % (1 << 60);
                if seen.contains(&h) {
                    continue;
                }
                seen.push(h);
                let mut val = words(self.rng, 0);
                val.retain(|c| c != '\0');
                if self.rng.bool() || val.is_empty() {
                    text.push(quote(&key));
                    pats.push(var("Str", vec![Pat::Str(key)]));
                } else {
                    text.push(format!("{}={}", quote(&key), quote(&val)));
                    pats.push(var("StrKeyValue", vec![Pat::Str(key), Pat::Str(val)]));
                }
                continue;
            }
            let id = *self.rng.pick(match place {
                Place::Function => &[25, 33, 51, 74, 82, 86][..],
                Place::Return => &[1, 41, 42][..],
                Place::Parameter => &[1, 41, 42, 25][..],
            });
            if seen.contains(&id) || !fits(id) {
                continue;
            }
            seen.push(id);
            let (s, v) = match id {
                1 => {
                    let a = 1u64 << self.rng.range(0, 32 - self.reread as u64);
                    (format!("align {a}"), a)
                }
                25 => {
                    let a = 1u64 << self.rng.range(0, 8);
                    (format!("alignstack({a})"), a)
                }
                33 => match self.rng.below(3) {
                    0 => ("uwtable".into(), 2),
                    1 => ("uwtable(sync)".into(), 1),
                    _ => ("uwtable(async)".into(), 2),
                },
                41 | 42 => {
                    let n = match self.rng.below(3) {
                        0 => self.rng.range(1, 64),
                        1 => 1 << self.rng.below(63),
                        _ => self.rng.wild().max(1),
                    };
                    (format!("dereferenceable{}({n})", if id == 42 { "_or_null" } else { "" }), n)
                }
                51 => {
                    // Any two different argument numbers; 2^32 - 1 would mean that there's no second.
                    let wide = self.rng.chance(1, 3);
                    let mut number = || if wide { self.rng.wild() & 0xffff_ffff } else { self.rng.small() };
                    let (a, b) = (number(), number());
                    if self.rng.bool() {
                        (format!("allocsize({a})"), a << 32 | 0xffff_ffff)
                    } else {
                        let b = b.min(0xffff_fffe);
                        if a == b {
                            (format!("allocsize({a},{})", a & !1 ^ 2), a << 32 | (a & !1 ^ 2))
                        } else {
                            (format!("allocsize({a},{b})"), a << 32 | b)
                        }
                    }
                }
                74 => {
                    let a = 1u64 << self.rng.below(31);
                    if self.rng.chance(1, 3) {
                        (format!("vscale_range({a})"), a << 32 | a)
                    } else {
                        let b = if self.rng.chance(1, 3) { 0 } else { a << self.rng.below(32 - a.trailing_zeros() as u64) };
                        (format!("vscale_range({a},{b})"), a << 32 | b)
                    }
                }
                82 => {
                    let bits = ["alloc", "realloc", "free", "uninitialized", "zeroed", "aligned"];
                    let v = self.rng.range(1, 63);
                    let l: Vec<&str> = (0..6).filter(|b| v >> b & 1 == 1).map(|b| bits[b]).collect();
                    (format!("allockind(\"{}\")", l.join(",")), v)
                }
                _ => self.memory(),
            };
            text.push(s);
            pats.push(int(id, v));
        }
        (text, pats)
    }

    fn memory(&mut self) -> (String, u64) {
        let kinds = ["none", "read", "write", "readwrite"];
        let mut text = vec![];
        let mut v = 0;
        let base = self.rng.below(4);
        let given = self.rng.bool();
        if given {
            text.push(kinds[base as usize].to_string());
            v = base | base << 2 | base << 4;
        }
        for (name, shift) in [("argmem", 0), ("inaccessiblemem", 2)] {
            if self.rng.bool() || (!given && text.is_empty() && shift == 2) {
                let k = self.rng.below(4);
                v = v & !(3 << shift) | k << shift;
                text.push(format!("{name}: {}", kinds[k as usize]));
            }
        }
        // Reading and writing anything is what no attribute means, but is kept.
        (format!("memory({})", text.join(", ")), v)
    }

    fn group(&mut self, attrs: &[String]) -> String {
        let n = self.ngroups;
        self.ngroups += 1;
        let body: Vec<String> = attrs.iter().map(|a| a.strip_prefix("alignstack(").map(|x| format!("alignstack={}", x.trim_end_matches(')'))).unwrap_or(a.clone())).collect();
        self.groups += &format!("attributes #{n} = {{ {} }}\n", body.join(" "));
        format!("#{n}")
    }

    fn partition(&mut self) -> Option<String> {
        self.rng.chance(1, 12).then(|| Self::table(&mut self.partitions, self.rng, self.limit))
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Place {
    Function,
    Return,
    Parameter,
}

const FN_ATTRS: &[(&str, u64)] = &[
    ("alwaysinline", 2), ("inlinehint", 4), ("minsize", 6), ("naked", 7), ("nobuiltin", 10), ("noduplicate", 12),
    ("noimplicitfloat", 13), ("noinline", 14), ("nonlazybind", 15), ("noredzone", 16), ("noreturn", 17),
    ("nounwind", 18), ("optsize", 19), ("returns_twice", 23), ("ssp", 26), ("sspreq", 27), ("sspstrong", 28),
    ("sanitize_address", 30), ("sanitize_thread", 31), ("sanitize_memory", 32), ("cold", 36),
    ("optnone", 37), ("jumptable", 40), ("convergent", 43), ("safestack", 44), ("norecurse", 48),
    ("speculatable", 53), ("strictfp", 54), ("sanitize_hwaddress", 55), ("nocf_check", 56), ("optforfuzzing", 57),
    ("shadowcallstack", 58), ("speculative_load_hardening", 59), ("willreturn", 61), ("nofree", 62), ("nosync", 63),
    ("sanitize_memtag", 64), ("nomerge", 66), ("null_pointer_is_valid", 67), ("mustprogress", 70),
    ("nocallback", 71), ("hot", 72), ("noprofile", 73), ("nosanitize_coverage", 76),
    ("disable_sanitizer_instrumentation", 78), ("nosanitize_bounds", 79), ("presplitcoroutine", 83),
    ("fn_ret_thunk_extern", 84), ("skipprofile", 85),
];
const RET_ATTRS: &[(&str, u64)] = &[("inreg", 5), ("noalias", 9), ("nonnull", 39), ("noundef", 68), ("signext", 24), ("zeroext", 34)];
const PARAM_ATTRS: &[(&str, u64)] = &[
    ("inreg", 5), ("nest", 8), ("noalias", 9), ("nocapture", 11), ("nofree", 62), ("nonnull", 39), ("noundef", 68),
    ("readnone", 20), ("readonly", 21), ("returned", 22), ("signext", 24), ("zeroext", 34), ("writeonly", 52),
    ("swiftself", 46), ("swifterror", 47), ("swiftasync", 75), ("immarg", 60), ("allocalign", 80), ("allocptr", 81),
];

/// Keywords for calling conventions.
const CCS: &[(&str, u64)] = &[
    ("ccc", 0), ("fastcc", 8), ("coldcc", 9), ("ghccc", 10), ("anyregcc", 13), ("preserve_mostcc", 14),
    ("preserve_allcc", 15), ("swiftcc", 16), ("cxx_fast_tlscc", 17), ("x86_stdcallcc", 64), ("x86_fastcallcc", 65),
    ("arm_apcscc", 66), ("arm_aapcscc", 67), ("arm_aapcs_vfpcc", 68), ("msp430_intrcc", 69), ("x86_thiscallcc", 70),
    ("ptx_kernel", 71), ("ptx_device", 72), ("spir_func", 75), ("spir_kernel", 76), ("intel_ocl_bicc", 77),
    ("x86_64_sysvcc", 78), ("win64cc", 79), ("x86_vectorcallcc", 80), ("hhvmcc", 81), ("hhvm_ccc", 82),
    ("x86_intrcc", 83), ("avr_intrcc", 84), ("avr_signalcc", 85), ("amdgpu_vs", 87), ("amdgpu_gs", 88),
    ("amdgpu_ps", 89), ("amdgpu_cs", 90), ("amdgpu_kernel", 91), ("x86_regcallcc", 92), ("amdgpu_hs", 93),
    ("amdgpu_ls", 95), ("amdgpu_es", 96),
];

pub const TRIPLES: &[&str] = &[
    "x86_64-pc-linux-gnu", "aarch64-unknown-linux-gnu", "arm64-apple-macosx13.0.0", "x86_64-pc-windows-msvc", "wasm32-unknown-unknown",
    "riscv64-unknown-elf", "powerpc64le-unknown-linux-gnu", "nvptx64-nvidia-cuda", "amdgcn-amd-amdhsa", "thumbv7em-none-eabi", "s390x-ibm-linux", "bpf",
];

/// Architectures whose layouts LLVM amends when it reads one.
fn amended(triple: &str) -> bool {
    let arch = triple.split('-').next().unwrap_or("");
    arch.starts_with("x86") || (arch.starts_with('i') && arch.ends_with("86")) || ["amdgcn", "amdgcn", "r600", "riscv64", "spir", "spirv", "aarch64"].contains(&arch) || arch.starts_with("amd")
}

fn tls_text(rng: &mut Rng) -> (&'static str, &'static str) {
    *rng.pick(&[
        ("", "NotThreadLocal"), ("", "NotThreadLocal"), ("thread_local ", "GeneralDynamicTls"), ("thread_local(localdynamic) ", "LocalDynamicTls"),
        ("thread_local(initialexec) ", "InitialExecTls"), ("thread_local(localexec) ", "LocalExecTls"),
    ])
}

/// Visibility, storage class, `dso_local`: text and what they amount to.
struct Vis {
    text: String,
    visibility: &'static str,
    dll: &'static str,
    local: bool,
}

fn vis(rng: &mut Rng, local_linkage: bool, extern_weak: bool) -> Vis {
    let v = if local_linkage { 0 } else { rng.below(3) };
    let d = if local_linkage || v != 0 { 0 } else { rng.below(3) };
    let implied = local_linkage || (v != 0 && !extern_weak);
    let dso = d != 1 && rng.chance(1, 3);
    // The parser takes "dso_preemptable" wherever "dso_local" isn't implied.
    let word = if dso { "dso_local " } else if !implied && rng.chance(1, 8) { "dso_preemptable " } else { "" };
    let (vt, vn) = [("", "Default"), ("hidden ", "Hidden"), ("protected ", "Protected")][v as usize];
    let vt = if v == 0 && rng.chance(1, 8) { "default " } else { vt };
    let (dt, dn) = [("", "Default"), ("dllimport ", "Import"), ("dllexport ", "Export")][d as usize];
    Vis { text: format!("{word}{vt}{dt}"), visibility: vn, dll: dn, local: dso || implied }
}

/// `reread`: whether LLVM will read the module again before the library does, in which case what
/// LLVM's own reader refuses or changes (alignments of 2^32, interrupt handlers without types for
/// their parameters) isn't used.
pub fn module(rng: &mut Rng, size: usize, reread: bool) -> Source {
    let tag = format!("_{:x}", rng.below(1 << 40));
    let mut g = G {
        rng,
        types: Types { v: vec![], usable: true },
        texts: vec![],
        defs: String::new(),
        used: Default::default(),
        sections: vec![],
        gcs: vec![],
        partitions: vec![],
        groups: String::new(),
        ngroups: 0,
        feats: 0,
        tag,
        reread,
        long: false,
        limit: 0,
    };
    g.long = size > 40 || g.rng.chance(1, 12);
    g.limit = if !g.long { 0 } else if size > 40 { 1000 } else { 20_000 };
    g.add(Ty::Int(32), "i32".into());
    g.add(Ty::Opaque(0), "ptr".into());
    for (n, s) in [("Void", "void"), ("Float", "float"), ("Double", "double"), ("Half", "half"), ("BFloat", "bfloat"), ("X86Fp80", "x86_fp80"), ("Fp128", "fp128"), ("PpcFp128", "ppc_fp128"), ("Metadata", "metadata"), ("X86Mmx", "x86_mmx"), ("Token", "token"), ("X86Amx", "x86_amx")] {
        g.add(Ty::Plain(n), s.into());
    }
    let nt = g.rng.us(2 * size + 4);
    for _ in 0..nt {
        g.new_type();
    }

    let mut want = RefModule { version: 2, ..Default::default() };
    let mut head = String::new();
    if g.rng.bool() {
        let mut n = g.words(0);
        n.retain(|c| c != '\0');
        head += &format!("source_filename = {}\n", quote(&n));
    }
    let mut triple = None;
    if g.rng.chance(3, 4) {
        let mut s = if g.rng.chance(2, 3) { g.rng.pick(TRIPLES).to_string() } else { g.words(1) };
        s.retain(|c| c != '\0');
        if !s.is_empty() {
            triple = Some(s);
        }
    }
    let mut dl = None;
    if g.rng.chance(3, 5) {
        let s = if g.rng.chance(2, 3) { layout::target(g.rng).to_string() } else { layout::valid(g.rng) };
        // Only layouts about which the documentation and LLVM agree.
        if matches!(layout::model(&s), V::Is(_)) {
            dl = Some(s);
        }
    }
    if let Some(s) = &dl {
        head += &format!("target datalayout = {}\n", quote(s));
    }
    if let Some(s) = &triple {
        head += &format!("target triple = {}\n", quote(s));
    }
    let top = std::mem::take(&mut head);
    want.triple = triple.clone();
    let has_layout = dl.is_some();
    let layout = match &triple {
        Some(t) if amended(t) => None,
        // Its own data layout isn't written, or has defaults.
        _ => dl,
    };
    let mut asm = String::new();
    if g.rng.bool() {
        for _ in 0..g.rng.range(1, 5) {
            let mut s = g.words(0);
            s.retain(|c| c != '\0');
            head += &format!("module asm {}\n", quote(&s));
            asm += &s;
            // As LLVM appends to a module's assembly.
            if !asm.is_empty() && !asm.ends_with('\n') {
                asm.push('\n');
            }
        }
        g.feats |= 1;
    }

    // COMDATs.
    let mut comdats: Vec<(String, &'static str)> = vec![];
    for _ in 0..g.rng.us(size + 1) {
        let n = g.name();
        let (k, v) = *g.rng.pick(&[("any", "Any"), ("exactmatch", "ExactMatch"), ("largest", "Largest"), ("nodeduplicate", "NoDeduplicate"), ("samesize", "SameSize")]);
        head += &format!("${} = comdat {k}\n", ident(&n));
        comdats.push((n, v));
    }
    let mut used_comdats: Vec<usize> = vec![];
    fn note(v: &mut Vec<usize>, i: usize) {
        if !v.contains(&i) {
            v.push(i);
        }
    }

    // Global variables.
    let mut body = String::new();
    let mut sect_order: Vec<String> = vec![];
    let mut names = vec![];
    let mut aliasees: Vec<(String, u64)> = vec![];
    let nvars = g.rng.us(size + 2);
    for i in 0..nvars {
        let n = g.name();
        let ty = g.pick_type(|t| legal_array_elem(t) && legal_struct_elem(t));
        let opaque = G::opaque(&g.types.v[ty]);
        let def = g.rng.bool() && !opaque;
        let (link, local, weak) = if def {
            *g.rng.pick(&[("", false, false), ("private ", true, false), ("internal ", true, false), ("weak ", false, false), ("weak_odr ", false, false), ("linkonce ", false, false), ("linkonce_odr ", false, false), ("common ", false, false), ("available_externally ", false, false)])
        } else {
            *g.rng.pick(&[("external ", false, false), ("extern_weak ", false, true)])
        };
        let vs = vis(g.rng, local, weak);
        let ua = *g.rng.pick(&["", "", "unnamed_addr ", "local_unnamed_addr "]);
        let space = if g.rng.chance(1, 5) { g.rng.below(1 << 20) } else { 0 };
        body += &format!("@{} = {link}{}{}{ua}", ident(&n), vs.text, tls_text(g.rng).0);
        if space != 0 || has_layout {
            // The layout may have another default.
            body += &format!("addrspace({space}) ");
        }
        if g.rng.chance(1, 8) {
            body += "externally_initialized ";
        }
        body += &format!("{} {}", g.rng.pick(&["global", "constant"]), g.texts[ty]);
        if def {
            body += match g.rng.below(3) {
                0 => " undef",
                1 => " poison",
                // (The assembler crashes on these.)
                _ if matches!(g.types.v[ty], Ty::Plain("X86Mmx" | "X86Amx")) => " undef",
                _ => " zeroinitializer",
            };
        }
        if let Some(s) = g.section() {
            body += &format!(", section {}", quote(&s));
            if !sect_order.contains(&s) {
                sect_order.push(s);
            }
        }
        if let Some(p) = g.partition() {
            body += &format!(", partition {}", quote(&p));
        }
        if !comdats.is_empty() && g.rng.chance(1, 2) {
            let c = g.rng.us(comdats.len());
            body += &format!(", comdat(${})", ident(&comdats[c].0));
            note(&mut used_comdats, c);
        }
        if let Some(a) = g.align() {
            body += &format!(", align {a}");
        }
        body += "\n";
        aliasees.push((if space == 0 { format!("ptr @{}", ident(&n)) } else { format!("ptr addrspace({space}) @{}", ident(&n)) }, i as u64));
        names.push(n);
        g.feats |= 2;
    }

    // Functions.
    let nfuncs = g.rng.us(2 * size + 2);
    let mut gc_order: Vec<String> = vec![];
    for i in 0..nfuncs {
        let n = g.name();
        let ret = if g.rng.chance(1, 4) { 2 } else { g.pick_type(|t| legal_return(t) && !G::opaque(t)) };
        let va = g.rng.chance(1, 5);
        let np = g.count(6, 400);
        let ps: Vec<usize> = (0..np).map(|_| g.pick_type(|t| legal_param(t) && !G::opaque(t) && (np < 6 || G::plain(t)))).collect();
        let fty = {
            g.types.v.push(Ty::Fn(va, ret as u64, ps.iter().map(|p| *p as u64).collect()));
            let p = g.types.pat(g.types.v.len() - 1);
            g.types.v.pop();
            match p {
                Pat::Var(_, mut a) => a.pop().unwrap(),
                p => p,
            }
        };
        let weak = g.rng.chance(1, 3);
        let vs = vis(g.rng, false, weak);
        let (cc_text, cc) = match g.rng.below(4) {
            0 => (String::new(), 0),
            1 => {
                let c = g.rng.pick(t::CCS).0;
                (format!("cc {c} "), c)
            }
            _ => {
                let c = *g.rng.pick(CCS);
                (format!("{} ", c.0), c.1)
            }
        };
        let (cc_text, cc) = if cc == 83 && g.reread { (String::new(), 0) } else { (cc_text, cc) };
        let mut list = vec![];
        let (fa, fp) = g.attrs(Place::Function, 8, None);
        let (ra, rp) = if g.rng.bool() { g.attrs(Place::Return, 3, Some(ret)) } else { Default::default() };
        let part = |place: Pat, attrs: Vec<Pat>| Pat::Rec(vec![("disposition", place), ("attributes", Pat::Bag(attrs))]);
        if !fp.is_empty() {
            list.push(part(var("Function", vec![]), fp));
        }
        if !rp.is_empty() {
            list.push(part(var("Return", vec![]), rp));
        }
        let mut params = vec![];
        for (k, p) in ps.iter().enumerate() {
            let (pa, pp) = if g.rng.chance(1, 3) { g.attrs(Place::Parameter, 4, Some(*p)) } else { Default::default() };
            if !pp.is_empty() {
                list.push(part(var("Parameter", vec![Pat::Num(k as u64 + 1)]), pp));
            }
            let mut s = g.texts[*p].clone();
            for a in pa {
                s += &format!(" {a}");
            }
            params.push(s);
        }
        if va {
            params.push("...".into());
        }
        let space = if g.rng.chance(1, 8) { g.rng.range(1, 1 << 20) } else { 0 };
        let (ua, uan) = *g.rng.pick(&[("", "None"), (" unnamed_addr", "Global"), (" local_unnamed_addr", "Local")]);
        body += &format!("declare {}{}{cc_text}", if weak { "extern_weak " } else { "" }, vs.text);
        for a in ra {
            body += &format!("{a} ");
        }
        body += &format!("{} @{}({}){ua}", g.texts[ret], ident(&n), params.join(", "));
        if space != 0 || has_layout {
            body += &format!(" addrspace({space})");
        }
        // Some of the function's attributes stand in groups.
        let cut = if g.rng.bool() { g.rng.us(fa.len() + 1) } else { 0 };
        for a in &fa[cut..] {
            body += &format!(" {a}");
        }
        if cut > 0 {
            let s = g.group(&fa[..cut]);
            body += &format!(" {s}");
        }
        let section = g.section();
        if let Some(s) = &section {
            body += &format!(" section {}", quote(s));
            if !sect_order.contains(s) {
                sect_order.push(s.clone());
            }
        }
        if let Some(p) = g.partition() {
            body += &format!(" partition {}", quote(&p));
        }
        if !comdats.is_empty() && g.rng.chance(1, 5) {
            let c = g.rng.us(comdats.len());
            body += &format!(" comdat(${})", ident(&comdats[c].0));
            note(&mut used_comdats, c);
        }
        let align = g.align();
        if let Some(a) = align {
            body += &format!(" align {a}");
        }
        let gc = g.rng.chance(1, 4).then(|| G::table(&mut g.gcs, g.rng, g.limit));
        if let Some(s) = &gc {
            body += &format!(" gc {}", quote(s));
            if !gc_order.contains(s) {
                gc_order.push(s.clone());
            }
        }
        if g.rng.chance(1, 10) {
            body += " prefix i32 7";
        }
        if g.rng.chance(1, 10) {
            body += " prologue i8 3";
        }
        if nvars > 0 && g.rng.chance(1, 10) {
            body += &format!(" personality {}", aliasees[g.rng.us(nvars)].0);
        }
        body += "\n";
        want.functions.push(Pat::Rec(vec![
            ("name", Pat::Str(n.clone())),
            ("ty", fty),
            ("calling_convention", var(t::cc(cc).unwrap(), vec![])),
            ("is_declaration", var("true", vec![])),
            ("linkage", var(if weak { "ExternalWeak" } else { "External" }, vec![])),
            ("attributes", if list.is_empty() { none() } else { some(Pat::List(list)) }),
            ("alignment", opt(align.map(|a| Pat::Rec(vec![("byte_align", Pat::Num(a))])))),
            ("section", opt(section.map(Pat::Str))),
            ("visibility", var(vs.visibility, vec![])),
            ("gc_name", opt(gc.map(Pat::Str))),
            ("unnamed_addr", var(uan, vec![])),
            ("storage_class", var(vs.dll, vec![])),
        ]));
        aliasees.push((if space == 0 { format!("ptr @{}", ident(&n)) } else { format!("ptr addrspace({space}) @{}", ident(&n)) }, (nvars + i) as u64));
        names.push(n);
        g.feats |= 4;
    }

    // Aliases.
    if !aliasees.is_empty() {
        for i in 0..g.rng.us(size + 2) {
            let n = g.name();
            let ty = g.pick_type(|t| legal_array_elem(t) && legal_struct_elem(t) && !G::opaque(t));
            let (link, ln, local) = *g.rng.pick(&[
                ("", "External", false), ("private ", "Private", true), ("internal ", "Internal", true), ("weak ", "WeakAny", false),
                ("weak_odr ", "WeakOdr", false), ("linkonce ", "LinkOnceAny", false), ("linkonce_odr ", "LinkOnceOdr", false), ("external ", "External", false),
            ]);
            let vs = vis(g.rng, local, false);
            let (tt, tn) = tls_text(g.rng);
            let (ua, uan) = *g.rng.pick(&[("", "None"), ("unnamed_addr ", "Global"), ("local_unnamed_addr ", "Local")]);
            let (to, index) = g.rng.pick(&aliasees).clone();
            body += &format!("@{} = {link}{}{tt}{ua}alias {}, {to}", ident(&n), vs.text, g.texts[ty]);
            if let Some(p) = g.partition() {
                body += &format!(", partition {}", quote(&p));
            }
            body += "\n";
            want.aliases.push(Pat::Rec(vec![
                ("name", Pat::Str(n.clone())),
                ("ty", g.types.pat(ty)),
                ("value_index", Pat::Num(index)),
                ("linkage", var(ln, vec![])),
                ("visibility", var(vs.visibility, vec![])),
                ("storage_class", var(vs.dll, vec![])),
                ("tls_mode", var(tn, vec![])),
                ("unnamed_addr", var(uan, vec![])),
                ("preemption_specifier", var(if vs.local { "DsoLocal" } else { "DsoPreemptable" }, vec![])),
            ]));
            let space = to.strip_prefix("ptr @").is_none().then(|| to.split('@').next().unwrap().trim().to_string());
            aliasees.push((format!("{} @{}", space.unwrap_or("ptr".into()), ident(&n)), (nvars + nfuncs + i) as u64));
            names.push(n);
            g.feats |= 8;
        }
    }
    for c in used_comdats {
        let (n, k) = &comdats[c];
        want.comdats.push(Pat::Rec(vec![("selection_kind", var(k, vec![])), ("name", Pat::Str(n.clone()))]));
        names.push(n.clone());
        g.feats |= 16;
    }
    want.sections = sect_order;
    want.gcs = gc_order;
    want.epoch = 0;
    let text = format!("{top}{}{head}{body}{}", g.defs, g.groups);
    let feats = g.feats;
    Source { text, want, asm, layout, has_layout, names, feats }
}
