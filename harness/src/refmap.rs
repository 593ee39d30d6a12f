//! Block trees, and an independent model of how one maps to modules.

use crate::obs::*;
use crate::stream::*;
use crate::tables as t;
use crate::util::*;
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub struct Blk {
    pub id: u64,
    pub items: Vec<Node>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Node {
    R(u64, Vec<u64>),
    B(Blk),
}

impl Blk {
    pub fn new(id: u64) -> Blk {
        Blk { id, items: vec![] }
    }
    pub fn rec(mut self, code: u64, f: &[u64]) -> Blk {
        self.items.push(Node::R(code, f.to_vec()));
        self
    }
    pub fn put(&mut self, code: u64, f: &[u64]) {
        self.items.push(Node::R(code, f.to_vec()));
    }
    pub fn blk(mut self, b: Blk) -> Blk {
        self.items.push(Node::B(b));
        self
    }
    pub fn records(&self, code: u64) -> Vec<&Vec<u64>> {
        self.items
            .iter()
            .filter_map(|n| match n {
                Node::R(c, f) if *c == code => Some(f),
                _ => None,
            })
            .collect()
    }
    pub fn blocks(&self, id: u64) -> Vec<&Blk> {
        self.items
            .iter()
            .filter_map(|n| match n {
                Node::B(b) if b.id == id => Some(b),
                _ => None,
            })
            .collect()
    }
    pub fn depth(&self) -> usize {
        1 + self.items.iter().map(|n| if let Node::B(b) = n { b.depth() } else { 0 }).max().unwrap_or(0)
    }
    pub fn nodes(&self) -> usize {
        1 + self.items.iter().map(|n| if let Node::B(b) = n { b.nodes() } else { 1 }).sum::<usize>()
    }
}

/// How a tree is written.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Style {
    Plain,
    /// Random abbreviations, paddings, widths and BLOCKINFO blocks.
    Random,
}

/// A BLOCKINFO block with abbreviations that suit records of the given blocks.
fn blockinfo_for(rng: &mut Rng, s: &mut SW, blocks: &[&Blk]) {
    let mut sets = vec![];
    for b in blocks {
        let recs: Vec<_> = b.items.iter().filter_map(|n| if let Node::R(c, f) = n { Some((c, f)) } else { None }).collect();
        let mut abbrs = vec![];
        for _ in 0..rng.us(3) {
            if recs.is_empty() {
                break;
            }
            let (c, f) = *rng.pick(&recs);
            let mut vals = vec![*c];
            vals.extend(f);
            vals.truncate(40);
            abbrs.push(abbr_for(rng, &vals));
        }
        if !abbrs.is_empty() {
            sets.push((b.id, abbrs));
        }
    }
    put_blockinfo_with(rng, s, &sets);
}

pub fn emit(rng: &mut Rng, s: &mut SW, b: &Blk, style: Style) {
    let w = match style {
        Style::Plain => 4,
        Style::Random => rng.ur(3, 6),
    };
    s.enter(b.id, w);
    for n in &b.items {
        match n {
            Node::R(c, f) => match style {
                Style::Plain => s.unabbrev(*c, f),
                Style::Random => put_record(rng, s, *c, f, false),
            },
            Node::B(k) => {
                if style == Style::Random && rng.chance(1, 8) {
                    blockinfo_for(rng, s, &[k, b]);
                }
                emit(rng, s, k, style)
            }
        }
    }
    s.exit();
}

/// The bytes of a file with these top-level blocks.
pub fn write(rng: &mut Rng, top: &[Blk], style: Style) -> Vec<u8> {
    let mut s = SW::new(0xdec0_4342);
    for b in top {
        if style == Style::Random && rng.chance(1, 6) {
            let inner: Vec<&Blk> = b.items.iter().filter_map(|n| if let Node::B(k) = n { Some(k) } else { None }).chain([b]).collect();
            blockinfo_for(rng, &mut s, &inner);
        }
        emit(rng, &mut s, b, style);
    }
    s.bytes()
}

/// The tree that entries form, if they are complete.
pub fn tree(evs: &[Ev]) -> Option<Vec<Blk>> {
    let mut top = vec![];
    let mut open: Vec<Blk> = vec![];
    for e in evs {
        match e {
            Ev::Enter { id, .. } => open.push(Blk::new(*id)),
            Ev::Rec { code, fields, .. } => open.last_mut()?.items.push(Node::R(*code, fields.clone())),
            Ev::Exit => {
                let b = open.pop()?;
                match open.last_mut() {
                    Some(p) => p.items.push(Node::B(b)),
                    None => top.push(b),
                }
            }
        }
    }
    open.is_empty().then_some(top)
}

/// What the model says about a file or a part of one.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Judgement {
    /// Has to be refused, for this reason.
    pub bad: Option<String>,
    /// May be refused or accepted, for this reason.
    pub unspec: Option<String>,
}

impl Judgement {
    fn bad(&mut self, why: impl Into<String>) {
        if self.bad.is_none() {
            self.bad = Some(why.into());
        }
    }
    fn unspec(&mut self, why: impl Into<String>) {
        if self.unspec.is_none() {
            self.unspec = Some(why.into());
        }
    }
}

#[derive(Clone, Debug, Default)]
pub struct RefModule {
    pub producer: String,
    pub epoch: u64,
    pub triple: Option<String>,
    pub asm: Vec<String>,
    pub deplibs: Vec<String>,
    pub strtab: Vec<u8>,
    pub symtab: Option<Vec<u8>>,
    pub version: u64,
    pub datalayout: Option<String>,
    pub sections: Vec<String>,
    pub gcs: Vec<String>,
    pub groups: Vec<(u64, Pat)>,
    pub lists: Vec<Pat>,
    pub types: Vec<Pat>,
    pub comdats: Vec<Pat>,
    pub functions: Vec<Pat>,
    pub aliases: Vec<Pat>,
}

/// A string. LLVM's writer sign-extends characters (to 32 bits in most records, to 64 in
/// attributes), so those outside of ASCII are found that way as well as plain.
pub fn text(f: &[u64]) -> Option<String> {
    let b = f
        .iter()
        .map(|x| match *x {
            0..=255 => Some(*x as u8),
            x if x as i64 >= -128 && (x as i64) < 0 => Some(x as u8),
            x if x >> 32 == 0 && (-128..0).contains(&(x as u32 as i32)) => Some(x as u8),
            _ => None,
        })
        .collect::<Option<Vec<u8>>>()?;
    String::from_utf8(b).ok()
}

pub fn bytes(f: &[u64]) -> Option<Vec<u8>> {
    f.iter().map(|x| u8::try_from(*x).ok()).collect()
}

/// The model for a whole file.
pub fn file(top: &[Blk], j: &mut Judgement) -> Vec<RefModule> {
    struct Part<'a> {
        ident: &'a Blk,
        module: Option<&'a Blk>,
        strtab: Option<&'a Blk>,
        symtab: Option<&'a Blk>,
    }
    let mut parts: Vec<Part> = vec![];
    for b in top {
        if b.depth() > 100 {
            if b.depth() > 1000 {
                j.bad("nested too deeply");
            } else {
                j.unspec("nested deeply");
            }
        }
        if b.id != 8 && parts.last().map(|p| p.module.is_none()).unwrap_or(false) {
            j.bad("an identification without a module");
        }
        match b.id {
            13 => parts.push(Part { ident: b, module: None, strtab: None, symtab: None }),
            8 => match parts.last_mut() {
                Some(p) if p.module.is_none() => p.module = Some(b),
                Some(_) => j.bad("two modules after one identification"),
                None => j.bad("a module without identification"),
            },
            23 => {
                for p in parts.iter_mut().rev() {
                    if p.strtab.is_some() {
                        break;
                    }
                    p.strtab = Some(b);
                }
            }
            25 => {
                for p in parts.iter_mut().rev() {
                    if p.symtab.is_some() {
                        break;
                    }
                    p.symtab = Some(b);
                }
            }
            _ => j.bad(format!("block {} at top level", b.id)),
        }
    }
    let mut out = vec![];
    for p in &parts {
        let mut m = RefModule::default();
        let Some(module) = p.module else {
            j.bad("an identification without a module");
            continue;
        };
        let Some(strtab) = p.strtab else {
            j.bad("a module without a string table");
            continue;
        };
        identification(p.ident, &mut m, j);
        m.strtab = blob(strtab, "string table", j);
        m.symtab = p.symtab.map(|b| blob(b, "symbol table", j));
        module_block(module, &mut m, j);
        out.push(m);
    }
    out
}

fn blob(b: &Blk, what: &str, j: &mut Judgement) -> Vec<u8> {
    let r = b.records(1);
    if r.len() > 1 {
        j.unspec(format!("several blobs in a {what}"));
    }
    match r.first() {
        None => {
            j.bad(format!("{what} without a blob"));
            vec![]
        }
        Some(f) => bytes(f).unwrap_or_else(|| {
            j.bad(format!("{what} isn't made of bytes"));
            vec![]
        }),
    }
}

fn identification(b: &Blk, m: &mut RefModule, j: &mut Judgement) {
    let (p, e) = (b.records(1), b.records(2));
    if p.len() > 1 || e.len() > 1 {
        j.unspec("repeated record in an identification");
    }
    match p.first() {
        None => j.bad("identification without a producer"),
        Some(f) => match text(f) {
            Some(s) => m.producer = s,
            None => j.bad("producer isn't text"),
        },
    }
    match e.first().map(|f| f.first()) {
        None | Some(None) => j.bad("identification without an epoch"),
        Some(Some(v)) => m.epoch = *v,
    }
}

fn strings(b: &Blk, code: u64, what: &str, j: &mut Judgement) -> Vec<String> {
    b.records(code)
        .into_iter()
        .map(|f| {
            text(f).unwrap_or_else(|| {
                j.bad(format!("{what} isn't text"));
                String::new()
            })
        })
        .collect()
}

fn at_most_one(b: &Blk, code: u64, what: &str, j: &mut Judgement) -> Option<String> {
    let mut v = strings(b, code, what, j);
    if v.len() > 1 {
        j.bad(format!("{what} is repeated"));
    }
    v.pop()
}

fn module_block(b: &Blk, m: &mut RefModule, j: &mut Judgement) {
    let v = b.records(1);
    if v.len() != 1 {
        j.bad(format!("{} versions", v.len()));
    }
    match v.first().and_then(|f| f.first()) {
        None => j.bad("no version"),
        Some(x) => m.version = *x,
    }
    if m.version > 2 {
        j.unspec("version above 2");
    }
    m.datalayout = at_most_one(b, 3, "data layout", j);
    if let Some(d) = &m.datalayout {
        if !crate::mapgen::LAYOUTS.contains(&d.as_str()) {
            j.unspec("an arbitrary data layout");
        }
    }
    m.sections = strings(b, 5, "section", j);
    m.gcs = strings(b, 11, "collector", j);
    m.triple = at_most_one(b, 2, "triple", j);
    m.asm = at_most_one(b, 4, "assembly", j).map(|s| s.split('\n').map(String::from).collect()).unwrap_or_default();
    m.deplibs = strings(b, 6, "dependent library", j);
    let tys = b.blocks(17);
    if tys.len() != 1 {
        j.bad(format!("{} type tables", tys.len()));
    }
    let vst = b.blocks(14).len();
    if vst == 0 {
        j.bad("no module symbol table");
    } else if vst > 1 {
        j.unspec("several module symbol tables");
    }
    let groups = b.blocks(10);
    let lists = b.blocks(9);
    if groups.len() > 1 || lists.len() > 1 {
        j.bad("attribute tables are repeated");
    }
    let table = match tys.first() {
        Some(b) => types(b, j),
        None => Types::default(),
    };
    m.types = table.pats();
    let mut gmap: HashMap<u64, Pat> = HashMap::new();
    if let Some(g) = groups.first() {
        m.groups = attr_groups(g, j);
        gmap = m.groups.iter().cloned().collect();
    }
    if let Some(l) = lists.first() {
        m.lists = attr_lists(l, &gmap, j);
    }
    for r in b.records(12) {
        let p = comdat(r, m, j);
        m.comdats.push(p);
    }
    if !b.blocks(12).is_empty() {
        j.bad("a function body");
    }
    for r in b.records(8) {
        let p = function(r, m, &table, j);
        m.functions.push(p);
    }
    for r in b.records(14) {
        let p = alias(r, m, &table, j);
        m.aliases.push(p);
    }
    if !b.records(9).is_empty() {
        j.unspec("an old alias record");
    }
}

fn name(r: &[u64], m: &RefModule, what: &str, j: &mut Judgement) -> Pat {
    let (o, n) = (r[0], r[1]);
    if n == 0 {
        j.bad(format!("{what}: empty name"));
        return Pat::Any;
    }
    let end = o as u128 + n as u128;
    if end > m.strtab.len() as u128 {
        j.bad(format!("{what}: name outside the string table"));
        return Pat::Any;
    }
    match std::str::from_utf8(&m.strtab[o as usize..end as usize]) {
        Ok(s) => Pat::Str(s.to_string()),
        Err(_) => {
            j.bad(format!("{what}: name isn't UTF-8"));
            Pat::Any
        }
    }
}

fn comdat(r: &[u64], m: &RefModule, j: &mut Judgement) -> Pat {
    if m.version < 2 {
        j.bad("COMDAT of the old layout");
        return Pat::Any;
    }
    if r.len() < 3 {
        j.bad("COMDAT too short");
        return Pat::Any;
    }
    if r.len() > 3 {
        j.unspec("COMDAT too long");
    }
    let n = name(r, m, "COMDAT", j);
    let k = t::comdat(r[2]);
    if k.is_none() {
        j.bad("COMDAT selection kind");
    }
    Pat::Rec(vec![("selection_kind", var(k.unwrap_or("?"), vec![])), ("name", n)])
}

fn one_based(v: u64, list: &[String], what: &str, j: &mut Judgement) -> Pat {
    if v == 0 {
        return none();
    }
    match usize::try_from(v).ok().and_then(|v| list.get(v - 1)) {
        Some(s) => some(Pat::Str(s.clone())),
        None => {
            j.bad(format!("function: {what} out of range"));
            Pat::Any
        }
    }
}

fn small(v: u64, what: &str, j: &mut Judgement) {
    if v > u32::MAX as u64 {
        j.unspec(format!("{what} above 32 bits"));
    }
}

fn function(r: &[u64], m: &RefModule, types: &Types, j: &mut Judgement) -> Pat {
    if m.version < 2 {
        j.bad("function of the old layout");
        return Pat::Any;
    }
    if r.len() < 10 {
        j.bad("function too short");
        return Pat::Any;
    }
    let n = name(r, m, "function", j);
    let ty = match types.get(r[2]) {
        None => {
            j.bad("function: no such type");
            Pat::Any
        }
        Some(Ty::Fn(..)) => match types.pat(r[2] as usize) {
            Pat::Var(_, mut a) => a.pop().unwrap(),
            p => p,
        },
        Some(_) => {
            j.bad("function: not a function type");
            Pat::Any
        }
    };
    let cc = match t::cc(r[3]) {
        Some(c) => var(c, vec![]),
        None => {
            if t::NEWER_CCS.contains(&r[3]) {
                j.unspec("function: a newer calling convention");
            } else {
                j.bad("function: unknown calling convention");
            }
            Pat::Any
        }
    };
    small(r[5], "linkage", j);
    let attrs = if r[6] == 0 {
        none()
    } else {
        match usize::try_from(r[6] - 1).ok().and_then(|i| m.lists.get(i)) {
            Some(p) => some(p.clone()),
            None => {
                j.bad("function: no such attribute list");
                Pat::Any
            }
        }
    };
    let align = match r[7] {
        0 => none(),
        v @ 1..=33 => some(Pat::Rec(vec![("byte_align", Pat::Num(1 << (v - 1)))])),
        34..=64 => {
            j.unspec("function: alignment above LLVM's maximum");
            Pat::Any
        }
        _ => {
            j.bad("function: alignment");
            Pat::Any
        }
    };
    let section = one_based(r[8], &m.sections, "section", j);
    let vis = t::visibility(r[9]);
    if vis.is_none() {
        j.bad("function: visibility");
    }
    let gc = one_based(r.get(10).copied().unwrap_or(0), &m.gcs, "collector", j);
    let ua = r.get(11).copied().unwrap_or(0);
    small(ua, "unnamed_addr", j);
    let dll = t::dll(r.get(13).copied().unwrap_or(0));
    if dll.is_none() {
        j.bad("function: storage class");
    }
    Pat::Rec(vec![
        ("name", n),
        ("ty", ty),
        ("calling_convention", cc),
        ("is_declaration", var(if r[4] != 0 { "true" } else { "false" }, vec![])),
        ("linkage", var(t::linkage(r[5]), vec![])),
        ("attributes", attrs),
        ("alignment", align),
        ("section", section),
        ("visibility", var(vis.unwrap_or("?"), vec![])),
        ("gc_name", gc),
        ("unnamed_addr", var(t::unnamed_addr(ua), vec![])),
        ("storage_class", var(dll.unwrap_or("?"), vec![])),
    ])
}

fn alias(r: &[u64], m: &RefModule, types: &Types, j: &mut Judgement) -> Pat {
    if m.version < 2 {
        j.bad("alias of the old layout");
        return Pat::Any;
    }
    if r.len() < 6 {
        j.bad("alias too short");
        return Pat::Any;
    }
    let n = name(r, m, "alias", j);
    let ty = match types.get(r[2]) {
        None => {
            j.bad("alias: no such type");
            Pat::Any
        }
        Some(_) => types.pat(r[2] as usize),
    };
    let opt = |i: usize| r.get(i).copied().unwrap_or(0);
    for i in [5, 8, 9, 10] {
        small(opt(i), "alias operand", j);
    }
    let vis = t::visibility(opt(6));
    if vis.is_none() {
        j.bad("alias: visibility");
    }
    let dll = t::dll(opt(7));
    if dll.is_none() {
        j.bad("alias: storage class");
    }
    Pat::Rec(vec![
        ("name", n),
        ("ty", ty),
        ("value_index", Pat::Num(r[4])),
        ("linkage", var(t::linkage(r[5]), vec![])),
        ("visibility", var(vis.unwrap_or("?"), vec![])),
        ("storage_class", var(dll.unwrap_or("?"), vec![])),
        ("tls_mode", var(t::tls(opt(8)), vec![])),
        ("unnamed_addr", var(t::unnamed_addr(opt(9)), vec![])),
        ("preemption_specifier", var(t::preemption(opt(10)), vec![])),
    ])
}

// ---- types -------------------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Plain(&'static str),
    Int(u64),
    Ptr(u64, u64),
    Opaque(u64),
    Struct { name: Option<String>, elems: Vec<u64>, packed: bool, opaque: bool },
    Array(u64, u64),
    Vec(u64, u64, bool),
    Fn(bool, u64, Vec<u64>),
}

#[derive(Clone, Debug, Default)]
pub struct Types {
    pub v: Vec<Ty>,
    pub usable: bool,
}

impl Types {
    pub fn get(&self, i: u64) -> Option<&Ty> {
        usize::try_from(i).ok().and_then(|i| self.v.get(i))
    }
    fn pats(&self) -> Vec<Pat> {
        (0..self.v.len()).map(|i| self.pat(i)).collect()
    }
    /// The pattern for an entry of a table whose references have been checked.
    pub fn pat(&self, i: usize) -> Pat {
        if !self.usable {
            return Pat::Any;
        }
        let sub = |k: &u64| self.pat(*k as usize);
        let b = |v: bool| var(if v { "true" } else { "false" }, vec![]);
        match &self.v[i] {
            Ty::Plain(n) => var(n, vec![]),
            Ty::Int(w) => var("Integer", vec![Pat::Rec(vec![("bit_width", Pat::Num(*w))])]),
            Ty::Ptr(t, a) => var("Pointer", vec![Pat::Rec(vec![("pointee", sub(t)), ("address_space", Pat::Num(*a))])]),
            Ty::Opaque(a) => var("OpaquePointer", vec![Pat::Num(*a)]),
            Ty::Struct { name, elems, packed, .. } => var(
                "Struct",
                vec![Pat::Rec(vec![
                    ("name", match name {
                        None => none(),
                        Some(n) if n.is_empty() => Pat::OneOf(vec![none(), some(Pat::Str(String::new()))]),
                        Some(n) => some(Pat::Str(n.clone())),
                    }),
                    ("fields", Pat::List(elems.iter().map(sub).collect())),
                    ("is_packed", b(*packed)),
                ])],
            ),
            Ty::Array(n, t) => var("Array", vec![Pat::Rec(vec![("num_elements", Pat::Num(*n)), ("element_type", sub(t))])]),
            Ty::Vec(n, t, s) => var(
                if *s { "ScalableVector" } else { "FixedVector" },
                vec![Pat::Rec(vec![("num_elements", Pat::Num(*n)), ("element_type", sub(t))])],
            ),
            Ty::Fn(va, r, p) => var(
                "Function",
                vec![Pat::Rec(vec![
                    ("return_type", sub(r)),
                    ("param_types", Pat::List(p.iter().map(sub).collect())),
                    ("is_vararg", b(*va)),
                ])],
            ),
        }
    }
    pub fn refs(&self, i: usize) -> Vec<u64> {
        match &self.v[i] {
            Ty::Ptr(t, _) | Ty::Array(_, t) | Ty::Vec(_, t, _) => vec![*t],
            Ty::Struct { elems, .. } => elems.clone(),
            Ty::Fn(_, r, p) => {
                let mut v = vec![*r];
                v.extend(p);
                v
            }
            _ => vec![],
        }
    }
}

const PLAIN: &[(u64, &str)] = &[
    (2, "Void"), (3, "Float"), (4, "Double"), (5, "Label"), (10, "Half"), (13, "X86Fp80"), (14, "Fp128"),
    (15, "PpcFp128"), (16, "Metadata"), (17, "X86Mmx"), (22, "Token"), (23, "BFloat"), (24, "X86Amx"),
];

pub fn plain_type_codes() -> impl Iterator<Item = u64> {
    PLAIN.iter().map(|p| p.0)
}

pub fn plain_type(code: u64) -> Ty {
    Ty::Plain(PLAIN.iter().find(|p| p.0 == code).unwrap().1)
}
pub fn plain_type_code(name: &str) -> u64 {
    PLAIN.iter().find(|p| p.1 == name).unwrap().0
}

fn is(t: &Ty, names: &[&str]) -> bool {
    matches!(t, Ty::Plain(n) if names.contains(n))
}

pub fn legal_pointee(t: &Ty) -> bool {
    !is(t, &["Void", "Label", "Metadata", "Token", "X86Amx"])
}
pub fn legal_array_elem(t: &Ty) -> bool {
    !is(t, &["Void", "Label", "Metadata", "Token", "X86Amx"]) && !matches!(t, Ty::Fn(..) | Ty::Vec(_, _, true))
}
pub fn legal_struct_elem(t: &Ty) -> bool {
    !is(t, &["Void", "Label", "Metadata", "Token"]) && !matches!(t, Ty::Fn(..))
}
pub fn legal_vector_elem(t: &Ty) -> bool {
    is(t, &["Half", "BFloat", "Float", "Double", "X86Fp80", "Fp128", "PpcFp128"]) || matches!(t, Ty::Int(_) | Ty::Ptr(..) | Ty::Opaque(_))
}
pub fn legal_param(t: &Ty) -> bool {
    !is(t, &["Void"]) && !matches!(t, Ty::Fn(..))
}
pub fn legal_return(t: &Ty) -> bool {
    !is(t, &["Label", "Metadata"]) && !matches!(t, Ty::Fn(..))
}

pub fn types(b: &Blk, j: &mut Judgement) -> Types {
    let n = b.records(1);
    if n.len() > 1 {
        j.unspec("repeated entry count");
    }
    let count = match n.first().map(|f| f.first()) {
        Some(Some(v)) => *v,
        _ => {
            j.bad("type table without an entry count");
            return Types::default();
        }
    };
    if b.items.iter().any(|n| matches!(n, Node::B(_))) {
        j.unspec("a block in the type table");
    }
    let mut out = Types { v: vec![], usable: true };
    let mut pending: Option<String> = None;
    let mut broken = false;
    for it in &b.items {
        let Node::R(code, f) = it else { continue };
        let need = |k: usize, j: &mut Judgement| {
            if f.len() < k {
                j.bad(format!("type record {code} too short"));
                true
            } else {
                false
            }
        };
        let exact = |k: usize, j: &mut Judgement| {
            if f.len() > k {
                j.unspec(format!("type record {code} too long"));
            }
        };
        let space = |a: u64, j: &mut Judgement| {
            if a >= 1 << 24 {
                j.bad("address space");
            } else if a >= 1 << 23 {
                // LLVM's documentation ends at 2^23, its implementation at 2^24.
                j.unspec("address space between 2^23 and 2^24");
            }
        };
        let ty = match code {
            1 => continue,
            c if PLAIN.iter().any(|p| p.0 == *c) => Ty::Plain(PLAIN.iter().find(|p| p.0 == *c).unwrap().1),
            7 => {
                if need(1, j) {
                    broken = true;
                    continue;
                }
                exact(1, j);
                if f[0] == 0 || f[0] >= 1 << 24 {
                    j.bad("integer width");
                } else if f[0] > 1 << 23 {
                    j.unspec("integer width between 2^23 and 2^24");
                }
                Ty::Int(f[0])
            }
            8 => {
                if f.len() == 1 {
                    j.unspec("pointer without an address space");
                    broken = true;
                    continue;
                }
                if need(2, j) {
                    broken = true;
                    continue;
                }
                exact(2, j);
                space(f[1], j);
                Ty::Ptr(f[0], f[1])
            }
            25 => {
                if need(1, j) {
                    broken = true;
                    continue;
                }
                exact(1, j);
                space(f[0], j);
                Ty::Opaque(f[0])
            }
            11 => {
                if need(2, j) {
                    broken = true;
                    continue;
                }
                exact(2, j);
                Ty::Array(f[0], f[1])
            }
            12 => {
                if need(2, j) {
                    broken = true;
                    continue;
                }
                exact(3, j);
                if f[0] == 0 {
                    j.bad("empty vector");
                }
                if f[0] > u32::MAX as u64 {
                    j.unspec("vector length above 32 bits");
                }
                Ty::Vec(f[0], f[1], f.get(2).map(|x| *x != 0).unwrap_or(false))
            }
            18 | 20 => {
                if need(1, j) {
                    broken = true;
                    continue;
                }
                let name = if *code == 20 {
                    Some(pending.take().unwrap_or_default())
                } else {
                    None
                };
                Ty::Struct { name, elems: f[1..].to_vec(), packed: f[0] != 0, opaque: false }
            }
            6 => {
                if f.len() != 1 {
                    j.unspec("opaque record length");
                }
                match pending.take() {
                    None => {
                        j.bad("opaque struct without a name");
                        broken = true;
                        continue;
                    }
                    Some(n) => {
                        if n.is_empty() {
                            j.unspec("opaque struct with an empty name");
                        }
                        Ty::Struct { name: Some(n), elems: vec![], packed: false, opaque: true }
                    }
                }
            }
            19 => {
                if pending.is_some() {
                    j.unspec("two struct names in a row");
                }
                match text(f) {
                    Some(s) => pending = Some(s),
                    None => {
                        j.bad("struct name isn't text");
                        pending = Some(String::new());
                    }
                }
                continue;
            }
            21 => {
                if need(2, j) {
                    broken = true;
                    continue;
                }
                Ty::Fn(f[0] != 0, f[1], f[2..].to_vec())
            }
            26 => {
                j.unspec("target types");
                broken = true;
                continue;
            }
            c => {
                j.bad(format!("type code {c}"));
                broken = true;
                continue;
            }
        };
        out.v.push(ty);
    }
    if pending.is_some() {
        j.unspec("a struct name at the end");
    }
    if broken {
        out.usable = false;
        return out;
    }
    if count != out.v.len() as u64 {
        j.bad(format!("{count} types claimed, {} declared", out.v.len()));
    }
    // References.
    let n = out.v.len() as u64;
    for i in 0..out.v.len() {
        if out.refs(i).iter().any(|r| *r >= n) {
            j.bad("reference to a missing type");
            out.usable = false;
        }
    }
    if !out.usable {
        return out;
    }
    // Cycles, depth and size.
    let k = out.v.len();
    // 0 unknown, 1 on the way, 2 done.
    let mut state = vec![0u8; k];
    let mut depth = vec![0usize; k];
    let mut size = vec![0u64; k];
    let mut cyclic = false;
    for s in 0..k {
        if state[s] != 0 {
            continue;
        }
        let mut stack = vec![(s, 0usize)];
        state[s] = 1;
        while let Some((i, at)) = stack.pop() {
            let rs = out.refs(i);
            if at < rs.len() {
                stack.push((i, at + 1));
                let c = rs[at] as usize;
                match state[c] {
                    0 => {
                        state[c] = 1;
                        stack.push((c, 0));
                    }
                    1 => cyclic = true,
                    _ => {}
                }
                continue;
            }
            state[i] = 2;
            depth[i] = 1 + rs.iter().map(|r| depth[*r as usize]).max().unwrap_or(0);
            size[i] = rs.iter().fold(1u64, |a, r| a.saturating_add(size[*r as usize]));
        }
    }
    if cyclic {
        // By value, or through a typed pointer or a function's signature.
        if by_value_cycle(&out) {
            j.bad("a type that contains itself");
        } else {
            j.unspec("a type that refers to itself");
        }
        out.usable = false;
        return out;
    }
    let total = size.iter().fold(0u64, |a, b| a.saturating_add(*b));
    if depth.iter().any(|d| *d > 200) || total > 1 << 19 {
        j.unspec("types that are very deep or large once expanded");
        out.usable = false;
        return out;
    }
    // Legality.
    for i in 0..k {
        let at = |r: &u64| &out.v[*r as usize];
        let ok = match &out.v[i] {
            Ty::Ptr(t, _) => legal_pointee(at(t)),
            Ty::Array(_, t) => legal_array_elem(at(t)),
            Ty::Vec(_, t, _) => legal_vector_elem(at(t)),
            Ty::Struct { elems, .. } => elems.iter().all(|e| legal_struct_elem(at(e))),
            Ty::Fn(_, r, p) => {
                if p.iter().any(|p| matches!(at(p), Ty::Struct { opaque: true, .. })) {
                    j.unspec("a parameter of opaque type");
                }
                legal_return(at(r)) && p.iter().all(|p| legal_param(at(p)))
            }
            _ => true,
        };
        if !ok {
            j.bad(format!("illegal type {:?}", out.v[i]));
        }
    }
    out
}

fn by_value_cycle(t: &Types) -> bool {
    let k = t.v.len();
    let mut state = vec![0u8; k];
    for s in 0..k {
        if state[s] != 0 {
            continue;
        }
        let mut stack = vec![(s, 0usize)];
        state[s] = 1;
        while let Some((i, at)) = stack.pop() {
            let rs = match &t.v[i] {
                Ty::Array(_, r) | Ty::Vec(_, r, _) => vec![*r],
                Ty::Struct { elems, .. } => elems.clone(),
                _ => vec![],
            };
            if at < rs.len() {
                stack.push((i, at + 1));
                let c = rs[at] as usize;
                match state[c] {
                    0 => {
                        state[c] = 1;
                        stack.push((c, 0));
                    }
                    1 => return true,
                    _ => {}
                }
                continue;
            }
            state[i] = 2;
        }
    }
    false
}

// ---- attributes --------------------------------------------------------------------------------

pub fn attr_int(id: u64, v: u64, j: &mut Judgement) -> Pat {
    let align = |name: &str, j: &mut Judgement| {
        if v == 0 {
            return var(name, vec![none()]);
        }
        if !v.is_power_of_two() {
            j.bad("attribute: alignment isn't a power of two");
            return Pat::Any;
        }
        if v > 1 << 32 {
            j.unspec("attribute: alignment above LLVM's maximum");
        }
        var(name, vec![some(Pat::Rec(vec![("byte_align", Pat::Num(v))]))])
    };
    match id {
        1 => align("Alignment", j),
        25 => align("StackAlignment", j),
        41 => var("Dereferenceable", vec![Pat::Num(v)]),
        42 => var("DereferenceableOrNull", vec![Pat::Num(v)]),
        51 => {
            if v == 0 {
                j.bad("allocsize(0, 0)");
            }
            let lo = v as u32;
            var("AllocSize", vec![Pat::Num(v >> 32), opt((lo != u32::MAX).then_some(Pat::Num(lo as u64)))])
        }
        74 => var("VScaleRange", vec![Pat::Num(v >> 32), Pat::Num(v & 0xffff_ffff)]),
        33 => match v {
            0..=2 => var("UwTable", vec![var(["None", "Sync", "Async"][v as usize], vec![])]),
            _ => {
                j.bad("unwind table kind");
                Pat::Any
            }
        },
        82 => var("AllocKind", vec![Pat::Num(v)]),
        86 => var("MemoryKind", vec![Pat::Num(v)]),
        _ => {
            j.bad(format!("attribute {id} with an integer"));
            Pat::Any
        }
    }
}

fn attr_id(id: u64, j: &mut Judgement) -> bool {
    if id == 0 || id >= 200 {
        j.bad(format!("attribute ID {id}"));
        return false;
    }
    if id > t::LAST_KNOWN_ATTR {
        j.unspec(format!("attribute ID {id}"));
        return false;
    }
    true
}

/// The attributes in a group record, from its third field on.
fn attr_seq(f: &[u64], j: &mut Judgement) -> Vec<Pat> {
    let mut out = vec![];
    let mut i = 0;
    let cstr = |i: &mut usize, j: &mut Judgement| -> Option<String> {
        let Some(n) = f[*i..].iter().position(|x| *x == 0) else {
            j.bad("attribute: unterminated string");
            return None;
        };
        let s = text(&f[*i..*i + n]);
        *i += n + 1;
        match s {
            None => {
                j.bad("attribute: string isn't text");
                None
            }
            Some(s) if s.is_empty() => {
                j.bad("attribute: empty string");
                None
            }
            s => s,
        }
    };
    while i < f.len() {
        let kind = f[i];
        i += 1;
        match kind {
            0 => {
                let Some(id) = f.get(i) else {
                    j.bad("attribute: missing ID");
                    return out;
                };
                i += 1;
                if !attr_id(*id, j) {
                    return out;
                }
                if !t::attr_is_enum(*id) {
                    j.bad(format!("attribute {id} without its integer"));
                    return out;
                }
                out.push(var("Enum", vec![var(enum_name(*id), vec![])]));
            }
            1 => {
                let (Some(id), v) = (f.get(i), f.get(i + 1)) else {
                    j.bad("attribute: missing ID");
                    return out;
                };
                if !attr_id(*id, j) {
                    return out;
                }
                let Some(v) = v else {
                    j.bad("attribute: missing value");
                    return out;
                };
                i += 2;
                out.push(var("Int", vec![attr_int(*id, *v, j)]));
            }
            3 => match cstr(&mut i, j) {
                Some(k) => out.push(var("Str", vec![Pat::Str(k)])),
                None => return out,
            },
            4 => match (cstr(&mut i, j), i) {
                (Some(k), _) => match cstr(&mut i, j) {
                    Some(v) => out.push(var("StrKeyValue", vec![Pat::Str(k), Pat::Str(v)])),
                    None => return out,
                },
                _ => return out,
            },
            5 | 6 => {
                j.unspec("type attributes");
                return out;
            }
            k => {
                j.bad(format!("attribute kind {k}"));
                return out;
            }
        }
    }
    out
}

/// The library's spelling where it isn't LLVM's.
pub fn enum_name(id: u64) -> &'static str {
    match id {
        27 => "StackProtectReq",
        _ => t::ATTRS[id as usize - 1],
    }
}

fn attr_groups(b: &Blk, j: &mut Judgement) -> Vec<(u64, Pat)> {
    if b.items.iter().any(|n| matches!(n, Node::B(_))) {
        j.unspec("a block in an attribute table");
    }
    let mut out: Vec<(u64, Pat)> = vec![];
    for it in &b.items {
        let Node::R(code, f) = it else { continue };
        if *code != 3 {
            j.bad(format!("record {code} among the attribute groups"));
            continue;
        }
        if f.len() < 3 {
            j.bad("attribute group too short");
            continue;
        }
        if f[0] > u32::MAX as u64 || f[1] > u32::MAX as u64 {
            j.unspec("attribute group number above 32 bits");
            out.push((f[0], Pat::Any));
            continue;
        }
        let d = match f[1] {
            0 => var("Return", vec![]),
            0xffff_ffff => var("Function", vec![]),
            n => var("Parameter", vec![Pat::Num(n)]),
        };
        let attrs = attr_seq(&f[2..], j);
        let p = Pat::Rec(vec![("disposition", d), ("attributes", Pat::List(attrs))]);
        if out.iter().any(|(k, _)| *k == f[0]) {
            j.unspec("an attribute group twice");
            continue;
        }
        out.push((f[0], p));
    }
    out
}

fn attr_lists(b: &Blk, groups: &HashMap<u64, Pat>, j: &mut Judgement) -> Vec<Pat> {
    if b.items.iter().any(|n| matches!(n, Node::B(_))) {
        j.unspec("a block in an attribute table");
    }
    let mut out = vec![];
    for it in &b.items {
        let Node::R(code, f) = it else { continue };
        if *code != 2 {
            j.bad(format!("record {code} among the attribute lists"));
            continue;
        }
        let mut l = vec![];
        for g in f {
            if *g > u32::MAX as u64 {
                j.unspec("attribute group number above 32 bits");
                l.push(Pat::Any);
                continue;
            }
            match groups.get(g) {
                Some(p) => l.push(p.clone()),
                None if groups.keys().any(|k| *k > u32::MAX as u64) => {
                    j.unspec("attribute group number above 32 bits");
                    l.push(Pat::Any);
                }
                None => j.bad("a list with a missing group"),
            }
        }
        out.push(Pat::List(l));
    }
    out
}

// ---- comparison --------------------------------------------------------------------------------

pub mod part {
    pub const IDENT: u32 = 1;
    pub const TEXTS: u32 = 2;
    pub const TABLES: u32 = 4;
    pub const TYPES: u32 = 8;
    pub const ATTRS: u32 = 16;
    pub const COMDATS: u32 = 32;
    pub const FUNCTIONS: u32 = 64;
    pub const ALIASES: u32 = 128;
    pub const ALL: u32 = 255;
}

/// A mapped file, observed.
pub struct Mapped {
    pub result: Result<llvm_mapper::unroll::Bitcode, String>,
    pub seen: Captured,
}

/// Maps a file while observing the mapper. `Err`: it panicked.
pub fn map(data: &[u8]) -> Result<Mapped, crate::ctx::Panic> {
    let (r, seen) = capture(|| {
        crate::ctx::guard(|| llvm_mapper::unroll::Bitcode::try_from(data).map_err(|e| format!("{e:?}")))
    });
    Ok(Mapped { result: r?, seen })
}

pub struct Outcome {
    pub diff: Option<String>,
    pub unobserved: Vec<String>,
}

/// Compares the mapped modules with the expected ones, in the given parts.
pub fn compare(want: &[RefModule], got: &llvm_mapper::unroll::Bitcode, seen: &Captured, parts: u32) -> Outcome {
    let mut un = vec![];
    macro_rules! differ {
        ($($a:tt)*) => {
            return Outcome { diff: Some(format!($($a)*)), unobserved: un }
        };
    }
    if got.modules.len() != want.len() {
        differ!("{} modules, expected {}", got.modules.len(), want.len());
    }
    let observed = |v: &[String]| v.len() == want.len();
    for (i, (w, g)) in want.iter().zip(&got.modules).enumerate() {
        if parts & part::IDENT != 0 && (g.identification.producer != w.producer || g.identification.epoch != w.epoch) {
            differ!("module {i}: producer {:?} epoch {}, expected {:?} {}", g.identification.producer, g.identification.epoch, w.producer, w.epoch);
        }
        if parts & part::TEXTS != 0 {
            let t = w.triple.as_deref().unwrap_or(llvm_support::TARGET_TRIPLE);
            if g.module.triple != t {
                differ!("module {i}: triple {:?}, expected {t:?}", g.module.triple);
            }
            if g.module.asm != w.asm {
                differ!("module {i}: assembly {:?}, expected {:?}", g.module.asm, w.asm);
            }
            if g.module.deplibs != w.deplibs {
                differ!("module {i}: dependent libraries {:?}, expected {:?}", g.module.deplibs, w.deplibs);
            }
        }
        if parts & part::TABLES != 0 {
            if g.strtab.as_ref() != w.strtab.as_slice() {
                differ!("module {i}: string table {}, expected {}", hex(g.strtab.as_ref()), hex(&w.strtab));
            }
            if g.symtab.as_ref().map(|s| s.as_ref()) != w.symtab.as_deref() {
                differ!("module {i}: symbol table {:?}, expected {:?}", g.symtab.as_ref().map(|s| hex(s.as_ref())), w.symtab.as_ref().map(|s| hex(s)));
            }
        }
        let mut chk = |v: Option<&Val>, p: Pat, what: &str| -> Option<String> {
            let Some(v) = v else {
                un.push(format!("{what} isn't logged"));
                return None;
            };
            match matches(v, &p, what) {
                M::Same => None,
                M::Diff(d) => Some(d),
                M::Unobserved(u) => {
                    un.push(u);
                    None
                }
            }
        };
        let strs = |v: &[String]| Pat::List(v.iter().map(|s| Pat::Str(s.clone())).collect());
        if parts & (part::TEXTS | part::TYPES | part::ATTRS | part::COMDATS) != 0 {
            let ctx = if observed(&seen.contexts) { parse_debug(&seen.contexts[i]) } else { None };
            let f = |k: &str| ctx.as_ref().and_then(|c| c.field(k));
            let mut d = None;
            if parts & part::TEXTS != 0 {
                d = d.or(chk(f("version"), some(Pat::Num(w.version)), "version"));
                d = d.or(chk(f("section_table"), strs(&w.sections), "sections"));
                d = d.or(chk(f("gc_table"), strs(&w.gcs), "collectors"));
            }
            if parts & part::TYPES != 0 {
                d = d.or(chk(f("type_table"), some(Pat::List(w.types.clone())), "types"));
            }
            if parts & part::ATTRS != 0 {
                d = d.or(chk(f("attribute_groups"), Pat::Map(w.groups.clone()), "attribute groups"));
                d = d.or(chk(f("attributes"), Pat::List(w.lists.clone()), "attribute lists"));
            }
            if parts & part::COMDATS != 0 {
                d = d.or(chk(f("comdats"), Pat::List(w.comdats.clone()), "COMDATs"));
            }
            if let Some(d) = d {
                differ!("module {i}: {d}");
            }
        }
        for (bit, logs, pats, what) in [
            (part::FUNCTIONS, &seen.functions, &w.functions, "functions"),
            (part::ALIASES, &seen.aliases, &w.aliases, "aliases"),
        ] {
            if parts & bit != 0 {
                let v = if observed(logs) { parse_debug(&logs[i]) } else { None };
                if let Some(d) = chk(v.as_ref(), Pat::List(pats.clone()), what) {
                    differ!("module {i}: {d}");
                }
            }
        }
    }
    Outcome { diff: None, unobserved: un }
}
