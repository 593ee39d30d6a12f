//! Writing bitstreams while recording what a reader must see, an independent reference decoder,
//! and the collection of what the library reports.

use crate::bits::*;
use crate::ctx::*;
use crate::util::*;
use llvm_bitstream::parser::StreamEntry;
use llvm_bitstream::Bitstream;
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Op {
    Lit(u64),
    Fixed(u64),
    Vbr(u64),
    Char6,
    Array(Box<Op>),
    Blob,
}

pub type Abbr = Vec<Op>;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ev {
    Enter { id: u64, len: u64 },
    Exit,
    Rec { abbrev: Option<u64>, code: u64, fields: Vec<u64> },
}

impl Ev {
    pub fn short(&self) -> String {
        clip(&format!("{self:?}"), 300)
    }
}

pub const CHAR6: &[u8; 64] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789._";
pub const WRAPPER_MAGIC: u32 = 0x0B17_C0DE;

#[derive(Clone, Debug)]
struct Scope {
    id: u64,
    width: usize,
    abbrs: Vec<Abbr>,
    /// How many of them BLOCKINFO registered.
    registered: usize,
    len_at: usize,
    ev: usize,
    bid: Option<u64>,
}

/// Writes a bitstream, keeping the list of entries that a parser has to report for it.
#[derive(Clone, Debug)]
pub struct SW {
    pub w: BitWriter,
    scopes: Vec<Scope>,
    pub blockinfo: BTreeMap<u64, Vec<Abbr>>,
    pub evs: Vec<Ev>,
    /// Features this stream has, for the distinct-case accounting.
    pub feats: u64,
}

pub fn op_fits(op: &Op, v: u64) -> bool {
    match op {
        Op::Lit(l) => *l == v,
        Op::Fixed(0) | Op::Vbr(0) => v == 0,
        Op::Fixed(w) => *w >= 64 || v >> *w == 0,
        Op::Vbr(_) => true,
        Op::Char6 => v < 256 && CHAR6.contains(&(v as u8)),
        _ => false,
    }
}

/// Whether an abbreviation can express these values (code first).
pub fn fits(a: &Abbr, vals: &[u64]) -> bool {
    let mut i = 0;
    for op in a {
        match op {
            Op::Array(e) => return vals[i..].iter().all(|v| op_fits(e, *v)),
            Op::Blob => return vals[i..].iter().all(|v| *v < 256),
            _ => {
                if i >= vals.len() || !op_fits(op, vals[i]) {
                    return false;
                }
                i += 1;
            }
        }
    }
    i == vals.len()
}

impl SW {
    pub fn new(magic: u32) -> SW {
        let mut w = BitWriter::new();
        w.put(magic as u64, 32);
        SW { w, scopes: vec![], blockinfo: BTreeMap::new(), evs: vec![], feats: 0 }
    }
    pub fn depth(&self) -> usize {
        self.scopes.len()
    }
    pub fn width(&self) -> usize {
        self.scopes.last().map(|s| s.width).unwrap_or(2)
    }
    pub fn in_blockinfo(&self) -> bool {
        self.scopes.last().map(|s| s.id == 0).unwrap_or(false)
    }
    pub fn block_id(&self) -> Option<u64> {
        self.scopes.last().map(|s| s.id)
    }
    pub fn blockinfo_bid(&self) -> Option<u64> {
        self.scopes.last().and_then(|s| s.bid)
    }
    /// The abbreviations that are usable now: (ID, definition).
    pub fn usable(&self) -> Vec<(u64, Abbr)> {
        let Some(s) = self.scopes.last() else { return vec![] };
        let max = if s.width >= 63 { u64::MAX } else { (1u64 << s.width) - 1 };
        s.abbrs
            .iter()
            .enumerate()
            .map(|(i, a)| (i as u64 + 4, a.clone()))
            .filter(|(i, _)| *i <= max)
            .collect()
    }
    pub fn id_fits(&self, id: u64) -> bool {
        self.width() >= 63 || id >> self.width() == 0
    }
    pub fn next_abbrev_id(&self) -> u64 {
        self.scopes.last().map(|s| s.abbrs.len() as u64 + 4).unwrap_or(4)
    }
    pub fn put_id(&mut self, id: u64) {
        let w = self.width();
        self.w.put(id, w.min(64));
        for _ in 64..w {
            self.w.put(0, 1);
        }
    }
    pub fn enter(&mut self, id: u64, width: usize) {
        self.enter_pad(id, width, 0)
    }
    pub fn enter_pad(&mut self, id: u64, width: usize, pad: usize) {
        self.put_id(1);
        self.w.vbr_pad(id, 8, pad);
        self.w.vbr(width as u64, 4);
        self.w.align32();
        let len_at = self.w.nbits / 8;
        self.w.put(0, 32);
        let ev = self.evs.len();
        if id != 0 {
            self.evs.push(Ev::Enter { id, len: 0 });
        }
        let abbrs = self.blockinfo.get(&id).cloned().unwrap_or_default();
        let registered = abbrs.len();
        self.scopes.push(Scope { id, width, abbrs, registered, len_at, ev, bid: None });
        // As in LLVM's writer and readers, a BLOCKINFO block replaces the ones before it.
        if id == 0 {
            self.blockinfo.clear();
        }
    }
    pub fn exit(&mut self) {
        self.put_id(0);
        self.w.align32();
        let s = self.scopes.pop().expect("exit of a block");
        let words = (self.w.bytes.len() - s.len_at - 4) / 4;
        self.w.patch32(s.len_at, words as u32);
        if s.id != 0 {
            if let Ev::Enter { len, .. } = &mut self.evs[s.ev] {
                *len = words as u64 * 4;
            }
            self.evs.push(Ev::Exit);
        }
    }
    /// Leaves the scope without writing an end.
    pub fn abandon(&mut self) {
        self.scopes.pop();
    }
    fn put_op(&mut self, op: &Op) {
        let w = &mut self.w;
        match op {
            Op::Lit(v) => {
                w.put(1, 1);
                w.vbr(*v, 8);
            }
            Op::Fixed(n) => {
                w.put(0, 1);
                w.put(1, 3);
                w.vbr(*n, 5);
            }
            Op::Vbr(n) => {
                w.put(0, 1);
                w.put(2, 3);
                w.vbr(*n, 5);
            }
            Op::Array(_) => {
                w.put(0, 1);
                w.put(3, 3);
            }
            Op::Char6 => {
                w.put(0, 1);
                w.put(4, 3);
            }
            Op::Blob => {
                w.put(0, 1);
                w.put(5, 3);
            }
        }
    }
    pub fn flat_ops(a: &Abbr) -> Vec<Op> {
        let mut v = vec![];
        for op in a {
            v.push(op.clone());
            if let Op::Array(e) = op {
                v.push((**e).clone());
            }
        }
        v
    }
    /// Writes a definition from a flat operand list, without registering anything.
    pub fn define_raw(&mut self, ops: &[Op]) {
        self.put_id(2);
        self.w.vbr(ops.len() as u64, 5);
        for op in ops {
            self.put_op(op);
        }
    }
    /// Defines an abbreviation where we are (a block, or the block ID that BLOCKINFO is set to).
    pub fn define(&mut self, a: &Abbr) {
        let flat = Self::flat_ops(a);
        self.define_raw(&flat);
        let s = self.scopes.last_mut().expect("a block");
        if s.id == 0 {
            let bid = s.bid.expect("SETBID first");
            self.blockinfo.entry(bid).or_default().push(a.clone());
        } else {
            s.abbrs.push(a.clone());
        }
    }
    fn surfaced(&mut self, abbrev: Option<u64>, code: u64, fields: &[u64]) {
        let s = self.scopes.last_mut().expect("a block");
        if s.id == 0 {
            if code == 1 {
                s.bid = Some(fields[0]);
            }
        } else {
            self.evs.push(Ev::Rec { abbrev, code, fields: fields.to_vec() });
        }
    }
    pub fn unabbrev(&mut self, code: u64, fields: &[u64]) {
        self.unabbrev_pad(code, fields, 0)
    }
    /// `pad`: a seed for redundant chunks; 0 for none.
    pub fn unabbrev_pad(&mut self, code: u64, fields: &[u64], pad: u64) {
        let mut r = Rng::new(pad);
        let mut p = |v: u64| -> usize {
            if pad == 0 {
                0
            } else {
                let room = 12 - vbr_chunks(v, 6).min(12);
                if r.chance(1, 3) { r.us(room + 1) } else { 0 }
            }
        };
        self.put_id(3);
        let k = p(code);
        self.w.vbr_pad(code, 6, k);
        let k = p(fields.len() as u64);
        self.w.vbr_pad(fields.len() as u64, 6, k);
        for f in fields {
            let k = p(*f);
            self.w.vbr_pad(*f, 6, k);
        }
        self.surfaced(None, code, fields);
    }
    fn put_val(&mut self, op: &Op, v: u64) {
        match op {
            Op::Lit(_) | Op::Fixed(0) | Op::Vbr(0) => {}
            Op::Fixed(n) => self.w.put(v, *n as usize),
            Op::Vbr(n) => self.w.vbr(v, *n as usize),
            Op::Char6 => {
                let i = CHAR6.iter().position(|c| *c as u64 == v).expect("char6");
                self.w.put(i as u64, 6);
            }
            _ => unreachable!(),
        }
    }
    /// Writes a record with a usable abbreviation that fits.
    pub fn abbreviated(&mut self, id: u64, vals: &[u64]) {
        let a = self.scopes.last().expect("a block").abbrs[(id - 4) as usize].clone();
        self.abbreviated_as(id, &a, vals);
        self.surfaced(Some(id), vals[0], &vals[1..]);
    }
    pub fn abbreviated_as(&mut self, id: u64, a: &Abbr, vals: &[u64]) {
        assert!(fits(a, vals), "{a:?} doesn't fit {vals:?}");
        self.put_id(id);
        let mut i = 0;
        for op in a {
            match op {
                Op::Array(e) => {
                    self.w.vbr((vals.len() - i) as u64, 6);
                    for v in &vals[i..] {
                        self.put_val(e, *v);
                    }
                }
                Op::Blob => {
                    self.w.vbr((vals.len() - i) as u64, 6);
                    self.w.align32();
                    for v in &vals[i..] {
                        self.w.put(*v, 8);
                    }
                    self.w.align32();
                }
                _ => {
                    self.put_val(op, vals[i]);
                    i += 1;
                }
            }
        }
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut w = self.w.clone();
        w.align32();
        w.bytes
    }
}

fn bits_of(v: u64) -> u64 {
    64 - v.leading_zeros() as u64
}

/// A scalar operand that can express `v`.
pub fn scalar_for(rng: &mut Rng, v: u64) -> Op {
    loop {
        match rng.below(7) {
            0 | 1 => return Op::Lit(v),
            2 | 3 => {
                let b = bits_of(v);
                if b <= 32 {
                    if b == 0 && rng.chance(1, 3) {
                        return Op::Fixed(0);
                    }
                    return Op::Fixed(if rng.bool() { b.max(1) } else { rng.range(b.max(1), 32) });
                }
            }
            4 | 5 => {
                if v == 0 && rng.chance(1, 4) {
                    return Op::Vbr(0);
                }
                return Op::Vbr(rng.range(2, 32));
            }
            _ => {
                if op_fits(&Op::Char6, v) {
                    return Op::Char6;
                }
            }
        }
    }
}

fn elem_for(rng: &mut Rng, vals: &[u64]) -> Op {
    let m = vals.iter().copied().max().unwrap_or(0);
    let b = bits_of(m);
    if rng.chance(1, 3) && vals.iter().all(|v| op_fits(&Op::Char6, *v)) {
        return Op::Char6;
    }
    if b <= 32 && rng.bool() {
        return Op::Fixed(if rng.bool() { b.max(1) } else { rng.range(b.max(1), 32) });
    }
    Op::Vbr(rng.range(2, 32))
}

/// A random legal abbreviation that can express `vals` (code first).
pub fn abbr_for(rng: &mut Rng, vals: &[u64]) -> Abbr {
    let n = vals.len();
    let mut a: Abbr = vec![];
    let style = rng.below(4);
    let tail = match style {
        0 => None,
        _ => Some(rng.ur(1, n)),
    };
    let upto = tail.unwrap_or(n);
    for v in &vals[..upto] {
        a.push(scalar_for(rng, *v));
    }
    if let Some(t) = tail {
        if style == 1 && vals[t..].iter().all(|v| *v < 256) {
            a.push(Op::Blob);
        } else {
            a.push(Op::Array(Box::new(elem_for(rng, &vals[t..]))));
        }
    }
    a
}

/// A random legal abbreviation, not made for particular values.
pub fn random_abbr(rng: &mut Rng) -> Abbr {
    let n = rng.ur(1, 6);
    let vals: Vec<u64> = (0..n).map(|_| rng.small()).collect();
    abbr_for(rng, &vals)
}

fn val_for(rng: &mut Rng, op: &Op) -> u64 {
    match op {
        Op::Lit(v) => *v,
        Op::Fixed(w) => rng.wild_bits((*w).min(64) as u32),
        Op::Vbr(0) => 0,
        Op::Vbr(_) => rng.wild(),
        Op::Char6 => *rng.pick(CHAR6) as u64,
        Op::Blob => rng.below(256),
        Op::Array(e) => val_for(rng, e),
    }
}

/// Random values that an abbreviation can express.
pub fn vals_for(rng: &mut Rng, a: &Abbr) -> Vec<u64> {
    let mut v = vec![];
    for op in a {
        match op {
            Op::Array(_) | Op::Blob => {
                let n = match rng.below(4) {
                    0 => 0,
                    1 => rng.ur(0, 4),
                    2 => rng.ur(0, 40),
                    _ => rng.ur(0, 9),
                };
                for _ in 0..n {
                    let x = val_for(rng, op);
                    v.push(x);
                }
            }
            _ => {
                let x = val_for(rng, op);
                v.push(x);
            }
        }
    }
    v
}

pub fn random_fields(rng: &mut Rng) -> Vec<u64> {
    let n = match rng.below(6) {
        0 => 0,
        1 => 1,
        2 => rng.ur(0, 70),
        _ => rng.ur(0, 8),
    };
    match rng.below(5) {
        0 => (0..n).map(|_| rng.below(256)).collect(),
        1 => (0..n).map(|_| *rng.pick(CHAR6) as u64).collect(),
        2 => (0..n).map(|_| rng.small()).collect(),
        _ => (0..n).map(|_| rng.wild()).collect(),
    }
}

pub fn random_code(rng: &mut Rng) -> u64 {
    match rng.below(5) {
        0 => rng.wild(),
        1 => *rng.pick(CHAR6) as u64,
        _ => rng.below(64),
    }
}

pub fn random_magic(rng: &mut Rng) -> u32 {
    loop {
        let m = match rng.below(4) {
            0 => 0xdec0_4342,
            1 => rng.wild() as u32,
            2 => 0,
            _ => rng.next() as u32,
        };
        if m != WRAPPER_MAGIC {
            return m;
        }
    }
}

pub fn random_block_id(rng: &mut Rng) -> u64 {
    match rng.below(8) {
        0 => rng.range(1, 7),
        1 => rng.range(1, u32::MAX as u64),
        2 => u32::MAX as u64,
        _ => rng.range(8, 12),
    }
}

pub fn random_width(rng: &mut Rng) -> usize {
    match rng.below(6) {
        0 => rng.ur(2, 32),
        1 => 2,
        2 => 32,
        _ => rng.ur(3, 6),
    }
}

pub mod feat {
    pub const BLOCKINFO: u64 = 1;
    pub const BLOCKINFO_ABBREV_USED: u64 = 2;
    pub const LOCAL_USED: u64 = 4;
    pub const ARRAY: u64 = 8;
    pub const BLOB: u64 = 16;
    pub const CHAR6: u64 = 32;
    pub const ZERO_WIDTH: u64 = 64;
    pub const EMPTY_TAIL: u64 = 128;
    pub const WIDE: u64 = 256;
    pub const DEEP: u64 = 512;
    pub const PADDED: u64 = 1024;
    pub const ABBREV_SETBID: u64 = 2048;
    pub const EMPTY_BLOCK: u64 = 4096;
    pub const BIG_VALUE: u64 = 8192;
    pub const MIXED_ORIGIN: u64 = 16384;
    pub const REENTERED: u64 = 32768;
}

/// Writes a record, in some way that can express it.
pub fn put_record(rng: &mut Rng, s: &mut SW, code: u64, fields: &[u64], abbrev_bias: bool) {
    let mut vals = vec![code];
    vals.extend_from_slice(fields);
    if fields.iter().any(|f| *f > u32::MAX as u64) {
        s.feats |= feat::BIG_VALUE;
    }
    let kind = rng.below(if abbrev_bias { 3 } else { 6 });
    if kind == 0 {
        // An abbreviation that's in scope already.
        let us: Vec<_> = s.usable().into_iter().filter(|(_, a)| fits(a, &vals)).collect();
        if !us.is_empty() {
            let (id, a) = rng.pick(&us).clone();
            note_abbr(s, id, &a, &vals);
            s.abbreviated(id, &vals);
            return;
        }
    }
    if kind <= 1 && s.id_fits(s.next_abbrev_id()) && !s.in_blockinfo() {
        let a = abbr_for(rng, &vals);
        let id = s.next_abbrev_id();
        s.define(&a);
        note_abbr(s, id, &a, &vals);
        s.abbreviated(id, &vals);
        return;
    }
    let pad = if rng.chance(1, 12) { rng.next() | 1 } else { 0 };
    if pad != 0 {
        s.feats |= feat::PADDED;
    }
    s.unabbrev_pad(code, fields, pad);
}

pub fn note_abbr(s: &mut SW, id: u64, a: &Abbr, vals: &[u64]) {
    let bi = s.scopes.last().map(|v| v.registered).unwrap_or(0) as u64;
    let mut f = if id - 4 < bi { feat::BLOCKINFO_ABBREV_USED } else { feat::LOCAL_USED };
    if bi > 0 && id - 4 >= bi {
        f |= feat::MIXED_ORIGIN;
    }
    let mut n = 0;
    for op in a {
        match op {
            Op::Array(e) => {
                f |= feat::ARRAY;
                if **e == Op::Char6 {
                    f |= feat::CHAR6;
                }
                if vals.len() == n {
                    f |= feat::EMPTY_TAIL;
                }
            }
            Op::Blob => {
                f |= feat::BLOB;
                if vals.len() == n {
                    f |= feat::EMPTY_TAIL;
                }
            }
            Op::Char6 => f |= feat::CHAR6,
            Op::Fixed(0) | Op::Vbr(0) => f |= feat::ZERO_WIDTH,
            _ => {}
        }
        n += 1;
    }
    s.feats |= f;
}

/// Writes a BLOCKINFO block.
/// A BLOCKINFO block that registers these abbreviations.
pub fn put_blockinfo_with(rng: &mut Rng, s: &mut SW, sets: &[(u64, Vec<Abbr>)]) {
    s.feats |= feat::BLOCKINFO;
    let w = rng.ur(3, 5);
    s.enter(0, w);
    for (bid, abbrs) in sets {
        s.unabbrev(1, &[*bid]);
        for a in abbrs {
            s.define(a);
        }
    }
    s.exit();
}

pub fn put_blockinfo(rng: &mut Rng, s: &mut SW) {
    s.feats |= feat::BLOCKINFO;
    let w = rng.ur(3, 8);
    s.enter(0, w);
    let sets = rng.ur(0, 3);
    for _ in 0..sets {
        let bid = if rng.chance(1, 12) { 0 } else { random_block_id(rng) };
        let mut vals = vec![1, bid];
        if rng.chance(1, 10) {
            vals.push(rng.small());
        }
        let us: Vec<_> = s.usable().into_iter().filter(|(_, a)| fits(a, &vals)).collect();
        if !us.is_empty() && rng.bool() {
            s.feats |= feat::ABBREV_SETBID;
            let id = rng.pick(&us).0;
            s.abbreviated(id, &vals);
        } else {
            s.unabbrev(1, &vals[1..]);
        }
        for _ in 0..rng.us(4) {
            match rng.below(4) {
                0 => {
                    let c = rng.range(2, 3);
                    let f = random_fields(rng);
                    s.unabbrev(c, &f);
                }
                _ => {
                    // For BLOCKINFO itself: something that a later SETBID can use.
                    let a = if bid == 0 {
                        vec![Op::Lit(1), Op::Vbr(6)]
                    } else {
                        random_abbr(rng)
                    };
                    s.define(&a);
                }
            }
        }
    }
    s.exit();
}

pub struct Shape {
    pub steps: usize,
    pub max_depth: usize,
    pub abbrev_bias: bool,
    pub blockinfo: bool,
}

/// Writes random well-formed content; every block is closed at the end.
pub fn random_content(rng: &mut Rng, s: &mut SW, sh: &Shape) {
    let base = s.depth();
    let mut seen: Vec<u64> = vec![];
    for _ in 0..sh.steps {
        let d = s.depth();
        if d == base {
            // Blocks only.
            if sh.blockinfo && rng.chance(1, 4) {
                put_blockinfo(rng, s);
            } else {
                let id = random_block_id(rng);
                let w = random_width(rng);
                if seen.contains(&id) {
                    s.feats |= feat::REENTERED;
                }
                seen.push(id);
                if w > 16 {
                    s.feats |= feat::WIDE;
                }
                s.enter(id, w);
            }
            continue;
        }
        match rng.below(12) {
            0 | 1 => {
                if d - base < sh.max_depth {
                    if sh.blockinfo && rng.chance(1, 6) {
                        put_blockinfo(rng, s);
                    } else {
                        let id = random_block_id(rng);
                        let w = random_width(rng);
                        if seen.contains(&id) {
                            s.feats |= feat::REENTERED;
                        }
                        seen.push(id);
                        let pad = if rng.chance(1, 10) { rng.us(3) } else { 0 };
                        s.enter_pad(id, w, pad);
                        if d - base > 16 {
                            s.feats |= feat::DEEP;
                        }
                        if rng.chance(1, 6) {
                            s.feats |= feat::EMPTY_BLOCK;
                            s.exit();
                        }
                    }
                }
            }
            2 => s.exit(),
            3 => {
                if s.id_fits(s.next_abbrev_id()) || rng.chance(1, 4) {
                    let a = random_abbr(rng);
                    s.define(&a);
                }
            }
            4 | 5 => {
                let us = s.usable();
                if !us.is_empty() {
                    let (id, a) = rng.pick(&us).clone();
                    let vals = vals_for(rng, &a);
                    note_abbr(s, id, &a, &vals);
                    s.abbreviated(id, &vals);
                }
            }
            _ => {
                let code = random_code(rng);
                let f = random_fields(rng);
                put_record(rng, s, code, &f, sh.abbrev_bias);
            }
        }
    }
    while s.depth() > base {
        s.exit();
    }
}

pub fn random_stream(rng: &mut Rng, steps: usize) -> SW {
    let magic = random_magic(rng);
    let mut s = SW::new(magic);
    let max_depth = if rng.chance(1, 20) { 300 } else { rng.ur(1, 6) };
    let sh = Shape { steps, max_depth, abbrev_bias: rng.bool(), blockinfo: rng.chance(3, 4) };
    random_content(rng, &mut s, &sh);
    s
}

/// A stream in which something is far larger than usual.
pub fn random_large(rng: &mut Rng) -> (SW, &'static str) {
    use crate::mapgen::many;
    let mut s = SW::new(random_magic(rng));
    let tag = |s: &mut SW, rng: &mut Rng, n: u64| s.unabbrev(rng.below(8), &[n]);
    let what = match rng.below(8) {
        0 => {
            // Blocks in blocks, each with abbreviations and records of its own.
            let n = many(rng, 600);
            let local = rng.bool();
            let mut own: Vec<Option<u64>> = vec![];
            let after = |s: &mut SW, rng: &mut Rng, own: &[Option<u64>]| {
                if rng.bool() {
                    tag(s, rng, own.len() as u64);
                }
                if let Some(Some(id)) = own.last() {
                    if rng.bool() {
                        s.abbreviated(*id, &[own.len() as u64 & 7, 3]);
                    }
                }
            };
            for i in 0..n {
                let id = if rng.bool() { 8 + rng.below(4) } else { random_block_id(rng) };
                s.enter(id, rng.ur(3, 9));
                own.push((local && rng.bool()).then(|| {
                    let a = s.next_abbrev_id();
                    s.define(&vec![Op::Vbr(2 + i as u64 % 31), Op::Lit(3)]);
                    a
                }));
                after(&mut s, rng, &own);
            }
            for _ in 0..n {
                s.exit();
                own.pop();
                if s.depth() > 0 {
                    after(&mut s, rng, &own);
                }
            }
            "deep nesting"
        }
        1 => {
            // Abbreviations of one block, all of them different.
            let max = if rng.chance(1, 4) { 70_000 } else { 5000 };
            let n = many(rng, max);
            s.enter(9, rng.ur(17, 32));
            for i in 0..n {
                s.define(&vec![Op::Lit(i as u64), Op::Fixed(1 + i as u64 % 32)]);
            }
            for k in 0..40 {
                let i = match k {
                    0 => n - 1,
                    1 => 0,
                    _ => rng.us(n),
                };
                let v = rng.below(2);
                s.abbreviated(4 + i as u64, &[i as u64, v]);
            }
            tag(&mut s, rng, 1);
            s.exit();
            "many abbreviations"
        }
        2 => {
            // BLOCKINFO for many block IDs.
            let n = many(rng, 600);
            s.enter(0, 3);
            let start = rng.range(8, 40);
            let ids: Vec<u64> = (0..n as u64).map(|i| start + i * (1 + start % 3)).collect();
            for id in &ids {
                s.unabbrev(1, &[*id]);
                for _ in 0..rng.us(3) {
                    s.define(&vec![Op::Lit(*id), Op::Vbr(2 + id % 7)]);
                }
            }
            s.exit();
            for k in 0..40 {
                let id = match k {
                    0 => ids[n - 1],
                    1 => ids[0],
                    _ => *rng.pick(&ids),
                };
                s.enter(id, 5);
                for (a, _) in s.usable() {
                    s.abbreviated(a, &[id, k]);
                }
                tag(&mut s, rng, 1);
                s.exit();
            }
            "BLOCKINFO for many blocks"
        }
        3 => {
            // Many abbreviations in BLOCKINFO for one block ID.
            let n = many(rng, 2500);
            s.enter(0, 3);
            s.unabbrev(1, &[8]);
            for i in 0..n {
                s.define(&vec![Op::Lit(i as u64), Op::Fixed(1 + i as u64 % 32)]);
            }
            s.exit();
            s.enter(8, 14);
            for k in 0..20 {
                let i = if k == 0 { n - 1 } else { rng.us(n) };
                s.abbreviated(4 + i as u64, &[i as u64, 1]);
            }
            s.exit();
            "many abbreviations in BLOCKINFO"
        }
        4 => {
            // An abbreviation with many operands.
            let n = many(rng, 2500);
            s.enter(8, 5);
            let a: Abbr = (0..n)
                .map(|i| match rng.below(4) {
                    0 => Op::Lit(i as u64),
                    1 => Op::Fixed(1 + rng.below(32)),
                    2 => Op::Vbr(2 + rng.below(31)),
                    _ => Op::Char6,
                })
                .collect();
            s.define(&a);
            for _ in 0..3 {
                let v = vals_for(rng, &a);
                s.abbreviated(4, &v);
            }
            s.exit();
            "an abbreviation with many operands"
        }
        5 => {
            // A long run of blocks or records.
            let n = many(rng, 30_000) as u64;
            if rng.bool() {
                for i in 0..n {
                    s.enter(8 + i % 3, 3);
                    if rng.chance(1, 9) {
                        tag(&mut s, rng, i);
                    }
                    s.exit();
                }
            } else {
                s.enter(8, 3);
                for i in 0..n {
                    tag(&mut s, rng, i);
                    if rng.chance(1, 40) {
                        s.enter(9, 4);
                        s.exit();
                    }
                }
                s.exit();
            }
            "many entries"
        }
        6 => {
            // Much that isn't reported, between two entries.
            let n = many(rng, 20_000);
            match rng.below(3) {
                0 => {
                    s.enter(8, 20);
                    for _ in 0..n {
                        s.define(&vec![Op::Lit(7), Op::Vbr(6)]);
                    }
                    s.abbreviated(3 + n as u64, &[7, 1]);
                    s.exit();
                }
                1 => {
                    s.enter(8, 4);
                    for i in 0..n.min(6000) {
                        s.enter(0, 3);
                        if i % 16 == 0 {
                            s.unabbrev(1, &[9]);
                            s.define(&vec![Op::Lit(i as u64), Op::Vbr(6)]);
                        }
                        s.exit();
                    }
                    s.exit();
                    s.enter(9, 4);
                    for (a, d) in s.usable() {
                        if let Op::Lit(l) = d[0] {
                            s.abbreviated(a, &[l, 3]);
                        }
                    }
                    tag(&mut s, rng, 2);
                    s.exit();
                }
                _ => {
                    s.enter(0, 4);
                    s.unabbrev(1, &[9]);
                    for i in 0..n {
                        s.unabbrev(2 + i as u64 % 2, &[65, 66]);
                    }
                    s.define(&vec![Op::Lit(4), Op::Vbr(6)]);
                    s.exit();
                    s.enter(9, 4);
                    s.abbreviated(4, &[4, 5]);
                    s.exit();
                }
            }
            "much that isn't reported"
        }
        _ => {
            // More than a million operands.
            let n = (1 << 20) + rng.us(1000);
            s.enter(8, 4);
            let f: Vec<u64> = (0..n).map(|i| (i as u64 * 7) & 0xff).collect();
            match rng.below(3) {
                0 => s.unabbrev(5, &f),
                1 => {
                    let mut v = vec![5];
                    v.extend(&f);
                    s.define(&vec![Op::Lit(5), Op::Array(Box::new(Op::Fixed(8)))]);
                    s.abbreviated(4, &v);
                }
                _ => {
                    let mut v = vec![5];
                    v.extend(&f);
                    s.define(&vec![Op::Fixed(3), Op::Blob]);
                    s.abbreviated(4, &v);
                }
            }
            tag(&mut s, rng, 1);
            s.exit();
            "a million operands"
        }
    };
    if rng.bool() {
        // The rest is unharmed.
        let sh = Shape { steps: 20, max_depth: 3, abbrev_bias: true, blockinfo: true };
        random_content(rng, &mut s, &sh);
    }
    (s, what)
}

// ---------------------------------------------------------------------------------------------
// What the library reports.

#[derive(Clone, Debug)]
pub enum End {
    None,
    Err(String),
    Panic(Panic),
    /// More entries than the caller asked for.
    Limit,
}

pub fn ev_of(e: StreamEntry) -> Ev {
    match e {
        StreamEntry::EndBlock => Ev::Exit,
        StreamEntry::SubBlock(b) => Ev::Enter { id: b.block_id, len: b.len },
        StreamEntry::Record(r) => Ev::Rec { abbrev: r.abbrev_id, code: r.code, fields: r.fields },
    }
}

pub fn collect<T: AsRef<[u8]>>(bs: &mut Bitstream<T>, max: usize) -> (Vec<Ev>, End) {
    let mut evs = vec![];
    loop {
        if evs.len() >= max {
            return (evs, End::Limit);
        }
        match guard(|| bs.next()) {
            Err(p) => return (evs, End::Panic(p)),
            Ok(None) => return (evs, End::None),
            Ok(Some(Err(e))) => return (evs, End::Err(format!("{e:?}"))),
            Ok(Some(Ok(e))) => evs.push(ev_of(e)),
        }
    }
}

// ---------------------------------------------------------------------------------------------
// The reference decoder.

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Status {
    /// The data ends after the last top-level block.
    End,
    /// An error must be reported next.
    Bad(&'static str),
    /// The format doesn't say (or the library's limits apply): anything may follow.
    Unspec(&'static str),
}

struct RScope {
    id: u64,
    width: u64,
    abbrs: Vec<Abbr>,
    bid: Option<u64>,
}

pub struct RefOut {
    pub evs: Vec<Ev>,
    pub status: Status,
    /// Entries including the hidden ones.
    pub steps: u64,
}

/// Decodes a raw stream (magic first, length a multiple of four).
pub fn reference(data: &[u8]) -> RefOut {
    let mut evs = vec![];
    let mut steps = 0;
    let status = reference_into(data, &mut evs, &mut steps);
    RefOut { evs, status, steps }
}

macro_rules! vbr {
    ($r:expr, $w:expr) => {
        match $r.vbr($w) {
            ModelVbr::Value(v) => v,
            ModelVbr::Overlong(_) => return Status::Unspec("overlong VBR"),
            ModelVbr::Overflow => return Status::Bad("VBR overflow"),
            ModelVbr::Eof => return Status::Bad("data ends inside a VBR"),
        }
    };
}

macro_rules! fixed {
    ($r:expr, $w:expr) => {
        match $r.fixed($w) {
            Some(v) => v,
            None => return Status::Bad("data ends inside a field"),
        }
    };
}

fn reference_into(data: &[u8], evs: &mut Vec<Ev>, steps: &mut u64) -> Status {
    let mut r = ModelReader::new(data);
    if data.len() % 4 != 0 || data.len() < 4 {
        return Status::Bad("no magic, or not aligned");
    }
    r.fixed(32);
    let mut scopes: Vec<RScope> = vec![];
    let mut blockinfo: BTreeMap<u64, Vec<Abbr>> = BTreeMap::new();
    let mut total = 0usize;
    loop {
        if r.left() == 0 {
            return if scopes.is_empty() { Status::End } else { Status::Bad("data ends inside a block") };
        }
        *steps += 1;
        let width = scopes.last().map(|s| s.width).unwrap_or(2);
        if width > 32 {
            return Status::Unspec("abbreviation ID width above 32");
        }
        let Some(id) = r.fixed(width as usize) else { return Status::Bad("data ends inside an abbreviation ID") };
        match id {
            0 => {
                r.align32();
                match scopes.pop() {
                    None => return Status::Bad("END_BLOCK outside a block"),
                    Some(s) => {
                        if s.id != 0 {
                            evs.push(Ev::Exit);
                        }
                    }
                }
            }
            1 => {
                if scopes.last().map(|s| s.id == 0).unwrap_or(false) {
                    return Status::Unspec("block inside BLOCKINFO");
                }
                let bid = vbr!(r, 8);
                let w = vbr!(r, 4);
                r.align32();
                if w == 0 {
                    return Status::Bad("abbreviation ID width 0");
                }
                let len = fixed!(r, 32);
                if bid > u32::MAX as u64 {
                    return Status::Unspec("block ID above 32 bits");
                }
                if bid != 0 {
                    evs.push(Ev::Enter { id: bid, len: len * 4 });
                }
                let abbrs = blockinfo.get(&bid).cloned().unwrap_or_default();
                total += abbrs.len();
                if total > 1 << 22 {
                    return Status::Unspec("too large for the model");
                }
                scopes.push(RScope { id: bid, width: w, abbrs, bid: None });
                if bid == 0 {
                    blockinfo.clear();
                }
            }
            2 => {
                let n = vbr!(r, 5);
                if n == 0 {
                    return Status::Bad("abbreviation without operands");
                }
                let mut ops: Abbr = vec![];
                let mut i = 0;
                while i < n {
                    let lit = fixed!(r, 1);
                    if lit == 1 {
                        ops.push(Op::Lit(vbr!(r, 8)));
                        i += 1;
                        continue;
                    }
                    let enc = fixed!(r, 3);
                    match enc {
                        1 | 2 => {
                            let w = vbr!(r, 5);
                            if w > 32 || (enc == 2 && w == 1) {
                                return Status::Unspec("operand width");
                            }
                            ops.push(if enc == 1 { Op::Fixed(w) } else { Op::Vbr(w) });
                        }
                        3 => {
                            if i + 2 != n {
                                return Status::Bad("array not next to last");
                            }
                            if fixed!(r, 1) == 1 {
                                return Status::Bad("array of literal");
                            }
                            let e = match fixed!(r, 3) {
                                k @ (1 | 2) => {
                                    let w = vbr!(r, 5);
                                    if w == 0 || w > 32 || (k == 2 && w == 1) {
                                        return Status::Unspec("element width");
                                    }
                                    if k == 1 { Op::Fixed(w) } else { Op::Vbr(w) }
                                }
                                4 => Op::Char6,
                                3 | 5 => return Status::Bad("array of array or blob"),
                                _ => return Status::Bad("unknown element encoding"),
                            };
                            ops.push(Op::Array(Box::new(e)));
                            i += 1;
                        }
                        4 => ops.push(Op::Char6),
                        5 => {
                            if i + 1 != n {
                                return Status::Bad("blob not last");
                            }
                            ops.push(Op::Blob);
                        }
                        _ => return Status::Bad("unknown encoding"),
                    }
                    i += 1;
                }
                match scopes.last_mut() {
                    None => return Status::Unspec("abbreviation outside any block"),
                    Some(s) if s.id == 0 => match s.bid {
                        None => return Status::Bad("abbreviation in BLOCKINFO before SETBID"),
                        Some(b) => blockinfo.entry(b).or_default().push(ops),
                    },
                    Some(s) => s.abbrs.push(ops),
                }
            }
            _ => {
                let Some(s) = scopes.last_mut() else { return Status::Bad("record outside any block") };
                let mut vals: Vec<u64> = vec![];
                let mut abbrev = None;
                if id == 3 {
                    vals.push(vbr!(r, 6));
                    let n = vbr!(r, 6);
                    for _ in 0..n {
                        vals.push(vbr!(r, 6));
                    }
                } else {
                    abbrev = Some(id);
                    let Some(a) = s.abbrs.get((id - 4) as usize) else { return Status::Bad("undefined abbreviation") };
                    if matches!(a[0], Op::Array(_) | Op::Blob) {
                        return Status::Unspec("code from an array or blob");
                    }
                    for op in a {
                        match op {
                            Op::Array(e) => {
                                let n = vbr!(r, 6);
                                for _ in 0..n {
                                    let v = match &**e {
                                        Op::Fixed(w) => fixed!(r, *w as usize),
                                        Op::Vbr(w) => vbr!(r, *w as usize),
                                        _ => CHAR6[fixed!(r, 6) as usize] as u64,
                                    };
                                    vals.push(v);
                                }
                            }
                            Op::Blob => {
                                let n = vbr!(r, 6);
                                r.align32();
                                for _ in 0..n {
                                    vals.push(fixed!(r, 8));
                                }
                                r.align32();
                            }
                            Op::Lit(v) => vals.push(*v),
                            Op::Fixed(0) | Op::Vbr(0) => vals.push(0),
                            Op::Fixed(w) => vals.push(fixed!(r, *w as usize)),
                            Op::Vbr(w) => vals.push(vbr!(r, *w as usize)),
                            Op::Char6 => vals.push(CHAR6[fixed!(r, 6) as usize] as u64),
                        }
                    }
                }
                total += vals.len();
                if total > 1 << 22 {
                    return Status::Unspec("too large for the model");
                }
                if s.id == 0 {
                    match vals[0] {
                        1 => match vals.get(1) {
                            None => return Status::Bad("SETBID without a block ID"),
                            Some(b) => s.bid = Some(*b),
                        },
                        2 | 3 => {}
                        _ => return Status::Unspec("unknown record in BLOCKINFO"),
                    }
                } else {
                    let code = vals.remove(0);
                    evs.push(Ev::Rec { abbrev, code, fields: vals });
                }
            }
        }
    }
}

/// Compares what the library reported with what it had to.
pub fn judge(want: &[Ev], status: Status, got: &[Ev], end: &End) -> Option<String> {
    if let End::Panic(p) = end {
        return Some(format!("after {} entries: {p}", got.len()));
    }
    let n = want.len().min(got.len());
    if let Some(i) = (0..n).find(|i| want[*i] != got[*i]) {
        return Some(format!("entry {i} is {}, expected {}", got[i].short(), want[i].short()));
    }
    if got.len() < want.len() {
        return Some(format!(
            "after {} entries the parser reported {end:?}, expected {} (then {} more, then {status:?})",
            got.len(),
            want[got.len()].short(),
            want.len() - got.len() - 1
        ));
    }
    match status {
        Status::Unspec(_) => None,
        _ if got.len() > want.len() => Some(format!("entry {} is {}, but {status:?} was due", want.len(), got[want.len()].short())),
        Status::End if !matches!(end, End::None) => Some(format!("the stream ends after {} entries, but the parser reported {end:?}", got.len())),
        Status::Bad(why) if !matches!(end, End::Err(_)) => Some(format!("after {} entries an error was due ({why}), but the parser reported {end:?}", got.len())),
        _ => None,
    }
}
