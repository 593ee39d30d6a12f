//! C01 to C03: the bit cursor, against a bit-by-bit model.

use super::*;
use crate::bits::*;
use crate::ctx::*;
use crate::util::*;
use llvm_bitcursor::BitCursor;
use std::cell::Cell;
use std::io::{Seek, SeekFrom};

/// A buffer that counts how often it's accessed, and stops a runaway reader.
#[derive(Clone, Copy)]
pub struct StepBuf<'a> {
    pub data: &'a [u8],
    pub left: &'a Cell<u64>,
}

impl<'a> AsRef<[u8]> for StepBuf<'a> {
    fn as_ref(&self) -> &[u8] {
        let l = self.left.get();
        if l == 0 {
            std::panic::panic_any(OutOfSteps);
        }
        self.left.set(l - 1);
        self.data
    }
}

/// How the cursor under test is limited.
fn access(cx: &mut Ctx, data: &mut Vec<u8>) -> Option<usize> {
    match cx.rng.below(3) {
        0 => None,
        1 => Some(data.len()),
        _ => {
            // Junk after the accessible part, which must stay invisible.
            let n = data.len();
            let extra = cx.rng.ur(1, 20);
            let junk = if cx.rng.bool() { vec![0xff; extra] } else { cx.rng.bytes(extra) };
            data.extend(junk);
            Some(n)
        }
    }
}

fn patterned(rng: &mut Rng, n: usize) -> Vec<u8> {
    match rng.below(5) {
        0 => vec![0xff; n],
        1 => (0..n).map(|i| i as u8).collect(),
        2 => vec![0x55; n],
        _ => rng.bytes(n),
    }
}

pub fn open<'a>(data: &'a [u8], limit: Option<usize>) -> BitCursor<&'a [u8]> {
    match limit {
        None => BitCursor::new(data),
        Some(n) => BitCursor::new_with_len(data, n).expect("accessible length within the buffer"),
    }
}

pub static C01: Prop = Prop {
    id: "C01",
    run: c01,
    cases: unlimited,
    min_cases: |_| 19,
    secs: default_secs,
    hang_secs: 30,
    rule: "Cases: for every buffer length 0..18 bytes, every bit position and every width 1..63 (three ways of reaching the position, one of them with junk past the accessible length), then random buffers up to 200 bytes read with random width sequences, typed reads into ten integer types, and invalid widths. Oracle: bit-by-bit model. Distinct: (position mod 64, width, whether the read ends in the last partial word, result kind).",
    assumptions: &["the state of a cursor after a failed read is unspecified; the monitor repositions it before judging further reads"],
};

fn c01(cx: &mut Ctx) {
    if cx.case < 19 {
        return c01_exhaustive(cx, cx.case as usize);
    }
    for _ in 0..20 {
        c01_random(cx);
    }
}

fn bump(cx: &mut Ctx, pos: usize, len: usize, n: usize, kind: u64) {
    let tail = (len * 8) % 64 != 0 && pos / 64 != (len * 8) / 64 && pos.saturating_add(n) / 64 == (len * 8) / 64;
    cx.distinct(Fnv::new().u((pos % 64) as u64).u(n as u64).u(tail as u64).u(kind).0);
}

fn check_read(cx: &mut Ctx, c: &mut BitCursor<&[u8]>, data: &[u8], acc: usize, pos: usize, n: usize, how: &str) -> Option<usize> {
    let want = if (1..64).contains(&n) { model_bits(&data[..acc], pos, n) } else { None };
    let got = cx.guarded("read", data, || c.read(n))?;
    cx.eval();
    match (want, got) {
        (Some(w), Ok(g)) if w == g => {
            bump(cx, pos, acc, n, 0);
            let t = c.tell_bit();
            if t != pos + n {
                cx.violation("position", format!("{how}: read({n}) at bit {pos} of {acc} bytes left the cursor at bit {t}, not {}", pos + n), data);
                return None;
            }
            Some(pos + n)
        }
        (None, Err(_)) => {
            bump(cx, pos, acc, n, 1);
            cx.count("reads refused", 1);
            None
        }
        (w, g) => {
            cx.violation(
                "read",
                format!("{how}: read({n}) at bit {pos} of {acc} accessible bytes ({} in the buffer) gave {g:?}, expected {w:?}; data {}", data.len(), hex(data)),
                data,
            );
            None
        }
    }
}

fn c01_exhaustive(cx: &mut Ctx, len: usize) {
    for junk in [0usize, 9] {
        let mut data = cx.rng.bytes(len);
        data.extend(vec![0xffu8; junk]);
        let limit = if junk == 0 { None } else { Some(len) };
        for pos in 0..=len * 8 {
            for n in 1..64usize {
                for how in 0..3 {
                    let mut c = open(&data, limit);
                    let ok = match how {
                        0 => guard(|| c.seek_bit(pos).is_ok()),
                        1 => guard(|| {
                            // Sequential reads of random widths.
                            let mut p = 0;
                            while p < pos {
                                let k = (pos - p).min(cx.rng.ur(1, 63));
                                if c.read(k).is_err() {
                                    return false;
                                }
                                p += k;
                            }
                            true
                        }),
                        _ => guard(|| {
                            c.seek(SeekFrom::Start((pos / 8) as u64)).is_ok()
                                && (pos % 8 == 0 || c.read(pos % 8).is_ok())
                        }),
                    };
                    match ok {
                        Ok(true) => {}
                        Ok(false) => {
                            cx.violation("reach", format!("couldn't reach bit {pos} of {len} bytes (way {how})"), &data);
                            return;
                        }
                        Err(p) => {
                            cx.violation("panic", format!("reaching bit {pos} of {len} bytes: {p}"), &data);
                            return;
                        }
                    }
                    check_read(cx, &mut c, &data, len, pos, n, ["seek_bit", "sequential", "byte seek"][how]);
                    if !cx.violations.is_empty() {
                        return;
                    }
                }
            }
        }
    }
    cx.count("lengths enumerated (every position and width)", 1);
}

macro_rules! typed {
    ($cx:expr, $c:expr, $data:expr, $acc:expr, $pos:expr, $n:expr, $t:ty) => {{
        let want: Option<$t> = if (1..64).contains(&$n) {
            model_bits(&$data[..$acc], $pos, $n).and_then(|v| <$t>::try_from(v).ok())
        } else {
            None
        };
        let got = $cx.guarded("read_as", $data, || $c.read_as::<$t>($n));
        $cx.eval();
        $cx.count("typed reads", 1);
        match (want, got) {
            (_, None) => None,
            (Some(w), Some(Ok(g))) if w == g => {
                bump($cx, $pos, $acc, $n, 2);
                Some($pos + $n)
            }
            (None, Some(Err(_))) => None,
            (w, Some(g)) => {
                $cx.violation(
                    "typed-read",
                    format!("read_as::<{}>({}) at bit {} of {} bytes gave {:?}, expected {:?}", stringify!($t), $n, $pos, $acc, g, w),
                    $data,
                );
                None
            }
        }
    }};
}

macro_rules! exact {
    ($cx:expr, $c:expr, $data:expr, $acc:expr, $pos:expr, $t:ty) => {{
        let n = <$t>::BITS as usize;
        let want: Option<$t> = if n < 64 {
            model_bits(&$data[..$acc], $pos, n).and_then(|v| <$t>::try_from(v).ok())
        } else {
            None
        };
        let got = $cx.guarded("read_exact", $data, || $c.read_exact::<$t>());
        $cx.eval();
        $cx.count("exact reads", 1);
        match (want, got) {
            (_, None) => None,
            (Some(w), Some(Ok(g))) if w == g => Some($pos + n),
            (None, Some(Err(_))) => None,
            (w, Some(g)) => {
                $cx.violation(
                    "exact-read",
                    format!("read_exact::<{}>() at bit {} of {} bytes gave {:?}, expected {:?}", stringify!($t), $pos, $acc, g, w),
                    $data,
                );
                None
            }
        }
    }};
}

fn c01_random(cx: &mut Ctx) {
    let n = if cx.rng.chance(1, 4) { cx.rng.ur(0, 200) } else { cx.rng.ur(0, 34) };
    let mut data = patterned(&mut cx.rng, n);
    let limit = access(cx, &mut data);
    let acc = limit.unwrap_or(data.len());
    cx.sample(|| format!("{} bytes, {} accessible: {}", data.len(), acc, hex(&data)));
    let mut c = open(&data, limit);
    if limit.is_none() && cx.rng.chance(1, 8) {
        // A limit past the buffer is refused.
        cx.eval();
        let over = data.len() + 1 + cx.rng.us(5);
        let over = if cx.rng.chance(1, 4) { usize::MAX } else { over };
        match guard(|| BitCursor::new_with_len(&data[..], over).is_ok()) {
            Ok(false) => {}
            Ok(true) => cx.violation("limit", format!("a limit of {over} bytes was accepted for {} bytes", data.len()), &data),
            Err(p) => cx.violation("panic", format!("{p}"), &data),
        }
    }
    let mut pos = 0usize;
    let style = cx.rng.below(4);
    let mut fails = 0;
    for _ in 0..200 {
        let w = match style {
            0 => cx.rng.ur(1, 63),
            1 => cx.rng.ur(1, 8),
            2 => *cx.rng.pick(&[8, 16, 32, 31, 33, 63, 1]),
            _ => match cx.rng.below(10) {
                0 => 0,
                1 => 64,
                2 => *cx.rng.pick(&[65, 128, 1 << 20, usize::MAX, usize::MAX - 7, 1 << 63]),
                _ => cx.rng.ur(1, 63),
            },
        };
        let d = &data[..];
        let next = match cx.rng.below(16) {
            0 => typed!(cx, c, d, acc, pos, w, u8),
            1 => typed!(cx, c, d, acc, pos, w, i8),
            2 => typed!(cx, c, d, acc, pos, w, u16),
            3 => typed!(cx, c, d, acc, pos, w, i16),
            4 => typed!(cx, c, d, acc, pos, w, u32),
            5 => typed!(cx, c, d, acc, pos, w, i32),
            6 => typed!(cx, c, d, acc, pos, w, u64),
            7 => typed!(cx, c, d, acc, pos, w, i64),
            8 => typed!(cx, c, d, acc, pos, w, usize),
            9 => match cx.rng.below(8) {
                0 => exact!(cx, c, d, acc, pos, u8),
                1 => exact!(cx, c, d, acc, pos, i8),
                2 => exact!(cx, c, d, acc, pos, u16),
                3 => exact!(cx, c, d, acc, pos, i16),
                4 => exact!(cx, c, d, acc, pos, u32),
                5 => exact!(cx, c, d, acc, pos, i32),
                6 => exact!(cx, c, d, acc, pos, u64),
                _ => exact!(cx, c, d, acc, pos, i64),
            },
            _ => check_read(cx, &mut c, d, acc, pos, w, "random"),
        };
        if !cx.violations.is_empty() {
            return;
        }
        match next {
            Some(p) => {
                pos = p;
                let t = c.tell_bit();
                if t != pos {
                    cx.violation("position", format!("a read left the cursor at bit {t}, not {pos}"), &data);
                    return;
                }
            }
            None => {
                // Refused: reposition, and go on a few times.
                fails += 1;
                if fails > 6 {
                    break;
                }
                pos = cx.rng.us(acc * 8 + 1);
                match guard(|| c.seek_bit(pos).is_ok()) {
                    Ok(true) => {}
                    r => {
                        cx.violation("reach", format!("couldn't seek to bit {pos} of {acc} bytes: {r:?}"), &data);
                        return;
                    }
                }
            }
        }
    }
}

pub static C02: Prop = Prop {
    id: "C02",
    run: c02,
    cases: unlimited,
    min_cases: |_| 40,
    secs: default_secs,
    hang_secs: 30,
    rule: "Cases: every chunk width 2..32 with boundary and random 64-bit values, encoded minimally or with redundant zero chunks within 64 bits, at every bit offset, followed by a sentinel; encodings whose payload exceeds 64 bits, with continuation past bit 64, cut short anywhere, or random chunks; signed values through the sign-rotated encoding; widths outside 2..32. Oracle: 128-bit model decoder. Distinct: (width, number of chunks, top payload bit, outcome, signedness).",
    assumptions: &["encodings with all-zero chunks beyond 64 payload bits may be accepted (as their value) or refused"],
};

fn c02(cx: &mut Ctx) {
    for _ in 0..60 {
        c02_one(cx);
        if !cx.violations.is_empty() {
            return;
        }
    }
}

fn c02_one(cx: &mut Ctx) {
    let rng = &mut cx.rng;
    let width = rng.ur(2, 32);
    let d = width - 1;
    let mut w = BitWriter::new();
    let off = rng.us(100);
    for _ in 0..off {
        let b = rng.next() & 1;
        w.put(b, 1);
    }
    let start = w.nbits;
    let max_chunks = (64 + d - 1) / d;
    let kind = rng.below(10);
    match kind {
        0..=3 => {
            let v = rng.wild();
            let need = vbr_chunks(v, width);
            let pad = if rng.chance(1, 3) { rng.us(max_chunks - need + 1) } else { 0 };
            w.vbr_pad(v, width, pad);
        }
        4 => {
            // A boundary of the width.
            let k = rng.ur(1, max_chunks);
            let b = (k * d).min(63);
            let v = (1u64 << b).wrapping_sub(rng.below(2));
            w.vbr(v, width);
        }
        5 => {
            // The signed extremes.
            let s = match rng.below(5) {
                0 => i64::MIN,
                1 => i64::MAX,
                2 => i64::MIN + 1,
                3 => -1,
                _ => rng.wild() as i64,
            };
            w.vbr(svbr_encode(s), width);
        }
        6 => {
            // All 64-bit positions used, then more.
            let n = max_chunks + rng.us(3);
            for i in 0..n {
                let p = rng.wild_bits(d as u32);
                w.put(p, d);
                w.put((i != n - 1) as u64, 1);
            }
        }
        7 => {
            // Zero chunks for long, then something beyond 64 bits.
            let n = max_chunks + rng.us(200);
            for i in 0..n {
                let p = if i == n - 1 { rng.wild_bits(d as u32) } else if rng.chance(1, 40) { 1 } else { 0 };
                w.put(p, d);
                w.put((i != n - 1) as u64, 1);
            }
        }
        8 => {
            // Never terminated.
            let n = rng.us(40);
            for _ in 0..n {
                let p = rng.wild_bits(d as u32);
                w.put(p, d);
                w.put(1, 1);
            }
        }
        _ => {
            let n = rng.us(120);
            for _ in 0..n {
                let b = rng.next() & 1;
                w.put(b, 1);
            }
        }
    }
    if rng.chance(1, 2) {
        let s = rng.next();
        w.put(s, 64);
    }
    let mut data = w.bytes;
    if rng.chance(1, 6) {
        let n = rng.us(data.len() + 1);
        data.truncate(n);
    }
    if start > data.len() * 8 {
        return;
    }
    let signed = cx.rng.chance(1, 3);
    let bad_width = cx.rng.chance(1, 12);
    let steps = Cell::new(2000 + 64 * data.len() as u64);
    let mut c = BitCursor::new(StepBuf { data: &data, left: &steps });
    if cx.guarded("seek_bit", &data, || c.seek_bit(start).is_ok()) != Some(true) {
        return;
    }
    if bad_width {
        let bw = *cx.rng.pick(&[0usize, 1, 33, 34, 40, 63, 64, 65, 128, usize::MAX, 1 << 32]);
        cx.eval();
        let r = if signed {
            cx.guarded("read_svbr", &data, || c.read_svbr(bw).map(|v| v as i128))
        } else {
            cx.guarded("read_vbr", &data, || c.read_vbr(bw).map(|v| v as i128))
        };
        if let Some(Ok(v)) = r {
            cx.violation("width", format!("a VBR of width {bw} was read as {v}"), &data);
        }
        cx.count("invalid widths refused", 1);
        return;
    }
    let mut m = ModelReader { data: &data, pos: start };
    let want = m.vbr(width);
    cx.eval();
    let got = if signed {
        cx.guarded("read_svbr", &data, || c.read_svbr(width).map(|v| v as i128))
    } else {
        cx.guarded("read_vbr", &data, || c.read_vbr(width).map(|v| v as i128))
    };
    let Some(got) = got else { return };
    let dec = |v: u64| if signed { svbr_decode(v) } else { v as i128 };
    let chunks = (m.pos - start) / width;
    let mut top = 0;
    let fail = match (want, &got) {
        (ModelVbr::Value(v), Ok(g)) => {
            top = 64 - v.leading_zeros();
            *g != dec(v) || c.tell_bit() != m.pos
        }
        (ModelVbr::Value(_), Err(_)) => true,
        (ModelVbr::Overlong(v), Ok(g)) => *g != dec(v) || c.tell_bit() != m.pos,
        (ModelVbr::Overlong(_), Err(_)) => false,
        (ModelVbr::Overflow | ModelVbr::Eof, Ok(_)) => true,
        (ModelVbr::Overflow | ModelVbr::Eof, Err(_)) => false,
    };
    cx.count(
        match want {
            ModelVbr::Value(_) => "values decoded",
            ModelVbr::Overflow => "overflows refused",
            ModelVbr::Eof => "cut-off encodings refused",
            ModelVbr::Overlong(_) => "overlong encodings (unjudged if refused)",
        },
        1,
    );
    let okind = match want {
        ModelVbr::Value(_) => 0,
        ModelVbr::Overflow => 1,
        ModelVbr::Eof => 2,
        ModelVbr::Overlong(_) => 3,
    };
    cx.distinct(Fnv::new().u(width as u64).u(chunks as u64).u(top as u64).u(okind).u(signed as u64).0);
    cx.sample(|| format!("{} width {width} at bit {start}: model {want:?}, cursor {got:?}", if signed { "svbr" } else { "vbr" }));
    if fail {
        let t = c.tell_bit();
        cx.violation(
            "vbr",
            format!(
                "{} of width {width} at bit {start}: got {got:?} with the cursor at bit {t}; expected {want:?}{} ending at bit {}; data {}",
                if signed { "signed VBR" } else { "VBR" },
                if signed { " (before sign rotation)" } else { "" },
                m.pos,
                hex(&data)
            ),
            &data,
        );
    }
}

pub static C03: Prop = Prop {
    id: "C03",
    run: c03,
    cases: unlimited,
    min_cases: |_| 40,
    secs: default_secs,
    hang_secs: 30,
    rule: "Cases: random histories of up to 60 reads, VBR reads, bit seeks, byte seeks (start, end, current, with in-range, boundary and extreme offsets) and alignments over buffers of 0 to 70 bytes, with and without a length limit; positions, exhaustion and lengths are compared with the model after every operation. Distinct: (operation, outcome, position mod 64, length mod 8, previous operation).",
    assumptions: &[
        "alignment boundaries count from the start of the data, or from the target of the last byte-granular seek (bit seeks count from the start)",
        "after a refused read or a refused bit seek the position is unspecified until the next absolute seek",
        "a seek relative to the current position starts from the byte that holds the current bit",
    ],
};

/// Zeroed memory of which only the touched pages exist; the monitor of allocations doesn't see it.
pub struct Sparse(*mut u8, std::alloc::Layout);

impl Sparse {
    pub fn new(len: usize) -> Sparse {
        let l = std::alloc::Layout::array::<u8>(len).unwrap();
        let p = unsafe { std::alloc::GlobalAlloc::alloc_zeroed(&std::alloc::System, l) };
        assert!(!p.is_null(), "no memory for {len} bytes");
        Sparse(p, l)
    }
    pub fn bytes(&mut self) -> &mut [u8] {
        unsafe { std::slice::from_raw_parts_mut(self.0, self.1.size()) }
    }
}

impl Drop for Sparse {
    fn drop(&mut self) {
        unsafe { std::alloc::GlobalAlloc::dealloc(&std::alloc::System, self.0, self.1) }
    }
}

/// Around the bit or byte where 32-bit positions end, in a buffer whose pages are mostly untouched.
fn c03_large(cx: &mut Ctx, mid: usize) {
    let len = mid + 4096 + cx.rng.us(9);
    let mut memory = Sparse::new(len);
    let data = memory.bytes();
    let mut spots = vec![];
    for at in [0, mid - 64, len - 64] {
        let r = cx.rng.bytes(64);
        data[at..at + 64].copy_from_slice(&r);
        spots.push(at);
    }
    let r = cx.rng.bytes(64);
    data[mid..mid + 64].copy_from_slice(&r);
    spots.push(mid);
    let bits = len * 8;
    let data: &[u8] = data;
    let mut c = BitCursor::new(data);
    for _ in 0..4000 {
        let at = *cx.rng.pick(&spots);
        let p = at * 8 + cx.rng.us(500);
        let ok = match cx.rng.below(4) {
            0 => guard(|| c.seek_bit(p).is_ok()).map(|b| b.then_some(p)),
            1 => guard(|| c.seek(SeekFrom::Start(p as u64 / 8)).ok() == Some(p as u64 / 8)).map(|b| b.then_some(p / 8 * 8)),
            2 => guard(|| c.seek(SeekFrom::End(p as i64 / 8 - len as i64)).ok() == Some(p as u64 / 8)).map(|b| b.then_some(p / 8 * 8)),
            _ => {
                let cur = c.tell_byte();
                guard(|| c.seek(SeekFrom::Current(p as i64 / 8 - cur as i64)).ok() == Some(p as u64 / 8)).map(|b| b.then_some(p / 8 * 8))
            }
        };
        cx.eval();
        let mut pos = match ok {
            Ok(Some(p)) => p,
            Ok(None) => return cx.violation("large", format!("a seek to bit {p} of {bits} failed"), &[]),
            Err(e) => return cx.violation("panic", format!("seeking to bit {p} of {bits}: {e}"), &[]),
        };
        for _ in 0..3 {
            let w = cx.rng.ur(1, 63);
            let want = model_bits(data, pos, w);
            let aligned = cx.rng.chance(1, 4);
            let got = match guard(|| {
                if aligned {
                    c.align32();
                }
                c.read(w).ok()
            }) {
                Ok(g) => g,
                Err(e) => return cx.violation("panic", format!("read({w}) at bit {pos} of {bits}: {e}"), &[]),
            };
            if aligned {
                // Seeks of this test's kinds to multiples of four bytes keep the boundaries.
                break;
            }
            if got != want {
                return cx.violation("large", format!("read({w}) at bit {pos} of {bits} gave {got:?}, expected {want:?}"), &[]);
            }
            if got.is_none() {
                break;
            }
            pos += w;
            let t = (c.tell_bit(), c.tell_byte(), c.exhausted(), c.byte_len(), c.bit_len());
            let sp = c.stream_position().ok();
            if sp != Some(pos as u64 / 8) {
                return cx.violation("large", format!("stream position {sp:?} at bit {pos} of {bits}"), &[]);
            }
            if t != (pos, pos / 8, pos == bits, len, bits) {
                return cx.violation("large", format!("state {t:?} at bit {pos} of {bits}"), &[]);
            }
        }
    }
    cx.count(&format!("operations around byte {mid}"), 4000);
}

fn c03(cx: &mut Ctx) {
    if cx.case == 3 {
        return c03_large(cx, 1 << 29);
    }
    if cx.case == 5 {
        return c03_large(cx, 1 << 32);
    }
    for _ in 0..30 {
        c03_history(cx);
        if !cx.violations.is_empty() {
            return;
        }
    }
}

fn c03_history(cx: &mut Ctx) {
    let n = cx.rng.us(70);
    let n = if cx.rng.bool() { n } else { n % 20 };
    let mut data = patterned(&mut cx.rng, n);
    let limit = access(cx, &mut data);
    let len = limit.unwrap_or(data.len());
    let bits = len * 8;
    let mut c = open(&data, limit);
    let mut pos = 0usize;
    let mut base = 0usize;
    let mut log: Vec<String> = vec![];
    let mut prev = 99u64;
    let ops = cx.rng.ur(1, 60);
    for _ in 0..ops {
        let op = cx.rng.below(9);
        let mut lost = false;
        let mut bad: Option<String> = None;
        let mut outcome = 0u64;
        macro_rules! call {
            ($e:expr) => {
                match guard(|| $e) {
                    Ok(r) => r,
                    Err(p) => {
                        cx.violation("panic", format!("{p} in history {} (then the last operation) on {len} bytes", log.join(", ")), &data);
                        return;
                    }
                }
            };
        }
        match op {
            0 | 1 => {
                let w = if op == 0 { cx.rng.ur(1, 63) } else { cx.rng.ur(1, 9) };
                log.push(format!("read({w})"));
                match (model_bits(&data[..len], pos, w), call!(c.read(w))) {
                    (Some(a), Ok(b)) if a == b => pos += w,
                    (None, Err(_)) => lost = true,
                    (a, b) => bad = Some(format!("read {b:?}, expected {a:?}")),
                }
            }
            2 => {
                let w = cx.rng.ur(2, 32);
                log.push(format!("read_vbr({w})"));
                let mut m = ModelReader { data: &data[..len], pos };
                match (m.vbr(w), call!(c.read_vbr(w))) {
                    (ModelVbr::Value(a), Ok(b)) if a == b => pos = m.pos,
                    (ModelVbr::Overlong(a), Ok(b)) if a == b => pos = m.pos,
                    (ModelVbr::Value(a), b) => bad = Some(format!("read {b:?}, expected {a:?}")),
                    (_, Err(_)) => lost = true,
                    (a, b) => bad = Some(format!("read {b:?}, expected {a:?}")),
                }
            }
            3 => {
                let p = match cx.rng.below(10) {
                    0 => bits,
                    1 => bits + 1 + cx.rng.us(70),
                    2 => *cx.rng.pick(&[usize::MAX, usize::MAX - 7, 1 << 63, usize::MAX / 8, usize::MAX / 8 + 1, 1 << 32]),
                    3 => bits.saturating_sub(cx.rng.us(70)),
                    _ => cx.rng.us(bits + 1),
                };
                log.push(format!("seek_bit({p})"));
                let r = call!(c.seek_bit(p));
                outcome = r.is_ok() as u64;
                if r.is_ok() != (p <= bits) {
                    bad = Some(format!("gave {r:?}"));
                } else if r.is_ok() {
                    pos = p;
                    base = 0;
                } else {
                    lost = true;
                }
            }
            4..=6 => {
                let near = |rng: &mut Rng| -> i64 {
                    match rng.below(8) {
                        0 => i64::MIN + rng.below(2) as i64,
                        1 => i64::MAX - rng.below(2) as i64,
                        2 => 0,
                        3 => -(rng.us(2 * len + 3) as i64),
                        4 => len as i64,
                        5 => rng.wild() as i64,
                        _ => rng.us(2 * len + 3) as i64,
                    }
                };
                let (from, target) = match op {
                    4 => {
                        let o = match cx.rng.below(6) {
                            0 => len as u64,
                            1 => len as u64 + 1 + cx.rng.below(9),
                            2 => cx.rng.wild(),
                            _ => cx.rng.us(len + 1) as u64,
                        };
                        (SeekFrom::Start(o), o as i128)
                    }
                    5 => {
                        let o = near(&mut cx.rng);
                        (SeekFrom::End(o), len as i128 + o as i128)
                    }
                    _ => {
                        let o = near(&mut cx.rng);
                        (SeekFrom::Current(o), (pos / 8) as i128 + o as i128)
                    }
                };
                log.push(format!("seek({from:?})"));
                let ok = (0..=len as i128).contains(&target);
                let r = call!(c.seek(from));
                outcome = 2 + r.is_ok() as u64;
                match (ok, r) {
                    (true, Ok(t)) if t as i128 == target => {
                        pos = target as usize * 8;
                        base = pos;
                    }
                    (false, Err(_)) => {}
                    (_, r) => bad = Some(format!("gave {r:?}, target {target}")),
                }
            }
            _ => {
                log.push("align32".into());
                call!(c.align32());
                pos = (base + (pos - base + 31) / 32 * 32).min(bits);
                // From a position before the base (only after a bit seek, where the base is 0).
            }
        }
        cx.eval();
        if let Some(b) = bad {
            cx.violation("operation", format!("{b} in history [{}] on {len} accessible bytes of {}", log.join(", "), hex(&data)), &data);
            return;
        }
        cx.count(
            ["reads", "reads", "vbr reads", "bit seeks", "byte seeks", "byte seeks", "byte seeks", "alignments", "alignments"][op as usize],
            1,
        );
        cx.distinct(Fnv::new().u(op).u(prev).u(outcome).u((pos % 64) as u64).u((len % 8) as u64).u(lost as u64).0);
        prev = op;
        if lost {
            pos = cx.rng.us(bits + 1);
            if cx.rng.bool() {
                log.push(format!("seek_bit({pos})"));
                if let Err(e) = call!(c.seek_bit(pos)) {
                    cx.violation("operation", format!("seek_bit({pos}) failed ({e:?}) in history [{}] on {len} bytes", log.join(", ")), &data);
                    return;
                }
                base = 0;
            } else {
                pos = pos / 8 * 8;
                base = pos;
                log.push(format!("seek(Start({}))", pos / 8));
                if let Err(e) = call!(c.seek(SeekFrom::Start(pos as u64 / 8))) {
                    cx.violation("operation", format!("seek to byte {} failed ({e:?}) in history [{}] on {len} bytes", pos / 8, log.join(", ")), &data);
                    return;
                }
            }
        }
        let got = (c.tell_bit(), c.tell_byte(), c.exhausted(), c.byte_len(), c.bit_len());
        let want = (pos, pos / 8, pos == bits, len, bits);
        if cx.rng.chance(1, 4) {
            let sp = match guard(|| c.stream_position().ok()) {
                Ok(p) => p,
                Err(p) => return cx.violation("panic", format!("stream_position(): {p} after [{}] on {len} bytes", log.join(", ")), &data),
            };
            if sp != Some(pos as u64 / 8) {
                return cx.violation("state", format!("stream_position() is {sp:?} at bit {pos}, after [{}] on {len} accessible bytes of {}", log.join(", "), hex(&data)), &data);
            }
            cx.count("stream positions", 1);
        }
        if got != want {
            cx.violation(
                "state",
                format!("(tell_bit, tell_byte, exhausted, byte_len, bit_len) is {got:?}, expected {want:?}, after [{}] on {len} accessible bytes of {}", log.join(", "), hex(&data)),
                &data,
            );
            return;
        }
    }
    cx.sample(|| format!("{len} bytes: {}", log.join(", ")));
}
