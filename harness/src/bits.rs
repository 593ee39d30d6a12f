//! Writing bitstreams bit by bit, and the model of reading them.

/// A little-endian bit writer.
#[derive(Clone, Default, Debug)]
pub struct BitWriter {
    pub bytes: Vec<u8>,
    pub nbits: usize,
}

impl BitWriter {
    pub fn new() -> Self {
        Self::default()
    }
    /// Appends the `n` low bits of `v`.
    pub fn put(&mut self, v: u64, n: usize) {
        debug_assert!(n <= 64);
        debug_assert!(n == 64 || v >> n == 0, "{v} doesn't fit {n} bits");
        let mut v = v as u128;
        let mut n = n;
        while n > 0 {
            let off = self.nbits % 8;
            if off == 0 {
                self.bytes.push(0);
            }
            let take = (8 - off).min(n);
            let part = (v & ((1 << take) - 1)) as u8;
            *self.bytes.last_mut().unwrap() |= part << off;
            v >>= take;
            n -= take;
            self.nbits += take;
        }
    }
    /// Appends a VBR integer of the given chunk width, with `pad` redundant chunks.
    pub fn vbr_pad(&mut self, v: u64, width: usize, pad: usize) {
        let d = width - 1;
        let mut v = v;
        let mut chunks = vec![];
        loop {
            chunks.push(if d >= 64 { v } else { v & ((1u64 << d) - 1) });
            v = if d >= 64 { 0 } else { v >> d };
            if v == 0 {
                break;
            }
        }
        for _ in 0..pad {
            chunks.push(0);
        }
        let last = chunks.len() - 1;
        for (i, c) in chunks.into_iter().enumerate() {
            self.put(c, d);
            self.put((i != last) as u64, 1);
        }
    }
    pub fn vbr(&mut self, v: u64, width: usize) {
        self.vbr_pad(v, width, 0)
    }
    pub fn align32(&mut self) {
        while self.nbits % 32 != 0 {
            let n = (32 - self.nbits % 32).min(64);
            self.put(0, n);
        }
    }
    /// Overwrites 32 bits at a byte offset.
    pub fn patch32(&mut self, byte: usize, v: u32) {
        self.bytes[byte..byte + 4].copy_from_slice(&v.to_le_bytes());
    }
}

/// The number of redundant zero chunks that a VBR of this width can have while staying within
/// 64 bits of payload positions.
pub fn vbr_chunks(v: u64, width: usize) -> usize {
    let d = width - 1;
    let bits = (64 - v.leading_zeros() as usize).max(1);
    (bits + d - 1) / d
}

/// The model: `n` bits at bit position `pos`, least significant first.
pub fn model_bits(data: &[u8], pos: usize, n: usize) -> Option<u64> {
    if n > 64 || pos.checked_add(n)? > data.len() * 8 {
        return None;
    }
    let mut v = 0u64;
    for i in 0..n {
        let p = pos + i;
        let b = (data[p / 8] >> (p % 8)) & 1;
        v |= (b as u64) << i;
    }
    Some(v)
}

/// A reading position over data: the reference for everything the cursor does.
#[derive(Clone, Debug)]
pub struct ModelReader<'a> {
    pub data: &'a [u8],
    pub pos: usize,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum ModelVbr {
    Value(u64),
    /// The payload doesn't fit into 64 bits.
    Overflow,
    /// Runs past the end of the data.
    Eof,
    /// All payload bits within the first 64 are fine, but further all-zero chunks follow.
    Overlong(u64),
}

impl<'a> ModelReader<'a> {
    pub fn new(data: &'a [u8]) -> Self {
        ModelReader { data, pos: 0 }
    }
    pub fn left(&self) -> usize {
        self.data.len() * 8 - self.pos
    }
    pub fn fixed(&mut self, n: usize) -> Option<u64> {
        let v = if n <= 64 { model_bits(self.data, self.pos, n)? } else { return None };
        self.pos += n;
        Some(v)
    }
    pub fn vbr(&mut self, width: usize) -> ModelVbr {
        let d = width - 1;
        let mut v = 0u128;
        let mut shift = 0usize;
        let mut over = false;
        let mut long = false;
        loop {
            if self.left() < width {
                return ModelVbr::Eof;
            }
            let c = self.fixed(width).unwrap();
            let payload = (c & ((1u64 << d) - 1)) as u128;
            if shift >= 64 {
                long = true;
                over |= payload != 0;
            } else {
                v |= payload << shift;
                over |= v >> 64 != 0;
            }
            shift += d;
            if c >> d == 0 {
                break;
            }
        }
        if over {
            ModelVbr::Overflow
        } else if long {
            ModelVbr::Overlong(v as u64)
        } else {
            ModelVbr::Value(v as u64)
        }
    }
    pub fn align32(&mut self) {
        self.pos = ((self.pos + 31) / 32 * 32).min(self.data.len() * 8);
    }
}

/// LLVM's sign rotation, as an infinitely wide number.
pub fn svbr_decode(v: u64) -> i128 {
    if v & 1 == 0 {
        (v >> 1) as i128
    } else if v != 1 {
        -((v >> 1) as i128)
    } else {
        i64::MIN as i128
    }
}

pub fn svbr_encode(v: i64) -> u64 {
    if v == i64::MIN {
        1
    } else if v >= 0 {
        (v as u64) << 1
    } else {
        (((-v) as u64) << 1) | 1
    }
}
