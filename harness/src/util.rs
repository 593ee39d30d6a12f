//! Small utilities: random numbers, hashing, hex, JSON output.

/// xoshiro256** seeded through splitmix64.
#[derive(Clone)]
pub struct Rng([u64; 4]);

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9e3779b97f4a7c15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut s = seed;
        Rng([splitmix(&mut s), splitmix(&mut s), splitmix(&mut s), splitmix(&mut s)])
    }
    pub fn next(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    /// Uniform in [0, n), n > 0.
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
    pub fn us(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// Uniform in [lo, hi].
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        if lo == 0 && hi == u64::MAX {
            return self.next();
        }
        lo + self.below(hi - lo + 1)
    }
    pub fn ur(&mut self, lo: usize, hi: usize) -> usize {
        self.range(lo as u64, hi as u64) as usize
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn bool(&mut self) -> bool {
        self.next() & 1 == 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.us(xs.len())]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.next() as u8).collect()
    }
    /// A number of "interesting" magnitude: uniform in the number of bits, with boundary values.
    pub fn wild(&mut self) -> u64 {
        match self.below(8) {
            0 => self.below(4),
            1 => 1u64 << self.below(64),
            2 => (1u64 << self.below(64)).wrapping_sub(1),
            3 => u64::MAX - self.below(3),
            4 => (1u64 << self.below(64)).wrapping_add(self.below(3)),
            _ => {
                let b = self.range(1, 64);
                self.next() >> (64 - b)
            }
        }
    }
    /// A number of at most `bits` bits.
    pub fn wild_bits(&mut self, bits: u32) -> u64 {
        if bits == 0 {
            return 0;
        }
        let m = if bits >= 64 { u64::MAX } else { (1u64 << bits) - 1 };
        match self.below(6) {
            0 => 0,
            1 => m,
            2 => self.wild() & m,
            3 => 1u64 << self.below(bits.min(64) as u64),
            _ => {
                let b = self.range(1, bits.min(64) as u64);
                self.next() >> (64 - b)
            }
        }
    }
    pub fn small(&mut self) -> u64 {
        match self.below(5) {
            0 => self.below(2),
            1 => self.below(8),
            2 => self.below(64),
            3 => self.below(256),
            _ => self.below(1000),
        }
    }
}

#[derive(Clone, Copy)]
pub struct Fnv(pub u64);
impl Fnv {
    pub fn new() -> Fnv {
        Fnv(0xcbf29ce484222325)
    }
    pub fn bytes(mut self, b: &[u8]) -> Fnv {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3);
        }
        self
    }
    pub fn u(self, x: u64) -> Fnv {
        let mut s = self.0 ^ x.wrapping_mul(0x9e3779b97f4a7c15);
        Fnv(splitmix(&mut s))
    }
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = Fnv::new();
    let mut it = b.chunks_exact(8);
    for c in &mut it {
        h = h.u(u64::from_le_bytes(c.try_into().unwrap()));
    }
    h = h.bytes(it.remainder()).u(b.len() as u64);
    h.0
}

pub fn hash_str(s: &str) -> u64 {
    hash_bytes(s.as_bytes())
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push_str(&format!("{:02x}", x));
    }
    s
}

pub fn unhex(s: &str) -> Vec<u8> {
    let s: Vec<u8> = s.bytes().filter(|c| c.is_ascii_hexdigit()).collect();
    s.chunks(2)
        .map(|p| u8::from_str_radix(std::str::from_utf8(p).unwrap(), 16).unwrap())
        .collect()
}

/// A JSON string literal.
pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Cuts a string down for display.
pub fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut e = n;
    while !s.is_char_boundary(e) {
        e -= 1;
    }
    format!("{}…(+{} bytes)", &s[..e], s.len() - e)
}

/// `clip`, unless MON_FULL asks for everything.
pub fn clip_to(s: &str, n: usize) -> String {
    if std::env::var("MON_FULL").is_ok() {
        s.to_string()
    } else {
        clip(s, n)
    }
}
