//! A tape of choices: every random decision of a case is one recorded number, so that a case can
//! be replayed and shrunk by editing the numbers. 0 always stands for the simplest choice, and a
//! tape that runs out yields 0s.
use std::io::Write;

static TRACE: std::sync::OnceLock<std::fs::File> = std::sync::OnceLock::new();

/// Also write each choice to a file, for cases that do not survive.
pub fn trace_to(f: std::fs::File) {
    let _ = TRACE.set(f);
}

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub fn hash(bytes: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    let mut it = bytes.chunks_exact(8);
    for c in &mut it {
        h = (h ^ u64::from_le_bytes(c.try_into().unwrap())).wrapping_mul(0x9E37_79B9_7F4A_7C15);
        h ^= h >> 29;
    }
    for b in it.remainder() {
        h = (h ^ u64::from(*b)).wrapping_mul(0x0000_0100_0000_01B3);
    }
    Rng(h ^ bytes.len() as u64).next()
}

pub fn mix(parts: &[u64]) -> u64 {
    let mut h = 0x1234_5678_9ABC_DEF1u64;
    for p in parts {
        h = Rng(h ^ *p).next();
    }
    h
}

#[derive(Clone)]
pub struct Tape {
    pub rec: Vec<u64>,
    pos: usize,
    rng: Option<Rng>,
}

impl Tape {
    pub fn random(seed: u64) -> Self {
        Tape { rec: vec![], pos: 0, rng: Some(Rng::new(seed)) }
    }
    pub fn replay(rec: Vec<u64>) -> Self {
        Tape { rec, pos: 0, rng: None }
    }
    /// A uniform choice in `0..n`.
    pub fn below(&mut self, n: u64) -> u64 {
        debug_assert!(n > 0);
        if n == 1 {
            return 0;
        }
        let v = match self.rec.get(self.pos) {
            Some(v) => (*v).min(n - 1),
            None => match &mut self.rng {
                Some(r) => {
                    let v = ((u128::from(r.next()) * u128::from(n)) >> 64) as u64;
                    self.rec.push(v);
                    if let Some(f) = TRACE.get() {
                        let _ = (&*f).write_all(&v.to_le_bytes());
                    }
                    v
                }
                None => 0,
            },
        };
        self.pos += 1;
        v
    }
    pub fn upto(&mut self, n: usize) -> usize {
        self.below(n as u64 + 1) as usize
    }
    /// `min..=max`
    pub fn range(&mut self, min: usize, max: usize) -> usize {
        min + self.upto(max - min)
    }
    /// True with probability n/d; the simplest choice is false.
    pub fn chance(&mut self, n: u64, d: u64) -> bool {
        let v = self.below(d);
        v >= d - n
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    pub fn byte(&mut self) -> u8 {
        self.below(256) as u8
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len() as u64) as usize]
    }
    /// Index drawn with the given weights.
    pub fn weighted(&mut self, ws: &[u32]) -> usize {
        let total: u64 = ws.iter().map(|w| u64::from(*w)).sum();
        let mut v = self.below(total);
        for (i, w) in ws.iter().enumerate() {
            if v < u64::from(*w) {
                return i;
            }
            v -= u64::from(*w);
        }
        unreachable!()
    }
    pub fn raw(&mut self) -> u64 {
        // two draws so that every value below 2^64 can occur
        (self.below(1 << 32) << 32) | self.below(1 << 32)
    }

    /// An unsigned value of at most `bits` bits, biased to what encodings and limits make special.
    pub fn uint(&mut self, bits: u32) -> u64 {
        let max = if bits == 64 { u64::MAX } else { (1 << bits) - 1 };
        let v = match self.weighted(&[20, 12, 10, 6, 6, 6]) {
            0 => self.below(8),
            1 => {
                // around a LEB128 length boundary
                let k = 7 * (1 + self.below(u64::from(bits) / 7)) as u32;
                near(k, self.below(4))
            }
            2 => near(self.below(u64::from(bits) + 1) as u32, self.below(4)),
            3 => max - self.below(4).min(max),
            4 => *self.pick(&[
                64, 65535, 65536, 65537, 127, 128, 129, 255, 256, 257, 0x6F, 0x70, 0x7F, 0x40,
                0x8000_0000, 0x7FFF_FFFF, 0xFFFF_FFFF, 0x1_0000_0000, 1 << 48, 1000, 1024, 4096,
                16384, 100_000, 1_000_000, 50_000, 0x0FFF_FFFF, 0x1000_0000,
            ]),
            _ => {
                let b = 1 + self.below(u64::from(bits)) as u32;
                let r = self.raw();
                if b == 64 { r } else { r & ((1 << b) - 1) }
            }
        };
        v & max
    }
    pub fn u32(&mut self) -> u32 {
        self.uint(32) as u32
    }
    pub fn u64(&mut self) -> u64 {
        self.uint(64)
    }
    pub fn sint(&mut self, bits: u32) -> i64 {
        match self.weighted(&[10, 10, 6, 2]) {
            0 => self.below(128) as i64 - 64,
            1 => {
                let v = self.uint(bits - 1) as i64;
                if self.bool() { -v } else { v }
            }
            2 => {
                // around the length boundaries of signed LEB128
                let k = 6 + 7 * self.below(u64::from(bits) / 7) as u32;
                let d = self.below(4) as i64 - 2;
                let m = if k >= bits - 1 { (1i64 << (bits - 2)) - 1 } else { 1i64 << k };
                if self.bool() { -m + d } else { m + d }
            }
            _ => {
                let lo = if bits == 64 { i64::MIN } else { -(1 << (bits - 1)) };
                let hi = if bits == 64 { i64::MAX } else { (1 << (bits - 1)) - 1 };
                if self.bool() { lo + self.below(3) as i64 } else { hi - self.below(3) as i64 }
            }
        }
    }
    /// A list length: short by default, sometimes just around a power of two.
    pub fn len(&mut self, big: Big) -> usize {
        let w: &[u32] = match big {
            Big::No => &[30, 0, 0, 0],
            Big::Some => &[60, 3, 1, 0],
            Big::Often => &[20, 10, 4, 1],
        };
        match self.weighted(w) {
            0 => self.weighted(&[8, 10, 7, 4, 2, 1]),
            1 => *self.pick(&[7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 126, 127, 128, 129]),
            2 => *self.pick(&[200, 255, 256, 257, 300, 511, 512, 1000, 1023, 1024, 1025, 2047, 2048]),
            _ => *self.pick(&[4095, 4096, 4097, 16383, 16384, 16385]),
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Big {
    No,
    Some,
    Often,
}

/// 2^k - 2, 2^k - 1, 2^k, 2^k + 1
fn near(k: u32, d: u64) -> u64 {
    let p = if k >= 64 { 0u64 } else { 1 << k };
    p.wrapping_add(d).wrapping_sub(2)
}
