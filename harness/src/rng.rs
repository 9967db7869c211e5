//! Deterministic generator: every case is a function of (seed, section, index).
#[derive(Clone)]
pub struct Rng { s: [u64; 4], last: u64 }

/// Numbers with a meaning in navigation data: calendar, weeks, angles in the usual steps, type limits, powers of ten.
const TELLING: &[u64] = &[2, 3, 5, 7, 8, 12, 15, 16, 18, 23, 24, 28, 29, 30, 31, 32, 52, 59, 60, 63, 64, 90, 99, 100, 127, 128, 180, 255, 256, 359, 360, 365, 366,
    512, 999, 1000, 1023, 1024, 1980, 1999, 2000, 2024, 2037, 2038, 2047, 2048, 2099, 2100, 3599, 3600, 4095, 4096, 8176, 8191, 8192, 9999, 10000, 16384, 18000, 32767, 32768,
    35999, 36000, 65535, 65536, 86399, 86400, 99999, 100000, 131072, 604799, 604800, 1000000, 1 << 20, 10000000, 1 << 23, 1 << 24, 9000000, 18000000, 36000000, 86400000, 100000000,
    604799999, 604800000, 900000000, 999999999, 1000000000, 1800000000, 2147483647, 2147483648, 3600000000, 4294967295, 4294967296, 1 << 52, 1 << 53, 1000000000000, i64::MAX as u64];

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}
pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64 ^ (b.len() as u64);
    for c in b.chunks(8) {
        let mut v = 0u64;
        for (i, x) in c.iter().enumerate() { v |= (*x as u64) << (8 * i); }
        h = mix(h ^ v);
    }
    h
}
impl Rng {
    pub fn for_case(seed: u64, section: &str, idx: u64) -> Self {
        let mut x = mix(seed ^ mix(hash_bytes(section.as_bytes()) ^ mix(idx)));
        let mut s = [0u64; 4];
        for v in s.iter_mut() { x = mix(x); *v = x; }
        Rng { s, last: 0 }
    }
    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0]; self.s[3] ^= self.s[1]; self.s[1] ^= self.s[2]; self.s[0] ^= self.s[3];
        self.s[2] ^= t; self.s[3] = self.s[3].rotate_left(45);
        r
    }
    pub fn u32(&mut self) -> u32 { (self.u64() >> 32) as u32 }
    pub fn u8(&mut self) -> u8 { (self.u64() >> 56) as u8 }
    pub fn bool(&mut self) -> bool { self.u64() >> 63 == 1 }
    /// 0..n (n > 0)
    pub fn below(&mut self, n: usize) -> usize { ((self.u64() as u128 * n as u128) >> 64) as usize }
    /// lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize { lo + self.below(hi - lo + 1) }
    /// true with probability n/d
    pub fn chance(&mut self, n: usize, d: usize) -> bool { self.below(d) < n }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T { &s[self.below(s.len())] }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n + 8);
        while v.len() < n { v.extend_from_slice(&self.u64().to_le_bytes()); }
        v.truncate(n);
        v
    }
    /// An interesting integer of the given bit width (raw bits).
    pub fn corner(&mut self, bits: u32) -> u64 {
        let mask = if bits == 64 { !0 } else { (1u64 << bits) - 1 };
        let v = match self.below(16) {
            0 => 0,
            1 => mask,
            2 => mask >> 1,
            3 => (mask >> 1) + 1,
            4 => 1u64 << self.below(bits as usize),
            5 => mask ^ (1u64 << self.below(bits as usize)),
            6 => 1,
            7 => self.u64() & 0xff,
            8 => self.last,
            9 | 10 | 11 => {
                let v = *self.pick(TELLING);
                let v = match self.below(6) { 0 => v.wrapping_add(1), 1 => v.wrapping_sub(1), _ => v };
                if self.chance(1, 3) { v.wrapping_neg() } else { v }
            }
            12 if bits >= 32 => {
                let x = *self.pick(TELLING) as f64 * *self.pick(&[1.0, -1.0, 0.5, -0.5, 1e-3, 1e-7, 0.0, -0.0, f64::INFINITY, f64::NEG_INFINITY, f64::MIN_POSITIVE]);
                if bits == 64 { x.to_bits() } else { (x as f32).to_bits() as u64 }
            }
            _ => self.u64(),
        };
        self.last = v;
        v & mask
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() { v.swap(i, self.below(i + 1)); }
    }
}
