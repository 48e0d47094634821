//! xoshiro256** seeded through splitmix64: the harness's own PRNG, independent of the crate's.
#[derive(Clone, Debug)]
pub struct Rng { s: [u64; 4] }

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut x = seed;
        Rng { s: [splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)] }
    }
    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    pub fn u32(&mut self) -> u32 { (self.u64() >> 32) as u32 }
    /// Uniform in lo..=hi.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        assert!(lo <= hi);
        let hi = if crate::gen::tiny() { hi.min(lo + 24) } else { hi };
        let span = (hi - lo) as u64 + 1;
        lo + (self.u64() % span) as usize
    }
    /// Uniform in 0..n.
    pub fn below(&mut self, n: usize) -> usize { self.range(0, n - 1) }
    /// Uniform in [0, 1).
    pub fn f64(&mut self) -> f64 { (self.u64() >> 11) as f64 / (1u64 << 53) as f64 }
    pub fn f32(&mut self) -> f32 { (self.u64() >> 40) as f32 / (1u64 << 24) as f32 }
    pub fn frange(&mut self, lo: f64, hi: f64) -> f64 { lo + (hi - lo) * self.f64() }
    pub fn chance(&mut self, p: f64) -> bool { self.f64() < p }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T { let i = self.below(xs.len()); &xs[i] }
    /// Roughly standard normal.
    pub fn normal(&mut self) -> f64 { (0..12).map(|_| self.f64()).sum::<f64>() - 6.0 }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() { let j = self.below(i + 1); xs.swap(i, j); }
    }
    /// A random u32 mask with a random density (0, sparse, half, dense, all ones).
    pub fn mask32(&mut self) -> u32 {
        match self.below(6) {
            0 => 0,
            1 => !0,
            2 => 1u32 << self.below(32),
            3 => self.u32() & self.u32() & self.u32(),
            4 => self.u32() | self.u32() | self.u32(),
            _ => self.u32(),
        }
    }
}

pub fn hash_u64(h: u64, x: u64) -> u64 {
    let mut y = h ^ x.wrapping_mul(0x9E37_79B9_7F4A_7C15);
    splitmix(&mut y)
}
pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for &x in b { h ^= x as u64; h = h.wrapping_mul(0x100_0000_01b3); }
    h
}
