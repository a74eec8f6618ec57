//! The only source of randomness: a splitmix64 stream. Every choice derives from VERIF_SEED.
#[derive(Clone)]
pub struct Rng(pub u64);

pub fn mix(a: u64, b: u64) -> u64 {
    let mut z = a ^ b.wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(17);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}
pub fn hstr(h: u64, s: &str) -> u64 {
    let mut h = mix(h, s.len() as u64);
    for b in s.bytes() {
        h = mix(h, b as u64);
    }
    h
}

impl Rng {
    pub fn new(a: u64, b: u64) -> Self {
        Rng(mix(mix(a, 0x5eed), b))
    }
    pub fn u(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    /// 0..n (n > 0)
    pub fn below(&mut self, n: u64) -> u64 {
        self.u() % n
    }
    /// a..=b
    pub fn range(&mut self, a: u64, b: u64) -> u64 {
        a + self.below(b - a + 1)
    }
    pub fn f(&mut self) -> f64 {
        (self.u() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn frange(&mut self, a: f64, b: f64) -> f64 {
        a + (b - a) * self.f()
    }
    pub fn p(&mut self, p: f64) -> bool {
        self.f() < p
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    /// Small numbers often, large ones sometimes, 0..=max.
    pub fn skew(&mut self, max: u64) -> u64 {
        let k = self.below(4);
        let m = match k {
            0 => max,
            1 => max / 3,
            2 => max / 10,
            _ => 2.min(max),
        };
        self.range(0, m)
    }
    /// Roughly normal.
    pub fn g(&mut self) -> f64 {
        self.f() + self.f() + self.f() + self.f() - 2.0
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i as u64 + 1) as usize;
            v.swap(i, j);
        }
    }
}
