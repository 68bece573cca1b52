//! The one PRNG (splitmix64). Every choice of a run derives from VERIF_SEED through it.
#[derive(Clone, Debug)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed ^ 0x6A09E667F3BCC909)
    }
    pub fn derive(seed: u64, a: u64, b: u64) -> Self {
        let mut r = Rng::new(seed);
        let x = r.next() ^ a.wrapping_mul(0xD6E8FEB86659FD93);
        let mut r = Rng(x);
        let y = r.next() ^ b.wrapping_mul(0xA5A3564E27F8A3B1);
        Rng(y)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// Uniform in 0..n (n >= 1).
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.next() as u128 * n.max(1) as u128) >> 64) as u64
    }
    /// Uniform in lo..=hi.
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn us(&mut self, lo: usize, hi: usize) -> usize {
        self.range(lo as u64, hi as u64) as usize
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn f(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    /// Roughly log-uniform in lo..=hi.
    pub fn log(&mut self, lo: u64, hi: u64) -> u64 {
        let bl = 64 - lo.max(1).leading_zeros() as u64;
        let bh = 64 - hi.max(1).leading_zeros() as u64;
        let b = self.range(bl, bh);
        let a = (1u64 << (b - 1)).max(lo);
        let z = if b >= 63 { hi } else { ((1u64 << b) - 1).min(hi) };
        self.range(a.min(z), z)
    }
}
