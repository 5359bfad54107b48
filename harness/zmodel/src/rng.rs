//! Deterministic random numbers.
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self { let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15); r.next(); r }
    pub fn sub(&mut self) -> Rng { Rng::new(self.next()) }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.next() % n } }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 { lo + self.below(hi - lo + 1) }
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len() as u64) as usize] }
    /// An integer in [lo, hi], biased to the edges and to small magnitudes.
    pub fn int(&mut self, lo: i128, hi: i128) -> i128 {
        let span = (hi - lo) as u128;
        let wide = |r: &mut Rng| ((r.next() as u128) << 64 | r.next() as u128) as i128;
        match self.below(8) {
            0 => lo,
            1 => hi,
            2 => (lo + self.below(4) as i128).clamp(lo, hi),
            3 => (hi - self.below(4) as i128).clamp(lo, hi),
            4 => (self.below(9) as i128 - 4).clamp(lo, hi),
            5 => { // near a power of two
                let b = self.below(65);
                let v = (1i128 << b) + self.below(3) as i128 - 1;
                let v = if self.chance(1, 2) { v } else { -v };
                v.clamp(lo, hi)
            }
            _ => if span == u128::MAX { wide(self) } else { lo + (wide(self) as u128 % (span + 1)) as i128 },
        }
    }
}
pub fn hash64(b: &[u8]) -> u64 { let mut h = 0xcbf29ce484222325u64; for x in b { h ^= *x as u64; h = h.wrapping_mul(0x100000001b3); } h }
