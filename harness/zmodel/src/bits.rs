//! Bit buffers.
#[derive(Clone, Default, Debug, PartialEq)]
pub struct BW { pub buf: Vec<u8>, pub len: u64 }
impl BW {
    pub fn bit(&mut self, b: bool) {
        if self.len % 8 == 0 { self.buf.push(0); }
        if b { let i = self.buf.len() - 1; self.buf[i] |= 0x80 >> (self.len % 8); }
        self.len += 1;
    }
    pub fn bits(&mut self, v: u128, n: u32) {
        if n % 8 == 0 && self.len % 8 == 0 {
            for i in (0..n / 8).rev() { self.buf.push((v >> (8 * i)) as u8); }
            self.len += n as u64;
            return;
        }
        for i in (0..n).rev() { self.bit((v >> i) & 1 == 1); }
    }
    pub fn align(&mut self, n: u64) { if n > 0 { while self.len % n != 0 { self.bit(false); } } }
    /// n bits of b, most significant first
    pub fn slice(&mut self, b: &[u8], n: u64) { for i in 0..n { self.bit(b[(i / 8) as usize] & (0x80 >> (i % 8)) != 0); } }
    /// Bits from position `from` as bytes (zero padded).
    pub fn tail(&self, from: u64) -> Vec<u8> {
        let mut r = BR { b: &self.buf, pos: from, end: self.len };
        let mut w = BW::default();
        while r.pos < r.end { w.bit(r.bit().unwrap()); }
        w.buf
    }
}
#[derive(Clone)]
pub struct BR<'a> { pub b: &'a [u8], pub pos: u64, pub end: u64 }
impl<'a> BR<'a> {
    pub fn new(b: &'a [u8]) -> Self { BR { b, pos: 0, end: b.len() as u64 * 8 } }
    pub fn bit(&mut self) -> Option<bool> {
        if self.pos >= self.end { return None; }
        let r = self.b[(self.pos / 8) as usize] & (0x80 >> (self.pos % 8)) != 0;
        self.pos += 1;
        Some(r)
    }
    pub fn bits(&mut self, n: u32) -> Option<u128> {
        if self.pos + n as u64 > self.end { self.pos = self.end; return None; }
        let mut v = 0u128;
        let mut left = n;
        while left > 0 {
            let o = (self.pos % 8) as u32;
            let take = (8 - o).min(left);
            let byte = self.b[(self.pos / 8) as usize] as u32;
            let x = (byte >> (8 - o - take)) & ((1 << take) - 1);
            v = (v << take) | x as u128;
            self.pos += take as u64;
            left -= take;
        }
        Some(v)
    }
    /// skip to the next multiple of n; false if the input ends before
    pub fn align(&mut self, n: u64) -> bool {
        if n == 0 { return true; }
        let t = self.pos.div_ceil(n) * n;
        if t > self.end { self.pos = self.end; return false; }
        self.pos = t;
        true
    }
    pub fn left(&self) -> u64 { self.end - self.pos }
}
