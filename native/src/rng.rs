#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 { self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15); let mut z = self.0; z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9); z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB); z ^ (z >> 31) }
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.next() % n } }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 { lo + self.below((hi - lo + 1) as u64) as i64 }
    pub fn usize(&mut self, n: usize) -> usize { self.below(n as u64) as usize }
    pub fn bool(&mut self) -> bool { self.next() & 1 == 1 }
    pub fn chance(&mut self, pct: u64) -> bool { self.below(100) < pct }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { let i = self.usize(v.len()); &v[i] }
    /// 64-bit values with boundaries preferred
    pub fn u64b(&mut self) -> u64 {
        match self.below(8) {
            0 => self.below(10),
            1 => *self.pick(&[0, 1, u64::MAX, u64::MAX - 1, 1 << 63, (1 << 63) - 1, (1 << 63) + 1, 1 << 53, (1 << 53) + 1, u32::MAX as u64, u32::MAX as u64 + 1, 1_000_000_000, 999_999_999, 1_000_000, 999_999, 1000, 999]),
            2 => { let s = self.below(64); (1u64 << s).wrapping_add(self.below(5)).wrapping_sub(2) }
            3 => self.below(1_000_000),
            4 => self.next() >> self.below(64),
            5 => self.below(100),
            6 => { let s = self.below(20); let mut p = 1u64; for _ in 0..s { p = p.wrapping_mul(10); } p.wrapping_add(self.below(5)).wrapping_sub(2) }
            _ => self.next(),
        }
    }
    pub fn i64b(&mut self) -> i64 {
        match self.below(4) { 0 => self.u64b() as i64, 1 => (self.u64b() as i64).wrapping_neg(), 2 => self.range(-20, 20), _ => *self.pick(&[i64::MIN, i64::MIN + 1, i64::MAX, i64::MAX - 1, 0, -1, 1, 1 << 62, -(1 << 62)]) }
    }
    pub fn f64b(&mut self) -> f64 {
        match self.below(6) {
            0 => f64::from_bits(self.next()),
            1 => *self.pick(&[0.0, -0.0, 0.5, -0.5, 0.49999999999999994, 1.5, 2.5, -1.5, -2.5, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 9.223372036854775807e18, -9.223372036854775808e18, 9.223372036854774784e18, -9.223372036854777856e18, 1.8446744073709551615e19, 1.844674407370955e19, f64::MIN_POSITIVE, f64::MAX, f64::MIN, 4503599627370496.5, 4503599627370497.5, 9007199254740993.0, -0.4, -0.6]),
            2 => self.range(-1000, 1000) as f64 / 2.0,
            3 => self.i64b() as f64,
            4 => self.u64b() as f64 + 0.5,
            _ => self.range(-100000, 100000) as f64 / 16.0,
        }
    }
}
