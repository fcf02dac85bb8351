pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
    pub fn u128(&mut self) -> u128 {
        ((self.next() as u128) << 64) | self.next() as u128
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<T: Clone>(&mut self, v: &[T]) -> T {
        v[self.below(v.len() as u64) as usize].clone()
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    /// interesting 128-bit magnitudes
    pub fn mag(&mut self) -> u128 {
        match self.below(10) {
            0 => self.below(12) as u128,
            1 => u128::MAX - self.below(4) as u128,
            2 => {
                let p = 1u128 << self.below(128);
                p.wrapping_add(self.below(5) as u128).wrapping_sub(2)
            }
            3 => {
                let p = 10u128.pow(self.below(39) as u32);
                p.wrapping_add(self.below(5) as u128).wrapping_sub(2)
            }
            4 => {
                let p = 10u128.pow(self.below(38) as u32);
                p.wrapping_mul(1 + self.below(20) as u128)
            }
            5 => self.below(1 << 32) as u128,
            6 => self.next() as u128,
            _ => {
                let b = self.below(128) + 1;
                self.u128() >> (128 - b)
            }
        }
    }
    pub fn scale(&mut self) -> u8 {
        match self.below(8) {
            0 => 0,
            1 => 12,
            2 => 6,
            3 => self.below(6) as u8,
            4 => self.below(45) as u8,
            _ => self.below(20) as u8,
        }
    }
}
