#[derive(Clone, Debug)]
pub struct Rng(u64);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(mix(seed ^ 0x5DEECE66D))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        mix(self.0)
    }
    /// uniform in 0..n (n > 0)
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    /// uniform in lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    /// true with probability n/d
    pub fn chance(&mut self, n: usize, d: usize) -> bool {
        self.below(d) < n
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    /// how far beyond the end: a little, around powers of two, as far as possible
    pub fn excess(&mut self) -> usize {
        match self.below(4) {
            0 => self.below(4),
            1 => usize::MAX - self.below(3),
            2 => 1000 + self.below(1000),
            _ => (1usize << self.range(7, 63)).wrapping_add(self.below(9)).wrapping_sub(4),
        }
    }
    pub fn fork(&mut self) -> Rng {
        Rng::new(self.next())
    }
}
