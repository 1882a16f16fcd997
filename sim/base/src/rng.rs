/// splitmix64; every random choice of the harness comes from one of these.
#[derive(Clone, Debug)]
pub struct Rng(pub u64);
pub fn mix(x: u64) -> u64 {
    let z = x.wrapping_add(0x9E3779B97F4A7C15);
    let z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    let z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
pub fn sub(seed: u64, tag: u64) -> u64 {
    mix(mix(seed) ^ tag.wrapping_mul(0xD6E8FEB86659FD93))
}
impl Rng {
    pub fn new(seed: u64) -> Self { Rng(mix(seed ^ 0x1234_5678_9abc_def1)) }
    pub fn next(&mut self) -> u64 { self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15); mix(self.0) }
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.next() % n } }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 { lo + self.below((hi - lo + 1) as u64) as i64 }
    pub fn u32(&mut self, lo: u32, hi: u32) -> u32 { self.range(lo as i64, hi as i64) as u32 }
    pub fn usize(&mut self, lo: usize, hi: usize) -> usize { self.range(lo as i64, hi as i64) as usize }
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.below(den) < num }
    pub fn f64(&mut self) -> f64 { (self.next() >> 11) as f64 / (1u64 << 53) as f64 }
    pub fn f32(&mut self, lo: f32, hi: f32) -> f32 { lo + (self.f64() as f32) * (hi - lo) }
    pub fn pick<T: Clone>(&mut self, xs: &[T]) -> T { xs[self.below(xs.len() as u64) as usize].clone() }
}
