use dstplan::plan::mix64;
#[derive(Clone)]
pub struct Rng(u64, /** longer cases now and then */ pub bool);
impl Rng {
    pub fn new(seed: u64, stream: u64) -> Rng { Rng(mix64(seed ^ mix64(stream)), false) }
    pub fn next(&mut self) -> u64 { self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15); let mut z = self.0; z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9); z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB); z ^ (z >> 31) }
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.next() % n } }
    /// inclusive
    pub fn range(&mut self, a: u64, b: u64) -> u64 { a + self.below(b - a + 1) }
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len() as u64) as usize] }
    pub fn idx(&mut self, n: usize) -> usize { self.below(n as u64) as usize }
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let t: u64 = w.iter().map(|x| *x as u64).sum();
        let mut r = self.below(t.max(1));
        for (i, x) in w.iter().enumerate() { if r < *x as u64 { return i; } r -= *x as u64; }
        0
    }
}
