//! Choices from a fixed pseudo-random sequence, for preparing grammars in demonstrations.
pub struct Ctx(u64);

impl Ctx {
    pub fn new(seed: u64) -> Ctx {
        Ctx(seed)
    }
    pub fn below(&mut self, n: u32) -> u32 {
        if self.0 == 0 {
            return 0;
        }
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407) | 1;
        ((self.0 >> 33) % n.max(1) as u64) as u32
    }
    pub fn chance(&mut self, num: u32, den: u32) -> bool {
        num != 0 && self.below(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u32) as usize]
    }
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let mut v = self.below(w.iter().sum());
        for (i, &x) in w.iter().enumerate() {
            if v < x {
                return i;
            }
            v -= x;
        }
        0
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in 0..v.len().saturating_sub(1) {
            let j = i + self.below((v.len() - i) as u32) as usize;
            v.swap(i, j);
        }
    }
    pub fn span_start(&self) -> usize {
        0
    }
    pub fn span_end(&mut self, _: usize) {}
    pub fn probe(&mut self, _: &str) {}
}
