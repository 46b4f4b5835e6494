//! The only source of randomness: splitmix64, seeded.
#[derive(Clone)]
pub struct Rng(pub u64);

pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

/// Stateless hash of several words.
pub fn hash(ws: &[u64]) -> u64 {
    let mut h = 0x9e3779b97f4a7c15u64;
    for w in ws {
        h = mix(h.wrapping_add(0x9e3779b97f4a7c15) ^ mix(w.wrapping_add(0x632be59bd9b4e019)));
    }
    h
}

impl Rng {
    pub fn new(seed: u64, stream: u64) -> Rng {
        Rng(hash(&[seed, stream]))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        mix(self.0)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            return 0;
        }
        self.next() % n
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    /// Small numbers are likelier.
    pub fn small(&mut self, max: u64) -> u64 {
        let m = self.range(0, max);
        self.range(0, m)
    }
    /// 1..=max, log-uniform.
    pub fn log(&mut self, max: u64) -> u64 {
        let bits = 64 - max.leading_zeros() as u64;
        let b = self.range(0, bits.saturating_sub(1));
        let v = (1u64 << b) + self.below(1u64 << b);
        v.min(max).max(1)
    }
}
