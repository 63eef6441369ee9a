//! The one source of choice in the simulator: a seeded generator (SplitMix64).

#[derive(Clone)]
pub struct Rng(u64);

pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

/// Stateless hash of two words, used for signals and payloads so that they need no generator state.
pub fn hash2(a: u64, b: u64) -> u64 {
    mix(mix(a.wrapping_add(0x9E3779B97F4A7C15)) ^ b.wrapping_mul(0xD6E8FEB86659FD93).wrapping_add(0x632BE59BD9B4E019))
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(mix(seed ^ 0x5851F42D4C957F2D))
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        mix(self.0)
    }
    pub fn fork(&mut self) -> Rng {
        Rng::new(self.u64())
    }
    /// Uniform in 0..n (n > 0).
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.u64() as u128 * n as u128) >> 64) as u64
    }
    /// Uniform in lo..=hi.
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    pub fn f(&mut self) -> f64 {
        (self.u64() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn chance(&mut self, p: f64) -> bool {
        self.f() < p
    }
    pub fn pick<T: Copy>(&mut self, v: &[T]) -> T {
        v[self.below(v.len() as u64) as usize]
    }
    /// Log-uniform integer in lo..=hi (lo >= 1).
    pub fn logu(&mut self, lo: i64, hi: i64) -> i64 {
        let x = ((lo as f64).ln() + self.f() * ((hi as f64 + 1.0).ln() - (lo as f64).ln())).exp();
        (x as i64).clamp(lo, hi)
    }
    /// A positive integer with geometric-like distribution of the given mean.
    pub fn gap(&mut self, mean: f64) -> i64 {
        let u = 1.0 - self.f();
        ((-u.ln() * mean) as i64).max(0) + 1
    }
    pub fn seed(&mut self) -> i64 {
        (self.u64() >> 16) as i64
    }
}
