//! Small seeded generator (splitmix64 / xoshiro256**); the only source of randomness in the simulator.
#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
}

pub fn mix(mut x: u64) -> u64 {
    x = x.wrapping_add(0x9E3779B97F4A7C15);
    x = (x ^ (x >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94D049BB133111EB);
    x ^ (x >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    mix(h)
}

impl Rng {
    pub const fn zero() -> Self {
        Rng { s: [1, 2, 3, 4] }
    }
    pub fn new(seed: u64) -> Self {
        let mut x = seed;
        let mut s = [0; 4];
        for v in s.iter_mut() {
            x = x.wrapping_add(0x9E3779B97F4A7C15);
            *v = mix(x);
        }
        Rng { s }
    }
    pub fn next(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    /// uniform in 0..n (n > 0)
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    pub fn pct(&mut self, p: u32) -> bool {
        self.below(100) < p as u64
    }
    pub fn permille(&mut self, p: u32) -> bool {
        self.below(1000) < p as u64
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.idx(v.len())]
    }
    /// geometric gap with mean `mean`
    pub fn gap(&mut self, mean: u64) -> u64 {
        let u = ((self.next() >> 11) as f64 + 1.0) / (1u64 << 53) as f64;
        ((-u.ln()) * mean as f64) as u64 + 1
    }
}
