//! The one source of randomness: everything a simulated run does is derived from its seed.

#[derive(Clone)]
pub struct Rng(u64, u64);

fn split(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Rng {
    pub const fn zero() -> Rng { Rng(1, 2) }
    pub fn new(seed: u64) -> Rng {
        let mut s = seed ^ 0xA5A5_5A5A_1234_9876;
        let a = split(&mut s);
        let b = split(&mut s);
        Rng(a, b | 1)
    }
    /// An independent stream.
    pub fn fork(&mut self, salt: u64) -> Rng { Rng::new(self.next() ^ salt.wrapping_mul(0x9E3779B97F4A7C15)) }
    pub fn next(&mut self) -> u64 {
        // xoroshiro128+
        let (s0, mut s1) = (self.0, self.1);
        let r = s0.wrapping_add(s1);
        s1 ^= s0;
        self.0 = s0.rotate_left(24) ^ s1 ^ (s1 << 16);
        self.1 = s1.rotate_left(37);
        r ^ (r >> 29)
    }
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { ((self.next() as u128 * n as u128) >> 64) as u64 } }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 { lo + self.below(hi - lo + 1) }
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len() as u64) as usize] }
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u64 = w.iter().map(|&x| x as u64).sum();
        let mut r = self.below(total);
        for (i, &x) in w.iter().enumerate() {
            if r < x as u64 { return i; }
            r -= x as u64;
        }
        w.len() - 1
    }
}

pub fn fnv(mut h: u64, data: &[u8]) -> u64 {
    for &b in data { h = (h ^ b as u64).wrapping_mul(0x100000001b3); }
    h
}
pub const FNV0: u64 = 0xcbf29ce484222325;
