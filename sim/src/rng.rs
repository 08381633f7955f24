//! One integer decides everything: splitmix-seeded xoshiro256**.
#[derive(Clone)]
pub struct Rng { s: [u64; 4] }

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

pub fn hash_bytes(seed: u64, b: &[u8]) -> u64 {
    let mut h = mix(seed ^ 0x51_7c_c1_b7_27_22_0a_95);
    for &x in b { h = (h ^ x as u64).wrapping_mul(0x100000001b3); }
    mix(h ^ b.len() as u64)
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut x = seed;
        let mut s = [0u64; 4];
        for v in s.iter_mut() { x = x.wrapping_add(0x9e3779b97f4a7c15); *v = mix(x); }
        Rng { s }
    }
    pub fn next(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0]; self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2]; self.s[0] ^= self.s[3];
        self.s[2] ^= t; self.s[3] = self.s[3].rotate_left(45);
        r
    }
    /// uniform in 0..n (n > 0)
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.next() % n } }
    pub fn range(&mut self, a: u64, b: u64) -> u64 { a + self.below(b - a + 1) }
    pub fn us(&mut self, n: usize) -> usize { self.below(n as u64) as usize }
    /// true with probability num/den
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.us(v.len())] }
    pub fn seed(&mut self) -> i64 { (self.next() >> 12) as i64 }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() { let j = self.us(i + 1); v.swap(i, j); }
    }
}
