#[derive(Clone, Copy, Debug)]
pub struct Rng(pub [u64; 2]);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

impl Rng {
    pub const fn zero() -> Self {
        Rng([1, 2])
    }
    pub fn new(seed: u64, stream: u64) -> Self {
        let a = mix(seed ^ mix(stream.wrapping_mul(0xd1342543de82ef95) ^ 0x5851f42d4c957f2d));
        let b = mix(a ^ seed.rotate_left(17));
        Rng([a | 1, b])
    }
    #[inline]
    pub fn next(&mut self) -> u64 {
        // xorshift128+
        let mut s1 = self.0[0];
        let s0 = self.0[1];
        let r = s0.wrapping_add(s1);
        self.0[0] = s0;
        s1 ^= s1 << 23;
        self.0[1] = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5);
        mix(r)
    }
    #[inline]
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    /// log-uniform in [lo, hi]
    pub fn logu(&mut self, lo: u64, hi: u64) -> u64 {
        let l = (lo as f64).ln();
        let h = (hi as f64).ln();
        let u = (self.next() >> 11) as f64 / (1u64 << 53) as f64;
        ((l + (h - l) * u).exp() as u64).clamp(lo, hi)
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
}
