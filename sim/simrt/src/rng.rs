/// splitmix64 / xoshiro-like small PRNG; the only source of randomness in the simulator.
#[derive(Clone, Debug)]
pub struct Rng(pub u64);
pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}
impl Rng {
    pub fn new(seed: u64) -> Self { Rng(mix(seed ^ 0x5bf0_3635_dcf5_8a71)) }
    #[inline]
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        mix(self.0)
    }
    #[inline]
    pub fn below(&mut self, n: u32) -> u32 {
        if n <= 1 { return 0; }
        (((self.next() >> 32) * n as u64) >> 32) as u32
    }
    /// true with probability num/den
    #[inline]
    pub fn chance(&mut self, num: u32, den: u32) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len() as u32) as usize] }
}
