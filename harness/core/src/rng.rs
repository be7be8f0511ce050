//! Deterministic PRNG (splitmix64 seeded xoshiro256**), independent of external crates.
#[derive(Clone)]
pub struct Rng {
  s: [u64; 4],
}

pub fn splitmix(x: &mut u64) -> u64 {
  *x = x.wrapping_add(0x9E3779B97F4A7C15);
  let mut z = *x;
  z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
  z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
  z ^ (z >> 31)
}

impl Rng {
  pub fn new(seed: u64) -> Self {
    let mut x = seed;
    Self {
      s: [splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)],
    }
  }
  pub fn u64(&mut self) -> u64 {
    let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
    let t = self.s[1] << 17;
    self.s[2] ^= self.s[0];
    self.s[3] ^= self.s[1];
    self.s[1] ^= self.s[2];
    self.s[0] ^= self.s[3];
    self.s[2] ^= t;
    self.s[3] = self.s[3].rotate_left(45);
    r
  }
  pub fn u32(&mut self) -> u32 {
    (self.u64() >> 32) as u32
  }
  pub fn u16(&mut self) -> u16 {
    (self.u64() >> 48) as u16
  }
  pub fn u8(&mut self) -> u8 {
    (self.u64() >> 56) as u8
  }
  /// Uniform in lo..=hi
  pub fn range(&mut self, lo: usize, hi: usize) -> usize {
    assert!(lo <= hi);
    lo + (self.u64() % ((hi - lo) as u64 + 1)) as usize
  }
  pub fn bool(&mut self) -> bool {
    self.u64() >> 63 == 1
  }
  /// true with probability num/den
  pub fn chance(&mut self, num: u64, den: u64) -> bool {
    self.u64() % den < num
  }
  pub fn f32(&mut self) -> f32 {
    (self.u64() >> 40) as f32 / (1u64 << 24) as f32
  }
  pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
    &v[self.range(0, v.len() - 1)]
  }
  pub fn bytes(&mut self, n: usize) -> Vec<u8> {
    (0..n).map(|_| self.u8()).collect()
  }
}
