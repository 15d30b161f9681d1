//! Small deterministic PRNG (xoshiro256**), seeded from (seed, stream, index).

#[derive(Clone)]
pub struct Rng {
  s: [u64; 4],
}

fn splitmix(x: &mut u64) -> u64 {
  *x = x.wrapping_add(0x9E3779B97F4A7C15);
  let mut z = *x;
  z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
  z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
  z ^ (z >> 31)
}

pub fn hash_bytes(b: &[u8]) -> u64 {
  let mut h: u64 = 0xcbf29ce484222325;
  for &c in b {
    h ^= c as u64;
    h = h.wrapping_mul(0x100000001b3);
  }
  let mut x = h;
  splitmix(&mut x)
}

impl Rng {
  pub fn new(seed: u64, stream: &str, index: u64) -> Rng {
    let mut x = seed
      .wrapping_mul(0xD1342543DE82EF95)
      .wrapping_add(hash_bytes(stream.as_bytes()))
      .wrapping_add(index.wrapping_mul(0x2545F4914F6CDD1D));
    let s = [
      splitmix(&mut x),
      splitmix(&mut x),
      splitmix(&mut x),
      splitmix(&mut x),
    ];
    Rng { s }
  }

  pub fn u64(&mut self) -> u64 {
    let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
    let t = self.s[1] << 17;
    self.s[2] ^= self.s[0];
    self.s[3] ^= self.s[1];
    self.s[1] ^= self.s[2];
    self.s[0] ^= self.s[3];
    self.s[2] ^= t;
    self.s[3] = self.s[3].rotate_left(45);
    r
  }

  /// uniform in 0..n (n > 0)
  pub fn below(&mut self, n: usize) -> usize {
    (self.u64() % (n as u64)) as usize
  }

  /// uniform in lo..=hi
  pub fn range(&mut self, lo: usize, hi: usize) -> usize {
    lo + self.below(hi - lo + 1)
  }

  /// true with probability num/den
  pub fn chance(&mut self, num: usize, den: usize) -> bool {
    self.below(den) < num
  }

  pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
    &xs[self.below(xs.len())]
  }

  pub fn pick_s(&mut self, xs: &[&'static str]) -> &'static str {
    xs[self.below(xs.len())]
  }

  pub fn shuffle<T>(&mut self, xs: &mut [T]) {
    for i in (1..xs.len()).rev() {
      let j = self.below(i + 1);
      xs.swap(i, j);
    }
  }

  /// weighted pick: returns the index
  pub fn weighted(&mut self, ws: &[usize]) -> usize {
    let total: usize = ws.iter().sum();
    let mut n = self.below(total.max(1));
    for (i, w) in ws.iter().enumerate() {
      if n < *w {
        return i;
      }
      n -= w;
    }
    ws.len() - 1
  }
}
