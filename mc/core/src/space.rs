//! Finite spaces and their numbering.

/// Strings over `sigma` of length `0..=max`, shortest first.
pub struct Strings<'a> {
  pub sigma: &'a [&'a str],
  pub max: usize,
}

impl Strings<'_> {
  pub fn total(&self) -> u64 {
    let k = self.sigma.len() as u64;
    (0..=self.max as u32).map(|n| k.pow(n)).sum()
  }
  pub fn get(&self, mut i: u64, out: &mut String) {
    out.clear();
    let mut idx = [0usize; 64];
    let n = self.indices(&mut i, &mut idx);
    for d in &idx[..n] {
      out.push_str(self.sigma[*d]);
    }
  }
  /// The symbols of string `i`, as indices.
  pub fn symbols(&self, mut i: u64) -> Vec<usize> {
    let mut idx = [0usize; 64];
    let n = self.indices(&mut i, &mut idx);
    idx[..n].to_vec()
  }
  fn indices(&self, i: &mut u64, idx: &mut [usize; 64]) -> usize {
    let k = self.sigma.len() as u64;
    let mut n = 0;
    let mut size = 1u64;
    while *i >= size {
      *i -= size;
      size *= k;
      n += 1;
    }
    for j in (0..n).rev() {
      idx[j] = (*i % k) as usize;
      *i /= k;
    }
    n
  }
}

/// Sequence `i` over `0..n`, shortest first.
pub fn sequence(mut i: u64, n: u64) -> Vec<usize> {
  let (mut len, mut size) = (0, 1);
  while i >= size {
    i -= size;
    size *= n;
    len += 1;
  }
  let mut out = vec![0; len];
  for d in out.iter_mut().rev() {
    *d = (i % n) as usize;
    i /= n;
  }
  out
}

/// Mixed-radix numbers: one digit per dimension.
pub struct Product(pub Vec<u64>);

impl Product {
  pub fn total(&self) -> u64 {
    self.0.iter().product()
  }
  pub fn get(&self, mut i: u64) -> Vec<usize> {
    self
      .0
      .iter()
      .map(|n| {
        let d = i % n;
        i /= n;
        d as usize
      })
      .collect()
  }
}

/// All assignments to `alternatives.len()` fields in which at most `k` fields
/// take a value other than 0, fewest deviations first. `alternatives[f]` is the
/// number of values of field `f` other than 0.
pub struct Deviations {
  alternatives: Vec<u64>,
  k: usize,
  // ways[f][d]: assignments of fields f.. with exactly d deviations
  ways: Vec<Vec<u64>>,
}

impl Deviations {
  pub fn new(alternatives: Vec<u64>, k: usize) -> Self {
    let n = alternatives.len();
    let mut ways = vec![vec![0u64; k + 1]; n + 1];
    ways[n][0] = 1;
    for f in (0..n).rev() {
      for d in 0..=k {
        ways[f][d] = ways[f + 1][d]
          + if d > 0 { alternatives[f] * ways[f + 1][d - 1] } else { 0 };
      }
    }
    Self { alternatives, k, ways }
  }
  pub fn total(&self) -> u64 {
    self.ways[0].iter().sum()
  }
  pub fn get(&self, mut i: u64) -> Vec<usize> {
    let mut d = 0;
    while i >= self.ways[0][d] {
      i -= self.ways[0][d];
      d += 1;
      assert!(d <= self.k);
    }
    let n = self.alternatives.len();
    let mut out = vec![0; n];
    for f in 0..n {
      let stay = self.ways[f + 1][d];
      if i < stay {
        continue;
      }
      i -= stay;
      let per = self.ways[f + 1][d - 1];
      out[f] = (i / per) as usize + 1;
      i %= per;
      d -= 1;
    }
    out
  }
}
