//! The choices a workload is made of: drawn from a seed, recorded, and replayed or shrunk as a list.

use vsim::Rng;

#[derive(Clone, Debug)]
pub struct Tape {
  pub vals: Vec<u64>,
  pos: usize,
  rng: Option<Rng>,
}

impl Tape {
  pub fn seeded(seed: u64) -> Self {
    Tape {
      vals: Vec::new(),
      pos: 0,
      rng: Some(Rng::new(seed)),
    }
  }
  pub fn fixed(vals: Vec<u64>) -> Self {
    Tape {
      vals,
      pos: 0,
      rng: None,
    }
  }
  /// A number below n. Past the end of a fixed tape it is 0, the simplest choice.
  pub fn below(&mut self, n: u64) -> u64 {
    let n = n.max(1);
    let v = match &mut self.rng {
      Some(r) => {
        let v = r.next() % n;
        self.vals.push(v);
        v
      }
      None => self.vals.get(self.pos).copied().unwrap_or(0) % n,
    };
    self.pos += 1;
    v
  }
  pub fn n(&mut self, n: usize) -> usize {
    self.below(n as u64) as usize
  }
  /// True in p of 100 cases.
  pub fn p(&mut self, p: u64) -> bool {
    // 0 must mean "no".
    self.below(100) >= 100 - p.min(100)
  }
  pub fn used(&self) -> usize {
    self.pos.min(self.vals.len())
  }
}
