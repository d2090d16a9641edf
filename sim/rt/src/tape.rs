use crate::{rng::Rng, shm};
/// A stream of bounded draws. 0 is always the simplest choice.
pub struct Tape { rng: Option<Rng>, fixed: Vec<u64>, pos: usize, thread: u32, op: u32 }
impl Tape {
    pub fn seeded(seed: u64, thread: u32, op: u32) -> Self { Tape { rng: Some(Rng::new(seed)), fixed: vec![], pos: 0, thread, op } }
    /// Draws that are not part of the plan (they follow from the seed given).
    pub fn quiet(seed: u64) -> Self { Self::seeded(seed, 254, 0) }
    pub fn fixed(v: Vec<u64>, thread: u32, op: u32) -> Self { Tape { rng: None, fixed: v, pos: 0, thread, op } }
    /// Uniform in 0..n.
    pub fn draw(&mut self, n: u64) -> u64 {
        let v = match &mut self.rng {
            Some(r) => r.below(n.max(1)),
            None => { let v = self.fixed.get(self.pos).copied().unwrap_or(0); self.pos += 1; v.min(n.max(1) - 1) }
        };
        unsafe {
            let s = &mut *shm::SHM;
            let i = s.nrec as usize;
            if self.thread == 254 { return v; }
            if i < shm::MAX_REC { s.rec[i] = (self.thread, self.op, v); s.nrec += 1; } else { s.rec_overflow = 1; }
        }
        v
    }
    pub fn usize(&mut self, n: usize) -> usize { self.draw(n as u64) as usize }
    /// True with probability num/den; false is the simple choice.
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.draw(den) >= den - num }
    pub fn pick<T: Copy>(&mut self, v: &[T]) -> T { v[self.usize(v.len())] }
    /// Index drawn with the given weights.
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let t: u64 = w.iter().sum();
        let mut x = self.draw(t);
        for (i, k) in w.iter().enumerate() { if x < *k { return i; } x -= k; }
        w.len() - 1
    }
    /// Any 64-bit value.
    pub fn word(&mut self) -> u64 { self.draw(u64::MAX) }
}
