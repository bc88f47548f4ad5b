//! Choices of style, made from one number that shrinks to the plain style.

use std::cell::Cell;

pub struct Dice(Cell<u64>);

impl Dice {
    /// 0 always chooses the first.
    pub fn new(seed: u64) -> Self {
        Self(Cell::new(seed))
    }
    pub fn pick(&self, n: usize) -> usize {
        let s = self.0.get();
        if s == 0 || n < 2 {
            return 0;
        }
        let s = s.wrapping_add(0x9e37_79b9_7f4a_7c15);
        self.0.set(if s == 0 { 1 } else { s });
        let mut z = s;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        ((z ^ (z >> 31)) % n as u64) as usize
    }
    /// Once in `n`, and never for the plain style.
    pub fn once_in(&self, n: usize) -> bool {
        self.0.get() != 0 && self.pick(n) == n - 1
    }
    pub fn pick_of<X: Clone>(&self, of: &[X]) -> X {
        of[self.pick(of.len())].clone()
    }
    pub fn of<'a, T: ?Sized>(&self, of: &[&'a T]) -> &'a T {
        of[self.pick(of.len())]
    }
}
