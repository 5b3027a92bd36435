//! Symbolic sources: an iterator over symbolic items that counts how often it is pulled.
use std::cell::Cell;

pub struct Src<'a, T> { pub d: &'a [T], pub i: usize, pub pulls: &'a Cell<usize> }
impl<'a, T: Clone> Iterator for Src<'a, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        if self.i < self.d.len() {
            self.pulls.set(self.pulls.get() + 1);
            self.i += 1;
            Some(self.d[self.i - 1].clone())
        } else {
            None
        }
    }
}
