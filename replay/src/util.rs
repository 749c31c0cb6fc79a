//! Random source, case bookkeeping.
use std::collections::BTreeMap;

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng { let mut r = Rng(seed ^ 0x5851F42D4C957F2D); let a = r.next(); r.0 = a.rotate_left(17) ^ seed.wrapping_mul(0xD6E8FEB86659FD93); r }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() % (n as u64)) as usize } }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 { lo + (self.next() % ((hi - lo + 1) as u64)) as i64 }
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.next() % den < num }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len())] }
    pub fn shuffle<T>(&mut self, v: &mut Vec<T>) { for i in (1..v.len()).rev() { let j = self.below(i + 1); v.swap(i, j); } }
}

/// What a case tells about itself.
#[derive(Default)]
pub struct Info {
    pub nontrivial: bool,
    pub sample: String,
    pub counts: BTreeMap<&'static str, u64>,
    pub trace: Vec<String>,
    pub key: u64,
}
impl Info {
    pub fn count(&mut self, k: &'static str) { *self.counts.entry(k).or_insert(0) += 1; }
    pub fn note<S: Into<String>>(&mut self, s: S) { self.trace.push(s.into()); }
    pub fn feed(&mut self, s: &str) {
        for b in s.as_bytes() { self.key = (self.key ^ (*b as u64)).wrapping_mul(0x100000001b3); }
    }
}
pub type Case = Result<(), String>;

#[macro_export]
macro_rules! chk {
    ($c:expr, $($arg:tt)*) => { if !$c { return Err(format!($($arg)*)); } };
}
