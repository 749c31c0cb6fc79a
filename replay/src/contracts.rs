//! The executable contracts, driven by random, exhaustive or recorded inputs.
use crate::base::*;
use crate::util::*;

pub struct RandSrc<'a>(pub &'a mut Rng);
impl<'a> Source for RandSrc<'a> {
    fn u8(&mut self) -> u8 { self.0.next() as u8 }
    fn bool(&mut self) -> bool { self.0.next() & 1 == 1 }
    fn u32(&mut self) -> u32 { let k = self.0.below(33); (self.0.next() as u32).checked_shr(k as u32).unwrap_or(0) }
    fn i64(&mut self) -> i64 {
        let k = self.0.below(70);
        let x = self.0.next() as i64;
        match k { 0..=63 => x >> k, 64 => i64::MAX, 65 => i64::MIN, 66 => i64::MAX - 1, _ => self.0.range(-3, 8) }
    }
}
/// Counterexample values recorded by the verifier, in order of use.
pub struct Script { vals: Vec<Vec<u8>>, i: usize }
impl Script {
    fn take(&mut self, n: usize) -> Vec<u8> { let mut v = self.vals.get(self.i).cloned().unwrap_or_default(); self.i += 1; v.resize(n, 0); v }
}
impl Source for Script {
    fn u8(&mut self) -> u8 { self.take(1)[0] }
    fn bool(&mut self) -> bool { self.take(1)[0] & 1 == 1 }
    fn u32(&mut self) -> u32 { let v = self.take(4); u32::from_le_bytes([v[0], v[1], v[2], v[3]]) }
    fn i64(&mut self) -> i64 { let v = self.take(8); let mut b = [0u8; 8]; b.copy_from_slice(&v); i64::from_le_bytes(b) }
}
fn all<S: Source>() -> Vec<(&'static str, fn(&mut S) -> R)> {
    let mut v = crate::c15::c15_h::table::<S>();
    v.extend(crate::c04::c04_h::table::<S>());
    v.extend(crate::attr::attr_h::table::<S>());
    v
}
pub fn scripted(name: &str, vals: Vec<Vec<u8>>) -> Option<R> {
    let f = all::<Script>().into_iter().find(|c| c.0 == name)?.1;
    let mut s = Script { vals, i: 0 };
    Some(match std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || f(&mut s))) { Ok(r) => r, Err(e) => Err(format!("panic: {}", e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())) })
}
fn random(prefix: &str, r: &mut Rng, info: &mut Info) -> Case {
    for _ in 0..200 {
        let mut t = all::<RandSrc>();
        t.retain(|c| c.0.starts_with(prefix));
        if t.is_empty() { return Ok(()); }
        let (name, f) = t[r.below(t.len())];
        match f(&mut RandSrc(r)) {
            Ok(true) => { info.nontrivial = true; info.count("contract evaluations"); }
            Ok(false) => info.count("precondition false"),
            Err(e) => return Err(format!("contract {}: {}", name, e)),
        }
    }
    Ok(())
}
pub fn c15(r: &mut Rng, i: &mut Info) -> Case { random("c15_", r, i) }
pub fn c04(r: &mut Rng, i: &mut Info) -> Case { random("c04_", r, i) }
pub fn c06(r: &mut Rng, i: &mut Info) -> Case { random("c06_", r, i) }
pub fn c08(r: &mut Rng, i: &mut Info) -> Case { random("c08_", r, i) }
pub fn c09(r: &mut Rng, i: &mut Info) -> Case { random("c09_", r, i) }
