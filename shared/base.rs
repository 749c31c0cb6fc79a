// Executable contracts over the real crates.  This file is compiled twice:
//  * by Kani, where `KSrc` draws *symbolic* values: each contract is then decided for every
//    value of its inputs (no bound unless the contract says so);
//  * by the replay crate, where a source is random, exhaustive or a counterexample recorded by
//    Kani: each contract is then a test against the real code.
pub trait Source {
    fn u8(&mut self) -> u8;
    fn i64(&mut self) -> i64;
    fn u32(&mut self) -> u32;
    fn bool(&mut self) -> bool;
}

/// Ok(true): the precondition held and every obligation too; Ok(false): precondition false.
pub type R = Result<bool, String>;

#[cfg(kani)]
pub struct KSrc;
/// Stubs: error messages and environment variables never influence a contract.
#[cfg(kani)]
pub fn no_env<K: AsRef<std::ffi::OsStr>>(_k: K) -> Option<std::ffi::OsString> { None }
#[cfg(kani)]
pub fn no_format(_a: std::fmt::Arguments<'_>) -> String { String::new() }
#[cfg(kani)]
impl Source for KSrc {
    fn u8(&mut self) -> u8 { kani::any() }
    fn i64(&mut self) -> i64 { kani::any() }
    fn u32(&mut self) -> u32 { kani::any() }
    fn bool(&mut self) -> bool { kani::any() }
}

#[cfg(kani)]
#[macro_export]
macro_rules! need { ($c:expr) => { kani::assume($c) }; }
#[cfg(not(kani))]
#[macro_export]
macro_rules! need { ($c:expr) => { if !$c { return Ok(false); } }; }

#[cfg(kani)]
#[macro_export]
macro_rules! ck { ($c:expr, $n:expr) => { kani::assert($c, $n) }; }
#[cfg(not(kani))]
#[macro_export]
macro_rules! ck { ($c:expr, $n:expr) => { if !$c { return Err(String::from($n)); } }; }

/// Declares the contracts of a module: Kani harnesses under Kani, a name->fn table otherwise.
#[macro_export]
macro_rules! contracts {
    ($modname:ident; $( $name:ident [$unw:expr] ),* $(,)?) => {
        #[cfg(kani)]
        mod $modname {
            use super::*;
            $(
                #[kani::proof]
                #[kani::unwind($unw)]
                #[kani::stub(std::env::var_os, crate::base::no_env)]
                #[kani::stub(alloc::fmt::format, crate::base::no_format)]
                fn $name() {
                    let mut s = KSrc;
                    let r = super::$name(&mut s);
                    kani::cover(r.is_ok(), "contract precondition is reachable");
                }
            )*
        }
        #[cfg(not(kani))]
        pub mod $modname {
            #[allow(unused_imports)]
            use super::*;
            pub fn table<S: Source>() -> Vec<(&'static str, fn(&mut S) -> R)> {
                vec![ $( (stringify!($name), super::$name::<S> as fn(&mut S) -> R) ),* ]
            }
        }
    };
}
