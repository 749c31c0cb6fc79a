#![allow(dead_code, unused_imports)]
extern crate alloc;
#[macro_use]
#[path = "../../shared/base.rs"]
pub mod base;
#[path = "../../shared/c15.rs"]
pub mod c15;
#[path = "../../shared/c04.rs"]
pub mod c04;
#[path = "../../shared/attr.rs"]
pub mod attr;
