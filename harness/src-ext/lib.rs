//! Harnesses that need the crate's optional features.
#![allow(clippy::all)]
#![allow(dead_code)]
#![allow(unused_macros)]

#[macro_use]
#[path = "../src/macros.rs"]
mod macros;
#[path = "../src/nd.rs"]
pub mod nd;
#[macro_use]
#[path = "../src/util.rs"]
pub mod util;

macro_rules! modules {
    ($($m:ident)*) => {
        $(pub mod $m;)*
        #[cfg(not(kani))]
        pub fn table() -> Vec<(&'static str, fn())> {
            let mut v = Vec::new();
            $(v.extend($m::all());)*
            v
        }
    };
}
modules! { c24 c28 c29 }
