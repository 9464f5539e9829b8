//! Symbolic harnesses over the public API of `bytecodec`.
//!
//! `harnesses!` declares each harness once: under Kani it becomes a proof
//! harness with its unwinding bound, natively an entry of the replay table.
#![allow(clippy::all)]
#![allow(dead_code)]

#[macro_use]
mod macros;
pub mod nd;
#[macro_use]
pub mod util;
#[macro_use]
pub mod walk;
pub mod io_mock;

macro_rules! modules {
    ($($m:ident)*) => {
        $(pub mod $m;)*
        #[cfg(not(kani))]
        pub fn table() -> Vec<(&'static str, fn())> {
            let mut v = Vec::new();
            $(v.extend($m::all());)*
            v
        }
    };
}
modules! { c01 c02 c03 c04 c05 c06 c07 c08 c09 c10 c11 c12 c13 c14 c15 c16 c17 c18 c19 c20 c21 c22 c23 c25 c26 c27 c30 c31 c32 c34 c35 c36 c37 c38 }
