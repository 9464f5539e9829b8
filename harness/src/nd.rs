//! Nondeterministic inputs.
//!
//! Under Kani every value is a fresh symbolic variable.  Natively (replay) the
//! values are popped from a queue that the driver filled with the solver's
//! assignment, so the very same harness body is the replay program.

#[cfg(kani)]
mod imp {
    pub fn u8() -> u8 {
        kani::any()
    }
    pub fn u16() -> u16 {
        kani::any()
    }
    pub fn u32() -> u32 {
        kani::any()
    }
    pub fn u64() -> u64 {
        kani::any()
    }
    pub fn bool() -> bool {
        kani::any()
    }
    pub fn assume(b: bool) {
        kani::assume(b)
    }
}

#[cfg(not(kani))]
mod imp {
    use std::cell::RefCell;
    use std::collections::VecDeque;
    thread_local! {
        pub static QUEUE: RefCell<VecDeque<Vec<u8>>> = RefCell::new(VecDeque::new());
    }
    /// Payload of the panic raised when an assumption does not hold.
    pub struct AssumptionFailed;
    fn pop(n: usize) -> u64 {
        let v = QUEUE.with(|q| q.borrow_mut().pop_front());
        let mut b = [0u8; 8];
        if let Some(v) = v {
            for i in 0..n.min(v.len()) {
                b[i] = v[i];
            }
        }
        u64::from_le_bytes(b)
    }
    pub fn u8() -> u8 {
        pop(1) as u8
    }
    pub fn u16() -> u16 {
        pop(2) as u16
    }
    pub fn u32() -> u32 {
        pop(4) as u32
    }
    pub fn u64() -> u64 {
        pop(8)
    }
    pub fn bool() -> bool {
        pop(1) & 1 == 1
    }
    pub fn assume(b: bool) {
        if !b {
            std::panic::panic_any(AssumptionFailed)
        }
    }
}
pub use imp::*;

/// A symbolic number `k <= n`.
pub fn upto(n: u8) -> usize {
    let k = u8();
    assume(k <= n);
    k as usize
}

/// Calls `f(k)` for a symbolic `k <= n`; every `k` is a separate symbolic
/// branch in which `k` is a constant, so sizes derived from it are concrete.
pub fn cases(n: usize, mut f: impl FnMut(usize)) {
    let k = upto(n as u8);
    let mut i = 0;
    while i <= n {
        if k == i {
            f(i);
            return;
        }
        i += 1;
    }
}

/// As `cases`, for a pair `i <= j <= n`.
pub fn cases2(n: usize, mut f: impl FnMut(usize, usize)) {
    cases(n, |j| cases(j, |i| f(i, j)))
}

pub fn bytes4() -> [u8; 4] {
    u32().to_le_bytes()
}
pub fn bytes8() -> [u8; 8] {
    u64().to_le_bytes()
}
pub fn bytes16() -> [u8; 16] {
    let (a, b) = (bytes8(), bytes8());
    let mut r = [0; 16];
    r[..8].copy_from_slice(&a);
    r[8..].copy_from_slice(&b);
    r
}
