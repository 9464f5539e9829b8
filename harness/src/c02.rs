//! C02: values that do not fit a 24/40/48/56-bit integer are rejected.
use crate::util::prelude::*;

fn range<E: SizedEncode, const N: usize>(mut e: E, v: E::Item, good: E::Item, wide: u64, layout: fn(u64) -> [u8; 8])
where
    E::Item: Copy,
{
    let fits = wide < 1 << (8 * N);
    let r = e.start_encoding(v);
    if fits {
        assert!(r.is_ok(), "a value that fits is accepted");
    } else {
        err!(r, InvalidInput);
        assert!(e.is_idle() && e.exact_requiring_bytes() == 0, "nothing of a rejected value is queued");
        let mut out = [0x5Au8; 8];
        assert!(ok!(e.encode(&mut out, Eos::new(false))) == 0 && out[0] == 0x5A);
        ok!(e.start_encoding(good));
    }
    let mut out = [0x5Au8; 9];
    assert!(e.exact_requiring_bytes() == N as u64);
    assert!(ok!(e.encode(&mut out, Eos::new(false))) == N);
    let want = layout(if fits { wide } else { 5 });
    let mut i = 0;
    while i < N {
        assert!(out[i] == want[i], "the accepted value is written, not a truncation");
        i += 1;
    }
    assert!(out[N] == 0x5A && e.is_idle());
    witness!(fits && wide == (1 << (8 * N)) - 1);
    witness!(wide == 1 << (8 * N));
}

fn be<const N: u32>(v: u64) -> [u8; 8] {
    (v << (64 - 8 * N)).to_be_bytes()
}
fn le(v: u64) -> [u8; 8] {
    v.to_le_bytes()
}
macro_rules! ranges {
    ($($name:ident: $ty:ident, $t:ident, $n:literal, $layout:expr;)*) => { harnesses! { $($name [12] {
        let v = nd::$t();
        range::<_, $n>($ty::new(), v, 5 as $t, v as u64, $layout)
    })* } };
}
ranges! {
    u24be: U24beEncoder, u32, 3, be::<3>;
    u24le: U24leEncoder, u32, 3, le;
    u40be: U40beEncoder, u64, 5, be::<5>;
    u40le: U40leEncoder, u64, 5, le;
    u48be: U48beEncoder, u64, 6, be::<6>;
    u48le: U48leEncoder, u64, 6, le;
    u56be: U56beEncoder, u64, 7, be::<7>;
    u56le: U56leEncoder, u64, 7, le;
}
