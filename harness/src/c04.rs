//! C04: the encoded bytes do not depend on the sizes of the output buffers.
use crate::util::prelude::*;

fn split<E: Encode>(mk: impl Fn() -> E, item: impl Fn(&[u8; 8]) -> E::Item, b: [u8; 8], len: usize, _: &str) {
    let mut e = mk();
    ok!(e.start_encoding(item(&b)));
    let mut want = [0xA5u8; 9];
    assert!(ok!(e.encode(&mut want, Eos::new(false))) == len, "an ample buffer takes the whole item");
    assert!(e.is_idle());
    let mut k = len;
    while k < 9 {
        assert!(want[k] == 0xA5, "nothing is written past the reported size");
        k += 1;
    }
    let check = |i: usize, j: usize| {
        let mut e = mk();
        ok!(e.start_encoding(item(&b)));
        let mut out = [0xA5u8; 9];
        assert!(ok!(e.encode(&mut out[..i], Eos::new(false))) == i, "the buffer is filled");
        assert!(e.is_idle() == (i == len));
        assert!(ok!(e.encode(&mut out[i..j], Eos::new(false))) == j - i, "the buffer is filled");
        assert!(e.is_idle() == (j == len));
        assert!(ok!(e.encode(&mut out[j..], Eos::new(j == 1))) == len - j);
        assert!(e.is_idle(), "complete after the last byte");
        let mut k = 0;
        while k < 9 {
            assert!(out[k] == want[k], "same bytes as in one piece");
            k += 1;
        }
        assert!(ok!(e.encode(&mut out, Eos::new(j == 0))) == 0, "an idle encoder writes nothing");
        witness!(i == 1 && j >= i);
    };
    if len <= 3 || cfg!(feature = "thorough") {
        nd::cases2(len, |i, j| check(i, j));
    } else {
        nd::cases(len, |i| check(i, if i + 2 <= len { i + 2 } else { len }));
    }
}
sized_encoders!(sized, split);
unsized_encoders!(unsized_, split);
thorough! {
    sized_extra!(sized_x, split);
}
walk_encoders!(w, w_split, w_step, w_uns, 4);

/// Items larger than a byte can count: any one byte set, looked at where it should arrive.
pub mod large {
    use super::*;
    use crate::c03::large::{cut, input, N};
    fn check<E: Encode>(mut e: E, item: impl Fn([u8; N]) -> E::Item) {
        let (b, at, v) = input();
        let probe = nd::u16() as usize;
        nd::assume(probe < N + 2);
        ok!(e.start_encoding(item(b)));
        nd::cases(4, |i| {
            let i = cut(i);
            let mut out = [0xA5u8; N + 2];
            assert!(ok!(e.encode(&mut out[..i], Eos::new(false))) == i && !e.is_idle());
            assert!(e.requiring_bytes() == ByteCount::Finite((N - i) as u64));
            assert!(ok!(e.encode(&mut out[i..], Eos::new(false))) == N - i && e.is_idle());
            assert!(out[probe] == if probe >= N { 0xA5 } else if probe == at { v } else { 0 });
            witness!(i == 256 && at == 256 && v == 7);
        });
    }
    harnesses! {
        bytes [6] {
            check(BytesEncoder::new(), |b| b);
        }
        limited [6] {
            check(BytesEncoder::new().length(N as u64), |b| b);
        }
        last [6] {
            check(BytesEncoder::new().optional(), |b| Some(b));
        }
    }
}
tables!(large, sized, unsized_, sized_x, w, w_uns, w_split, w_step);
