//! C03: the decoded item does not depend on how the input is cut into chunks.
use crate::util::prelude::*;

fn split<D: Decode>(mk: impl Fn() -> D, b: [u8; 8], len: usize, until_eos: bool)
where
    D::Item: PartialEq,
{
    let last = Eos::new(until_eos);
    let mut whole = mk();
    assert!(ok!(whole.decode(&b[..len], last)) == len);
    let expected = ok!(whole.finish_decoding());
    let check = |i: usize, j: usize| {
        let mut d = mk();
        let mut n = ok!(d.decode(&b[..i], Eos::new(false)));
        if i != j {
            n += ok!(d.decode(&b[n..j], Eos::new(false)));
        }
        n += ok!(d.decode(&b[n..len], last));
        assert!(n == len, "the chunks are consumed completely");
        assert!(d.is_idle());
        let item = ok!(d.finish_decoding());
        assert!(item == expected, "same item as in one piece");
        witness!(i == 1 && j >= i);
    };
    if len <= 3 || cfg!(feature = "thorough") {
        nd::cases2(len, |i, j| check(i, j));
    } else {
        nd::cases(len, |i| check(i, if i + 2 <= len { i + 2 } else { len }));
    }
}

/// One byte per call, with empty calls in between.
fn bytewise<D: Decode>(mk: impl Fn() -> D, b: [u8; 8], len: usize, until_eos: bool)
where
    D::Item: PartialEq,
{
    let mut whole = mk();
    assert!(ok!(whole.decode(&b[..len], Eos::new(until_eos))) == len);
    let expected = ok!(whole.finish_decoding());
    let mut d = mk();
    let mut i = 0;
    while i < len {
        let pause = nd::bool();
        if pause {
            assert!(ok!(d.decode(&[], Eos::new(false))) == 0);
        }
        assert!(ok!(d.decode(&b[i..i + 1], Eos::new(until_eos && i + 1 == len))) == 1);
        i += 1;
    }
    assert!(d.is_idle());
    assert!(ok!(d.finish_decoding()) == expected, "same item byte by byte");
}


fn framed_split<D: Decode>(mk: impl Fn() -> D, b: [u8; 8], len: usize, _: &str) where D::Item: PartialEq {
    split(mk, b, len, false)
}
fn eos_split<D: Decode>(mk: impl Fn() -> D, b: [u8; 8], len: usize, _: &str) where D::Item: PartialEq {
    split(mk, b, len, true)
}
framed_decoders!(framed, framed_split);
eos_decoders!(eos, eos_split);
thorough! {
    fn framed_bytewise<D: Decode>(mk: impl Fn() -> D, b: [u8; 8], len: usize, _: &str) where D::Item: PartialEq {
        bytewise(mk, b, len, false)
    }
    fn eos_bytewise<D: Decode>(mk: impl Fn() -> D, b: [u8; 8], len: usize, _: &str) where D::Item: PartialEq {
        bytewise(mk, b, len, true)
    }
    framed_extra!(framed_x, framed_split);
    eos_extra!(eos_x, eos_split);
    framed_decoders!(framed_b, framed_bytewise);
    framed_extra!(framed_bx, framed_bytewise);
    eos_decoders!(eos_b, eos_bytewise);
    eos_extra!(eos_bx, eos_bytewise);
}
walk_decoders!(w, w_end, w_split, w_step, 3);

/// Items larger than a byte can count: any one byte set, looked at where it should arrive.
pub mod large {
    use super::*;
    pub const N: usize = 300;
    pub fn cut(i: usize) -> usize {
        match i {
            0 => 1,
            1 => 44,
            2 => 255,
            3 => 256,
            _ => 299,
        }
    }
    pub fn input() -> ([u8; N], usize, u8) {
        let (mut b, at, v) = ([0u8; N], nd::u16() as usize, nd::u8());
        nd::assume(at < N);
        b[at] = v;
        (b, at, v)
    }
    fn check<D: Decode>(mut d: D, until_eos: bool, same: impl Fn(&D::Item, usize) -> u8) {
        let (b, at, v) = input();
        let probe = nd::u16() as usize;
        nd::assume(probe < N);
        nd::cases(4, |i| {
            let i = cut(i);
            let mut n = ok!(d.decode(&b[..i], Eos::new(false)));
            n += ok!(d.decode(&b[n..], Eos::new(until_eos)));
            assert!(n == N && d.is_idle());
            let item = core::mem::ManuallyDrop::new(ok!(d.finish_decoding()));
            assert!(same(&item, probe) == if probe == at { v } else { 0 });
            witness!(i == 256 && at == 256 && v == 7);
        });
    }
    harnesses! {
        copyable [6] {
            check(CopyableBytesDecoder::new([0xffu8; N]), false, |x, k| x[k]);
        }
        one_shot [6] {
            check(BytesDecoder::new([0xffu8; N]), false, |x, k| x[k]);
        }
        remaining [6] {
            check(RemainingBytesDecoder::new(), true, |x, k| x[k]);
        }
        limited [6] {
            check(RemainingBytesDecoder::new().length(N as u64), false, |x, k| x[k]);
        }
        copyable_limited [6] {
            check(CopyableBytesDecoder::new([0xffu8; N]).length(N as u64), false, |x, k| x[k]);
        }
    }
}
tables!(large, framed, eos, framed_x, eos_x, framed_b, framed_bx, eos_b, eos_bx, w, w_end, w_split, w_step);
