//! C06: how much a decoder consumes of what it is offered.
use crate::util::prelude::*;

/// End-of-stream announcements compatible with more bytes to come.
fn open_eos(k: usize) -> Eos {
    match k {
        0 => Eos::new(false),
        _ => Eos::with_remaining_bytes(ByteCount::Finite(64)),
    }
}

fn framed_consume<D: Decode>(mk: impl Fn() -> D, b: [u8; 8], len: usize, _: &str)
where
    D::Item: PartialEq,
{
    let mut whole = mk();
    assert!(ok!(whole.decode(&b[..len], Eos::new(false))) == len);
    let expected = ok!(whole.finish_decoding());
    nd::cases(1, |e| {
        // ends inside or at the end of the item
        nd::cases(len, |i| {
            let mut d = mk();
            assert!(!d.is_idle(), "a fresh decoder has no item");
            assert!(ok!(d.decode(&b[..i], open_eos(e))) == i, "takes all it can use");
            assert!(d.is_idle() == (i == len), "idle exactly when the item is complete");
            if i < len {
                let n = ok!(d.decode(&b[i..8], open_eos(e)));
                assert!(i + n == len, "stops at the item's end");
                assert!(d.is_idle());
            }
            let n = ok!(d.decode(&b[len..8], Eos::new(e == 1)));
            assert!(n == 0 && d.is_idle(), "a complete item consumes nothing more");
            assert!(ok!(d.finish_decoding()) == expected, "bytes after the item do not affect it");
            witness!(i == len);
        });
    });
    // more than the item in one call
    nd::cases(1, |e| {
        let mut d = mk();
        let n = ok!(d.decode(&b[..len + 1], Eos::new(e == 1)));
        assert!(n == len, "stops at the item's end");
        assert!(d.is_idle());
        assert!(ok!(d.finish_decoding()) == expected, "bytes after the item do not affect it");
    });
}

fn eos_consume<D: Decode>(mk: impl Fn() -> D, b: [u8; 8], len: usize, _: &str)
where
    D::Item: PartialEq,
{
    nd::cases(len, |i| {
        let mut d = mk();
        assert!(ok!(d.decode(&b[..i], Eos::new(false))) == i, "everything offered is consumed");
        assert!(!d.is_idle(), "not complete before the end of the stream");
        assert!(ok!(d.decode(&b[i..len], Eos::new(true))) == len - i);
        assert!(d.is_idle(), "complete at the end of the stream");
        assert!(ok!(d.decode(&[], Eos::new(true))) == 0 && d.is_idle());
        assert!(ok!(d.decode(&b[6..], Eos::new(nd::bool()))) == 0 && d.is_idle(), "a complete item consumes nothing more");
        let mut whole = mk();
        assert!(ok!(whole.decode(&b[..len], Eos::new(true))) == len);
        assert!(ok!(d.finish_decoding()) == ok!(whole.finish_decoding()));
        witness!(i == 2);
    });
}

framed_decoders!(framed, framed_consume);
eos_decoders!(eos, eos_consume);
thorough! {
    framed_extra!(framed_x, framed_consume);
    eos_extra!(eos_x, eos_consume);
}
walk_decoders!(w, w_end, w_split, w_step, 6);

/// Items larger than a byte can count, with more behind them.
pub mod large {
    use super::*;
    use crate::c03::large::{cut, input, N};
    fn check<D: Decode>(mut d: D, same: impl Fn(&D::Item, usize) -> u8) {
        let (b, at, v) = input();
        let mut more = [0x5Au8; N + 290];
        more[..N].copy_from_slice(&b);
        let probe = nd::u16() as usize;
        nd::assume(probe < N);
        nd::cases(4, |i| {
            let i = cut(i);
            assert!(ok!(d.decode(&more[..i], Eos::new(false))) == i && !d.is_idle());
            assert!(ok!(d.decode(&more[i..], Eos::new(false))) == N - i && d.is_idle());
            assert!(ok!(d.decode(&more[N..], Eos::new(true))) == 0 && d.is_idle());
            let item = core::mem::ManuallyDrop::new(ok!(d.finish_decoding()));
            assert!(same(&item, probe) == if probe == at { v } else { 0 });
            witness!(i == 256 && at == 256 && v == 7);
        });
    }
    harnesses! {
        copyable [6] {
            check(CopyableBytesDecoder::new([0xffu8; N]), |x, k| x[k]);
        }
        one_shot [6] {
            check(BytesDecoder::new([0xffu8; N]), |x, k| x[k]);
        }
        limited [6] {
            check(RemainingBytesDecoder::new().length(N as u64), |x, k| x[k]);
        }
        buffered [6] {
            check(CopyableBytesDecoder::new([0xffu8; N]).max_bytes(N as u64 + 290), |x, k| x[k]);
        }
    }
}
tables!(large, framed, eos, framed_x, eos_x, w, w_end, w_split, w_step);
