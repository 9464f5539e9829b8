//! C12: one item at a time; a refused item does no harm; encoders are reusable.
use crate::util::prelude::*;

fn full<E: Encode>(mk: impl Fn() -> E, item: impl Fn(&[u8; 8]) -> E::Item, b: [u8; 8], len: usize, _: &str) {
    let other = nd::bytes8();
    let mut want = [0u8; 9];
    let mut e = mk();
    ok!(e.start_encoding(item(&b)));
    assert!(ok!(e.encode(&mut want, Eos::new(false))) == len);
    let mut want2 = [0u8; 9];
    let mut e = mk();
    ok!(e.start_encoding(item(&other)));
    assert!(ok!(e.encode(&mut want2, Eos::new(false))) == len);
    nd::cases(len - 1, |i| {
        let mut e = mk();
        let mut out = [0u8; 9];
        ok!(e.start_encoding(item(&b)));
        assert!(ok!(e.encode(&mut out[..i], Eos::new(false))) == i);
        err!(e.start_encoding(item(&other)), EncoderFull);
        assert!(!e.is_idle());
        assert!(ok!(e.encode(&mut out[i..], Eos::new(false))) == len - i);
        assert!(e.is_idle());
        let mut k = 0;
        while k < len {
            assert!(out[k] == want[k], "the refused item did not disturb the one in flight");
            k += 1;
        }
        // reuse
        ok!(e.start_encoding(item(&other)));
        assert!(!e.is_idle());
        let mut out = [0u8; 9];
        assert!(ok!(e.encode(&mut out, Eos::new(false))) == len);
        assert!(e.is_idle());
        let mut k = 0;
        while k < len {
            assert!(out[k] == want2[k], "the second item equals a fresh encoder's");
            k += 1;
        }
        witness!(i == len - 1 && want[0] != want2[0]);
    });
}
sized_encoders!(sized, full);
unsized_encoders!(unsized_, full);
thorough! {
    sized_extra!(sized_x, full);
}
/// Whether or not an item of no bytes is still pending after it was accepted,
/// it is neither lost nor replaced, and writes nothing.
fn no_bytes<E: Encode>(mk: impl Fn() -> E, empty: impl Fn() -> E::Item, other: E::Item) {
    let mut e = mk();
    ok!(e.start_encoding(empty()));
    let mut out = [0x5Au8; 3];
    if !e.is_idle() {
        err!(e.start_encoding(other), EncoderFull);
        assert!(!e.is_idle(), "the refused item does not take the place of the pending one");
        assert!(ok!(e.encode(&mut out, Eos::new(nd::bool()))) == 0 && e.is_idle());
    }
    assert!(out[0] == 0x5A && e.requiring_bytes() == ByteCount::Finite(0));
    // and again, without any room
    ok!(e.start_encoding(empty()));
    assert!(ok!(e.encode(&mut [], Eos::new(nd::bool()))) == 0 && e.is_idle());
    assert!(ok!(e.encode(&mut out, Eos::new(true))) == 0 && out[0] == 0x5A);
    witness!(true);
}
pub mod more {
    use super::*;
    harnesses! {
        padding [14] {
            let mut e = PaddingEncoder::new();
            let (a, b) = (nd::u8(), nd::u8());
            ok!(e.start_encoding(a));
            err!(e.start_encoding(b), EncoderFull);
            let mut out = [0u8; 4];
            assert!(ok!(e.encode(&mut out[..2], Eos::new(false))) == 2);
            err!(e.start_encoding(b), EncoderFull);
            assert!(ok!(e.encode(&mut out[2..], Eos::new(true))) == 2);
            assert!(out[0] == a && out[3] == a && e.is_idle());
            ok!(e.start_encoding(b));
            assert!(ok!(e.encode(&mut out, Eos::new(true))) == 4 && out[1] == b);
            witness!(a != b);
        }
        /// An item of no bytes is an item all the same.
        empty_bytes [14] { no_bytes(|| BytesEncoder::<&[u8]>::new(), || &[][..], &[1, 2][..]); }
        empty_utf8 [14] { no_bytes(|| Utf8Encoder::<&str>::new(), || "", "ab"); }
        empty_pre_encoded [14] { no_bytes(|| BytesEncoder::<&[u8]>::new().pre_encode(), || &[][..], &[1, 2][..]); }
        empty_optional [14] { no_bytes(|| BytesEncoder::<&[u8]>::new().optional(), || Some(&[][..]), Some(&[1, 2][..])); }
        empty_tuple [14] {
            no_bytes(|| TupleEncoder::new((BytesEncoder::<&[u8]>::new(), Utf8Encoder::<&str>::new())), || (&[][..], ""), (&[1][..], "a"));
        }
        empty_slice [14] { no_bytes(|| BytesEncoder::<&[u8]>::new().slice(), || &[][..], &[][..]); }
        empty_max_bytes [14] { no_bytes(|| BytesEncoder::<&[u8]>::new().max_bytes(2), || &[][..], &[1, 2][..]); }
        empty_length [14] { no_bytes(|| BytesEncoder::<&[u8]>::new().length(0), || &[][..], &[][..]); }
        empty_repeat [14] { no_bytes(|| U8Encoder::new().repeat(), || Ints::new([0; 8], 0), Ints::new([1; 8], 2)); }
        empty_boxed [14] { no_bytes(|| Box::new(BytesEncoder::<&[u8]>::new()), || &[][..], &[1, 2][..]); }
        /// A refused conversion leaves the encoder as it was.
        try_map_from_rejects [14] {
            let mut e = U8Encoder::new().try_map_from(|v: u8| -> Result<u8> {
                if v > 9 { Err(ErrorKind::Other.into()) } else { Ok(v) }
            });
            let v = nd::u8();
            let r = e.start_encoding(v);
            assert!(r.is_ok() == (v <= 9) && e.is_idle() == (v > 9));
            if v > 9 { ok!(e.start_encoding(3)); }
            let mut out = [0u8; 2];
            assert!(ok!(e.encode(&mut out, Eos::new(false))) == 1);
            assert!(out[0] == if v > 9 { 3 } else { v });
            witness!(v > 9);
            witness!(v <= 9);
        }
        tuple_first_rejects [14] {
            let v = nd::u32();
            let mut e = TupleEncoder::new((U24beEncoder::new(), U8Encoder::new()));
            let r = e.start_encoding((v, 1));
            assert!(r.is_ok() == (v < 1 << 24) && e.is_idle() == r.is_err());
            if e.is_idle() {
                ok!(e.start_encoding((5, 6)));
                assert!(e.exact_requiring_bytes() == 4);
            }
            witness!(v >= 1 << 24);
        }
        /// Known finding: a later element that rejects the item leaves the
        /// earlier elements started, and the encoder unusable.
        kf_tuple_half_started [14] {
            let mut e = TupleEncoder::new((U8Encoder::new(), U24beEncoder::new()));
            err!(e.start_encoding((1, 0x0100_0000)), InvalidInput);
            assert!(e.is_idle(), "a rejected item leaves the encoder idle");
        }
    }
}
walk_encoders!(w, w_split, w_step, w_uns, 12);
tables!(sized, unsized_, more, sized_x, w, w_uns, w_split, w_step);
