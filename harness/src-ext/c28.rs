//! C28: the JSON codec.
use crate::util::prelude::*;
use bytecodec::json_codec::*;

/// `n` in decimal digits.
fn digits(n: u8) -> ([u8; 3], usize) {
    let (a, b, c) = (n / 100, n / 10 % 10, n % 10);
    if a > 0 {
        ([b'0' + a, b'0' + b, b'0' + c], 3)
    } else if b > 0 {
        ([b'0' + b, b'0' + c, 0], 2)
    } else {
        ([b'0' + c, 0, 0], 1)
    }
}

harnesses! {
    encode_u8 [10] {
        let v = nd::u8();
        let mut e = JsonEncoder::<u8>::new();
        ok!(e.start_encoding(v));
        let mut out = [0u8; 4];
        let n = ok!(e.encode(&mut out, Eos::new(true)));
        let (want, len) = digits(v);
        assert!(n == len && out[0] == want[0] && out[1] == want[1] && out[2] == want[2] && e.is_idle());
        witness!(v == 217);
        core::mem::forget(e);
    }
    decode_null [6] {
        let b = nd::u8();
        let mut d = JsonDecoder::<()>::new();
        ok!(d.decode(&[b'n', b'u'], Eos::new(false)));
        let r = d.decode(&[b'l', b], Eos::new(true));
        if b == b'l' {
            ok!(r);
            ok!(d.finish_decoding());
        } else {
            err!(r, InvalidInput);
            err!(d.finish_decoding(), IncompleteDecoding);
        }
        witness!(b == b'l');
        witness!(b == b'x');
        core::mem::forget(d);
    }
    decode_cut [6] {
        let mut d = JsonDecoder::<bool>::new();
        ok!(d.decode(b"tr", Eos::new(false)));
        err!(d.decode(b"u", Eos::new(true)), InvalidInput);
        witness!(true);
        core::mem::forget(d);
    }
    decode_trailing [6] {
        let b = nd::u8();
        let mut d = JsonDecoder::<()>::new();
        ok!(d.decode(b"null", Eos::new(false)));
        let r = d.decode(&[b], Eos::new(true));
        if b == b' ' || b == b'\n' || b == b'\r' || b == b'\t' {
            ok!(r);
            ok!(d.finish_decoding());
        } else {
            err!(r, InvalidInput);
            err!(d.finish_decoding(), IncompleteDecoding);
        }
        witness!(b == b'\n');
        witness!(b == b'l');
        core::mem::forget(d);
    }
    /// Small buffers, a second item, no third one in between.
    encode_cut [6] {
        let x = nd::bool();
        let mut e = JsonEncoder::<bool>::new();
        ok!(e.start_encoding(x));
        err!(e.start_encoding(true), EncoderFull);
        let mut out = [0u8; 8];
        assert!(ok!(e.encode(&mut out[..2], Eos::new(false))) == 2 && !e.is_idle());
        let n = ok!(e.encode(&mut out[2..], Eos::new(true)));
        assert!(n == if x { 2 } else { 3 } && e.is_idle());
        let want = if x { *b"true\0" } else { *b"false" };
        assert!(out[0] == want[0] && out[1] == want[1] && out[2] == want[2] && out[3] == want[3] && out[4] == want[4]);
        witness!(x);
        core::mem::forget(e);
    }
    encode_next [6] {
        let x = nd::bool();
        let mut e = JsonEncoder::<Option<bool>>::new();
        ok!(e.start_encoding(None));
        let mut out = [0u8; 10];
        assert!(ok!(e.encode(&mut out[..6], Eos::new(false))) == 4 && e.is_idle());
        let v = Some(x);
        ok!(e.start_encoding(v));
        let n = ok!(e.encode(&mut out[4..], Eos::new(true)));
        assert!(n == if x { 4 } else { 5 } && e.is_idle());
        let want = if x { *b"nulltrue\0" } else { *b"nullfalse" };
        let mut i = 0;
        while i < 3 {
            assert!(out[3 * i] == want[3 * i] && out[3 * i + 1] == want[3 * i + 1] && out[3 * i + 2] == want[3 * i + 2]);
            i += 1;
        }
        witness!(!x);
        core::mem::forget(e);
    }
    /// An output that ends inside the item.
    encode_short [6] {
        let x = nd::bool();
        let mut e = JsonEncoder::<bool>::new();
        ok!(e.start_encoding(x));
        let mut out = [0u8; 8];
        let r = e.encode(&mut out[..4], Eos::new(true));
        if x {
            assert!(ok!(r) == 4);
        } else {
            err!(r, UnexpectedEos);
        }
        witness!(!x);
        core::mem::forget(e);
    }
    decode_empty [4] {
        let mut d = JsonDecoder::<u8>::new();
        err!(d.decode(&[], Eos::new(true)), InvalidInput);
        witness!(true);
        core::mem::forget(d);
    }
}
