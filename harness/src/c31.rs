//! C31: padding fills up to the end, and is checked byte by byte.
use crate::util::prelude::*;

harnesses! {
    decode [8] {
        let b = nd::bytes8();
        let want = if nd::bool() { Some(nd::u8()) } else { None };
        nd::cases2(4, |i, n| {
            let mut d = PaddingDecoder::new(want);
            assert!(d.expected_byte() == want && !d.is_idle() && d.requiring_bytes() == ByteCount::Infinite);
            let all = |x: &[u8]| {
                let mut ok = true;
                let mut j = 0;
                while j < x.len() {
                    ok = ok && (want.is_none() || want == Some(x[j]));
                    j += 1;
                }
                ok
            };
            let e = any_open_eos();
            let r = d.decode(&b[..i], e);
            if !all(&b[..i]) {
                err!(r, InvalidInput);
                return;
            }
            assert!(ok!(r) == i && !d.is_idle(), "takes everything before the end");
            err!(d.finish_decoding(), IncompleteDecoding);
            let r = d.decode(&b[i..n], Eos::new(true));
            if !all(&b[i..n]) {
                err!(r, InvalidInput);
                return;
            }
            assert!(ok!(r) == n - i && d.is_idle() && d.requiring_bytes() == ByteCount::Finite(0));
            assert!(ok!(d.decode(&b[n..], Eos::new(true))) == 0, "nothing after the end");
            ok!(d.finish_decoding());
            assert!(!d.is_idle());
            witness!(i == 1 && n == 4 && want == Some(9));
            witness!(i == 1 && n == 4 && want.is_none());
        });
    }
    /// The expected byte can be changed, also between two calls.
    set_expected [8] {
        let b = nd::bytes4();
        let (x, y) = (nd::u8(), nd::u8());
        let mut d = PaddingDecoder::new(Some(x));
        let r = d.decode(&b[..2], Eos::new(false));
        if b[0] != x || b[1] != x {
            err!(r, InvalidInput);
            return;
        }
        ok!(r);
        let other = if nd::bool() { Some(y) } else { None };
        d.set_expected_byte(other);
        assert!(d.expected_byte() == other);
        let r = d.decode(&b[2..4], Eos::new(true));
        if other.is_none() || (b[2] == y && b[3] == y) {
            assert!(ok!(r) == 2);
        } else {
            err!(r, InvalidInput);
        }
        witness!(other == Some(y) && x != y && b[2] == y && b[3] == y);
    }
    encode [8] {
        let p = nd::u8();
        nd::cases2(4, |i, n| {
            let mut e = PaddingEncoder::new();
            let mut out = [p ^ 1; 6];
            assert!(e.is_idle() && e.requiring_bytes() == ByteCount::Finite(0));
            assert!(ok!(e.encode(&mut out, Eos::new(true))) == 0 && out[0] == p ^ 1, "no item, no bytes");
            ok!(e.start_encoding(p));
            err!(e.start_encoding(p ^ 2), EncoderFull);
            let eos = any_open_eos();
            assert!(ok!(e.encode(&mut out[..i], eos)) == i && !e.is_idle() && e.requiring_bytes() == ByteCount::Infinite);
            assert!(ok!(e.encode(&mut out[i..n], Eos::new(true))) == n - i && e.is_idle());
            let mut j = 0;
            while j < 6 {
                assert!(out[j] == if j < n { p } else { p ^ 1 }, "all of the room, and nothing beyond");
                j += 1;
            }
            assert!(ok!(e.encode(&mut out, Eos::new(true))) == 0);
            ok!(e.start_encoding(p ^ 2));
            assert!(ok!(e.encode(&mut out[..1], Eos::new(true))) == 1 && out[0] == p ^ 2);
            witness!(i == 1 && n == 4);
        });
    }
    /// A field padded to a fixed size.
    field [8] {
        let b = nd::bytes4();
        let mut e = U8Encoder::new().chain(PaddingEncoder::new()).length(4);
        ok!(e.start_encoding((b[0], b[1])));
        let mut out = [0u8; 5];
        nd::cases(4, |i| {
            let x = ok!(e.encode(&mut out[..i], Eos::new(false)));
            let y = ok!(e.encode(&mut out[i..], Eos::new(false)));
            assert!(x == i && x + y == 4 && e.is_idle());
            assert!(out[0] == b[0] && out[1] == b[1] && out[2] == b[1] && out[3] == b[1] && out[4] == 0);
            let mut d = U8Decoder::new().chain(PaddingDecoder::new(Some(b[1]))).length(4);
            assert!(ok!(d.decode(&out[..i], Eos::new(false))) == i);
            assert!(ok!(d.decode(&out[i..], Eos::new(false))) == 4 - i && d.is_idle());
            let (v, ()) = ok!(d.finish_decoding());
            assert!(v == b[0]);
            witness!(i == 3);
        });
    }
    null [8] {
        let b = nd::bytes4();
        let e = any_eos();
        let mut d = NullDecoder;
        assert!(d.is_idle() && d.requiring_bytes() == ByteCount::Finite(0));
        assert!(ok!(d.decode(&b, e)) == 0);
        ok!(d.finish_decoding());
        ok!(d.finish_decoding());
        let mut n = NullEncoder;
        let mut out = b;
        assert!(n.is_idle() && n.requiring_bytes() == ByteCount::Finite(0) && n.exact_requiring_bytes() == 0);
        ok!(n.start_encoding(()));
        ok!(n.start_encoding(()));
        assert!(ok!(n.encode(&mut out, e)) == 0 && out[0] == b[0] && out[3] == b[3] && n.is_idle());
        // between other elements it takes no bytes
        let mut t = TupleDecoder::new((U8Decoder::new(), NullDecoder, U8Decoder::new()));
        assert!(ok!(t.decode(&b, Eos::new(false))) == 2 && t.is_idle());
        let (x, (), y) = ok!(t.finish_decoding());
        assert!(x == b[0] && y == b[1]);
        let mut t = TupleEncoder::new((NullEncoder, U8Encoder::new(), NullEncoder));
        ok!(t.start_encoding(((), b[2], ())));
        assert!(t.exact_requiring_bytes() == 1 && ok!(t.encode(&mut out, Eos::new(true))) == 1 && out[0] == b[2] && t.is_idle());
        witness!(e.is_reached());
    }
    /// Long padding, one byte of it different.
    large [52] {
        let (p, at, v) = (nd::u8(), nd::u16() as usize, nd::u8());
        nd::assume(at < 50);
        let mut b = [p; 50];
        b[at] = v;
        let mut d = PaddingDecoder::new(Some(p));
        let r = d.decode(&b[..17], Eos::new(false));
        if v != p && at < 17 {
            err!(r, InvalidInput);
        } else {
            assert!(ok!(r) == 17);
            let r = d.decode(&b[17..], Eos::new(true));
            if v != p {
                err!(r, InvalidInput);
            } else {
                assert!(ok!(r) == 33 && d.is_idle());
            }
        }
        witness!(v != p && at == 49);
        witness!(v == p);
    }
    encode_large [302] {
        let (p, at) = (nd::u8(), nd::u16() as usize);
        nd::assume(at < 300);
        let mut out = [p ^ 1; 300];
        let mut e = PaddingEncoder::new();
        ok!(e.start_encoding(p));
        assert!(ok!(e.encode(&mut out[..40], Eos::new(false))) == 40 && !e.is_idle());
        assert!(ok!(e.encode(&mut out[40..299], Eos::new(true))) == 259 && e.is_idle());
        assert!(out[at] == if at < 299 { p } else { p ^ 1 });
        witness!(at == 298);
    }
}
