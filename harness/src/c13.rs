//! C13: length-delimited codecs are exact.
use crate::util::prelude::*;

harnesses! {
    /// Two calls, any declared length, any announced remainder.
    decode_until_eos [14] {
        let len = nd::u64();
        let (a, c) = (nd::upto(3), nd::upto(3));
        {{
            let buf = [0u8; 4];
            let mut d = UntilEos::new().length(len);
            assert!(d.expected_bytes() == len && d.remaining_bytes() == len);
            assert!(d.requiring_bytes() == ByteCount::Finite(len));
            let n = ok!(d.decode(&buf[..a], Eos::new(false)));
            assert!(n as u64 == if (a as u64) < len { a as u64 } else { len }, "never past the declared length");
            assert!(d.inner_ref().last_len == n);
            assert!(d.inner_ref().eos == (n as u64 == len), "the inner stream ends exactly at the declared length");
            assert!(d.is_idle() == (n as u64 == len));
            assert!(d.remaining_bytes() == len - n as u64);
            let left = len - n as u64;
            let eos = any_eos();
            let take = if (c as u64) < left { c as u64 } else { left };
            let r = d.decode(&buf[..c], eos);
            let enough = match eos.remaining_bytes() { ByteCount::Finite(m) => m >= left - take, _ => true };
            if !enough {
                err!(r, UnexpectedEos);
            } else {
                assert!(ok!(r) as u64 == take);
                assert!(d.remaining_bytes() == left - take);
                assert!(d.is_idle() == (take == left), "complete exactly at the declared length");
                if d.is_idle() {
                    assert!(ok!(d.finish_decoding()) == len, "the item is made of exactly the declared bytes");
                    assert!(d.remaining_bytes() == len && !d.is_idle(), "ready for the next item");
                } else {
                    err!(d.finish_decoding(), IncompleteDecoding);
                }
            }
            witness!(enough && a == 3 && len == 5 && c == 2);
            witness!(!enough && len > u32::MAX as u64);
        }}
    }
    /// The inner decoder is told how much of its stream is left.
    decode_announces [14] {
        let len = nd::u64();
        let a = nd::upto(3);
        {
            let buf = [0u8; 4];
            nd::assume(len > 0);
            let mut d = UntilEos::new().length(len);
            let n = ok!(d.decode(&buf[..a], Eos::new(false))) as u64;
            match d.inner_ref().last_eos {
                Some(e) => assert!(e.remaining_bytes() == ByteCount::Finite(len - n)),
                None => panic!("the inner decoder is used"),
            }
            witness!(len > 3 && a == 3);
        }
    }
    /// An inner item of another size never comes out of a length-delimited decoder.
    decode_wrong_inner_size [14] {
        let (len, need) = (nd::u64(), nd::u64());
        nd::assume(need > 0 && len != need);
        let a = nd::upto(4);
        {
            let buf = [0u8; 4];
            let mut d = Need::new(need).length(len);
            let eos = Eos::new(nd::bool());
            let ok = match d.decode(&buf[..a], eos) {
                Ok(n) => { assert!(n <= a && n as u64 <= len && n as u64 <= need); true }
                Err(_) => false,
            };
            assert!(d.finish_decoding().is_err(), "no item unless it has the declared length");
            witness!(ok && need == 2 && len == 3);
            witness!(!ok && need == 3 && len == 2);
        }
    }
    decode_right_inner_size [14] {
        let need = nd::u64();
        nd::assume(need > 0);
        let a = nd::upto(4);
        {
            let buf = [0u8; 4];
            let mut d = Need::new(need).length(need);
            let n = ok!(d.decode(&buf[..a], Eos::new(false))) as u64;
            assert!(d.is_idle() == (n == need));
            assert!(d.requiring_bytes() == ByteCount::Finite(need - n));
            if n == need {
                assert!(ok!(d.finish_decoding()) == need);
            } else {
                err!(d.finish_decoding(), IncompleteDecoding);
            }
            witness!(need == 4 && a == 4);
        }
    }
    /// The expected length may change between items, and only there.
    set_expected [14] {
        let (l1, l2) = (nd::u64(), nd::u64());
        nd::cases(2, |a| {
            let buf = [0u8; 4];
            let mut d = UntilEos::new().length(l1);
            let n = ok!(d.decode(&buf[..a], Eos::new(false)));
            let r = d.set_expected_bytes(l2);
            if n == 0 {
                assert!(r.is_ok() && d.expected_bytes() == l2 && d.remaining_bytes() == l2);
            } else {
                assert!(r.is_err(), "not in the middle of an item");
                assert!(d.expected_bytes() == l1 && d.remaining_bytes() == l1 - n as u64);
                if d.is_idle() {
                    ok!(d.finish_decoding());
                    ok!(d.set_expected_bytes(l2));
                    assert!(d.expected_bytes() == l2 && d.remaining_bytes() == l2);
                }
            }
            witness!(n == 2 && l1 == 2);
        });
    }
    /// Content: three declared bytes out of a longer stream.
    decode_content [14] {
        let b = nd::bytes8();
        nd::cases(3, |i| {
            let mut d = TupleDecoder::new((Tail::default().length(3), U8Decoder::new()));
            assert!(ok!(d.decode(&b[..i], Eos::new(false))) == i);
            assert!(ok!(d.decode(&b[i..], Eos::new(true))) == 4 - i, "the following codec starts right after");
            let (t, u) = ok!(d.finish_decoding());
            assert!(t.n == 3 && t.get(0) == b[0] as u64 && t.get(1) == b[1] as u64 && t.get(2) == b[2] as u64);
            assert!(u == b[3]);
            witness!(i == 2);
        });
    }
    /// An encoder with a length emits exactly that many bytes or an error.
    encode_exact [14] {
        let (len, n) = (nd::u64(), nd::u64());
        let mut out = [0u8; 4];
        let (a, c) = (nd::upto(4), nd::upto(2));
        {{
            let mut e = Emit::new().length(len);
            ok!(e.start_encoding(n));
            let mut total = 0u64;
            let mut failed = false;
            match e.encode(&mut out[..a], Eos::new(false)) {
                Ok(m) => total += m as u64,
                Err(_) => failed = true,
            }
            if !failed && !e.is_idle() {
                match e.encode(&mut out[..c], Eos::new(false)) {
                    Ok(m) => total += m as u64,
                    Err(_) => failed = true,
                }
            }
            assert!(total <= len, "never more than the declared length");
            if !failed && e.is_idle() {
                assert!(n == len && total == len, "complete only with exactly the declared length");
            }
            if failed {
                assert!(n != len, "an item of the declared length is not refused");
            }
            if n < len && n <= a as u64 && a > 0 {
                assert!(failed, "a smaller item is refused");
            }
            if n > len && len <= a as u64 {
                assert!(failed, "a larger item is refused");
            }
            if n == len && n <= a as u64 {
                assert!(!failed && total == len && e.is_idle());
            }
            witness!(!failed && e.is_idle() && len == 5);
            witness!(failed && n > len && len > 0);
        }}
    }
    /// The whole budget is available again for the next item.
    encode_again [14] {
        nd::cases(3, |len| {
            let mut out = [0u8; 8];
            let mut e = Emit::new().length(len as u64);
            ok!(e.start_encoding(len as u64));
            assert!(ok!(e.encode(&mut out, Eos::new(false))) == len && e.is_idle());
            assert!(e.expected_bytes() == len as u64 && e.exact_requiring_bytes() == 0);
            ok!(e.start_encoding(len as u64));
            if len > 0 { assert!(e.exact_requiring_bytes() == len as u64); }
            assert!(ok!(e.encode(&mut out, Eos::new(true))) == len && e.is_idle());
            let l2 = nd::u64();
            ok!(e.set_expected_bytes(l2));
            assert!(e.expected_bytes() == l2);
            witness!(len == 3);
        });
    }
    encode_truncated [14] {
        let len = nd::u64();
        let a = nd::upto(3);
        {
            let mut out = [0u8; 4];
            nd::assume(len > a as u64);
            let mut e = Emit::new().length(len);
            ok!(e.start_encoding(len));
            err!(e.encode(&mut out[..a], Eos::new(true)), UnexpectedEos);
            witness!(a == 3);
        }
    }
    /// Something infinite is cut at the declared length.
    encode_padding [14] {
        let p = nd::u8();
        nd::cases(4, |len| nd::cases(4, |a| {
            nd::assume(len > 0);
            let mut e = PaddingEncoder::new().length(len as u64);
            ok!(e.start_encoding(p));
            let mut out = [!p; 9];
            let n = if a < len { a } else { len };
            assert!(ok!(e.encode(&mut out[..a], Eos::new(false))) == n);
            assert!(ok!(e.encode(&mut out[n..], Eos::new(false))) == len - n && e.is_idle());
            let mut i = 0;
            while i < 9 {
                assert!(out[i] == if i < len { p } else { !p }, "exactly the declared number of bytes is written");
                i += 1;
            }
            witness!(len == 4 && a == 2);
        }));
    }
    /// An item that takes no bytes fits no positive length.
    encode_nothing [14] {
        let len = nd::u64();
        let mut e = NullEncoder.length(len);
        let r = e.start_encoding(());
        assert!(r.is_ok() == (len == 0));
        let mut e = U8Encoder::new().optional().length(len);
        let r = e.start_encoding(None);
        assert!(r.is_ok() == (len == 0), "an absent item fits only an empty frame");
        witness!(len == 0);
        witness!(len > 0);
    }
}
