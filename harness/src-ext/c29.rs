//! C29: the bincode codec.
use crate::util::prelude::*;
use bytecodec::bincode_codec::*;

harnesses! {
    encode_u16 [10] {
        let v = nd::u16();
        let mut e = BincodeEncoder::<u16>::new();
        ok!(e.start_encoding(v));
        let mut out = [0u8; 3];
        nd::cases(2, |i| {
            let a = ok!(e.encode(&mut out[..i], Eos::new(false)));
            let b = ok!(e.encode(&mut out[i..], Eos::new(true)));
            assert!(a == i && a + b == 2 && e.is_idle());
            assert!(u16::from_le_bytes([out[0], out[1]]) == v && out[2] == 0);
            witness!(i == 1);
        });
        core::mem::forget(e);
    }
    decode_u16 [10] {
        let b = nd::bytes4();
        let mut d = BincodeDecoder::<u16>::new();
        nd::cases2(3, |i, n| {
            assert!(ok!(d.decode(&b[..i], Eos::new(false))) == i && !d.is_idle());
            let r = d.decode(&b[i..n], Eos::new(true));
            if n >= 2 {
                ok!(r);
                assert!(d.is_idle() && ok!(d.finish_decoding()) == u16::from_le_bytes([b[0], b[1]]));
            } else {
                err!(r, InvalidInput);
                assert!(!d.is_idle());
                err!(d.finish_decoding(), IncompleteDecoding);
            }
            witness!(i == 1 && n == 3);
            witness!(n == 1);
        });
        core::mem::forget(d);
    }
    decode_pair [5] {
        let b = nd::bytes4();
        let mut d = BincodeDecoder::<(u8, u8)>::new();
        ok!(d.decode(&b[..1], Eos::new(false)));
        ok!(d.decode(&b[1..3], Eos::new(true)));
        let (x, y) = ok!(d.finish_decoding());
        assert!(x == b[0] && y == b[1]);
        witness!(x == 3);
        core::mem::forget(d);
    }
    decode_bool [5] {
        let b = nd::u8();
        let mut d = BincodeDecoder::<bool>::new();
        let r = d.decode(&[b], Eos::new(true));
        if b < 2 {
            ok!(r);
            assert!(ok!(d.finish_decoding()) == (b == 1));
        } else {
            err!(r, InvalidInput);
            err!(d.finish_decoding(), IncompleteDecoding);
        }
        witness!(b == 1);
        witness!(b == 9);
        core::mem::forget(d);
    }
    decode_option [5] {
        let b = nd::bytes4();
        let mut d = BincodeDecoder::<Option<u8>>::new();
        ok!(d.decode(&b[..1], Eos::new(false)));
        let r = d.decode(&b[1..2], Eos::new(true));
        if b[0] < 2 {
            ok!(r);
            assert!(ok!(d.finish_decoding()) == if b[0] == 1 { Some(b[1]) } else { None });
        } else {
            err!(r, InvalidInput);
        }
        witness!(b[0] == 1);
        witness!(b[0] == 9);
        core::mem::forget(d);
    }
    encode_tuple [10] {
        let (a, b, some) = (nd::u8(), nd::u16(), nd::bool());
        let n = if some { 4 } else { 2 };
        let mut e = BincodeEncoder::<(u8, Option<u16>)>::new();
        let item = (a, if some { Some(b) } else { None });
        ok!(e.start_encoding(item));
        err!(e.start_encoding((0, None)), EncoderFull);
        nd::cases(2, |i| {
            let mut out = [0u8; 8];
            let x = ok!(e.encode(&mut out[..i], Eos::new(false)));
            let y = ok!(e.encode(&mut out[i..], Eos::new(true)));
            assert!(x == i && x + y == n && e.is_idle());
            assert!(out[0] == a && out[1] == some as u8);
            if some {
                assert!(u16::from_le_bytes([out[2], out[3]]) == b);
            }
            witness!(i == 1 && some);
        });
        core::mem::forget(e);
    }
    encode_short [10] {
        let v = nd::u32();
        nd::cases(4, |i| {
            let mut e = BincodeEncoder::<u32>::new();
            ok!(e.start_encoding(v));
            let mut out = [0u8; 8];
            let r = e.encode(&mut out[..i], Eos::new(true));
            if i == 4 {
                assert!(ok!(r) == 4 && e.is_idle() && u32::from_le_bytes([out[0], out[1], out[2], out[3]]) == v);
            } else {
                err!(r, UnexpectedEos);
            }
            witness!(i == 3);
            core::mem::forget(e);
        });
    }
    decode_next [10] {
        let b = nd::bytes8();
        let mut d = BincodeDecoder::<u16>::new();
        ok!(d.decode(&b[..2], Eos::new(true)));
        assert!(ok!(d.decode(&b[2..4], Eos::new(false))) == 0, "nothing beyond the item");
        assert!(ok!(d.finish_decoding()) == u16::from_le_bytes([b[0], b[1]]));
        ok!(d.decode(&b[2..3], Eos::new(false)));
        ok!(d.decode(&b[3..4], Eos::new(true)));
        assert!(ok!(d.finish_decoding()) == u16::from_le_bytes([b[2], b[3]]));
        witness!(b[0] == 1);
        core::mem::forget(d);
    }
    /// Items of more than a few bytes.
    decode_long [52] {
        let (mut b, at, v) = ([0u8; 96], nd::u8() as usize, nd::u8());
        nd::assume(at < 96);
        b[at] = v;
        let mut d = BincodeDecoder::<([u64; 6], [u64; 6])>::new();
        ok!(d.decode(&b[..40], Eos::new(false)));
        ok!(d.decode(&b[40..], Eos::new(true)));
        let (x, y) = ok!(d.finish_decoding());
        let k = at / 8;
        assert!((if k < 6 { x[k] } else { y[k - 6] }) == (v as u64) << (8 * (at % 8)));
        witness!(at == 95 && v == 3);
        core::mem::forget(d);
    }
}
