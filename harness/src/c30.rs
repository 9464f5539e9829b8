//! C30: text is decoded exactly when it is valid UTF-8.
use crate::util::prelude::*;

/// Length of the valid UTF-8 sequence at the start of `b`, or 0 (RFC 3629).
fn seq(b: &[u8]) -> usize {
    let at = |i: usize| if i < b.len() { b[i] } else { 0 };
    let cont = |i: usize| at(i) & 0xc0 == 0x80;
    match at(0) {
        0x00..=0x7f if !b.is_empty() => 1,
        0xc2..=0xdf if cont(1) => 2,
        0xe0 if at(1) >= 0xa0 && cont(1) && cont(2) => 3,
        0xed if at(1) < 0xa0 && cont(1) && cont(2) => 3,
        0xe1..=0xec | 0xee..=0xef if cont(1) && cont(2) => 3,
        0xf0 if at(1) >= 0x90 && cont(1) && cont(2) && cont(3) => 4,
        0xf4 if at(1) < 0x90 && cont(1) && cont(2) && cont(3) => 4,
        0xf1..=0xf3 if cont(1) && cont(2) && cont(3) => 4,
        _ => 0,
    }
}
fn valid(b: &[u8]) -> bool {
    let mut i = 0;
    while i < b.len() {
        let n = seq(&b[i..]);
        if n == 0 {
            return false;
        }
        i += n;
    }
    true
}
fn check(d: &mut Utf8Decoder, b: &[u8]) {
    let want = valid(b);
    match d.finish_decoding() {
        Ok(s) => {
            assert!(want, "only valid text is an item");
            let s = core::mem::ManuallyDrop::new(s);
            let t = s.as_bytes();
            assert!(t.len() == b.len());
            let mut j = 0;
            while j < b.len() {
                assert!(t[j] == b[j], "unchanged");
                j += 1;
            }
        }
        Err(e) => assert!(!want && *e.kind() == ErrorKind::InvalidInput, "valid text is accepted, other is invalid input"),
    }
}
fn refuse(b: &[u8]) {
    let mut d = Utf8Decoder::new();
    assert!(ok!(d.decode(b, Eos::new(true))) == b.len());
    err!(d.finish_decoding(), InvalidInput);
    witness!(!d.is_idle());
    core::mem::forget(d);
}

harnesses! {
    two [6] {
        let b = nd::bytes4();
        nd::cases(2, |i| {
            let mut d = Utf8Decoder::new();
            assert!(ok!(d.decode(&b[..i], Eos::new(false))) == i);
            assert!(ok!(d.decode(&b[i..2], Eos::new(true))) == 2 - i);
            check(&mut d, &b[..2]);
            core::mem::forget(d);
            witness!(i == 1 && b[0] == 0xc3 && b[1] == 0xa9);
            witness!(i == 1 && b[0] == 0xc0);
        });
    }
    three [6] {
        let mut b = nd::bytes4();
        b[0] = 0xe0 | b[0] & 0x0f;
        let mut d = Utf8Decoder::new();
        assert!(ok!(d.decode(&b[..3], Eos::new(true))) == 3);
        check(&mut d, &b[..3]);
        core::mem::forget(d);
        witness!(b[0] == 0xed && b[1] == 0xa0 && b[2] == 0x80);
    }
    four [6] {
        let mut b = nd::bytes4();
        b[0] = 0xf0 | b[0] & 0x07;
        let mut d = Utf8Decoder::new();
        assert!(ok!(d.decode(&b, Eos::new(true))) == 4);
        check(&mut d, &b);
        core::mem::forget(d);
        witness!(b[0] == 0xf4 && b[1] == 0x90 && b[2] == 0x80 && b[3] == 0x80);
    }
    /// After invalid text, the next text is decoded on its own.
    after_invalid [6] {
        let b = nd::bytes4();
        nd::assume(b[1] < 0x80);
        let mut d = Utf8Decoder::new();
        ok!(d.decode(&[0xff], Eos::new(true)));
        err!(d.finish_decoding(), InvalidInput);
        assert!(!d.is_idle());
        ok!(d.decode(&b[1..2], Eos::new(true)));
        check(&mut d, &b[1..2]);
        core::mem::forget(d);
        witness!(true);
    }
    /// Text cut off in the middle of a character, or with a character too many.
    cut_off [6] { refuse(&[0x61, 0xc3]) }
    cut_off_long [6] { refuse(&[0xc3, 0xa9, 0xe2, 0x82]) }
    left_over [6] { refuse(&[0x61, 0x62, 0xa9]) }
    interrupted [6] { refuse(&[0x61, 0xe2, 0x82, 0x61]) }
    over_another_decoder [6] {
        let b = nd::bytes4();
        let mut d = Utf8Decoder::with_bytes_decoder(RemainingBytesDecoder::new().length(2));
        assert!(d.requiring_bytes() == ByteCount::Finite(2));
        nd::assume(b[1] < 0x80);
        assert!(ok!(d.decode(&b, Eos::new(false))) == 2 && d.is_idle());
        match d.finish_decoding() {
            Ok(s) => {
                let s = core::mem::ManuallyDrop::new(s);
                assert!(b[0] < 0x80 && s.as_bytes()[0] == b[0] && s.len() == 2);
            }
            Err(e) => assert!(b[0] >= 0x80 && *e.kind() == ErrorKind::InvalidInput),
        }
        core::mem::forget(d);
        witness!(b[0] < 0x80);
    }
    encode [6] {
        let c = nd::u8();
        nd::assume(c < 0x80);
        let b = [c, 0xc3, 0xa9];
        let s = match std::str::from_utf8(&b) { Ok(s) => s, Err(_) => panic!("valid") };
        nd::cases(3, |i| {
            let mut e = Utf8Encoder::new();
            ok!(e.start_encoding(s));
            let mut out = [0u8; 4];
            assert!(e.exact_requiring_bytes() == 3);
            let x = ok!(e.encode(&mut out[..i], Eos::new(false)));
            let y = ok!(e.encode(&mut out[i..], Eos::new(true)));
            assert!(x == i && x + y == 3 && e.is_idle());
            assert!(out[0] == c && out[1] == 0xc3 && out[2] == 0xa9 && out[3] == 0);
            witness!(i == 2);
        });
    }
    /// Every kind of character, cut anywhere.
    encode_wide [10] {
        let s = "\u{1F600}\u{20ac}";
        let b = s.as_bytes();
        nd::cases(7, |i| nd::cases(1, |k| {
            let k = if k == 0 { 7 - i } else if i < 4 { 3 } else { (7 - i) / 2 };
            let mut e = Utf8Encoder::new();
            ok!(e.start_encoding(s));
            let mut out = [0u8; 8];
            assert!(e.exact_requiring_bytes() == 7);
            assert!(ok!(e.encode(&mut out[..i], Eos::new(false))) == i, "room is used up, also inside a character");
            assert!(e.exact_requiring_bytes() == 7 - i as u64 && e.is_idle() == (i == 7));
            assert!(ok!(e.encode(&mut out[i..i + k], Eos::new(false))) == k);
            assert!(ok!(e.encode(&mut out[i + k..], Eos::new(true))) == 7 - i - k && e.is_idle());
            let mut j = 0;
            while j < 7 {
                assert!(out[j] == b[j]);
                j += 1;
            }
            assert!(out[7] == 0);
            witness!(i == 3 && k == 3);
        }));
    }
}
