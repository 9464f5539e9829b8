//! C17: repeating, optional, trailing and pre-encoded items.
use crate::util::prelude::*;

harnesses! {
    /// All items of the iterator, in order, none twice, empty ones included.
    repeat [14] {
        let b = nd::bytes8();
        nd::cases(3, |n| nd::cases(3, |i| {
            let mut e = U8Encoder::new().repeat();
            ok!(e.start_encoding(Ints::new(b, n)));
            assert!(!e.is_idle(), "even an empty sequence is an item");
            let mut out = [0x5Au8; 5];
            let i = if i < n { i } else { n };
            assert!(ok!(e.encode(&mut out[..i], Eos::new(false))) == i);
            assert!(ok!(e.encode(&mut out[i..], Eos::new(false))) == n - i);
            assert!(e.is_idle() && e.requiring_bytes() == ByteCount::Finite(0));
            let mut k = 0;
            while k < n {
                assert!(out[k] == b[k], "in order");
                k += 1;
            }
            assert!(out[n] == 0x5A, "and nothing else");
            witness!(n == 3 && i == 1);
        }));
    }
    repeat_optional [14] {
        let b = nd::bytes8();
        nd::cases(7, |mask| {
            let mut i = 0;
            let it = core::iter::from_fn(move || {
                i += 1;
                if i > 3 { None } else if mask >> (i - 1) & 1 == 1 { Some(Some(b[i - 1])) } else { Some(None) }
            });
            let mut e = U8Encoder::new().optional().repeat();
            ok!(e.start_encoding(it));
            let mut out = [0u8; 5];
            let mut want = [0u8; 5];
            let mut n = 0;
            let mut k = 0;
            while k < 3 {
                if mask >> k & 1 == 1 { want[n] = b[k]; n += 1; }
                k += 1;
            }
            assert!(ok!(e.encode(&mut out, Eos::new(false))) == n, "absent items take no bytes and end nothing");
            assert!(e.is_idle());
            assert!(out[0] == want[0] && out[1] == want[1] && out[2] == want[2]);
            witness!(mask == 5);
        });
    }
    repeat_empty_items [6] {
        let n = nd::upto(3);
        let mut i = 0;
        let it = core::iter::from_fn(move || { i += 1; if i > n { None } else { Some(()) } });
        let mut e = NullEncoder.repeat();
        ok!(e.start_encoding(it));
        let mut out = [0u8; 2];
        assert!(ok!(e.encode(&mut out, Eos::new(nd::bool()))) == 0 && e.is_idle());
        witness!(n == 3);
    }
    repeat_any_sizes [6] {
        // items of any sizes: the total is right and nothing is lost
        let (x, y) = (nd::u64(), nd::u64());
        nd::assume(x > 0 && y > 0 && x <= 5 && y <= 5);
        let mut k = 0;
        let it = core::iter::from_fn(move || { k += 1; match k { 1 => Some(x), 2 => Some(y), _ => None } });
        let mut e = Emit::new().repeat();
        ok!(e.start_encoding(it));
        let mut out = [0u8; 12];
        let a = nd::upto(6);
        let n = ok!(e.encode(&mut out[..a], Eos::new(false)));
        assert!(n as u64 == if (a as u64) < x + y { a as u64 } else { x + y }, "the buffer is filled across items");
        let m = ok!(e.encode(&mut out, Eos::new(false)));
        assert!((n + m) as u64 == x + y && e.is_idle());
        witness!(x == 5 && y == 1 && a == 5);
    }
    /// An item whose encoder is suspended is waited for, not dropped or an error.
    repeat_suspended [6] {
        let (x, budget) = (nd::u64(), nd::u64());
        nd::assume(x > 0 && x <= 5 && budget <= 8);
        let mut k = 0;
        let it = core::iter::from_fn(move || { k += 1; if k <= 2 { Some(x) } else { None } });
        let mut s = Emit::new().slice();
        s.set_consumable_bytes(budget);
        let mut e = s.repeat();
        ok!(e.start_encoding(it));
        let mut out = [0u8; 12];
        let n = ok!(e.encode(&mut out, Eos::new(false))) as u64;
        assert!(n == if budget < 2 * x { budget } else { 2 * x }, "as much as the budget allows");
        assert!(e.is_idle() == (n == 2 * x));
        if n < 2 * x {
            assert!(ok!(e.encode(&mut out, Eos::new(false))) == 0 && !e.is_idle(), "still suspended");
            e.inner_mut().set_consumable_bytes(100);
            assert!(ok!(e.encode(&mut out, Eos::new(false))) as u64 == 2 * x - n && e.is_idle(), "and resumed");
        }
        witness!(x == 3 && budget == 4);
        witness!(x == 3 && budget == 3);
        witness!(x == 3 && budget == 0);
        witness!(x == 4 && budget == 8);
    }
    repeat_error [6] {
        // a refused item is reported
        let v = nd::u32();
        let mut e = U24beEncoder::new().repeat();
        ok!(e.start_encoding(core::iter::once(v)));
        let mut out = [0u8; 4];
        let r = e.encode(&mut out, Eos::new(false));
        if v < 1 << 24 {
            assert!(ok!(r) == 3 && e.is_idle());
        } else {
            err!(r, InvalidInput);
        }
        witness!(v >= 1 << 24);
    }
    optional [14] {
        let v = nd::u16();
        let mut out = [0u8; 3];
        let mut e = U16beEncoder::new().optional();
        ok!(e.start_encoding(None));
        assert!(e.is_idle() && e.exact_requiring_bytes() == 0, "an absent item is complete at once");
        assert!(ok!(e.encode(&mut out, Eos::new(nd::bool()))) == 0);
        ok!(e.start_encoding(Some(v)));
        assert!(!e.is_idle() && e.exact_requiring_bytes() == 2);
        assert!(ok!(e.encode(&mut out, Eos::new(nd::bool()))) == 2 && e.is_idle());
        assert!(out[0] == (v >> 8) as u8 && out[1] == v as u8);
        witness!(v > 0xff);
    }
    /// While an item is in flight a second one is refused, not dropped.
    optional_busy [6] {
        let mut e = Emit::new().optional();
        let (n, m) = (nd::u64(), nd::u64());
        nd::assume(n > 0);
        ok!(e.start_encoding(Some(n)));
        let mut out = [0u8; 4];
        let k = ok!(e.encode(&mut out[..nd::upto(4)], Eos::new(false))) as u64;
        if k < n {
            err!(e.start_encoding(Some(m)), EncoderFull);
            assert!(!e.is_idle() && e.exact_requiring_bytes() == n - k, "the first one is unharmed");
        } else {
            ok!(e.start_encoding(Some(m)));
            assert!(!e.is_idle() && e.exact_requiring_bytes() == m);
        }
        witness!(n == 3 && k == 2);
        witness!(n == 3 && k == 3);
    }
    /// The last item follows whatever is in flight, once.
    last [14] {
        let b = nd::bytes8();
        nd::cases(1, |busy| nd::cases(2, |i| {
            let mut inner = U16beEncoder::new();
            if busy == 1 {
                ok!(inner.start_encoding(u16::from_be_bytes([b[0], b[1]])));
            }
            let mut e = inner.last(u16::from_be_bytes([b[2], b[3]]));
            let mut out = [0x5Au8; 8];
            let mut n = 0;
            let mut calls = 0;
            n += ok!(e.encode(&mut out[..i], Eos::new(false)));
            while !e.is_idle() {
                n += ok!(e.encode(&mut out[n..], Eos::new(false)));
                calls += 1;
                assert!(calls <= 3, "makes progress");
            }
            assert!(n == 2 + 2 * busy);
            let skip = 2 - 2 * busy;
            let mut k = 0;
            while k < n {
                assert!(out[k] == b[k + skip], "the item in flight first, then the last one");
                k += 1;
            }
            assert!(out[n] == 0x5A);
            assert!(ok!(e.encode(&mut out, Eos::new(false))) == 0 && e.is_idle(), "only once");
            witness!(busy == 1 && i == 1);
        }));
    }
    /// The last item in an output that ends.
    last_truncated [14] {
        let (busy, n) = (nd::u64(), nd::u64());
        let a = nd::upto(4);
        let mut inner = Emit::new();
        if busy > 0 {
            ok!(inner.start_encoding(busy));
        }
        let mut e = inner.last(n);
        let mut out = [0u8; 4];
        let mut done = 0;
        if nd::bool() {
            done = ok!(e.encode(&mut out[..nd::upto(2)], Eos::new(false)));
        }
        let r = e.encode(&mut out[..a], Eos::new(true));
        if (busy as u128) + (n as u128) > (a + done) as u128 {
            err!(r, UnexpectedEos);
        } else {
            assert!(ok!(r) + done == (busy + n) as usize && e.is_idle());
        }
        witness!(busy == 2 && n == 2 && a == 3);
        witness!(busy == 2 && n == 2 && a == 4);
        witness!(busy == 0 && n == 2 && a == 1);
    }
    pre_encode [14] {
        let b = nd::bytes8();
        // the size of something of unknown size is known after pre-encoding
        nd::cases(3, |n| {
            let mut e = U8Encoder::new().repeat().pre_encode();
            ok!(e.start_encoding(Ints::new(b, n)));
            assert!(e.exact_requiring_bytes() == n as u64 && e.requiring_bytes() == ByteCount::Finite(n as u64));
            let mut out = [0x5Au8; 5];
            assert!(ok!(e.encode(&mut out, Eos::new(true))) == n && e.is_idle());
            let mut k = 0;
            while k < n {
                assert!(out[k] == b[k]);
                k += 1;
            }
            assert!(out[n] == 0x5A);
            witness!(n == 3);
        });
    }
    /// A second item is refused before the first is written, and changes nothing.
    pre_encode_busy [14] {
        let b = nd::bytes8();
        nd::cases2(2, |i, n| {
            if i == n && n != 0 { return; }
            let mut e = U8Encoder::new().repeat().pre_encode();
            ok!(e.start_encoding(Ints::new(b, n)));
            let mut out = [0x5Au8; 3];
            if i > 0 {
                assert!(ok!(e.encode(&mut out[..i.min(n)], Eos::new(false))) == i.min(n));
            }
            if !e.is_idle() {
                err!(e.start_encoding(Ints::new([0; 8], 1)), EncoderFull);
                err!(e.encode_into_bytes(Ints::new([0; 8], 1)), EncoderFull);
            }
            assert!(e.exact_requiring_bytes() == (n - i.min(n)) as u64);
            assert!(ok!(e.encode(&mut out[i.min(n)..], Eos::new(true))) == n - i.min(n) && e.is_idle());
            assert!((n < 1 || out[0] == b[0]) && (n < 2 || out[1] == b[1]) && out[2] == 0x5A);
            witness!(n == 2 && i == 1);
            witness!(n == 0);
        });
    }
    pre_encode_rejects [14] {
        let v = nd::u32();
        let mut e = U24beEncoder::new().pre_encode();
        let r = e.start_encoding(v);
        if v >= 1 << 24 {
            err!(r, InvalidInput);
            assert!(e.is_idle() && e.exact_requiring_bytes() == 0, "errors show up at the start");
            ok!(e.start_encoding(1));
        }
        assert!(e.exact_requiring_bytes() == 3);
        witness!(v >= 1 << 24);
    }
    encode_into_bytes [14] {
        let b = nd::bytes8();
        let v = ok!(TupleEncoder::new((U8Encoder::new(), U16leEncoder::new())).encode_into_bytes((b[0], u16::from_le_bytes([b[1], b[2]]))));
        assert!(v.len() == 3 && v[0] == b[0] && v[1] == b[1] && v[2] == b[2]);
        nd::cases(2, |n| {
            let mut e = U8Encoder::new().repeat();
            let v = ok!(e.encode_into_bytes(Ints::new(b, n)));
            assert!(v.len() == n && (n < 1 || v[0] == b[0]) && (n < 2 || v[1] == b[1]));
            assert!(e.is_idle());
            witness!(n == 2);
        });
        err!(PaddingEncoder::new().encode_into_bytes(b[0]), InvalidInput);
        err!(U24beEncoder::new().encode_into_bytes(0x0100_0000), InvalidInput);
    }
    with_item [14] {
        let v = nd::u16();
        let mut e = ok!(U16leEncoder::with_item(v));
        assert!(!e.is_idle() && e.exact_requiring_bytes() == 2);
        let mut out = [0u8; 2];
        assert!(ok!(e.encode(&mut out, Eos::new(true))) == 2 && e.is_idle());
        assert!(u16::from_le_bytes(out) == v);
        err!(U24beEncoder::with_item(v as u32 + 0x0100_0000), InvalidInput);
        witness!(v > 0xff);
    }
}
