//! C15: a slice suspends its codec at the byte budget and resumes it unchanged.
use crate::util::prelude::*;

harnesses! {
    decode [14] {
        let (b1, b2, need) = (nd::u64(), nd::u64(), nd::u64());
        let eos = any_open_eos();
        let (a, c) = (nd::upto(3), nd::upto(3));
        {{
            let buf = [0u8; 4];
            let mut d = Need::new(need).slice();
            assert!(d.is_suspended() && d.consumable_bytes() == 0);
            assert!(ok!(d.decode(&buf[..a], eos)) == 0, "without a budget nothing is consumed");
            assert!(d.inner_ref().last_len == 0);
            d.set_consumable_bytes(b1);
            assert!(d.is_suspended() == (b1 == 0));
            let limit = if (a as u64) < b1 { a as u64 } else { b1 };
            let take = if limit < need { limit } else { need };
            let n = ok!(d.decode(&buf[..a], eos)) as u64;
            assert!(n == take, "the budget is the only limit");
            assert!(d.inner_ref().last_len as u64 == limit, "the codec sees no byte beyond the budget");
            let hidden = a as u64 - limit;
            match (eos.remaining_bytes(), d.inner_ref().last_eos) {
                (ByteCount::Finite(r), Some(e)) => {
                    assert!(r > u64::MAX - 8 || e.remaining_bytes() == ByteCount::Finite(r + hidden), "hidden bytes count as remaining");
                }
                (x, Some(e)) => assert!(e.remaining_bytes() == x),
                _ => panic!("the codec is used"),
            }
            assert!(d.consumable_bytes() == b1 - n && d.is_suspended() == (b1 == n));
            d.set_consumable_bytes(b2);
            let limit = if (c as u64) < b2 { c as u64 } else { b2 };
            let left = need - n;
            let m = ok!(d.decode(&buf[..c], eos)) as u64;
            assert!(m == if limit < left { limit } else { left }, "resumes where it was suspended");
            assert!(d.consumable_bytes() == b2 - m);
            assert!(d.is_idle() == (n + m == need) && d.requiring_bytes() == ByteCount::Finite(need - n - m));
            witness!(b1 == 2 && a == 3 && b2 == 1 && c == 3 && need == 3);
        }}
    }
    /// The end of the input is not the codec's end while bytes are held back.
    decode_eos [14] {
        let (budget, need) = (nd::u64(), nd::u64());
        let a = nd::upto(3);
        {
            let buf = [0u8; 4];
            let mut d = Need::new(need).slice();
            d.set_consumable_bytes(budget);
            let r = d.decode(&buf[..a], Eos::new(true));
            if budget < a as u64 {
                let n = ok!(r) as u64;
                assert!(n == if budget < need { budget } else { need });
                assert!(!d.inner_ref().last_eos.map_or(true, |e| e.is_reached()), "held-back bytes are still to come");
            } else if need > a as u64 {
                err!(r, UnexpectedEos);
            } else {
                assert!(ok!(r) as u64 == need && d.is_idle());
            }
            witness!(budget == 2 && a == 3 && need == 3);
            witness!(budget == 3 && a == 3 && need == 4);
        }
    }
    encode [14] {
        let (b1, b2, total) = (nd::u64(), nd::u64(), nd::u64());
        nd::assume(total > 0);
        let (a, c) = (nd::upto(3), nd::upto(3));
        {{
            let mut out = [0u8; 4];
            let mut e = Emit::new().slice();
            ok!(e.start_encoding(total));
            assert!(e.is_suspended());
            assert!(ok!(e.encode(&mut out[..a], Eos::new(false))) == 0 && out[0] == 0, "without a budget nothing is written");
            e.set_consumable_bytes(b1);
            let limit = if (a as u64) < b1 { a as u64 } else { b1 };
            let n = ok!(e.encode(&mut out[..a], Eos::new(false))) as u64;
            assert!(n == if limit < total { limit } else { total });
            assert!(e.inner_ref().last_len as u64 == limit, "the codec sees no room beyond the budget");
            assert!(e.consumable_bytes() == b1 - n && e.is_suspended() == (b1 == n));
            e.set_consumable_bytes(b2);
            let limit = if (c as u64) < b2 { c as u64 } else { b2 };
            let left = total - n;
            let m = ok!(e.encode(&mut out[..c], Eos::new(false))) as u64;
            assert!(m == if limit < left { limit } else { left }, "resumes where it was suspended");
            assert!(e.exact_requiring_bytes() == left - m && e.is_idle() == (m == left));
            assert!(e.requiring_bytes() == ByteCount::Finite(left - m));
            witness!(b1 == 2 && a == 3 && b2 == 1 && c == 3 && total == 3);
        }}
    }
    encode_eos [14] {
        let (budget, total) = (nd::u64(), nd::u64());
        nd::assume(total > 0);
        let a = nd::upto(3);
        {
            let mut out = [0u8; 4];
            let mut e = Emit::new().slice();
            e.set_consumable_bytes(budget);
            ok!(e.start_encoding(total));
            let r = e.encode(&mut out[..a], Eos::new(true));
            if budget < a as u64 {
                assert!(ok!(r) as u64 == if budget < total { budget } else { total }, "held-back room is still to come");
            } else if total > a as u64 {
                err!(r, UnexpectedEos);
            } else {
                assert!(ok!(r) as u64 == total && e.is_idle());
            }
            witness!(budget == 2 && a == 3 && total == 3);
        }
    }
    /// Two sliced streams multiplexed over one buffer, with real codecs.
    multiplex [14] {
        let b = nd::bytes8();
        let mut x = U24beDecoder::new().slice();
        let mut y = U16leDecoder::new().slice();
        nd::cases(2, |k| {
            x.set_consumable_bytes(k as u64);
            let mut pos = ok!(x.decode(&b[..], Eos::new(false)));
            assert!(pos == k && x.is_suspended() && !x.is_idle());
            y.set_consumable_bytes(1);
            pos += ok!(y.decode(&b[k..], Eos::new(false)));
            assert!(pos == k + 1 && y.is_suspended());
            x.set_consumable_bytes(10);
            pos += ok!(x.decode(&b[k + 1..], Eos::new(false)));
            assert!(pos == 4 && x.is_idle() && x.consumable_bytes() == 10 - (3 - k as u64));
            y.set_consumable_bytes(1);
            pos += ok!(y.decode(&b[4..], Eos::new(false)));
            assert!(pos == 5 && y.is_idle());
            let v = ok!(x.finish_decoding());
            let w = ok!(y.finish_decoding());
            let mut xs = [0u8; 3];
            let mut i = 0;
            while i < 3 {
                xs[i] = b[if i < k { i } else { i + 1 }];
                i += 1;
            }
            assert!(v == (xs[0] as u32) << 16 | (xs[1] as u32) << 8 | xs[2] as u32);
            assert!(w == b[k] as u16 | (b[4] as u16) << 8);
            witness!(k == 1);
        });
    }
    multiplex_encode [14] {
        let (v, w) = (nd::u16(), nd::u8());
        let mut x = U16beEncoder::new().slice();
        let mut y = U8Encoder::new().slice();
        ok!(x.start_encoding(v));
        ok!(y.start_encoding(w));
        let mut out = [0u8; 4];
        x.set_consumable_bytes(1);
        y.set_consumable_bytes(1);
        assert!(ok!(x.encode(&mut out[..], Eos::new(false))) == 1);
        assert!(ok!(y.encode(&mut out[1..], Eos::new(false))) == 1);
        assert!(ok!(x.encode(&mut out[2..], Eos::new(false))) == 0);
        x.set_consumable_bytes(1);
        assert!(ok!(x.encode(&mut out[2..], Eos::new(false))) == 1 && x.is_idle() && y.is_idle());
        assert!(out[0] == (v >> 8) as u8 && out[1] == w && out[2] == v as u8 && out[3] == 0);
        witness!(true);
    }
}
