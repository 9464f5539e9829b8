//! C35: a value decoded first selects the decoder of what follows.
use crate::util::prelude::*;
use std::cell::Cell;

/// The second decoder: `n` bytes, tagged by the value it was made from.
struct Second {
    made_from: u8,
    need: u64,
    got: u64,
    first: Option<Eos>,
}
impl Decode for Second {
    type Item = (u8, u64);
    fn decode(&mut self, buf: &[u8], eos: Eos) -> Result<usize> {
        if self.first.is_none() {
            self.first = Some(eos);
        }
        let left = self.need - self.got;
        let n = if (buf.len() as u64) < left { buf.len() } else { left as usize };
        self.got += n as u64;
        if self.got < self.need && eos.is_reached() {
            return Err(ErrorKind::UnexpectedEos.into());
        }
        Ok(n)
    }
    fn finish_decoding(&mut self) -> Result<(u8, u64)> {
        if self.got != self.need {
            return Err(ErrorKind::IncompleteDecoding.into());
        }
        Ok((self.made_from, self.got))
    }
    fn requiring_bytes(&self) -> ByteCount {
        ByteCount::Finite(self.need - self.got)
    }
}

harnesses! {
    /// The value picks size and kind; every cut; two items in sequence.
    select [4] {
        let made = Cell::new(0u32);
        let k = nd::u64();
        let mut d = U8Decoder::new().and_then(|v| {
            made.set(made.get() + 1);
            Second { made_from: v, need: k ^ v as u64, got: 0, first: None }
        });
        let b = nd::bytes8();
        let need = k ^ b[0] as u64;
        assert!(d.requiring_bytes() == ByteCount::Finite(1) && !d.is_idle());
        assert!(ok!(d.decode(&[], Eos::new(false))) == 0 && made.get() == 0);
        let i = nd::upto(3);
        nd::assume(i >= 1);
        let n = ok!(d.decode(&b[..i], Eos::new(false))) as u64;
        assert!(made.get() == 1, "made once, from the first value");
        let m = if need < i as u64 - 1 { need } else { i as u64 - 1 };
        assert!(n == 1 + m, "the rest of the call goes to the second decoder");
        assert!(d.requiring_bytes() == ByteCount::Finite(need - m) && d.is_idle() == (need == m));
        let j = nd::upto(4);
        let n = ok!(d.decode(&b[3..3 + j], Eos::new(false))) as u64;
        let m2 = if need - m < j as u64 { need - m } else { j as u64 };
        assert!(n == m2 && made.get() == 1);
        if need == m + m2 {
            assert!(d.is_idle());
            assert!(ok!(d.decode(&b, Eos::new(true))) == 0, "nothing beyond");
            let (from, got) = ok!(d.finish_decoding());
            assert!(from == b[0] && got == need);
            assert!(!d.is_idle() && d.requiring_bytes() == ByteCount::Finite(1), "ready for the next item");
            let n = ok!(d.decode(&b[1..2], Eos::new(false)));
            assert!(n == 1 && made.get() == 2);
            let need = k ^ b[1] as u64;
            assert!(d.is_idle() == (need == 0) && d.requiring_bytes() == ByteCount::Finite(need));
        } else {
            assert!(!d.is_idle());
        }
        witness!(need == 5 && i == 3 && j == 4);
        witness!(need == 0);
        witness!(need == 1 << 40);
    }
    /// The end of the stream at every position.
    end [4] {
        let mut d = U8Decoder::new().and_then(|v| Second { made_from: v, need: v as u64, got: 0, first: None });
        let b = nd::bytes4();
        let i = nd::upto(4);
        let r = d.decode(&b[..i], Eos::new(true));
        if i == 0 || (i as u64) < 1 + b[0] as u64 {
            err!(r, UnexpectedEos);
        } else {
            assert!(ok!(r) as u64 == 1 + b[0] as u64 && d.is_idle());
            assert!(ok!(d.finish_decoding()) == (b[0], b[0] as u64));
        }
        witness!(i == 4 && b[0] == 3);
        witness!(i == 1 && b[0] == 0);
        witness!(i == 0);
    }
    /// An invalid first value ends the decoding before a second decoder exists.
    rejected [4] {
        let made = Cell::new(0u32);
        let mut d = U8Decoder::new()
            .try_map(|v| if v < 100 { Ok(v) } else { Err(Error::from(ErrorKind::InvalidInput)) })
            .and_then(|v| {
                made.set(made.get() + 1);
                Second { made_from: v, need: 1, got: 0, first: None }
            });
        let b = nd::bytes4();
        let r = d.decode(&b[..2], Eos::new(false));
        if b[0] < 100 {
            assert!(ok!(r) == 2 && made.get() == 1 && ok!(d.finish_decoding()) == (b[0], 1));
        } else {
            err!(r, InvalidInput);
            assert!(made.get() == 0 && !d.is_idle());
            err!(d.finish_decoding(), IncompleteDecoding);
        }
        witness!(b[0] == 99);
        witness!(b[0] == 100);
    }
    /// An item the second decoder refuses; the next item selects anew.
    refused [4] {
        let made = Cell::new(0u32);
        let k = nd::u8();
        let mut d = U8Decoder::new().and_then(|v| {
            made.set(made.get() + 1);
            Second { made_from: v, need: 1, got: 0, first: None }
                .try_map(move |x| if x.0 < k { Ok(x) } else { Err(Error::from(ErrorKind::InvalidInput)) })
        });
        let b = nd::bytes8();
        let mut i = 0;
        let mut bad = 0;
        while i < 2 {
            let cut = nd::upto(2);
            let at = 2 * i;
            let n = ok!(d.decode(&b[at..at + cut], Eos::new(false)));
            assert!(n == cut);
            assert!(ok!(d.decode(&b[at + cut..], Eos::new(true))) == 2 - cut && d.is_idle());
            let r = d.finish_decoding();
            assert!(made.get() == i as u32 + 1, "each item selects its own");
            if b[at] < k {
                assert!(ok!(r) == (b[at], 1));
            } else {
                err!(r, InvalidInput);
                bad += 1;
            }
            assert!(!d.is_idle() && d.requiring_bytes() == ByteCount::Finite(1), "ready for the next item");
            i += 1;
        }
        witness!(bad == 1 && b[0] >= k);
        witness!(bad == 2);
    }
    /// A selection inside a selection.
    nested [8] {
        let b = nd::bytes8();
        nd::cases(5, |i| {
            let mut d = U8Decoder::new()
                .and_then(|v| U16beDecoder::new().map(move |w| (v, w)))
                .and_then(|(v, w)| Second { made_from: v, need: (w & 1) as u64, got: 0, first: None });
            let n = ok!(d.decode(&b[..i], Eos::new(false)));
            let m = ok!(d.decode(&b[i..6], Eos::new(false)));
            let len = 3 + (b[2] & 1) as usize;
            assert!(n + m == len && d.is_idle());
            assert!(n == if i < len { i } else { len });
            assert!(ok!(d.finish_decoding()) == (b[0], (b[2] & 1) as u64));
            witness!(i == 2 && len == 4);
        });
    }
    /// Both parts of any size, none included; any announcement, any end.
    sizes [4] {
        let (x, y) = (nd::u64(), nd::u64());
        let mut d = Need::new(x).and_then(|_| Need::new(y));
        let buf = [0u8; 4];
        let i = nd::upto(4);
        let eos = any_eos();
        let r = d.decode(&buf[..i], eos);
        let total = x as u128 + y as u128;
        let n = if (i as u128) < total { i as u64 } else { (x + y) as u64 };
        if (i as u128) < total && eos.is_reached() {
            err!(r, UnexpectedEos);
        } else {
            assert!(ok!(r) as u64 == n, "as much as both take");
            assert!(d.is_idle() == (n as u128 == total));
            if d.is_idle() {
                assert!(ok!(d.finish_decoding()) == y);
            } else {
                let j = nd::upto(4);
                let r = d.decode(&buf[..j], Eos::new(true));
                if (n + j as u64) as u128 >= total {
                    assert!(ok!(r) as u64 == (x + y) - n && d.is_idle());
                } else {
                    err!(r, UnexpectedEos);
                }
            }
        }
        witness!(x == 3 && y == 0 && i == 3 && eos.is_reached());
        witness!(x == 0 && y == 2 && i == 1);
        witness!(x == u64::MAX && y == u64::MAX);
    }
}
