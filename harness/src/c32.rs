//! C32: no length, limit or announcement, however large, crashes a codec.
use crate::util::prelude::*;

/// A decoder that takes part of what it is offered, up to its end.
struct Part {
    take: u8,
    left: u64,
}
impl Decode for Part {
    type Item = ();
    fn decode(&mut self, buf: &[u8], _: Eos) -> Result<usize> {
        let mut n = self.take as u64;
        if n > buf.len() as u64 {
            n = buf.len() as u64;
        }
        if n > self.left {
            n = self.left;
        }
        self.left -= n;
        Ok(n as usize)
    }
    fn finish_decoding(&mut self) -> Result<()> {
        if self.left != 0 {
            return Err(ErrorKind::IncompleteDecoding.into());
        }
        Ok(())
    }
    fn requiring_bytes(&self) -> ByteCount {
        ByteCount::Finite(self.left)
    }
}
fn part() -> Part {
    Part { take: nd::u8(), left: nd::u64() }
}
/// Two calls with any announcement, questions in between, an early finish.
fn drive<D: Decode>(d: &mut D, limit: u64) -> u64 {
    let b = nd::bytes8();
    let (i, j) = (nd::upto(4), nd::upto(4));
    let mut total = 0;
    if let Ok(n) = d.decode(&b[..i], any_eos()) {
        assert!(n <= i);
        total += n as u64;
        let _ = (d.is_idle(), d.requiring_bytes());
        if let Ok(n) = d.decode(&b[4..4 + j], any_eos()) {
            assert!(n <= j);
            total += n as u64;
        }
    }
    let _ = (d.is_idle(), d.requiring_bytes());
    let _ = d.finish_decoding();
    assert!(total <= limit, "never beyond what was allowed");
    total
}

harnesses! {
    length [3] {
        let n = nd::u64();
        let t = drive(&mut part().length(n), n);
        witness!(n == u64::MAX && t == 8);
        witness!(n == 3 && t == 3);
    }
    length_of_length [3] {
        let (m, n) = (nd::u64(), nd::u64());
        let t = drive(&mut part().length(m).length(n), if m < n { m } else { n });
        witness!(m == u64::MAX && n == u64::MAX && t == 8);
        witness!(m == 3 && n == 3 && t == 3);
    }
    max_bytes [3] {
        let n = nd::u64();
        let t = drive(&mut part().max_bytes(n), n);
        witness!(n == u64::MAX && t == 8);
        witness!(n == 3 && t == 3);
    }
    max_bytes_of_length [3] {
        let (m, n) = (nd::u64(), nd::u64());
        let t = drive(&mut part().length(m).max_bytes(n), if m < n { m } else { n });
        witness!(m == u64::MAX && n == u64::MAX && t == 8);
    }
    /// Limits changed at any time, to anything; refused ones change nothing.
    limit_changed [3] {
        let (m, n) = (nd::u64(), nd::u64());
        let mut d = part().max_bytes(m);
        let b = nd::bytes4();
        if let Ok(k) = d.decode(&b[..nd::upto(4)], any_eos()) {
            let r = d.set_max_bytes(n);
            assert!(r.is_ok() == (k as u64 <= n) && bytecodec::combinator::MaxBytes::max_bytes(&d) == if k as u64 <= n { n } else { m });
            let limit = if m > n { m } else { n };
            let t = drive(&mut d, limit);
            assert!(t + k as u64 <= if k as u64 <= n { n } else { m });
            witness!(k == 2 && n == 0);
            witness!(k == 2 && n == u64::MAX && t == 8);
            core::mem::forget(r);
        }
    }
    length_changed [3] {
        let (m, n) = (nd::u64(), nd::u64());
        let mut d = part().length(m);
        let b = nd::bytes4();
        if let Ok(k) = d.decode(&b[..nd::upto(4)], any_eos()) {
            let r = d.set_expected_bytes(n);
            // `Part` never says it has begun, only the bytes do
            assert!(r.is_ok() == (k == 0) && d.expected_bytes() == if k == 0 { n } else { m });
            let t = drive(&mut d, if m > n { m } else { n });
            assert!(t + k as u64 <= if k == 0 { n } else { m });
            witness!(k == 2 && n == 0);
            witness!(k == 0 && n == u64::MAX && t == 8);
            core::mem::forget(r);
        }
    }
    budget_changed [3] {
        let (m, n) = (nd::u64(), nd::u64());
        let mut d = part().length(5).slice();
        d.set_consumable_bytes(m);
        let b = nd::bytes4();
        if d.decode(&b[..nd::upto(4)], any_eos()).is_ok() {
            d.set_consumable_bytes(n);
            let t = drive(&mut d, n);
            assert!(d.consumable_bytes() == n - t);
            witness!(m == 3 && n == u64::MAX && t == 2);
        }
    }
    encoder_limit_changed [3] {
        let (m, n) = (nd::u64(), nd::u64());
        let mut out = [0u8; 4];
        let mut e = Emit::new().max_bytes(m);
        if e.start_encoding(nd::u64()).is_ok() {
            if e.encode(&mut out[..nd::upto(4)], Eos::new(false)).is_ok() {
                let k = e.consumed_bytes(); // none after the last byte of an item
                let r = e.set_max_bytes(n);
                assert!(r.is_ok() == (k <= n));
                if let Ok(j) = e.encode(&mut out, any_eos()) {
                    assert!(k + j as u64 <= if k <= n { n } else { m });
                }
                witness!(k == 2 && n == 0);
                core::mem::forget(r);
            }
        }
    }
    slice [3] {
        let n = nd::u64();
        let mut d = part().slice();
        d.set_consumable_bytes(n);
        let t = drive(&mut d, n);
        assert!(d.consumable_bytes() == n - t);
        witness!(n == u64::MAX && t == 8);
    }
    slice_of_length [3] {
        let (m, n) = (nd::u64(), nd::u64());
        let mut d = part().length(m).slice();
        d.set_consumable_bytes(n);
        let t = drive(&mut d, if m < n { m } else { n });
        witness!(m == 7 && n == u64::MAX && t == 7);
    }
    collectn [4] {
        let n = nd::u64() as usize;
        let b = nd::bytes4();
        let e = any_open_eos();
        nd::cases(3, |i| {
            let mut d = U16beDecoder::new().collectn::<Acc>(n);
            let t = ok!(d.decode(&b[..i], e));
            let _ = (d.is_idle(), d.requiring_bytes());
            assert!(t == if n == 0 { 0 } else if n == 1 && i > 2 { 2 } else { i });
            let _ = d.finish_decoding();
            let mut d = U16beDecoder::new().collectn::<Acc>(n);
            assert!(d.decode(&b[..i], Eos::new(true)).is_ok() == (n == 0 || i >= 2 * n.min(9)));
            let _ = (d.is_idle(), d.requiring_bytes(), d.finish_decoding().is_ok());
            witness!(n == usize::MAX && i == 3);
        });
    }
    /// Sizes of parts that add up to more than any number.
    huge_parts [3] {
        let (a, b, c) = (nd::u64(), nd::u64(), nd::u64());
        let d = TupleDecoder::new((Need::new(a).length(a), Need::new(b), Need::new(c).max_bytes(1)));
        let want = a as u128 + b as u128 + c as u128;
        assert!(d.requiring_bytes() == ByteCount::Finite(if want > u64::MAX as u128 { u64::MAX } else { want as u64 }));
        let mut e = TupleEncoder::new((Emit::new(), Emit::new()));
        ok!(e.start_encoding((a, b)));
        let want = a as u128 + b as u128;
        assert!(e.requiring_bytes() == ByteCount::Finite(if want > u64::MAX as u128 { u64::MAX } else { want as u64 }));
        witness!(a == u64::MAX && b == u64::MAX);
    }
    /// A length field from the input, with nothing behind it but the end.
    length_from_input [10] {
        let b = nd::bytes8();
        let mut d = U64beDecoder::new().and_then(|n| Tail::default().length(n));
        let n = u64::from_be_bytes(b);
        nd::assume(n != 0);
        assert!(ok!(d.decode(&b, Eos::new(false))) == 8);
        assert!(d.requiring_bytes() == ByteCount::Finite(n));
        let extra = nd::u8();
        let r = d.decode(&[extra], Eos::new(true));
        if n == 1 {
            assert!(ok!(r) == 1 && ok!(d.finish_decoding()).get(0) == extra as u64);
        } else {
            err!(r, UnexpectedEos);
            err!(d.finish_decoding(), IncompleteDecoding);
        }
        witness!(n == u64::MAX);
        witness!(n == 1);
    }
    /// An announced remainder is only a hint: it is never trusted.
    remaining [5] {
        let b = nd::bytes4();
        let mut d = RemainingBytesDecoder::new();
        let e = any_open_eos();
        assert!(ok!(d.decode(&b[..2], e)) == 2);
        assert!(ok!(d.decode(&b[2..3], Eos::new(true))) == 1);
        let v = core::mem::ManuallyDrop::new(ok!(d.finish_decoding()));
        assert!(v.len() == 3 && v[0] == b[0] && v[1] == b[1] && v[2] == b[2]);
        witness!(e == Eos::with_remaining_bytes(ByteCount::Finite(u64::MAX)));
        witness!(e == Eos::with_remaining_bytes(ByteCount::Finite(1)));
        core::mem::forget(d);
    }
    encoders [3] {
        let (n, m) = (nd::u64(), nd::u64());
        let mut out = [0u8; 4];
        let i = nd::upto(4);
        let mut e = Emit::new().length(n).max_bytes(m).slice();
        let budget = nd::u64();
        e.set_consumable_bytes(budget);
        if e.start_encoding(nd::u64()).is_ok() {
            let _ = (e.requiring_bytes(), e.exact_requiring_bytes());
            if let Ok(k) = e.encode(&mut out[..i], any_eos()) {
                assert!(k <= i && k as u64 <= n && k as u64 <= m && k as u64 <= budget);
                let _ = (e.requiring_bytes(), e.exact_requiring_bytes());
                let _ = e.encode(&mut out, any_eos());
            }
        }
        witness!(n == u64::MAX && m == u64::MAX && budget == u64::MAX && !e.is_idle());
    }
    /// Sizes of parts add up without wrapping, however large they are.
    encoder_sums [3] {
        let (n, m) = (nd::u64(), nd::u64());
        let mut e = TupleEncoder::new((Emit::new().length(n), Emit::new().chain(NullEncoder)));
        if e.start_encoding((nd::u64(), (m, ()))).is_ok() {
            assert!(e.exact_requiring_bytes() == n.saturating_add(m));
            assert!(e.requiring_bytes() == ByteCount::Finite(n.saturating_add(m)));
            let mut out = [0u8; 4];
            let _ = e.encode(&mut out, any_eos());
            let _ = (e.requiring_bytes(), e.exact_requiring_bytes());
        }
        witness!(n == u64::MAX && m == 3);
    }
}
