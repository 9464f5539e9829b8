//! C14: a byte limit is enforced, and neither lower nor higher than stated.
use crate::util::prelude::*;

/// Is a chunk of `k` bytes with this announcement within `room`?
fn within(k: usize, eos: Eos, room: u64) -> bool {
    match eos.remaining_bytes() {
        ByteCount::Finite(r) => (k as u128) + (r as u128) <= room as u128,
        ByteCount::Infinite => false,
        ByteCount::Unknown => k as u64 <= room,
    }
}

harnesses! {
    decode [14] {
        let (max, need) = (nd::u64(), nd::u64());
        let (a, c) = (nd::upto(3), nd::upto(3));
        {{
            let buf = [0u8; 4];
            let mut d = Need::new(need).max_bytes(max);
            let (e1, e2) = (any_eos(), any_eos());
            let r = d.decode(&buf[..a], e1);
            if !within(a, e1, max) {
                err!(r, InvalidInput);
                assert!(d.inner_ref().calls == 0 && d.consumed_bytes() == 0, "nothing over the limit is passed on");
            } else {
                let take = if (a as u64) < need { a as u64 } else { need };
                if e1.is_reached() && take < need {
                    err!(r, UnexpectedEos);
                } else {
                    let n = ok!(r) as u64;
                    assert!(n == take && d.consumed_bytes() == n);
                    assert!(bytecodec::combinator::MaxBytes::max_bytes(&d) == max);
                    let r = d.decode(&buf[..c], e2);
                    if !within(c, e2, max - n) {
                        err!(r, InvalidInput);
                        assert!(d.consumed_bytes() == n && d.inner_ref().calls == 1);
                    } else if let Ok(m) = r {
                        assert!(d.consumed_bytes() == n + m as u64 && d.consumed_bytes() <= max);
                        assert!(d.is_idle() == (n + m as u64 == need));
                        if d.is_idle() {
                            assert!(ok!(d.finish_decoding()) == need);
                            assert!(d.consumed_bytes() == 0, "the next item has the whole limit again");
                        }
                    } else {
                        assert!(e2.is_reached());
                    }
                }
            }
            witness!(a == 3 && c == 2 && max == 5 && need == 5 && d.inner_ref().finished == 1);
            witness!(a == 3 && max == 2);
            witness!(max > u32::MAX as u64 && e1.remaining_bytes() == ByteCount::Finite(u64::MAX - 1) && a == 3);
        }}
    }
    decode_second_item [14] {
        let max = nd::u64();
        let buf = [0u8; 4];
        nd::cases(3, |need| {
            nd::assume(need > 0 && max >= need as u64);
            let mut d = Need::new(need as u64).max_bytes(max);
            assert!(ok!(d.decode(&buf[..need], Eos::new(false))) == need);
            ok!(d.finish_decoding());
            let r = d.decode(&buf, Eos::new(false));
            assert!(r.is_ok() == (max >= 4), "consumption of earlier items does not count");
            witness!(max == 4 && need == 3);
            witness!(max == 3 && need == 3);
        });
    }
    /// An item whose content is rejected when it is taken is over, too.
    decode_after_rejected_item [14] {
        let (max, need) = (nd::u64(), nd::u64());
        nd::assume(need > 0 && need <= 3 && max >= need);
        let buf = [0u8; 4];
        let first = core::cell::Cell::new(0u8);
        let mut d = Need::new(need).try_map(move |n| -> Result<u64> {
            first.set(first.get() + 1);
            if first.get() == 1 { Err(ErrorKind::Other.into()) } else { Ok(n) }
        }).max_bytes(max);
        assert!(ok!(d.decode(&buf[..need as usize], Eos::new(false))) as u64 == need);
        err!(d.finish_decoding(), Other);
        assert!(d.consumed_bytes() == 0, "the next item has the whole limit again");
        let r = d.decode(&buf[..need as usize], Eos::new(true));
        assert!(ok!(r) as u64 == need && ok!(d.finish_decoding()) == need);
        witness!(max == 3 && need == 3);
    }
    /// Taking an item early does not restore the limit.
    decode_refused_finish [14] {
        let (max, need) = (nd::u64(), nd::u64());
        let (a, c) = (nd::upto(3), nd::upto(3));
        nd::assume(need > 3 && max >= a as u64);
        let buf = [0u8; 4];
        let mut d = Need::new(need).max_bytes(max);
        assert!(ok!(d.decode(&buf[..a], Eos::new(false))) == a);
        err!(d.finish_decoding(), IncompleteDecoding);
        assert!(d.consumed_bytes() == a as u64, "the item goes on");
        let r = d.decode(&buf[..c], Eos::new(false));
        assert!(r.is_ok() == ((a + c) as u64 <= max), "one limit for the item");
        witness!(max == 4 && a == 3 && c == 2);
        witness!(max == 5 && a == 3 && c == 2);
    }
    set_max [14] {
        let (m1, m2) = (nd::u64(), nd::u64());
        let a = nd::upto(3);
        {
            let buf = [0u8; 4];
            nd::assume(m1 >= a as u64);
            let mut d = Need::new(u64::MAX).max_bytes(m1);
            assert!(ok!(d.decode(&buf[..a], Eos::new(false))) == a);
            let r = d.set_max_bytes(m2);
            if m2 >= a as u64 {
                assert!(r.is_ok() && bytecodec::combinator::MaxBytes::max_bytes(&d) == m2);
                let r = d.decode(&buf[..1], Eos::new(false));
                assert!(r.is_ok() == (m2 > a as u64), "the new limit counts what was already consumed");
            } else {
                err!(r, InvalidInput);
                assert!(bytecodec::combinator::MaxBytes::max_bytes(&d) == m1, "a limit below what was consumed is refused");
            }
            witness!(m2 == 3 && a == 3);
            witness!(m2 == 2 && a == 3);
        }
    }
    encode [14] {
        let (max, n) = (nd::u64(), nd::u64());
        let mut out = [0u8; 4];
        let (a, c) = (nd::upto(3), nd::upto(3));
        {{
            let mut e = Emit::new().max_bytes(max);
            ok!(e.start_encoding(n));
            let first = if (a as u64) < n { a as u64 } else { n };
            let r = e.encode(&mut out[..a], Eos::new(false));
            if first > max {
                err!(r, InvalidInput);
            } else {
                assert!(ok!(r) as u64 == first, "what is within the limit is written");
                assert!(e.exact_requiring_bytes() == n - first);
                if first < n {
                    assert!(e.consumed_bytes() == first);
                    let left = n - first;
                    let second = if (c as u64) < left { c as u64 } else { left };
                    let r = e.encode(&mut out[..c], Eos::new(false));
                    if first + second > max {
                        err!(r, InvalidInput);
                    } else {
                        assert!(ok!(r) as u64 == second);
                    }
                }
            }
            witness!(max == 5 && n == 5 && a == 3 && c == 2);
            witness!(max == 4 && n == 5 && a == 3 && c == 2);
        }}
    }
    /// Each item has the whole limit, whatever happened to the ones before.
    encode_next [14] {
        let max = nd::u64();
        let mut out = [0u8; 4];
        nd::cases(3, |n| {
            let mut e = Emit::new().max_bytes(max);
            ok!(e.start_encoding(n as u64));
            let r = e.encode(&mut out, Eos::new(false));
            assert!(r.is_ok() == (n as u64 <= max));
            assert!(e.is_idle() && e.consumed_bytes() == 0);
            ok!(e.start_encoding(3));
            let r = e.encode(&mut out, Eos::new(false));
            assert!(r.is_ok() == (3 <= max), "what was written before does not count");
            witness!(n == 3 && max == 3);
        });
    }
    /// An item that ends in a call that writes nothing is over, too.
    encode_ends_without_bytes [14] {
        let max = nd::u64();
        let (a, c) = (nd::upto(3), nd::upto(3));
        let mut out = [0u8; 4];
        let mut e = Filler::default().max_bytes(max);
        ok!(e.start_encoding(()));
        let r = e.encode(&mut out[..a], Eos::new(false));
        assert!(r.is_ok() == (a as u64 <= max));
        if r.is_ok() {
            assert!(e.consumed_bytes() == a as u64 && !e.is_idle());
            assert!(ok!(e.encode(&mut [], Eos::new(true))) == 0 && e.is_idle());
            assert!(e.consumed_bytes() == 0, "the next item has the whole limit");
            ok!(e.start_encoding(()));
            let r = e.encode(&mut out[..c], Eos::new(true));
            assert!(r.is_ok() == (c as u64 <= max), "what was written before does not count");
        }
        witness!(a == 3 && max == 3 && c == 2);
        witness!(a == 2 && max == 2 && c == 3);
    }
}

/// Fills what it is given until the output ends.
#[derive(Default)]
struct Filler {
    busy: u8,
}
impl Encode for Filler {
    type Item = ();
    fn encode(&mut self, buf: &mut [u8], eos: Eos) -> Result<usize> {
        if self.busy == 0 {
            return Ok(0);
        }
        if eos.is_reached() {
            self.busy = 0;
        }
        Ok(buf.len())
    }
    fn start_encoding(&mut self, _: ()) -> Result<()> {
        self.busy = 1;
        Ok(())
    }
    fn requiring_bytes(&self) -> ByteCount {
        if self.busy == 0 { ByteCount::Finite(0) } else { ByteCount::Infinite }
    }
}
