//! C38: decoding and encoding in one shot is all or nothing.
use crate::util::prelude::*;

/// Exactly one whole item, nothing missing and nothing left over.
fn decode<D: Decode>(mk: impl Fn() -> D, b: [u8; 8], len: usize, name: &str)
where
    D::Item: PartialEq,
{
    let optional = name == "maybe_eos";
    let mut d = mk();
    assert!(ok!(d.decode(&b[..len], Eos::new(true))) == len);
    let want = ok!(d.finish_decoding());
    nd::cases(len + 1, |i| {
        let mut d = mk();
        let r = d.decode_from_bytes(&b[..i]);
        if i == 0 && optional {
            // an item that need not begin: no error of its own, but no item either
            err!(r, IncompleteDecoding);
        } else if i < len {
            err!(r, UnexpectedEos);
        } else if i == len {
            assert!(ok!(r) == want, "the item that was decoded step by step");
        } else {
            err!(r, InvalidInput);
        }
        witness!(i == len + 1);
        core::mem::forget(d);
    });
}
framed_decoders!(framed, decode);
thorough! {
    framed_extra!(framed_x, decode);
}
/// Items up to the end of the bytes.
fn decode_all<D: Decode>(mk: impl Fn() -> D, b: [u8; 8], len: usize, _: &str)
where
    D::Item: PartialEq,
{
    let mut d = mk();
    assert!(ok!(d.decode(&b[..1], Eos::new(false))) == 1);
    assert!(ok!(d.decode(&b[1..len], Eos::new(true))) == len - 1);
    let want = ok!(d.finish_decoding());
    let mut d = mk();
    assert!(ok!(d.decode_from_bytes(&b[..len])) == want);
    witness!(true);
    core::mem::forget(d);
}
eos_decoders!(tails, decode_all);

/// The same bytes as encoding step by step, exactly as many.
fn encode<E: Encode>(mk: impl Fn() -> E, item: impl Fn(&[u8; 8]) -> E::Item, b: [u8; 8], len: usize, _: &str) {
    let mut e = mk();
    ok!(e.start_encoding(item(&b)));
    let mut want = [0u8; 9];
    assert!(ok!(e.encode(&mut want, Eos::new(false))) == len);
    let mut e = mk();
    let v = core::mem::ManuallyDrop::new(ok!(e.encode_into_bytes(item(&b))));
    assert!(v.len() == len && e.is_idle());
    let mut k = 0;
    while k < len {
        assert!(v[k] == want[k]);
        k += 1;
    }
    witness!(true);
    core::mem::forget(e);
}
sized_encoders!(sized, encode);
unsized_encoders!(unsized_, encode);
thorough! {
    sized_extra!(sized_x, encode);
}

/// Announces `said` bytes and produces `real` ones.
struct Liar {
    said: u64,
    real: u64,
}
impl Encode for Liar {
    type Item = (u64, u64);
    fn encode(&mut self, buf: &mut [u8], _: Eos) -> Result<usize> {
        let n = if (buf.len() as u64) < self.real { buf.len() } else { self.real as usize };
        self.real -= n as u64;
        self.said = self.said.saturating_sub(n as u64);
        Ok(n)
    }
    fn start_encoding(&mut self, (said, real): (u64, u64)) -> Result<()> {
        self.said = said;
        self.real = real;
        Ok(())
    }
    fn requiring_bytes(&self) -> ByteCount {
        ByteCount::Finite(self.said)
    }
    fn is_idle(&self) -> bool {
        self.real == 0
    }
}

/// Keeps its size to itself.
struct Unsized<E>(E);
impl<E: Encode> Encode for Unsized<E> {
    type Item = E::Item;
    fn encode(&mut self, buf: &mut [u8], eos: Eos) -> Result<usize> {
        self.0.encode(buf, eos)
    }
    fn start_encoding(&mut self, item: E::Item) -> Result<()> {
        self.0.start_encoding(item)
    }
    fn requiring_bytes(&self) -> ByteCount {
        if self.0.is_idle() {
            ByteCount::Finite(0)
        } else {
            ByteCount::Unknown
        }
    }
    fn is_idle(&self) -> bool {
        self.0.is_idle()
    }
}

pub mod more {
    use super::*;
    harnesses! {
        /// A decoder that may not take the rest yields nothing.
        suspended_decoder [3] {
            let (need, budget) = (nd::u64(), nd::u64());
            let b = nd::bytes8();
            let n = nd::upto(8);
            let mut d = Need::new(need).slice();
            d.set_consumable_bytes(budget);
            let r = d.decode_from_bytes(&b[..n]);
            if need == n as u64 && budget >= need {
                assert!(ok!(r) == need);
            } else {
                assert!(r.is_err(), "neither a part of the item nor a part of the bytes");
                core::mem::forget(r);
            }
            witness!(need == 8 && budget == 3 && n == 8);
            witness!(need == 3 && budget == 3 && n == 3);
            witness!(need == 0 && n == 0);
        }
        /// The same when the encoder does not know its size.
        suspended_of_unknown_size [4] {
            let n = nd::upto(3) as u64;
            let budget = nd::u64();
            let mut s = Emit::new().slice();
            s.set_consumable_bytes(budget);
            let mut e = Unsized(s);
            let r = e.encode_into_bytes(n);
            if budget >= n && (budget > 0 || n > 0) {
                assert!(core::mem::ManuallyDrop::new(ok!(r)).len() as u64 == n);
            } else if n > 0 {
                assert!(r.is_err(), "a part of an item is not returned, not even an empty one");
                core::mem::forget(r);
            }
            witness!(n == 3 && budget == 3);
            witness!(n == 3 && budget == 0);
            witness!(n == 3 && budget == 2);
        }
        /// An encoder that may not write the rest yields nothing.
        suspended_encoder [4] {
            let n = nd::upto(3);
            let budget = nd::u64();
            let mut e = Emit::new().slice();
            e.set_consumable_bytes(budget);
            nd::cases(3, |i| {
                if i != n {
                    return;
                }
                let r = e.encode_into_bytes(i as u64);
                if budget >= i as u64 {
                    assert!(ok!(r).len() == i);
                } else {
                    assert!(r.is_err(), "no part of an item");
                    core::mem::forget(r);
                }
                witness!(i == 3 && budget == 2);
                witness!(i == 3 && budget == 3);
                witness!(i == 0);
            });
        }
        /// An encoder that does not keep what it announced.
        wrong_size [4] {
            let real = nd::u64();
            nd::cases(3, |said| {
                let mut e = Liar { said: 0, real: 0 };
                let r = e.encode_into_bytes((said as u64, real));
                if real > said as u64 {
                    assert!(r.is_err(), "no part of an item");
                }
                witness!(real == 4 && said == 3);
                witness!(real == 3 && said == 3);
                core::mem::forget(r);
            });
        }
        /// Items larger than a byte can count, than any internal buffer.
        large [3] {
            nd::cases(1, |i| {
                let n = if i == 0 { 300 } else { 4200 };
                let mut e = Emit::new();
                let v = core::mem::ManuallyDrop::new(ok!(e.encode_into_bytes(n)));
                assert!(v.len() as u64 == n && e.is_idle());
                let buf = [0u8; 4200];
                let mut d = Need::new(n);
                assert!(ok!(d.decode_from_bytes(&buf[..n as usize])) == n);
                err!(Need::new(n).decode_from_bytes(&buf[..n as usize - 1]), UnexpectedEos);
                err!(Need::new(n - 1).decode_from_bytes(&buf[..n as usize]), InvalidInput);
                witness!(i == 1);
            });
        }
        /// Endless items cannot be had at once.
        endless [4] {
            let mut e = PaddingEncoder::new();
            err!(e.encode_into_bytes(nd::u8()), InvalidInput);
            witness!(true);
        }
        /// There and back.
        round_trip [8] {
            let b = nd::bytes8();
            let (x, y) = (u16::from_be_bytes([b[0], b[1]]), b[2]);
            let v = core::mem::ManuallyDrop::new(ok!(TupleEncoder::new((U16leEncoder::new(), U8Encoder::new())).encode_into_bytes((x, y))));
            let (p, q) = ok!(TupleDecoder::new((U16leDecoder::new(), U8Decoder::new())).decode_from_bytes(&v));
            assert!(p == x && q == y);
            witness!(x == 0xFF00 && y == 7);
        }
        /// One decoder, one item after the other.
        in_sequence [5] {
            let b = nd::bytes8();
            let mut d = TupleDecoder::new((U8Decoder::new(), U8Decoder::new()));
            let mut k = 0;
            while k < 3 {
                assert!(ok!(d.decode_from_bytes(&b[2 * k..2 * k + 2])) == (b[2 * k], b[2 * k + 1]));
                k += 1;
            }
            witness!(b[5] == 1);
        }
    }
}
tables!(framed, tails, sized, unsized_, more, framed_x, sized_x);
