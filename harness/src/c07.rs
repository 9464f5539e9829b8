//! C07: what decoders announce as still required.
use crate::util::prelude::*;

fn framed_required<D: Decode>(mk: impl Fn() -> D, b: [u8; 8], len: usize, name: &str) {
    // Exact unless the length is decided by content or by an element count.
    let lower_bound_only = matches!(
        name,
        "collectn" | "collectn_bytes" | "and_then_length" | "and_then_collectn" | "nested_map"
    );
    nd::cases(len, |i| {
        let mut d = mk();
        if i != 0 || nd::bool() {
            assert!(ok!(d.decode(&b[..i], Eos::new(false))) == i);
        }
        match d.requiring_bytes() {
            ByteCount::Finite(n) => {
                assert!(n <= (len - i) as u64, "never more than the item still takes");
                assert!((n == 0) == d.is_idle(), "zero exactly when the item is complete");
                assert!(lower_bound_only || n == (len - i) as u64, "exact for items of fixed size");
            }
            ByteCount::Infinite => panic!("the item does not extend to the end of the stream"),
            ByteCount::Unknown => panic!("the size of what is being decoded is known"),
        }
        witness!(i == len);
    });
}

fn eos_required<D: Decode>(mk: impl Fn() -> D, b: [u8; 8], len: usize, name: &str) {
    let endless = matches!(name, "remaining" | "padding" | "tuple_tail" | "peekable_tail" | "maybe_eos_tail");
    nd::cases(len, |i| {
        let mut d = mk();
        if i != 0 || nd::bool() {
            assert!(ok!(d.decode(&b[..i], Eos::new(false))) == i);
        }
        assert!(!d.is_idle());
        assert!(d.requiring_bytes() != ByteCount::Finite(0), "more is required until the end");
        assert!(!endless || d.requiring_bytes() == ByteCount::Infinite, "anything up to the end is taken");
        assert!(ok!(d.decode(&b[i..len], Eos::new(true))) == len - i);
        assert!(d.is_idle());
        assert!(d.requiring_bytes() == ByteCount::Finite(0), "nothing is required after the end");
        witness!(i == 2);
    });
}

framed_decoders!(framed, framed_required);
eos_decoders!(eos, eos_required);
thorough! {
    framed_extra!(framed_x, framed_required);
    eos_extra!(eos_x, eos_required);
}
pub mod more {
    use super::*;
    harnesses! {
        /// The second part decides, also when it extends to the end of the stream or has an unknown size.
        and_then_tail [8] {
            let b = nd::bytes8();
            nd::cases(3, |i| nd::cases(1, |how| {
                let check = |d: &mut dyn FnMut(&[u8], Eos) -> (usize, bool, ByteCount), endless: ByteCount, head: ByteCount| {
                    let (n, idle, req) = d(&b[..i], Eos::new(false));
                    assert!(n == i && !idle);
                    assert!(req == if i == 0 { head } else { endless }, "the part in progress decides");
                    let (n, idle, req) = d(&b[i..4], Eos::new(true));
                    assert!(n == 4 - i && idle && req == ByteCount::Finite(0));
                };
                if how == 0 {
                    let mut d = U8Decoder::new().and_then(|_| Tail::default());
                    check(&mut |x, e| (ok!(d.decode(x, e)), d.is_idle(), d.requiring_bytes()), Tail::default().requiring_bytes(), ByteCount::Finite(1));
                } else {
                    let mut d = U8Decoder::new().and_then(|_| PaddingDecoder::new(None));
                    check(&mut |x, e| (ok!(d.decode(x, e)), d.is_idle(), d.requiring_bytes()), ByteCount::Infinite, ByteCount::Finite(1));
                }
                witness!(i == 2 && how == 1);
            }));
        }
        /// Whatever the elements require, a tuple requires their sum.
        tuple_sum [14] {
            let (a, b, c) = (nd::u64(), nd::u64(), nd::u64());
            let d = TupleDecoder::new((Need::new(a), Need::new(b), Need::new(c)));
            assert!(d.requiring_bytes() == ByteCount::Finite(a.saturating_add(b).saturating_add(c)));
            assert!(d.is_idle() == (a == 0 && b == 0 && c == 0));
            witness!(a > b && b > c && c > 7);
        }
        tuple_until_eos [14] {
            let d = TupleDecoder::new((Need::new(nd::u64()), UntilEos::new()));
            assert!(d.requiring_bytes() == ByteCount::Infinite);
            let d = TupleDecoder::new((UntilEos::new(), Need::new(nd::u64())));
            assert!(d.requiring_bytes() == ByteCount::Infinite);
            witness!(true);
        }
        /// The announcements never make a reader that asks for them stop short
        /// or read past the item.
        drive_by_requirement [14] {
            let b = nd::bytes8();
            nd::cases(3, |k| {
                let mut d = U8Decoder::new().and_then(move |_| U16beDecoder::new().collectn::<Acc>(k));
                let mut pos = 0;
                while pos < 1 + 2 * k {
                    let want = if pos == 0 { 1 } else { 2 };
                    assert!(d.requiring_bytes() == ByteCount::Finite(want as u64), "reads stay inside the item");
                    assert!(ok!(d.decode(&b[pos..pos + want], Eos::new(false))) == want);
                    pos += want;
                }
                assert!(d.is_idle() && d.requiring_bytes() == ByteCount::Finite(0));
                witness!(k == 3);
            });
        }
        /// Items larger than any small counter.
        bytes_large [14] {
            let b = [0u8; 8];
            nd::cases(3, |i| {
                let mut d = BytesDecoder::new([0u8; 300]);
                let mut c = CopyableBytesDecoder::new([0u8; 300]);
                assert!(ok!(d.decode(&b[..i], Eos::new(false))) == i);
                assert!(ok!(c.decode(&b[..i], Eos::new(false))) == i);
                assert!(d.requiring_bytes() == ByteCount::Finite(300 - i as u64));
                assert!(c.requiring_bytes() == ByteCount::Finite(300 - i as u64));
                witness!(i == 3);
            });
        }
        /// A decoder whose buffer was taken requires nothing until it gets another.
        bytes_taken [14] {
            let b = nd::bytes4();
            let mut d = BytesDecoder::new([0u8; 3]);
            assert!(ok!(d.decode(&b, Eos::new(false))) == 3);
            ok!(d.finish_decoding());
            assert!(d.requiring_bytes() == ByteCount::Finite(0) && d.is_idle());
            d.set_bytes([0u8; 3]);
            assert!(d.requiring_bytes() == ByteCount::Finite(3) && !d.is_idle());
            witness!(b[0] == 1);
        }
        monolithic [14] {
            struct M;
            impl bytecodec::monolithic::MonolithicDecode for M {
                type Item = u8;
                fn monolithic_decode<R: std::io::Read>(&self, _: R) -> Result<u8> { Ok(7) }
            }
            let mut d = bytecodec::monolithic::MonolithicDecoder::new(M);
            assert!(d.requiring_bytes() == ByteCount::Unknown && !d.is_idle());
            assert!(ok!(d.decode(&[1, 2], Eos::new(false))) == 2);
            assert!(d.requiring_bytes() == ByteCount::Unknown && !d.is_idle());
            ok!(d.decode(&[], Eos::new(true)));
            assert!(d.requiring_bytes() == ByteCount::Finite(0) && d.is_idle());
            witness!(true);
        }
    }
}
walk_decoders!(w, w_end, w_split, w_step, 7);
tables!(framed, eos, more, framed_x, eos_x, w, w_end, w_split, w_step);
