//! C05: composed codecs round-trip, and lay their parts out in order.
use crate::util::prelude::*;

macro_rules! tuples {
    ($($name:ident: $n:literal, [$($i:tt)*];)*) => { harnesses! { $(
        $name [14] {
            let b = nd::bytes8();
            let item = ($(b[$i],)*);
            let mut e = TupleEncoder::new(($({ let _ = $i; U8Encoder::new() },)*));
            ok!(e.start_encoding(item));
            assert!(e.exact_requiring_bytes() == $n);
            let mut out = [0u8; 9];
            assert!(ok!(e.encode(&mut out, Eos::new(false))) == $n && e.is_idle());
            $(assert!(out[$i] == b[$i], "elements are written in order");)*
            let mut d = TupleDecoder::new(($({ let _ = $i; U8Decoder::new() },)*));
            assert!(d.requiring_bytes() == ByteCount::Finite($n));
            assert!(ok!(d.decode(&out, Eos::new(false))) == $n && d.is_idle());
            let got = ok!(d.finish_decoding());
            $(assert!(got.$i == b[$i], "elements are read in order");)*
            witness!(b[0] == 1 && b[1] == 2);
        }
    )* } };
}
pub mod tuple {
    use super::*;
    tuples! {
        t2: 2, [0 1];
        t3: 3, [0 1 2];
        t4: 4, [0 1 2 3];
        t5: 5, [0 1 2 3 4];
        t6: 6, [0 1 2 3 4 5];
        t7: 7, [0 1 2 3 4 5 6];
        t8: 8, [0 1 2 3 4 5 6 7];
    }
}

/// Encodes, checks the layout, decodes again.
fn trip<E: Encode, D: Decode, const N: usize>(mut e: E, item: E::Item, layout: [u8; N], mut d: D, until_eos: bool) -> D::Item {
    ok!(e.start_encoding(item));
    let mut out = [0xA5u8; 10];
    assert!(ok!(e.encode(&mut out, Eos::new(false))) == N && e.is_idle());
    let mut i = 0;
    while i < N {
        assert!(out[i] == layout[i], "the documented layout");
        i += 1;
    }
    assert!(out[N] == 0xA5);
    let shown = if until_eos { N } else { N + 1 };
    assert!(ok!(d.decode(&out[..shown], Eos::new(until_eos))) == N, "exactly the item is consumed");
    assert!(d.is_idle());
    ok!(d.finish_decoding())
}

pub mod composed {
    use super::*;
    harnesses! {
        mixed_widths [14] {
            let b = nd::bytes8();
            let (x, y, z) = (u16::from_be_bytes([b[0], b[1]]), u32::from_le_bytes([b[2], b[3], b[4], 0]), b[5] as i8);
            let got = trip(
                TupleEncoder::new((U16beEncoder::new(), U24leEncoder::new(), I8Encoder::new())), (x, y, z),
                [b[0], b[1], b[2], b[3], b[4], b[5]],
                TupleDecoder::new((U16beDecoder::new(), U24leDecoder::new(), I8Decoder::new())), false);
            assert!(got == (x, y, z));
            witness!(z < 0);
        }
        chained [14] {
            let b = nd::bytes8();
            let got = trip(
                U8Encoder::new().chain(U16leEncoder::new()).chain(U8Encoder::new()),
                ((b[0], u16::from_le_bytes([b[1], b[2]])), b[3]), [b[0], b[1], b[2], b[3]],
                U8Decoder::new().chain(U16leDecoder::new()).chain(U8Decoder::new()), false);
            assert!(got == ((b[0], u16::from_le_bytes([b[1], b[2]])), b[3]));
            witness!(b[0] != b[3]);
        }
        nested [14] {
            let b = nd::bytes8();
            let got = trip(
                TupleEncoder::new((TupleEncoder::new((U8Encoder::new(), U8Encoder::new())), NullEncoder, U16beEncoder::new())),
                ((b[0], b[1]), (), u16::from_be_bytes([b[2], b[3]])), [b[0], b[1], b[2], b[3]],
                TupleDecoder::new((TupleDecoder::new((U8Decoder::new(), U8Decoder::new())), NullDecoder, U16beDecoder::new())), false);
            assert!(got == ((b[0], b[1]), (), u16::from_be_bytes([b[2], b[3]])));
            witness!(true);
        }
        length_prefixed [14] {
            let b = nd::bytes8();
            nd::cases(3, |n| {
                let mut e = U8Encoder::new().chain(BytesEncoder::<[u8; 3]>::new().max_bytes(9).map_from(|x: [u8; 3]| x));
                ok!(e.start_encoding((n as u8, [b[1], b[2], b[3]])));
                let mut out = [0u8; 8];
                assert!(ok!(e.encode(&mut out, Eos::new(false))) == 4);
                let mut d = U8Decoder::new().and_then(|n| Tail::default().length(n as u64));
                assert!(ok!(d.decode(&out, Eos::new(false))) == 1 + n, "the prefix decides the length");
                let got = ok!(d.finish_decoding());
                assert!(got.n == n && (n == 0 || (got.get(0) == b[1] as u64 && got.get(n - 1) == b[n] as u64)));
                witness!(n == 3);
            });
        }
        count_prefixed [14] {
            let b = nd::bytes8();
            nd::cases(2, |n| {
                let mut e = U8Encoder::new().chain(U16beEncoder::new().repeat());
                ok!(e.start_encoding((n as u8, Pairs::new(b, n).map(|p| u16::from_be_bytes([p.0, p.1])))));
                let mut out = [0u8; 8];
                assert!(ok!(e.encode(&mut out, Eos::new(false))) == 1 + 2 * n && e.is_idle());
                let mut d = U8Decoder::new().and_then(|n| U16beDecoder::new().collectn::<Acc>(n as usize));
                assert!(ok!(d.decode(&out, Eos::new(false))) == 1 + 2 * n, "the prefix decides the number of items");
                let got = ok!(d.finish_decoding());
                assert!(got.n == n);
                assert!(n < 1 || got.get(0) == u16::from_be_bytes([b[0], b[1]]) as u64);
                assert!(n < 2 || got.get(1) == u16::from_be_bytes([b[2], b[3]]) as u64);
                witness!(n == 2);
            });
        }
        repeat_collect [14] {
            let b = nd::bytes8();
            let got = trip(U8Encoder::new().repeat(), Ints::new(b, 3), [b[0], b[1], b[2]], U8Decoder::new().collect::<Acc>(), true);
            assert!(got.n == 3 && got.get(0) == b[0] as u64 && got.get(1) == b[1] as u64 && got.get(2) == b[2] as u64);
            witness!(b[0] != b[1]);
        }
        optional_omit [14] {
            let b = nd::bytes8();
            nd::cases(1, |some| {
                let item = if some == 1 { Some(b[1]) } else { None };
                let mut e = TupleEncoder::new((U8Encoder::new(), U8Encoder::new().optional(), U8Encoder::new()));
                ok!(e.start_encoding((b[0], item, b[2])));
                let mut out = [0u8; 4];
                assert!(ok!(e.encode(&mut out, Eos::new(false))) == 2 + some && e.is_idle());
                let mut d = TupleDecoder::new((U8Decoder::new(), U8Decoder::new().omit(some == 0), U8Decoder::new()));
                assert!(ok!(d.decode(&out, Eos::new(false))) == 2 + some);
                assert!(ok!(d.finish_decoding()) == (b[0], item, b[2]), "an absent part takes no bytes");
                // the next item, of the same shape
                let item = item.map(|_| b[4]);
                ok!(e.start_encoding((b[3], item, b[5])));
                let mut out = [0u8; 4];
                assert!(ok!(e.encode(&mut out, Eos::new(false))) == 2 + some && e.is_idle());
                assert!(ok!(d.decode(&out, Eos::new(false))) == 2 + some);
                assert!(ok!(d.finish_decoding()) == (b[3], item, b[5]), "the next item is read the same way");
                witness!(some == 0);
            });
        }
        length_framed [14] {
            let b = nd::bytes8();
            let got = trip(
                TupleEncoder::new((BytesEncoder::<[u8; 3]>::new().length(3), U8Encoder::new())), ([b[0], b[1], b[2]], b[3]),
                [b[0], b[1], b[2], b[3]],
                TupleDecoder::new((Tail::default().length(3), U8Decoder::new())), false);
            assert!(got.0.n == 3 && got.0.get(2) == b[2] as u64 && got.1 == b[3]);
            witness!(true);
        }
        padded [14] {
            let b = nd::bytes8();
            let got = trip(
                TupleEncoder::new((U8Encoder::new(), PaddingEncoder::new().length(3), U8Encoder::new())), (b[0], b[1], b[2]),
                [b[0], b[1], b[1], b[1], b[2]],
                TupleDecoder::new((U8Decoder::new(), PaddingDecoder::new(Some(b[1])).length(3), U8Decoder::new())), false);
            assert!(got == (b[0], (), b[2]));
            witness!(true);
        }
        mapped [14] {
            let b = nd::bytes8();
            let got = trip(
                U16beEncoder::new().map_from(|p: (u8, u8)| u16::from_be_bytes([p.1, p.0])), (b[0], b[1]), [b[1], b[0]],
                U16beDecoder::new().map(|v| { let x = v.to_be_bytes(); (x[1], x[0]) }), false);
            assert!(got == (b[0], b[1]));
            witness!(b[0] != b[1]);
        }
        pre_encoded [14] {
            let b = nd::bytes8();
            let got = trip(
                TupleEncoder::new((U8Encoder::new(), U16leEncoder::new())).pre_encode(), (b[0], u16::from_le_bytes([b[1], b[2]])),
                [b[0], b[1], b[2]],
                TupleDecoder::new((U8Decoder::new(), U16leDecoder::new())).peekable(), false);
            assert!(got == (b[0], u16::from_le_bytes([b[1], b[2]])));
            witness!(true);
        }
        bytes_and_rest [14] {
            let b = nd::bytes8();
            let got = trip(
                TupleEncoder::new((BytesEncoder::<[u8; 2]>::new(), BytesEncoder::<[u8; 2]>::new())), ([b[0], b[1]], [b[2], b[3]]),
                [b[0], b[1], b[2], b[3]],
                TupleDecoder::new((CopyableBytesDecoder::new([0u8; 2]), RemainingBytesDecoder::new())), true);
            assert!(got.0[0] == b[0] && got.0[1] == b[1]);
            assert!(got.1.len() == 2 && got.1[0] == b[2] && got.1[1] == b[3]);
            witness!(true);
        }
        last_item [14] {
            let b = nd::bytes8();
            let mut e = TupleEncoder::new((U8Encoder::new(), U8Encoder::new())).last((b[0], b[1]));
            let mut out = [0u8; 4];
            assert!(!e.is_idle());
            assert!(ok!(e.encode(&mut out, Eos::new(false))) == 2 && e.is_idle());
            assert!(out[0] == b[0] && out[1] == b[1]);
            witness!(true);
        }
        /// Parts without bytes are complete without any, whatever is known about the end.
        empty_parts [8] {
            let b = nd::bytes8();
            let eos = any_eos();
            let mut d = TupleDecoder::new((Tail::default().length(0), U8Decoder::new().collectn::<Acc>(0), Tail::default().length(0)));
            assert!(ok!(d.decode(&[], eos)) == 0 && d.is_idle());
            let (x, y, z) = ok!(d.finish_decoding());
            assert!(x.n == 0 && y.n == 0 && z.n == 0);
            let mut d = TupleDecoder::new((U8Decoder::new(), Tail::default().length(0)));
            assert!(ok!(d.decode(&b[..1], eos)) == 1 && d.is_idle());
            assert!(ok!(d.finish_decoding()).0 == b[0]);
            let mut d = Tail::default().length(0).chain(Tail::default().length(0));
            assert!(ok!(d.decode(&[], eos)) == 0 && d.is_idle());
            let mut d = U8Decoder::new().and_then(|_| Tail::default().length(0));
            assert!(ok!(d.decode(&b[1..2], eos)) == 1 && d.is_idle());
            let mut e = TupleEncoder::new((BytesEncoder::<[u8; 0]>::new(), NullEncoder, U8Encoder::new().optional()));
            ok!(e.start_encoding(([], (), None)));
            let mut out = [7u8; 1];
            assert!(ok!(e.encode(&mut out[..0], eos)) == 0 && e.is_idle() && out[0] == 7);
            witness!(eos.remaining_bytes() == ByteCount::Finite(3));
            witness!(eos.is_reached());
        }
        /// Items of one type follow each other on the wire.
        back_to_back [14] {
            let b = nd::bytes8();
            let mut e = TupleEncoder::new((U8Encoder::new(), U16beEncoder::new()));
            let mut out = [0u8; 8];
            ok!(e.start_encoding((b[0], u16::from_be_bytes([b[1], b[2]]))));
            let n = ok!(e.encode(&mut out, Eos::new(false)));
            assert!(n == 3);
            ok!(e.start_encoding((b[3], u16::from_be_bytes([b[4], b[5]]))));
            assert!(ok!(e.encode(&mut out[3..], Eos::new(false))) == 3);
            let mut d = TupleDecoder::new((U8Decoder::new(), U16beDecoder::new()));
            assert!(ok!(d.decode(&out[..6], Eos::new(true))) == 3);
            assert!(ok!(d.finish_decoding()) == (b[0], u16::from_be_bytes([b[1], b[2]])));
            assert!(ok!(d.decode(&out[3..6], Eos::new(true))) == 3);
            assert!(ok!(d.finish_decoding()) == (b[3], u16::from_be_bytes([b[4], b[5]])));
            witness!(b[0] != b[3]);
        }
    }
}
tables!(tuple, composed);
