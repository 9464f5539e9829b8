//! C11: taking an item too early, and reusing a decoder.
use crate::util::prelude::*;

fn early<D: Decode>(mk: impl Fn() -> D, b: [u8; 8], len: usize, name: &str)
where
    D::Item: PartialEq,
{
    // A composite hands the partial item's pieces out; only the error is claimed.
    let composite = matches!(
        name,
        "tuple2" | "tuple3" | "tuple4" | "tuple_null" | "chain" | "nested" | "nested_map"
            | "and_then_length" | "and_then_collectn" | "and_then_empty" | "tuple_tail" | "and_then_tail"
    );
    let last = Eos::new(false);
    nd::cases(len - 1, |i| {
        let mut d = mk();
        assert!(ok!(d.decode(&b[..i], Eos::new(false))) == i);
        err!(d.finish_decoding(), IncompleteDecoding);
        if !composite && name != "maybe_eos" {
            assert!(ok!(d.decode(&b[i..len], last)) == len - i);
            let item = ok!(d.finish_decoding());
            let mut whole = mk();
            assert!(ok!(whole.decode(&b[..len], last)) == len);
            assert!(item == ok!(whole.finish_decoding()), "the refused call changed nothing");
        }
        witness!(i == len - 1);
    });
}

/// A decoder that has delivered an item decodes the next one like a fresh one.
fn reuse<D: Decode>(mk: impl Fn() -> D, b: [u8; 8], len: usize, until_eos: bool, name: &str)
where
    D::Item: PartialEq,
{
    let c = nd::bytes8();
    let mut c2 = c;
    if name.starts_with("and_then") || name == "nested_map" {
        c2[0] = b[0]; // keeps the selector
    }
    let last = Eos::new(until_eos);
    let mut d = mk();
    assert!(ok!(d.decode(&b[..len], last)) == len);
    let first = ok!(d.finish_decoding());
    assert!(!d.is_idle(), "the delivered item is gone");
    let i = if len > 1 { 1 } else { 0 };
    assert!(ok!(d.decode(&c2[..i], Eos::new(false))) == i);
    assert!(ok!(d.decode(&c2[i..len], last)) == len - i);
    assert!(d.is_idle());
    let second = ok!(d.finish_decoding());
    let mut f1 = mk();
    assert!(ok!(f1.decode(&b[..len], last)) == len);
    assert!(first == ok!(f1.finish_decoding()));
    let mut f2 = mk();
    assert!(ok!(f2.decode(&c2[..len], last)) == len);
    assert!(second == ok!(f2.finish_decoding()), "the second item equals a fresh decoder's");
}

fn framed_early<D: Decode>(mk: impl Fn() -> D, b: [u8; 8], len: usize, name: &str)
where
    D::Item: PartialEq,
{
    early(&mk, b, len, name);
    if !matches!(name, "bytes_array" | "bytes_vec" | "collectn" | "collectn_bytes") {
        reuse(&mk, b, len, false, name);
    }
}
fn eos_early<D: Decode>(mk: impl Fn() -> D, b: [u8; 8], len: usize, name: &str)
where
    D::Item: PartialEq,
{
    let composite = matches!(name, "tuple_tail" | "and_then_tail");
    nd::cases(len, |i| {
        let mut d = mk();
        assert!(ok!(d.decode(&b[..i], Eos::new(false))) == i);
        err!(d.finish_decoding(), IncompleteDecoding);
        if !composite {
            assert!(ok!(d.decode(&b[i..len], Eos::new(true))) == len - i);
            let item = ok!(d.finish_decoding());
            let mut whole = mk();
            assert!(ok!(whole.decode(&b[..len], Eos::new(true))) == len);
            assert!(item == ok!(whole.finish_decoding()), "the refused call changed nothing");
        }
        witness!(i == 1);
    });
    if name != "collectn_tail" {
        reuse(&mk, b, len, true, name);
    }
}
framed_decoders!(framed, framed_early);
eos_decoders!(eos, eos_early);
thorough! {
    framed_extra!(framed_x, framed_early);
    eos_extra!(eos_x, eos_early);
}
pub mod one_shot {
    use super::*;
    harnesses! {
        bytes_terminated [14] {
            let b = nd::bytes8();
            nd::cases(3, |n| {
                let mut store = [0u8; 3];
                let mut d = BytesDecoder::new(&mut store[..n]).map(|s: &mut [u8]| s.len());
                assert!(ok!(d.decode(&b[..n], Eos::new(nd::bool()))) == n);
                assert!(d.is_idle());
                assert!(ok!(d.finish_decoding()) == n);
                err!(d.decode(&b[..3], Eos::new(nd::bool())), DecoderTerminated);
                err!(d.decode(&[], Eos::new(nd::bool())), DecoderTerminated);
                err!(d.finish_decoding(), DecoderTerminated);
                witness!(n == 3);
            });
        }
        bytes_revived [14] {
            let b = nd::bytes8();
            let mut d = BytesDecoder::new([0u8; 2]);
            if nd::bool() {
                assert!(ok!(d.decode(&b[..2], Eos::new(false))) == 2);
                let x = ok!(d.finish_decoding());
                assert!(x[0] == b[0] && x[1] == b[1]);
            } else {
                assert!(ok!(d.decode(&b[..1], Eos::new(false))) == 1);
            }
            d.set_bytes([0u8; 2]);
            assert!(!d.is_idle() && d.requiring_bytes() == ByteCount::Finite(2));
            assert!(ok!(d.decode(&b[4..], Eos::new(false))) == 2);
            let x = ok!(d.finish_decoding());
            assert!(x[0] == b[4] && x[1] == b[5]);
            witness!(b[0] != b[4]);
        }
        default_bytes_terminated [14] {
            let mut d = BytesDecoder::<[u8; 2]>::default();
            err!(d.decode(&[1, 2], Eos::new(nd::bool())), DecoderTerminated);
            err!(d.finish_decoding(), DecoderTerminated);
            d.set_bytes([0; 2]);
            assert!(ok!(d.decode(&[1, 2, 3], Eos::new(false))) == 2);
            assert!(ok!(d.finish_decoding())[1] == 2);
            witness!(true);
        }
        collectn_again [14] {
            let b = nd::bytes8();
            let mut d = U8Decoder::new().collectn::<Acc>(2);
            assert!(ok!(d.decode(&b[..3], Eos::new(false))) == 2);
            let x = ok!(d.finish_decoding());
            assert!(x.n == 2 && x.get(0) == b[0] as u64 && x.get(1) == b[1] as u64);
            nd::cases(3, |k| {
                d.set_remaining_items(k);
                assert!(d.remaining_items() == k);
                assert!(ok!(d.decode(&b[4..], Eos::new(false))) == k);
                assert!(d.is_idle());
                let y = ok!(d.finish_decoding());
                assert!(y.n == k && (k == 0 || y.get(k - 1) == b[3 + k] as u64));
                witness!(k == 3);
            });
        }
    }
}
walk_decoders!(w, w_end, w_split, w_step, 11);
tables!(framed, eos, one_shot, framed_x, eos_x, w, w_end, w_split, w_step);
