//! C09: a stream that ends inside an item is reported, never turned into one.
use crate::util::prelude::*;

fn truncated<D: Decode>(mk: impl Fn() -> D, b: [u8; 8], len: usize, name: &str) {
    let maybe = name == "maybe_eos";
    nd::cases(len - 1, |i| {
        nd::assume(!maybe || i > 0);
        let mut d = mk();
        match nd::u8() % 3 {
            0 => err!(d.decode(&b[..i], Eos::new(true)), UnexpectedEos),
            1 => {
                assert!(ok!(d.decode(&b[..i], Eos::new(false))) == i);
                err!(d.decode(&[], Eos::new(true)), UnexpectedEos);
            }
            _ => {
                let j = i / 2;
                assert!(ok!(d.decode(&b[..j], Eos::new(false))) == j);
                nd::assume(!maybe || j > 0 || i > j);
                err!(d.decode(&b[j..i], Eos::new(true)), UnexpectedEos);
            }
        }
        assert!(!d.is_idle(), "no item from a truncated stream");
        assert!(d.finish_decoding().is_err(), "no item from a truncated stream");
        witness!(i == len - 1);
    });
}

fn complete<D: Decode>(mk: impl Fn() -> D, b: [u8; 8], len: usize, _: &str) {
    let mut d = mk();
    assert!(ok!(d.decode(&b[..len], Eos::new(true))) == len, "ending exactly at the item's end is fine");
    assert!(d.is_idle());
    ok!(d.finish_decoding());
    let mut d = mk();
    ok!(d.decode_from_bytes(&b[..len]));
    witness!(true);
}
fn both<D: Decode>(mk: impl Fn() -> D, b: [u8; 8], len: usize, name: &str) {
    complete(&mk, b, len, name);
    truncated(mk, b, len, name);
}
framed_decoders!(framed, both);
thorough! {
    framed_extra!(framed_x, both);
}
pub mod tails {
    use super::*;
    macro_rules! cut {
        ($($name:ident [$n:expr] $mk:expr;)*) => { harnesses! { $($name [14] {
            let b = nd::bytes8();
            nd::cases(1, |k| {
                let f: fn(usize) -> usize = $n;
                let n = f(k);
                let mut d = $mk;
                if nd::bool() {
                    assert!(ok!(d.decode(&b[..n], Eos::new(false))) == n);
                    err!(d.decode(&[], Eos::new(true)), UnexpectedEos);
                } else {
                    err!(d.decode(&b[..n], Eos::new(true)), UnexpectedEos);
                }
                assert!(d.finish_decoding().is_err());
                witness!(k == 1);
            });
        })* } };
    }
    cut! {
        // items that extend to the end of the stream, but have a minimum
        collect [|k| 2 * k + 1] U16beDecoder::new().collect::<Acc>();
        tuple_tail [|k| k] TupleDecoder::new((U16beDecoder::new(), Tail::default()));
        and_then_tail [|k| k] U16beDecoder::new().and_then(|_| Tail::default());
        tail_last [|k| k + 1] TupleDecoder::new((Tail::default(), U8Decoder::new()));
        collectn [|k| k] Tail::default().map(|a| a.get(0)).collectn::<Acc>(2);
        length [|k| k] Tail::default().length(2);
        length_collect [|k| k + 1] U8Decoder::new().collect::<Acc>().length(3);
        maybe_eos [|k| k + 1] U24beDecoder::new().maybe_eos();
        max_bytes [|k| k] U16beDecoder::new().max_bytes(9);
        slice [|k| k] { let mut s = U16beDecoder::new().slice(); s.set_consumable_bytes(5); s };
    }
}
walk_decoders!(w, w_end, w_split, w_step, 9);
tables!(framed, tails, framed_x, w, w_end, w_split, w_step);
