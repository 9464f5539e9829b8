//! C10: an output that ends inside an item is reported.
use crate::util::prelude::*;

fn truncated<E: Encode>(mk: impl Fn() -> E, item: impl Fn(&[u8; 8]) -> E::Item, b: [u8; 8], len: usize, _: &str) {
    let mut out = [0u8; 9];
    // ending exactly at the item's end, or after it, is fine
    nd::cases(1, |k| {
        let mut e = mk();
        ok!(e.start_encoding(item(&b)));
        assert!(ok!(e.encode(&mut out[..len + k], Eos::new(true))) == len);
        assert!(e.is_idle());
        assert!(ok!(e.encode(&mut out[..k], Eos::new(true))) == 0, "an idle encoder has nothing to lose");
    });
    nd::cases(len - 1, |i| {
        let mut e = mk();
        ok!(e.start_encoding(item(&b)));
        match nd::u8() % 3 {
            0 => err!(e.encode(&mut out[..i], Eos::new(true)), UnexpectedEos),
            1 => {
                assert!(ok!(e.encode(&mut out[..i], Eos::new(false))) == i);
                err!(e.encode(&mut [], Eos::new(true)), UnexpectedEos);
            }
            _ => {
                let j = i / 2;
                assert!(ok!(e.encode(&mut out[..j], Eos::new(false))) == j);
                err!(e.encode(&mut out[j..i], Eos::new(true)), UnexpectedEos);
            }
        }
        witness!(i == len - 1);
    });
}
sized_encoders!(sized, truncated);
unsized_encoders!(unsized_, truncated);
thorough! {
    sized_extra!(sized_x, truncated);
}
pub mod more {
    use super::*;
    harnesses! {
        last [14] {
            let mut out = [0u8; 4];
            nd::cases(1, |i| {
                let mut e = U16beEncoder::new().last(nd::u16());
                err!(e.encode(&mut out[..i], Eos::new(true)), UnexpectedEos);
            });
            let mut e = U16beEncoder::new().last(nd::u16());
            assert!(ok!(e.encode(&mut out[..2], Eos::new(true))) == 2 && e.is_idle());
            witness!(true);
        }
    }
}
walk_encoders!(w, w_split, w_step, w_uns, 10);
tables!(sized, unsized_, more, sized_x, w, w_uns, w_split, w_step);
