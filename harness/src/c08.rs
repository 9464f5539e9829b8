//! C08: what encoders announce as still to be written.
use crate::util::prelude::*;

fn exact<E: SizedEncode>(mk: impl Fn() -> E, item: impl Fn(&[u8; 8]) -> E::Item, b: [u8; 8], len: usize, _: &str) {
    nd::cases(len, |i| {
        let mut e = mk();
        assert!(e.is_idle() && e.exact_requiring_bytes() == 0, "nothing to write before an item");
        assert!(e.requiring_bytes() == ByteCount::Finite(0));
        ok!(e.start_encoding(item(&b)));
        assert!(!e.is_idle() && e.exact_requiring_bytes() == len as u64);
        assert!(e.requiring_bytes() == ByteCount::Finite(len as u64), "the size of the whole item");
        let mut out = [0u8; 9];
        assert!(ok!(e.encode(&mut out[..i], Eos::new(false))) == i);
        assert!(e.exact_requiring_bytes() == (len - i) as u64, "what is left of the item");
        assert!(e.requiring_bytes() == ByteCount::Finite((len - i) as u64));
        assert!(e.is_idle() == (i == len));
        ok!(e.encode(&mut out, Eos::new(false)));
        assert!(e.is_idle() && e.exact_requiring_bytes() == 0);
        assert!(e.requiring_bytes() == ByteCount::Finite(0));
        witness!(i == len);
    });
}
/// Without a known size: never less than `Finite(0)` when idle, never a wrong number.
fn honest<E: Encode>(mk: impl Fn() -> E, item: impl Fn(&[u8; 8]) -> E::Item, b: [u8; 8], len: usize, _: &str) {
    nd::cases(len, |i| {
        let mut e = mk();
        assert!(e.is_idle() && e.requiring_bytes() == ByteCount::Finite(0));
        ok!(e.start_encoding(item(&b)));
        let mut out = [0u8; 9];
        if i > 0 {
            assert!(ok!(e.encode(&mut out[..i], Eos::new(false))) == i);
        }
        assert!(e.is_idle() == (i == len));
        match e.requiring_bytes() {
            ByteCount::Finite(n) => assert!(n == (len - i) as u64, "a finite number is the exact one"),
            ByteCount::Unknown => assert!(i < len),
            ByteCount::Infinite => panic!("the item is finite"),
        }
        witness!(i == len);
    });
}
sized_encoders!(sized, exact);
unsized_encoders!(unsized_, honest);
thorough! {
    sized_extra!(sized_x, exact);
}
pub mod more {
    use super::*;
    harnesses! {
        tuple_sum [14] {
            let (a, b, c) = (nd::u64(), nd::u64(), nd::u64());
            let mut e = TupleEncoder::new((Emit::new(), Emit::new(), Emit::new()));
            assert!(e.is_idle() && e.exact_requiring_bytes() == 0);
            ok!(e.start_encoding((a, b, c)));
            let sum = a.saturating_add(b).saturating_add(c);
            assert!(e.exact_requiring_bytes() == sum, "the sum over the elements");
            assert!(e.requiring_bytes() == ByteCount::Finite(sum), "the same both ways");
            assert!(!e.is_idle());
            witness!(a > b && b > c && c > 7);
            witness!(sum == u64::MAX && a == u64::MAX && c == 2);
        }
        /// A part of unknown or infinite size makes the whole so.
        tuple_unknown [14] {
            let n = nd::u64();
            let mut e = TupleEncoder::new((Emit::new(), PaddingEncoder::new()));
            ok!(e.start_encoding((n, 0)));
            assert!(e.requiring_bytes() == ByteCount::Infinite);
            let mut e = TupleEncoder::new((Emit::new(), Emit::new().repeat()));
            ok!(e.start_encoding((n, core::iter::once(n))));
            assert!(e.requiring_bytes() == ByteCount::Unknown);
            let mut e = TupleEncoder::new((Emit::new().repeat(), PaddingEncoder::new()));
            ok!(e.start_encoding((core::iter::once(n), 0)));
            assert!(e.requiring_bytes() == ByteCount::Infinite);
            witness!(n > 7);
        }
        /// Any length, including far beyond real buffers.
        length_budget [14] {
            let n = nd::u64();
            nd::assume(n > 0);
            let mut e = Emit::new().length(n);
            assert!(e.exact_requiring_bytes() == 0 && e.requiring_bytes() == ByteCount::Finite(0));
            ok!(e.start_encoding(n));
            assert!(e.exact_requiring_bytes() == n && e.requiring_bytes() == ByteCount::Finite(n));
            let mut out = [0u8; 4];
            let m = ok!(e.encode(&mut out, Eos::new(false)));
            assert!(e.exact_requiring_bytes() == n - m as u64);
            assert!(e.requiring_bytes() == ByteCount::Finite(n - m as u64));
            witness!(n > u32::MAX as u64);
            witness!(n == 2);
        }
        /// The budget of a slice bounds one call, not the item.
        slice_budget [14] {
            let (n, budget) = (nd::u64(), nd::u64());
            let a = nd::upto(3);
            let mut e = Emit::new().slice();
            ok!(e.start_encoding(n));
            assert!(e.exact_requiring_bytes() == n && e.requiring_bytes() == ByteCount::Finite(n));
            e.set_consumable_bytes(budget);
            assert!(e.exact_requiring_bytes() == n && e.requiring_bytes() == ByteCount::Finite(n));
            let mut out = [0u8; 4];
            let m = ok!(e.encode(&mut out[..a], Eos::new(false))) as u64;
            assert!(e.exact_requiring_bytes() == n - m && e.requiring_bytes() == ByteCount::Finite(n - m));
            witness!(budget == 2 && n == 5 && a == 3);
        }
        /// Nor does a byte limit.
        max_bytes_limit [14] {
            let (n, max) = (nd::u64(), nd::u64());
            let a = nd::upto(3);
            nd::assume(max >= 3);
            let mut e = Emit::new().max_bytes(max);
            ok!(e.start_encoding(n));
            assert!(e.exact_requiring_bytes() == n && e.requiring_bytes() == ByteCount::Finite(n));
            let mut out = [0u8; 4];
            let m = ok!(e.encode(&mut out[..a], Eos::new(false))) as u64;
            assert!(e.exact_requiring_bytes() == n - m && e.requiring_bytes() == ByteCount::Finite(n - m));
            witness!(max == 3 && n == 5 && a == 3);
        }
        /// A pending last item counts as work of unknown size.
        last_pending [14] {
            let n = nd::u64();
            let mut e = Emit::new().last(n);
            assert!(!e.is_idle() && e.requiring_bytes() != ByteCount::Finite(0));
            let mut out = [0u8; 2];
            let m = ok!(e.encode(&mut out, Eos::new(false)));
            assert!(e.exact_requiring_bytes() == n - m as u64);
            assert!(e.requiring_bytes() == ByteCount::Finite(n - m as u64));
            witness!(n > 2);
        }
        /// Known finding: the exact size of a pending last item is reported as 0.
        kf_last_exact [14] {
            let e = U8Encoder::new().last(7);
            assert!(e.exact_requiring_bytes() == 1, "the pending last item is counted");
        }
    }
}
walk_encoders!(w, w_split, w_step, w_uns, 8);
tables!(sized, unsized_, more, sized_x, w, w_uns, w_split, w_step);
