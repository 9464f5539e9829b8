//! C25: arithmetic on byte counts and stream ends.
use crate::util::prelude::*;
use std::cmp::Ordering;

/// Independent model: a lower bound and what is known about the count.
fn dec(a: ByteCount, b: ByteCount) -> ByteCount {
    use ByteCount::*;
    if a == Infinite || b == Infinite {
        return Infinite;
    }
    let known = |x: ByteCount| match x {
        Finite(n) => n as u128,
        _ => 0,
    };
    let n = known(a) + known(b);
    if (a == Unknown || b == Unknown) && n == 0 {
        return Unknown;
    }
    Finite(if n > u64::MAX as u128 { u64::MAX } else { n as u64 })
}
fn enc(a: ByteCount, b: ByteCount) -> ByteCount {
    use ByteCount::*;
    match (a, b) {
        (Infinite, _) | (_, Infinite) => Infinite,
        (Finite(x), Finite(y)) => Finite(if (x as u128 + y as u128) > u64::MAX as u128 { u64::MAX } else { x + y }),
        _ => Unknown,
    }
}

harnesses! {
    classes [2] {
        let c = any_byte_count();
        let n = nd::u64();
        assert!(c.is_finite() as u8 + c.is_infinite() as u8 + c.is_unknow() as u8 == 1);
        assert!(c.is_finite() == c.to_u64().is_some());
        assert!(ByteCount::Finite(n).is_finite() && ByteCount::Finite(n).to_u64() == Some(n));
        assert!(ByteCount::Infinite.is_infinite() && ByteCount::Infinite.to_u64().is_none());
        assert!(ByteCount::Unknown.is_unknow() && ByteCount::Unknown.to_u64().is_none());
        assert!(ByteCount::default() == ByteCount::Unknown);
        witness!(c.to_u64() == Some(u64::MAX));
    }
    sum_for_decoding [2] {
        let (a, b, c) = (any_byte_count(), any_byte_count(), any_byte_count());
        let s = a.add_for_decoding(b);
        assert!(s == dec(a, b), "the documented rule, saturating");
        assert!(s == b.add_for_decoding(a));
        assert!(s.add_for_decoding(c) == a.add_for_decoding(b.add_for_decoding(c)), "grouping does not matter");
        assert!(ByteCount::Finite(0).add_for_decoding(a) == a);
        witness!(s == ByteCount::Finite(u64::MAX) && a == ByteCount::Finite(u64::MAX - 1) && b == ByteCount::Finite(7));
        witness!(s == ByteCount::Finite(3) && b.is_unknow());
    }
    sum_for_encoding [2] {
        let (a, b, c) = (any_byte_count(), any_byte_count(), any_byte_count());
        let s = a.add_for_encoding(b);
        assert!(s == enc(a, b), "the documented rule, saturating");
        assert!(s == b.add_for_encoding(a));
        assert!(s.add_for_encoding(c) == a.add_for_encoding(b.add_for_encoding(c)), "grouping does not matter");
        assert!(ByteCount::Finite(0).add_for_encoding(a) == a);
        witness!(s == ByteCount::Finite(u64::MAX) && a == ByteCount::Finite(5));
        witness!(s.is_unknow() && a == ByteCount::Finite(5));
    }
    order [2] {
        let (a, b) = (any_byte_count(), any_byte_count());
        let o = a.partial_cmp(&b);
        if a.is_unknow() || b.is_unknow() {
            assert!(o.is_none(), "nothing is known");
            assert!(!(a < b) && !(a > b) && !(a <= b) && !(a >= b));
        } else {
            let key = |c: ByteCount| c.to_u64().map_or(u64::MAX as u128 + 1, |n| n as u128);
            assert!(o == Some(key(a).cmp(&key(b))), "infinite is more than any number");
            assert!((o == Some(Ordering::Equal)) == (a == b));
        }
        witness!(o == Some(Ordering::Less) && b.is_infinite());
    }
    end [2] {
        let c = any_byte_count();
        let e = Eos::with_remaining_bytes(c);
        assert!(e.remaining_bytes() == c && e.is_reached() == (c == ByteCount::Finite(0)));
        assert!(Eos::new(true).is_reached() && Eos::new(true).remaining_bytes() == ByteCount::Finite(0));
        assert!(!Eos::new(false).is_reached() && Eos::new(false).remaining_bytes() == ByteCount::Unknown);
        let (m, n) = (nd::u64(), nd::u64());
        let b = e.back(m);
        match c {
            ByteCount::Finite(x) => {
                assert!(b.remaining_bytes() == ByteCount::Finite(if x > u64::MAX - m { u64::MAX } else { x + m }));
                assert!(b.is_reached() == (x == 0 && m == 0));
            }
            _ => assert!(b == e, "nothing is known about the distance"),
        }
        assert!(e.back(0) == e);
        if m < 1 << 63 && n < 1 << 63 {
            assert!(b.back(n) == e.back(m + n), "moving back in two steps");
        }
        witness!(c == ByteCount::Finite(u64::MAX) && m == 1);
    }
}
