//! Walkers: symbolic call sequences over content-free codecs of any size.
//!
//! The catalogue harnesses of `util` check contents on small items; these check
//! the call-by-call contract (sizes, requirements, idleness, errors) for items
//! of any size, with symbolic chunk lengths, announcements, empty calls, calls
//! after completion, refused calls and reuse.  `p` selects the property whose
//! assertions are made.
use crate::util::prelude::*;

/// Required bytes are a lower bound only.
pub const LOWER: u8 = 1;
/// A composite: after a refused finish only the error is claimed.
pub const COMPOSITE: u8 = 2;
/// The codec cannot be used for a second item as it is.
pub const ONCE: u8 = 4;
/// Ignores an end of the stream before the first byte.
pub const MAYBE: u8 = 8;
/// The item consists of two-byte pieces.
pub const EVEN: u8 = 16;
/// May answer `Unknown` for what is still required.
pub const UNSIZED: u8 = 32;
/// Has no exact count.
pub const NOEXACT: u8 = 64;

fn min(a: u64, b: u64) -> u64 {
    if a < b {
        a
    } else {
        b
    }
}
/// An announcement that leaves at least `r` bytes to come, and not the end.
fn open(r: u64) -> Eos {
    if nd::bool() {
        Eos::new(false)
    } else {
        Eos::with_remaining_bytes(ByteCount::Finite(r + 1 + nd::u16() as u64))
    }
}

/// How a walk ended (for the witnesses).
pub const SHORT: u8 = 0;
pub const FULL: u8 = 1;
pub const CUT: u8 = 2;

/// An item of exactly `need` bytes.
pub fn framed<D: Decode>(mut d: D, need: u64, flags: u8, p: u8) -> u8 {
    let b = [0u8; 4];
    let mut got = 0u64;
    let mut calls = 0;
    while calls < 3 {
        calls += 1;
        let k = nd::upto(3);
        let r = need - got;
        let m = min(k as u64, r);
        let end = p == 9 && nd::bool();
        nd::assume(flags & MAYBE == 0 || !end || k > 0 || got > 0);
        let e = if end { Eos::new(true) } else { open(r - m) };
        let res = d.decode(&b[..k], e);
        if end && m < r {
            err!(res, UnexpectedEos);
            assert!(!d.is_idle() && d.finish_decoding().is_err(), "no item from a truncated stream");
            return CUT;
        }
        let n = ok!(res) as u64;
        assert!(n == m, "takes what it can use and no more");
        got += n;
        assert!(d.is_idle() == (got == need), "idle exactly when complete");
        if p == 7 {
            match d.requiring_bytes() {
                ByteCount::Finite(x) => {
                    assert!(x <= need - got && (x == 0) == (got == need));
                    assert!(flags & LOWER != 0 || x == need - got, "exactly what is missing");
                }
                _ => panic!("the number of missing bytes is known"),
            }
        }
        if p == 11 && got < need && nd::bool() {
            err!(d.finish_decoding(), IncompleteDecoding);
            if flags & COMPOSITE != 0 {
                return SHORT;
            }
        }
    }
    if got < need {
        return SHORT;
    }
    if p == 6 {
        assert!(ok!(d.decode(&b[..nd::upto(3)], Eos::new(nd::bool()))) == 0 && d.is_idle());
    }
    ok!(d.finish_decoding());
    if flags & ONCE == 0 {
        assert!(need == 0 || !d.is_idle(), "the item is gone");
        let k = nd::upto(3);
        let m = min(k as u64, need);
        assert!(ok!(d.decode(&b[..k], open(need - m))) as u64 == m, "starts over");
        assert!(d.is_idle() == (m == need));
        if p == 7 && flags & LOWER == 0 {
            assert!(d.requiring_bytes() == ByteCount::Finite(need - m));
        }
        if m == need {
            ok!(d.finish_decoding());
        } else if p == 11 {
            err!(d.finish_decoding(), IncompleteDecoding);
        }
    }
    if need >= 3 {
        FULL
    } else {
        SHORT
    }
}

/// An item that extends to the end of the stream, of at least `least` bytes.
pub fn until_end<D: Decode>(mut d: D, least: u64, flags: u8, p: u8) -> u8 {
    let b = [0u8; 4];
    let mut got = 0u64;
    let mut calls = 0;
    while calls < 2 {
        calls += 1;
        let k = nd::upto(3);
        assert!(ok!(d.decode(&b[..k], open(least))) == k, "everything before the end belongs to it");
        got += k as u64;
        assert!(!d.is_idle());
        if p == 7 {
            assert!(d.requiring_bytes() != ByteCount::Finite(0), "more is required until the end");
        }
        if p == 11 && nd::bool() {
            err!(d.finish_decoding(), IncompleteDecoding);
            if flags & COMPOSITE != 0 {
                return SHORT;
            }
        }
    }
    let k = nd::upto(3);
    nd::assume(flags & MAYBE == 0 || k > 0 || got > 0);
    let bad = got + (k as u64) < least || flags & EVEN != 0 && (got + k as u64) % 2 == 1;
    nd::assume(p == 9 || !bad);
    let res = d.decode(&b[..k], Eos::new(true));
    if bad {
        err!(res, UnexpectedEos);
        assert!(!d.is_idle() && d.finish_decoding().is_err(), "no item from a truncated stream");
        return CUT;
    }
    assert!(ok!(res) == k && d.is_idle(), "complete at the end");
    if p == 7 {
        assert!(d.requiring_bytes() == ByteCount::Finite(0));
    }
    if p == 6 {
        assert!(ok!(d.decode(&b[..nd::upto(3)], Eos::new(nd::bool()))) == 0 && d.is_idle());
    }
    ok!(d.finish_decoding());
    if flags & ONCE == 0 {
        assert!(!d.is_idle());
        if p == 11 {
            err!(d.finish_decoding(), IncompleteDecoding);
            if flags & COMPOSITE != 0 {
                return FULL;
            }
        }
        assert!(ok!(d.decode(&b[..2], open(least))) == 2 && !d.is_idle(), "starts over");
        if p == 7 {
            assert!(d.requiring_bytes() != ByteCount::Finite(0));
        }
        if least <= 4 {
            assert!(ok!(d.decode(&b[..2], Eos::new(true))) == 2 && d.is_idle());
            ok!(d.finish_decoding());
        }
    }
    if got + k as u64 >= 4 {
        FULL
    } else {
        SHORT
    }
}

/// An encoder whose items take `need` bytes.
pub fn encoder<E: Encode>(mut e: E, item: impl Fn() -> E::Item, need: u64, flags: u8, p: u8, exact: impl Fn(&E) -> u64) -> u8 {
    let mut out = [0u8; 4];
    if flags & ONCE == 0 {
        assert!(e.is_idle(), "nothing to do at first");
        if p == 8 {
            assert!(exact(&e) == 0 && e.requiring_bytes() == ByteCount::Finite(0));
        }
        ok!(e.start_encoding(item()));
    }
    let mut done = 0u64;
    let mut calls = 0;
    while calls < 3 {
        calls += 1;
        if p == 12 && flags & ONCE == 0 && !e.is_idle() && nd::bool() {
            err!(e.start_encoding(item()), EncoderFull);
            assert!(!e.is_idle());
        }
        if p == 8 && (flags & ONCE == 0 || calls > 1) {
            assert!(flags & NOEXACT != 0 || exact(&e) == need - done, "exactly what is missing");
            match e.requiring_bytes() {
                ByteCount::Finite(n) => assert!(n == need - done),
                ByteCount::Unknown => assert!(flags & UNSIZED != 0 && !e.is_idle()),
                ByteCount::Infinite => panic!("the item is finite"),
            }
        }
        let k = nd::upto(3);
        let r = need - done;
        let m = min(k as u64, r);
        let end = p == 10 && nd::bool();
        let eos = if end { Eos::new(true) } else { open(r - m) };
        let res = e.encode(&mut out[..k], eos);
        if end && m < r {
            err!(res, UnexpectedEos);
            return CUT;
        }
        assert!(ok!(res) as u64 == m, "writes what fits and no more");
        done += m;
        assert!(e.is_idle() == (done == need), "idle exactly when written");
    }
    if done < need {
        return SHORT;
    }
    if p == 8 {
        assert!(exact(&e) == 0 && e.requiring_bytes() == ByteCount::Finite(0));
    }
    assert!(ok!(e.encode(&mut out, Eos::new(nd::bool()))) == 0 && e.is_idle(), "nothing more to write");
    if flags & ONCE == 0 {
        ok!(e.start_encoding(item()));
        let k = nd::upto(3);
        let m = min(k as u64, need);
        assert!(ok!(e.encode(&mut out[..k], open(need - m))) as u64 == m, "the next item");
        assert!(e.is_idle() == (m == need));
        if p == 8 {
            assert!(flags & NOEXACT != 0 || exact(&e) == need - m);
        }
    }
    if need >= 3 {
        FULL
    } else {
        SHORT
    }
}

/// As `framed`, for an item of a few bytes: every split into two calls.
pub fn split_decoder<D: Decode>(mut d: D, need: usize, flags: u8, p: u8) -> u8 {
    let b = [0u8; 16];
    let mut outcome = SHORT;
    nd::cases(need, |i| {
        assert!(ok!(d.decode(&b[..i], Eos::new(false))) == i, "takes what it can use");
        assert!(d.is_idle() == (i == need), "idle exactly when complete");
        if p == 7 {
            required(&d, need - i, flags);
        }
        if p == 11 && i < need {
            err!(d.finish_decoding(), IncompleteDecoding);
            if flags & COMPOSITE != 0 {
                return;
            }
        }
        if p == 9 && i < need && nd::bool() {
            err!(d.decode(&b[..need - i - 1], Eos::new(true)), UnexpectedEos);
            assert!(!d.is_idle() && d.finish_decoding().is_err(), "no item from a truncated stream");
            outcome = CUT;
            return;
        }
        if i < need {
            assert!(ok!(d.decode(&b[..need - i + 2], Eos::new(true))) == need - i, "takes what it can use and no more");
            assert!(d.is_idle());
        }
        if p == 7 {
            required(&d, 0, flags);
        }
        if p == 6 {
            assert!(ok!(d.decode(&b[..2], Eos::new(nd::bool()))) == 0 && d.is_idle(), "nothing more is consumed");
        }
        ok!(d.finish_decoding());
        outcome = FULL;
        if flags & ONCE == 0 {
            assert!(need == 0 || !d.is_idle(), "the item is gone");
            if p == 7 && flags & LOWER == 0 {
                required(&d, need, flags);
            }
            if p == 11 && need > 0 {
                err!(d.finish_decoding(), IncompleteDecoding);
                if flags & COMPOSITE != 0 {
                    return;
                }
            }
            assert!(ok!(d.decode(&b[..need + 1], Eos::new(false))) == need && d.is_idle(), "starts over");
            ok!(d.finish_decoding());
        }
    });
    outcome
}
/// As `split_decoder`, byte by byte, and then a second item at once.
pub fn step_decoder<D: Decode>(mut d: D, need: usize, flags: u8, p: u8) -> u8 {
    let b = [0u8; 16];
    let mut i = 0;
    while i < need {
        if p == 7 {
            required(&d, need - i, flags);
        }
        assert!(!d.is_idle(), "incomplete");
        if p == 11 && nd::bool() {
            err!(d.finish_decoding(), IncompleteDecoding);
            return CUT;
        }
        if p == 9 && nd::bool() {
            let k = if i + 2 < need { 1 } else { 0 };
            err!(d.decode(&b[..k], Eos::new(true)), UnexpectedEos);
            assert!(!d.is_idle() && d.finish_decoding().is_err(), "no item from a truncated stream");
            return CUT;
        }
        i += 1;
        assert!(ok!(d.decode(&b[..1], Eos::new(i == need))) == 1, "takes the byte");
    }
    assert!(d.is_idle(), "complete");
    if p == 7 {
        required(&d, 0, flags);
    }
    if p == 6 {
        assert!(ok!(d.decode(&b[..2], Eos::new(nd::bool()))) == 0 && d.is_idle(), "nothing more is consumed");
    }
    ok!(d.finish_decoding());
    assert!(!d.is_idle(), "the item is gone");
    if p == 7 {
        required(&d, need, flags);
    }
    assert!(ok!(d.decode(&b[..need + 1], Eos::new(false))) == need && d.is_idle(), "starts over");
    ok!(d.finish_decoding());
    FULL
}
fn required<D: Decode>(d: &D, r: usize, flags: u8) {
    match d.requiring_bytes() {
        ByteCount::Finite(x) => {
            assert!(x <= r as u64 && (x == 0) == (r == 0), "a sufficient number of missing bytes");
            assert!(flags & LOWER != 0 || x == r as u64, "exactly what is missing");
        }
        ByteCount::Unknown => assert!(flags & UNSIZED != 0 && r > 0),
        ByteCount::Infinite => panic!("the item is finite"),
    }
}

/// As `encoder`, for an item of a few bytes: every split into two calls.
pub fn split_encoder<E: Encode>(mut e: E, item: impl Fn() -> E::Item, need: usize, flags: u8, p: u8, exact: impl Fn(&E) -> u64) -> u8 {
    let mut out = [0u8; 16];
    let mut outcome = SHORT;
    nd::cases(need, |i| {
        if flags & ONCE == 0 {
            assert!(e.is_idle(), "nothing to do at first");
            missing(&e, 0, flags, p, &exact);
            ok!(e.start_encoding(item()));
            missing(&e, need, flags, p, &exact);
            busy(&mut e, &item, p);
        }
        assert!(ok!(e.encode(&mut out[..i], Eos::new(false))) == i, "writes what fits");
        assert!(e.is_idle() == (i == need), "idle exactly when written");
        missing(&e, need - i, flags, p, &exact);
        if flags & ONCE == 0 {
            busy(&mut e, &item, p);
        }
        if p == 10 && i < need && nd::bool() {
            err!(e.encode(&mut out[..need - i - 1], Eos::new(true)), UnexpectedEos);
            outcome = CUT;
            return;
        }
        if i < need {
            assert!(ok!(e.encode(&mut out[..need - i + 2], Eos::new(true))) == need - i, "writes what is left and no more");
            assert!(e.is_idle());
        }
        missing(&e, 0, flags, p, &exact);
        assert!(ok!(e.encode(&mut out, Eos::new(nd::bool()))) == 0 && e.is_idle(), "nothing more to write");
        outcome = FULL;
        if flags & ONCE == 0 {
            ok!(e.start_encoding(item()));
            missing(&e, need, flags, p, &exact);
            assert!(ok!(e.encode(&mut out[..need + 1], Eos::new(false))) == need && e.is_idle(), "the next item");
        }
    });
    outcome
}
/// As `split_encoder`, byte by byte, and then a second item at once.
pub fn step_encoder<E: Encode>(mut e: E, item: impl Fn() -> E::Item, need: usize, flags: u8, p: u8, exact: impl Fn(&E) -> u64) -> u8 {
    let mut out = [0u8; 16];
    ok!(e.start_encoding(item()));
    let mut i = 0;
    while i < need {
        missing(&e, need - i, flags, p, &exact);
        assert!(!e.is_idle(), "not written yet");
        busy(&mut e, &item, p);
        if p == 10 && nd::bool() {
            let k = if i + 2 < need { 1 } else { 0 };
            err!(e.encode(&mut out[..k], Eos::new(true)), UnexpectedEos);
            return CUT;
        }
        i += 1;
        assert!(ok!(e.encode(&mut out[..1], Eos::new(i == need))) == 1, "writes a byte");
    }
    assert!(e.is_idle(), "written");
    missing(&e, 0, flags, p, &exact);
    assert!(ok!(e.encode(&mut out, Eos::new(nd::bool()))) == 0 && e.is_idle(), "nothing more to write");
    ok!(e.start_encoding(item()));
    missing(&e, need, flags, p, &exact);
    assert!(ok!(e.encode(&mut out[..need + 1], Eos::new(false))) == need && e.is_idle(), "the next item");
    FULL
}
fn missing<E: Encode>(e: &E, r: usize, flags: u8, p: u8, exact: &impl Fn(&E) -> u64) {
    if p != 8 {
        return;
    }
    assert!(flags & NOEXACT != 0 || exact(e) == r as u64, "exactly what is missing");
    match e.requiring_bytes() {
        ByteCount::Finite(n) => assert!(n == r as u64),
        ByteCount::Unknown => assert!(flags & UNSIZED != 0 && !e.is_idle()),
        ByteCount::Infinite => panic!("the item is finite"),
    }
}
fn busy<E: Encode>(e: &mut E, item: &impl Fn() -> E::Item, p: u8) {
    if p == 12 && !e.is_idle() {
        err!(e.start_encoding(item()), EncoderFull);
        assert!(!e.is_idle(), "the pending item is kept");
    }
}

/// An iterator over sizes: `One(n, 1)` yields `n` and 1, `One(n, 2)` yields
/// `n`, and `One(n, 0)` nothing.
pub struct One(pub u64, pub u8);
impl Iterator for One {
    type Item = u64;
    fn next(&mut self) -> Option<u64> {
        match self.1 {
            1 => {
                self.1 = 3;
                Some(self.0)
            }
            2 => {
                self.1 = 0;
                Some(self.0)
            }
            3 => {
                self.1 = 0;
                Some(1)
            }
            _ => None,
        }
    }
}

macro_rules! sizes {
    ($a:ident, $b:ident) => {
        let ($a, $b) = (nd::u64(), nd::u64());
        nd::assume($a <= 1 << 40 && $b <= 1 << 40);
    };
}
macro_rules! parts {
    ($($n:expr),*) => { TupleDecoder::new(($(Need::new($n)),*)) };
}

/// Framed and until-end decoders for property `$p`.
macro_rules! walk_decoders {
    ($m:ident, $end:ident, $split:ident, $step:ident, $p:literal) => {
        /// Any size, over mocks.
        pub mod $m {
            use super::*;
            use crate::walk::*;
            walk_decoders! { @framed $p;
                map: 0, |a, b| a, Need::new(a).map(|n| n);
                try_map: 0, |a, b| a, Need::new(a).try_map(|n| -> Result<u64> { Ok(n) });
                map_err: 0, |a, b| a, Need::new(a).map_err(|e| e);
                omit: 0, |a, b| a, Need::new(a).omit(false);
                length: 0, |a, b| a, Need::new(a).length(a);
                length_tail: 0, |a, b| a, { nd::assume(a > 0); UntilEos::new().length(a) };
                max_bytes: 0, |a, b| a, Need::new(a).max_bytes(u64::MAX);
                slice: 0, |a, b| a, { let mut s = Need::new(a).slice(); s.set_consumable_bytes(u64::MAX); s };
                peekable: 0, |a, b| a, Need::new(a).peekable();
                maybe_eos: MAYBE, |a, b| a, Need::new(a).maybe_eos();
                boxed: 0, |a, b| a, { let d: Box<dyn Decode<Item = u64>> = Box::new(Need::new(a)); d };
                and_then: LOWER | COMPOSITE, |a, b| a + b, Need::new(a).and_then(move |_| Need::new(b));
                #[cfg(any(feature = "thorough", not(kani)))]
                collectn: LOWER | ONCE, |a, b| 2 * a, Need::new(a).collectn::<Acc>(2);
                tuple2: COMPOSITE, |a, b| a + b, TupleDecoder::new((Need::new(a), Need::new(b)));
            }
        }
        pub mod $end {
            use super::*;
            use crate::walk::*;
            walk_decoders! { @until_end $p;
                map: 0, 0, UntilEos::new().map(|n| n);
                max_bytes: 0, 0, UntilEos::new().max_bytes(u64::MAX);
                slice: 0, 0, { let mut s = UntilEos::new().slice(); s.set_consumable_bytes(u64::MAX); s };
                peekable: 0, 0, UntilEos::new().peekable();
                maybe_eos: MAYBE, 0, UntilEos::new().maybe_eos();
                tuple: COMPOSITE, 2, TupleDecoder::new((Need::new(2), UntilEos::new()));
                and_then: COMPOSITE, 2, Need::new(2).and_then(|_| UntilEos::new());
                #[cfg(any(feature = "thorough", not(kani)))]
                collect: EVEN, 0, Need::new(2).collect::<Acc>();
                padding: 0, 0, PaddingDecoder::new(None);
            }
        }
        /// A few bytes in every split: tuples of all arities, nestings, real codecs.
        pub mod $split {
            use super::*;
            use crate::walk::*;
            walk_decoders! { @split split_decoder $p;
                null: 0, 0, NullDecoder;
                null_peekable: 0, 0, NullDecoder.peekable();
                utf8_short: ONCE, 1, Utf8Decoder::with_bytes_decoder(BytesDecoder::new(vec![0u8; 1]));
                empty_peekable: 0, 0, Need::new(0).peekable();
                empty_maybe: 0, 0, Need::new(0).maybe_eos();
                empty_length: 0, 0, Need::new(0).length(0);
                empty_bytes: ONCE, 0, BytesDecoder::new([0u8; 0]);
                omitted: 0, 0, U16beDecoder::new().omit(true);
                u8_: 0, 1, U8Decoder::new();
                i32be: 0, 4, I32beDecoder::new();
                bytes: ONCE, 3, BytesDecoder::new([0u8; 3]);
                copyable: 0, 3, CopyableBytesDecoder::new([0u8; 3]);
                #[cfg(any(feature = "thorough", not(kani)))]
                utf8: ONCE, 3, Utf8Decoder::with_bytes_decoder(BytesDecoder::new(vec![0u8; 3]));
                monolithic: UNSIZED, 3, bytecodec::monolithic::MonolithicDecoder::new(ReadAll).length(3);
                remaining_length: 0, 2, RemainingBytesDecoder::new().length(2);
                slice_peekable: ONCE, 3, { let mut s = BytesDecoder::new([0u8; 3]).peekable().slice(); s.set_consumable_bytes(50); s };
                tuple2: COMPOSITE, 3, parts!(1, 2);
                tuple3: COMPOSITE, 4, parts!(1, 2, 1);
                tuple_gaps: COMPOSITE, 3, parts!(0, 1, 0, 2, 0);
                and_then_tuple: COMPOSITE | LOWER, 4, Need::new(1).and_then(|_| parts!(1, 2));
                collectn_of_tuple: COMPOSITE | LOWER | ONCE, 4, parts!(1, 1).map(|t| t.0).collectn::<Acc>(2);
                peekable_tuple: COMPOSITE, 3, parts!(1, 2).peekable();
                maybe_tuple: COMPOSITE, 3, parts!(1, 2).maybe_eos();
            }
        }
        pub mod $step {
            use super::*;
            use crate::walk::*;
            walk_decoders! { @split step_decoder $p;
                tuple4: COMPOSITE, 5, parts!(1, 1, 2, 1);
                u48le: 0, 6, U48leDecoder::new();
                f64be: 0, 8, F64beDecoder::new();
                tuple5: COMPOSITE, 6, parts!(1, 1, 2, 1, 1);
                tuple6: COMPOSITE, 7, parts!(1, 1, 1, 1, 1, 2);
                tuple7: COMPOSITE, 8, parts!(1, 1, 1, 1, 1, 1, 2);
                tuple8: COMPOSITE, 9, parts!(1, 1, 1, 1, 1, 1, 1, 2);
                nested: COMPOSITE | LOWER, 5, TupleDecoder::new((Need::new(2).peekable(), UntilEos::new().length(2).max_bytes(u64::MAX).map(|n| n), U8Decoder::new()));
                length_of_tuple: COMPOSITE, 4, parts!(1, 2, 1).length(4);
            }
        }
    };
    (@framed $p:literal; $($(#[$at:meta])* $name:ident: $flags:expr, |$a:ident, $b:ident| $need:expr, $mk:expr;)*) => {
        harnesses! { $($(#[$at])* $name [6] {
            sizes!($a, $b);
            let r = framed($mk, $need, $flags, $p);
            witness!(r == FULL);
            witness!($p != 9 || r == CUT);
        })* }
    };
    (@until_end $p:literal; $($(#[$at:meta])* $name:ident: $flags:expr, $least:expr, $mk:expr;)*) => {
        harnesses! { $($(#[$at])* $name [8] {
            let r = until_end($mk, $least, $flags, $p);
            witness!(r == FULL);
            witness!($p != 9 || r == CUT || $least == 0 && ($flags) & EVEN == 0);
        })* }
    };
    (@split $f:ident $p:literal; $($(#[$at:meta])* $name:ident: $flags:expr, $need:literal, $mk:expr;)*) => {
        harnesses! { $($(#[$at])* $name [12] {
            let r = $f($mk, $need, $flags, $p);
            witness!(r == FULL || $p == 11 && $need > 0);
            witness!($p != 9 || $need == 0 || r == CUT);
        })* }
    };
}

/// Encoders for property `$p`.
macro_rules! walk_encoders {
    ($m:ident, $split:ident, $step:ident, $uns:ident, $p:literal) => {
        /// Any size, over mocks.
        pub mod $m {
            use super::*;
            use crate::walk::*;
            walk_encoders! { @sized $p;
                map_from: 0, |a, b| a, Emit::new().map_from(|n: u64| n), a;
                try_map_from: 0, |a, b| a, Emit::new().try_map_from(|n: u64| -> Result<u64> { Ok(n) }), a;
                map_err: 0, |a, b| a, Emit::new().map_err(|e| e), a;
                optional: 0, |a, b| a, Emit::new().optional(), Some(a);
                length: 0, |a, b| a, Emit::new().length(a), a;
                max_bytes: 0, |a, b| a, Emit::new().max_bytes(u64::MAX), a;
                slice: 0, |a, b| a, { let mut s = Emit::new().slice(); s.set_consumable_bytes(u64::MAX); s }, a;
                boxed: 0, |a, b| a, { let e: Box<dyn SizedEncode<Item = u64>> = Box::new(Emit::new()); e }, a;
                last: ONCE, |a, b| a, Emit::new().last(a), unreachable!();
                tuple2: 0, |a, b| a + b, TupleEncoder::new((Emit::new(), Emit::new())), (a, b);
            }
        }
        /// A few bytes in every split: tuples of all arities, nestings, real codecs.
        pub mod $split {
            use super::*;
            use crate::walk::*;
            walk_encoders! { @split split_encoder $p;
                null: 0, 0, NullEncoder, ();
                empty_optional: 0, 0, Emit::new().optional(), None;
                empty_bytes: 0, 0, BytesEncoder::<Vec<u8>>::new(), Vec::new();
                empty_utf8: 0, 0, Utf8Encoder::<&'static str>::new(), "";
                empty_tuple: 0, 0, TupleEncoder::new((Emit::new(), Emit::new())), (0, 0);
                u8_: 0, 1, U8Encoder::new(), 7;
                i32be: 0, 4, I32beEncoder::new(), 7;
                bytes: 0, 3, BytesEncoder::<[u8; 3]>::new(), [0u8; 3];
                bytes_static: 0, 3, BytesEncoder::<&'static [u8]>::new(), (&[0u8; 3][..]);
                utf8: 0, 3, Utf8Encoder::<&'static str>::new(), "abc";
                slice: 0, 3, { let mut s = BytesEncoder::<[u8; 3]>::new().slice(); s.set_consumable_bytes(50); s }, [0u8; 3];
                last: ONCE, 2, U16beEncoder::new().last(5), unreachable!();
                last_bytes: ONCE, 3, BytesEncoder::<[u8; 3]>::new().last([0u8; 3]), unreachable!();
                tuple2: 0, 3, TupleEncoder::new((Emit::new(), Emit::new())), (1, 2);
                tuple3: 0, 4, TupleEncoder::new((Emit::new(), Emit::new(), Emit::new())), (1, 2, 1);
                tuple_gaps: 0, 3, TupleEncoder::new((Emit::new(), Emit::new(), Emit::new(), Emit::new(), Emit::new())), (0, 1, 0, 2, 0);
            }
        }
        pub mod $step {
            use super::*;
            use crate::walk::*;
            walk_encoders! { @split step_encoder $p;
                tuple4: 0, 5, TupleEncoder::new((Emit::new(), Emit::new(), Emit::new(), Emit::new())), (1, 1, 2, 1);
                u48le: 0, 6, U48leEncoder::new(), 7;
                f64be: 0, 8, F64beEncoder::new(), 0.5;
                pre_encode: 0, 3, BytesEncoder::<[u8; 3]>::new().pre_encode(), [0u8; 3];
                tuple5: 0, 6, TupleEncoder::new((Emit::new(), Emit::new(), Emit::new(), Emit::new(), Emit::new())), (1, 1, 2, 1, 1);
                tuple6: 0, 7, TupleEncoder::new((Emit::new(), Emit::new(), Emit::new(), Emit::new(), Emit::new(), Emit::new())), (1, 1, 1, 1, 1, 2);
                tuple7: 0, 8, TupleEncoder::new((Emit::new(), Emit::new(), Emit::new(), Emit::new(), Emit::new(), Emit::new(), Emit::new())), (1, 1, 1, 1, 1, 1, 2);
                tuple8: 0, 9, TupleEncoder::new((Emit::new(), Emit::new(), Emit::new(), Emit::new(), Emit::new(), Emit::new(), Emit::new(), Emit::new())), (1, 1, 1, 1, 1, 1, 1, 2);
                nested: 0, 5, TupleEncoder::new((Emit::new().max_bytes(u64::MAX), Emit::new().length(2).map_from(|n: u64| n), U8Encoder::new().optional())), (2, 2, Some(1));
                length_of_tuple: 0, 3, TupleEncoder::new((Emit::new(), Emit::new())).length(3), (1, 2);
            }
        }
        /// Encoders without an exact count.
        pub mod $uns {
            use super::*;
            use crate::walk::*;
            walk_encoders! { @unsized $p;
                repeat: UNSIZED, 3, Emit::new().repeat(), One(2, 1);
                repeat_empty: UNSIZED, 0, Emit::new().repeat(), One(0, 0);
                repeat_zero: UNSIZED, 0, Emit::new().repeat(), One(0, 2);
                monolithic: UNSIZED, 3, bytecodec::monolithic::MonolithicEncoder::new(Mono), [0u8; 3];
                padding_length: 0, 3, PaddingEncoder::new().length(3), 7;
                last_busy: UNSIZED | ONCE, 4, { let mut e = Emit::new(); ok!(e.start_encoding(2)); e.last(2) }, unreachable!();
                repeat_tuple: UNSIZED, 4, TupleEncoder::new((Emit::new(), Emit::new().repeat())), (1, (One(2, 1)));
            }
        }
    };
    (@split $f:ident $p:literal; $($(#[$at:meta])* $name:ident: $flags:expr, $need:literal, $mk:expr, $item:expr;)*) => {
        harnesses! { $($(#[$at])* $name [12] {
            let r = $f($mk, || $item, $need, $flags, $p, |e| e.exact_requiring_bytes());
            witness!(r == FULL);
            witness!($p != 10 || $need == 0 || r == CUT);
        })* }
    };
    (@unsized $p:literal; $($(#[$at:meta])* $name:ident: $flags:expr, $need:literal, $mk:expr, $item:expr;)*) => {
        harnesses! { $($(#[$at])* $name [12] {
            let r = split_encoder($mk, || $item, $need, $flags | NOEXACT, $p, |_| 0);
            witness!(r == FULL);
            witness!($p != 10 || $need == 0 || r == CUT);
        })* }
    };
    (@sized $p:literal; $($(#[$at:meta])* $name:ident: $flags:expr, |$a:ident, $b:ident| $need:expr, $mk:expr, $item:expr;)*) => {
        harnesses! { $($(#[$at])* $name [6] {
            sizes!($a, $b);
            let r = encoder($mk, || $item, $need, $flags, $p, |e| e.exact_requiring_bytes());
            witness!(r == FULL);
            witness!($p != 10 || r == CUT);
        })* }
    };
}
