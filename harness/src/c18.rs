//! C18: peeking, items that may be missing at the end, and omitted items.
use crate::util::prelude::*;

/// Reports anything about itself.
struct Vague {
    idle: bool,
    known: ByteCount,
    calls: u32,
}
impl Decode for Vague {
    type Item = ();
    fn decode(&mut self, buf: &[u8], _: Eos) -> Result<usize> {
        self.calls += 1;
        Ok(buf.len())
    }
    fn finish_decoding(&mut self) -> Result<()> {
        self.calls += 1;
        Ok(())
    }
    fn requiring_bytes(&self) -> ByteCount {
        self.known
    }
    fn is_idle(&self) -> bool {
        self.idle
    }
}

harnesses! {
    peek [14] {
        let b = nd::bytes8();
        nd::cases(3, |i| {
            let mut d = U24beDecoder::new().peekable();
            assert!(d.peek().is_none() && d.peek_mut().is_none());
            assert!(ok!(d.decode(&b[..i], Eos::new(false))) == i);
            let v = (b[0] as u32) << 16 | (b[1] as u32) << 8 | b[2] as u32;
            assert!(d.peek().is_some() == (i == 3), "visible exactly when complete");
            if i < 3 {
                err!(d.finish_decoding(), IncompleteDecoding);
                assert!(ok!(d.decode(&b[i..], Eos::new(nd::bool()))) == 3 - i);
            }
            assert!(d.is_idle() && d.requiring_bytes() == ByteCount::Finite(0));
            assert!(d.peek().map_or(false, |x| *x == v));
            assert!(d.peek().map_or(false, |x| *x == v), "peeking takes nothing away");
            assert!(ok!(d.decode(&b[3..], Eos::new(nd::bool()))) == 0, "nothing is consumed while an item waits");
            assert!(ok!(d.finish_decoding()) == v);
            assert!(d.peek().is_none() && !d.is_idle(), "taken once");
            err!(d.finish_decoding(), IncompleteDecoding);
            witness!(i == 3);
        });
    }
    /// Items of any size, empty ones included.
    peek_sizes [14] {
        let need = nd::u64();
        let buf = [0u8; 4];
        let mut d = Need::new(need).peekable();
        let a = nd::upto(4);
        let n = ok!(d.decode(&buf[..a], Eos::new(false))) as u64;
        assert!(n == if (a as u64) < need { a as u64 } else { need });
        assert!(d.peek().is_some() == (n == need) && d.is_idle() == (n == need), "visible as soon as it is complete");
        assert!(d.peek_mut().is_some() == (n == need));
        if n == need {
            assert!(ok!(d.finish_decoding()) == need);
        }
        witness!(need == 0 && a == 4);
        witness!(need == 0 && a == 0);
        witness!(need == 4 && a == 4);
    }
    peek_modify [14] {
        let b = nd::bytes8();
        let mut d = U8Decoder::new().peekable();
        assert!(ok!(d.decode(&b, Eos::new(false))) == 1);
        match d.peek_mut() {
            Some(x) => { assert!(*x == b[0]); *x = b[1]; }
            None => panic!("the item is complete"),
        }
        assert!(ok!(d.finish_decoding()) == b[1], "the modified item comes out");
        assert!(ok!(d.decode(&b[2..], Eos::new(false))) == 1);
        assert!(ok!(d.finish_decoding()) == b[2]);
        witness!(b[0] != b[1]);
    }
    peek_error [14] {
        let v = nd::u8();
        let mut d = U8Decoder::new().try_map(|x: u8| -> Result<u8> {
            if x > 9 { Err(ErrorKind::Other.into()) } else { Ok(x) }
        }).peekable();
        let r = d.decode(&[v], Eos::new(false));
        if v > 9 {
            err!(r, Other);
            assert!(d.peek().is_none() && !d.is_idle());
        } else {
            assert!(ok!(r) == 1 && d.is_idle());
        }
        witness!(v > 9);
    }
    /// The end of the stream before an item is not an error; inside one it is.
    maybe_eos [14] {
        let need = nd::u64();
        nd::assume(need > 0);
        let buf = [0u8; 4];
        let mut d = Need::new(need).maybe_eos();
        let polls = nd::upto(2);
        let mut k = 0;
        while k < polls {
            assert!(ok!(d.decode(&[], Eos::new(nd::bool()))) == 0, "an end between items is no error");
            assert!(!d.is_idle());
            k += 1;
        }
        let a = nd::upto(3);
        nd::assume(a > 0);
        let n = ok!(d.decode(&buf[..a], Eos::new(false))) as u64;
        assert!(n == if (a as u64) < need { a as u64 } else { need });
        if n < need {
            if nd::bool() {
                assert!(ok!(d.decode(&[], Eos::new(false))) == 0, "an empty call changes nothing");
            }
            if nd::bool() {
                err!(d.finish_decoding(), IncompleteDecoding);
            }
            let c = nd::upto(2);
            let r = d.decode(&buf[..c], Eos::new(true));
            if (c as u64) < need - n {
                err!(r, UnexpectedEos);
            } else {
                assert!(ok!(r) as u64 == need - n && d.is_idle());
                assert!(ok!(d.finish_decoding()) == need);
            }
        } else {
            assert!(ok!(d.finish_decoding()) == need);
            assert!(ok!(d.decode(&[], Eos::new(true))) == 0 && !d.is_idle(), "between items again");
            assert!(ok!(d.decode(&buf[..0], Eos::new(false))) == 0);
            assert!(d.inner_ref().last_eos.map_or(false, |e| !e.is_reached()));
        }
        witness!(need == 3 && a == 3);
        witness!(need == 3 && a == 2);
    }
    /// An item that is rejected when it is taken is over: an end is clean again.
    maybe_eos_after_rejected [14] {
        let v = nd::u8();
        let mut d = U8Decoder::new().try_map(|x: u8| -> Result<u8> {
            if x > 9 { Err(ErrorKind::Other.into()) } else { Ok(x) }
        }).maybe_eos();
        assert!(ok!(d.decode(&[v], Eos::new(false))) == 1 && d.is_idle());
        let r = d.finish_decoding();
        assert!(r.is_ok() == (v <= 9));
        assert!(ok!(d.decode(&[], Eos::new(true))) == 0 && !d.is_idle(), "between items");
        witness!(v > 9);
        witness!(v <= 9);
    }
    maybe_eos_first_chunk [14] {
        let need = nd::u64();
        nd::assume(need > 0);
        let buf = [0u8; 4];
        let a = nd::upto(4);
        nd::assume(a > 0);
        let mut d = Need::new(need).maybe_eos();
        let r = d.decode(&buf[..a], Eos::new(true));
        if (a as u64) < need {
            err!(r, UnexpectedEos);
        } else {
            assert!(ok!(r) as u64 == need && d.is_idle());
        }
        witness!(need == 4 && a == 3);
        witness!(need == 4 && a == 4);
    }
    /// A sequence of items read until the stream ends cleanly.
    maybe_eos_sequence [14] {
        let b = nd::bytes8();
        nd::cases(5, |len| {
            let mut d = U16beDecoder::new().maybe_eos();
            let mut pos = 0;
            while len - pos >= 2 {
                assert!(ok!(d.decode(&b[pos..len], Eos::new(true))) == 2);
                assert!(ok!(d.finish_decoding()) == u16::from_be_bytes([b[pos], b[pos + 1]]));
                pos += 2;
            }
            let r = d.decode(&b[pos..len], Eos::new(true));
            if len % 2 == 0 {
                assert!(ok!(r) == 0 && !d.is_idle());
            } else {
                err!(r, UnexpectedEos);
            }
            witness!(len == 4);
        });
    }
    omit [14] {
        let b = nd::bytes8();
        nd::cases(1, |o| {
            let omit = o == 1;
            let mut d = U16beDecoder::new().omit(omit);
            assert!(d.will_omit() == omit);
            assert!(d.is_idle() == omit);
            assert!(d.requiring_bytes() == ByteCount::Finite(if omit { 0 } else { 2 }));
            assert!(ok!(d.decode(&b, Eos::new(nd::bool()))) == if omit { 0 } else { 2 });
            let got = ok!(d.finish_decoding());
            assert!(got == if omit { None } else { Some(u16::from_be_bytes([b[0], b[1]])) });
            // the setting holds until it is changed
            assert!(d.will_omit() == omit && d.is_idle() == omit);
            assert!(ok!(d.decode(&b[4..], Eos::new(nd::bool()))) == if omit { 0 } else { 2 });
            let got = ok!(d.finish_decoding());
            assert!(got == if omit { None } else { Some(u16::from_be_bytes([b[4], b[5]])) });
            d.do_omit(!omit);
            assert!(d.will_omit() != omit);
            assert!(ok!(d.decode(&b[2..], Eos::new(nd::bool()))) == if omit { 2 } else { 0 });
            let got = ok!(d.finish_decoding());
            assert!(got == if omit { Some(u16::from_be_bytes([b[2], b[3]])) } else { None });
            assert!(d.will_omit() != omit && d.is_idle() != omit);
            witness!(omit);
        });
    }
    /// Until the setting is changed every item is omitted, whatever the decoder reports.
    omit_repeatedly [14] {
        let buf = [0u8; 4];
        let mut d = Vague { idle: nd::bool(), known: any_byte_count(), calls: 0 }.omit(true);
        let mut k = 0;
        while k < 3 {
            assert!(d.is_idle() && d.will_omit() && d.requiring_bytes() == ByteCount::Finite(0));
            assert!(ok!(d.decode(&buf[..nd::upto(4)], any_eos())) == 0);
            assert!(ok!(d.finish_decoding()).is_none());
            k += 1;
        }
        assert!(d.inner_ref().calls == 0 && d.will_omit());
        d.do_omit(false);
        assert!(!d.will_omit());
        assert!(ok!(d.decode(&buf, Eos::new(true))) == 4 && ok!(d.finish_decoding()).is_some());
        assert!(d.inner_ref().calls == 2);
        witness!(d.inner_ref().known == ByteCount::Unknown && !d.inner_ref().idle);
    }
    omit_untouched [14] {
        let buf = [0u8; 4];
        let mut d = Need::new(nd::u64()).omit(true);
        let a = nd::upto(4);
        assert!(ok!(d.decode(&buf[..a], any_eos())) == 0);
        assert!(d.inner_ref().calls == 0, "an omitted decoder is not run");
        assert!(ok!(d.finish_decoding()).is_none() && d.inner_ref().finished == 0);
        witness!(a == 4);
    }
}
