//! C27: one-shot (monolithic) codecs work behind the incremental interface.
use crate::util::prelude::*;
use bytecodec::monolithic::*;
use std::cell::Cell;
use std::io::{Read, Write};

/// Reads up to `max` bytes one by one and returns them with their number.
struct All<'a> {
    max: usize,
    fail: bool,
    runs: &'a Cell<u32>,
}
impl<'a> MonolithicDecode for All<'a> {
    type Item = (usize, [u8; 5]);
    fn monolithic_decode<R: Read>(&self, mut reader: R) -> Result<(usize, [u8; 5])> {
        self.runs.set(self.runs.get() + 1);
        let mut out = [0u8; 5];
        let mut n = 0;
        while n < self.max {
            let mut b = [0u8; 1];
            match reader.read(&mut b) {
                Ok(0) => break,
                Ok(_) => out[n] = b[0],
                Err(_) => return Err(ErrorKind::Other.into()),
            }
            n += 1;
        }
        if self.fail {
            return Err(ErrorKind::DecoderTerminated.into());
        }
        Ok((n, out))
    }
}
/// Writes the bytes of its item in two pieces cut at `cut`.
struct Two<'a> {
    cut: usize,
    runs: &'a Cell<u32>,
}
impl<'a> MonolithicEncode for Two<'a> {
    type Item = (usize, [u8; 4]);
    fn monolithic_encode<W: Write>(&self, item: &(usize, [u8; 4]), mut writer: W) -> Result<()> {
        self.runs.set(self.runs.get() + 1);
        let b = &item.1[..item.0];
        let cut = if self.cut < b.len() { self.cut } else { b.len() };
        if writer.write_all(&b[..cut]).is_err() || writer.write_all(&b[cut..]).is_err() {
            return Err(ErrorKind::Other.into());
        }
        if self.cut == 9 {
            return Err(ErrorKind::InvalidInput.into());
        }
        Ok(())
    }
}

/// Reads and writes in pieces as large as possible.
struct Chunks;
impl MonolithicDecode for Chunks {
    type Item = (usize, [u8; 300]);
    fn monolithic_decode<R: Read>(&self, mut reader: R) -> Result<(usize, [u8; 300])> {
        let mut out = [0u8; 300];
        let mut n = 0;
        loop {
            match reader.read(&mut out[n..]) {
                Ok(0) => return Ok((n, out)),
                Ok(k) => n += k,
                Err(_) => return Err(ErrorKind::Other.into()),
            }
        }
    }
}
impl MonolithicEncode for Chunks {
    type Item = (usize, [u8; 300]);
    fn monolithic_encode<W: Write>(&self, item: &(usize, [u8; 300]), mut writer: W) -> Result<()> {
        if writer.write_all(&item.1[..item.0]).is_err() {
            return Err(ErrorKind::Other.into());
        }
        Ok(())
    }
}

harnesses! {
    /// Two chunks and the end, possibly in a call of its own.
    decode [7] {
        let runs = Cell::new(0);
        let b = nd::bytes4();
        let mut d = MonolithicDecoder::new(All { max: 5, fail: false, runs: &runs });
        nd::cases2(3, |i, n| {
            let e = any_open_eos();
            assert!(ok!(d.decode(&b[..i], e)) == i, "keeps everything before the end");
            assert!(!d.is_idle() && d.requiring_bytes() == ByteCount::Unknown && runs.get() == 0);
            assert!(ok!(d.decode(&b[i..n], Eos::new(true))) == n - i);
            assert!(d.is_idle() && d.requiring_bytes() == ByteCount::Finite(0) && runs.get() == 1, "decoded once, at the end");
            assert!(ok!(d.decode(&[7], Eos::new(false))) == 0 && d.is_idle(), "nothing more is taken");
            let (k, out) = ok!(d.finish_decoding());
            assert!(k == n, "the decoder reads all of it");
            let mut j = 0;
            while j < n {
                assert!(out[j] == b[j], "in order");
                j += 1;
            }
            assert!(!d.is_idle());
            witness!(i == 1 && n == 3);
        });
        core::mem::forget(d);
    }
    /// Nothing of one item gets into the next.
    decode_next [7] {
        let runs = Cell::new(0);
        let b = nd::bytes4();
        let mut d = MonolithicDecoder::new(All { max: 5, fail: false, runs: &runs });
        ok!(d.decode(&b[..1], Eos::new(false)));
        ok!(d.decode(&b[1..2], Eos::new(true)));
        let (n, out) = ok!(d.finish_decoding());
        assert!(n == 2 && out[0] == b[0] && out[1] == b[1]);
        err!(d.finish_decoding(), IncompleteDecoding);
        ok!(d.decode(&b[2..3], Eos::new(false)));
        err!(d.finish_decoding(), IncompleteDecoding);
        ok!(d.decode(&b[3..4], Eos::new(true)));
        let (n, out) = ok!(d.finish_decoding());
        assert!(n == 2 && out[0] == b[2] && out[1] == b[3] && runs.get() == 2);
        witness!(b[0] == 1);
        core::mem::forget(d);
    }
    decode_error [7] {
        let runs = Cell::new(0);
        let b = nd::bytes4();
        let mut d = MonolithicDecoder::new(All { max: 5, fail: true, runs: &runs });
        ok!(d.decode(&b[..2], Eos::new(false)));
        err!(d.decode(&b[2..3], Eos::new(true)), DecoderTerminated);
        assert!(!d.is_idle());
        err!(d.finish_decoding(), IncompleteDecoding);
        assert!(d.inner_ref().runs.get() == d.inner_mut().runs.get());
        assert!(d.into_inner().runs.get() == 1);
        witness!(true);
    }
    /// What an inner decoder leaves of the last call is not counted as consumed.
    decode_short [7] {
        let runs = Cell::new(0);
        let b = nd::bytes4();
        let mut d = MonolithicDecoder::new(All { max: 2, fail: false, runs: &runs });
        nd::cases(2, |i| {
            ok!(d.decode(&b[..i], Eos::new(false)));
            assert!(ok!(d.decode(&b[i..4], Eos::new(true))) == 2 - i);
            let (n, out) = ok!(d.finish_decoding());
            assert!(n == 2 && out[0] == b[0] && out[1] == b[1]);
            // the next item starts afresh
            ok!(d.decode(&b[2..3], Eos::new(false)));
            assert!(ok!(d.decode(&b[3..4], Eos::new(true))) == 1);
            let (n, out) = ok!(d.finish_decoding());
            assert!(n == 2 && out[0] == b[2] && out[1] == b[3] && runs.get() == 2);
            witness!(i == 1);
        });
        core::mem::forget(d);
    }
    encode_cut_1 [6] {
        let runs = Cell::new(0);
        let b = nd::bytes4();
        nd::cases(3, |i| {
            let n = 3;
            let mut e = MonolithicEncoder::new(Two { cut: 1, runs: &runs });
            assert!(e.is_idle() && e.requiring_bytes() == ByteCount::Finite(0));
            ok!(e.start_encoding((n, b)));
            assert!(!e.is_idle() && e.requiring_bytes() == ByteCount::Unknown && runs.get() == 0);
            let mut out = [0u8; 5];
            let x = ok!(e.encode(&mut out[..i], Eos::new(false)));
            assert!(x == i && out[i] == 0, "fills the buffer, and nothing beyond");
            assert!(e.is_idle() == (i == n) && e.requiring_bytes() == ByteCount::Finite((n - i) as u64));
            if i < n {
                err!(e.start_encoding((1, b)), EncoderFull);
            }
            let y = ok!(e.encode(&mut out[i..], Eos::new(true)));
            assert!(x + y == n && e.is_idle() && runs.get() == 1, "encoded once");
            assert!(ok!(e.encode(&mut out[n..], Eos::new(true))) == 0);
            assert!(out[0] == b[0] && out[1] == b[1] && out[2] == b[2] && out[3] == 0 && out[4] == 0, "in order");
            witness!(i == 1);
            core::mem::forget(e);
        });
    }
    encode_cut_2 [6] {
        let runs = Cell::new(0);
        let b = nd::bytes4();
        nd::cases(3, |i| {
            let n = 3;
            let mut e = MonolithicEncoder::new(Two { cut: 2, runs: &runs });
            assert!(e.is_idle() && e.requiring_bytes() == ByteCount::Finite(0));
            ok!(e.start_encoding((n, b)));
            assert!(!e.is_idle() && e.requiring_bytes() == ByteCount::Unknown && runs.get() == 0);
            let mut out = [0u8; 5];
            let x = ok!(e.encode(&mut out[..i], Eos::new(false)));
            assert!(x == i && out[i] == 0, "fills the buffer, and nothing beyond");
            assert!(e.is_idle() == (i == n) && e.requiring_bytes() == ByteCount::Finite((n - i) as u64));
            if i < n {
                err!(e.start_encoding((1, b)), EncoderFull);
            }
            let y = ok!(e.encode(&mut out[i..], Eos::new(true)));
            assert!(x + y == n && e.is_idle() && runs.get() == 1, "encoded once");
            assert!(ok!(e.encode(&mut out[n..], Eos::new(true))) == 0);
            assert!(out[0] == b[0] && out[1] == b[1] && out[2] == b[2] && out[3] == 0 && out[4] == 0, "in order");
            witness!(i == 1);
            core::mem::forget(e);
        });
    }
    encode_cut_3 [6] {
        let runs = Cell::new(0);
        let b = nd::bytes4();
        nd::cases(3, |i| {
            let n = 3;
            let mut e = MonolithicEncoder::new(Two { cut: 3, runs: &runs });
            assert!(e.is_idle() && e.requiring_bytes() == ByteCount::Finite(0));
            ok!(e.start_encoding((n, b)));
            assert!(!e.is_idle() && e.requiring_bytes() == ByteCount::Unknown && runs.get() == 0);
            let mut out = [0u8; 5];
            let x = ok!(e.encode(&mut out[..i], Eos::new(false)));
            assert!(x == i && out[i] == 0, "fills the buffer, and nothing beyond");
            assert!(e.is_idle() == (i == n) && e.requiring_bytes() == ByteCount::Finite((n - i) as u64));
            if i < n {
                err!(e.start_encoding((1, b)), EncoderFull);
            }
            let y = ok!(e.encode(&mut out[i..], Eos::new(true)));
            assert!(x + y == n && e.is_idle() && runs.get() == 1, "encoded once");
            assert!(ok!(e.encode(&mut out[n..], Eos::new(true))) == 0);
            assert!(out[0] == b[0] && out[1] == b[1] && out[2] == b[2] && out[3] == 0 && out[4] == 0, "in order");
            witness!(i == 1);
            core::mem::forget(e);
        });
    }
    encode_empty [6] {
        let runs = Cell::new(0);
        let b = nd::bytes4();
        let mut e = MonolithicEncoder::new(Two { cut: 0, runs: &runs });
        ok!(e.start_encoding((0, b)));
        err!(e.start_encoding((1, b)), EncoderFull);
        let mut out = [0u8; 2];
        assert!(!e.is_idle());
        assert!(ok!(e.encode(&mut out, Eos::new(true))) == 0 && e.is_idle() && runs.get() == 1 && out[0] == 0);
        // an item that does not fit into any room is kept
        ok!(e.start_encoding((2, b)));
        assert!(ok!(e.encode(&mut [], Eos::new(false))) == 0 && !e.is_idle());
        assert!(e.requiring_bytes() == ByteCount::Finite(2));
        assert!(ok!(e.encode(&mut out, Eos::new(true))) == 2 && out[0] == b[0] && out[1] == b[1] && e.is_idle());
        witness!(true);
        core::mem::forget(e);
    }
    /// An output that ends inside the item, and one that does not.
    encode_end [6] {
        let runs = Cell::new(0);
        let b = nd::bytes4();
        nd::cases2(3, |i, n| {
            let mut e = MonolithicEncoder::new(Two { cut: 1, runs: &runs });
            ok!(e.start_encoding((n, b)));
            let mut out = [0u8; 4];
            let r = e.encode(&mut out[..i], Eos::new(true));
            if i == n {
                assert!(ok!(r) == n && e.is_idle());
            } else {
                err!(r, UnexpectedEos);
            }
            witness!(i == 2 && n == 3);
            core::mem::forget(e);
        });
    }
    encode_error [6] {
        let runs = Cell::new(0);
        let b = nd::bytes4();
        let mut e = MonolithicEncoder::new(Two { cut: 9, runs: &runs });
        ok!(e.start_encoding((2, b)));
        let mut out = [0u8; 4];
        err!(e.encode(&mut out, Eos::new(false)), InvalidInput);
        assert!(e.is_idle(), "the rejected item is gone");
        e.inner_mut().cut = 1;
        ok!(e.start_encoding((2, b)));
        assert!(ok!(e.encode(&mut out, Eos::new(true))) == 2 && out[0] == b[0] && out[1] == b[1]);
        assert!(e.inner_ref().cut == 1 && e.into_inner().runs.get() == 2);
        witness!(true);
    }
    /// More than a byte can count, handed over in few pieces.
    large [6] {
        let (mut b, at, probe, v) = ([0u8; 300], nd::u16() as usize, nd::u16() as usize, nd::u8());
        nd::assume(at < 300 && probe < 300);
        b[at] = v;
        let mut d = MonolithicDecoder::new(Chunks);
        assert!(ok!(d.decode(&b[..40], Eos::new(false))) == 40);
        assert!(ok!(d.decode(&b[40..297], Eos::new(false))) == 257);
        assert!(ok!(d.decode(&b[297..], Eos::new(true))) == 3 && d.is_idle());
        let (n, out) = ok!(d.finish_decoding());
        assert!(n == 300 && out[probe] == if probe == at { v } else { 0 });
        core::mem::forget(d);
        let mut e = MonolithicEncoder::new(Chunks);
        ok!(e.start_encoding((300, b)));
        let mut out = [0xA5u8; 301];
        assert!(ok!(e.encode(&mut out[..257], Eos::new(false))) == 257 && !e.is_idle());
        assert!(ok!(e.encode(&mut out[257..], Eos::new(false))) == 43 && e.is_idle());
        assert!(out[probe] == if probe == at { v } else { 0 } && out[300] == 0xA5);
        core::mem::forget(e);
        witness!(at == 299 && probe == 299 && v == 3);
    }
}
