//! C21: exact reading takes from a reader what the item takes, and no more.
use crate::io_mock::*;
use crate::util::prelude::*;
use bytecodec::io::*;
use std::io;

/// A reader of `total` bytes whose calls deliver any part of what is asked
/// for (at least one byte) up to the end, or fail.
struct Bulk {
    total: u64,
    pos: u64,
    calls: u32,
    fail_at: u32,
    partial: bool,
    over: bool,
    limit: u64,
}
impl Bulk {
    fn new(total: u64, limit: u64, partial: bool) -> Self {
        Bulk { total, pos: 0, calls: 0, fail_at: u32::MAX, partial, over: false, limit }
    }
}
impl io::Read for Bulk {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let c = self.calls;
        self.calls += 1;
        // bounded number of calls
        nd::assume(c < 4);
        if self.pos + buf.len() as u64 > self.limit {
            self.over = true;
        }
        if c == self.fail_at {
            return Err(io::ErrorKind::ConnectionReset.into());
        }
        let left = self.total - self.pos;
        let max = if (buf.len() as u64) < left { buf.len() as u64 } else { left };
        let n = if self.partial && max > 0 {
            let n = nd::u16() as u64;
            nd::assume(n >= 1 && n <= max);
            n
        } else {
            max
        };
        self.pos += n;
        Ok(n as usize)
    }
}

/// A reader of known bytes.
struct Shelf {
    data: [u8; 8],
    pos: usize,
    len: usize,
}
impl io::Read for Shelf {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let mut n = 0;
        while n < buf.len() && self.pos < self.len {
            buf[n] = self.data[self.pos];
            self.pos += 1;
            n += 1;
        }
        Ok(n)
    }
}

/// A null-terminated string: its length is unknown in advance.
struct Cstr {
    n: u64,
    done: u8,
}
impl Decode for Cstr {
    type Item = u64;
    fn decode(&mut self, buf: &[u8], eos: Eos) -> Result<usize> {
        let mut i = 0;
        while i < buf.len() && self.done == 0 {
            if buf[i] == 0 {
                self.done = 1;
            } else {
                self.n += 1;
            }
            i += 1;
        }
        if self.done == 0 && eos.is_reached() {
            return Err(ErrorKind::UnexpectedEos.into());
        }
        Ok(i)
    }
    fn finish_decoding(&mut self) -> Result<u64> {
        if self.done == 0 {
            return Err(ErrorKind::IncompleteDecoding.into());
        }
        self.done = 0;
        let n = self.n;
        self.n = 0;
        Ok(n)
    }
    fn requiring_bytes(&self) -> ByteCount {
        ByteCount::Unknown
    }
    fn is_idle(&self) -> bool {
        self.done == 1
    }
}
/// Takes what it needs and never complains about the end.
struct Silent {
    need: u64,
    got: u64,
    /// Size unknown (0), known (1), said to be zero before the first call (2).
    known: u8,
    told: u8,
}
impl Decode for Silent {
    type Item = u64;
    fn decode(&mut self, buf: &[u8], eos: Eos) -> Result<usize> {
        if self.known == 2 {
            self.known = 1;
        }
        if eos.is_reached() {
            self.told = 1;
        }
        let left = self.need - self.got;
        let n = if (buf.len() as u64) < left { buf.len() } else { left as usize };
        self.got += n as u64;
        Ok(n)
    }
    fn finish_decoding(&mut self) -> Result<u64> {
        if self.got != self.need {
            return Err(ErrorKind::IncompleteDecoding.into());
        }
        Ok(self.got)
    }
    fn requiring_bytes(&self) -> ByteCount {
        match self.known {
            0 if self.got != self.need => ByteCount::Unknown,
            2 => ByteCount::Finite(0),
            _ => ByteCount::Finite(self.need - self.got),
        }
    }
    fn is_idle(&self) -> bool {
        self.got == self.need
    }
}

harnesses! {
    /// Items larger than any internal buffer, short reads anywhere.
    sizes [6] {
        let (need, total) = (nd::u64(), nd::u64());
        nd::assume(need <= 4000 && total <= 5000);
        let mut d = Need::new(need);
        let mut r = Bulk::new(total, need, nd::bool());
        let res = d.decode_exact(&mut r);
        assert!(!r.over, "never asks for more than the item still takes");
        if total >= need {
            assert!(ok!(res) == need && r.pos == need, "exactly the item is read");
            assert!(need != 0 || r.calls == 0, "nothing is read for an item without bytes");
        } else {
            err!(res, UnexpectedEos);
            assert!(r.pos == total);
        }
        witness!(need == 3000 && total == 3000 && r.partial);
        witness!(need == 2000 && total == 1500);
        witness!(need == 1024 && total == 5000 && !r.partial);
    }
    /// A failing reader fails the call; the items read before are unaffected.
    failure [4] {
        let need = nd::u64();
        nd::assume(need > 0 && need <= 4000);
        let mut d = Need::new(need);
        let mut r = Bulk::new(need, need, nd::bool());
        r.fail_at = nd::u8() as u32 % 3;
        match d.decode_exact(&mut r) {
            Ok(n) => assert!(n == need && r.calls <= r.fail_at),
            Err(e) => {
                assert!(*e.kind() == ErrorKind::Other && r.calls == r.fail_at + 1);
                // nothing of the item is lost: it can be completed later
                let mut rest = Bulk::new(need - r.pos, need - r.pos, false);
                assert!(ok!(d.decode_exact(&mut rest)) == need && rest.pos == need - r.pos);
            }
        }
        witness!(r.calls == 2 && r.fail_at == 1);
        witness!(r.calls == 2 && r.fail_at == 2);
    }
    until_eos [6] {
        let total = nd::u64();
        nd::assume(total <= 3000);
        let mut d = UntilEos::new();
        let mut r = Bulk::new(total, u64::MAX, nd::bool());
        assert!(ok!(d.decode_exact(&mut r)) == total, "everything up to the end");
        assert!(r.pos == total);
        witness!(total == 2500);
        witness!(total == 0);
    }
    unknown_length [7] {
        let data = nd::bytes4();
        nd::cases(4, |len| {
            let mut d = Cstr { n: 0, done: 0 };
            let mut input = Shelf { data: [data[0], data[1], data[2], data[3], 0, 0, 0, 0], pos: 0, len };
            let mut zero = 0;
            while zero < len && data[zero] != 0 {
                zero += 1;
            }
            let r = d.decode_exact(&mut input);
            if zero < len {
                assert!(ok!(r) == zero as u64);
                assert!(input.pos == zero + 1, "nothing after the item is read");
            } else {
                err!(r, UnexpectedEos);
            }
            witness!(zero == 2 && len == 4);
        });
    }
    /// Several items from one stream, each starting where the last one ended.
    items_in_sequence [6] {
        let b = nd::bytes8();
        let mut input = &b[..5];
        let mut d = U16beDecoder::new();
        assert!(ok!(d.decode_exact(&mut input)) == u16::from_be_bytes([b[0], b[1]]));
        assert!(input.len() == 3);
        assert!(ok!(d.decode_exact(&mut input)) == u16::from_be_bytes([b[2], b[3]]));
        assert!(input.len() == 1);
        err!(d.decode_exact(&mut input), UnexpectedEos);
        witness!(b[0] == 0 && b[1] == 2);
    }
    composed [5] {
        let b = nd::bytes8();
        nd::cases(3, |n| {
            let mut c = b;
            c[0] = n as u8;
            let mut input = Shelf { data: c, pos: 0, len: 8 };
            let mut d = U8Decoder::new().and_then(|n| Tail::default().length(n as u64));
            let t = ok!(d.decode_exact(&mut input));
            assert!(t.n == n && (n == 0 || t.get(n - 1) == b[n] as u64));
            assert!(input.pos == 1 + n, "exactly the item is read");
            witness!(n == 3);
        });
    }
    /// An item that is already complete is handed out without reading.
    already_complete [6] {
        let v = nd::u8();
        let mut d = U8Decoder::new().peekable();
        assert!(ok!(d.decode(&[v], Eos::new(false))) == 1);
        let mut r = Src::new(1);
        assert!(ok!(d.decode_exact(&mut r)) == v && r.calls == 0);
        let mut d = U8Decoder::new().omit(true);
        assert!(ok!(d.decode_exact(&mut r)).is_none() && r.calls == 0);
        witness!(true);
    }
    /// A decoder that may not take the rest: an error, and no byte is skipped silently.
    suspended [6] {
        let (need, budget) = (nd::u64(), nd::u64());
        nd::assume(need <= 2000);
        let mut d = Need::new(need).slice();
        d.set_consumable_bytes(budget);
        let mut r = Bulk::new(3000, need, nd::bool());
        let res = d.decode_exact(&mut r);
        if budget >= need {
            assert!(ok!(res) == need && r.pos == need);
        } else {
            assert!(res.is_err(), "no item");
            core::mem::forget(res);
        }
        assert!(!r.over);
        witness!(need == 2000 && budget == 1500);
        witness!(need == 5 && budget == 0);
        witness!(need == 2000 && budget == 2000);
    }
    /// A decoder that is not done at the end, but does not say so itself.
    silent_at_the_end [6] {
        let (need, total) = (nd::u64(), nd::u64());
        nd::assume(need <= 2000 && total <= 2000);
        let known = nd::bool();
        nd::assume(known || need <= 2);
        let mut d = Silent { need, got: 0, known: known as u8, told: 0 };
        let mut r = Bulk::new(total, need, false);
        let res = d.decode_exact(&mut r);
        if total < need {
            err!(res, UnexpectedEos);
            assert!(r.pos == total);
        } else {
            assert!(ok!(res) == need && r.pos == need);
        }
        // the end is shown when the reader has shown it, and not before
        assert!((d.told == 1) == (total < need));
        witness!(total == 1500 && need == 1600);
        witness!(total == 1 && need == 2 && !known);
        witness!(total == 0 && need == 0);
    }
    /// Nothing needed at first, and more after a call: not the end of the stream.
    nothing_at_first [6] {
        let need = nd::u64();
        nd::assume(need > 0 && need <= 100);
        let mut d = Silent { need, got: 0, known: 2, told: 0 };
        let mut r = Bulk::new(200, need, false);
        assert!(ok!(d.decode_exact(&mut r)) == need && r.pos == need && d.told == 0);
        witness!(need == 100);
    }
    would_block [4] {
        // a blocked reader is an error of kind Other, not an end
        let mut src = Src::new(1);
        let mut d = U16leDecoder::new();
        match d.decode_exact(&mut src) {
            Ok(v) => assert!(v == u16::from_le_bytes([src.data[0], src.data[1]]) && src.pos == 2),
            Err(e) => {
                let end = src.last == Outcome::End || src.kind == Some(io::ErrorKind::UnexpectedEof);
                assert!(*e.kind() == if end { ErrorKind::UnexpectedEos } else { ErrorKind::Other });
                assert!(src.last != Outcome::Bytes && src.pos < 2);
            }
        }
        witness!(src.pos == 2 && src.calls == 2);
        witness!(src.pos == 1 && src.last == Outcome::WouldBlock);
    }
    /// Any 64-bit size, a stream that ends before.
    any_size [6] {
        let (n, total) = (nd::u64(), nd::u16() as u64);
        nd::assume(n > total);
        let mut r = Bulk::new(total, n, false);
        err!(Need::new(n).decode_exact(&mut r), UnexpectedEos);
        assert!(!r.over && r.pos == total, "the stream was read to its end, never beyond the item");
        witness!(n == 1 << 32 && total == 1500);
        witness!(n == 1 << 16 && total == 7);
    }
}
