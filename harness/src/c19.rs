//! C19: a read buffer passes on exactly what its reader delivered, in order.
use crate::io_mock::*;
use crate::util::prelude::*;
use bytecodec::io::*;
use std::io::Read;

/// What `fill` leaves behind, whatever the reader did.
pub fn after_fill<B: AsRef<[u8]> + AsMut<[u8]>>(rb: &ReadBuf<B>, r: Result<()>, src: &Src, was_full: bool, calls0: usize) {
    if was_full {
        assert!(r.is_ok() && src.calls == calls0, "a full buffer is not filled");
        return;
    }
    assert!(src.calls > calls0);
    match src.last {
        Outcome::Bytes => {
            assert!(r.is_ok() && rb.is_full() && rb.stream_state() == StreamState::Normal, "reads until the buffer is full");
        }
        Outcome::WouldBlock => assert!(r.is_ok() && rb.stream_state().would_block(), "blocking is no error"),
        Outcome::End => assert!(r.is_ok() && rb.stream_state().is_eos(), "the end of the stream is no error"),
        _ => {
            let end = src.kind == Some(std::io::ErrorKind::UnexpectedEof);
            match r {
                Ok(()) => panic!("a failed read is an error"),
                Err(e) => assert!(*e.kind() == if end { ErrorKind::UnexpectedEos } else { ErrorKind::Other }),
            }
            assert!(rb.stream_state().is_error());
        }
    }
}

/// Records what it is shown and takes `take` bytes of it.
struct Probe {
    take: usize,
    fail: bool,
    len: usize,
    first: u8,
    last: u8,
    eos: bool,
}
impl Decode for Probe {
    type Item = ();
    fn decode(&mut self, buf: &[u8], eos: Eos) -> Result<usize> {
        self.len = buf.len();
        if !buf.is_empty() {
            self.first = buf[0];
            self.last = buf[buf.len() - 1];
        }
        self.eos = eos.is_reached();
        assert!(eos == Eos::new(self.eos));
        if self.fail {
            return Err(ErrorKind::InvalidInput.into());
        }
        Ok(if self.take < buf.len() { self.take } else { buf.len() })
    }
    fn finish_decoding(&mut self) -> Result<()> {
        Ok(())
    }
    fn requiring_bytes(&self) -> ByteCount {
        ByteCount::Unknown
    }
}

/// Delivers any number of bytes and then would block; the byte at one symbolic
/// stream position is marked.
struct Marked {
    n: usize,
    calls: u32,
    room: usize,
    mark: usize,
    value: u8,
}
impl Read for Marked {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        self.calls += 1;
        if self.calls % 2 == 0 {
            return Err(std::io::ErrorKind::WouldBlock.into());
        }
        self.room = buf.len();
        let t = nd::u8() as usize;
        nd::assume(t >= 1 && t <= buf.len());
        if self.mark >= self.n && self.mark - self.n < t {
            buf[self.mark - self.n] = self.value;
        }
        self.n += t;
        Ok(t)
    }
}
/// Takes `take` bytes of what it is shown and looks for the mark.
struct Taker {
    take: usize,
    pos: usize,
    len: usize,
    mark: usize,
    value: u8,
}
impl Decode for Taker {
    type Item = ();
    fn decode(&mut self, buf: &[u8], _: Eos) -> Result<usize> {
        self.len = buf.len();
        if self.mark >= self.pos && self.mark - self.pos < buf.len() {
            assert!(buf[self.mark - self.pos] == self.value, "every byte is shown at its position");
        }
        let n = if self.take < buf.len() { self.take } else { buf.len() };
        self.pos += n;
        Ok(n)
    }
    fn finish_decoding(&mut self) -> Result<()> {
        Ok(())
    }
    fn requiring_bytes(&self) -> ByteCount {
        ByteCount::Unknown
    }
}

harnesses! {
    /// A large buffer, any sizes; every single position is covered by the mark.
    large [5] {
        let (mark, value) = (nd::u8() as usize, nd::u8());
        nd::assume(value != 0);
        let mut src = Marked { n: 0, calls: 0, room: 0, mark, value };
        let mut rb = ReadBuf::new([0u8; 64]);
        let mut d = Taker { take: 0, pos: 0, len: 0, mark, value };
        let mut round = 0;
        while round < 3 {
            src.calls = 0;
            let (room, full, n) = (rb.room(), rb.is_full(), src.n);
            ok!(rb.fill(&mut src));
            assert!(full || src.room == room, "the reader gets the whole free room");
            assert!(rb.len() == src.n - d.pos && rb.room() == room - (src.n - n));
            d.take = nd::u8() as usize;
            ok!(d.decode_from_read_buf(&mut rb));
            assert!(d.len == src.n - (d.pos - if d.take < d.len { d.take } else { d.len }), "the decoder sees everything");
            assert!(rb.len() == src.n - d.pos);
            assert!(rb.len() > 0 || rb.room() == 64, "an empty buffer is wholly free");
            round += 1;
        }
        witness!(d.pos == 150);
        witness!(d.pos == 60 && rb.len() == 3);
    }
    fill [6] {
        let mut src = Src::new(4);
        let mut rb = ReadBuf::new([0u8; 4]);
        assert!(rb.is_empty() && rb.len() == 0 && rb.room() == 4 && rb.capacity() == 4 && !rb.is_full());
        assert!(rb.stream_state() == StreamState::Normal && rb.stream_state().is_normal());
        let r = rb.fill(&mut src);
        after_fill(&rb, r, &src, false, 0);
        assert!(rb.len() == src.pos && rb.room() == 4 - src.pos, "what was read is kept, also before an error");
        assert!(rb.is_empty() == (src.pos == 0) && rb.is_full() == (src.pos == 4));
        let mut out = [0u8; 5];
        assert!(ok!(rb.read(&mut out)) == src.pos);
        let mut i = 0;
        while i < src.pos {
            assert!(out[i] == src.data[i], "the bytes that were delivered, in order");
            i += 1;
        }
        assert!(rb.len() == 0 && rb.is_empty() && rb.room() == 4);
        witness!(src.pos == 4 && src.calls == 3);
        witness!(src.pos == 2 && rb.stream_state().is_error());
        witness!(src.pos == 0 && rb.stream_state().is_eos());
    }
    /// fill, take some, fill, take some, fill, drain.
    history [5] {
        let mut src = Src::new(3);
        let mut rb = ReadBuf::new([0u8; 3]);
        let mut n = 0;
        let mut round = 0;
        while round < 2 {
            let (full, calls) = (rb.is_full(), src.calls);
            let r = rb.fill(&mut src);
            after_fill(&rb, r, &src, full, calls);
            assert!(rb.len() == src.pos - n);
            assert!(rb.len() + rb.room() <= rb.capacity());
            let k = nd::upto(3);
            let mut out = [0u8; 3];
            let m = ok!(rb.read(&mut out[..k]));
            assert!(m == if k < src.pos - n { k } else { src.pos - n }, "as much as there is");
            let mut i = 0;
            while i < m {
                assert!(out[i] == src.data[n], "first in, first out");
                n += 1;
                i += 1;
            }
            assert!(rb.len() == src.pos - n && rb.is_empty() == (n == src.pos));
            round += 1;
        }
        witness!(n == 5 && src.pos == 5);
        witness!(n == 3 && src.pos == 4);
    }
    decoding [5] {
        let mut src = Src::new(3);
        let mut rb = ReadBuf::new([0u8; 3]);
        let mut n = 0;
        let mut round = 0;
        while round < 2 {
            let _ = rb.fill(&mut src);
            let there = src.pos - n;
            let eos = rb.stream_state().is_eos();
            let mut p = Probe { take: nd::upto(3), fail: nd::bool(), len: 9, first: 0, last: 0, eos: false };
            let r = p.decode_from_read_buf(&mut rb);
            assert!(p.len == there, "the decoder sees everything that is buffered");
            if there > 0 {
                assert!(p.first == src.data[n] && p.last == src.data[src.pos - 1]);
            }
            assert!(p.eos == eos, "and whether the stream has ended");
            if p.fail {
                err!(r, InvalidInput);
                assert!(rb.len() == there, "nothing is taken on an error");
            } else {
                ok!(r);
                let m = if p.take < there { p.take } else { there };
                n += m;
                assert!(rb.len() == there - m, "what the decoder took is gone");
                assert!(rb.is_empty() == (rb.len() == 0));
            }
            round += 1;
        }
        witness!(n == 5);
        witness!(n == 0 && src.pos == 3);
    }
    real_decoder [5] {
        let mut src = Src::new(2);
        let mut rb = ReadBuf::new([0u8; 2]);
        let mut d = U24beDecoder::new();
        let mut i = 0;
        while i < 2 {
            if rb.fill(&mut src).is_ok() && !d.is_idle() {
                let before = src.pos;
                match d.decode_from_read_buf(&mut rb) {
                    Ok(()) => {}
                    Err(e) => {
                        assert!(*e.kind() == ErrorKind::UnexpectedEos && rb.stream_state().is_eos() && before < 3);
                        return;
                    }
                }
            }
            i += 1;
        }
        if d.is_idle() {
            let v = ok!(d.finish_decoding());
            assert!(v == (src.data[0] as u32) << 16 | (src.data[1] as u32) << 8 | src.data[2] as u32);
            assert!(rb.len() == src.pos - 3);
            witness!(src.pos == 4);
        }
    }
    no_capacity [8] {
        let mut src = Src::new(2);
        let mut rb = ReadBuf::new([0u8; 0]);
        ok!(rb.fill(&mut src));
        assert!(src.calls == 0 && rb.len() == 0 && rb.capacity() == 0);
        let mut out = [0u8; 2];
        assert!(ok!(rb.read(&mut out)) == 0);
        witness!(true);
    }
    /// A caller may set the state, e.g. after a clean shutdown.
    state_mut [8] {
        let mut rb = ReadBuf::new([0u8; 2]);
        *rb.stream_state_mut() = StreamState::Eos;
        let mut p = Probe { take: 0, fail: false, len: 9, first: 0, last: 0, eos: false };
        ok!(p.decode_from_read_buf(&mut rb));
        assert!(p.eos && p.len == 0);
        rb.inner_mut()[0] = 7;
        assert!(rb.inner_ref()[0] == 7 && rb.into_inner()[0] == 7);
        witness!(true);
    }
}
