//! C20: a write buffer passes everything on to its writer, in order, once.
use crate::io_mock::*;
use crate::util::prelude::*;
use bytecodec::io::*;
use std::io::Write;

/// Writes the bytes of `data` from `pos` on, `n` per item.
struct Feed {
    data: [u8; 8],
    pos: usize,
    left: usize,
    fail: bool,
    room: usize,
    eos: bool,
}
impl Encode for Feed {
    type Item = usize;
    fn encode(&mut self, buf: &mut [u8], eos: Eos) -> Result<usize> {
        self.room = buf.len();
        self.eos = eos.is_reached();
        assert!(eos == Eos::new(self.eos));
        if self.fail {
            return Err(ErrorKind::InvalidInput.into());
        }
        let n = if self.left < buf.len() { self.left } else { buf.len() };
        let mut i = 0;
        while i < n {
            buf[i] = self.data[(self.pos + i) & 7];
            i += 1;
        }
        self.pos += n;
        self.left -= n;
        Ok(n)
    }
    fn start_encoding(&mut self, n: usize) -> Result<()> {
        self.left = n;
        Ok(())
    }
    fn requiring_bytes(&self) -> ByteCount {
        ByteCount::Finite(self.left as u64)
    }
}

pub fn after_flush<B: AsRef<[u8]> + AsMut<[u8]>>(wb: &WriteBuf<B>, r: Result<()>, sink: &Sink, was_empty: bool, calls0: usize) {
    if was_empty {
        assert!(r.is_ok() && sink.calls == calls0, "an empty buffer is not flushed");
        return;
    }
    assert!(sink.calls > calls0);
    match sink.last {
        Outcome::Bytes => {
            assert!(r.is_ok() && wb.is_empty() && wb.len() == 0 && wb.stream_state() == StreamState::Normal, "writes until the buffer is empty");
        }
        Outcome::WouldBlock => assert!(r.is_ok() && wb.stream_state().would_block(), "blocking is no error"),
        Outcome::End => assert!(r.is_ok() && wb.stream_state().is_eos(), "a closed stream is no error"),
        _ => {
            let end = sink.kind == Some(std::io::ErrorKind::UnexpectedEof);
            match r {
                Ok(()) => panic!("a failed write is an error"),
                Err(e) => assert!(*e.kind() == if end { ErrorKind::UnexpectedEos } else { ErrorKind::Other }),
            }
            assert!(wb.stream_state().is_error());
        }
    }
}

/// Emits any number of bytes; the byte at one symbolic stream position is marked.
struct Marked {
    left: usize,
    pos: usize,
    mark: usize,
    value: u8,
    room: usize,
}
impl Encode for Marked {
    type Item = usize;
    fn encode(&mut self, buf: &mut [u8], _: Eos) -> Result<usize> {
        self.room = buf.len();
        let n = if self.left < buf.len() { self.left } else { buf.len() };
        if self.mark >= self.pos && self.mark - self.pos < n {
            buf[self.mark - self.pos] = self.value;
        }
        self.pos += n;
        self.left -= n;
        Ok(n)
    }
    fn start_encoding(&mut self, n: usize) -> Result<()> {
        self.left = n;
        Ok(())
    }
    fn requiring_bytes(&self) -> ByteCount {
        ByteCount::Finite(self.left as u64)
    }
}
/// Takes any part of what it is given and then would block; looks for the mark.
struct Part {
    n: usize,
    calls: u32,
    offered: usize,
    mark: usize,
    value: u8,
    seen: u32,
}
impl Write for Part {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        self.calls += 1;
        if self.calls % 2 == 0 {
            return Err(std::io::ErrorKind::WouldBlock.into());
        }
        self.offered = buf.len();
        let t = nd::u8() as usize;
        nd::assume(t >= 1 && t <= buf.len());
        if self.mark >= self.n && self.mark - self.n < t {
            assert!(buf[self.mark - self.n] == self.value, "every byte comes out at its position");
            self.seen += 1;
        }
        self.n += t;
        Ok(t)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

harnesses! {
    /// A large buffer, any sizes; every single position is covered by the mark.
    large [5] {
        let (mark, value) = (nd::u8() as usize, nd::u8());
        nd::assume(value != 0);
        let mut e = Marked { left: 0, pos: 0, mark, value, room: 0 };
        let mut wb = WriteBuf::new([0u8; 64]);
        let mut sink = Part { n: 0, calls: 0, offered: 0, mark, value, seen: 0 };
        let mut round = 0;
        while round < 3 {
            let (room, len, pos) = (wb.room(), wb.len(), e.pos);
            e.left = nd::u8() as usize;
            ok!(e.encode_to_write_buf(&mut wb));
            assert!(e.room == room, "the encoder gets the whole free room");
            assert!(wb.len() == len + (e.pos - pos) && wb.room() == room - (e.pos - pos));
            sink.calls = 0;
            let before = sink.n;
            let len = wb.len();
            ok!(wb.flush(&mut sink));
            assert!(len == 0 || sink.offered == len, "all that is buffered is offered");
            assert!(wb.len() == e.pos - sink.n && (sink.n - before) + wb.len() == len);
            assert!(wb.len() > 0 || wb.room() == 64, "an empty buffer is wholly free");
            round += 1;
        }
        assert!(sink.seen == if mark < sink.n { 1 } else { 0 });
        witness!(sink.n == 150 && sink.seen == 1);
        witness!(sink.n == 60 && wb.len() == 3);
    }
    flush [6] {
        let data = nd::bytes8();
        let mut wb = WriteBuf::new([0u8; 4]);
        assert!(wb.is_empty() && wb.len() == 0 && wb.room() == 4 && wb.capacity() == 4 && !wb.is_full());
        assert!(wb.stream_state() == StreamState::Normal);
        let k = nd::upto(5);
        let n = ok!(wb.write(&data[..k]));
        assert!(n == if k < 4 { k } else { 4 }, "as much as there is room for");
        assert!(wb.len() == n && wb.room() == 4 - n && wb.is_full() == (n == 4) && wb.is_empty() == (n == 0));
        let mut sink = Sink::new(4, data);
        let r = wb.flush(&mut sink);
        after_flush(&wb, r, &sink, n == 0, 0);
        assert!(wb.len() == n - sink.n, "what was not written is kept");
        if sink.n == n {
            assert!(wb.room() == 4, "the whole room is free again");
        }
        witness!(n == 4 && sink.n == 4 && sink.calls == 3);
        witness!(n == 4 && sink.n == 2 && wb.stream_state().is_error());
    }
    /// write, flush, write, flush, under arbitrary partial writes and failures.
    history [5] {
        let data = nd::bytes8();
        let mut wb = WriteBuf::new([0u8; 3]);
        let mut sink = Sink::new(3, data);
        let mut put = 0;
        let mut round = 0;
        while round < 2 {
            let k = nd::upto(3);
            let room = wb.room();
            let n = ok!(wb.write(&data[put..put + k]));
            assert!(n == if k < room { k } else { room });
            put += n;
            assert!(wb.len() == put - sink.n);
            assert!(wb.len() + wb.room() <= wb.capacity());
            let (empty, calls) = (wb.len() == 0, sink.calls);
            let r = wb.flush(&mut sink);
            after_flush(&wb, r, &sink, empty, calls);
            assert!(wb.len() == put - sink.n, "nothing is lost or written twice");
            round += 1;
        }
        witness!(put == 5 && sink.n == 5);
        witness!(put == 3 && sink.n == 2);
    }
    encoding [5] {
        let mut f = Feed { data: nd::bytes8(), pos: 0, left: 0, fail: false, room: 9, eos: false };
        let mut wb = WriteBuf::new([0u8; 3]);
        let mut sink = Sink::new(3, f.data);
        let mut round = 0;
        while round < 2 {
            f.left = nd::upto(3);
            f.fail = nd::bool();
            let (room, len, pos, eos) = (wb.room(), wb.len(), f.pos, wb.stream_state().is_eos());
            let r = f.encode_to_write_buf(&mut wb);
            assert!(f.room == room, "the encoder sees exactly the free room");
            assert!(f.eos == eos, "and whether the stream is closed");
            if f.fail {
                err!(r, InvalidInput);
                assert!(wb.len() == len, "nothing is added on an error");
            } else {
                ok!(r);
                assert!(wb.len() == len + (f.pos - pos), "what the encoder wrote is buffered");
            }
            let _ = wb.flush(&mut sink);
            assert!(wb.len() == f.pos - sink.n);
            round += 1;
        }
        witness!(sink.n == 6);
        witness!(sink.n == 1 && f.pos == 4);
    }
    real_encoder [5] {
        let v = nd::u32() & 0xff_ffff;
        let want = [(v >> 16) as u8, (v >> 8) as u8, v as u8, 0, 0, 0, 0, 0];
        let mut e = U24beEncoder::new();
        ok!(e.start_encoding(v));
        let mut wb = WriteBuf::new([0u8; 2]);
        let mut sink = Sink::new(2, want);
        let mut i = 0;
        while i < 2 {
            if !wb.stream_state().is_eos() {
                ok!(e.encode_to_write_buf(&mut wb));
            }
            let _ = wb.flush(&mut sink);
            i += 1;
        }
        assert!(sink.n <= 3);
        witness!(sink.n == 3 && e.is_idle());
    }
    /// A stream that is closed while an item is in flight is reported to the encoder.
    closed [8] {
        let v = nd::u16();
        let mut e = U16beEncoder::new();
        ok!(e.start_encoding(v));
        let mut wb = WriteBuf::new([0u8; 1]);
        *wb.stream_state_mut() = StreamState::Eos;
        err!(e.encode_to_write_buf(&mut wb), UnexpectedEos);
        assert!(wb.len() == 0);
        let mut sink = Sink::new(1, [0; 8]);
        let mut wb = WriteBuf::new([0u8; 0]);
        ok!(wb.flush(&mut sink));
        assert!(sink.calls == 0 && ok!(wb.write(&[1])) == 0);
        witness!(true);
    }
}
