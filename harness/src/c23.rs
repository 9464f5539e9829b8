//! C23: a buffered stream fills its read buffer and flushes its write buffer.
use crate::c19::after_fill;
use crate::c20::after_flush;
use crate::io_mock::*;
use crate::util::prelude::*;
use bytecodec::io::*;
use std::io::{self, Read, Write};

/// Both directions of a stream.
struct Pair {
    src: Src,
    sink: Sink,
}
impl Read for Pair {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.src.read(buf)
    }
}
impl Write for Pair {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.sink.write(buf)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// One `execute_io`, judged by the outcomes of the calls it made.
fn step(b: &mut BufferedIo<Pair>) {
    let (full, empty) = (b.read_buf_ref().is_full(), b.write_buf_ref().len() == 0);
    let (rc, wc) = (b.stream_ref().src.calls, b.stream_ref().sink.calls);
    let wstate = b.write_buf_ref().stream_state();
    let r = b.execute_io();
    let read_failed = !full && b.stream_ref().src.last == Outcome::Failed;
    if read_failed {
        assert!(b.stream_ref().sink.calls == wc, "a failed read ends the operation");
        assert!(b.write_buf_ref().stream_state() == wstate);
        after_fill(b.read_buf_ref(), r, &b.stream_ref().src, full, rc);
    } else {
        after_fill(b.read_buf_ref(), Ok(()), &b.stream_ref().src, full, rc);
        after_flush(b.write_buf_ref(), r, &b.stream_ref().sink, empty, wc);
    }
    let (rs, ws) = (b.read_buf_ref().stream_state(), b.write_buf_ref().stream_state());
    assert!(b.is_eos() == (rs.is_eos() || ws.is_eos()), "the end of either direction");
    let pending = b.write_buf_ref().len() > 0;
    assert!(b.would_block() == (rs.would_block() && (!pending || ws.would_block())), "nothing to do but wait");
}

harnesses! {
    one_operation [4] {
        let data = nd::bytes4();
        let want = [data[0], data[1], data[2], data[3], 0, 0, 0, 0];
        nd::cases(2, |k| {
            let mut b = BufferedIo::new(Pair { src: Src::new(2), sink: Sink::new(2, want) }, 2, 2);
            assert!(b.read_buf_ref().capacity() == 2 && b.write_buf_ref().capacity() == 2);
            assert!(!b.is_eos() && !b.would_block());
            assert!(ok!(b.write_buf_mut().write(&data[..k])) == k);
            step(&mut b);
            assert!(b.read_buf_ref().len() == b.stream_ref().src.pos);
            assert!(b.write_buf_ref().len() == k - b.stream_ref().sink.n);
            witness!(k == 2 && b.is_eos() && b.write_buf_ref().len() == 1);
            witness!(k == 1 && b.would_block());
            witness!(b.would_block() && b.read_buf_ref().len() == 1);
            core::mem::forget(b);
        });
    }
    /// Whatever became of the stream before.
    any_state [4] {
        let data = nd::bytes4();
        let want = [data[0], data[1], data[2], data[3], 0, 0, 0, 0];
        nd::cases(1, |k| {
            let mut b = BufferedIo::new(Pair { src: Src::new(1), sink: Sink::new(1, want) }, 1, 2);
            assert!(ok!(b.write_buf_mut().write(&data[..k])) == k);
            let (r, w) = (nd::u8() % 4, nd::u8() % 4);
            *b.read_buf_mut().stream_state_mut() = state(r);
            *b.write_buf_mut().stream_state_mut() = state(w);
            let (rc, wc) = (b.stream_ref().src.calls, b.stream_ref().sink.calls);
            step(&mut b);
            assert!(b.stream_ref().src.calls > rc, "there is room: reading is tried");
            assert!(k == 0 || b.stream_ref().sink.calls > wc || b.read_buf_ref().stream_state().is_error(), "there is something to write: writing is tried");
            assert!(b.read_buf_ref().len() == b.stream_ref().src.pos && b.write_buf_ref().len() == k - b.stream_ref().sink.n);
            witness!(r == 1 && w == 1 && k == 1 && b.stream_ref().sink.n == 1);
            witness!(r == 3 && b.read_buf_ref().stream_state().is_normal());
            core::mem::forget(b);
        });
    }
    /// Both buffers have the sizes that were asked for.
    sizes [4] {
        let (r, w) = (nd::upto(3), nd::upto(3));
        let b = BufferedIo::new(Shut, r, w);
        assert!(b.read_buf_ref().capacity() == r && b.read_buf_ref().room() == r && b.read_buf_ref().is_full() == (r == 0));
        assert!(b.write_buf_ref().capacity() == w && b.write_buf_ref().room() == w && b.write_buf_ref().is_empty());
        witness!(r == 1 && w == 3);
        core::mem::forget(b);
    }
    /// What comes in goes out again: nothing is lost, doubled or reordered.
    echo [4] {
        let src = Src::new(2);
        let want = src.data;
        let mut b = BufferedIo::new(Pair { src, sink: Sink::new(2, want) }, 2, 2);
        let mut moved = 0;
        let mut round = 0;
        while round < 2 {
            step(&mut b);
            let mut out = [0u8; 1];
            if b.write_buf_ref().room() > 0 && ok!(b.read_buf_mut().read(&mut out)) == 1 {
                assert!(ok!(b.write_buf_mut().write(&out)) == 1);
                moved += 1;
            }
            round += 1;
        }
        assert!(b.read_buf_ref().len() == b.stream_ref().src.pos - moved);
        assert!(b.write_buf_ref().len() == moved - b.stream_ref().sink.n);
        witness!(b.stream_ref().sink.n == 1 && b.stream_ref().src.pos == 2);
        core::mem::forget(b);
    }
    /// Which directions are blocked decides whether there is anything to do.
    states [6] {
        let mut b = BufferedIo::new(Shut, 1, 1);
        let (r, w) = (nd::u8() % 4, nd::u8() % 4);
        let full = nd::bool();
        if full {
            assert!(ok!(b.write_buf_mut().write(&[1])) == 1);
        }
        *b.read_buf_mut().stream_state_mut() = state(r);
        *b.write_buf_mut().stream_state_mut() = state(w);
        assert!(b.is_eos() == (r == 2 || w == 2));
        assert!(b.would_block() == (r == 1 && (!full || w == 1)));
        let s = state(r);
        assert!(s.is_normal() == (r == 0) && s.would_block() == (r == 1) && s.is_eos() == (r == 2) && s.is_error() == (r == 3));
        let mut shut = b.into_stream();
        assert!(ok!(shut.read(&mut [0])) == 0);
        witness!(r == 2 && w == 0);
    }
    /// The error of a failed operation passes to the caller as its kind.
    error_kinds [6] {
        let k = nd::u8() % 8;
        let kind = match k {
            0 => io::ErrorKind::UnexpectedEof,
            1 => io::ErrorKind::ConnectionReset,
            2 => io::ErrorKind::TimedOut,
            3 => io::ErrorKind::Interrupted,
            4 => io::ErrorKind::BrokenPipe,
            5 => io::ErrorKind::InvalidData,
            6 => io::ErrorKind::WriteZero,
            _ => io::ErrorKind::Other,
        };
        let e = Error::from(io::Error::from(kind));
        assert!(*e.kind() == if k == 0 { ErrorKind::UnexpectedEos } else { ErrorKind::Other });
        witness!(k == 7);
    }
}
/// A stream that is closed in both directions.
struct Shut;
impl Read for Shut {
    fn read(&mut self, _: &mut [u8]) -> io::Result<usize> {
        Ok(0)
    }
}
impl Write for Shut {
    fn write(&mut self, _: &[u8]) -> io::Result<usize> {
        Ok(0)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
fn state(n: u8) -> StreamState {
    match n {
        0 => StreamState::Normal,
        1 => StreamState::WouldBlock,
        2 => StreamState::Eos,
        _ => StreamState::Error,
    }
}
