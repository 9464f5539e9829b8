//! C24: asynchronous I/O.
use crate::util::prelude::*;
use bytecodec::io::*;
use std::cell::Cell;
use std::io;
use std::pin::Pin;
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};
use tokio::io::{AsyncRead, AsyncWrite};

#[derive(Clone, Copy, PartialEq)]
pub enum Outcome {
    None,
    Bytes,
    Pending,
    End,
    Failed,
}

/// Counts how often its waker was woken.
static VTABLE: RawWakerVTable = RawWakerVTable::new(
    |p| RawWaker::new(p, &VTABLE),
    |p| unsafe { bump(p) },
    |p| unsafe { bump(p) },
    |_| {},
);
unsafe fn bump(p: *const ()) {
    let c = &*(p as *const Cell<u32>);
    c.set(c.get() + 1);
}
fn waker(c: &Cell<u32>) -> Waker {
    unsafe { Waker::from_raw(RawWaker::new(c as *const Cell<u32> as *const (), &VTABLE)) }
}

/// A stream whose every poll has a symbolic outcome.
struct Duplex {
    data: [u8; 8],
    pos: usize,
    reads: usize,
    rlast: Outcome,
    rend: bool,
    want: [u8; 8],
    n: usize,
    writes: usize,
    wlast: Outcome,
    wend: bool,
    step: u8,
}
impl Duplex {
    fn new(step: u8, want: [u8; 8]) -> Self {
        Duplex {
            data: nd::bytes8(),
            pos: 0,
            reads: 0,
            rlast: Outcome::None,
            rend: false,
            want,
            n: 0,
            writes: 0,
            wlast: Outcome::None,
            wend: false,
            step,
        }
    }
}
fn failure(end: bool) -> io::Error {
    if end {
        io::ErrorKind::UnexpectedEof.into()
    } else {
        io::ErrorKind::ConnectionReset.into()
    }
}
impl AsyncRead for Duplex {
    fn poll_read(mut self: Pin<&mut Self>, _: &mut Context<'_>, buf: &mut tokio::io::ReadBuf<'_>) -> Poll<io::Result<()>> {
        let t = &mut *self;
        t.reads += 1;
        match nd::u8() % 4 {
            0 => {
                let n = nd::u8();
                nd::assume(n >= 1 && n <= t.step && n as usize <= buf.remaining());
                let mut i = 0;
                while i < n as usize {
                    buf.put_slice(&[t.data[t.pos & 7]]);
                    t.pos += 1;
                    i += 1;
                }
                t.rlast = Outcome::Bytes;
                Poll::Ready(Ok(()))
            }
            1 => {
                t.rlast = Outcome::Pending;
                Poll::Pending
            }
            2 => {
                t.rlast = Outcome::End;
                Poll::Ready(Ok(()))
            }
            _ => {
                t.rlast = Outcome::Failed;
                t.rend = nd::bool();
                Poll::Ready(Err(failure(t.rend)))
            }
        }
    }
}
impl AsyncWrite for Duplex {
    fn poll_write(mut self: Pin<&mut Self>, _: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        let t = &mut *self;
        t.writes += 1;
        match nd::u8() % 4 {
            0 => {
                let n = nd::u8();
                nd::assume(n >= 1 && n <= t.step && n as usize <= buf.len());
                let mut i = 0;
                while i < n as usize {
                    assert!(buf[i] == t.want[t.n & 7], "in order, nothing twice");
                    t.n += 1;
                    i += 1;
                }
                t.wlast = Outcome::Bytes;
                Poll::Ready(Ok(n as usize))
            }
            1 => {
                t.wlast = Outcome::Pending;
                Poll::Pending
            }
            2 => {
                t.wlast = Outcome::End;
                Poll::Ready(Ok(0))
            }
            _ => {
                t.wlast = Outcome::Failed;
                t.wend = nd::bool();
                Poll::Ready(Err(failure(t.wend)))
            }
        }
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}

fn kind_is(e: &Error, end: bool) -> bool {
    *e.kind() == if end { ErrorKind::UnexpectedEos } else { ErrorKind::Other }
}
fn filled<B: AsRef<[u8]> + AsMut<[u8]>>(rb: &ReadBuf<B>, last: Outcome, end: bool, was_full: bool, r: &Poll<Result<()>>) {
    if was_full {
        assert!(matches!(r, Poll::Ready(Ok(()))), "a full buffer is ready");
        return;
    }
    match last {
        Outcome::Pending => assert!(r.is_pending() && rb.stream_state().would_block()),
        Outcome::Bytes => assert!(matches!(r, Poll::Ready(Ok(()))) && rb.is_full() && rb.stream_state().is_normal()),
        Outcome::End => assert!(matches!(r, Poll::Ready(Ok(()))) && rb.stream_state().is_eos()),
        _ => {
            assert!(matches!(r, Poll::Ready(Err(e)) if kind_is(e, end)));
            assert!(rb.stream_state().is_error());
        }
    }
}
fn flushed<B: AsRef<[u8]> + AsMut<[u8]>>(wb: &WriteBuf<B>, last: Outcome, end: bool, was_empty: bool, r: &Poll<Result<()>>) {
    if was_empty {
        assert!(matches!(r, Poll::Ready(Ok(()))), "nothing to flush");
        return;
    }
    match last {
        Outcome::Pending => assert!(r.is_pending() && wb.stream_state().would_block()),
        Outcome::Bytes => {
            assert!(matches!(r, Poll::Ready(Ok(()))) && wb.is_empty() && wb.len() == 0 && wb.stream_state().is_normal())
        }
        Outcome::End => assert!(matches!(r, Poll::Ready(Ok(()))) && wb.stream_state().is_eos()),
        _ => {
            assert!(matches!(r, Poll::Ready(Err(e)) if kind_is(e, end)));
            assert!(wb.stream_state().is_error());
        }
    }
}

harnesses! {
    fill [4] {
        let count = Cell::new(0);
        let w = waker(&count);
        let mut cx = Context::from_waker(&w);
        let mut s = Duplex::new(2, [0; 8]);
        let mut rb = ReadBuf::new([0u8; 2]);
        let r = rb.poll_fill(Pin::new(&mut s), &mut cx);
        filled(&rb, s.rlast, s.rend, false, &r);
        assert!(rb.len() == s.pos);
        let first = rb.len();
        let was_full = rb.is_full();
        let reads = s.reads;
        let r = rb.poll_fill(Pin::new(&mut s), &mut cx);
        filled(&rb, s.rlast, s.rend, was_full, &r);
        assert!(!was_full || s.reads == reads);
        assert!(rb.len() == s.pos);
        let mut out = [0u8; 2];
        assert!(ok!(io::Read::read(&mut rb, &mut out)) == s.pos);
        assert!(s.pos == 0 || out[0] == s.data[0]);
        assert!(s.pos < 2 || out[1] == s.data[1], "what was delivered, in order");
        witness!(first == 1 && s.pos == 2);
        witness!(s.pos == 1 && r.is_pending());
        core::mem::forget(r);
    }
    flush [4] {
        let count = Cell::new(0);
        let w = waker(&count);
        let mut cx = Context::from_waker(&w);
        let data = nd::bytes8();
        let mut s = Duplex::new(2, data);
        let mut wb = WriteBuf::new([0u8; 2]);
        nd::cases(2, |k| {
            assert!(ok!(io::Write::write(&mut wb, &data[..k])) == k);
            let r = wb.poll_flush(Pin::new(&mut s), &mut cx);
            flushed(&wb, s.wlast, s.wend, k == 0, &r);
            assert!(wb.len() == k - s.n);
            let rest = wb.len();
            let r = wb.poll_flush(Pin::new(&mut s), &mut cx);
            flushed(&wb, s.wlast, s.wend, rest == 0, &r);
            assert!(wb.len() == k - s.n, "nothing is lost or written twice");
            witness!(rest == 1 && s.n == 2);
            core::mem::forget(r);
        });
    }
    /// A task whose encoder found no room is woken when there is room again.
    wake_async [4] {
        let (c1, c2) = (Cell::new(0), Cell::new(0));
        let (w1, w2) = (waker(&c1), waker(&c2));
        let mut cx1 = Context::from_waker(&w1);
        let mut cx2 = Context::from_waker(&w2);
        let v = nd::u32() & 0xff_ffff;
        let b = v.to_be_bytes();
        let mut s = Duplex::new(2, [b[1], b[2], b[3], 0, 0, 0, 0, 0]);
        let mut wb = WriteBuf::new([0u8; 2]);
        let mut e = U24beEncoder::new();
        ok!(e.start_encoding(v));
        ok!(e.encode_to_write_buf_async(&mut wb, &mut cx1));
        assert!(wb.len() == 2 && wb.room() == 0 && !e.is_idle(), "there was no room for the rest");
        let r = wb.poll_flush(Pin::new(&mut s), &mut cx2);
        if wb.room() > 0 {
            assert!(c1.get() == 1, "the waiting task is woken once the room is back");
            ok!(e.encode_to_write_buf_async(&mut wb, &mut cx1));
            assert!(e.is_idle() && wb.len() == 1);
        } else {
            assert!(c1.get() == 0 && s.n < 2);
        }
        assert!(c2.get() == 0);
        witness!(c1.get() == 1 && s.n == 2 && s.writes == 2);
        witness!(r.is_pending() && s.n == 1);
        core::mem::forget((r, wb));
    }
    /// A task that found the buffer full from the start is woken as well.
    wake_again [4] {
        let (c1, c2) = (Cell::new(0), Cell::new(0));
        let (w1, w2) = (waker(&c1), waker(&c2));
        let mut cx1 = Context::from_waker(&w1);
        let mut cx2 = Context::from_waker(&w2);
        let v = nd::u16();
        let b = v.to_be_bytes();
        let mut s = Duplex::new(1, [b[0], b[1], 0, 0, 0, 0, 0, 0]);
        let mut wb = WriteBuf::new([0u8; 1]);
        let mut e = U16beEncoder::new();
        ok!(e.start_encoding(v));
        ok!(e.encode_to_write_buf_async(&mut wb, &mut cx1));
        // The same task asks once more, or another one does, while nothing was flushed.
        let other = nd::bool();
        let again = if other { &mut cx2 } else { &mut cx1 };
        ok!(e.encode_to_write_buf_async(&mut wb, again));
        assert!(wb.len() == 1 && wb.room() == 0 && !e.is_idle());
        let c0 = Cell::new(0);
        let w0 = waker(&c0);
        let r = wb.poll_flush(Pin::new(&mut s), &mut Context::from_waker(&w0));
        let woken = if other { c2.get() } else { c1.get() };
        assert!((woken >= 1) == (wb.room() > 0), "the task that waits last is woken once the room is back");
        witness!(wb.room() == 1 && other);
        witness!(wb.room() == 1 && !other);
        core::mem::forget((r, wb));
    }
    wake_sync [4] {
        let c1 = Cell::new(0);
        let w1 = waker(&c1);
        let mut cx1 = Context::from_waker(&w1);
        let v = nd::u16();
        let mut wb = WriteBuf::new([0u8; 1]);
        let mut e = U16beEncoder::new();
        ok!(e.start_encoding(v));
        ok!(e.encode_to_write_buf_async(&mut wb, &mut cx1));
        let mut out = One { got: 0, n: 0, block: nd::bool() };
        ok!(wb.flush(&mut out));
        assert!(out.n == if out.block { 0 } else { 1 });
        assert!((c1.get() >= 1) == (wb.room() > 0), "woken when the room is back");
        witness!(out.n == 1);
        core::mem::forget(wb);
    }
    encode_async [4] {
        let c1 = Cell::new(0);
        let w1 = waker(&c1);
        let mut cx1 = Context::from_waker(&w1);
        let v = nd::u16();
        let b = v.to_be_bytes();
        nd::cases(3, |room| {
            let mut space = [0u8; 3];
            let mut wb = WriteBuf::new(&mut space[..room]);
            let mut e = U16beEncoder::new();
            ok!(e.start_encoding(v));
            let closed = nd::bool();
            if closed {
                *wb.stream_state_mut() = StreamState::Eos;
            }
            let r = e.encode_to_write_buf_async(&mut wb, &mut cx1);
            if closed && room < 2 {
                err!(r, UnexpectedEos);
                assert!(wb.len() == 0);
            } else {
                ok!(r);
                let n = if room < 2 { room } else { 2 };
                assert!(wb.len() == n && wb.room() == room - n && e.is_idle() == (n == 2));
                let mut out = [0u8; 3];
                let mut sink = &mut out[..];
                ok!(wb.flush(&mut sink));
                assert!(n < 1 || out[0] == b[0]);
                assert!(n < 2 || out[1] == b[1]);
            }
            witness!(room == 1 && !closed);
            core::mem::forget(wb);
        });
    }
    execute [4] {
        let c1 = Cell::new(0);
        let w1 = waker(&c1);
        let mut cx1 = Context::from_waker(&w1);
        let data = nd::bytes8();
        nd::cases(1, |k| {
            let mut b = BufferedIo::new(Duplex::new(1, data), 1, 1);
            assert!(ok!(io::Write::write(b.write_buf_mut(), &data[..k])) == k);
            let r = Pin::new(&mut b).execute_io_poll(&mut cx1);
            let s = b.stream_ref();
            assert!(s.reads > 0 && (s.writes > 0) == (k > 0), "both directions are tried");
            let rpending = s.rlast == Outcome::Pending;
            let wpending = k > 0 && s.wlast == Outcome::Pending;
            let rfailed = s.rlast == Outcome::Failed;
            let wfailed = k > 0 && s.wlast == Outcome::Failed;
            match &r {
                Poll::Pending => assert!(rpending && wpending, "waits only if neither direction got anywhere"),
                Poll::Ready(Ok(())) => assert!(!rfailed && !wfailed && !(rpending && wpending)),
                Poll::Ready(Err(e)) => assert!(if rfailed { kind_is(e, s.rend) } else { wfailed && kind_is(e, s.wend) }),
            }
            assert!(b.read_buf_ref().len() == s.pos && b.write_buf_ref().len() == k - s.n);
            assert!(b.is_eos() == (s.rlast == Outcome::End || (k > 0 && s.wlast == Outcome::End)));
            witness!(rfailed && s.n == 1);
            witness!(k == 1 && r.is_pending());
            witness!(rpending && s.n == 1);
            core::mem::forget((r, b));
        });
    }
    /// Whatever became of the stream before, with room left in both buffers.
    execute_again [4] {
        let c1 = Cell::new(0);
        let w1 = waker(&c1);
        let mut cx1 = Context::from_waker(&w1);
        let data = nd::bytes8();
        nd::cases(1, |k| {
            let mut b = BufferedIo::new(Duplex::new(1, data), 1, 2);
            assert!(ok!(io::Write::write(b.write_buf_mut(), &data[..k])) == k);
            let any = |n: u8| match n {
                0 => StreamState::Normal,
                1 => StreamState::WouldBlock,
                2 => StreamState::Eos,
                _ => StreamState::Error,
            };
            let (x, y) = (nd::u8() % 4, nd::u8() % 4);
            *b.read_buf_mut().stream_state_mut() = any(x);
            *b.write_buf_mut().stream_state_mut() = any(y);
            let r = Pin::new(&mut b).execute_io_poll(&mut cx1);
            let s = b.stream_ref();
            assert!(s.reads > 0 && (s.writes > 0) == (k > 0), "both directions are tried");
            let rpending = s.rlast == Outcome::Pending;
            let wpending = k > 0 && s.wlast == Outcome::Pending;
            assert!(r.is_pending() == (rpending && wpending), "waits only if neither direction got anywhere");
            assert!(b.read_buf_ref().len() == s.pos && b.write_buf_ref().len() == k - s.n);
            witness!(y == 1 && k == 1 && s.n == 1 && rpending);
            core::mem::forget((r, b));
        });
    }
}
struct One {
    got: u8,
    n: usize,
    block: bool,
}
impl io::Write for One {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if self.block {
            return Err(io::ErrorKind::WouldBlock.into());
        }
        self.got = buf[0];
        self.n += 1;
        Ok(1)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
