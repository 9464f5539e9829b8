//! C22: blocking encoding writes everything out, in order.
use crate::io_mock::*;
use crate::util::prelude::*;
use bytecodec::io::*;
use std::io;

const CALLS: u32 = 3;
/// Takes any part of what it is given, or fails at some call.
struct Drain {
    n: u64,
    calls: u32,
    fail_at: u32,
    /// This call takes nothing at all; later ones may.
    zero_at: u32,
    partial: bool,
}
impl io::Write for Drain {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let c = self.calls;
        self.calls += 1;
        nd::assume(c < CALLS);
        if c == self.fail_at {
            return Err(io::ErrorKind::BrokenPipe.into());
        }
        if c == self.zero_at {
            return Ok(0);
        }
        let n = if self.partial {
            let n = nd::u16() as usize;
            nd::assume(n >= 1 && n <= buf.len());
            n
        } else {
            buf.len()
        };
        self.n += n as u64;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
/// Only counts what it would write.
struct Big {
    left: u64,
    asked: u32,
}
impl Encode for Big {
    type Item = u64;
    fn encode(&mut self, buf: &mut [u8], eos: Eos) -> Result<usize> {
        self.asked += 1;
        assert!(!eos.is_reached());
        let n = if (buf.len() as u64) < self.left { buf.len() } else { self.left as usize };
        self.left -= n as u64;
        Ok(n)
    }
    fn start_encoding(&mut self, n: u64) -> Result<()> {
        self.left = n;
        Ok(())
    }
    fn requiring_bytes(&self) -> ByteCount {
        ByteCount::Finite(self.left)
    }
}

fn all_or_error(e: &mut Big, n: u64, w: &mut Drain) {
    match e.encode_all(&mut *w) {
        Ok(()) => assert!(w.n == n && e.is_idle() && w.calls <= w.fail_at, "everything is written"),
        Err(x) => assert!(*x.kind() == ErrorKind::Other && w.calls == w.fail_at + 1, "a failed write is reported"),
    }
}

harnesses! {
    sizes [4] {
        let n = nd::u64();
        nd::assume(n <= 3000);
        let mut e = Big { left: n, asked: 0 };
        let mut w = Drain { n: 0, calls: 0, fail_at: u32::MAX, zero_at: u32::MAX, partial: false };
        if nd::bool() {
            w.fail_at = nd::u8() as u32 % 3;
        }
        all_or_error(&mut e, n, &mut w);
        witness!(n == 3000 && w.n == 3000);
        witness!(n == 0);
        witness!(w.calls == 2 && w.fail_at == 1);
    }
    short_writes [4] {
        let n = nd::u64();
        nd::assume(n <= 1024);
        let mut e = Big { left: n, asked: 0 };
        let mut w = Drain { n: 0, calls: 0, fail_at: u32::MAX, zero_at: u32::MAX, partial: true };
        all_or_error(&mut e, n, &mut w);
        witness!(n == 1000 && w.n == 1000 && w.calls == 3);
    }
    short_writes_beyond_a_block [4] {
        let n = nd::u64();
        nd::assume(n > 1024 && n <= 2000);
        let mut e = Big { left: n, asked: 0 };
        let mut w = Drain { n: 0, calls: 0, fail_at: u32::MAX, zero_at: u32::MAX, partial: true };
        all_or_error(&mut e, n, &mut w);
        witness!(n == 1500 && w.n == 1500 && w.calls == 3);
    }
    /// A writer that takes nothing more is reported: nothing is dropped silently.
    full_sink [4] {
        let n = nd::u64();
        nd::assume(n > 0 && n <= 2000);
        let mut e = Big { left: n, asked: 0 };
        let mut w = Drain { n: 0, calls: 0, fail_at: u32::MAX, zero_at: nd::u8() as u32 % 2, partial: false };
        match e.encode_all(&mut w) {
            Ok(()) => assert!(w.n == n && e.is_idle(), "everything is written"),
            Err(x) => assert!(*x.kind() == ErrorKind::Other && w.calls > w.zero_at, "refused bytes are an error"),
        }
        witness!(w.zero_at == 0 && w.calls == 1);
        witness!(w.zero_at == 1 && w.calls == 2);
        witness!(w.n == n && n == 900);
    }
    content [6] {
        let b = nd::bytes8();
        let mut e = TupleEncoder::new((U8Encoder::new(), BytesEncoder::<[u8; 3]>::new()));
        ok!(e.start_encoding((b[0], [b[1], b[2], b[3]])));
        let mut sink = Sink::new(4, b);
        match e.encode_all(&mut sink) {
            Ok(()) => assert!(sink.n == 4 && e.is_idle()),
            Err(x) => {
                assert!(sink.last != Outcome::Bytes);
                let end = sink.last == Outcome::Failed && sink.kind == Some(io::ErrorKind::UnexpectedEof);
                assert!(*x.kind() == if end { ErrorKind::UnexpectedEos } else { ErrorKind::Other });
            }
        }
        witness!(sink.n == 4 && sink.calls == 3);
        witness!(sink.n == 2 && sink.last == Outcome::End);
    }
    nothing_to_do [6] {
        let mut sink = Sink::new(1, [0; 8]);
        ok!(U8Encoder::new().encode_all(&mut sink));
        ok!(NullEncoder.encode_all(&mut sink));
        let mut e = U8Encoder::new().optional();
        ok!(e.start_encoding(None));
        ok!(e.encode_all(&mut sink));
        assert!(sink.calls == 0);
        witness!(true);
    }
    /// An encoder that makes no progress is an error, not an endless loop.
    suspended [4] {
        let budget = nd::u64();
        let n = nd::u64();
        nd::assume(n > 0 && n <= 2000);
        let mut e = Emit8 { left: n }.slice();
        e.set_consumable_bytes(budget);
        let mut w = Drain { n: 0, calls: 0, fail_at: u32::MAX, zero_at: u32::MAX, partial: false };
        let r = e.encode_all(&mut w);
        if budget >= n {
            assert!(r.is_ok() && w.n == n && e.is_idle());
        } else {
            err!(r, Other);
            assert!(w.n == budget, "what could be produced was written");
            assert!(e.exact_requiring_bytes() == n - budget);
        }
        witness!(budget == 1500 && n == 2000);
        witness!(budget == 0);
    }
}
/// Only counts.
struct Emit8 {
    left: u64,
}
impl Encode for Emit8 {
    type Item = ();
    fn encode(&mut self, buf: &mut [u8], _: Eos) -> Result<usize> {
        let n = if (buf.len() as u64) < self.left { buf.len() } else { self.left as usize };
        self.left -= n as u64;
        Ok(n)
    }
    fn start_encoding(&mut self, _: ()) -> Result<()> {
        Ok(())
    }
    fn requiring_bytes(&self) -> ByteCount {
        ByteCount::Finite(self.left)
    }
}
impl SizedEncode for Emit8 {
    fn exact_requiring_bytes(&self) -> u64 {
        self.left
    }
}
