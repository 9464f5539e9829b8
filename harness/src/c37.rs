//! C37: a failing part fails whatever it is nested in, at once and with its own kind.
use crate::util::prelude::*;
use bytecodec::io::*;
use bytecodec::{bytecodec_try_decode, bytecodec_try_encode};
use std::cell::Cell;
use trackable::track; // the macros expand to it

fn any_kind() -> ErrorKind {
    match nd::u8() % 7 {
        0 => ErrorKind::InvalidInput,
        1 => ErrorKind::InconsistentState,
        2 => ErrorKind::UnexpectedEos,
        3 => ErrorKind::EncoderFull,
        4 => ErrorKind::DecoderTerminated,
        5 => ErrorKind::IncompleteDecoding,
        _ => ErrorKind::Other,
    }
}

/// A part that takes two bytes and fails once: at its first byte (0), after its
/// first byte (1), or when its item is taken (2).
#[derive(Clone, Copy)]
struct Fails {
    at: u8,
    kind: ErrorKind,
    got: u8,
    failed: u8,
}
impl Fails {
    fn new(at: usize, kind: ErrorKind) -> Self {
        Fails { at: at as u8, kind, got: 0, failed: 0 }
    }
    fn fail<T>(&mut self) -> Result<T> {
        self.failed += 1;
        Err(self.kind.into())
    }
}
impl Decode for Fails {
    type Item = u8;
    fn decode(&mut self, buf: &[u8], _: Eos) -> Result<usize> {
        if self.failed == 0 && self.got == self.at {
            return if self.got == 2 { Ok(0) } else { self.fail() };
        }
        // one byte more, then the failure (if any) is next
        let stop = if self.failed == 0 && self.at == 1 { 1 } else { 2 };
        let mut n = 0;
        while n < buf.len() && self.got < stop {
            self.got += 1;
            n += 1;
        }
        Ok(n)
    }
    fn finish_decoding(&mut self) -> Result<u8> {
        if self.got != 2 {
            return Err(ErrorKind::IncompleteDecoding.into());
        }
        if self.failed == 0 && self.at == 2 {
            return self.fail();
        }
        self.got = 0;
        Ok(9)
    }
    fn requiring_bytes(&self) -> ByteCount {
        if self.got == 2 {
            ByteCount::Finite(0)
        } else {
            ByteCount::Unknown
        }
    }
    fn is_idle(&self) -> bool {
        self.got == 2
    }
}

/// The failure comes out, with its kind, as soon as it happens.
/// `pre` and `post` are the bytes of the parts around the failing one; with
/// `retry` the wrapper goes on afterwards as if the failed call had not been.
fn decoder<D: Decode>(mk: impl Fn(Fails) -> D, pre: usize, post: usize, retry: bool, seen: impl Fn(&D) -> u8) {
    let buf = [0u8; 8];
    let total = pre + 2 + post;
    nd::cases(2, |at| {
        let kind = any_kind();
        let mut d = mk(Fails::new(at, kind));
        let first = nd::upto(total as u8);
        let eos = nd::bool();
        let mut off = 0;
        let mut failure = None;
        let mut step = 0;
        while step < 3 && failure.is_none() && !d.is_idle() {
            let last = step != 0;
            match d.decode(&buf[off..if last { total } else { first }], Eos::new(last && eos)) {
                Ok(n) => off += n,
                Err(e) => failure = Some(*e.kind()),
            }
            assert!(failure.is_some() || seen(&d) == 0, "a failure is not kept quiet");
            step += 1;
        }
        if failure.is_none() && d.is_idle() {
            match d.finish_decoding() {
                Ok(_) => panic!("an item in spite of the failure"),
                Err(e) => failure = Some(*e.kind()),
            }
        }
        assert!(failure == Some(kind), "the failure of the part, and its kind");
        assert!(seen(&d) <= 1);
        if retry && at < 2 {
            assert!(ok!(d.decode(&buf[off..total], Eos::new(false))) == total - off);
            assert!(d.is_idle());
            ok!(d.finish_decoding());
        }
        witness!(at == 0 && first == 0 && kind == ErrorKind::UnexpectedEos && eos);
        witness!(at == 1 && first == total);
        witness!(at == 2);
        core::mem::forget(d);
    });
}
fn u8d() -> U8Decoder {
    U8Decoder::new()
}

pub mod dec {
    use super::*;
    harnesses! {
        map [5] { decoder(|f| f.map(|x| x), 0, 0, true, |d| d.inner_ref().failed) }
        try_map [5] { decoder(|f| f.try_map(|x| -> Result<u8> { Ok(x) }), 0, 0, true, |d| d.inner_ref().failed) }
        boxed [5] { decoder(|f| Box::new(f), 0, 0, true, |d| d.failed) }
        length [5] {
            decoder(|f| f.length(2), 0, 0, true, |d| d.inner_ref().failed)
        }
        max_bytes [5] { decoder(|f| f.max_bytes(2), 0, 0, true, |d| d.inner_ref().failed) }
        slice [5] { decoder(|f| { let mut s = f.slice(); s.set_consumable_bytes(2); s }, 0, 0, true, |d| d.inner_ref().failed) }
        peekable [5] { decoder(|f| f.peekable(), 0, 0, true, |d| d.inner_ref().failed) }
        maybe_eos [5] { decoder(|f| f.maybe_eos(), 0, 0, true, |d| d.inner_ref().failed) }
        omit [5] { decoder(|f| f.omit(false), 0, 0, true, |d| d.inner_ref().failed) }
        nested [5] { decoder(|f| f.max_bytes(9).length(2).peekable().map(|x| x), 0, 0, true, |d| d.inner_ref().inner_ref().inner_ref().inner_ref().failed) }
        collectn [5] { decoder(|f| f.collectn::<Acc>(1), 0, 0, false, |d| d.inner_ref().failed) }
        collectn_two [5] { decoder(|f| f.collectn::<Acc>(2), 0, 2, false, |d| d.inner_ref().failed) }
        chain_first [5] { decoder(|f| f.chain(u8d()), 0, 1, false, |d| d.inner_ref().0.failed) }
        chain_second [5] { decoder(|f| u8d().chain(f), 1, 0, false, |d| d.inner_ref().1.failed) }
        tuple2_first [5] { decoder(|f| TupleDecoder::new((f, u8d())), 0, 1, false, |d| d.inner_ref().0.failed) }
        tuple3_middle [5] { decoder(|f| TupleDecoder::new((u8d(), f, u8d())), 1, 1, false, |d| d.inner_ref().1.failed) }
        tuple3_last [5] { decoder(|f| TupleDecoder::new((u8d(), u8d(), f)), 2, 0, false, |d| d.inner_ref().2.failed) }
        and_then_first [5] {
            let n = Cell::new(0);
            decoder(|f| { n.set(0); f.and_then(|x| { n.set(1); u8d().map(move |y| (x, y)) }) }, 0, 1, false, |_| SEEN);
            assert!(n.get() == 0, "no second part after a failed first one");
        }
        and_then_second [5] { decoder(|f| u8d().and_then(move |_| f), 1, 0, false, |_| SEEN) }
        /// Everything up to the end of the stream.
        collect [5] {
            let buf = [0u8; 4];
            nd::cases(2, |at| {
                let kind = any_kind();
                let mut d = Fails::new(at, kind).collect::<Acc>();
                let mut off = 0;
                let mut failure = None;
                let first = nd::upto(2);
                let eos = nd::bool();
                let mut step = 0;
                while step < 3 && failure.is_none() && !d.is_idle() {
                    let last = step != 0;
                    match d.decode(&buf[off..if last { 2 } else { first }], Eos::new(last && eos)) {
                        Ok(n) => off += n,
                        Err(e) => failure = Some(*e.kind()),
                    }
                    assert!(failure.is_some() || d.inner_ref().failed == 0, "a failure is not kept quiet");
                    step += 1;
                }
                assert!(failure == Some(kind), "the failure of the part, and its kind");
                witness!(at == 0 && kind == ErrorKind::UnexpectedEos && eos);
                witness!(at == 2);
            });
        }
        utf8 [5] {
            let mut f = Fails::new(nd::upto(2), any_kind());
            if f.at == 1 { f.at = 2; }
            let (at, kind) = (f.at, f.kind);
            let mut d = Utf8Decoder::with_bytes_decoder(f.map(|_| Vec::new()));
            let r = d.decode(&[0, 0], Eos::new(nd::bool()));
            if at == 0 {
                assert!(r.is_err_and(|e| *e.kind() == kind));
            } else {
                assert!(ok!(r) == 2);
                assert!(d.finish_decoding().is_err_and(|e| *e.kind() == kind));
            }
            witness!(at == 2 && kind == ErrorKind::Other);
        }
        macro_parts [5] {
            nd::cases(2, |form| {
                let kind = any_kind();
                let mut f = Fails::new(nd::upto(1), kind);
                let (mut a, mut tail) = (u8d(), u8d());
                let buf = [0u8; 6];
                let mut run = |from: usize| -> Result<usize> {
                    let eos = Eos::new(false);
                    let buf = &buf[from..];
                    let mut offset = 0;
                    if form == 0 {
                        bytecodec_try_decode!(a, offset, buf, eos);
                        bytecodec_try_decode!(f, offset, buf, eos);
                    } else if form == 1 {
                        bytecodec_try_decode!(a, offset, buf, eos, "a");
                        bytecodec_try_decode!(f, offset, buf, eos, "f");
                    } else {
                        bytecodec_try_decode!(a, offset, buf, eos; offset);
                        bytecodec_try_decode!(f, offset, buf, eos; offset);
                    }
                    bytecodec_try_decode!(tail, offset, buf, eos);
                    Ok(offset)
                };
                let r = match run(0) { Ok(n) => { assert!(n == 2); run(n) } e => e };
                assert!(r.is_err_and(|e| *e.kind() == kind));
                assert!(f.failed == 1 && !tail.is_idle(), "nothing after the failure");
                witness!(f.at == 1);
            });
        }
        decode_from_bytes [5] {
            let kind = any_kind();
            let at = if nd::bool() { 0 } else { 2 };
            let mut d = Fails::new(at, kind);
            assert!(d.decode_from_bytes(&[0, 0]).is_err_and(|e| *e.kind() == kind));
            witness!(at == 2 && kind == ErrorKind::IncompleteDecoding);
            witness!(at == 0 && kind == ErrorKind::UnexpectedEos);
        }
        decode_from_read_buf [5] {
            let kind = any_kind();
            let mut d = Fails::new(nd::upto(1), kind);
            let mut rb = ReadBuf::new([0u8; 4]);
            ok!(rb.fill(&[1u8, 2][..]));
            let mut r = d.decode_from_read_buf(&mut rb);
            if d.at == 1 {
                ok!(r);
                assert!(rb.len() == 1);
                r = d.decode_from_read_buf(&mut rb);
            }
            assert!(r.is_err_and(|e| *e.kind() == kind));
            assert!(rb.len() == if d.at == 1 { 1 } else { 2 }, "a failed call takes nothing");
            witness!(d.at == 1);
        }
    }
}
/// Stands for "not visible from outside".
const SEEN: u8 = 0;

/// A part that writes two bytes and fails once: when its item is given (0), at
/// its first byte (1), or after its first byte (2).
#[derive(Clone, Copy)]
struct Breaks {
    at: u8,
    kind: ErrorKind,
    left: u8,
    failed: u8,
    /// 1: its size is known
    sized: u8,
}
impl Breaks {
    fn new(at: usize, kind: ErrorKind) -> Self {
        Breaks { at: at as u8, kind, left: 0, failed: 0, sized: 0 }
    }
    fn fail<T>(&mut self) -> Result<T> {
        self.failed += 1;
        Err(self.kind.into())
    }
}
impl Encode for Breaks {
    type Item = u8;
    fn encode(&mut self, buf: &mut [u8], _: Eos) -> Result<usize> {
        let mut n = 0;
        while n < buf.len() && self.left > 0 {
            if self.failed == 0 && self.left + self.at == 3 {
                // bytes first, the failure in the next call
                return if n == 0 { self.fail() } else { Ok(n) };
            }
            buf[n] = 0x5A;
            self.left -= 1;
            n += 1;
        }
        Ok(n)
    }
    fn start_encoding(&mut self, _: u8) -> Result<()> {
        if self.left != 0 {
            return Err(ErrorKind::EncoderFull.into());
        }
        if self.failed == 0 && self.at == 0 {
            return self.fail();
        }
        self.left = 2;
        Ok(())
    }
    fn requiring_bytes(&self) -> ByteCount {
        if self.left == 0 || self.sized == 1 {
            ByteCount::Finite(self.left as u64)
        } else {
            ByteCount::Unknown
        }
    }
    fn is_idle(&self) -> bool {
        self.left == 0
    }
}

fn encoder<E: Encode>(mk: impl Fn(Breaks) -> E, item: impl Fn() -> E::Item, total: usize, retry: bool, seen: impl Fn(&E) -> u8) {
    nd::cases(2, |at| {
        let kind = any_kind();
        let mut e = mk(Breaks::new(at, kind));
        let first = nd::upto(total as u8);
        let eos = nd::bool();
        let mut out = [0u8; 8];
        let mut failure = e.start_encoding(item()).err().map(|e| *e.kind());
        assert!(failure.is_some() || seen(&e) == 0, "a failure is not kept quiet");
        let mut off = 0;
        let mut step = 0;
        while step < 3 && failure.is_none() {
            let last = step != 0;
            match e.encode(&mut out[off..if last { total } else { first }], Eos::new(last && eos)) {
                Ok(n) => off += n,
                Err(e) => failure = Some(*e.kind()),
            }
            assert!(failure.is_some() || seen(&e) == 0, "a failure is not kept quiet");
            step += 1;
        }
        assert!(failure == Some(kind), "the failure of the part, and its kind");
        if retry {
            if at == 0 {
                assert!(e.is_idle());
                ok!(e.start_encoding(item()));
            }
            assert!(ok!(e.encode(&mut out[off..], Eos::new(false))) == total - off && e.is_idle());
        }
        witness!(at == 0 && kind == ErrorKind::EncoderFull);
        witness!(at == 1 && first == 0 && kind == ErrorKind::UnexpectedEos && eos);
        witness!(at == 2 && first == total);
        core::mem::forget(e);
    });
}
fn u8e() -> U8Encoder {
    U8Encoder::new()
}

pub mod enc {
    use super::*;
    harnesses! {
        map_from [5] { encoder(|f| f.map_from(|x: u8| x), || 1, 2, true, |e| e.inner_ref().failed) }
        try_map_from [5] { encoder(|f| f.try_map_from(|x: u8| -> Result<u8> { Ok(x) }), || 1, 2, true, |e| e.inner_ref().failed) }
        boxed [5] { encoder(|f| Box::new(f), || 1, 2, true, |e| e.failed) }
        length [5] { encoder(|f| f.length(2), || 1, 2, true, |e| e.inner_ref().failed) }
        max_bytes [5] { encoder(|f| f.max_bytes(2), || 1, 2, true, |e| e.inner_ref().failed) }
        slice [5] { encoder(|f| { let mut s = f.slice(); s.set_consumable_bytes(2); s }, || 1, 2, true, |e| e.inner_ref().failed) }
        optional [5] { encoder(|f| f.optional(), || Some(1), 2, true, |e| e.inner_ref().failed) }
        nested [5] { encoder(|f| f.max_bytes(9).length(2).optional().map_from(|x| x), || Some(1), 2, true, |e| e.inner_ref().inner_ref().inner_ref().inner_ref().failed) }
        chain_first [5] { encoder(|f| f.chain(u8e()), || (1, 2), 3, false, |e| e.inner_ref().0.failed) }
        chain_second [5] { encoder(|f| u8e().chain(f), || (1, 2), 3, false, |e| e.inner_ref().1.failed) }
        tuple3_middle [5] { encoder(|f| TupleEncoder::new((u8e(), f, u8e())), || (1, 2, 3), 4, false, |e| e.inner_ref().1.failed) }
        tuple3_last [5] { encoder(|f| TupleEncoder::new((u8e(), u8e(), f)), || (1, 2, 3), 4, false, |e| e.inner_ref().2.failed) }
        repeat [5] { encoder(|f| f.repeat(), || Ints::new([1; 8], 2), 4, false, |e| e.inner_ref().failed) }
        /// The item of `last` is started while encoding.
        last [5] {
            nd::cases(2, |at| {
                let kind = any_kind();
                let mut e = Breaks::new(at, kind).last(1);
                let mut out = [0u8; 4];
                let first = nd::upto(2);
                let mut r = e.encode(&mut out[..first], Eos::new(false));
                let mut step = 0;
                while step < 2 && r.is_ok() {
                    assert!(e.inner_ref().failed == 0, "a failure is not kept quiet");
                    r = e.encode(&mut out, Eos::new(nd::bool()));
                    step += 1;
                }
                assert!(r.is_err_and(|e| *e.kind() == kind));
                assert!(e.inner_ref().failed == 1);
                witness!(at == 0 && first == 2);
                witness!(at == 2 && first == 1);
            });
        }
        pre_encode [5] {
            let (at, kind) = (nd::upto(2), any_kind());
            let mut e = Breaks::new(at, kind).pre_encode();
            assert!(e.start_encoding(1).is_err_and(|e| *e.kind() == kind), "at the start");
            assert!(e.is_idle());
            witness!(at == 2 && kind == ErrorKind::UnexpectedEos);
            core::mem::forget(e);
        }
        encode_into_bytes [5] {
            let (at, kind) = (nd::upto(2), any_kind());
            let mut e = Breaks::new(at, kind);
            assert!(e.encode_into_bytes(1).is_err_and(|e| *e.kind() == kind));
            witness!(at == 1 && kind == ErrorKind::Other);
        }
        encode_into_bytes_sized [5] {
            let (at, kind) = (nd::upto(1), any_kind());
            let mut e = Breaks::new(at, kind);
            e.sized = 1;
            assert!(e.encode_into_bytes(1).is_err_and(|e| *e.kind() == kind));
            witness!(at == 1 && kind == ErrorKind::Other);
        }
        encode_all [5] {
            let (at, kind) = (nd::upto(2), any_kind());
            let mut e = Breaks::new(at, kind);
            let mut out = [0u8; 4];
            let mut r = e.start_encoding(1);
            if at != 0 {
                ok!(r);
                r = e.encode_all(&mut out[..]);
                assert!((out[0] == 0x5A) == (at == 2) && out[1] == 0, "what was encoded before is written");
            }
            assert!(r.is_err_and(|e| *e.kind() == kind));
            witness!(at == 2 && kind == ErrorKind::UnexpectedEos);
        }
        macro_parts [5] {
            nd::cases(2, |form| {
                let kind = any_kind();
                let mut f = Breaks::new(nd::upto(1) + 1, kind);
                let (mut a, mut tail) = (u8e(), u8e());
                ok!(a.start_encoding(1));
                ok!(f.start_encoding(1));
                ok!(tail.start_encoding(1));
                let mut out = [0u8; 6];
                let mut run = |buf: &mut [u8]| -> Result<usize> {
                    let eos = Eos::new(false);
                    let mut offset = 0;
                    if form == 0 {
                        bytecodec_try_encode!(a, offset, buf, eos);
                        bytecodec_try_encode!(f, offset, buf, eos);
                    } else if form == 1 {
                        bytecodec_try_encode!(a, offset, buf, eos, "a");
                        bytecodec_try_encode!(f, offset, buf, eos, "f");
                    } else {
                        bytecodec_try_encode!(a, offset, buf, eos; offset);
                        bytecodec_try_encode!(f, offset, buf, eos; offset);
                    }
                    bytecodec_try_encode!(tail, offset, buf, eos);
                    Ok(offset)
                };
                let r = match run(&mut out) { Ok(n) => { assert!(n == 2); run(&mut out[2..]) } e => e };
                assert!(r.is_err_and(|e| *e.kind() == kind));
                assert!(f.failed == 1 && !tail.is_idle(), "nothing after the failure");
                witness!(f.at == 2);
            });
        }
        encode_to_write_buf [5] {
            let kind = any_kind();
            let mut e = Breaks::new(nd::upto(1) + 1, kind);
            ok!(e.start_encoding(1));
            let mut wb = WriteBuf::new([0u8; 4]);
            let mut r = e.encode_to_write_buf(&mut wb);
            if e.at == 2 {
                ok!(r);
                assert!(wb.len() == 1);
                r = e.encode_to_write_buf(&mut wb);
            }
            assert!(r.is_err_and(|e| *e.kind() == kind));
            assert!(wb.len() == if e.at == 2 { 1 } else { 0 }, "a failed call adds nothing");
            witness!(e.at == 2);
        }
    }
}
/// The kinds of I/O errors: an unexpected end of file is an unexpected end.
pub mod io_kinds {
    use super::*;
    use std::io::ErrorKind as K;
    const KINDS: [K; 20] = [
        K::UnexpectedEof, K::NotFound, K::PermissionDenied, K::ConnectionRefused, K::ConnectionReset, K::ConnectionAborted,
        K::NotConnected, K::AddrInUse, K::AddrNotAvailable, K::BrokenPipe, K::AlreadyExists, K::WouldBlock, K::InvalidInput,
        K::InvalidData, K::TimedOut, K::WriteZero, K::Interrupted, K::Unsupported, K::OutOfMemory, K::Other,
    ];
    harnesses! {
        convert [5] {
            let k = KINDS[nd::upto(19)];
            let e = Error::from(std::io::Error::from(k));
            let want = if k == K::UnexpectedEof { ErrorKind::UnexpectedEos } else { ErrorKind::Other };
            assert!(*e.kind() == want);
            witness!(k == K::UnexpectedEof);
            witness!(k == K::Other);
            core::mem::forget(e);
        }
        from_kind [5] {
            let k = any_kind();
            assert!(*Error::from(k).kind() == k);
            assert!(*Error::from(k).clone().kind() == k);
            witness!(k == ErrorKind::Other);
        }
    }
}
/// A part of two bytes that fails once, with its n-th item: when it is given or
/// taken (0), at its first byte (1) or between its bytes (2).
struct Nth {
    nth: u8,
    at: u8,
    kind: ErrorKind,
    item: u8,
    busy: u8,
    pos: u8,
    failed: u8,
}
impl Nth {
    fn new(nth: usize, at: usize, kind: ErrorKind) -> Self {
        Nth { nth: nth as u8, at: at as u8, kind, item: 0, busy: 0, pos: 0, failed: 0 }
    }
    fn now(&mut self, at: u8) -> bool {
        let yes = self.failed == 0 && self.item == self.nth && self.at == at;
        if yes {
            self.failed = 1;
        }
        yes
    }
}
impl Encode for Nth {
    type Item = u8;
    fn encode(&mut self, buf: &mut [u8], _: Eos) -> Result<usize> {
        let mut n = 0;
        while n < buf.len() && self.busy == 1 {
            if n == 0 && self.now(1 + self.pos) {
                return Err(self.kind.into());
            }
            if self.failed == 0 && self.item == self.nth && self.at == 1 + self.pos {
                return Ok(n);
            }
            buf[n] = self.item;
            n += 1;
            self.pos += 1;
            if self.pos == 2 {
                self.busy = 0;
                self.pos = 0;
                self.item += 1;
            }
        }
        Ok(n)
    }
    fn start_encoding(&mut self, _: u8) -> Result<()> {
        if self.busy == 1 {
            return Err(ErrorKind::EncoderFull.into());
        }
        if self.now(0) {
            return Err(self.kind.into());
        }
        self.busy = 1;
        Ok(())
    }
    fn requiring_bytes(&self) -> ByteCount {
        ByteCount::Finite(if self.busy == 1 { 2 - self.pos as u64 } else { 0 })
    }
    fn is_idle(&self) -> bool {
        self.busy == 0
    }
}
impl Decode for Nth {
    type Item = u8;
    fn decode(&mut self, buf: &[u8], _: Eos) -> Result<usize> {
        let mut n = 0;
        while n < buf.len() && self.pos < 2 {
            if n == 0 && self.now(1 + self.pos) {
                return Err(self.kind.into());
            }
            if self.failed == 0 && self.item == self.nth && self.at == 1 + self.pos {
                return Ok(n);
            }
            n += 1;
            self.pos += 1;
        }
        Ok(n)
    }
    fn finish_decoding(&mut self) -> Result<u8> {
        if self.pos < 2 {
            return Err(ErrorKind::IncompleteDecoding.into());
        }
        let bad = self.now(0);
        self.pos = 0;
        self.item += 1;
        if bad { Err(self.kind.into()) } else { Ok(self.item) }
    }
    fn requiring_bytes(&self) -> ByteCount {
        ByteCount::Finite(2 - self.pos as u64)
    }
    fn is_idle(&self) -> bool {
        self.pos == 2
    }
}
/// The second of two items fails, wherever the first call ends.
pub mod later {
    use super::*;
    fn decoder<D: Decode>(mk: impl Fn(Nth) -> D, seen: impl Fn(&D) -> u8) {
        let kind = any_kind();
        nd::cases(2, |at| nd::cases(2, |i| {
            let first = 1 + i;
            let mut d = mk(Nth::new(1, at, kind));
            let buf = [0u8; 4];
            let mut failure = None;
            let mut off = 0;
            let mut step = 0;
            while step < 4 && failure.is_none() {
                match d.decode(&buf[off..if step == 0 { first } else { 4 }], Eos::new(false)) {
                    Ok(n) => off += n,
                    Err(e) => failure = Some(*e.kind()),
                }
                assert!(failure.is_some() || seen(&d) == 0, "a failure is not kept quiet");
                step += 1;
            }
            assert!(failure == Some(kind), "the failure of the item, and its kind");
            assert!(!d.is_idle());
            witness!(at == 0 && first == 3);
            witness!(at == 1 && first == 2);
            core::mem::forget(d);
        }));
    }
    harnesses! {
        repeat [5] {
            let kind = any_kind();
            nd::cases(2, |at| nd::cases(2, |i| {
                let first = 1 + i;
                let mut e = Nth::new(1, at, kind).repeat();
                ok!(e.start_encoding(Ints::new([1; 8], 2)));
                let mut out = [9u8; 4];
                let mut failure = None;
                let mut off = 0;
                let mut step = 0;
                while step < 4 && failure.is_none() {
                    match e.encode(&mut out[off..if step == 0 { first } else { 4 }], Eos::new(false)) {
                        Ok(n) => off += n,
                        Err(e) => failure = Some(*e.kind()),
                    }
                    assert!(failure.is_some() || e.inner_ref().failed == 0, "a failure is not kept quiet");
                    step += 1;
                }
                assert!(failure == Some(kind), "the failure of the item, and its kind");
                witness!(at == 0 && first == 2);
                witness!(at == 2 && first == 3);
                core::mem::forget(e);
            }));
        }
        collect [5] { decoder(|d| d.collect::<Acc>(), |d| d.inner_ref().failed) }
        collectn [5] { decoder(|d| d.collectn::<Acc>(2), |d| d.inner_ref().failed) }
    }
}
tables!(dec, enc, later, io_kinds);
