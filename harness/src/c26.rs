//! C26: wrappers that only change items or errors pass everything else through.
use crate::util::prelude::*;

/// Answers every question with arbitrary values and notes what it was asked.
struct Spy {
    answer: std::result::Result<usize, ErrorKind>,
    item: std::result::Result<u8, ErrorKind>,
    req: ByteCount,
    idle: bool,
    exact: u64,
    start: std::result::Result<(), ErrorKind>,
    tag: std::result::Result<bool, ErrorKind>,
    calls: u32,
    len: usize,
    byte: u8,
    eos: Eos,
    started: u8,
}
fn any_kind() -> ErrorKind {
    match nd::u8() % 7 {
        0 => ErrorKind::InvalidInput,
        1 => ErrorKind::InconsistentState,
        2 => ErrorKind::UnexpectedEos,
        3 => ErrorKind::EncoderFull,
        4 => ErrorKind::DecoderTerminated,
        5 => ErrorKind::IncompleteDecoding,
        _ => ErrorKind::Other,
    }
}
fn any<T>(v: T) -> std::result::Result<T, ErrorKind> {
    if nd::bool() {
        Ok(v)
    } else {
        Err(any_kind())
    }
}
fn spy() -> Spy {
    Spy {
        answer: any(nd::u8() as usize),
        item: any(nd::u8()),
        req: any_byte_count(),
        idle: nd::bool(),
        exact: nd::u64(),
        start: any(()),
        tag: any(nd::bool()),
        calls: 0,
        len: 99,
        byte: 0,
        eos: Eos::new(false),
        started: 0,
    }
}
impl Decode for Spy {
    type Item = u8;
    fn decode(&mut self, buf: &[u8], eos: Eos) -> Result<usize> {
        self.calls += 1;
        self.len = buf.len();
        self.byte = buf[0];
        self.eos = eos;
        self.answer.map_err(|k| k.into())
    }
    fn finish_decoding(&mut self) -> Result<u8> {
        self.calls += 1;
        self.item.map_err(|k| k.into())
    }
    fn requiring_bytes(&self) -> ByteCount {
        self.req
    }
    fn is_idle(&self) -> bool {
        self.idle
    }
}
struct SpyE(Spy);
impl Encode for SpyE {
    type Item = u8;
    fn encode(&mut self, buf: &mut [u8], eos: Eos) -> Result<usize> {
        self.0.calls += 1;
        self.0.len = buf.len();
        self.0.byte = buf[0];
        self.0.eos = eos;
        buf[0] = 77;
        self.0.answer.map_err(|k| k.into())
    }
    fn start_encoding(&mut self, item: u8) -> Result<()> {
        self.0.calls += 1;
        self.0.started = item;
        self.0.start.map_err(|k| k.into())
    }
    fn requiring_bytes(&self) -> ByteCount {
        self.0.req
    }
    fn is_idle(&self) -> bool {
        self.0.idle
    }
}
impl SizedEncode for SpyE {
    fn exact_requiring_bytes(&self) -> u64 {
        self.0.exact
    }
}
impl TaggedDecode for Spy {
    type Tag = u8;
    fn start_decoding(&mut self, tag: u8) -> Result<()> {
        self.started = tag;
        self.start.map_err(|k| k.into())
    }
}
struct SpyT(Spy);
impl Decode for SpyT {
    type Item = u8;
    fn decode(&mut self, buf: &[u8], eos: Eos) -> Result<usize> {
        self.0.decode(buf, eos)
    }
    fn finish_decoding(&mut self) -> Result<u8> {
        self.0.finish_decoding()
    }
    fn requiring_bytes(&self) -> ByteCount {
        self.0.req
    }
}
impl TryTaggedDecode for SpyT {
    type Tag = u8;
    fn try_start_decoding(&mut self, tag: u8) -> Result<bool> {
        self.0.started = tag;
        self.0.tag.map_err(|k| k.into())
    }
}

/// Same success, or an error of the kind `f` makes of it.
fn same<T: PartialEq>(r: Result<T>, want: std::result::Result<T, ErrorKind>, f: impl Fn(ErrorKind) -> ErrorKind) {
    match (r, want) {
        (Ok(a), Ok(b)) => assert!(a == b, "the inner codec's answer"),
        (Err(e), Err(k)) => assert!(*e.kind() == f(k), "the inner codec's error"),
        _ => panic!("success instead of an error, or the reverse"),
    }
}
fn id(k: ErrorKind) -> ErrorKind {
    k
}
/// The decode half of a wrapper, except for the item.
fn decodes<D: Decode>(mut d: D, len: usize, b: u8, eos: Eos, f: impl Fn(ErrorKind) -> ErrorKind, want: std::result::Result<usize, ErrorKind>, req: ByteCount, idle: bool) -> D {
    let buf = [b, 0, 0];
    assert!(d.requiring_bytes() == req && d.is_idle() == idle);
    same(d.decode(&buf[..len], eos), want, f);
    d
}
fn saw(s: &Spy, len: usize, b: u8, eos: Eos, calls: u32) {
    assert!(s.calls == calls && s.len == len && s.byte == b && s.eos == eos, "the call is passed on as it is");
}
fn len() -> usize {
    if nd::bool() {
        1
    } else {
        3
    }
}
fn swap(k: ErrorKind) -> ErrorKind {
    if k == ErrorKind::Other {
        ErrorKind::InvalidInput
    } else {
        ErrorKind::Other
    }
}

harnesses! {
    reference_decoder [2] {
        let mut s = spy();
        let (l, b, e, a, r, i, item) = (len(), nd::u8(), any_eos(), s.answer, s.req, s.idle, s.item);
        let d = decodes(&mut s, l, b, e, id, a, r, i);
        same(d.finish_decoding(), item, id);
        saw(&s, l, b, e, 2);
        let t = nd::u8();
        let want = s.start;
        same((&mut s).start_decoding(t), want, id);
        assert!(s.started == t);
        witness!(a.is_ok() && item.is_err());
    }
    boxed_decoder [2] {
        let s = spy();
        let (l, b, e, a, r, i, item, want) = (len(), nd::u8(), any_eos(), s.answer, s.req, s.idle, s.item, s.start);
        let mut d = decodes(Box::new(s), l, b, e, id, a, r, i);
        same(d.finish_decoding(), item, id);
        saw(&d, l, b, e, 2);
        let t = nd::u8();
        same(d.start_decoding(t), want, id);
        assert!(d.started == t);
        witness!(a.is_err() && item.is_ok());
    }
    tagged [2] {
        let mut s = SpyT(spy());
        let (t, want) = (nd::u8(), s.0.tag);
        same((&mut s).try_start_decoding(t), want, id);
        assert!(s.0.started == t);
        let mut s = Box::new(s);
        same(s.try_start_decoding(t ^ 1), want, id);
        assert!(s.0.started == t ^ 1);
        witness!(want == Ok(true));
        witness!(want == Ok(false));
    }
    map [2] {
        let s = spy();
        let (l, b, e, a, r, i, item) = (len(), nd::u8(), any_eos(), s.answer, s.req, s.idle, s.item);
        let mut d = decodes(s.map(|x| x as u16 + 1000), l, b, e, id, a, r, i);
        same(d.finish_decoding(), item.map(|x| x as u16 + 1000), id);
        saw(d.inner_ref(), l, b, e, 2);
        assert!(d.inner_mut().calls == 2 && d.into_inner().calls == 2);
        witness!(item == Ok(7));
    }
    try_map [2] {
        let s = spy();
        let (l, b, e, a, r, i, item) = (len(), nd::u8(), any_eos(), s.answer, s.req, s.idle, s.item);
        let f = |x: u8| if x % 2 == 0 { Ok(x as u16 + 1000) } else { Err(Error::from(ErrorKind::DecoderTerminated)) };
        let mut d = decodes(s.try_map(f), l, b, e, id, a, r, i);
        let want = match item {
            Ok(x) if x % 2 == 0 => Ok(x as u16 + 1000),
            Ok(_) => Err(ErrorKind::DecoderTerminated),
            Err(k) => Err(k),
        };
        same(d.finish_decoding(), want, id);
        saw(d.inner_ref(), l, b, e, 2);
        assert!(d.inner_mut().calls == 2 && d.into_inner().calls == 2);
        witness!(item == Ok(7));
        witness!(item == Ok(8));
    }
    map_err_decoder [2] {
        let s = spy();
        let (l, b, e, a, r, i, item) = (len(), nd::u8(), any_eos(), s.answer, s.req, s.idle, s.item);
        let mut d = decodes(s.map_err(|e| -> Error { swap(*e.kind()).into() }), l, b, e, swap, a, r, i);
        same(d.finish_decoding(), item, swap);
        saw(d.inner_ref(), l, b, e, 2);
        assert!(d.inner_mut().calls == 2 && d.into_inner().calls == 2);
        witness!(item == Err(ErrorKind::Other) && a.is_ok());
    }
    reference_encoder [2] {
        let mut s = SpyE(spy());
        let (l, b, eos, want, req, idle, exact, st) = (len(), nd::u8(), any_eos(), s.0.answer, s.0.req, s.0.idle, s.0.exact, s.0.start);
        let mut buf = [b, 0, 0];
        let mut d = &mut s;
        assert!(Encode::requiring_bytes(&d) == req && Encode::is_idle(&d) == idle && SizedEncode::exact_requiring_bytes(&d) == exact);
        same(Encode::encode(&mut d, &mut buf[..l], eos), want, id);
        let item = nd::u8();
        same(Encode::start_encoding(&mut d, item), st, id);
        saw(&s.0, l, b, eos, 2);
        assert!(buf[0] == 77 && s.0.started == item);
        witness!(want.is_err() && st.is_ok());
    }
    boxed_encoder [2] {
        let s = SpyE(spy());
        let (l, b, eos, want, req, idle, exact, st) = (len(), nd::u8(), any_eos(), s.0.answer, s.0.req, s.0.idle, s.0.exact, s.0.start);
        let mut buf = [b, 0, 0];
        let mut d = Box::new(s);
        assert!(Encode::requiring_bytes(&d) == req && Encode::is_idle(&d) == idle && SizedEncode::exact_requiring_bytes(&d) == exact);
        same(Encode::encode(&mut d, &mut buf[..l], eos), want, id);
        let item = nd::u8();
        same(Encode::start_encoding(&mut d, item), st, id);
        saw(&d.0, l, b, eos, 2);
        assert!(buf[0] == 77 && d.0.started == item);
        witness!(want.is_ok() && st.is_err());
    }
    map_from [2] {
        let s = SpyE(spy());
        let (l, b, eos, want, req, idle, exact, st) = (len(), nd::u8(), any_eos(), s.0.answer, s.0.req, s.0.idle, s.0.exact, s.0.start);
        let mut buf = [b, 0, 0];
        let mut d = s.map_from(|x: u16| (x >> 8) as u8);
        assert!(d.requiring_bytes() == req && d.is_idle() == idle && d.exact_requiring_bytes() == exact);
        same(d.encode(&mut buf[..l], eos), want, id);
        let item = nd::u16();
        same(d.start_encoding(item), st, id);
        saw(&d.inner_ref().0, l, b, eos, 2);
        assert!(buf[0] == 77 && d.inner_mut().0.started == (item >> 8) as u8 && d.into_inner().0.calls == 2);
        witness!(want.is_ok() && st.is_err());
    }
    try_map_from [2] {
        let s = SpyE(spy());
        let (l, b, eos, want, req, idle, exact, st) = (len(), nd::u8(), any_eos(), s.0.answer, s.0.req, s.0.idle, s.0.exact, s.0.start);
        let mut buf = [b, 0, 0];
        let mut d = s.try_map_from(|x: u16| if x < 256 { Ok(x as u8) } else { Err(Error::from(ErrorKind::InvalidInput)) });
        assert!(d.requiring_bytes() == req && d.is_idle() == idle && d.exact_requiring_bytes() == exact);
        same(d.encode(&mut buf[..l], eos), want, id);
        let item = nd::u16();
        let r = d.start_encoding(item);
        if item < 256 {
            same(r, st, id);
            saw(&d.inner_ref().0, l, b, eos, 2);
            assert!(d.inner_mut().0.started == item as u8);
        } else {
            err!(r, InvalidInput);
            saw(&d.inner_ref().0, l, b, eos, 1);
        }
        assert!(buf[0] == 77);
        let _ = d.into_inner();
        witness!(item == 255 && st.is_ok());
        witness!(item == 256);
    }
    map_err_encoder [2] {
        let s = SpyE(spy());
        let (l, b, eos, want, req, idle, exact, st) = (len(), nd::u8(), any_eos(), s.0.answer, s.0.req, s.0.idle, s.0.exact, s.0.start);
        let mut buf = [b, 0, 0];
        let mut d = s.map_err(|e| -> Error { swap(*e.kind()).into() });
        assert!(d.requiring_bytes() == req && d.is_idle() == idle && d.exact_requiring_bytes() == exact);
        same(d.encode(&mut buf[..l], eos), want, swap);
        let item = nd::u8();
        same(d.start_encoding(item), st, swap);
        saw(&d.inner_ref().0, l, b, eos, 2);
        assert!(buf[0] == 77 && d.inner_mut().0.started == item && d.into_inner().0.calls == 2);
        witness!(want.is_err() && st.is_err());
    }
}
