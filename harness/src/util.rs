//! Mock codecs, the codec catalogue and helpers shared by the harnesses.
use bytecodec::*;

/// A `Decode` mock: every item takes exactly `need` bytes (`need` may be any
/// u64, so limits beyond real buffers are reachable).  It never looks at the
/// bytes; it records what it was offered.  It follows the `Decode` contract.
pub struct Need {
    pub need: u64,
    pub got: u64,
    pub calls: u32,
    pub last_len: usize,
    pub last_eos: Option<Eos>,
    pub finished: u32,
}
impl Need {
    pub fn new(need: u64) -> Self {
        Need { need, got: 0, calls: 0, last_len: 0, last_eos: None, finished: 0 }
    }
}
impl Decode for Need {
    type Item = u64;
    fn decode(&mut self, buf: &[u8], eos: Eos) -> Result<usize> {
        self.calls += 1;
        self.last_len = buf.len();
        self.last_eos = Some(eos);
        let left = self.need - self.got;
        let n = if (buf.len() as u64) < left { buf.len() } else { left as usize };
        self.got += n as u64;
        if self.got < self.need && eos.is_reached() {
            return Err(ErrorKind::UnexpectedEos.into());
        }
        Ok(n)
    }
    fn finish_decoding(&mut self) -> Result<u64> {
        if self.got != self.need {
            return Err(ErrorKind::IncompleteDecoding.into());
        }
        self.got = 0;
        self.finished += 1;
        Ok(self.need)
    }
    fn requiring_bytes(&self) -> ByteCount {
        ByteCount::Finite(self.need - self.got)
    }
    fn is_idle(&self) -> bool {
        self.got == self.need
    }
}

/// A `Decode` mock whose item is everything up to the end of the stream; the
/// item is the number of bytes seen.
pub struct UntilEos {
    pub got: u64,
    pub eos: bool,
    pub last_len: usize,
    pub last_eos: Option<Eos>,
}
impl UntilEos {
    pub fn new() -> Self {
        UntilEos { got: 0, eos: false, last_len: 0, last_eos: None }
    }
}
impl Decode for UntilEos {
    type Item = u64;
    fn decode(&mut self, buf: &[u8], eos: Eos) -> Result<usize> {
        if self.eos {
            return Ok(0);
        }
        self.last_len = buf.len();
        self.last_eos = Some(eos);
        self.got += buf.len() as u64;
        self.eos = eos.is_reached();
        Ok(buf.len())
    }
    fn finish_decoding(&mut self) -> Result<u64> {
        if !self.eos {
            return Err(ErrorKind::IncompleteDecoding.into());
        }
        self.eos = false;
        let n = self.got;
        self.got = 0;
        Ok(n)
    }
    fn requiring_bytes(&self) -> ByteCount {
        if self.eos {
            ByteCount::Finite(0)
        } else {
            ByteCount::Infinite
        }
    }
}

/// An `Encode` mock: the item is the number of bytes it encodes to (any u64).
/// It writes 0x5A bytes and records what it was offered.
pub struct Emit {
    pub left: Option<u64>,
    pub calls: u32,
    pub last_len: usize,
    pub last_eos: Option<Eos>,
    pub started: u32,
}
impl Emit {
    pub fn new() -> Self {
        Emit { left: None, calls: 0, last_len: 0, last_eos: None, started: 0 }
    }
}
impl Encode for Emit {
    type Item = u64;
    fn encode(&mut self, buf: &mut [u8], eos: Eos) -> Result<usize> {
        self.calls += 1;
        self.last_len = buf.len();
        self.last_eos = Some(eos);
        match self.left {
            None => Ok(0),
            Some(left) => {
                let n = if (buf.len() as u64) < left { buf.len() } else { left as usize };
                let left = left - n as u64;
                self.left = if left == 0 { None } else { Some(left) };
                if left != 0 && eos.is_reached() {
                    return Err(ErrorKind::UnexpectedEos.into());
                }
                Ok(n)
            }
        }
    }
    fn start_encoding(&mut self, item: u64) -> Result<()> {
        if self.left.is_some() {
            return Err(ErrorKind::EncoderFull.into());
        }
        self.left = Some(item);
        self.started += 1;
        Ok(())
    }
    fn requiring_bytes(&self) -> ByteCount {
        ByteCount::Finite(self.exact_requiring_bytes())
    }
    fn is_idle(&self) -> bool {
        self.left.is_none()
    }
}
impl SizedEncode for Emit {
    fn exact_requiring_bytes(&self) -> u64 {
        self.left.unwrap_or(0)
    }
}

/// Any `ByteCount`.
pub fn any_byte_count() -> ByteCount {
    match crate::nd::u8() % 3 {
        0 => ByteCount::Finite(crate::nd::u64()),
        1 => ByteCount::Infinite,
        _ => ByteCount::Unknown,
    }
}
/// Any `Eos`.
pub fn any_eos() -> Eos {
    Eos::with_remaining_bytes(any_byte_count())
}
/// Any `Eos` that is not the end of the stream.
pub fn any_open_eos() -> Eos {
    let e = any_eos();
    crate::nd::assume(!e.is_reached());
    e
}

/// A heap-free collection of up to six items, so that `collect`/`collectn`
/// stay cheap to encode (scalar fields: CBMC mishandles an array with a
/// symbolic index inside an `Option` whose niche is elsewhere).
#[derive(Default, Clone, Copy, Debug, PartialEq)]
pub struct Acc {
    pub n: usize,
    x: (u64, u64, u64, u64, u64, u64),
}
impl Acc {
    pub fn push(&mut self, v: u64) {
        match self.n {
            0 => self.x.0 = v,
            1 => self.x.1 = v,
            2 => self.x.2 = v,
            3 => self.x.3 = v,
            4 => self.x.4 = v,
            5 => self.x.5 = v,
            _ => panic!("Acc is large enough for the harness"),
        }
        self.n += 1;
    }
    pub fn get(&self, i: usize) -> u64 {
        assert!(i < self.n);
        match i {
            0 => self.x.0,
            1 => self.x.1,
            2 => self.x.2,
            3 => self.x.3,
            4 => self.x.4,
            _ => self.x.5,
        }
    }
    /// The items (each below 2^16) and their number in one word.
    pub fn packed(&self) -> u64 {
        self.x.0 ^ self.x.1 << 8 ^ self.x.2 << 16 ^ (self.n as u64) << 24
    }
}
impl<T: Into<u64>> Extend<T> for Acc {
    fn extend<I: IntoIterator<Item = T>>(&mut self, iter: I) {
        for x in iter {
            self.push(x.into());
        }
    }
}

/// A `Decode` that keeps up to six bytes until the end of the stream, without
/// a heap: the content-preserving counterpart of `UntilEos`.
#[derive(Default)]
pub struct Tail {
    acc: Acc,
    // not a `bool`: CBMC normalises a merged `bool` to 0/1, which destroys the
    // niche an enclosing `Option` keeps in it
    eos: u8,
}
impl Decode for Tail {
    type Item = Acc;
    fn decode(&mut self, buf: &[u8], eos: Eos) -> Result<usize> {
        if self.eos == 1 {
            return Ok(0);
        }
        for &b in buf {
            self.acc.push(b as u64);
        }
        self.eos = eos.is_reached() as u8;
        Ok(buf.len())
    }
    fn finish_decoding(&mut self) -> Result<Acc> {
        if self.eos != 1 {
            return Err(ErrorKind::IncompleteDecoding.into());
        }
        let a = self.acc;
        *self = Tail::default();
        Ok(a)
    }
    fn requiring_bytes(&self) -> ByteCount {
        if self.eos == 1 {
            ByteCount::Finite(0)
        } else {
            ByteCount::Infinite
        }
    }
}

/// Declares one harness per catalogue entry: `f(make, input bytes, item length, name)`.
macro_rules! decoder_harnesses {
    ($f:ident; $($name:ident : $len:literal, |$b:ident| $prep:block, $mk:expr;)*) => {
        harnesses! { $($name [20] {
            let mut bytes = nd::bytes8();
            { let $b = &mut bytes; $prep }
            $f(|| $mk, bytes, $len, stringify!($name))
        })* }
    };
}

/// What the catalogue entries need in scope.
pub mod prelude {
    pub use super::*;
    pub use crate::nd;
    pub use bytecodec::bytes::*;
    pub use bytecodec::fixnum::*;
    pub use bytecodec::null::*;
    pub use bytecodec::padding::*;
    pub use bytecodec::tuple::*;
    pub use bytecodec::*;
}

/// Decoders whose item has a known length.
macro_rules! framed_decoders {
    ($m:ident, $f:ident) => {
        pub mod $m {
            use super::*;
            decoder_harnesses! { $f;
                u16be: 2, |_b| {}, U16beDecoder::new();
                u24le: 3, |_b| {}, U24leDecoder::new();
                bytes_array: 3, |_b| {}, BytesDecoder::new([0u8; 3]);
                copyable: 4, |_b| {}, CopyableBytesDecoder::new([0u8; 4]);
                tuple2: 3, |_b| {}, TupleDecoder::new((U16beDecoder::new(), U8Decoder::new()));
                tuple4: 4, |_b| {}, TupleDecoder::new((U8Decoder::new(), I8Decoder::new(), U8Decoder::new(), U8Decoder::new()));
                chain: 3, |_b| {}, U8Decoder::new().chain(U16leDecoder::new());
                length_tail: 3, |_b| {}, Tail::default().length(3);
                length_fixed: 2, |_b| {}, U16beDecoder::new().length(2);
                collectn: 4, |_b| {}, U16leDecoder::new().collectn::<Acc>(2);
                and_then_length: 3, |b| { b[0] = 2; }, U8Decoder::new().and_then(|n| Tail::default().length(n as u64));
                and_then_empty: 1, |b| { b[0] = 0; }, U8Decoder::new().and_then(|n| Tail::default().length(n as u64));
                peekable: 2, |_b| {}, U16beDecoder::new().peekable();
                maybe_eos: 2, |_b| {}, U16beDecoder::new().maybe_eos();
                max_bytes: 3, |_b| {}, U24beDecoder::new().max_bytes(100);
                boxed: 2, |_b| {}, { let d: Box<dyn Decode<Item = u16>> = Box::new(U16beDecoder::new()); d };
                nested: 5, |_b| {}, TupleDecoder::new((
                    U8Decoder::new(),
                    U8Decoder::new().collect::<Acc>().length(2),
                    U16beDecoder::new().peekable(),
                ));
            }
        }
    };
}
/// Further decoders with a known length (thorough tier).
macro_rules! framed_extra {
    ($m:ident, $f:ident) => {
        pub mod $m {
            use super::*;
            decoder_harnesses! { $f;
                u8_: 1, |_b| {}, U8Decoder::new();
                i16le: 2, |_b| {}, I16leDecoder::new();
                u40be: 5, |_b| {}, U40beDecoder::new();
                u56le: 7, |_b| {}, U56leDecoder::new();
                f32le: 4, |_b| {}, F32leDecoder::new().map(|v| v.to_bits());
                bytes_vec: 3, |_b| {}, BytesDecoder::new(vec![0u8; 3]);
                tuple3: 5, |_b| {}, TupleDecoder::new((U16beDecoder::new(), U8Decoder::new(), U16leDecoder::new()));
                tuple_null: 2, |_b| {}, TupleDecoder::new((U8Decoder::new(), NullDecoder, U8Decoder::new(), NullDecoder));
                length_remaining: 2, |_b| {}, RemainingBytesDecoder::new().length(2);
                length_collect: 4, |_b| {}, U16beDecoder::new().collect::<Acc>().length(4);
                length_padding: 3, |_b| {}, PaddingDecoder::new(None).length(3);
                collectn_bytes: 3, |_b| {}, U8Decoder::new().collectn::<Acc>(3);
                and_then_collectn: 3, |b| { b[0] = 1; }, U8Decoder::new().and_then(|n| U16beDecoder::new().collectn::<Acc>(n as usize));
                map: 2, |_b| {}, U16beDecoder::new().map(|v| v ^ 0x1234);
                map_err: 2, |_b| {}, U16beDecoder::new().map_err(|e| e);
                try_map: 2, |_b| {}, U16beDecoder::new().try_map(|v| -> Result<u16> { Ok(v) });
                not_omitted: 2, |_b| {}, U16beDecoder::new().omit(false);
                nested_map: 4, |b| { b[0] = 1; }, U8Decoder::new().and_then(|n| TupleDecoder::new((
                    U16beDecoder::new().omit(n != 1),
                    U8Decoder::new().map(|v| v as u16),
                )));
            }
        }
    };
}
/// Decoders whose item extends to the end of the stream.
macro_rules! eos_decoders {
    ($m:ident, $f:ident) => {
        pub mod $m {
            use super::*;
            decoder_harnesses! { $f;
                remaining: 3, |_b| {}, RemainingBytesDecoder::new();
                collect: 4, |_b| {}, U16beDecoder::new().collect::<Acc>();
                padding: 3, |_b| {}, PaddingDecoder::new(None);
                tuple_tail: 3, |_b| {}, TupleDecoder::new((U8Decoder::new(), Tail::default()));
                and_then_tail: 3, |_b| {}, U8Decoder::new().and_then(|n| Tail::default().map(move |t| (n, t)));
                peekable_tail: 3, |_b| {}, Tail::default().peekable();
            }
        }
    };
}
/// Further such decoders (thorough tier).
macro_rules! eos_extra {
    ($m:ident, $f:ident) => {
        pub mod $m {
            use super::*;
            decoder_harnesses! { $f;
                collect_bytes: 3, |_b| {}, U8Decoder::new().collect::<Vec<_>>();
                max_bytes: 3, |_b| {}, Tail::default().max_bytes(9);
                collectn_tail: 3, |_b| {}, Tail::default().map(|a| a.packed()).collectn::<Acc>(1);
                maybe_eos_tail: 3, |_b| {}, Tail::default().maybe_eos();
                collect_tail: 3, |_b| {}, Tail::default().map(|a| a.packed()).collect::<Acc>();
            }
        }
    };
}

/// Declares one harness per encoder: `f(make, item from bytes, bytes, encoded length, name)`.
macro_rules! encoder_harnesses {
    ($f:ident; $($name:ident : $len:literal, $mk:expr, |$b:ident| $item:expr;)*) => {
        harnesses! { $($name [20] {
            $f(|| $mk, |$b: &[u8; 8]| $item, nd::bytes8(), $len, stringify!($name))
        })* }
    };
}
/// Encoders that know the exact size of their item.
macro_rules! sized_encoders {
    ($m:ident, $f:ident) => {
        pub mod $m {
            use super::*;
            encoder_harnesses! { $f;
                u8_: 1, U8Encoder::new(), |b| b[0];
                u16be: 2, U16beEncoder::new(), |b| u16::from_be_bytes([b[0], b[1]]);
                u24le: 3, U24leEncoder::new(), |b| u32::from_le_bytes([b[0], b[1], b[2], 0]);
                bytes_vec: 3, BytesEncoder::<Vec<u8>>::new(), |b| b[..3].to_vec();
                utf8: 3, Utf8Encoder::<&'static str>::new(), |b| if b[0] < 9 { "abc" } else { "x\u{e9}" };
                tuple2: 3, TupleEncoder::new((U16beEncoder::new(), U8Encoder::new())), |b| (u16::from_be_bytes([b[0], b[1]]), b[2]);
                tuple4: 4, TupleEncoder::new((U8Encoder::new(), I8Encoder::new(), U8Encoder::new(), U8Encoder::new())), |b| (b[0], b[1] as i8, b[2], b[3]);
                chain: 3, U8Encoder::new().chain(U16leEncoder::new()), |b| (b[0], u16::from_le_bytes([b[1], b[2]]));
                length: 3, BytesEncoder::<[u8; 3]>::new().length(3), |b| [b[0], b[1], b[2]];
                optional: 2, U16beEncoder::new().optional(), |b| Some(u16::from_be_bytes([b[0], b[1]]));
                max_bytes: 3, BytesEncoder::<[u8; 3]>::new().max_bytes(20), |b| [b[0], b[1], b[2]];
                slice: 3, { let mut s = BytesEncoder::<[u8; 3]>::new().slice(); s.set_consumable_bytes(100); s }, |b| [b[0], b[1], b[2]];
                pre_encode: 2, U16beEncoder::new().pre_encode(), |b| u16::from_be_bytes([b[0], b[1]]);
                boxed: 2, { let e: Box<dyn SizedEncode<Item = u16>> = Box::new(U16beEncoder::new()); e }, |b| u16::from_be_bytes([b[0], b[1]]);
                try_map_from: 2, U16beEncoder::new().try_map_from(|v: u16| -> Result<u16> { Ok(v) }), |b| u16::from_be_bytes([b[0], b[1]]);
            }
        }
    };
}
/// Further sized encoders (thorough tier).
macro_rules! sized_extra {
    ($m:ident, $f:ident) => {
        pub mod $m {
            use super::*;
            encoder_harnesses! { $f;
                i16le: 2, I16leEncoder::new(), |b| i16::from_le_bytes([b[0], b[1]]);
                u40be: 5, U40beEncoder::new(), |b| u64::from_be_bytes([0, 0, 0, b[0], b[1], b[2], b[3], b[4]]);
                f64le: 8, F64leEncoder::new(), |b| f64::from_le_bytes(*b);
                bytes_array: 4, BytesEncoder::<[u8; 4]>::new(), |b| [b[0], b[1], b[2], b[3]];
                tuple3: 5, TupleEncoder::new((U16beEncoder::new(), U8Encoder::new(), U16leEncoder::new())), |b| (u16::from_be_bytes([b[0], b[1]]), b[2], u16::from_le_bytes([b[3], b[4]]));
                tuple_null: 2, TupleEncoder::new((U8Encoder::new(), NullEncoder, U8Encoder::new())), |b| (b[0], (), b[1]);
                tuple_optional: 2, TupleEncoder::new((U8Encoder::new(), U8Encoder::new().optional(), U8Encoder::new())), |b| (b[0], None, b[1]);
                map_from: 2, U16beEncoder::new().map_from(|v: u16| v ^ 0x55AA), |b| u16::from_be_bytes([b[0], b[1]]);
                map_err: 2, U16beEncoder::new().map_err(|e| e), |b| u16::from_be_bytes([b[0], b[1]]);
                nested: 5, TupleEncoder::new((U8Encoder::new(), U16beEncoder::new().length(2), BytesEncoder::<[u8; 2]>::new().pre_encode())), |b| (b[0], u16::from_be_bytes([b[1], b[2]]), [b[3], b[4]]);
                length_nested: 4, TupleEncoder::new((U8Encoder::new(), U24beEncoder::new())).length(4), |b| (b[0], u32::from_be_bytes([0, b[1], b[2], b[3]]));
            }
        }
    };
}
/// Encoders that do not know the size of their item.
macro_rules! unsized_encoders {
    ($m:ident, $f:ident) => {
        pub mod $m {
            use super::*;
            encoder_harnesses! { $f;
                repeat: 3, U8Encoder::new().repeat(), |b| Ints::new(*b, 3);
                repeat_tuple: 4, TupleEncoder::new((U8Encoder::new(), U8Encoder::new())).repeat(), |b| Pairs::new(*b, 2);
                monolithic: 3, bytecodec::monolithic::MonolithicEncoder::new(Mono), |b| [b[0], b[1], b[2]];
                length_padding: 3, PaddingEncoder::new().length(3), |b| b[0];
                tuple_repeat: 3, TupleEncoder::new((U8Encoder::new(), U8Encoder::new().repeat())), |b| (b[0], Ints::new(*b, 2));
            }
        }
    };
}

/// An iterator over the first bytes of an array.
pub struct Ints {
    b: [u8; 8],
    i: usize,
    n: usize,
}
impl Ints {
    pub fn new(b: [u8; 8], n: usize) -> Self {
        Ints { b, i: 0, n }
    }
}
impl Iterator for Ints {
    type Item = u8;
    fn next(&mut self) -> Option<u8> {
        if self.i < self.n {
            self.i += 1;
            Some(self.b[self.i - 1])
        } else {
            None
        }
    }
}
pub struct Pairs(Ints);
impl Pairs {
    pub fn new(b: [u8; 8], n: usize) -> Self {
        Pairs(Ints::new(b, 2 * n))
    }
}
impl Iterator for Pairs {
    type Item = (u8, u8);
    fn next(&mut self) -> Option<(u8, u8)> {
        let a = self.0.next();
        let b = self.0.next();
        match (a, b) {
            (Some(a), Some(b)) => Some((a, b)),
            _ => None,
        }
    }
}

/// A `MonolithicEncode` that writes three bytes in two pieces.
pub struct Mono;
impl bytecodec::monolithic::MonolithicEncode for Mono {
    type Item = [u8; 3];
    fn monolithic_encode<W: std::io::Write>(&self, item: &[u8; 3], mut w: W) -> Result<()> {
        put(&mut w, &item[..1])?;
        put(&mut w, &item[1..])
    }
}
/// `write_all` without the formatting machinery of its error path.
pub fn put<W: std::io::Write>(w: &mut W, mut b: &[u8]) -> Result<()> {
    while !b.is_empty() {
        match w.write(b) {
            Ok(0) | Err(_) => return Err(ErrorKind::Other.into()),
            Ok(n) => b = &b[n..],
        }
    }
    Ok(())
}

/// A `MonolithicDecode` whose item is the number of bytes it read.
pub struct ReadAll;
impl bytecodec::monolithic::MonolithicDecode for ReadAll {
    type Item = u64;
    fn monolithic_decode<R: std::io::Read>(&self, mut r: R) -> Result<u64> {
        let mut b = [0u8; 4];
        let mut n = 0;
        let mut calls = 0;
        while calls < 3 {
            calls += 1;
            match r.read(&mut b) {
                Ok(k) => n += k as u64,
                Err(_) => return Err(ErrorKind::Other.into()),
            }
        }
        Ok(n)
    }
}
