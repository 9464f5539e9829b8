//! C01: wire layout and round trip of the fixed-width number codecs.
use crate::nd;
use bytecodec::fixnum::*;
use bytecodec::{Decode, Encode, Eos, SizedEncode};

/// Reference: the number a byte string denotes, as an unsigned integer.
fn be(b: &[u8]) -> u64 {
    let mut v = 0u64;
    let mut i = 0;
    while i < b.len() {
        v = (v << 8) | b[i] as u64;
        i += 1;
    }
    v
}
fn le(b: &[u8]) -> u64 {
    let mut v = 0u64;
    let mut i = b.len();
    while i > 0 {
        i -= 1;
        v = (v << 8) | b[i] as u64;
    }
    v
}

/// All values of one codec pair: bytes -> item -> bytes.
fn layout<D, E, T, const N: usize>(
    mut dec: D,
    mut enc: E,
    reference: fn(&[u8]) -> u64,
    bits: fn(&T) -> u64,
) where
    D: Decode<Item = T>,
    E: Encode<Item = T> + SizedEncode,
{
    let raw = nd::bytes8();
    let mut b = [0u8; N];
    b.copy_from_slice(&raw[..N]);

    let n = ok!(dec.decode(&b, Eos::new(false)));
    assert!(n == N, "a complete number is consumed in one call");
    assert!(dec.is_idle());
    let item = ok!(dec.finish_decoding());
    let mask = if N == 8 { u64::MAX } else { (1u64 << (8 * N)) - 1 };
    assert!(
        bits(&item) & mask == reference(&b),
        "the decoded value has the documented byte order and width"
    );

    ok!(enc.start_encoding(item));
    assert!(!enc.is_idle());
    assert!(enc.exact_requiring_bytes() == N as u64);
    let mut out = [0xA5u8; 9];
    let m = ok!(enc.encode(&mut out[..], Eos::new(false)));
    assert!(m == N && enc.is_idle(), "the number is written in full");
    let mut i = 0;
    while i < N {
        assert!(out[i] == b[i], "the encoded bytes are the ones it was decoded from");
        i += 1;
    }
    while i < 9 {
        assert!(out[i] == 0xA5, "nothing is written past the number");
        i += 1;
    }
    witness!(b[0] > 0x7f && (N == 1 || b[N - 1] == 1));
}

fn sx(v: u64, bits: u32) -> i64 {
    ((v << (64 - bits)) as i64) >> (64 - bits)
}

macro_rules! pair {
    ($n:literal, $be_d:ident, $be_e:ident, $le_d:ident, $le_e:ident, $t:ty, $bits:expr) => {{
        if nd::bool() {
            layout::<_, _, $t, $n>($be_d::new(), $be_e::new(), be, $bits);
        } else {
            layout::<_, _, $t, $n>($le_d::new(), $le_e::new(), le, $bits);
        }
    }};
}

harnesses! {
    u8_i8 [12] {
        if nd::bool() {
            layout::<_, _, u8, 1>(U8Decoder::new(), U8Encoder::new(), be, |v| *v as u64);
        } else {
            layout::<_, _, i8, 1>(I8Decoder::new(), I8Encoder::new(), be, |v| {
                assert!(*v as i64 == sx(*v as u8 as u64, 8));
                *v as u8 as u64
            });
        }
    }
    u16_ [12] { pair!(2, U16beDecoder, U16beEncoder, U16leDecoder, U16leEncoder, u16, |v| *v as u64) }
    i16_ [12] { pair!(2, I16beDecoder, I16beEncoder, I16leDecoder, I16leEncoder, i16, |v| *v as u16 as u64) }
    u24_ [12] { pair!(3, U24beDecoder, U24beEncoder, U24leDecoder, U24leEncoder, u32, |v| { assert!(*v < 1 << 24); *v as u64 }) }
    u32_ [12] { pair!(4, U32beDecoder, U32beEncoder, U32leDecoder, U32leEncoder, u32, |v| *v as u64) }
    i32_ [12] { pair!(4, I32beDecoder, I32beEncoder, I32leDecoder, I32leEncoder, i32, |v| *v as u32 as u64) }
    u40_ [12] { pair!(5, U40beDecoder, U40beEncoder, U40leDecoder, U40leEncoder, u64, |v| { assert!(*v < 1 << 40); *v }) }
    u48_ [12] { pair!(6, U48beDecoder, U48beEncoder, U48leDecoder, U48leEncoder, u64, |v| { assert!(*v < 1 << 48); *v }) }
    u56_ [12] { pair!(7, U56beDecoder, U56beEncoder, U56leDecoder, U56leEncoder, u64, |v| { assert!(*v < 1 << 56); *v }) }
    u64_ [12] { pair!(8, U64beDecoder, U64beEncoder, U64leDecoder, U64leEncoder, u64, |v| *v) }
    i64_ [12] { pair!(8, I64beDecoder, I64beEncoder, I64leDecoder, I64leEncoder, i64, |v| *v as u64) }
    f32_ [12] { pair!(4, F32beDecoder, F32beEncoder, F32leDecoder, F32leEncoder, f32, |v| v.to_bits() as u64) }
    f64_ [12] { pair!(8, F64beDecoder, F64beEncoder, F64leDecoder, F64leEncoder, f64, |v| v.to_bits()) }
}
