//! C36: codecs written with the public helper macros behave like tuples.
use crate::util::prelude::*;
use bytecodec::{bytecodec_try_decode, bytecodec_try_encode};
use trackable::track; // the macros expand to it

#[derive(Default)]
struct ThreeDec {
    a: U8Decoder,
    b: U16beDecoder,
    c: U24leDecoder,
}
impl Decode for ThreeDec {
    type Item = (u8, u16, u32);
    fn decode(&mut self, buf: &[u8], eos: Eos) -> Result<usize> {
        let mut offset = 0;
        bytecodec_try_decode!(self.a, offset, buf, eos);
        bytecodec_try_decode!(self.b, offset, buf, eos, "second part");
        bytecodec_try_decode!(self.c, offset, buf, eos; offset);
        Ok(offset)
    }
    fn finish_decoding(&mut self) -> Result<Self::Item> {
        let a = self.a.finish_decoding()?;
        let b = self.b.finish_decoding()?;
        let c = self.c.finish_decoding()?;
        Ok((a, b, c))
    }
    fn requiring_bytes(&self) -> ByteCount {
        self.a
            .requiring_bytes()
            .add_for_decoding(self.b.requiring_bytes())
            .add_for_decoding(self.c.requiring_bytes())
    }
    fn is_idle(&self) -> bool {
        self.c.is_idle()
    }
}

#[derive(Default)]
struct ThreeEnc {
    a: U8Encoder,
    b: U16beEncoder,
    c: U24leEncoder,
}
impl Encode for ThreeEnc {
    type Item = (u8, u16, u32);
    fn encode(&mut self, buf: &mut [u8], eos: Eos) -> Result<usize> {
        let mut offset = 0;
        bytecodec_try_encode!(self.a, offset, buf, eos);
        bytecodec_try_encode!(self.b, offset, buf, eos, "second part");
        bytecodec_try_encode!(self.c, offset, buf, eos; offset);
        Ok(offset)
    }
    fn start_encoding(&mut self, (a, b, c): Self::Item) -> Result<()> {
        self.a.start_encoding(a)?;
        self.b.start_encoding(b)?;
        self.c.start_encoding(c)
    }
    fn requiring_bytes(&self) -> ByteCount {
        self.a
            .requiring_bytes()
            .add_for_encoding(self.b.requiring_bytes())
            .add_for_encoding(self.c.requiring_bytes())
    }
    fn is_idle(&self) -> bool {
        self.a.is_idle() && self.b.is_idle() && self.c.is_idle()
    }
}

fn tuple_dec() -> TupleDecoder<(U8Decoder, U16beDecoder, U24leDecoder)> {
    TupleDecoder::default()
}
fn tuple_enc() -> TupleEncoder<(U8Encoder, U16beEncoder, U24leEncoder)> {
    TupleEncoder::default()
}

harnesses! {
    /// Two calls with any cut, whatever follows the item, any announcement.
    decode [8] {
        let b = nd::bytes8();
        let e = any_open_eos();
        nd::cases(6, |i| {
            let (mut m, mut t) = (ThreeDec::default(), tuple_dec());
            assert!(m.requiring_bytes() == t.requiring_bytes());
            let n = ok!(m.decode(&b[..i], e));
            assert!(n == i && n == ok!(t.decode(&b[..i], e)));
            assert!(m.requiring_bytes() == ByteCount::Finite(6 - i as u64) && m.is_idle() == t.is_idle());
            assert!(ok!(m.decode(&b[i..], Eos::new(false))) == 6 - i && m.is_idle());
            assert!(ok!(t.decode(&b[i..], Eos::new(false))) == 6 - i && t.is_idle());
            let v = ok!(m.finish_decoding());
            assert!(v == ok!(t.finish_decoding()));
            assert!(v.0 == b[0] && v.1 == u16::from_be_bytes([b[1], b[2]]));
            assert!(v.2 == u32::from_le_bytes([b[3], b[4], b[5], 0]));
            witness!(i == 2);
        });
    }
    /// A stream that ends inside: the same verdict, with the same kind.
    truncated [8] {
        let b = nd::bytes8();
        nd::cases(6, |i| {
            let (mut m, mut t) = (ThreeDec::default(), tuple_dec());
            let r = m.decode(&b[..i], Eos::new(true));
            let s = t.decode(&b[..i], Eos::new(true));
            if i < 6 {
                err!(r, UnexpectedEos);
                err!(s, UnexpectedEos);
                assert!(!m.is_idle());
            } else {
                assert!(ok!(r) == 6 && ok!(s) == 6);
                assert!(ok!(m.finish_decoding()) == ok!(t.finish_decoding()));
            }
            witness!(i == 3);
        });
    }
    encode [10] {
        let v = (nd::u8(), nd::u16(), nd::u32() & 0xff_ffff);
        nd::cases(6, |i| {
            let (mut m, mut t) = (ThreeEnc::default(), tuple_enc());
            assert!(m.is_idle());
            ok!(m.start_encoding(v));
            ok!(t.start_encoding(v));
            let (mut x, mut y) = ([0u8; 8], [0u8; 8]);
            assert!(m.requiring_bytes() == ByteCount::Finite(6));
            assert!(ok!(m.encode(&mut x[..i], Eos::new(false))) == i);
            assert!(ok!(t.encode(&mut y[..i], Eos::new(false))) == i);
            assert!(m.requiring_bytes() == t.requiring_bytes() && m.is_idle() == t.is_idle());
            assert!(ok!(m.encode(&mut x[i..], Eos::new(true))) == 6 - i && m.is_idle());
            assert!(ok!(t.encode(&mut y[i..], Eos::new(true))) == 6 - i && t.is_idle());
            assert!(x == y && x[0] == v.0 && x[1..3] == v.1.to_be_bytes() && x[3..6] == v.2.to_le_bytes()[..3]);
            witness!(i == 4);
        });
    }
    /// A buffer that ends the stream too early, wherever that is.
    short_output [8] {
        let v = (nd::u8(), nd::u16(), nd::u32() & 0xff_ffff);
        nd::cases(6, |i| {
            let (mut m, mut t) = (ThreeEnc::default(), tuple_enc());
            ok!(m.start_encoding(v));
            ok!(t.start_encoding(v));
            let (mut x, mut y) = ([0u8; 8], [0u8; 8]);
            let r = m.encode(&mut x[..i], Eos::new(true));
            let s = t.encode(&mut y[..i], Eos::new(true));
            if i < 6 {
                err!(r, UnexpectedEos);
                err!(s, UnexpectedEos);
            } else {
                assert!(ok!(r) == 6 && ok!(s) == 6);
            }
            witness!(i == 0);
        });
    }
    /// Parts that stop before the end of the buffer: nothing after them is done.
    suspended [8] {
        nd::cases(2, |form| {
            let b = nd::bytes8();
            let (p, q) = (nd::upto(3) as u64, nd::upto(3) as u64);
            let mut a = U8Decoder::new();
            let mut m = U24beDecoder::new().slice();
            let mut z = U8Decoder::new();
            let mut run = |from: usize, budget: u64| -> Result<usize> {
                m.set_consumable_bytes(budget);
                let (buf, eos) = (&b[from..], Eos::new(false));
                let mut offset = 0;
                if form == 0 {
                    bytecodec_try_decode!(a, offset, buf, eos);
                    bytecodec_try_decode!(m, offset, buf, eos);
                } else if form == 1 {
                    bytecodec_try_decode!(a, offset, buf, eos, "a");
                    bytecodec_try_decode!(m, offset, buf, eos, "m");
                } else {
                    bytecodec_try_decode!(a, offset, buf, eos; offset);
                    bytecodec_try_decode!(m, offset, buf, eos; offset);
                }
                bytecodec_try_decode!(z, offset, buf, eos);
                Ok(offset)
            };
            let n = ok!(run(0, p));
            let at = if p == 3 { 5 } else { 1 + p as usize };
            assert!(n == at, "up to where the part stopped");
            let n = ok!(run(n, q));
            let p = p as usize;
            let q = if q as usize > 3 - p { 3 - p } else { q as usize };
            assert!(at + n == if p + q == 3 { 5 } else { 1 + p + q });
            assert!(z.is_idle() == (p + q == 3) && m.is_idle() == (p + q == 3));
            if p + q == 3 {
                assert!(ok!(m.finish_decoding()) == u32::from_be_bytes([0, b[1], b[2], b[3]]));
                assert!(ok!(z.finish_decoding()) == b[4]);
            }
            witness!(p == 1 && q == 1);
            witness!(p == 0 && q == 3);
        });
    }
    suspended_encoder [8] {
        nd::cases(2, |form| {
            let (p, q) = (nd::upto(3) as u64, nd::upto(3) as u64);
            let v = nd::u32() & 0xff_ffff;
            let mut a = U8Encoder::new();
            let mut m = U24beEncoder::new().slice();
            let mut z = U8Encoder::new();
            ok!(a.start_encoding(7));
            ok!(m.start_encoding(v));
            ok!(z.start_encoding(8));
            let mut run = |buf: &mut [u8], budget: u64| -> Result<usize> {
                m.set_consumable_bytes(budget);
                let eos = Eos::new(false);
                let mut offset = 0;
                if form == 0 {
                    bytecodec_try_encode!(a, offset, buf, eos);
                    bytecodec_try_encode!(m, offset, buf, eos);
                } else if form == 1 {
                    bytecodec_try_encode!(a, offset, buf, eos, "a");
                    bytecodec_try_encode!(m, offset, buf, eos, "m");
                } else {
                    bytecodec_try_encode!(a, offset, buf, eos; offset);
                    bytecodec_try_encode!(m, offset, buf, eos; offset);
                }
                bytecodec_try_encode!(z, offset, buf, eos);
                Ok(offset)
            };
            let mut out = [0u8; 8];
            let n = ok!(run(&mut out, p));
            assert!(n == if p == 3 { 5 } else { 1 + p as usize });
            let n = n + ok!(run(&mut out[n..], q));
            let done = p + q >= 3;
            assert!(n == if done { 5 } else { (1 + p + q) as usize });
            let w = v.to_be_bytes();
            let want = [7, w[1], w[2], w[3], 8];
            let mut i = 0;
            while i < 5 {
                assert!(i >= n || out[i] == want[i]);
                i += 1;
            }
            assert!(z.is_idle() == done);
            witness!(p == 1 && q == 1);
            witness!(p == 0 && q == 3);
        });
    }
    /// Parts of any size, none included; such a part is run in the same call.
    sizes [4] {
        let (x, y, z) = (nd::u64(), nd::u64(), nd::u64());
        let parts = || (Need::new(x).peekable(), Need::new(y).peekable(), Need::new(z).peekable());
        let (mut p, mut q, mut r) = parts();
        let mut t = TupleDecoder::new(parts());
        let b = [0u8; 4];
        let (i, e) = (nd::upto(4), any_open_eos());
        let mut run = |buf: &[u8], eos: Eos| -> Result<usize> {
            let mut offset = 0;
            bytecodec_try_decode!(p, offset, buf, eos);
            bytecodec_try_decode!(q, offset, buf, eos, "second part");
            bytecodec_try_decode!(r, offset, buf, eos; offset);
            Ok(offset)
        };
        let n = ok!(run(&b[..i], e));
        assert!(n == ok!(t.decode(&b[..i], e)));
        let total = x as u128 + y as u128 + z as u128;
        assert!(n as u128 == if (i as u128) < total { i as u128 } else { total });
        let i = n as u128;
        assert!(p.is_idle() == (i >= x as u128));
        assert!(q.is_idle() == (i >= x as u128 + y as u128));
        assert!(r.is_idle() == (i >= total) && t.is_idle() == r.is_idle(), "parts without bytes are done at once");
        if r.is_idle() {
            assert!(p.peek().is_some() && q.peek().is_some() && r.peek().is_some());
        }
        witness!(x == 2 && y == 0 && z == 2 && i == 3);
        witness!(x == 2 && y == 2 && z == 0 && i == 4);
        witness!(x == 0 && y == 0 && z == 0);
    }
    encode_sizes [4] {
        let (x, y, z) = (nd::u64(), nd::u64(), nd::u64());
        let (mut p, mut q, mut r) = (Emit::new(), Emit::new(), Emit::new());
        let mut t = TupleEncoder::new((Emit::new(), Emit::new(), Emit::new()));
        ok!(p.start_encoding(x));
        ok!(q.start_encoding(y));
        ok!(r.start_encoding(z));
        ok!(t.start_encoding((x, y, z)));
        let mut b = [0u8; 4];
        let (i, e) = (nd::upto(4), any_eos());
        let mut run = |buf: &mut [u8], eos: Eos| -> Result<usize> {
            let mut offset = 0;
            bytecodec_try_encode!(p, offset, buf, eos);
            bytecodec_try_encode!(q, offset, buf, eos, "second part");
            bytecodec_try_encode!(r, offset, buf, eos; offset);
            Ok(offset)
        };
        let n = run(&mut b[..i], e);
        let m = t.encode(&mut b[..i], e);
        let total = x as u128 + y as u128 + z as u128;
        if (i as u128) < total && e.is_reached() {
            err!(n, UnexpectedEos);
            err!(m, UnexpectedEos);
        } else {
            let n = ok!(n) as u128;
            assert!(n == ok!(m) as u128 && n == if (i as u128) < total { i as u128 } else { total });
            assert!(r.is_idle() == (n >= total) && t.is_idle() == r.is_idle(), "parts without bytes are done at once");
        }
        witness!(x == 2 && y == 0 && z == 2 && i == 3);
        witness!(x == 2 && y == 2 && z == 0 && i == 4);
        witness!(x == 0 && y == 0 && z == 0);
    }
}
