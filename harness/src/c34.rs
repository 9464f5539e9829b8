//! C34: an owned slice is its window, and byte codecs over it see only that.
use crate::util::prelude::*;
use bytecodec::slice::OwnedSlice;

harnesses! {
    window [8] {
        let b = nd::bytes4();
        nd::cases2(4, |i, j| {
            let mut s = OwnedSlice::new(b, i, j);
            assert!(s.start() == i && s.end() == j);
            assert!(AsRef::<[u8]>::as_ref(&s).len() == j - i);
            let mut k = 0;
            while k < j - i {
                assert!(AsRef::<[u8]>::as_ref(&s)[k] == b[i + k]);
                AsMut::<[u8]>::as_mut(&mut s)[k] ^= 0xff;
                k += 1;
            }
            assert!(s.as_mut().len() == j - i);
            assert!(s.inner_ref().len() == 4 && s.inner_mut().len() == 4);
            let c = s.into_inner();
            let mut k = 0;
            while k < 4 {
                assert!(c[k] == if k >= i && k < j { !b[k] } else { b[k] }, "nothing outside is touched");
                k += 1;
            }
            witness!(i == 1 && j == 3);
        });
    }
    /// Encoding writes the window, however it is cut.
    encode [8] {
        let b = nd::bytes4();
        nd::cases2(4, |i, j| {
            let n = j - i;
            let mut e = BytesEncoder::new();
            ok!(e.start_encoding(OwnedSlice::new(b, i, j)));
            assert!(e.exact_requiring_bytes() == n as u64);
            let cut = if n > 0 { 1 } else { 0 };
            let mut out = [0u8; 5];
            assert!(ok!(e.encode(&mut out[..cut], Eos::new(false))) == cut);
            assert!(ok!(e.encode(&mut out[cut..], Eos::new(true))) == n - cut && e.is_idle());
            let mut k = 0;
            while k < 5 {
                assert!(out[k] == if k < n { b[i + k] } else { 0 });
                k += 1;
            }
            witness!(i == 1 && j == 4);
        });
    }
    /// Decoding fills the window and leaves the rest of the storage alone.
    decode [8] {
        let (b, old) = (nd::bytes8(), nd::bytes4());
        nd::cases2(4, |i, j| {
            let n = j - i;
            let mut d = BytesDecoder::new(OwnedSlice::new(old, i, j));
            assert!(d.requiring_bytes() == ByteCount::Finite(n as u64));
            let cut = if n > 1 { 1 } else { 0 };
            assert!(ok!(d.decode(&b[..cut], Eos::new(false))) == cut);
            assert!(ok!(d.decode(&b[cut..6], Eos::new(false))) == n - cut && d.is_idle());
            let c = ok!(d.finish_decoding()).into_inner();
            let mut k = 0;
            while k < 4 {
                assert!(c[k] == if k >= i && k < j { b[k - i] } else { old[k] });
                k += 1;
            }
            witness!(i == 1 && j == 4);
        });
    }
    /// Continuing a partly filled buffer by moving the window.
    resume [8] {
        let (b, old) = (nd::bytes8(), nd::bytes4());
        nd::cases(4, |i| {
            let mut d = BytesDecoder::new(OwnedSlice::new(old, 0, i));
            assert!(ok!(d.decode(&b[..i], Eos::new(false))) == i);
            let s = ok!(d.finish_decoding());
            let mut d = BytesDecoder::new(OwnedSlice::new(s.into_inner(), i, 4));
            assert!(ok!(d.decode(&b[i..], Eos::new(false))) == 4 - i);
            let c = ok!(d.finish_decoding()).into_inner();
            assert!(c[0] == b[0] && c[1] == b[1] && c[2] == b[2] && c[3] == b[3]);
            witness!(i == 2);
        });
    }
}
