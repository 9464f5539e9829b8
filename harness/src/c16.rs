//! C16: collecting a stream of items keeps all of them, in order, and no more.
use crate::util::prelude::*;

/// An item of `need` bytes whose value is its 1-based number.
struct Numbered {
    inner: Need,
    next: u64,
}
impl Numbered {
    fn new(need: u64) -> Self {
        Numbered { inner: Need::new(need), next: 1 }
    }
}
impl Decode for Numbered {
    type Item = u64;
    fn decode(&mut self, buf: &[u8], eos: Eos) -> Result<usize> {
        self.inner.decode(buf, eos)
    }
    fn finish_decoding(&mut self) -> Result<u64> {
        self.inner.finish_decoding()?;
        self.next += 1;
        Ok(self.next - 1)
    }
    fn requiring_bytes(&self) -> ByteCount {
        self.inner.requiring_bytes()
    }
    fn is_idle(&self) -> bool {
        self.inner.is_idle()
    }
}
fn numbered(a: &Acc, n: usize) {
    assert!(a.n == n, "no item is lost or invented");
    let mut i = 0;
    while i < n {
        assert!(a.get(i) == i as u64 + 1, "the items are in order");
        i += 1;
    }
}

/// Counts numbered items.
#[derive(Default)]
struct Tally {
    n: u64,
    disorder: bool,
}
impl Extend<u64> for Tally {
    fn extend<I: IntoIterator<Item = u64>>(&mut self, iter: I) {
        for x in iter {
            self.n += 1;
            if x != self.n {
                self.disorder = true;
            }
        }
    }
}

harnesses! {
    /// All streams of up to 6 bytes, items of 1 to 4 bytes, any cut.
    collect [14] {
        let buf = [0u8; 8];
        nd::cases(3, |w| nd::cases(6, |len| {
            let width = w + 1;
            nd::cases(1, |cut| {
                let i = if cut == 0 { len / 2 } else if len > 0 { len - 1 } else { 0 };
                let mut d = Numbered::new(width as u64).collect::<Acc>();
                assert!(ok!(d.decode(&buf[..i], Eos::new(false))) == i, "everything is consumed");
                assert!(!d.is_idle());
                let r = d.decode(&buf[i..len], Eos::new(true));
                if len % width == 0 {
                    assert!(ok!(r) == len - i && d.is_idle());
                    assert!(ok!(d.decode(&buf[..2], Eos::new(nd::bool()))) == 0 && d.is_idle(), "the collection is complete");
                    numbered(&ok!(d.finish_decoding()), len / width);
                    assert!(!d.is_idle());
                } else {
                    err!(r, UnexpectedEos);
                    assert!(d.finish_decoding().is_err(), "a partial item is not dropped silently");
                }
                witness!(width == 2 && len == 5);
                witness!(width == 3 && len == 6);
                witness!(len == 0);
            });
        }));
    }
    collect_content [14] {
        let b = nd::bytes8();
        nd::cases(4, |i| {
            let mut d = U16leDecoder::new().collect::<Acc>();
            assert!(ok!(d.decode(&b[..i], Eos::new(false))) == i);
            assert!(ok!(d.decode(&b[i..4], Eos::new(true))) == 4 - i);
            let a = ok!(d.finish_decoding());
            assert!(a.n == 2);
            assert!(a.get(0) == u16::from_le_bytes([b[0], b[1]]) as u64);
            assert!(a.get(1) == u16::from_le_bytes([b[2], b[3]]) as u64);
            witness!(i == 3);
        });
    }
    collect_into_vec [14] {
        let b = nd::bytes8();
        let mut d = U8Decoder::new().collect::<Vec<u8>>();
        assert!(ok!(d.decode(&b[..2], Eos::new(false))) == 2);
        assert!(ok!(d.decode(&[], Eos::new(true))) == 0);
        let v = ok!(d.finish_decoding());
        assert!(v.len() == 2 && v[0] == b[0] && v[1] == b[1]);
        // and again with the same decoder
        assert!(ok!(d.decode(&b[4..5], Eos::new(true))) == 1);
        let v = ok!(d.finish_decoding());
        assert!(v.len() == 1 && v[0] == b[4], "nothing of the previous collection stays");
        witness!(b[0] != b[1]);
    }
    /// The failure of an item is the failure of the collection.
    collect_error [14] {
        let b = nd::bytes8();
        let mut d = U8Decoder::new().try_map(|x: u8| -> Result<u8> {
            if x == 0xFF { Err(ErrorKind::Other.into()) } else { Ok(x) }
        }).collect::<Acc>();
        let bad = b[0] == 0xFF || b[1] == 0xFF || b[2] == 0xFF;
        let r = d.decode(&b[..3], Eos::new(true));
        if bad {
            err!(r, Other);
            assert!(!d.is_idle());
        } else {
            assert!(ok!(r) == 3 && ok!(d.finish_decoding()).n == 3);
        }
        witness!(bad && b[0] == 1);
    }
    /// `collectn` takes exactly its number of items.
    collectn [14] {
        let buf = [0u8; 8];
        nd::cases(1, |w| nd::cases(3, |n| {
            let width = w + 1;
            nd::cases(3, |i| {
                let total = width * n;
                let i = if i < total { i } else { total };
                let mut d = Numbered::new(width as u64).collectn::<Acc>(n);
                assert!(d.remaining_items() == n);
                assert!(d.is_idle() == (n == 0));
                assert!(ok!(d.decode(&buf[..i], Eos::new(false))) == i);
                assert!(d.remaining_items() == n - i / width, "counts down item by item");
                assert!(d.is_idle() == (i == total));
                assert!(ok!(d.decode(&buf[i..8], Eos::new(true))) == total - i, "exactly its items are consumed");
                assert!(d.is_idle() && d.remaining_items() == 0);
                assert!(ok!(d.decode(&buf[..2], Eos::new(nd::bool()))) == 0 && d.remaining_items() == 0, "the collection is complete");
                numbered(&ok!(d.finish_decoding()), n);
                witness!(n == 3 && width == 2);
                witness!(n == 0);
            });
        }));
    }
    collectn_truncated [14] {
        let buf = [0u8; 8];
        nd::cases(1, |w| nd::cases(2, |n| {
            let (width, n) = (w + 1, n + 1);
            nd::cases(3, |i| {
                if i < width * n {
                    let mut d = Numbered::new(width as u64).collectn::<Acc>(n);
                    err!(d.decode(&buf[..i], Eos::new(true)), UnexpectedEos);
                    assert!(d.finish_decoding().is_err());
                }
                witness!(i == 3 && n == 2);
            });
        }));
    }
    /// Any count: what was consumed and what is left always adds up.
    collectn_any_count [14] {
        let buf = [0u8; 8];
        let n = nd::u64() as usize;
        nd::assume(n > 4);
        nd::cases(4, |i| {
            let mut d = Numbered::new(1).collectn::<Acc>(n);
            assert!(ok!(d.decode(&buf[..i], Eos::new(false))) == i);
            assert!(d.remaining_items() == n - i && !d.is_idle());
            err!(d.finish_decoding(), IncompleteDecoding);
            witness!(n > u32::MAX as usize && i == 4);
        });
    }
    /// Items without bytes are items, too.
    collectn_empty_items [14] {
        let b = nd::bytes8();
        nd::cases(3, |n| {
            let mut d = Tail::default().length(0).map(|a| a.n as u64).collectn::<Acc>(n);
            assert!(ok!(d.decode(&b[..2], Eos::new(false))) == 0, "no byte is needed");
            assert!(d.is_idle());
            assert!(ok!(d.finish_decoding()).n == n);
            let mut d = Tail::default().length(0).map(|a| a.n as u64).collectn::<Acc>(n);
            assert!(ok!(d.decode(&[], Eos::new(true))) == 0, "not even at the end of the stream");
            assert!(ok!(d.finish_decoding()).n == n);
            witness!(n == 3);
        });
    }
    /// There is one item up to the end of the stream, not more.
    collectn_tail_item [14] {
        let b = nd::bytes8();
        nd::cases(1, |more| nd::cases(3, |i| {
            let mut d = Tail::default().map(|a| a.packed()).collectn::<Acc>(1 + more);
            assert!(ok!(d.decode(&b[..i], Eos::new(false))) == i);
            assert!(d.remaining_items() == 1 + more);
            let r = d.decode(&b[i..3], Eos::new(true));
            if more == 0 {
                assert!(ok!(r) == 3 - i && d.remaining_items() == 0);
                let a = ok!(d.finish_decoding());
                assert!(a.n == 1 && a.get(0) == b[0] as u64 | (b[1] as u64) << 8 | (b[2] as u64) << 16 ^ 3 << 24);
            } else {
                err!(r, UnexpectedEos);
                assert!(!d.is_idle() && d.remaining_items() == 1, "no item is made up");
            }
            witness!(i == 3 && more == 1);
            witness!(i == 2 && more == 1);
            witness!(i == 3 && more == 0);
        }));
    }
    /// A last item that extends to the end of the stream.
    collect_tail_item [14] {
        let b = nd::bytes8();
        nd::cases(3, |i| {
            let mut d = Tail::default().map(|a| a.packed()).collect::<Acc>();
            assert!(ok!(d.decode(&b[..i], Eos::new(false))) == i);
            assert!(ok!(d.decode(&b[i..3], Eos::new(true))) == 3 - i);
            let a = ok!(d.finish_decoding());
            assert!(a.n == 1 && a.get(0) == b[0] as u64 | (b[1] as u64) << 8 | (b[2] as u64) << 16 ^ 3 << 24);
            witness!(i == 3);
        });
    }
    /// More items than a byte can count.
    collectn_many [264] {
        let buf = [0u8; 300];
        let mut d = Numbered::new(1).collectn::<Tally>(262);
        assert!(ok!(d.decode(&buf[..3], Eos::new(false))) == 3 && d.remaining_items() == 259);
        assert!(ok!(d.decode(&buf[3..300], Eos::new(false))) == 259 && d.is_idle() && d.remaining_items() == 0);
        let t = ok!(d.finish_decoding());
        assert!(t.n == 262 && !t.disorder);
        witness!(t.n == 262);
    }
    collect_many [264] {
        let buf = [0u8; 300];
        let mut d = Numbered::new(1).collect::<Tally>();
        assert!(ok!(d.decode(&buf[..3], Eos::new(false))) == 3);
        assert!(ok!(d.decode(&buf[..259], Eos::new(true))) == 259 && d.is_idle());
        let t = ok!(d.finish_decoding());
        assert!(t.n == 262 && !t.disorder);
        witness!(t.n == 262);
    }
}
