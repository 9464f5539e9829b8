//! Readers and writers whose every call has a symbolic outcome.
use crate::nd;
use std::io;

#[derive(Clone, Copy, PartialEq)]
pub enum Outcome {
    None,
    Bytes,
    WouldBlock,
    End,
    Failed,
}

/// A reader over eight symbolic bytes.  Every call delivers one to `step`
/// bytes, would block, ends, or fails with an arbitrary other error.
pub struct Src {
    pub data: [u8; 8],
    pub pos: usize,
    pub calls: usize,
    pub last: Outcome,
    pub kind: Option<io::ErrorKind>,
    pub max_len: usize,
    pub step: u8,
}
impl Src {
    pub fn new(step: u8) -> Self {
        Src { data: nd::bytes8(), pos: 0, calls: 0, last: Outcome::None, kind: None, max_len: 0, step }
    }
}
/// An error that is not `WouldBlock`.
pub fn other_error() -> io::ErrorKind {
    match nd::u8() % 5 {
        0 => io::ErrorKind::UnexpectedEof,
        1 => io::ErrorKind::ConnectionReset,
        2 => io::ErrorKind::TimedOut,
        3 => io::ErrorKind::PermissionDenied,
        _ => io::ErrorKind::BrokenPipe,
    }
}
impl io::Read for Src {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.calls += 1;
        self.max_len = buf.len();
        match nd::u8() % 4 {
            0 => {
                let n = nd::u8();
                nd::assume(n >= 1 && n <= self.step && n as usize <= buf.len());
                let mut i = 0;
                while i < n as usize {
                    buf[i] = self.data[self.pos & 7];
                    self.pos += 1;
                    i += 1;
                }
                self.last = Outcome::Bytes;
                Ok(n as usize)
            }
            1 => {
                self.last = Outcome::WouldBlock;
                Err(io::ErrorKind::WouldBlock.into())
            }
            2 => {
                self.last = Outcome::End;
                Ok(0)
            }
            _ => {
                self.last = Outcome::Failed;
                let k = other_error();
                self.kind = Some(k);
                Err(k.into())
            }
        }
    }
}

/// A writer that takes one to `step` bytes per call, would block, is closed,
/// or fails; it compares every byte it takes with what is due.
pub struct Sink {
    pub n: usize,
    pub calls: usize,
    pub last: Outcome,
    pub kind: Option<io::ErrorKind>,
    pub step: u8,
    /// What it has to take, in order.
    pub want: [u8; 8],
}
impl Sink {
    pub fn new(step: u8, want: [u8; 8]) -> Self {
        Sink { n: 0, calls: 0, last: Outcome::None, kind: None, step, want }
    }
}
impl io::Write for Sink {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        match nd::u8() % 4 {
            0 => {
                let n = nd::u8();
                nd::assume(n >= 1 && n <= self.step && n as usize <= buf.len());
                let mut i = 0;
                while i < n as usize {
                    assert!(buf[i] == self.want[self.n & 7], "in order, nothing twice");
                    self.n += 1;
                    i += 1;
                }
                self.last = Outcome::Bytes;
                Ok(n as usize)
            }
            1 => {
                self.last = Outcome::WouldBlock;
                Err(io::ErrorKind::WouldBlock.into())
            }
            2 => {
                self.last = Outcome::End;
                Ok(0)
            }
            _ => {
                self.last = Outcome::Failed;
                let k = other_error();
                self.kind = Some(k);
                Err(k.into())
            }
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
