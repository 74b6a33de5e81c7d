//! Writers given to the code under verification. They are legal `std::io::Write` implementations:
//! `write` may accept only a part of the bytes, `write_all` accepts all of them or fails.
use std::io::{Error, ErrorKind, Result, Write};

/// Records what is written: short pieces by content (in order, up to 16 bytes), long ones by address.
pub struct Rec {
    pub total: usize,
    pub head: [u8; 16],
    pub head_len: usize,
    pub body: *const u8,
    pub body_len: usize,
    pub bodies: usize,
    /// bytes short pieces written after the (last) body
    pub tail: [u8; 2],
    pub tail_len: usize,
    pub budget: usize,
    pub short_write: usize,
    pub failed: bool,
    /// a piece is short below this length
    pub limit: usize,
    /// `write` accepts nothing instead of failing
    pub zero: bool,
}

impl Rec {
    pub fn new() -> Rec {
        Rec { total: 0, head: [0; 16], head_len: 0, body: std::ptr::null(), body_len: 0, bodies: 0, tail: [0; 2], tail_len: 0,
            budget: usize::MAX, short_write: 1, failed: false, limit: 0, zero: kani::any() }
    }
    fn take(&mut self, buf: &[u8], body: bool) {
        self.total += buf.len();
        if body {
            self.body = buf.as_ptr();
            self.body_len = buf.len();
            self.bodies += 1;
        } else {
            let g = |i: usize| if i < buf.len() { buf[i] } else { 0 };
            if self.bodies == 0 {
                let h = self.head_len;
                let mut put = |i: usize| if i < buf.len() && h + i < 16 { self.head[h + i] = g(i) };
                put(0); put(1); put(2); put(3); put(4); put(5); put(6); put(7);
                self.head_len += buf.len();
            } else {
                let h = self.tail_len;
                let mut put = |i: usize| if i < buf.len() && h + i < 2 { self.tail[h + i] = g(i) };
                put(0); put(1);
                self.tail_len += buf.len();
            }
        }
    }
    pub fn head(&self) -> u64 {
        let g = |i: usize| if i < self.head_len { self.head[i] as u64 } else { 0 };
        g(0) | g(1) << 8 | g(2) << 16 | g(3) << 24 | g(4) << 32 | g(5) << 40 | g(6) << 48 | g(7) << 56
    }
    pub fn head_be(&self, n: usize) -> u64 {
        let g = |i: usize| if i < n { self.head[n - 1 - i] as u64 } else { 0 };
        g(0) | g(1) << 8 | g(2) << 16 | g(3) << 24 | g(4) << 32 | g(5) << 40 | g(6) << 48 | g(7) << 56
    }
}

/// The content expected to be written by reference (set by the harness).
pub static mut BODY: (*const u8, usize) = (std::ptr::null(), 0);

fn is_body(buf: &[u8]) -> bool {
    let b = unsafe { BODY };
    !b.0.is_null() && buf.as_ptr() == b.0
}

impl Write for Rec {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        if buf.is_empty() { return Ok(0) }
        if self.failed || self.budget == 0 {
            // a writer which is full may say so by accepting nothing
            self.failed = true;
            return if self.zero { Ok(0) } else { Err(Error::from(ErrorKind::Other)) };
        }
        let n = if buf.len() < self.short_write { buf.len() } else { self.short_write };
        let n = if n < self.budget { n } else { self.budget };
        self.budget -= n;
        self.take(&buf[..n], is_body(buf));
        Ok(n)
    }

    fn write_all(&mut self, buf: &[u8]) -> Result<()> {
        if self.failed || buf.len() > self.budget {
            let n = if self.failed { 0 } else { self.budget };
            self.failed = true;
            self.budget = 0;
            self.take(&buf[..n], is_body(buf));
            return Err(Error::from(ErrorKind::Other));
        }
        self.budget -= buf.len();
        self.take(buf, is_body(buf));
        Ok(())
    }

    fn flush(&mut self) -> Result<()> {
        Ok(())
    }
}

/// A short output buffer used by the bounded harnesses, with the same faults.
pub struct Out<const N: usize> {
    pub b: [u8; N],
    pub n: usize,
    pub budget: usize,
    pub failed: bool,
}

impl<const N: usize> Out<N> {
    pub fn new() -> Self {
        Out { b: [0; N], n: 0, budget: N, failed: false }
    }
}

impl<const N: usize> Write for Out<N> {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        if buf.is_empty() || (self.n >= self.budget && kani::any()) { return Ok(0) }
        self.write_all(&buf[..1]).map(|_| 1)
    }

    fn write_all(&mut self, buf: &[u8]) -> Result<()> {
        let mut i = 0;
        while i < buf.len() {
            if self.n >= self.budget || self.failed {
                self.failed = true;
                return Err(Error::from(ErrorKind::Other));
            }
            self.b[self.n] = buf[i];
            self.n += 1;
            i += 1;
        }
        Ok(())
    }

    fn flush(&mut self) -> Result<()> {
        Ok(())
    }
}
