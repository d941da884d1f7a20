//! Model of a streaming compressor / decompressor pair.
//!
//! What it keeps of the real codecs: framed stream with a magic number and an explicit
//! "last block" flag, output that can be larger or smaller than the input, decode(encode(x))
//! = x, stored bytes that differ from the input bytes, data after the last block ignored,
//! no checksum over the payload (jubako disables them), damage = error, other bytes, early
//! end of stream or a stream that goes on longer.
use std::io::{self, Read, Write};

extern "C" {
    fn vsym_is_concrete(p: *const u8, n: usize) -> u64;
}

pub const BLOCK: usize = 16 * 1024;
const XOR: u8 = 0x5A;
const LAST: u8 = 1;
const RLE: u8 = 2;

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Trunc {
    Error,
    Eof,
}

pub struct Enc<W: Write> {
    w: Option<W>,
    buf: Vec<u8>,
    head: Option<[u8; 5]>,
}
impl<W: Write> Enc<W> {
    /// the magic is written with the first data (as the real ones do) or at the end
    pub fn new(w: W, magic: [u8; 4], level: u8) -> Self {
        Enc { w: Some(w), buf: Vec::new(), head: Some([magic[0], magic[1], magic[2], magic[3], level]) }
    }
    fn block(&mut self, last: bool) -> io::Result<()> {
        let w = self.w.as_mut().unwrap();
        if let Some(h) = self.head.take() {
            w.write_all(&h)?;
        }
        let n = self.buf.len();
        let l = if last { LAST } else { 0 };
        // constant concrete runs are "compressible"
        if n >= 8 && unsafe { vsym_is_concrete(self.buf.as_ptr(), n) } != 0 && self.buf[..n - 1] == self.buf[1..] {
            w.write_all(&[l | RLE, n as u8, (n >> 8) as u8, self.buf[0] ^ XOR])?;
        } else {
            w.write_all(&[l, n as u8, (n >> 8) as u8])?;
            for b in self.buf.iter_mut() {
                *b ^= XOR;
            }
            w.write_all(&self.buf)?;
        }
        self.buf.clear();
        Ok(())
    }
    pub fn finish(mut self) -> (W, io::Result<()>) {
        let r = self.block(true);
        (self.w.take().unwrap(), r)
    }
    pub fn get_ref(&self) -> &W {
        self.w.as_ref().unwrap()
    }
    pub fn get_mut(&mut self) -> &mut W {
        self.w.as_mut().unwrap()
    }
}
impl<W: Write> Write for Enc<W> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let n = b.len().min(BLOCK - self.buf.len());
        self.buf.extend_from_slice(&b[..n]);
        if self.buf.len() == BLOCK {
            self.block(false)?;
        }
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

pub struct Dec<R: Read> {
    r: R,
    magic: [u8; 4],
    started: bool,
    done: bool,
    last: bool,
    left: usize,
    rle: Option<u8>,
    trunc: Trunc,
}
fn bad(s: &'static str) -> io::Error {
    io::Error::new(io::ErrorKind::Other, s)
}
impl<R: Read> Dec<R> {
    pub fn new(r: R, magic: [u8; 4], trunc: Trunc) -> Self {
        Dec { r, magic, started: false, done: false, last: false, left: 0, rle: None, trunc }
    }
    pub fn get_ref(&self) -> &R {
        &self.r
    }
    pub fn get_mut(&mut self) -> &mut R {
        &mut self.r
    }
    pub fn into_inner(self) -> R {
        self.r
    }
    /// false: end of input
    fn get(&mut self, b: &mut [u8]) -> io::Result<bool> {
        let mut n = 0;
        while n < b.len() {
            match self.r.read(&mut b[n..]) {
                Ok(0) => {
                    return match self.trunc {
                        Trunc::Error => Err(io::Error::new(io::ErrorKind::UnexpectedEof, "incomplete frame")),
                        Trunc::Eof => Ok(false),
                    }
                }
                Ok(k) => n += k,
                Err(e) if e.kind() == io::ErrorKind::Interrupted => {}
                Err(e) => return Err(e),
            }
        }
        Ok(true)
    }
}
impl<R: Read> Read for Dec<R> {
    fn read(&mut self, out: &mut [u8]) -> io::Result<usize> {
        if out.is_empty() || self.done {
            return Ok(0);
        }
        if !self.started {
            let mut h = [0u8; 5];
            if !self.get(&mut h)? {
                self.done = true;
                return Ok(0);
            }
            if h[..4] != self.magic {
                return Err(bad("unknown frame descriptor"));
            }
            self.started = true;
        }
        while self.left == 0 {
            if self.last {
                self.done = true;
                return Ok(0);
            }
            let mut h = [0u8; 3];
            if !self.get(&mut h)? {
                self.done = true;
                return Ok(0);
            }
            if h[0] & !(LAST | RLE) != 0 {
                return Err(bad("reserved block type"));
            }
            let n = h[1] as usize | (h[2] as usize) << 8;
            if n > BLOCK {
                return Err(bad("block too large"));
            }
            self.last = h[0] & LAST != 0;
            self.rle = None;
            if h[0] & RLE != 0 {
                let mut b = [0u8; 1];
                if !self.get(&mut b)? {
                    self.done = true;
                    return Ok(0);
                }
                self.rle = Some(b[0] ^ XOR);
            }
            self.left = n;
        }
        let n = out.len().min(self.left);
        if let Some(b) = self.rle {
            out[..n].fill(b);
            self.left -= n;
            return Ok(n);
        }
        let k = self.r.read(&mut out[..n])?;
        if k == 0 {
            self.done = true;
            return match self.trunc {
                Trunc::Error => Err(io::Error::new(io::ErrorKind::UnexpectedEof, "incomplete frame")),
                Trunc::Eof => Ok(0),
            };
        }
        for b in out[..k].iter_mut() {
            *b ^= XOR;
        }
        self.left -= k;
        Ok(k)
    }
}
