//! Model of the zstd crate (see codecmodel).
use codecmodel::*;
use std::io::{self, BufRead, BufReader, Read, Write};
use std::marker::PhantomData;
pub const MAGIC: [u8; 4] = [0x28, 0xB5, 0x2F, 0xFD];
pub const DEFAULT_COMPRESSION_LEVEL: i32 = 3;
pub fn compression_level_range() -> std::ops::RangeInclusive<i32> {
    -131072..=22
}
pub struct Encoder<'a, W: Write>(Enc<W>, PhantomData<&'a ()>);
impl<W: Write> Encoder<'static, W> {
    pub fn new(w: W, level: i32) -> io::Result<Self> {
        Ok(Encoder(Enc::new(w, MAGIC, level as u8), PhantomData))
    }
}
impl<'a, W: Write> Encoder<'a, W> {
    pub fn include_contentsize(&mut self, _: bool) -> io::Result<()> { Ok(()) }
    pub fn include_checksum(&mut self, _: bool) -> io::Result<()> { Ok(()) }
    pub fn include_magicbytes(&mut self, _: bool) -> io::Result<()> { Ok(()) }
    pub fn include_dictid(&mut self, _: bool) -> io::Result<()> { Ok(()) }
    pub fn long_distance_matching(&mut self, _: bool) -> io::Result<()> { Ok(()) }
    pub fn set_pledged_src_size(&mut self, _: Option<u64>) -> io::Result<()> { Ok(()) }
    pub fn window_log(&mut self, _: u32) -> io::Result<()> { Ok(()) }
    pub fn get_ref(&self) -> &W { self.0.get_ref() }
    pub fn get_mut(&mut self) -> &mut W { self.0.get_mut() }
    pub fn finish(self) -> io::Result<W> {
        let (w, r) = self.0.finish();
        r.map(|_| w)
    }
}
impl<W: Write> Write for Encoder<'_, W> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { self.0.write(b) }
    fn flush(&mut self) -> io::Result<()> { self.0.flush() }
}
pub struct Decoder<'a, R: BufRead>(Dec<R>, PhantomData<&'a ()>);
impl<R: Read> Decoder<'static, BufReader<R>> {
    pub fn new(r: R) -> io::Result<Self> { Self::with_buffer(BufReader::with_capacity(1024, r)) }
}
impl<R: BufRead> Decoder<'static, R> {
    pub fn with_buffer(r: R) -> io::Result<Self> { Ok(Decoder(Dec::new(r, MAGIC, Trunc::Error), PhantomData)) }
}
impl<'a, R: BufRead> Decoder<'a, R> {
    pub fn single_frame(self) -> Self { self }
    pub fn window_log_max(&mut self, _: u32) -> io::Result<()> { Ok(()) }
    pub fn include_magicbytes(&mut self, _: bool) -> io::Result<()> { Ok(()) }
    pub fn get_ref(&self) -> &R { self.0.get_ref() }
    pub fn get_mut(&mut self) -> &mut R { self.0.get_mut() }
    pub fn finish(self) -> R { self.0.into_inner() }
}
impl<R: BufRead> Read for Decoder<'_, R> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { self.0.read(b) }
}
pub mod stream {
    pub use super::{Decoder, Encoder};
    pub mod read { pub use crate::Decoder; }
    pub mod write { pub use crate::Encoder; }
}
