//! Model of the lz4 crate (see codecmodel).
use codecmodel::*;
use std::io::{Read, Result, Write};
pub const MAGIC: [u8; 4] = [0x04, 0x22, 0x4D, 0x18];
#[derive(Clone, Debug)]
pub enum BlockSize { Default, Max64KB, Max256KB, Max1MB, Max4MB }
#[derive(Clone, Debug)]
pub enum BlockMode { Linked, Independent }
#[derive(Clone, Debug)]
pub enum ContentChecksum { NoChecksum, ChecksumEnabled }
#[derive(Clone, Debug)]
pub enum BlockChecksum { NoBlockChecksum, BlockChecksumEnabled }
pub mod liblz4 {
    pub use super::{BlockChecksum, BlockMode, BlockSize, ContentChecksum};
}
#[derive(Clone, Debug, Default)]
pub struct EncoderBuilder { level: u32 }
impl EncoderBuilder {
    pub fn new() -> Self { Self::default() }
    pub fn block_size(&mut self, _: BlockSize) -> &mut Self { self }
    pub fn block_mode(&mut self, _: BlockMode) -> &mut Self { self }
    pub fn block_checksum(&mut self, _: BlockChecksum) -> &mut Self { self }
    pub fn checksum(&mut self, _: ContentChecksum) -> &mut Self { self }
    pub fn level(&mut self, l: u32) -> &mut Self { self.level = l; self }
    pub fn auto_flush(&mut self, _: bool) -> &mut Self { self }
    pub fn favor_dec_speed(&mut self, _: bool) -> &mut Self { self }
    pub fn content_size(&mut self, _: u64) -> &mut Self { self }
    pub fn build<W: Write>(&self, w: W) -> Result<Encoder<W>> { Ok(Encoder(Enc::new(w, MAGIC, self.level as u8))) }
}
pub struct Encoder<W: Write>(Enc<W>);
impl<W: Write> Encoder<W> {
    pub fn writer(&self) -> &W { self.0.get_ref() }
    pub fn finish(self) -> (W, Result<()>) { self.0.finish() }
}
impl<W: Write> Write for Encoder<W> {
    fn write(&mut self, b: &[u8]) -> Result<usize> { self.0.write(b) }
    fn flush(&mut self) -> Result<()> { self.0.flush() }
}
pub struct Decoder<R: Read>(Dec<R>);
impl<R: Read> Decoder<R> {
    // the real reader answers Ok(0) when the input stops inside a frame
    pub fn new(r: R) -> Result<Decoder<R>> { Ok(Decoder(Dec::new(r, MAGIC, Trunc::Eof))) }
    pub fn reader(&self) -> &R { self.0.get_ref() }
    pub fn finish(self) -> (R, Result<()>) { (self.0.into_inner(), Ok(())) }
}
impl<R: Read> Read for Decoder<R> {
    fn read(&mut self, b: &mut [u8]) -> Result<usize> { self.0.read(b) }
}
