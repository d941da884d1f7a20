//! Model of the xz2 crate (see codecmodel).
pub const MAGIC: [u8; 4] = [0x5D, 0x00, 0x00, 0x80];
pub mod stream {
    use std::fmt;
    #[derive(Clone, Debug, PartialEq)]
    pub enum Error { Data, Options, Format, MemLimit, Mem, Program, NoCheck, UnsupportedCheck }
    impl fmt::Display for Error {
        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("lzma error") }
    }
    impl std::error::Error for Error {}
    impl From<Error> for std::io::Error {
        fn from(e: Error) -> Self { std::io::Error::new(std::io::ErrorKind::Other, e) }
    }
    #[derive(Clone, Copy, PartialEq, Debug)]
    pub enum Check { None, Crc32, Crc64, Sha256 }
    #[derive(Clone)]
    pub struct LzmaOptions { pub(crate) level: u32 }
    impl LzmaOptions {
        pub fn new_preset(p: u32) -> Result<LzmaOptions, Error> {
            if p & 0x1f > 9 { Err(Error::Options) } else { Ok(LzmaOptions { level: p }) }
        }
        pub fn dict_size(&mut self, _: u32) -> &mut Self { self }
    }
    pub struct Stream { pub(crate) level: u32, pub(crate) magic: [u8; 4] }
    const XZ: [u8; 4] = [0xFD, 0x37, 0x7A, 0x58];
    impl Stream {
        pub fn new_lzma_encoder(o: &LzmaOptions) -> Result<Stream, Error> { Ok(Stream { level: o.level, magic: crate::MAGIC }) }
        pub fn new_easy_encoder(p: u32, _: Check) -> Result<Stream, Error> { Ok(Stream { level: p, magic: XZ }) }
        pub fn new_lzma_decoder(_: u64) -> Result<Stream, Error> { Ok(Stream { level: 0, magic: crate::MAGIC }) }
        pub fn new_stream_decoder(_: u64, _: u32) -> Result<Stream, Error> { Ok(Stream { level: 0, magic: XZ }) }
    }
}
pub mod write {
    use codecmodel::*;
    use std::io::{self, Write};
    pub struct XzEncoder<W: Write>(Enc<W>);
    impl<W: Write> XzEncoder<W> {
        pub fn new(w: W, level: u32) -> Self { Self::new_stream(w, crate::stream::Stream::new_easy_encoder(level, crate::stream::Check::Crc64).unwrap()) }
        pub fn new_stream(w: W, s: crate::stream::Stream) -> Self { XzEncoder(Enc::new(w, s.magic, s.level as u8)) }
        pub fn get_ref(&self) -> &W { self.0.get_ref() }
        pub fn finish(self) -> io::Result<W> { let (w, r) = self.0.finish(); r.map(|_| w) }
    }
    impl<W: Write> Write for XzEncoder<W> {
        fn write(&mut self, b: &[u8]) -> io::Result<usize> { self.0.write(b) }
        fn flush(&mut self) -> io::Result<()> { self.0.flush() }
    }
}
pub mod read {
    use codecmodel::*;
    use std::io::{self, BufReader, Read};
    pub struct XzDecoder<R: Read>(Dec<BufReader<R>>);
    impl<R: Read> XzDecoder<R> {
        pub fn new(r: R) -> Self { Self::new_stream(r, crate::stream::Stream::new_stream_decoder(0, 0).unwrap()) }
        pub fn new_stream(r: R, s: crate::stream::Stream) -> Self { XzDecoder(Dec::new(BufReader::with_capacity(1024, r), s.magic, Trunc::Error)) }
        pub fn into_inner(self) -> R { self.0.into_inner().into_inner() }
    }
    impl<R: Read> Read for XzDecoder<R> {
        fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { self.0.read(b) }
    }
}
