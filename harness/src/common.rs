use crate::sym;
use jubako as jbk;
use jbk::creator::Compression;
pub const VENDOR: jbk::VendorId = jbk::VendorId::new([1, 2, 3, 4]);

pub fn compression(i: u64) -> Compression {
    match i {
        0 => Compression::None,
        1 => Compression::lz4(),
        2 => Compression::lzma(),
        _ => Compression::zstd(),
    }
}
pub fn cursor(v: Vec<u8>) -> Box<dyn jbk::creator::InputReader> {
    Box::new(std::io::Cursor::new(v))
}
/// every byte of a region, through the slice interface
pub fn region_bytes(r: &jbk::reader::ByteRegion) -> Vec<u8> {
    match r.get_slice(jbk::Offset::zero(), r.size().into_u64() as usize) {
        Ok(s) => s.to_vec(),
        Err(_) => sym::fail("get_slice on a stored content fails"),
    }
}
