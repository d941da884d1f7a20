//! The blake3 crate with the hash itself left to the environment: `vsym_hash` is the real
//! BLAKE3 for concrete inputs (engine and native build) and an injective uninterpreted function for
//! symbolic ones.
use std::fmt;
extern "C" {
    fn vsym_hash(p: *const u8, n: usize, out: *mut u8);
}
pub const OUT_LEN: usize = 32;
pub const KEY_LEN: usize = 32;
pub const BLOCK_LEN: usize = 64;
pub const CHUNK_LEN: usize = 1024;
#[derive(Clone, Copy, Eq)]
pub struct Hash([u8; OUT_LEN]);
// constant hash-table hash: keeps table probing independent of symbolic bytes
impl std::hash::Hash for Hash {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) { h.write_u8(0) }
}
impl PartialEq for Hash {
    fn eq(&self, o: &Self) -> bool { self.0 == o.0 }
}
impl PartialEq<[u8; OUT_LEN]> for Hash {
    fn eq(&self, o: &[u8; OUT_LEN]) -> bool { self.0 == *o }
}
impl PartialEq<[u8]> for Hash {
    fn eq(&self, o: &[u8]) -> bool { self.0[..] == *o }
}
impl Hash {
    pub const fn as_bytes(&self) -> &[u8; OUT_LEN] { &self.0 }
    pub const fn as_slice(&self) -> &[u8] { &self.0 }
    pub const fn from_bytes(b: [u8; OUT_LEN]) -> Self { Hash(b) }
    pub fn from_slice(b: &[u8]) -> Result<Self, std::array::TryFromSliceError> { Ok(Hash(b.try_into()?)) }
    pub fn to_hex(&self) -> String { self.0.iter().map(|b| format!("{:02x}", b)).collect() }
}
impl From<[u8; OUT_LEN]> for Hash {
    fn from(b: [u8; OUT_LEN]) -> Self { Hash(b) }
}
impl From<Hash> for [u8; OUT_LEN] {
    fn from(h: Hash) -> Self { h.0 }
}
impl fmt::Display for Hash {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str(&self.to_hex()) }
}
impl fmt::Debug for Hash {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str(&self.to_hex()) }
}
#[derive(Clone, Default)]
pub struct Hasher {
    data: Vec<u8>,
    skip: usize,
}
impl Hasher {
    pub fn new() -> Self { Self::default() }
    // other modes: distinct functions, by a domain-separating prefix
    pub fn new_keyed(k: &[u8; KEY_LEN]) -> Self {
        let mut d = b"\0keyed\0".to_vec();
        d.extend_from_slice(k);
        Hasher { skip: d.len(), data: d }
    }
    pub fn new_derive_key(c: &str) -> Self {
        let mut d = b"\0derive\0".to_vec();
        d.extend_from_slice(c.as_bytes());
        Hasher { skip: d.len(), data: d }
    }
    pub fn reset(&mut self) -> &mut Self { self.data.truncate(self.skip); self }
    pub fn update(&mut self, b: &[u8]) -> &mut Self { self.data.extend_from_slice(b); self }
    pub fn count(&self) -> u64 { (self.data.len() - self.skip) as u64 }
    pub fn update_reader(&mut self, mut r: impl std::io::Read) -> std::io::Result<&mut Self> {
        let mut b = [0u8; 4096];
        loop {
            match r.read(&mut b) {
                Ok(0) => return Ok(self),
                Ok(n) => { self.update(&b[..n]); }
                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
                Err(e) => return Err(e),
            }
        }
    }
    pub fn finalize(&self) -> Hash {
        let mut o = [0u8; 32];
        unsafe { vsym_hash(self.data.as_ptr(), self.data.len(), o.as_mut_ptr()) };
        Hash(o)
    }
}
impl std::io::Write for Hasher {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { self.update(b); Ok(b.len()) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
pub fn hash(b: &[u8]) -> Hash { let mut h = Hasher::new(); h.update(b); h.finalize() }
pub fn keyed_hash(k: &[u8; KEY_LEN], b: &[u8]) -> Hash { let mut h = Hasher::new_keyed(k); h.update(b); h.finalize() }
