//! A writer of content packs that shares no code with jubako: clusters of any size and codec.
use crate::dec::crc;
use std::io::Write;

pub struct Cl {
    /// 0 none, 1 lz4, 2 lzma, 3 zstd
    pub comp: u8,
    pub blobs: Vec<Vec<u8>>,
}
fn pack_bytes(comp: u8, plain: &[u8]) -> Vec<u8> {
    match comp {
        1 => {
            let mut e = lz4::EncoderBuilder::new().level(3).build(Vec::new()).unwrap();
            e.write_all(plain).unwrap();
            let (v, r) = e.finish();
            r.unwrap();
            v
        }
        2 => {
            let s = xz2::stream::Stream::new_lzma_encoder(&xz2::stream::LzmaOptions::new_preset(1).unwrap()).unwrap();
            let mut e = xz2::write::XzEncoder::new_stream(Vec::new(), s);
            e.write_all(plain).unwrap();
            e.finish().unwrap()
        }
        3 => {
            let mut e = zstd::Encoder::new(Vec::new(), 1).unwrap();
            e.write_all(plain).unwrap();
            e.finish().unwrap()
        }
        _ => plain.to_vec(),
    }
}
fn sealed(out: &mut Vec<u8>, b: &[u8]) {
    out.extend_from_slice(b);
    out.extend_from_slice(&crc(b));
}
/// contents are numbered cluster after cluster
pub fn pack(clusters: &[Cl]) -> Vec<u8> {
    let mut body = vec![0; 128];
    let (mut ptrs, mut infos) = (vec![], vec![]);
    for (ci, c) in clusters.iter().enumerate() {
        let plain: Vec<u8> = c.blobs.concat();
        let raw = pack_bytes(c.comp, &plain);
        body.extend_from_slice(&raw);
        let mut w = 1;
        while std::cmp::max(raw.len(), plain.len()) >> (8 * w) != 0 {
            w += 1;
        }
        let mut t = vec![c.comp, w as u8, c.blobs.len() as u8, (c.blobs.len() >> 8) as u8];
        let mut at = 0;
        let mut vals = vec![raw.len(), plain.len()];
        for (bi, b) in c.blobs.iter().enumerate() {
            if bi > 0 {
                vals.push(at);
            }
            at += b.len();
            infos.extend_from_slice(&((ci as u32) << 12 | bi as u32).to_le_bytes());
        }
        for v in vals {
            t.extend_from_slice(&v.to_le_bytes()[..w]);
        }
        ptrs.extend_from_slice(&((body.len() as u64) << 16 | t.len() as u64).to_le_bytes());
        sealed(&mut body, &t);
    }
    let ptr_pos = body.len() as u64;
    sealed(&mut body, &ptrs);
    let info_pos = body.len() as u64;
    sealed(&mut body, &infos);
    let check_pos = body.len() as u64;
    sealed(&mut body, &[0]);
    let size = body.len() as u64 + 64;
    let mut h = b"jbkc\x01\x02\x03\x04\x00\x02".to_vec();
    h.extend_from_slice(&[7; 16]);
    h.extend_from_slice(&[0; 6]);
    h.extend_from_slice(&size.to_le_bytes());
    h.extend_from_slice(&check_pos.to_le_bytes());
    h.extend_from_slice(&[0; 12]);
    h.extend_from_slice(&crc(&h.clone()));
    let mut k = info_pos.to_le_bytes().to_vec();
    k.extend_from_slice(&ptr_pos.to_le_bytes());
    k.extend_from_slice(&((infos.len() / 4) as u32).to_le_bytes());
    k.extend_from_slice(&(clusters.len() as u32).to_le_bytes());
    k.extend_from_slice(&[0; 36]);
    k.extend_from_slice(&crc(&k.clone()));
    body[..64].copy_from_slice(&h);
    body[64..128].copy_from_slice(&k);
    h.reverse();
    body.extend_from_slice(&h);
    body
}
