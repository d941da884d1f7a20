//! A decoder of the on-disk layout that shares no code with jubako.
pub fn le(b: &[u8], p: usize, n: usize) -> u64 {
    let mut v = 0;
    for i in (0..n).rev() {
        v = v << 8 | b[p + i] as u64;
    }
    v
}
#[derive(Clone, Debug)]
pub struct Pk {
    pub kind: u8,
    pub uuid: [u8; 16],
    pub pos: usize,
    pub size: usize,
}
impl Pk {
    pub fn check_pos(&self, f: &[u8]) -> usize {
        self.pos + le(f, self.pos + 40, 8) as usize
    }
}
pub fn header_at(f: &[u8], pos: usize) -> Pk {
    assert!(&f[pos..pos + 3] == b"jbk");
    let mut uuid = [0; 16];
    uuid.copy_from_slice(&f[pos + 10..pos + 26]);
    Pk { kind: f[pos + 3], uuid, pos, size: le(f, pos + 32, 8) as usize }
}
/// the packs of a file: itself, or the packs its container header lists
pub fn packs(f: &[u8], pos: usize) -> Vec<Pk> {
    let h = header_at(f, pos);
    if h.kind != b'C' {
        return vec![h];
    }
    let at = pos + le(f, pos + 64, 8) as usize;
    (0..le(f, pos + 72, 2) as usize)
        .map(|i| {
            let l = at + i * 36;
            let mut p = header_at(f, pos + le(f, l + 24, 8) as usize);
            p.size = le(f, l + 16, 8) as usize;
            p
        })
        .collect()
}
/// positions of the pack descriptions of a manifest
pub fn pack_infos(f: &[u8], m: &Pk) -> Vec<usize> {
    let n = le(f, m.pos + 64, 2) as usize;
    let at = m.check_pos(f) - n * 256;
    (0..n).map(|i| at + i * 256).collect()
}
#[derive(Clone, Debug)]
pub struct Cluster {
    pub comp: u8,
    pub data: usize,
    pub raw: usize,
    pub size: usize,
    /// start of every blob in the plain data, and the end of the last one
    pub bounds: Vec<usize>,
}
impl Cluster {
    /// the plain bytes of the cluster
    pub fn plain(&self, f: &[u8]) -> Option<Vec<u8>> {
        let raw = &f[self.data..self.data + self.raw];
        unpack(self.comp, raw, self.size)
    }
}
/// `size` bytes out of a compressed stream, which must hold exactly that many
pub fn unpack(comp: u8, raw: &[u8], size: usize) -> Option<Vec<u8>> {
    use std::io::Read;
    let mut v = vec![];
    let r = match comp {
        0 => {
            v.extend_from_slice(raw);
            Ok(0)
        }
        1 => lz4::Decoder::new(raw).and_then(|mut d| d.read_to_end(&mut v)),
        2 => xz2::read::XzDecoder::new_stream(raw, xz2::stream::Stream::new_lzma_decoder(128 << 20).unwrap()).read_to_end(&mut v),
        3 => zstd::Decoder::new(raw).and_then(|mut d| d.read_to_end(&mut v)),
        _ => return None,
    };
    (r.is_ok() && v.len() == size).then_some(v)
}
pub struct Content {
    pub clusters: Vec<Cluster>,
    /// (cluster, blob) of every content
    pub infos: Vec<(usize, usize)>,
}
pub fn content(f: &[u8], p: &Pk) -> Content {
    let h = p.pos + 64;
    let (infos, ptrs) = (p.pos + le(f, h, 8) as usize, p.pos + le(f, h + 8, 8) as usize);
    let (n, c) = (le(f, h + 16, 4) as usize, le(f, h + 20, 4) as usize);
    let clusters = (0..c)
        .map(|i| {
            let so = le(f, ptrs + 8 * i, 8);
            let t = p.pos + (so >> 16) as usize;
            let (comp, w, blobs) = (f[t], f[t + 1] as usize, le(f, t + 2, 2) as usize);
            let (raw, size) = (le(f, t + 4, w) as usize, le(f, t + 4 + w, w) as usize);
            let mut bounds = vec![0];
            bounds.extend((0..blobs - 1).map(|b| le(f, t + 4 + (2 + b) * w, w) as usize));
            bounds.push(size);
            assert!((so & 0xFFFF) as usize == 4 + (1 + blobs) * w);
            Cluster { comp, data: t - raw, raw, size, bounds }
        })
        .collect();
    let infos = (0..n).map(|i| le(f, infos + 4 * i, 4) as usize).map(|v| (v >> 12, v & 0xFFF)).collect();
    Content { clusters, infos }
}
impl Content {
    pub fn cluster_of(&self, i: usize) -> &Cluster {
        &self.clusters[self.infos[i].0]
    }
    /// range of a content in the plain data of its cluster
    pub fn range(&self, i: usize) -> std::ops::Range<usize> {
        let (c, b) = self.infos[i];
        self.clusters[c].bounds[b]..self.clusters[c].bounds[b + 1]
    }
}
const TABLE: [u32; 256] = {
    let mut t = [0u32; 256];
    let mut i = 0;
    while i < 256 {
        let mut c = (i as u32) << 24;
        let mut k = 0;
        while k < 8 {
            c = if c & 0x8000_0000 != 0 { c << 1 ^ 0x1EDC_6F41 } else { c << 1 };
            k += 1;
        }
        t[i] = c;
        i += 1;
    }
    t
};
/// the block checksum: polynomial 0x1EDC6F41, initial value all ones, nothing reflected
pub fn crc(b: &[u8]) -> [u8; 4] {
    let mut c = 0xFFFF_FFFFu32;
    for x in b {
        c = c << 8 ^ TABLE[((c >> 24) as u8 ^ x) as usize];
    }
    c.to_be_bytes()
}
/// a piece of a pack: `start..start+len`, followed by its checksum if it has one
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Block {
    pub what: &'static str,
    pub start: usize,
    pub len: usize,
    pub crc: bool,
}
impl Block {
    pub fn end(&self) -> usize {
        self.start + self.len + 4 * self.crc as usize
    }
    pub fn reseal(&self, f: &mut [u8]) {
        let c = crc(&f[self.start..self.start + self.len]);
        f[self.start + self.len..self.start + self.len + 4].copy_from_slice(&c);
    }
}
fn block(v: &mut Vec<Block>, what: &'static str, start: usize, len: usize) {
    v.push(Block { what, start, len, crc: true })
}
/// (position, size) of a tail
fn sized(f: &[u8], p: usize, base: usize) -> (usize, usize) {
    let so = le(f, p, 8);
    (base + (so >> 16) as usize, (so & 0xFFFF) as usize)
}
/// every block of a pack, in file order
pub fn blocks(f: &[u8], p: &Pk) -> Vec<Block> {
    let mut v = vec![];
    let b = p.pos;
    block(&mut v, "pack header", b, 60);
    block(&mut v, "kind header", b + 64, 60);
    let h = b + 64;
    match p.kind {
        b'm' => {
            let (vs, vl) = sized(f, h + 2, b);
            let n = le(f, h, 2) as usize;
            let infos = pack_infos(f, p);
            for i in &infos {
                block(&mut v, "pack info", *i, 252);
                let (c, l) = sized(f, *i + 24, b);
                block(&mut v, "pack check", c, l);
            }
            assert!(infos.len() == n);
            store_blocks(f, &mut v, vs, vl);
        }
        b'd' => {
            for (ptr, count, kind) in [(le(f, h, 8), le(f, h + 24, 4), 0), (le(f, h + 8, 8), le(f, h + 28, 4), 1), (le(f, h + 16, 8), f[h + 32] as u64, 2)] {
                block(&mut v, "pointers", b + ptr as usize, 8 * count as usize);
                for i in 0..count as usize {
                    let (t, l) = sized(f, b + ptr as usize + 8 * i, b);
                    match kind {
                        0 => block(&mut v, "index", t, l),
                        1 => {
                            let size = le(f, t + 1, 4) as usize * le(f, t + 6, 2) as usize;
                            block(&mut v, "entries", t - size - 4, size);
                            block(&mut v, "entry store", t, l);
                        }
                        _ => store_blocks(f, &mut v, t, l),
                    }
                }
            }
        }
        b'c' => {
            let d = content(f, p);
            block(&mut v, "content infos", b + le(f, h, 8) as usize, 4 * d.infos.len());
            let ptrs = b + le(f, h + 8, 8) as usize;
            block(&mut v, "clusters", ptrs, 8 * d.clusters.len());
            for (i, c) in d.clusters.iter().enumerate() {
                v.push(Block { what: if c.comp == 0 { "raw data" } else { "compressed data" }, start: c.data, len: c.raw, crc: false });
                let (t, l) = sized(f, ptrs + 8 * i, b);
                block(&mut v, "cluster", t, l);
            }
        }
        _ => unreachable!(),
    }
    let check = p.check_pos(f);
    block(&mut v, "check", check, if f[check] == 0 { 1 } else { 33 });
    v.push(Block { what: "tail", start: check + 37, len: 64, crc: false });
    v.sort_by_key(|b| (b.start, b.len));
    v
}
fn store_blocks(f: &[u8], v: &mut Vec<Block>, t: usize, l: usize) {
    let size = if f[t] == 0 { le(f, t + 1, 8) } else { le(f, t + 10, f[t + 9] as usize) } as usize;
    block(v, "values", t - size - 4, size);
    block(v, "value store", t, l);
}
