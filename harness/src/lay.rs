//! A strict reading of the on-disk layout: every field where the format puts it, every checksum right.
//! Shares no code with jubako.
use crate::{dec::*, kit::*, sym};

fn need(c: bool, m: &str) {
    sym::check(c, m);
    if !c {
        sym::stop();
    }
}
fn zero(f: &[u8], a: usize, n: usize, m: &str) {
    need(sym::eq(&f[a..a + n], &vec![0; n]), m)
}
fn text(f: &[u8], p: usize) -> (Vec<u8>, usize) {
    let n = f[p] as usize;
    (f[p + 1..p + 1 + n].to_vec(), p + 1 + n)
}
/// what a pack says about itself, once its envelope is found right
/// (the pinned version counted neither the check block of a container nor, always, the checksum apart: `old`)
pub fn envelope(f: &[u8], p: &Pk, vendor: &[u8; 4], old: bool) {
    let vendor = if p.kind == b'C' { &[0; 4] } else { vendor };
    need(f.len() >= p.pos + 128 && &f[p.pos..p.pos + 3] == b"jbk" && b"mdcC".contains(&p.kind), "the magic of a pack is not the documented one");
    need(sym::eq(&f[p.pos + 4..p.pos + 8], vendor), "the vendor id is not at its place");
    need(f[p.pos + 8] == 0 && f[p.pos + 9] == 2, "the version of a pack is not 0.2");
    zero(f, p.pos + 26, 6, "flags or reserved bytes of a pack header are not zero");
    zero(f, p.pos + 48, 12, "reserved bytes of a pack header are not zero");
    let size = le(f, p.pos + 32, 8) as usize;
    let check = le(f, p.pos + 40, 8) as usize;
    need(size == p.size && p.pos + size <= f.len(), "the size of a pack is not the declared one");
    let block = if p.kind == b'C' { 5 } else { 37 };
    let size = if old && p.kind == b'C' { size + 5 } else { size };
    need(check + block + 64 == size, "the check block of a pack is not right before its tail");
    let mut tail = f[p.pos..p.pos + 64].to_vec();
    tail.reverse();
    need(sym::eq(&f[p.pos + size - 64..p.pos + size], &tail), "the tail of a pack does not mirror its header");
    let c = p.pos + check;
    if p.kind == b'C' {
        need(f[c] == 0, "the check block of a container is not of kind none");
    } else {
        need(f[c] == 1, "the check block of a pack is not of kind blake3");
        need(sym::eq(&f[c + 1..c + 33], &hash(f, p)), "the hash of a pack is not the one of its bytes");
    }
    if p.kind == b'C' {
        let (at, n) = (p.pos + le(f, p.pos + 64, 8) as usize, le(f, p.pos + 72, 2) as usize);
        zero(f, p.pos + 74, 26, "reserved bytes of a container header are not zero");
        sealed(f, p.pos, 60);
        sealed(f, p.pos + 64, 60);
        need(at + 36 * n == c, "the pack locators do not end at the check block");
        for i in 0..n {
            sealed(f, at + 36 * i, 32);
        }
        sealed(f, c, 1);
    } else {
        for b in blocks(f, p) {
            if b.crc && b.what != "pack check" {
                sealed(f, b.start, b.len);
            }
        }
    }
}
/// what the hash of a pack covers, with the bytes that may change later replaced by zeros
pub fn hash(f: &[u8], p: &Pk) -> [u8; 32] {
    let mut v = f[p.pos..p.check_pos(f)].to_vec();
    if p.kind == b'm' {
        for i in pack_infos(f, p) {
            v[i - p.pos + 38..i - p.pos + 256].fill(0);
        }
    }
    sym::hash(&v)
}
pub fn sealed(f: &[u8], a: usize, n: usize) {
    need(sym::eq(&f[a + n..a + n + 4], &crc(&f[a..a + n])), "the checksum of a block is not the documented one");
}
/// the packs of a file, all envelopes right; a file that is a container lists them all
pub fn file(f: &[u8], vendor: &[u8; 4], old: bool) -> Vec<Pk> {
    let h = header_at(f, 0);
    envelope(f, &h, vendor, old);
    need(h.size + if old && h.kind == b'C' { 5 } else { 0 } == f.len(), "a file is longer or shorter than its pack");
    if h.kind != b'C' {
        return vec![h];
    }
    let at = le(f, 64, 8) as usize;
    let v = packs(f, 0);
    for (i, p) in v.iter().enumerate() {
        let l = at + 36 * i;
        need(sym::eq(&f[l..l + 16], &p.uuid), "a pack locator names another pack");
        need(le(f, p.pos + 32, 8) == le(f, l + 16, 8), "a pack locator has another size than its pack");
        envelope(f, p, vendor, old);
    }
    v
}

// ---------------------------------------------------------------- manifest
#[derive(Debug)]
pub struct Info {
    pub uuid: [u8; 16],
    pub size: usize,
    pub check: Vec<u8>,
    pub id: u16,
    pub kind: u8,
    pub free: Vec<u8>,
    pub location: Vec<u8>,
}
pub fn manifest(f: &[u8], p: &Pk, old: bool) -> Vec<Info> {
    zero(f, p.pos + 64 + 10, 26, "reserved bytes of a manifest header are not zero");
    let so = le(f, p.pos + 66, 8);
    let store = lstore(f, p.pos + (so >> 16) as usize, (so & 0xFFFF) as usize);
    pack_infos(f, p)
        .into_iter()
        .map(|i| {
            let c = le(f, i + 24, 8);
            let (at, n) = (p.pos + (c >> 16) as usize, (c & 0xFFFF) as usize);
            let n = if old && n == 37 { 33 } else { n };
            sealed(f, at, n);
            sealed(f, i, 252);
            need(f[i + 35] == 0, "the group of a pack is not zero");
            let (location, end) = text(f, i + 38);
            zero(f, end, i + 252 - end, "the location of a pack is not padded with zeros");
            let mut uuid = [0; 16];
            uuid.copy_from_slice(&f[i..i + 16]);
            Info {
                uuid,
                size: le(f, i + 16, 8) as usize,
                check: f[at..at + n].to_vec(),
                id: le(f, i + 32, 2) as u16,
                kind: f[i + 34],
                free: store.value(f, le(f, i + 36, 2) as usize, None).map(|r| f[r].to_vec()).unwrap_or_default(),
                location,
            }
        })
        .collect()
}

// ---------------------------------------------------------------- directory
pub struct LStore {
    pub plain: bool,
    /// the data block
    pub data: std::ops::Range<usize>,
    /// start of every value and the end of the last one (indexed stores)
    pub bounds: Vec<usize>,
}
/// the value store whose tail is `len` bytes at `t`
fn lstore(f: &[u8], t: usize, len: usize) -> LStore {
    sealed(f, t, len);
    match f[t] {
        0 => {
            need(len == 9, "the tail of a plain value store has another size");
            let n = le(f, t + 1, 8) as usize;
            sealed(f, t - 4 - n, n);
            LStore { plain: true, data: t - 4 - n..t - 4, bounds: vec![] }
        }
        1 => {
            let (count, w) = (le(f, t + 1, 8) as usize, f[t + 9] as usize);
            need((1..=8).contains(&w) && len == 10 + w * count.max(1), "the tail of an indexed value store has another size");
            let n = le(f, t + 10, w) as usize;
            let mut bounds = vec![0];
            bounds.extend((1..count).map(|i| le(f, t + 10 + i * w, w) as usize));
            if count > 0 {
                bounds.push(n);
            }
            sealed(f, t - 4 - n, n);
            LStore { plain: false, data: t - 4 - n..t - 4, bounds }
        }
        _ => sym::fail("a value store is of an unknown kind"),
    }
}
impl LStore {
    /// where the value of key `k` is; its first `size` bytes if given
    fn value(&self, _f: &[u8], k: usize, size: Option<usize>) -> Option<std::ops::Range<usize>> {
        let (a, b) = if self.plain {
            (k, k + size?)
        } else {
            let a = *self.bounds.get(k)?;
            (a, match size {
                Some(s) => a + s,
                None => *self.bounds.get(k + 1)?,
            })
        };
        (b <= self.data.len()).then(|| self.data.start + a..self.data.start + b)
    }
}
#[derive(Debug, Clone)]
pub struct Key {
    pub kind: u8,
    pub data: u8,
    pub complement: u8,
    pub store: usize,
    pub default: Vec<u8>,
    pub name: Vec<u8>,
    /// bytes it takes in an entry
    pub size: usize,
    /// where its default is
    pub at: usize,
}
fn key(f: &[u8], p: &mut usize) -> Key {
    let b = f[*p];
    *p += 1;
    let mut k = Key { kind: b >> 4, data: b & 15, complement: 0, store: 0, default: vec![], name: vec![], size: 0, at: 0 };
    let d = b & 8 != 0;
    let mut default = 0;
    match k.kind {
        0 => {
            k.size = k.data as usize + 1;
            return k;
        }
        1 => {
            let (pack, content) = (1 + (b >> 2 & 1) as usize, 1 + (b & 3) as usize);
            if d {
                default = pack;
            }
            k.size = content + if d { 0 } else { pack };
        }
        2 | 3 => {
            let n = 1 + (b & 7) as usize;
            if d {
                default = n;
            }
            k.size = if d { 0 } else { n };
        }
        5 => {
            need(b & 4 == 0, "a reserved bit of an array key is set");
            k.complement = f[*p];
            *p += 1;
            let (ss, zz, kk) = ((b & 3) as usize, (k.complement & 31) as usize, (k.complement >> 5) as usize);
            if kk != 0 {
                k.store = f[*p] as usize;
                *p += 1;
            }
            if d {
                default = ss + zz + kk;
            }
            k.size = if d { 0 } else { ss + zz + kk };
        }
        8 => k.size = 1,
        _ => sym::fail("an unknown kind of key is written"),
    }
    k.at = *p;
    k.default = f[*p..*p + default].to_vec();
    *p += default;
    (k.name, *p) = text(f, *p);
    k
}
/// a value, and the places its free bytes come from
pub struct LVal {
    pub v: V,
    pub at: Vec<std::ops::Range<usize>>,
}
impl Key {
    /// the value whose entry bytes are at `p`
    fn value(&self, f: &[u8], p: usize, stores: &[LStore]) -> LVal {
        let d = self.data & 8 != 0;
        let one = |v, r| LVal { v, at: vec![r] };
        match self.kind {
            1 => {
                let (pack, content) = (1 + (self.data >> 2 & 1) as usize, 1 + (self.data & 3) as usize);
                let (pid, c) = if d { (self.at, p) } else { (p, p + pack) };
                LVal { v: V::C(le(f, pid, pack) as u16, le(f, c, content) as u32), at: vec![pid..pid + pack, c..c + content] }
            }
            2 | 3 => {
                let n = 1 + (self.data & 7) as usize;
                let at = if d { self.at } else { p };
                let u = le(f, at, n);
                if self.kind == 2 {
                    one(V::U(u), at..at + n)
                } else {
                    let s = 64 - 8 * n as u32;
                    one(V::S((u << s) as i64 >> s), at..at + n)
                }
            }
            5 => {
                let (ss, zz, kk) = ((self.data & 3) as usize, (self.complement & 31) as usize, (self.complement >> 5) as usize);
                let at = if d { self.at } else { p };
                let len = (ss != 0).then(|| sym::conc(le(f, at, ss)) as usize);
                let inline = len.map_or(zz, |l| l.min(zz));
                let mut v = f[at + ss..at + ss + inline].to_vec();
                let mut from = vec![at + ss..at + ss + inline];
                if d || len.is_some() {
                    zero(f, at + ss + inline, zz - inline, "the inline part of an array is not padded with zeros");
                }
                if kk != 0 {
                    need(self.store < stores.len(), "an array names a value store that does not exist");
                    let k = sym::conc(le(f, at + ss + zz, kk)) as usize;
                    match stores[self.store].value(f, k, len.map(|l| l - inline)) {
                        Some(r) => {
                            v.extend_from_slice(&f[r.clone()]);
                            from.push(r);
                        }
                        None => sym::fail("an array names a value that is not in its store"),
                    }
                } else {
                    need(len.map_or(true, |l| l == inline), "an array is longer than what is stored");
                }
                LVal { v: V::A(v), at: from }
            }
            _ => sym::fail("a key without value has a name"),
        }
    }
}
pub struct LEntries {
    pub entries: Vec<LEntry>,
    pub data: std::ops::Range<usize>,
}
pub struct LEntry {
    pub variant: Option<(usize, Vec<u8>)>,
    pub vals: Vec<(Vec<u8>, LVal)>,
}
fn entries(f: &[u8], t: usize, len: usize, stores: &[LStore]) -> LEntries {
    sealed(f, t, len);
    need(f[t] == 0, "an entry store is of an unknown kind");
    let (count, size) = (le(f, t + 1, 4) as usize, le(f, t + 6, 2) as usize);
    need(f[t + 5] == 0, "the flags of an entry store are not zero");
    let (variants, keys) = (f[t + 8] as usize, f[t + 9] as usize);
    let mut p = t + 10;
    let keys: Vec<Key> = (0..keys).map(|_| key(f, &mut p)).collect();
    need(p == t + len, "an entry store has bytes after its keys");
    let first = keys.iter().position(|k| k.kind == 8).unwrap_or(keys.len());
    let (common, rest) = keys.split_at(first);
    let mut vs: Vec<Vec<Key>> = vec![];
    for k in rest {
        if k.kind == 8 {
            vs.push(vec![]);
        }
        vs.last_mut().unwrap().push(k.clone());
    }
    need(vs.len() == variants, "the number of variants is not the declared one");
    let width = |ks: &[Key]| ks.iter().map(|k| k.size).sum::<usize>();
    let c = width(common);
    need(variants > 0 || c == size, "the size of an entry is not the one of its keys");
    for v in &vs {
        need(c + width(v) == size, "the size of an entry is not the one of its keys in a variant");
    }
    let data = t - 4 - count * size..t - 4;
    sealed(f, data.start, data.len());
    let entries = (0..count)
        .map(|i| {
            let mut p = data.start + i * size;
            let mut vals = vec![];
            let mut take = |ks: &[Key], p: &mut usize| {
                for k in ks {
                    if k.kind == 0 {
                        zero(f, *p, k.size, "padding is not zero");
                    } else if k.kind != 8 {
                        vals.push((k.name.clone(), k.value(f, *p, stores)));
                    }
                    *p += k.size;
                }
            };
            take(common, &mut p);
            let variant = if variants > 0 {
                let v = sym::conc(f[p] as u64) as usize;
                need(v < variants, "the variant of an entry is not declared");
                take(&vs[v], &mut p);
                Some((v, vs[v][0].name.clone()))
            } else {
                None
            };
            LEntry { variant, vals }
        })
        .collect();
    LEntries { entries, data }
}
pub struct LIndex {
    pub name: Vec<u8>,
    pub store: usize,
    pub count: u32,
    pub offset: u32,
}
pub struct LDir {
    pub indexes: Vec<LIndex>,
    pub stores: Vec<LStore>,
    pub entries: Vec<LEntries>,
}
pub fn directory(f: &[u8], p: &Pk) -> LDir {
    let h = p.pos + 64;
    zero(f, h + 33, 3, "reserved bytes of a directory header are not zero");
    let table = |ptr: usize, n: usize| -> Vec<(usize, usize)> {
        let at = p.pos + le(f, h + ptr, 8) as usize;
        sealed(f, at, 8 * n);
        (0..n)
            .map(|i| {
                let so = le(f, at + 8 * i, 8);
                (p.pos + (so >> 16) as usize, (so & 0xFFFF) as usize)
            })
            .collect()
    };
    let stores: Vec<LStore> = table(16, f[h + 32] as usize).into_iter().map(|(t, l)| lstore(f, t, l)).collect();
    let es = table(8, le(f, h + 28, 4) as usize).into_iter().map(|(t, l)| entries(f, t, l, &stores)).collect();
    let indexes = table(0, le(f, h + 24, 4) as usize)
        .into_iter()
        .map(|(t, l)| {
            sealed(f, t, l);
            zero(f, t + 12, 5, "the free data and the key of an index are not the ones given");
            let (name, end) = text(f, t + 17);
            need(end == t + l, "an index has bytes after its name");
            LIndex { name, store: le(f, t, 4) as usize, count: le(f, t + 4, 4) as u32, offset: le(f, t + 8, 4) as u32 }
        })
        .collect();
    LDir { indexes, stores, entries: es }
}
/// the directory must hold exactly these entries in one store, under these indexes
pub fn holds(d: &LDir, store: usize, s: &Schema, es: &[Ent], idxs: &[Idx]) {
    let got = &d.entries[store].entries;
    need(got.len() == es.len(), "an entry store has another number of entries");
    for (g, e) in got.iter().zip(es) {
        need(g.variant.as_ref().map(|v| v.0) == e.variant, "the variant of an entry differs");
        if let (Some((_, n)), Some(v)) = (&g.variant, e.variant) {
            need(n == s.variants[v].0.as_bytes(), "the name of a variant differs");
        }
        let props = s.props_of(e.variant);
        need(g.vals.len() == props.len(), "an entry has another number of properties");
        for ((n, _), v) in props.iter().zip(&e.vals) {
            match g.vals.iter().find(|(m, _)| m == n.as_bytes()) {
                None => sym::fail("a property is not in the entry"),
                Some((_, l)) => {
                    let (mut x, mut y) = (vec![], vec![]);
                    l.v.canon(&mut x);
                    v.canon(&mut y);
                    sym::check(sym::eq(&x, &y), "a value decoded from the bytes differs from the one written");
                }
            }
        }
    }
    for i in idxs {
        match d.indexes.iter().find(|g| g.name == i.name.as_bytes() && g.store == store) {
            None => sym::fail("an index is not in the bytes"),
            Some(g) => need(g.count == i.count && g.offset == i.offset, "the window of an index differs"),
        }
    }
}

// ---------------------------------------------------------------- content
/// the plain bytes of a content, and whether they are in the file as they are
pub fn blob(f: &[u8], c: &Content, i: usize) -> (Vec<u8>, Option<std::ops::Range<usize>>) {
    need(c.infos[i].0 < c.clusters.len(), "a content names a cluster that does not exist");
    let k = c.cluster_of(i);
    need(c.infos[i].1 + 1 < k.bounds.len(), "a content names a blob that does not exist");
    need(k.bounds.windows(2).all(|w| w[0] <= w[1]), "the offsets of a cluster are not sorted");
    let r = c.range(i);
    if k.comp == 0 {
        need(k.raw == k.size, "a raw cluster has two sizes");
        let at = k.data + r.start..k.data + r.end;
        return (f[at.clone()].to_vec(), Some(at));
    }
    match k.plain(f) {
        None => sym::fail("a cluster is not a stream of its codec"),
        Some(v) => (v[r].to_vec(), None),
    }
}
