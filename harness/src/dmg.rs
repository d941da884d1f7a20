//! Damage: where the bytes of a written container are, and how they are altered.
use crate::{common::*, dec, fix, kit::*, sym};
use jubako as jbk;
use jbk::Pack;

/// a pack in a file of the container
#[derive(Clone)]
pub struct Piece {
    pub file: String,
    pub pk: dec::Pk,
}
/// the container of this harness: `mode` 0..2 of the high-level creator, 3 and more: separate packs
pub fn container(mode: u64, comp: u64) -> (fix::Fix, String, Vec<Piece>) {
    let mut contents = fix::some_contents();
    contents.extend((0..sym::param("many", 0)).map(|i| (vec![i as u8; 1 + i as usize % 3], i % 2)));
    let (f, main, files): (_, _, Vec<String>) = if mode < 3 {
        let f = fix::basic("x.jbk", mode, comp, contents);
        let files = match mode {
            0 => vec!["x.jbk"],
            1 => vec!["x.jbk", "x.jbkc"],
            _ => vec!["x.jbk", "x.jbkc", "x..jbkd"],
        };
        (f, "x.jbk", files.into_iter().map(String::from).collect())
    } else {
        let f = fix::manual(mode as u16 - 2, comp, contents);
        let files = f.packs.iter().map(|p| p.location.clone()).chain(["m.jbkm".into()]).collect();
        (f, "m.jbkm", files)
    };
    let mut v = vec![];
    for file in files {
        let b = get(&file);
        for pk in dec::packs(&b, 0) {
            v.push(Piece { file: file.clone(), pk });
        }
    }
    (f, main.into(), v)
}
/// ranges of a pack covered by its checksum
pub fn covered(f: &[u8], pk: &dec::Pk) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let mut at = pk.pos;
    if pk.kind == b'm' {
        for i in dec::pack_infos(f, pk) {
            v.push((at, i + 38));
            at = i + 256;
        }
    }
    v.push((at, pk.check_pos(f)));
    v.retain(|r| r.0 < r.1);
    v
}
/// one window of at most `w` bytes of the ranges, every `parts`-th one
pub fn window(ranges: &[(usize, usize)], w: usize) -> (usize, usize) {
    let (part, parts) = (sym::param("part", 0) as usize, sym::param("parts", 1) as usize);
    let mut v = vec![];
    for (a, b) in ranges {
        let mut p = *a + sym::param("shift", 0) as usize;
        while p < *b {
            let e = (p + w).min(*b);
            v.push((p, e));
            p = e;
        }
    }
    let v: Vec<_> = v.into_iter().enumerate().filter(|(i, _)| i % parts == part).map(|(_, x)| x).collect();
    if v.is_empty() {
        sym::stop();
    }
    v[sym::choose(v.len() as u64, "window") as usize]
}
/// a symbolic change of a window: at least one of its bytes differs
pub fn alter(f: &mut [u8], (a, b): (usize, usize)) {
    let d = sym::bytes(b - a, "delta");
    sym::assume(!sym::eq(&d, &vec![0; b - a]));
    for (x, d) in f[a..b].iter_mut().zip(d) {
        *x ^= d;
    }
}
/// result of the check of a pack alone, in memory or in a file of its own
pub fn pack_check(kind: u8, b: &[u8], mem: bool) -> Result<bool, ()> {
    let r: jbk::Reader = if mem {
        jbk::Reader::from(b.to_vec())
    } else {
        put("pack", b);
        match jbk::FileSource::open("pack") {
            Ok(f) => jbk::Reader::from(f),
            Err(_) => return Err(()),
        }
    };
    let e = |_| ();
    match kind {
        b'm' => jbk::reader::ManifestPack::new(r).map_err(e)?.check().map_err(e),
        b'd' => jbk::reader::DirectoryPack::new(r).map_err(e)?.check().map_err(e),
        _ => jbk::reader::ContentPack::new(r).map_err(e)?.check().map_err(e),
    }
}
/// result of the check of a file as a set of packs
pub fn file_check(path: &str) -> Result<bool, ()> {
    let p = jbk::tools::open_pack(path).map_err(|_| ())?;
    p.check().map_err(|_| ())
}
pub fn container_check(path: &str) -> Result<bool, ()> {
    let c = fix::open(path).map_err(|_| ())?;
    c.check().map_err(|_| ())
}

/// a change of a window of one of the files
pub fn damage_window(pieces: &[Piece]) {
    let mut files: Vec<String> = pieces.iter().map(|p| p.file.clone()).collect();
    files.dedup();
    let file = files[sym::choose(files.len() as u64, "file") as usize].clone();
    let mut b = get(&file);
    let mut packed = vec![];
    // in compressed data, a changed length makes the decoder run over every possible one
    for p in pieces.iter().filter(|p| p.file == file) {
        packed.extend(dec::blocks(&b, &p.pk).into_iter().filter(|k| k.what == "compressed data").map(|k| (k.start, k.end())));
    }
    let n = b.len();
    let w = window(&[(0, n)], sym::param("w", 4) as usize);
    if packed.iter().any(|k| k.0 < w.1 && w.0 < k.1) {
        let at = w.0 + sym::choose((w.1 - w.0) as u64, "at") as usize;
        b[at] ^= [1, 2, 0x80, 0xFF][sym::choose(4, "bits") as usize];
    } else {
        alter(&mut b, w);
    }
    put(&file, &b);
}
/// a window of any block of any pack, at its ends, around its middle and where it gets longer than
/// the steps in which it may be read
pub fn damage_block(pieces: &[Piece]) {
    let p = &pieces[sym::choose(pieces.len() as u64, "pack") as usize];
    let mut b = get(&p.file);
    let k = dec::blocks(&b, &p.pk);
    let k = k[sym::choose(k.len() as u64, "block") as usize];
    let n = k.end() - k.start;
    let at = [0, 254, 1022, 4094, 65534, n / 2, n.saturating_sub(7)][sym::choose(7, "at") as usize];
    if at >= n || (at > 0 && n < 8) {
        sym::stop();
    }
    let w = (k.start + at, (k.start + at + sym::param("w", 4) as usize).min(k.end()));
    if k.what == "compressed data" || sym::param("flip", 0) == 1 {
        b[w.0] ^= [1, 2, 0x80, 0xFF][sym::choose(4, "bits") as usize];
    } else {
        alter(&mut b, w);
    }
    put(&p.file, &b);
}
/// a window of the header of a pack and a window of its tail, or of its second header
pub fn damage_two(pieces: &[Piece]) {
    let p = &pieces[sym::choose(pieces.len() as u64, "pack") as usize];
    let mut b = get(&p.file);
    let (s, e) = (p.pk.pos, p.pk.pos + p.pk.size);
    let second = if sym::param("what", 0) == 0 { (e - 64, e) } else { (s + 64, s + 128) };
    let w = window(&[(s, s + 64)], 4);
    alter(&mut b, w);
    let w = window(&[second], 4);
    alter(&mut b, w);
    put(&p.file, &b);
}
/// 0: a block, alone or to the end of the file, filled; 1: truncation; 2: bytes appended;
/// 3: from the start of a block to the end of another, filled; 4: the same range removed;
/// 5: truncated, then filled up to its length; 6: bytes inserted before a block; 7: the start removed
pub fn damage_range(pieces: &[Piece]) {
    let (part, parts) = (sym::param("part", 0), sym::param("parts", 1));
    let p = &pieces[sym::choose(pieces.len() as u64, "pack") as usize];
    let mut b = get(&p.file);
    let fill = |b: &mut [u8]| {
        let z = [0u8, 0xFF][sym::choose(2, "fill") as usize];
        b.fill(z);
    };
    let length = |n: usize| {
        let n = n as u64;
        (sym::choose((n + parts - 1 - part) / parts, "length") * parts + part) as usize
    };
    let range = |b: &[u8]| {
        let k = dec::blocks(b, &p.pk);
        let i = sym::choose(k.len() as u64, "block") as usize;
        let j = i + sym::choose((k.len() - i) as u64, "to block") as usize;
        (k[i].start, k[j].end().max(k[i].end()))
    };
    match sym::param("how", 0) {
        0 => {
            let k = dec::blocks(&b, &p.pk);
            let k = k[sym::choose(k.len() as u64, "block") as usize];
            let e = [k.start + k.len, k.end(), b.len()][sym::choose(3, "end") as usize];
            fill(&mut b[k.start..e]);
        }
        1 => {
            let n = length(b.len());
            b.truncate(n);
        }
        2 => {
            let n = 1 + sym::choose(4, "more") * 33;
            b.extend(std::iter::repeat(sym::u8("more")).take(n as usize));
        }
        3 => {
            let (s, e) = range(&b);
            fill(&mut b[s..e]);
        }
        4 => {
            let (s, e) = range(&b);
            b.drain(s..e);
        }
        5 => {
            let n = length(b.len());
            fill(&mut b[n..]);
        }
        6 => {
            let (s, _) = range(&b);
            let n = [1usize, 4, 64, 700][sym::choose(4, "more") as usize];
            let x = sym::u8("more");
            b.splice(s..s, std::iter::repeat(x).take(n));
        }
        _ => {
            let n = length(b.len());
            b.drain(..n);
        }
    }
    put(&p.file, &b);
}

/// windows of the blocks of a content pack of `n` contents, altered or cut off: those long enough
/// are mapped, not read
pub fn many(panics: bool) {
    let (n, comp) = (sym::param("n", 1100), sym::param("comp", 0));
    let mut c = jbk::creator::ContentPackCreator::new("p.jbkc", jbk::PackId::from(1), VENDOR, Default::default(), compression(comp)).unwrap();
    let data = |i: u64| vec![(i * 7) as u8; if i % 16 == 1 { 1 + (i / 16 % 5) as usize } else { 0 }];
    for i in 0..n {
        if c.add_content(cursor(data(i)), jbk::creator::CompHint::Yes).is_err() {
            sym::fail("add_content fails");
        }
    }
    if c.finalize().is_err() {
        sym::fail("finalizing the content pack fails");
    }
    let mut b = get("p.jbkc");
    let pk = dec::packs(&b, 0).remove(0);
    let ks: Vec<_> = dec::blocks(&b, &pk).into_iter().filter(|k| k.crc && k.what != "check").collect();
    let k = ks[sym::choose(ks.len() as u64, "block") as usize];
    let l = k.end() - k.start;
    let at = [0, 4, 254, 4092, 65532, l / 2 & !3, l.saturating_sub(8)][sym::choose(7, "at") as usize];
    if at >= l || (at > 0 && l < 8) {
        sym::stop();
    }
    if sym::param("how", 0) == 0 {
        alter(&mut b, (k.start + at, (k.start + at + 4).min(k.end())));
    } else {
        b.truncate(k.start + at + sym::choose(2, "odd") as usize);
    }
    put("p.jbkc", &b);
    sym::panic_ok(panics);
    let p = match open_content("p.jbkc") {
        Ok(p) => p,
        Err(_) => return sym::cover("damaged pack read"),
    };
    let m = at as u64 / 4;
    for i in [0, 1, 17, m.saturating_sub(1), m, m + 1, m * 2, m * 4, m & !15 | 1, n - 2, n - 1, n, n + 1] {
        let got = p.get_content(jbk::ContentIdx::from(i as u32));
        if i >= n {
            sym::check(!matches!(got, Ok(Some(_))), "a content that was never added is read");
        } else if let Ok(Some(r)) = got {
            let want = data(i);
            sym::check(r.size().into_u64() == want.len() as u64, "the size of a content differs");
            if let Ok(x) = r.get_slice(jbk::Offset::zero(), want.len()) {
                sym::check(sym::eq(&x, &want), "the bytes of a content differ although a sealed block is damaged");
            }
        }
    }
    let _ = p.check();
    sym::cover("damaged pack read");
}
