//! C01: content comes back byte-identical at the address insertion returned.
use crate::{common::*, kit::*, sym};
use jbk::creator::{CompHint, ContentPackCreator, InputFile, InputReader};
use jubako as jbk;
use std::io::Write;

pub fn hint(i: u64) -> CompHint {
    match i {
        0 => CompHint::Yes,
        1 => CompHint::No,
        _ => CompHint::Detect,
    }
}
/// an input reader of the given kind over exactly `data`
pub fn source(kind: u64, i: usize, data: &[u8]) -> Box<dyn InputReader> {
    if kind == 0 {
        return cursor(data.to_vec());
    }
    let path = format!("in{i}");
    let (pre, post): (&[u8], &[u8]) = match kind {
        1 => (b"", b""),
        2 => (b"<<<", b">>"),
        _ => (b"<", b""),
    };
    let mut f = std::fs::File::create(&path).unwrap();
    f.write_all(pre).unwrap();
    f.write_all(data).unwrap();
    f.write_all(post).unwrap();
    drop(f);
    match kind {
        1 => Box::new(InputFile::open(&path).unwrap()),
        2 => Box::new(InputFile::new_range(std::fs::File::open(&path).unwrap(), 3, Some(data.len() as u64)).unwrap()),
        _ => Box::new(InputFile::new_range(std::fs::File::open(&path).unwrap(), 1, None).unwrap()),
    }
}
pub struct Item {
    pub data: Vec<u8>,
    pub hint: u64,
    pub src: u64,
}
pub fn build(path: &str, comp: jbk::creator::Compression, items: &[Item]) -> Vec<jbk::ContentAddress> {
    let mut c = ContentPackCreator::new(path, jbk::PackId::from(1), VENDOR, Default::default(), comp).unwrap();
    let mut addrs = vec![];
    for (i, it) in items.iter().enumerate() {
        match c.add_content(source(it.src, i, &it.data), hint(it.hint)) {
            Ok(a) => addrs.push(a),
            Err(_) => sym::fail("add_content fails"),
        }
    }
    match c.finalize() {
        Ok(_) => {}
        Err(_) => sym::fail("finalizing the content pack fails"),
    }
    addrs
}
pub fn verify(path: &str, items: &[Item], addrs: &[jbk::ContentAddress]) {
    let p = ok(open_content(path), "the written content pack does not open");
    sym::check(p.get_content_count().into_u64() == items.len() as u64, "the pack does not report as many contents as were inserted");
    for (it, a) in items.iter().zip(addrs) {
        sym::check(a.pack_id.into_u16() == 1, "the returned address names another pack");
        let r = ok(p.get_content(a.content_id), "reading a stored content fails");
        let r = some(r, "a stored content is reported as absent");
        sym::check(r.size().into_u64() == it.data.len() as u64, "a stored content has another size");
        sym::check(sym::eq(&region_bytes(&r), &it.data), "a stored content differs from what was inserted");
    }
}
pub fn past_end(path: &str, n: u64) {
    let p = ok(open_content(path), "the written content pack does not open");
    let j = sym::uint(32, "past");
    sym::assume(j >= n);
    match p.get_content(jbk::ContentIdx::from(j as u32)) {
        Ok(None) => {}
        Ok(Some(_)) => sym::fail("an address past the count answers with bytes"),
        Err(_) => sym::fail("an address past the count answers with an error"),
    }
}
fn level(comp: u64) -> jbk::creator::Compression {
    compression(comp)
}

/// n contents, symbolic bytes, every combination of length, hint and source
pub fn c01_seq() {
    let (comp, n) = (sym::param("comp", 3), sym::param("n", 2) as usize);
    let nsrc = sym::param("srcs", 4);
    let nhint = sym::param("hints", 2);
    let maxlen = sym::param("maxlen", 2);
    let mut items = vec![];
    for i in 0..n {
        let len = sym::choose(maxlen + 1, "len") as usize;
        let h = sym::choose(nhint, "hint");
        let src = sym::choose(nsrc, "source");
        items.push(Item { data: sym::bytes(len, &format!("data{i}")), hint: h, src });
    }
    let addrs = build("p.jbkc", level(comp), &items);
    verify("p.jbkc", &items, &addrs);
    past_end("p.jbkc", n as u64);
    sym::cover("sequence stored and read back");
}

/// concrete filler of a given kind with symbolic bytes at both ends
pub fn filler(len: usize, kind: u64, name: &str) -> Vec<u8> {
    let mut v = vec![0u8; len];
    for (i, b) in v.iter_mut().enumerate() {
        *b = if kind == 0 { 7 } else { ((i as u32).wrapping_mul(2654435761) >> 13) as u8 };
    }
    let k = len.min(2);
    sym::fill(&mut v[..k], name);
    if len > 4 {
        let m = len / 2;
        sym::fill(&mut v[m..m + 1], name);
        sym::fill(&mut v[len - 1..], name);
    }
    v
}
/// total sizes around the offset-width boundaries; compressible or not
pub fn c01_width() {
    let comp = sym::param("comp", 3);
    let base = sym::param("base", 256);
    let h = sym::param("hint", 0);
    let kind = sym::param("kind", 1);
    let span = sym::param("span", 3);
    let total = base - span + sym::choose(2 * span + 1, "total");
    let first = match sym::choose(3, "split") {
        0 => 1,
        1 => total - 1,
        _ => total,
    };
    let mut items = vec![Item { data: filler(first as usize, kind, "a"), hint: h, src: 0 }];
    if first < total {
        items.push(Item { data: filler((total - first) as usize, kind, "b"), hint: h, src: 1 });
    }
    let addrs = build("p.jbkc", level(comp), &items);
    verify("p.jbkc", &items, &addrs);
    sym::cover("boundary size stored and read back");
}
/// more contents than one cluster may hold
pub fn c01_many() {
    let comp = sym::param("comp", 0);
    let n = sym::param("n", 4098);
    let h = sym::param("hint", 1);
    let every = sym::param("every", 1);
    let mut c = ContentPackCreator::new("p.jbkc", jbk::PackId::from(1), VENDOR, Default::default(), level(comp)).unwrap();
    let mut addrs = vec![];
    let d = sym::bytes(8, "d");
    let data = |i: u64| -> Vec<u8> {
        if i % 64 == 63 || (4093..4097).contains(&i) {
            vec![d[(i % 8) as usize], i as u8]
        } else if i % every == 0 {
            vec![i as u8]
        } else {
            vec![]
        }
    };
    for i in 0..n {
        match c.add_content(cursor(data(i)), hint(h)) {
            Ok(a) => addrs.push(a),
            Err(_) => sym::fail("add_content fails"),
        }
    }
    if c.finalize().is_err() {
        sym::fail("finalizing the content pack fails");
    }
    let p = ok(open_content("p.jbkc"), "the written content pack does not open");
    sym::check(p.get_content_count().into_u64() == n, "the pack does not report as many contents as were inserted");
    for i in [0, 1, 63, 4093, 4094, 4095, 4096, n - 2, n - 1] {
        let r = some(ok(p.get_content(addrs[i as usize].content_id), "reading a stored content fails"), "a stored content is reported as absent");
        sym::check(sym::eq(&region_bytes(&r), &data(i)), "a stored content differs from what was inserted");
    }
    past_end("p.jbkc", n);
    sym::cover("many contents stored and read back");
}
/// contents of the size of a cluster
pub fn c01_big() {
    let comp = sym::param("comp", 3);
    let h = sym::param("hint", 0);
    let a = sym::param("a", 3 << 20) as usize;
    let b = sym::param("b", 2 << 20) as usize;
    let items = vec![
        Item { data: filler(a, 0, "a"), hint: h, src: 0 },
        Item { data: filler(b, 0, "b"), hint: h, src: 2 },
        Item { data: sym::bytes(3, "c"), hint: h, src: 0 },
    ];
    let addrs = build("p.jbkc", level(comp), &items);
    verify("p.jbkc", &items, &addrs);
    sym::cover("cluster-sized contents stored and read back");
}
/// automatic detection: low / high entropy around the 4 KiB sample
pub fn c01_detect() {
    let comp = sym::param("comp", 3);
    let mut items = vec![];
    for i in 0..2 {
        let k = sym::choose(3, "entropy");
        let len = [0usize, 3, 300][sym::choose(3, "len") as usize];
        let mut d = vec![0u8; len];
        for (j, b) in d.iter_mut().enumerate() {
            *b = match k {
                0 => 1,
                1 => j as u8,
                _ => (j as u8) & 3,
            };
        }
        items.push(Item { data: d, hint: 2, src: [0, 2][i] });
    }
    let addrs = build("p.jbkc", level(comp), &items);
    verify("p.jbkc", &items, &addrs);
    sym::cover("detected contents stored and read back");
}
