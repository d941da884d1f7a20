//! C16: the compression hint decides how a content is stored; the deduplicating adder stores
//! identical contents once.
use crate::{c01, common::*, dec, fix, kit::*, sym};
use jbk::creator::{BasicCreator, CachedContentAdder, CompHint, ContentAdder, ContentPackCreator, InputReader};
use jubako as jbk;
use std::rc::Rc;
use std::sync::Arc;

/// content `i` of the pack must be `data`, stored as the hint says (2: either way)
fn stored_as(f: &[u8], d: &dec::Content, i: usize, data: &[u8], comp: u64, hint: u64) {
    let c = d.cluster_of(i);
    let r = d.range(i);
    sym::check(r.len() == data.len(), "a content is stored with another size");
    if comp == 0 || hint == 1 {
        sym::check(c.comp == 0, "a content that must not be compressed is in a compressed cluster");
    } else if hint == 0 {
        sym::check(c.comp as u64 == comp, "a content that must be compressed is not in a cluster of the pack's algorithm");
    } else {
        sym::check(c.comp == 0 || c.comp as u64 == comp, "a content is in a cluster of another algorithm");
    }
    if c.comp == 0 {
        sym::check(c.raw == c.size, "an uncompressed cluster has another stored size");
        sym::check(sym::eq(&f[c.data + r.start..c.data + r.end], data), "an uncompressed content is not stored verbatim");
    } else {
        let p = match c.plain(f) {
            Some(p) => p,
            None => sym::fail("a compressed cluster does not hold what its tail says"),
        };
        sym::check(sym::eq(&p[r], data), "a compressed content does not hold what was inserted");
    }
}
fn content_of(path: &str) -> (Vec<u8>, dec::Content) {
    let f = get(path);
    let p = dec::packs(&f, 0).into_iter().find(|p| p.kind == b'c').unwrap();
    let d = dec::content(&f, &p);
    (f, d)
}
/// every sequence of hints, lengths and sources
pub fn c16_hints() {
    let (comp, n) = (sym::param("comp", 3), sym::param("n", 2) as usize);
    let (nsrc, maxlen) = (sym::param("srcs", 2), sym::param("maxlen", 2));
    let mut items = vec![];
    for i in 0..n {
        let h = sym::choose(3, "hint");
        let len = sym::choose(maxlen + 1, "len") as usize;
        // automatic detection computes an entropy: keep its bytes concrete
        let data = if h == 2 { vec![7; len] } else { sym::bytes(len, "data") };
        items.push(c01::Item { data, hint: h, src: [0, 2, 1, 3][sym::choose(nsrc, "source") as usize] });
    }
    let addrs = c01::build("p.jbkc", compression(comp), &items);
    let (f, d) = content_of("p.jbkc");
    sym::check(d.infos.len() == n, "the pack holds another number of contents");
    for (it, a) in items.iter().zip(&addrs) {
        stored_as(&f, &d, a.content_id.into_usize(), &it.data, comp, it.hint);
    }
    sym::cover("hints followed");
}
/// sizes at the boundaries of the writer: the entropy sample, the cluster size, offset widths
pub fn c16_sizes() {
    let comp = sym::param("comp", 3);
    let h = sym::param("hint", 0);
    let len = sym::param("len", 4 << 20) - 1 + sym::choose(3, "len");
    let kind = sym::param("kind", 0);
    let items = vec![
        c01::Item { data: c01::filler(3, 0, "a"), hint: 1 - h, src: 0 },
        c01::Item { data: c01::filler(len as usize, kind, "b"), hint: h, src: sym::choose(2, "source") * 2 },
        c01::Item { data: c01::filler(5, 1, "c"), hint: h, src: 0 },
        c01::Item { data: c01::filler(5, 1, "d"), hint: 1 - h, src: 0 },
    ];
    let addrs = c01::build("p.jbkc", compression(comp), &items);
    let (f, d) = content_of("p.jbkc");
    for (it, a) in items.iter().zip(&addrs) {
        stored_as(&f, &d, a.content_id.into_usize(), &it.data, comp, it.hint);
    }
    sym::cover("boundary sizes follow the hint");
}
/// many clusters of both kinds
pub fn c16_many() {
    let comp = sym::param("comp", 3);
    let n = sym::param("n", 8195);
    let mut c = ContentPackCreator::new("p.jbkc", jbk::PackId::from(1), VENDOR, Default::default(), compression(comp)).unwrap();
    let d = sym::bytes(4, "d");
    let at = |i: u64| -> (Vec<u8>, u64) { (vec![if (4090..4100).contains(&(i % 4096)) { d[(i % 4) as usize] } else { i as u8 }, (i >> 8) as u8], (i / 3) % 2) };
    for i in 0..n {
        let (b, h) = at(i);
        if c.add_content(cursor(b), c01::hint(h)).is_err() {
            sym::fail("add_content fails");
        }
    }
    if c.finalize().is_err() {
        sym::fail("finalizing the content pack fails");
    }
    let (f, p) = content_of("p.jbkc");
    for i in 0..n {
        let (_, h) = at(i);
        let want = if comp == 0 || h == 1 { 0 } else { comp as u8 };
        sym::check(p.cluster_of(i as usize).comp == want, "one of many contents is not stored as its hint says");
    }
    for i in [0, 1, 2, 3, 4094, 4095, 4096, 8189, 8190, n - 1] {
        let (b, h) = at(i);
        stored_as(&f, &p, i as usize, &b, comp, h);
    }
    sym::cover("many contents follow the hint");
}
/// the high-level creator, each packaging
pub fn c16_modes() {
    let (mode, comp) = (sym::param("mode", 0), sym::param("comp", 3));
    let mut contents = fix::some_contents();
    for (d, _) in contents.iter_mut() {
        let n = d.len();
        if n > 1 {
            d[n / 2] = sym::u8("byte");
        }
    }
    let want = contents.clone();
    let x = fix::basic("x.jbk", mode, comp, contents);
    let (f, d) = content_of(if mode == 0 { "x.jbk" } else { "x.jbkc" });
    for (i, (b, h)) in want.iter().enumerate() {
        stored_as(&f, &d, x.items[i].content as usize, b, comp, *h);
    }
    sym::cover("container follows the hint");
}

struct Seen {
    data: Vec<u8>,
    addr: jbk::ContentAddress,
    hint: u64,
}
/// adds `data`; it must share the address of an identical one already there
fn add<A: ContentAdder>(a: &mut A, seen: &mut Vec<Seen>, data: Vec<u8>, src: u64, i: usize, h: u64) {
    let addr = match a.add_content(c01::source(src, i, &data), c01::hint(h)) {
        Ok(x) => x,
        Err(_) => sym::fail("add_content fails"),
    };
    let mut known = false;
    for s in seen.iter() {
        if s.data.len() == data.len() && s.data == data {
            sym::check(s.addr == addr, "identical contents have different addresses");
            known = true;
        } else {
            sym::check(s.addr != addr, "different contents share an address");
        }
    }
    if !known {
        seen.push(Seen { data, addr, hint: h });
    }
}
fn finish(c: ContentPackCreator<jbk::creator::NamedFile>) {
    if c.finalize().is_err() {
        sym::fail("finalizing the content pack fails");
    }
}
fn all_there(path: &str, seen: &[Seen], comp: u64) {
    let (f, d) = content_of(path);
    sym::check(d.infos.len() == seen.len(), "identical contents are stored several times");
    sym::check(d.clusters.iter().map(|c| c.bounds.len() - 1).sum::<usize>() == seen.len(), "identical contents are stored several times");
    for s in seen {
        stored_as(&f, &d, s.addr.content_id.into_usize(), &s.data, comp, s.hint);
    }
    let total: usize = seen.iter().map(|s| s.data.len()).sum();
    sym::check(d.clusters.iter().map(|c| c.size).sum::<usize>() == total, "the clusters hold more than the contents");
}
/// symbolic contents through the deduplicating adder: equal or not, any hint and source
pub fn c16_dedup() {
    let (comp, n) = (sym::param("comp", 3), sym::param("n", 3) as usize);
    let (nsrc, maxlen) = (sym::param("srcs", 2), sym::param("maxlen", 1));
    let nhint = sym::param("hints", 2);
    let c = ContentPackCreator::new("p.jbkc", jbk::PackId::from(1), VENDOR, Default::default(), compression(comp)).unwrap();
    let mut a = CachedContentAdder::new(c, Rc::new(()));
    let mut seen = vec![];
    for i in 0..n {
        let len = sym::choose(maxlen + 1, "len") as usize;
        let h = sym::choose(nhint, "hint");
        let src = [0, 2, 1, 3][sym::choose(nsrc, "source") as usize];
        add(&mut a, &mut seen, sym::bytes(len, &format!("data{i}")), src, i, h);
    }
    finish(a.into_inner());
    all_there("p.jbkc", &seen, comp);
    sym::cover("deduplicated contents stored once");
}
/// contents around the size from which the adder hashes the source without keeping it
pub fn c16_dedup_big() {
    let comp = sym::param("comp", 0);
    let h = sym::param("hint", 1);
    let len = ((4 << 20) - 1 + sym::param("len", 1)) as usize;
    let c = ContentPackCreator::new("p.jbkc", jbk::PackId::from(1), VENDOR, Default::default(), compression(comp)).unwrap();
    let mut a = CachedContentAdder::new(c, Rc::new(()));
    let mut seen = vec![];
    let src = sym::choose(4, "source");
    let d = c01::filler(len, 0, "d");
    add(&mut a, &mut seen, d.clone(), src, 0, h);
    add(&mut a, &mut seen, vec![1, 2], 0, 1, h);
    add(&mut a, &mut seen, d.clone(), sym::param("src2", 2), 2, 1 - h);
    let mut e = d.clone();
    let at = [0, len / 2, len - 1][sym::choose(3, "at") as usize];
    e[at] = sym::u8("e");
    sym::assume(e[at] != d[at]);
    add(&mut a, &mut seen, e, sym::param("src3", 0), 3, h);
    finish(a.into_inner());
    all_there("p.jbkc", &seen, comp);
    sym::cover("big deduplicated contents stored once");
}
/// around the high-level creator
pub fn c16_dedup_basic() {
    let (mode, comp) = (sym::param("mode", 0), sym::param("comp", 3));
    let c = BasicCreator::new("x.jbk", fix::mode(mode), VENDOR, compression(comp), Arc::new(())).unwrap();
    let mut a = CachedContentAdder::new(c, Rc::new(()));
    let mut seen = vec![];
    for i in 0..3 {
        add(&mut a, &mut seen, sym::bytes(2, "data"), [0, 2][sym::choose(2, "source") as usize], i, sym::choose(2, "hint"));
    }
    let items = seen.iter().map(|s| fix::Item { pack: s.addr.pack_id.into_u16(), content: s.addr.content_id.into_u32(), data: s.data.clone() }).collect();
    let f = fix::fix(items);
    if a.into_inner().finalize(Box::new(f.dir()), vec![]).is_err() {
        sym::fail("finalizing the container fails");
    }
    all_there(if mode == 0 { "x.jbk" } else { "x.jbkc" }, &seen, comp);
    fix::reads_exactly("x.jbk", &f);
    sym::cover("deduplicated container read back");
}
