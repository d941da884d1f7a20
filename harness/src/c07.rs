//! C07: threads that read from one opened pack or container get the stored bytes, and end.
use crate::{enc, fix, kit::*, sym};
use jbk::reader::{ByteRegion, ContentPack};
use jubako as jbk;
use std::io::Read;
use std::sync::Arc;

type Data = Arc<Vec<Vec<u8>>>;

/// bytes that differ from place to place, with symbolic ones around every multiple of 4096
fn blob(seed: u8, at: usize, len: usize, syms: bool) -> Vec<u8> {
    let mut v: Vec<u8> = (0..len).map(|i| ((at + i) / 256) as u8 ^ seed | 1).collect();
    if syms {
        for i in 0..len {
            if (at + i + 1) % 4096 < 2 {
                v[i] = sym::u8("byte at the edge of a chunk");
            }
        }
    }
    v
}
/// blobs of these lengths one after the other in the plain bytes of a cluster
fn cluster(seed: u8, lens: &[usize], syms: bool) -> Vec<Vec<u8>> {
    let mut at = 0;
    lens.iter()
        .map(|l| {
            let b = blob(seed, at, *l, syms);
            at += l;
            b
        })
        .collect()
}
fn clusters(comp: u8) -> Vec<enc::Cl> {
    let many = |n: u8, lens: &[usize]| (0..n).map(|i| enc::Cl { comp, blobs: cluster(i * 2 + 1, lens, false) }).collect();
    match sym::param("shape", 0) {
        // one cluster of three chunks
        0 => vec![enc::Cl { comp, blobs: cluster(0x40, &[50, 8110, 60, 0, 1], true) }],
        // two clusters of two chunks, the blobs cut at the edge
        1 => (0..2).map(|i| enc::Cl { comp, blobs: cluster(0x40 + 2 * i, &[4096, 4096], true) }).collect(),
        // more clusters than the cache holds
        2 => many(sym::param("clusters", 43) as u8, &[3, 2]),
        // more clusters than the pool has threads, of two chunks each
        3 => many(sym::param("clusters", 10) as u8, &[4000, 200]),
        // clusters that are not compressed, beside one that is
        4 => vec![
            enc::Cl { comp: 0, blobs: cluster(0x40, &[700, 900, 0, 3000], true) },
            enc::Cl { comp, blobs: cluster(0x60, &[30, 4200], true) },
            enc::Cl { comp: 0, blobs: cluster(0x50, &[5000], true) },
        ],
        _ => sym::stop(),
    }
}
fn same(got: &[u8], want: &[u8]) {
    sym::check(got.len() == want.len(), "a read gives another number of bytes");
    sym::check(sym::eq(got, want), "a read gives other bytes");
}
/// one read of `r`, which holds `w`
fn read(r: &ByteRegion, w: &[u8], how: u64) {
    sym::check(r.size().into_u64() as usize == w.len(), "a content has another size");
    let n = w.len();
    let get = |r: &ByteRegion, at: usize, len: usize| {
        let s = ok(r.get_slice(jbk::Offset::from(at as u64), len).map_err(Into::into), "a slice is not read");
        same(&s, &w[at..at + len]);
    };
    match how {
        0 => get(r, 0, n),
        1 => get(r, n - n.min(3), n.min(3)),
        2 => {
            let mut s = r.stream();
            let mut v = vec![0; 3000];
            let mut at = 0;
            loop {
                let k = match s.read(&mut v) {
                    Ok(k) => k,
                    Err(_) => sym::fail("a stream is not read"),
                };
                if k == 0 {
                    break;
                }
                sym::check(at + k <= n, "a stream goes past the end of the content");
                same(&v[..k], &w[at..at + k]);
                at += k;
            }
            sym::check(at == n, "a stream ends before the content");
        }
        3 => {
            let c = r.cut(jbk::Offset::from((n / 2) as u64), jbk::Size::from((n - n / 2) as u64));
            let b = ok(c.get_slice(jbk::Offset::from(0u64), n - n / 2).map_err(Into::into), "a part is not read");
            same(&b, &w[n / 2..]);
            get(r, 0, n.min(2));
        }
        4 => {
            let s = r.as_slice();
            let b = ok(s.get_slice(jbk::Offset::from(0u64), n).map_err(Into::into), "a slice is not read");
            same(&b, w);
        }
        5 => {
            let mut v = vec![0; n];
            if r.stream().read_exact(&mut v).is_err() {
                sym::fail("a stream is not read");
            }
            same(&v, w);
        }
        6 => get(r, 0, n.min(3)),
        _ => sym::stop(),
    }
}
/// a script is a list of operations, one byte each, 0xFF ends a thread:
/// the high half says how to read, the low one which content; how = 15 reads one content of every
/// cluster, how = 14 takes a content and reads it at the end of the thread, how = 13 takes one and
/// drops it, how = 12 drops the thread's hold on the pack
fn script() -> Vec<Vec<u8>> {
    let s = sym::param("script", 0);
    let mut out = vec![vec![]];
    for k in 0..8 {
        match (s >> (8 * k)) as u8 {
            0xFF => out.push(vec![]),
            0xFE => break,
            b => out.last_mut().unwrap().push(b),
        }
    }
    out
}
trait Get: Send + Sync + 'static {
    fn get(&self, i: usize) -> ByteRegion;
}
impl Get for ContentPack {
    fn get(&self, i: usize) -> ByteRegion {
        some(ok(self.get_content((i as u32).into()), "a content is not read"), "a content is absent")
    }
}
fn run(g: Arc<dyn Get>, data: &Data, ops: &[u8]) {
    let mut held = vec![];
    let mut g = Some(g);
    for op in ops {
        let (how, c) = ((op >> 4) as u64, (op & 15) as usize);
        let get = |g: &Option<Arc<dyn Get>>, i| g.as_ref().unwrap().get(i);
        match how {
            15 => {
                let n = data.len();
                let mut i = c;
                while i < n {
                    read(&get(&g, i), &data[i], 0);
                    i += sym::param("stride", 2) as usize;
                }
            }
            14 => held.push((get(&g, c), c)),
            13 => drop(get(&g, c)),
            12 => g = None,
            _ => read(&get(&g, c), &data[c], how),
        }
    }
    for (r, c) in &held {
        read(r, &data[*c], 0);
        read(r, &data[*c], 2);
    }
}
fn schedules() {
    sym::sched(
        sym::param("sched", 9),
        sym::param("budget", 0) | sym::param("pb", 0) << 32 | sym::param("parts", 0) << 48 | sym::param("part", 0) << 56,
    );
}
fn threads(g: Arc<dyn Get>, data: Data) {
    let mut s = script();
    let own = s.pop().unwrap();
    let t: Vec<_> = s
        .into_iter()
        .map(|ops| {
            let (g, data) = (g.clone(), data.clone());
            std::thread::spawn(move || run(g, &data, &ops))
        })
        .collect();
    run(g, &data, &own);
    for t in t {
        sym::check(t.join().is_ok(), "a reading thread panics");
    }
    sym::sched(0, 0);
    // the decoders end what they are at
    std::thread::sleep(std::time::Duration::from_millis(20));
}
pub fn c07_read() {
    let cl = clusters(sym::param("comp", 3) as u8);
    let data: Data = Arc::new(cl.iter().flat_map(|c| c.blobs.clone()).collect());
    let b = enc::pack(&cl);
    let r: jbk::Reader = if sym::param("mem", 0) != 0 {
        b.into()
    } else {
        put("p.jbkc", &b);
        jbk::Reader::from(ok(jbk::FileSource::open("p.jbkc").map_err(Into::into), "the file does not open"))
    };
    let p = Arc::new(ok(ContentPack::new(r), "the content pack does not open"));
    if sym::param("warm", 0) != 0 {
        run(p.clone(), &data, &[0x00]);
    }
    schedules();
    threads(p, data);
    sym::cover("all threads read");
}
/// one opened container, shared: indexes, entries, values, contents, whole walks and checks from
/// several threads
pub fn c07_container() {
    let mut contents = fix::some_contents();
    let big = sym::param("big", 0) as usize;
    if big > 0 {
        contents.push((blob(7, 0, big, true), 0));
        contents.push((blob(9, 0, big, true), 1));
    }
    let comp = sym::param("comp", 3);
    let (path, f) = match sym::param("mode", 0) {
        m @ 0..=2 => ("b.jbk", fix::basic("b.jbk", m, comp, contents)),
        _ => ("m.jbkm", fix::manual(sym::param("packs", 2) as u16, comp, contents)),
    };
    let c = Arc::new(ok(fix::open(path), "the container does not open"));
    let f = Arc::new(f);
    let mut s = script();
    let own = s.pop().unwrap();
    schedules();
    let t: Vec<_> = s
        .into_iter()
        .map(|ops| {
            let (c, f) = (c.clone(), f.clone());
            std::thread::spawn(move || visit(&c, &f, &ops))
        })
        .collect();
    visit(&c, &f, &own);
    for t in t {
        sym::check(t.join().is_ok(), "a reading thread panics");
    }
    sym::sched(0, 0);
    fix::Walk::exact().container(&c, &f);
    sym::cover("all threads read");
}
fn visit(c: &jbk::reader::Container, f: &fix::Fix, ops: &[u8]) {
    for op in ops {
        let a = (op & 15) as usize;
        match op >> 4 {
            0 => fix::Walk::exact().container(c, f),
            1 => {
                let i = &f.idxs[a];
                let (ix, b) = some(ok(cindex(c, i.name), "an index does not open"), "an index is not there");
                fix::Walk::exact().index(&ix, &b, i, f);
            }
            2 => fix::Walk::exact().item(c, &f.items[a]),
            3 => fix::verifies(c),
            4 => {
                for it in f.items.iter().skip(a) {
                    fix::Walk::exact().item(c, it);
                }
            }
            5 => {
                for it in f.items.iter().rev().skip(a) {
                    fix::Walk::exact().item(c, it);
                }
            }
            _ => sym::stop(),
        }
    }
}
