//! A container with two indexes, every kind of property, variants, raw and compressed contents,
//! written in any packaging; and the walk that compares everything the reader says about it.
use crate::{c01, common::*, dec, kit::*, sym};
use jbk::creator::{BasicCreator, ConcatMode, ContentPackCreator, DirectoryPackCreator, ManifestPackCreator};
use jbk::reader::{Container, MayMissPack, Range};
use jubako as jbk;
use std::sync::Arc;

pub struct Item {
    pub pack: u16,
    pub content: u32,
    pub data: Vec<u8>,
}
pub struct PackD {
    pub id: u16,
    pub uuid: uuid::Uuid,
    pub free: [u8; 24],
    pub location: String,
}
pub struct Fix {
    pub schema: Schema,
    pub ents: Vec<Ent>,
    pub idxs: Vec<Idx>,
    pub items: Vec<Item>,
    pub counts: Vec<(u16, u32)>,
    pub packs: Vec<PackD>,
}
/// contents of the fixture: (bytes, hint)
pub type Contents = Vec<(Vec<u8>, u64)>;
pub fn some_contents() -> Contents {
    vec![(b"raw content".to_vec(), 1), (b"compressed".to_vec(), 0), (vec![], 0), (vec![9; 40], 0), (b"\x01".to_vec(), 1)]
}
/// further columns, so that the description of an entry is as long as one wants
fn wide() -> Vec<&'static str> {
    (0..sym::param("wide", 0)).map(|i| &*Box::leak(format!("column-{i:04}").into_boxed_str())).collect()
}
fn schema() -> Schema {
    let mut common = vec![("name", Ty::A(1, 0)), ("size", Ty::U), ("at", Ty::C)];
    common.extend(wide().into_iter().map(|n| (n, Ty::U)));
    Schema {
        stores: vec![St::Plain, St::Indexed],
        common,
        variants: vec![("f", vec![("time", Ty::S)]), ("d", vec![("tag", Ty::A(0, 1)), ("same", Ty::U)])],
        sort: None,
    }
}
fn ents(items: &[Item]) -> Vec<Ent> {
    items
        .iter()
        .enumerate()
        .map(|(i, it)| {
            let mut name = [&b"abc"[..], b"", b"x", b"longer"][i % 4].to_vec();
            if i % 4 == 3 {
                name.extend((0..sym::param("long", 0)).map(|i| i as u8));
            }
            let mut common = vec![V::A(name), V::U(it.data.len() as u64 + 250), V::C(it.pack, it.content)];
            common.extend((0..sym::param("wide", 0)).map(|k| V::U(k * (1 + i as u64))));
            if i % 2 == 0 {
                Ent { variant: Some(0), vals: [common, vec![V::S(-3 + 200 * i as i64)]].concat() }
            } else {
                Ent { variant: Some(1), vals: [common, vec![V::A(vec![b't'; i]), V::U(7)]].concat() }
            }
        })
        .collect()
}
pub fn fix(items: Vec<Item>) -> Fix {
    let schema = schema();
    let ents = ents(&items);
    let n = ents.len() as u32;
    let idxs = vec![idx("all", n, 0), idx("tail", n / 2, n - n / 2)];
    let mut counts: Vec<(u16, u32)> = vec![];
    for it in &items {
        match counts.iter_mut().find(|c| c.0 == it.pack) {
            Some(c) => c.1 += 1,
            None => counts.push((it.pack, 1)),
        }
    }
    Fix { schema, ents, idxs, items, counts, packs: vec![] }
}
impl Fix {
    pub fn dir(&self) -> Dir {
        Dir::of(&self.schema, &self.ents, self.idxs.clone())
    }
}
pub fn mode(i: u64) -> ConcatMode {
    match i {
        0 => ConcatMode::OneFile,
        1 => ConcatMode::TwoFiles,
        _ => ConcatMode::NoConcat,
    }
}
/// `path` written by the high-level creator
pub fn basic(path: &str, m: u64, comp: u64, contents: Contents) -> Fix {
    let mut c = match BasicCreator::new(path, mode(m), VENDOR, compression(comp), Arc::new(())) {
        Ok(c) => c,
        Err(_) => sym::fail("the creator does not start"),
    };
    let mut items = vec![];
    for (d, h) in contents {
        match c.add_content(cursor(d.clone()), c01::hint(h)) {
            Ok(a) => items.push(Item { pack: a.pack_id.into_u16(), content: a.content_id.into_u32(), data: d }),
            Err(_) => sym::fail("add_content fails"),
        }
    }
    let f = fix(items);
    if c.finalize(Box::new(f.dir()), vec![]).is_err() {
        sym::fail("finalizing the container fails");
    }
    f
}
/// separate packs: `m.jbkm`, `d.jbkd` and `c<id>.jbkc`, contents dealt to `n` content packs
pub fn manual(n: u16, comp: u64, contents: Contents) -> Fix {
    // pack ids: 1, 2, ... unless the harness asks for others
    let (base, step) = (sym::param("base", 1) as u16, sym::param("step", 1) as u16);
    let id = |i: u16| base + i * step;
    let mut cs: Vec<_> = (0..n)
        .map(|i| ContentPackCreator::new(format!("c{}.jbkc", i + 1), jbk::PackId::from(id(i)), VENDOR, [(i as u8).wrapping_add(1); 24].into(), compression(comp)).unwrap())
        .collect();
    let mut items = vec![];
    for (k, (d, h)) in contents.into_iter().enumerate() {
        match cs[k % n as usize].add_content(cursor(d.clone()), c01::hint(h)) {
            Ok(a) => items.push(Item { pack: a.pack_id.into_u16(), content: a.content_id.into_u32(), data: d }),
            Err(_) => sym::fail("add_content fails"),
        }
    }
    let mut f = fix(items);
    let mut m = ManifestPackCreator::new(VENDOR, [0xAB; 24].into());
    let mut dc = DirectoryPackCreator::new(0.into(), VENDOR, [0xD; 24].into());
    f.dir().install(&mut dc);
    let mut file = rw("d.jbkd");
    let data = match dc.finalize().map_err(|_| ()).and_then(|x| x.write(&mut file).map_err(|_| ())) {
        Ok(d) => d,
        Err(_) => sym::fail("writing the directory pack fails"),
    };
    drop(file);
    let mut packs = vec![PackD { id: 0, uuid: data.uuid, free: [0xD; 24], location: "d.jbkd".into() }];
    m.add_pack(data, "d.jbkd");
    for (i, c) in cs.into_iter().enumerate() {
        let name = format!("c{}.jbkc", i + 1);
        let mut data = match c.finalize() {
            Ok((_, d)) => d,
            Err(_) => sym::fail("finalizing the content pack fails"),
        };
        if sym::param("free", 0) == 1 {
            data.free_data = format!("free {i}").into();
        }
        packs.push(PackD { id: id(i as u16), uuid: data.uuid, free: [(i as u8).wrapping_add(1); 24], location: name.clone() });
        m.add_pack(data, name);
    }
    let mut file = rw("m.jbkm");
    if m.finalize(&mut file).is_err() {
        sym::fail("finalizing the manifest fails");
    }
    f.packs = packs;
    f
}
/// pack identities of a written container, from its bytes (for `basic`, which does not tell them)
pub fn uuids(file: &str) -> Vec<(u8, uuid::Uuid)> {
    let f = get(file);
    dec::packs(&f, 0).iter().map(|p| (p.kind, uuid::Uuid::from_bytes(p.uuid))).collect()
}

/// compares what the reader says with what was written
pub struct Walk {
    /// errors are acceptable (damaged files)
    pub lenient: bool,
    /// packs whose contents must be reported as missing
    pub missing: Vec<u16>,
    pub errors: u32,
    pub content_differs: bool,
}
impl Walk {
    pub fn exact() -> Walk {
        Walk { lenient: false, missing: vec![], errors: 0, content_differs: false }
    }
    pub fn lenient() -> Walk {
        Walk { lenient: true, ..Walk::exact() }
    }
    fn take<T>(&mut self, r: JR<T>, what: &str) -> Option<T> {
        match r {
            Ok(v) => Some(v),
            Err(_) if self.lenient => {
                self.errors += 1;
                None
            }
            Err(_) => sym::fail(what),
        }
    }
    pub fn container(&mut self, c: &Container, f: &Fix) {
        let n = f.counts.len().max(f.packs.len().saturating_sub(1)) as u16 + 1;
        sym::check(c.pack_count().into_u16() == n, "the number of packs differs");
        for i in &f.idxs {
            let got = self.take(cindex(c, i.name), "an index does not open");
            if let Some(got) = got {
                let (ix, b) = some(got, "an index is not there");
                self.index(&ix, &b, i, f);
            }
        }
        if let Some(got) = self.take(cindex(c, "nope"), "looking up an unknown index fails") {
            sym::check(got.is_none(), "an index is found that was never written");
        }
        for it in &f.items {
            self.item(c, it);
        }
        for (p, n) in &f.counts {
            if self.missing.contains(p) {
                continue;
            }
            let a = jbk::ContentAddress::new((*p).into(), (*n).into());
            match self.take(c.get_bytes(a), "an address past the count answers with an error") {
                None | Some(Some(MayMissPack::FOUND(None))) => {}
                Some(_) => sym::fail("an address past the count answers with bytes"),
            }
            if let Some(Some(MayMissPack::FOUND(p))) = self.take(c.get_pack((*p).into()), "a pack does not open") {
                sym::check(p.get_content_count().into_u64() == *n as u64, "the number of contents of a pack differs");
            }
        }
        let known = |i: u16| f.counts.iter().any(|c| c.0 == i) || f.packs.iter().any(|p| p.id == i);
        let other = (1u16..).find(|i| !known(*i)).unwrap();
        for other in [other, 0, 7777].into_iter().filter(|i| !known(*i) || *i == 0) {
            if let Some(got) = self.take(c.get_pack(other.into()), "an unknown pack answers with an error") {
                sym::check(got.is_none(), "an unknown pack answers with a pack");
            }
        }
        if let Some(got) = self.take(c.get_bytes(jbk::ContentAddress::new(other.into(), 0.into())), "an address in an unknown pack answers with an error") {
            sym::check(got.is_none(), "an address in an unknown pack answers with bytes");
        }
    }
    pub fn index(&mut self, ix: &jbk::reader::Index, b: &jbk::reader::builder::AnyBuilder, i: &Idx, f: &Fix) {
        sym::check(ix.count().into_u32() == i.count, "an index reports another count");
        for k in 0..i.count {
            self.entry(ix, b, k, &f.schema, &f.ents[(i.offset + k) as usize]);
        }
        for k in [i.count, i.count + 1, u32::MAX] {
            if let Some(e) = self.take(read_entry(ix, b, k, &[]), "reading past an index fails") {
                sym::check(e.is_none(), "an entry is found past the end of an index");
            }
        }
    }
    fn entry(&mut self, ix: &jbk::reader::Index, b: &jbk::reader::builder::AnyBuilder, k: u32, s: &Schema, e: &Ent) {
        use jbk::reader::EntryTrait;
        let got = match self.take(ix.get_entry(b, k.into()), "reading an entry fails") {
            None => return,
            Some(g) => some(g, "an entry is not there"),
        };
        let v = self.take(got.get_variant_id(), "reading the variant of an entry fails");
        if let Some(v) = v {
            sym::check(v.map(|v| v.into_u8() as usize) == e.variant, "the variant of an entry differs");
        }
        for ((n, _), want) in s.props_of(e.variant).iter().zip(e.vals.iter()) {
            let r = match self.take(got.get_value(n), "reading a property fails") {
                None => continue,
                Some(r) => some(r, "a property of an entry is not there"),
            };
            if let Some(v) = self.take(r.get(), "reading a property fails") {
                let (mut x, mut y) = (vec![], vec![]);
                from_jbk(&v).canon(&mut x);
                want.canon(&mut y);
                sym::check(sym::eq(&x, &y), "a property value differs");
            }
        }
    }
    pub fn item(&mut self, c: &Container, it: &Item) {
        let a = jbk::ContentAddress::new(it.pack.into(), it.content.into());
        let missing = self.missing.contains(&it.pack);
        let r = match self.take(c.get_bytes(a), if missing { "a content of a missing pack answers with an error" } else { "reading a content fails" }) {
            None => return,
            Some(r) => some(r, "the pack of a content is unknown"),
        };
        match r {
            MayMissPack::MISSING(d) => {
                if !missing && !self.lenient {
                    sym::fail("the pack of a content is reported as missing");
                }
                sym::check(d.pack_id.into_u16() == it.pack, "a missing pack is described as another one");
            }
            MayMissPack::FOUND(r) => {
                sym::check(!missing, "a content of a missing pack answers with bytes");
                let r = some(r, "a content is reported as absent");
                sym::check(r.size().into_u64() == it.data.len() as u64, "the size of a content differs");
                let b = r.get_slice(jbk::Offset::zero(), it.data.len());
                if let Some(b) = self.take(b, "reading the bytes of a content fails") {
                    if self.lenient {
                        if !sym::eq(&b, &it.data) {
                            self.content_differs = true;
                        }
                    } else {
                        sym::check(sym::eq(&b, &it.data), "the bytes of a content differ");
                    }
                }
            }
        }
    }
}
pub fn open(path: &str) -> JR<Container> {
    Container::new(path)
}
pub fn reads_exactly(path: &str, f: &Fix) -> Container {
    let c = ok(open(path), "the container does not open");
    Walk::exact().container(&c, f);
    c
}
pub fn verifies(c: &Container) {
    sym::check(ok(c.check(), "checking the container fails"), "the container does not verify");
}
