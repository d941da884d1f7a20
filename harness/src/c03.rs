//! C03: sorted stores follow the reader's order; lookup finds exactly what was written.
use crate::{common::*, kit::*, sym};
use jbk::reader::{builder::AnyBuilder, CompareTrait, Range};
use jubako as jbk;

/// the library's own comparison, in the search mode we choose
pub struct Cmp<'a> {
    pub inner: &'a dyn CompareDyn,
    pub ordered: bool,
}
pub trait CompareDyn {
    fn cmp_at(&self, i: jbk::EntryIdx) -> JR<std::cmp::Ordering>;
}
impl<T: CompareTrait> CompareDyn for T {
    fn cmp_at(&self, i: jbk::EntryIdx) -> JR<std::cmp::Ordering> {
        self.compare_entry(i)
    }
}
impl CompareTrait for Cmp<'_> {
    fn ordered(&self) -> bool {
        self.ordered
    }
    fn compare_entry(&self, i: jbk::EntryIdx) -> JR<std::cmp::Ordering> {
        self.inner.cmp_at(i)
    }
}
fn to_common(v: &V) -> jbk::Value {
    v.to_jbk()
}
/// a <= b in the order of the format
fn le(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::U(x), V::U(y)) => x <= y,
        (V::S(x), V::S(y)) => x <= y,
        (V::A(x), V::A(y)) => {
            // lexicographic on unsigned bytes, a prefix is smaller
            for i in 0..x.len().min(y.len()) {
                if x[i] != y[i] {
                    return x[i] < y[i];
                }
            }
            x.len() <= y.len()
        }
        _ => sym::fail("harness: mixed key types"),
    }
}
fn le_keys(a: &[V], b: &[V]) -> bool {
    for (x, y) in a.iter().zip(b) {
        if !le(x, y) {
            return false;
        }
        if !le(y, x) {
            return true;
        }
    }
    true
}
fn canon(v: &[V]) -> Vec<u8> {
    let mut o = vec![];
    v.iter().for_each(|x| x.canon(&mut o));
    o
}
pub fn keys_schema(kind: u64, fixed: usize, st: St) -> (Props, Vec<&'static str>) {
    match kind {
        0 => (vec![("k", Ty::U)], vec!["k"]),
        1 => (vec![("k", Ty::S)], vec!["k"]),
        2 => (vec![("k", Ty::A(fixed, 0))], vec!["k"]),
        3 => (vec![("k", Ty::U), ("l", Ty::A(fixed, 0))], vec!["k", "l"]),
        4 => (vec![("l", Ty::S), ("k", Ty::A(fixed, 0))], vec!["k", "l"]),
        // two key columns in one value store
        _ => (vec![("k", Ty::A(fixed, 0)), ("l", Ty::A(if st == St::Plain { 0 } else { 1 }, 0))], vec!["l", "k"]),
    }
}
fn key(props: &Props, names: &[&'static str], maxlen: u64, tag: &str) -> Vec<V> {
    names
        .iter()
        .map(|n| {
            let t = props.iter().find(|p| p.0 == *n).unwrap().1;
            let minlen = sym::param("minlen", 0).min(maxlen);
            let l = if let Ty::A(..) = t { (minlen + sym::choose(maxlen - minlen + 1, "len")) as usize } else { 0 };
            let bits = sym::param("bits", 64);
            match crate::c02::sval(t, l, &format!("{tag}{n}")) {
                V::U(u) => V::U(u >> (64 - bits)),
                V::S(s) => V::S(s >> (64 - bits)),
                // a shared beginning
                V::A(mut a) => {
                    let pre = (sym::param("pre", 0) as usize).min(a.len());
                    a[..pre].fill(b'x');
                    V::A(a)
                }
                v => v,
            }
        })
        .collect()
}
fn entry_of(props: &Props, names: &[&'static str], k: &[V], id: u64) -> Ent {
    let mut vals = vec![];
    for (n, _) in props {
        vals.push(match names.iter().position(|x| x == n) {
            Some(i) => k[i].clone(),
            None => V::U(id),
        });
    }
    ent(vals)
}
/// keys in stored order, each checked against the entry it was written with
fn stored(ix: &impl Range, b: &AnyBuilder, names: &[&'static str], keys: &[Vec<V>]) -> Vec<Vec<V>> {
    let mut all: Vec<&str> = names.to_vec();
    all.push("id");
    let mut seen = vec![false; keys.len()];
    let mut out = vec![];
    for i in 0..keys.len() {
        let (_, vals) = some(ok(read_entry(ix, b, i as u32, &all), "reading an entry fails"), "an entry is not there");
        let id = match vals[names.len()] {
            Some(V::U(u)) => sym::conc(u) as usize,
            _ => sym::fail("the id column is not an integer"),
        };
        sym::check(id < keys.len() && !seen[id], "an entry is duplicated or foreign");
        seen[id] = true;
        let got: Vec<V> = vals[..names.len()].iter().map(|v| some(v.clone(), "a key column is absent")).collect();
        sym::check(sym::eq(&canon(&got), &canon(&keys[id])), "an entry carries another key than the one written");
        out.push(keys[id].clone());
    }
    out
}
fn lookup(ix: &impl Range, b: &AnyBuilder, names: &[&'static str], sorted: &[Vec<V>], q: &[V]) {
    let cmp = if names.len() == 1 {
        b.new_property_compare(names[0].to_string(), to_common(&q[0]))
    } else {
        b.new_multiple_property_compare(names.iter().map(|n| n.to_string()).collect(), q.iter().map(to_common).collect())
    };
    let qc = canon(q);
    for ordered in [true, false] {
        match ok(ix.find(&Cmp { inner: &cmp, ordered }), "searching fails") {
            Some(i) => {
                let i = sym::conc(i.into_u32() as u64) as usize;
                sym::check(i < sorted.len(), "the search answers a position outside the index");
                sym::check(sym::eq(&canon(&sorted[i]), &qc), "the search answers an entry which does not carry the key");
                sym::cover("found");
            }
            None => {
                for k in sorted {
                    sym::check(!sym::eq(&canon(k), &qc), "the search misses a key which was written");
                }
                sym::cover("not found");
            }
        }
    }
}
/// n symbolic keys, one symbolic query, any window
pub fn c03_sort() {
    let n = sym::param("n", 2) as usize;
    let kind = sym::param("kind", 0);
    let fixed = sym::param("fixed", 1) as usize;
    let maxlen = sym::param("maxlen", 2);
    let st = if sym::param("indexed", 0) == 1 { St::Indexed } else { St::Plain };
    let (mut props, names) = keys_schema(kind, fixed, st);
    props.push(("id", Ty::U));
    let variants = if sym::param("variants", 0) == 1 { vec![("v0", vec![("x", Ty::U)]), ("v1", vec![("y", Ty::A(2, 0))])] } else { vec![] };
    let s = Schema { stores: vec![st], common: props.clone(), variants: variants.clone(), sort: Some(names.clone()) };
    let keys: Vec<Vec<V>> = (0..n).map(|i| key(&props, &names, maxlen, &format!("k{i}"))).collect();
    let es: Vec<Ent> = keys
        .iter()
        .enumerate()
        .map(|(i, k)| {
            let mut e = entry_of(&props, &names, k, i as u64);
            if !variants.is_empty() {
                e.variant = Some(i % 2);
                e.vals.push(if i % 2 == 0 { V::U(i as u64) } else { V::A(vec![0, 255, i as u8]) });
            }
            e
        })
        .collect();
    let (off, cnt) = if sym::param("win", 0) == 1 {
        let off = sym::choose(n as u64 + 1, "offset") as u32;
        (off, sym::choose(n as u64 - off as u64 + 1, "count") as u32)
    } else {
        (0, n as u32)
    };
    let ix = vec![idx("all", n as u32, 0), idx("w", cnt, off)];
    crate::c02::write(vec![Dir::of(&s, &es, ix)]);
    let d = ok(open_dir("d.jbkd"), "the written directory pack does not open");
    let (all, b) = some(ok(d.index("all"), "opening an index fails"), "a declared index is not found");
    let order = stored(&all, &b, &names, &keys);
    for w in order.windows(2) {
        sym::check(le_keys(&w[0], &w[1]), "entries are not stored in non-decreasing key order");
    }
    let (w, b) = some(ok(d.index("w"), "opening an index fails"), "a declared index is not found");
    let q = key(&props, &names, sym::param("qlen", maxlen), "q");
    lookup(&w, &b, &names, &order[off as usize..(off + cnt) as usize], &q);
    sym::cover("sorted store searched");
}
/// a library entry whose comparisons each take one way (the sort is branch-free on their result)
pub struct OneWay(BEntry);
impl jbk::creator::EntryTrait<&'static str, &'static str> for OneWay {
    fn variant_name(&self) -> Option<jbk::MayRef<&'static str>> {
        self.0.variant_name()
    }
    fn value<'a>(&'a self, name: &&'static str) -> jbk::MayRef<'a, jbk::creator::Value> {
        self.0.value(name)
    }
    fn value_count(&self) -> jbk::PropertyCount {
        self.0.value_count()
    }
    fn set_idx(&mut self, idx: jbk::EntryIdx) {
        self.0.set_idx(idx)
    }
    fn get_idx(&self) -> jbk::Bound<jbk::EntryIdx> {
        self.0.get_idx()
    }
}
impl jbk::creator::FullEntryTrait<&'static str, &'static str> for OneWay {
    fn compare<'i, I>(&self, keys: &'i I, other: &Self) -> std::cmp::Ordering
    where
        I: IntoIterator<Item = &'i &'static str> + Copy,
    {
        match sym::conc(self.0.compare(keys, &other.0) as i8 as u64 & 0xff) {
            0 => std::cmp::Ordering::Equal,
            1 => std::cmp::Ordering::Greater,
            _ => std::cmp::Ordering::Less,
        }
    }
}
/// many concrete keys and one symbolic: the sort's other algorithms, deeper searches
pub fn c03_large() {
    let n = sym::param("n", 40) as usize;
    let kind = sym::param("kind", 0);
    let st = if sym::param("indexed", 0) == 1 { St::Indexed } else { St::Plain };
    let (mut props, names) = keys_schema(kind, 1, st);
    props.push(("id", Ty::U));
    let s = Schema { stores: vec![st], common: props.clone(), variants: vec![], sort: Some(names.clone()) };
    let dup = sym::param("dup", 0) as usize;
    let keys: Vec<Vec<V>> = (0..n)
        .map(|i| {
            // a permutation of 0..n scaled by 3, with `dup` repeated keys
            let v = if i < dup { 3 } else { 3 * ((i * 7919 + 5) % n) as u64 };
            if i + 1 == n {
                key(&props, &names, 2, "k")
            } else {
                names
                    .iter()
                    .map(|nm| match props.iter().find(|p| p.0 == *nm).unwrap().1 {
                        Ty::U => V::U(v),
                        Ty::S => V::S(v as i64 - n as i64),
                        _ => V::A(format!("{v}").into_bytes()),
                    })
                    .collect()
            }
        })
        .collect();
    let es: Vec<Ent> = keys.iter().enumerate().map(|(i, k)| entry_of(&props, &names, k, i as u64)).collect();
    let base = Dir::of(&s, &[], vec![]);
    let mut store: Box<jbk::creator::EntryStore<&'static str, &'static str, OneWay>> = Box::new(jbk::creator::EntryStore::new(base.entries.schema, Some(n)));
    for e in &es {
        let m = s.props_of(None).iter().zip(e.vals.iter()).map(|((nm, _), v)| (*nm, v.to_jbk())).collect();
        let entry = BEntry::new_from_schema(&store.schema, None, m);
        store.add_entry(OneWay(entry));
    }
    let mut c = jbk::creator::DirectoryPackCreator::new(0.into(), VENDOR, Default::default());
    for v in base.stores {
        c.add_value_store(v);
    }
    let id = c.add_entry_store(store);
    c.create_index("all", Default::default(), 0.into(), id, (n as u32).into(), jbk::EntryIdx::from(0).into());
    match c.finalize() {
        Ok(f) => {
            if f.write(&mut rw("d.jbkd")).is_err() {
                sym::fail("writing the directory pack fails");
            }
        }
        Err(_) => sym::fail("writing the directory pack fails"),
    }
    let d = ok(open_dir("d.jbkd"), "the written directory pack does not open");
    let (all, b) = some(ok(d.index("all"), "opening an index fails"), "a declared index is not found");
    let order = stored(&all, &b, &names, &keys);
    for w in order.windows(2) {
        sym::check(le_keys(&w[0], &w[1]), "entries are not stored in non-decreasing key order");
    }
    let q = keys[[0, n / 3, n - 1][sym::choose(3, "query") as usize]].clone();
    lookup(&all, &b, &names, &order, &q);
    sym::cover("large sorted store searched");
}
