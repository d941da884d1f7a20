//! C15: a property bound to another entry's position is stored as that entry's final position.
use crate::{common::*, kit::*, sym};
use jbk::creator::schema;
use jbk::reader::Range;
use jubako as jbk;
use std::collections::HashMap;

#[derive(Clone, Copy)]
enum Ref {
    No,
    /// (store, entry)
    To(usize, usize),
}
/// one store: entries of (id, key, reference), sorted by `sort`
struct Store {
    keys: Vec<u64>,
    refs: Vec<Ref>,
    sort: Option<Vec<&'static str>>,
    /// the last entries have no reference property (another variant)
    plain: usize,
}
type B = jbk::Bound<jbk::EntryIdx>;
fn creation(stores: &[Store], vows: Vec<Vec<jbk::Vow<jbk::EntryIdx>>>, bounds: &[Vec<B>], base: u64) -> (Vec<Vec<B>>, Vec<Box<BStore>>) {
    let mut given = vec![];
    let mut made = vec![];
    for (s, vs) in stores.iter().zip(vows) {
        let common = vec![schema::Property::new_uint("id"), schema::Property::new_uint("key")];
        let r = || vec![schema::Property::new_uint("ref")];
        let (common, variants) = if s.plain > 0 {
            (common, vec![("r", schema::VariantProperties::new(r())), ("p", schema::VariantProperties::new(vec![]))])
        } else {
            (common.into_iter().chain(r()).collect(), vec![])
        };
        let schema = schema::Schema::new(schema::CommonProperties::new(common), variants, s.sort.clone());
        let mut st = Box::new(BStore::new(schema, None));
        let n = s.keys.len();
        let mut handles = vec![];
        for (i, v) in vs.into_iter().enumerate() {
            let mut m = HashMap::new();
            m.insert("id", jbk::Value::Unsigned(base + i as u64));
            m.insert("key", jbk::Value::Unsigned(s.keys[i]));
            let plain = i >= n - s.plain;
            if !plain {
                let r = match s.refs[i] {
                    Ref::No => jbk::Value::Unsigned(0),
                    Ref::To(t, e) => jbk::Value::UnsignedWord(bounds[t][e].clone().into()),
                };
                m.insert("ref", r);
            }
            let variant = if s.plain == 0 { None } else { Some(if plain { "p" } else { "r" }) };
            let e = BEntry::new_from_schema_idx(&st.schema, v, variant, m);
            handles.push(st.add_entry(e));
        }
        given.push(handles);
        made.push(st);
    }
    (given, made)
}
fn index_name(i: usize) -> String {
    format!("s{i}")
}
/// writes the stores and checks what is read back
fn round(stores: &[Store], base: u64) {
    let vows: Vec<Vec<jbk::Vow<jbk::EntryIdx>>> = stores.iter().map(|s| s.keys.iter().map(|_| Default::default()).collect()).collect();
    let bounds: Vec<Vec<B>> = vows.iter().map(|v| v.iter().map(|v| v.bind()).collect()).collect();
    let (given, made) = creation(stores, vows, &bounds, base);
    let mut c = jbk::creator::DirectoryPackCreator::new(0.into(), VENDOR, Default::default());
    for (i, st) in made.into_iter().enumerate() {
        let n = stores[i].keys.len() as u32;
        let id = c.add_entry_store(st);
        c.create_index(&index_name(i), Default::default(), 0.into(), id, n.into(), jbk::EntryIdx::from(0).into());
        // windows that start at an entry
        if n > 0 {
            c.create_index(&format!("w{i}"), Default::default(), 0.into(), id, 1.into(), given[i][0].clone().into());
        }
    }
    let mut file = rw("d.jbkd");
    if !matches!(c.finalize().map(|f| f.write(&mut file)), Ok(Ok(_))) {
        sym::fail("writing the directory pack fails");
    }
    drop(file);
    let d = ok(open_dir("d.jbkd"), "the written directory pack does not open");
    // where every entry is
    let mut at: Vec<Vec<u64>> = vec![];
    let mut read: Vec<Vec<(u64, u64, Option<u64>)>> = vec![];
    for (i, s) in stores.iter().enumerate() {
        let (ix, b) = some(ok(d.index(&index_name(i)), "an index does not open"), "an index is not there");
        let n = s.keys.len();
        sym::check(ix.count().into_u32() as usize == n, "a store has another number of entries");
        let mut rows = vec![];
        for k in 0..n as u32 {
            let (_, v) = some(ok(read_entry(&ix, &b, k, &["id", "key", "ref"]), "reading an entry fails"), "an entry is not there");
            let u = |x: &Option<V>| match x {
                Some(V::U(u)) => Some(*u),
                None => None,
                _ => sym::fail("a property has another type"),
            };
            rows.push((some(u(&v[0]), "a property is not there"), some(u(&v[1]), "a property is not there"), u(&v[2])));
        }
        let mut pos = vec![u64::MAX; n];
        for (k, r) in rows.iter().enumerate() {
            let id = sym::conc(r.0).wrapping_sub(base) as usize;
            sym::check(id < n && pos[id] == u64::MAX, "an entry is lost or stored twice");
            pos[id] = k as u64;
        }
        at.push(pos);
        read.push(rows);
    }
    for (i, s) in stores.iter().enumerate() {
        let n = s.keys.len();
        for e in 0..n {
            let p = at[i][e];
            sym::check(given[i][e].get().into_u32() as u64 == p, "the handle of an entry reports another position than its final one");
            sym::check(bounds[i][e].get().into_u32() as u64 == p, "the handle of an entry reports another position than its final one");
            let row = &read[i][p as usize];
            sym::check(row.1 == s.keys[e], "a key differs from the one written");
            let want = if e >= n - s.plain {
                None
            } else {
                match s.refs[e] {
                    Ref::No => Some(0),
                    Ref::To(t, x) => Some(at[t][x]),
                }
            };
            sym::check(row.2 == want, "a reference is not stored as the final position of the entry it names");
        }
        if let Some(keys) = &s.sort {
            for w in read[i].windows(2) {
                let k = |r: &(u64, u64, Option<u64>)| -> Vec<u64> { keys.iter().map(|n| if *n == "key" { r.1 } else { r.2.unwrap() }).collect() };
                let (x, y) = (k(&w[0]), k(&w[1]));
                sym::check(x <= y, "entries are not in the order of the sort keys");
            }
        }
        if n > 0 {
            let (ix, b) = some(ok(d.index(&format!("w{i}")), "an index does not open"), "an index is not there");
            let (_, v) = some(ok(read_entry(&ix, &b, 0, &["id"]), "reading an entry fails"), "an entry is not there");
            sym::check(matches!(&v[0], Some(V::U(x)) if *x == base), "an index bound to an entry does not start at it");
        }
    }
}
fn sort_of(i: u64) -> Option<Vec<&'static str>> {
    match i {
        0 => None,
        1 => Some(vec!["key"]),
        2 => Some(vec!["key", "ref"]),
        3 => Some(vec!["ref", "key"]),
        _ => Some(vec!["ref"]),
    }
}
/// how many ways there are to place the entries of one store sorted, every reference final; 2 if
/// one of them leaves ties
fn orders(keys: &[u64], refs: &[usize], sort: &[&str]) -> usize {
    fn rec(p: &mut Vec<usize>, k: usize, f: &mut dyn FnMut(&[usize])) {
        if k == p.len() {
            return f(p);
        }
        for i in k..p.len() {
            p.swap(k, i);
            rec(p, k + 1, f);
            p.swap(k, i);
        }
    }
    let n = keys.len();
    let mut found = 0;
    rec(&mut (0..n).collect(), 0, &mut |pos| {
        let mut at = vec![0; n];
        for i in 0..n {
            at[pos[i]] = i;
        }
        let key = |i: usize| -> Vec<u64> { sort.iter().map(|s| if *s == "key" { keys[i] } else if refs[i] == n { 0 } else { pos[refs[i]] as u64 }).collect() };
        found += at.windows(2).all(|w| key(w[0]) <= key(w[1])) as usize;
        found += at.windows(2).all(|w| key(w[0]) <= key(w[1])) as usize * at.windows(2).any(|w| key(w[0]) == key(w[1])) as usize;
    });
    found
}
/// one store, every pattern of references, symbolic sort keys
pub fn c15_keys() {
    let n = sym::param("n", 3) as usize;
    let sort = sym::param("sort", 1);
    let bits = sym::param("bits", 3) as u32;
    let plain = sym::param("plain", 0) as usize;
    let keys: Vec<u64> = (0..n).map(|_| sym::uint(bits, "key")).collect();
    let refs: Vec<Ref> = (0..n)
        .map(|i| {
            let k = if i >= n - plain { n } else { sym::choose(n as u64 + 1, "target") as usize };
            if k == n { Ref::No } else { Ref::To(0, k) }
        })
        .collect();
    round(&[Store { keys, refs, sort: sort_of(sort), plain }], 0);
    sym::cover("references are final positions");
}
/// references as sort keys: every pattern and key order that has exactly one sorted order and
/// no circular dependency on positions
pub fn c15_order() {
    let n = sym::param("n", 3) as usize;
    let sort = sym::param("sort", 3);
    let keys: Vec<u64> = (0..n).map(|_| sym::choose(n as u64, "key")).collect();
    let t: Vec<usize> = (0..n).map(|_| sym::choose(n as u64 + 1, "target") as usize).collect();
    let s = sort_of(sort).unwrap();
    // a chain of references that comes back has no defined order
    for i in 0..n {
        let mut k = i;
        for _ in 0..n {
            if k < n {
                k = t[k];
            }
        }
        sym::assume(k == n);
    }
    // ties may be broken in a way that never settles
    sym::assume(orders(&keys, &t, &s) == 1);
    let refs = t.iter().map(|k| if *k == n { Ref::No } else { Ref::To(0, *k) }).collect();
    round(&[Store { keys, refs, sort: Some(s), plain: 0 }], 0);
    sym::cover("references are final positions");
}
/// two stores that refer to each other, each sorted or not
pub fn c15_cross() {
    let n = sym::param("n", 2) as usize;
    let sorts = [sym::param("sort0", 0), sym::param("sort1", 1)];
    let bits = sym::param("bits", 2) as u32;
    let mut stores = vec![];
    for (i, s) in sorts.into_iter().enumerate() {
        let keys: Vec<u64> = (0..n).map(|_| sym::uint(bits, "key")).collect();
        let refs = (0..n)
            .map(|e| {
                // the first entry of each refers anywhere, the others to the other store
                if e == 0 {
                    let k = sym::choose(2 * n as u64 + 1, "target") as usize;
                    if k == 2 * n { Ref::No } else { Ref::To(k / n, k % n) }
                } else {
                    Ref::To(1 - i, sym::choose(n as u64, "target") as usize)
                }
            })
            .collect();
        stores.push(Store { keys, refs, sort: sort_of(s), plain: 0 });
    }
    round(&stores, 0);
    sym::cover("references are final positions");
}
/// a store sorted on references into another one, which is sorted after it
pub fn c15_follow() {
    let n = sym::param("n", 2) as usize;
    let sort0 = sym::param("sort0", 4);
    let bits = sym::param("bits", 3) as u32;
    let (a, b) = (sym::param("first", 0) as usize, 1 - sym::param("first", 0) as usize);
    let k0: Vec<u64> = (0..n as u64).map(|i| i / 2).collect();
    let k1: Vec<u64> = (0..n).map(|_| sym::uint(bits, "key")).collect();
    let r0 = (0..n).map(|_| sym::choose(n as u64 + 1, "target") as usize).map(|k| if k == n { Ref::No } else { Ref::To(b, k) }).collect();
    let r1 = (0..n).map(|_| sym::choose(n as u64, "target") as usize).map(|k| Ref::To(a, k)).collect();
    let mut stores = vec![Store { keys: k0, refs: r0, sort: sort_of(sort0), plain: 0 }, Store { keys: k1, refs: r1, sort: sort_of(1), plain: 0 }];
    if a == 1 {
        stores.reverse();
    }
    round(&stores, 0);
    sym::cover("references are final positions");
}
/// many entries: positions that need two bytes, a symbolic key that moves an entry anywhere
pub fn c15_many() {
    let n = sym::param("n", 300) as usize;
    let how = sym::param("how", 0);
    let mut keys: Vec<u64> = (0..n as u64).map(|i| 2 * (n as u64 - i)).collect();
    // an odd key never ties
    let k = [1, 2 * n as u64 / 2 + 1, 2 * 255 + 1, 2 * 256 + 1, 2 * 257 + 1, 2 * n as u64 + 1][sym::choose(6, "key") as usize];
    let moved = [0, n / 2, n - 1][sym::choose(3, "entry") as usize];
    keys[moved] = k;
    let refs = (0..n)
        .map(|i| match how {
            0 => Ref::To(0, n - 1 - i),
            1 => Ref::To(0, moved),
            2 => Ref::To(0, (i * 7 + 3) % n),
            // a single reference: the column is as wide as one final position
            _ if i == 5 => Ref::To(0, moved),
            _ => Ref::No,
        })
        .collect();
    round(&[Store { keys, refs, sort: sort_of(1), plain: sym::param("plain", 0) as usize }], 0);
    sym::cover("references are final positions");
}
/// the same between two stores, with few referring entries
pub fn c15_many_cross() {
    let n = sym::param("n", 300) as usize;
    let first = sym::param("first", 0) as usize;
    let m = 1 + sym::choose(2, "referrers") as usize;
    let to = [0, 1, n / 2, n - 1][sym::choose(4, "entry") as usize];
    let keys: Vec<u64> = (0..n as u64).map(|i| n as u64 - i).collect();
    let big = Store { keys, refs: vec![Ref::No; n], sort: sort_of(1), plain: 0 };
    let small = Store { keys: vec![3; m], refs: vec![Ref::To(1 - first, to); m], sort: None, plain: 0 };
    let stores = if first == 0 { [small, big] } else { [big, small] };
    round(&stores, 0);
    sym::cover("references are final positions");
}
/// a tree of `depth` levels sorted on (parent, key)
pub fn c15_tree() {
    let depth = sym::param("depth", 20) as usize;
    let bits = 2;
    let mut keys = vec![];
    let mut refs = vec![];
    for i in 0..depth {
        keys.push(if i < 2 { sym::uint(bits, "key") } else { 1 });
        refs.push(if i + 1 == depth { Ref::No } else { Ref::To(0, i + 1) });
    }
    round(&[Store { keys, refs, sort: sort_of(3), plain: 0 }], 0);
    sym::cover("references are final positions");
}
/// an entry of the user's own type
struct Own {
    at: jbk::Vow<jbk::EntryIdx>,
    key: jbk::creator::Value,
    to: jbk::creator::Value,
}
impl jbk::creator::EntryTrait<&'static str, &'static str> for Own {
    fn variant_name(&self) -> Option<jbk::MayRef<'_, &'static str>> {
        None
    }
    fn value<'a>(&'a self, name: &&'static str) -> jbk::MayRef<'a, jbk::creator::Value> {
        jbk::MayRef::Borrowed(if *name == "key" { &self.key } else { &self.to })
    }
    fn value_count(&self) -> jbk::PropertyCount {
        2.into()
    }
    fn set_idx(&mut self, idx: jbk::EntryIdx) {
        self.at.fulfil(idx)
    }
    fn get_idx(&self) -> B {
        self.at.bind()
    }
}
impl jbk::creator::FullEntryTrait<&'static str, &'static str> for Own {}
/// more entries than two bytes count
pub fn c15_huge() {
    let n = sym::param("n", 65540) as usize;
    let sorted = sym::param("sort", 1) == 1;
    let target = n - 1 - sym::choose(2, "target") as usize;
    let vows: Vec<jbk::Vow<jbk::EntryIdx>> = (0..n).map(|_| Default::default()).collect();
    // all but the first and the last entries are in order
    let keys: Vec<u64> = (0..n)
        .map(|i| match i {
            0..=2 => 9 - i as u64,
            _ if i + 3 >= n => 10 + (2 * n - 4 - i) as u64,
            _ => 10 + i as u64,
        })
        .collect();
    let bound = vows[target].bind();
    let props = vec![schema::Property::new_uint("key"), schema::Property::new_uint("to")];
    let sc = schema::Schema::<&'static str, &'static str>::new(schema::CommonProperties::new(props), vec![], if sorted { sort_of(1) } else { None });
    let mut st = Box::new(jbk::creator::EntryStore::new(sc, None));
    let mut handles = vec![];
    for (i, at) in vows.into_iter().enumerate() {
        let to = if i == 1 { jbk::creator::Value::UnsignedWord(Box::new(bound.clone().into())) } else { jbk::creator::Value::Unsigned(0) };
        let h = st.add_entry(Own { at, key: jbk::creator::Value::Unsigned(keys[i]), to });
        if i < 4 || i + 6 > n {
            handles.push((i, h));
        }
    }
    let mut c = jbk::creator::DirectoryPackCreator::new(0.into(), VENDOR, Default::default());
    let id = c.add_entry_store(st);
    c.create_index("all", Default::default(), 0.into(), id, (n as u32).into(), jbk::EntryIdx::from(0).into());
    c.create_index("w", Default::default(), 0.into(), id, 1.into(), bound.clone().into());
    let mut file = rw("d.jbkd");
    if !matches!(c.finalize().map(|f| f.write(&mut file)), Ok(Ok(_))) {
        sym::fail("writing the directory pack fails");
    }
    drop(file);
    let d = ok(open_dir("d.jbkd"), "the written directory pack does not open");
    let (ix, b) = some(ok(d.index("all"), "an index does not open"), "an index is not there");
    sym::check(ix.count().into_u32() as usize == n, "a store has another number of entries");
    let row = |ix: &jbk::reader::Index, k: u32| -> (u64, u64) {
        let (_, v) = some(ok(read_entry(ix, &b, k, &["key", "to"]), "reading an entry fails"), "an entry is not there");
        match (&v[0], &v[1]) {
            (Some(V::U(a)), Some(V::U(b))) => (*a, *b),
            _ => sym::fail("a property has another type"),
        }
    };
    // a handle names the place where its entry is
    for (i, h) in &handles {
        let p = h.get().into_u32();
        sym::check((p as usize) < n, "the handle of an entry reports another position than its final one");
        let (key, to) = row(&ix, p);
        sym::check(key == keys[*i], "the handle of an entry reports another position than its final one");
        sym::check(to == if *i == 1 { bound.get().into_u32() as u64 } else { 0 }, "a reference is not stored as the final position of the entry it names");
    }
    sym::check(row(&ix, bound.get().into_u32()).0 == keys[target], "the handle of an entry reports another position than its final one");
    let (w, _) = some(ok(d.index("w"), "an index does not open"), "an index is not there");
    sym::check(row(&w, 0).0 == keys[target], "an index bound to an entry does not start at it");
    if sorted && sym::param("find", 0) == 1 {
        let q = [0, 65530, n as u64][sym::choose(3, "where") as usize] + sym::uint(4, "key");
        let cmp = b.new_property_compare("key".into(), jbk::Value::Unsigned(q));
        for ordered in [true, false] {
            if !ordered && q > 40 {
                continue;
            }
            // no key below 7, then all of them
            match ok(ix.find(&crate::c03::Cmp { inner: &cmp, ordered }), "searching fails") {
                Some(i) => sym::check(row(&ix, i.into_u32()).0 == q, "the search answers an entry which does not carry the key"),
                None => sym::check(q < 7 || (q > 9 && q < 13) || q >= 10 + n as u64, "the search misses a key which was written"),
            }
        }
    }
    sym::cover("references are final positions");
}
