//! C14: written bytes follow the documented layout, and files of the pinned version keep reading the same.
use crate::{c01, c02, common::*, corpus, dec, fix, kit::*, lay, sym};
use jubako as jbk;
use jbk::creator::ContentPackCreator;
use jbk::Pack;

const VEN: [u8; 4] = [1, 2, 3, 4];

/// the files of a container and their names
type Files = Vec<(String, Vec<u8>)>;

/// everything the bytes of a container say, compared with what was written
fn decodes(files: &Files, f: &fix::Fix, old: bool) {
    let mut seen: Vec<(String, dec::Pk, &Vec<u8>)> = vec![];
    for (name, b) in files {
        for p in lay::file(b, &VEN, old) {
            seen.push((name.clone(), p, b));
        }
    }
    let find = |uuid: &[u8; 16]| seen.iter().find(|s| sym::eq(&s.1.uuid, uuid));
    let (_, m, mb) = some(seen.iter().find(|s| s.1.kind == b'm'), "no manifest is written");
    let infos = lay::manifest(mb, m, old);
    sym::check(infos.len() + 1 == seen.len(), "the manifest does not describe every pack");
    let mut dirs = 0;
    for i in &infos {
        let (name, p, b) = some(find(&i.uuid), "the manifest describes a pack that is not there");
        let c = p.check_pos(b);
        sym::check(i.kind == p.kind && i.size == p.size, "the manifest gives another kind or size than the pack");
        sym::check(sym::eq(&i.check, &b[c..c + 33]), "the manifest holds another check than the pack");
        if !i.location.is_empty() {
            sym::check(i.location == name.as_bytes(), "the manifest gives another place than the one of the pack");
        }
        if let Some(d) = f.packs.iter().find(|d| d.location == *name) {
            sym::check(d.id == i.id && sym::eq(d.uuid.as_bytes(), &i.uuid), "the manifest gives another id");
            sym::check(b[p.pos + 100..p.pos + 124] == d.free[..], "the free data of a pack is not at its place");
        }
        sym::check(i.free.is_empty() || i.free == b[p.pos + 100..p.pos + 124], "the free data the manifest keeps for a pack differs");
        match p.kind {
            b'd' => {
                dirs += 1;
                sym::check(i.id == 0, "the directory is not pack 0");
                lay::holds(&lay::directory(b, p), 0, &f.schema, &f.ents, &f.idxs);
            }
            b'c' => {
                let c = dec::content(b, p);
                let mine: Vec<_> = f.items.iter().filter(|x| x.pack == i.id).collect();
                sym::check(c.infos.len() == mine.len(), "a content pack holds another number of contents");
                for it in mine {
                    let (v, _) = lay::blob(b, &c, it.content as usize);
                    sym::check(sym::eq(&v, &it.data), "a content decoded from the bytes differs from the one written");
                }
            }
            _ => sym::fail("the manifest describes a pack of another kind"),
        }
    }
    sym::check(dirs == 1, "there is not one directory");
}
fn names(mode: u64, f: &fix::Fix) -> Vec<String> {
    match mode {
        0 => vec!["x.jbk".into()],
        1 => vec!["x.jbk".into(), "x.jbkc".into()],
        2 => vec!["x.jbk".into(), "x.jbkc".into(), "x..jbkd".into()],
        _ => f.packs.iter().map(|p| p.location.clone()).chain(["m.jbkm".into()]).collect(),
    }
}
fn load(n: Vec<String>) -> Files {
    n.into_iter().map(|n| (n.clone(), get(&n))).collect()
}
fn write(mode: u64, comp: u64, contents: fix::Contents) -> (fix::Fix, Files) {
    let f = if mode < 3 { fix::basic("x.jbk", mode, comp, contents) } else { fix::manual(mode as u16 - 2, comp, contents) };
    let n = names(mode, &f);
    let files = load(n);
    (f, files)
}
/// contents with symbolic bytes, in every packaging
pub fn c14_container() {
    let (mode, comp) = (sym::param("mode", 0), sym::param("comp", 0));
    let mut contents = fix::some_contents();
    for (i, (d, _)) in contents.iter_mut().enumerate() {
        let n = d.len();
        if n > 0 && n < 20 {
            d.splice(0..2.min(n), sym::bytes(2.min(n), &format!("c{i}")));
        }
    }
    let (f, files) = write(mode, comp, contents);
    decodes(&files, &f, false);
    sym::cover("container decoded");
}
/// sizes of the contents at the steps of the offset width of a cluster
pub fn c14_content() {
    let (comp, base) = (sym::param("comp", 0), sym::param("base", 256));
    let len = base - 2 + sym::choose(4, "len");
    let h = sym::param("hint", 0);
    let items: Vec<Vec<u8>> = vec![c01::filler(len as usize, sym::param("kind", 0), "a"), sym::bytes(2, "b"), vec![]];
    content(&items, h, comp);
}
/// more contents than a cluster holds
pub fn c14_many() {
    let n = sym::param("n", 4100) as usize;
    let items: Vec<Vec<u8>> = (0..n).map(|i| if i == 0 || i + 1 == n { sym::bytes(1, "b") } else { (i as u32).to_le_bytes()[..i % 5].to_vec() }).collect();
    content(&items, sym::param("hint", 0), sym::param("comp", 0));
}
fn content(items: &[Vec<u8>], h: u64, comp: u64) {
    let mut c = ContentPackCreator::new("c.jbkc", 7.into(), VENDOR, [9; 24].into(), compression(comp)).unwrap();
    for d in items {
        if c.add_content(cursor(d.clone()), c01::hint(h)).is_err() {
            sym::fail("add_content fails");
        }
    }
    let data = match c.finalize() {
        Ok((_, d)) => d,
        Err(_) => sym::fail("finalizing the content pack fails"),
    };
    let b = get("c.jbkc");
    let packs = lay::file(&b, &VEN, false);
    sym::check(packs.len() == 1 && packs[0].kind == b'c', "the file is not a content pack");
    let p = &packs[0];
    sym::check(sym::eq(data.uuid.as_bytes(), &p.uuid) && data.pack_size.into_u64() as usize == p.size, "the creator describes another pack");
    sym::check(b[100..124] == [9; 24], "the free data of a pack is not at its place");
    let c = dec::content(&b, p);
    sym::check(c.infos.len() == items.len(), "a content pack holds another number of contents");
    let mut i = 0;
    let mut plain: Option<(usize, Vec<u8>)> = None;
    for d in items {
        let (k, bl) = c.infos[i];
        sym::check(k < c.clusters.len() && bl + 1 < c.clusters[k].bounds.len(), "a content names a blob that does not exist");
        if plain.as_ref().map(|p| p.0) != Some(k) {
            plain = Some((k, some(c.clusters[k].plain(&b), "a cluster is not a stream of its codec")));
        }
        let r = c.range(i);
        sym::check(sym::eq(&plain.as_ref().unwrap().1[r], d), "a content decoded from the bytes differs from the one written");
        i += 1;
    }
    sym::cover("content pack decoded");
}
/// entries of every kind of property, all values
pub fn c14_dir() {
    let k = sym::param("kind", 0);
    let n = sym::param("n", 2) as usize;
    let (lo, hi) = (sym::param("minlen", 0), sym::param("maxlen", 2));
    let fixed = sym::param("fixed", 1) as usize;
    let (st, st2) = if sym::param("indexed", 0) == 1 { (St::Indexed, St::Plain) } else { (St::Plain, St::Indexed) };
    let stores = vec![st, st2];
    let arr = |name: &str| {
        let len = sym::pick(lo, hi, "len") as usize;
        V::A(c01::filler(len, 1, name))
    };
    let (s, es): (Schema, Vec<Ent>) = match k {
        // one integer column of every value, one constant, one of two widths
        0 | 1 => {
            let t = if k == 0 { Ty::U } else { Ty::S };
            let s = Schema::flat(vec![("a", t), ("b", t), ("c", t)], vec![]);
            let con = c02::sval(t, 0, "b");
            let es = (0..n).map(|i| ent(vec![if i == 0 { c02::sval(t, 0, "a") } else if k == 0 { V::U(3) } else { V::S(-2) }, if sym::param("const", 0) == 1 { con.clone() } else { V::U(5) }, if k == 0 { V::U(1000 * i as u64) } else { V::S(-200 * i as i64) }])).collect::<Vec<_>>();
            let es = es.into_iter().map(|mut e| { if k == 1 { if let V::U(5) = e.vals[1] { e.vals[1] = V::S(-5) } } e }).collect();
            (s, es)
        }
        2 => {
            let s = Schema::flat(vec![("c", Ty::C), ("d", Ty::C)], vec![]);
            let one = sym::bool("one pack");
            let es = (0..n).map(|i| ent(vec![V::C(if one { 300 } else { sym::uint(16, &format!("p{i}")) as u16 }, sym::uint(32, &format!("c{i}")) as u32), V::C(2, i as u32)])).collect();
            (s, es)
        }
        3 => {
            let s = Schema::flat(vec![("a", Ty::A(fixed, 0)), ("u", Ty::U)], stores);
            let es = (0..n).map(|i| ent(vec![arr(&format!("a{i}")), V::U(7 * i as u64)])).collect();
            (s, es)
        }
        // variants of different width: padding
        _ => {
            let s = Schema {
                stores,
                common: vec![("n", Ty::A(1, 0)), ("u", Ty::U)],
                variants: vec![("small", vec![("x", Ty::U)]), ("wide", vec![("y", Ty::S), ("a", Ty::A(2, 1)), ("c", Ty::C)]), ("none", vec![])],
                sort: None,
            };
            let es = (0..n)
                .map(|i| {
                    let v = sym::choose(3, "variant") as usize;
                    let mut vals = vec![V::A(sym::bytes(i % 3, &format!("n{i}"))), V::U(i as u64)];
                    match v {
                        0 => vals.push(V::U(sym::uint(9, &format!("x{i}")))),
                        1 => vals.extend([V::S(sym::uint(7, &format!("y{i}")) as i64 - 64), arr(&format!("a{i}")), V::C(1, sym::uint(9, &format!("c{i}")) as u32)]),
                        _ => {}
                    }
                    Ent { variant: Some(v), vals }
                })
                .collect();
            (s, es)
        }
    };
    let ix = vec![idx("all", n as u32, 0), idx("some", n as u32 / 2, n as u32 - n as u32 / 2)];
    let other = Schema::flat(vec![("z", Ty::U)], vec![]);
    let oes = vec![ent(vec![V::U(70000)]), ent(vec![V::U(sym::uint(8, "z"))])];
    let oix = vec![idx("", 2, 0)];
    let data = match write_dir("d.jbkd", vec![Dir::of(&s, &es, ix.clone()), Dir::of(&other, &oes, oix.clone())]) {
        Ok(d) => d,
        Err(_) => sym::fail("writing the directory pack fails"),
    };
    let b = get("d.jbkd");
    let packs = lay::file(&b, &VEN, false);
    sym::check(packs.len() == 1 && packs[0].kind == b'd', "the file is not a directory pack");
    sym::check(sym::eq(data.uuid.as_bytes(), &packs[0].uuid) && data.pack_size.into_u64() as usize == packs[0].size, "the creator describes another pack");
    let d = lay::directory(&b, &packs[0]);
    sym::check(d.entries.len() == 2 && d.indexes.len() == 3 && d.stores.len() == s.stores.len(), "the directory holds other tables");
    lay::holds(&d, 0, &s, &es, &ix);
    lay::holds(&d, 1, &other, &oes, &oix);
    sym::cover("directory decoded");
}

// ---------------------------------------------------------------- files of the pinned version
/// every kind of property and width
fn wide() -> (Schema, Vec<Ent>, Vec<Idx>) {
    const N: [&str; 16] = ["u1", "u2", "u3", "u4", "u5", "u6", "u7", "u8", "s1", "s2", "s3", "s4", "s5", "s6", "s7", "s8"];
    let mut common: Props = (0..16).map(|i| (N[i], if i < 8 { Ty::U } else { Ty::S })).collect();
    common.extend([("ku", Ty::U), ("ks", Ty::S), ("kc", Ty::C), ("c", Ty::C), ("c1", Ty::C), ("p0", Ty::A(0, 0)), ("p3", Ty::A(3, 0)), ("i0", Ty::A(0, 1)), ("i2", Ty::A(2, 1)), ("long", Ty::A(1, 2)), ("longi", Ty::A(0, 3))]);
    let variants: Vec<(&'static str, Props)> = vec![("first", vec![("x", Ty::U), ("same", Ty::S)]), ("second", vec![("y", Ty::S), ("a", Ty::A(2, 1)), ("z", Ty::C)]), ("third", vec![])];
    let s = Schema { stores: vec![St::Plain, St::Indexed, St::Plain, St::Indexed], common, variants, sort: None };
    let es = (0..4u64)
        .map(|i| {
            let mut vals = vec![];
            for w in 1..=8u32 {
                let top = (1u64 << (8 * w - 1)) | 0x23;
                vals.push(V::U(if i == 1 { top } else { 5 + i }));
            }
            for w in 1..=8u32 {
                let min = (1i64 << (8 * w - 2)) + 3;
                vals.push(V::S(if i == 2 { min } else { i as i64 - 1 }));
            }
            vals.extend([V::U(0x1234), V::S(-0x34), V::C(300, 77), V::C(1 + 300 * (i % 2) as u16, 1 << (8 * i)), V::C(2, 66000 * i as u32)]);
            let a = |n: usize, c: u8| V::A((0..n).map(|k| c + k as u8 % 20).collect());
            let i = i as usize;
            vals.extend([a(i, b'a'), a(2 * i, b'b'), a(3 * i % 4, b'c'), a(i + 1, b'd'), a(if i == 2 { 300 } else { i }, b'e'), a(if i == 1 { 260 } else { i + 2 }, b'f')]);
            let v = i % 3;
            match v {
                0 => vals.extend([V::U(300 * i as u64), V::S(-1)]),
                1 => vals.extend([V::S(-70), a(5, b'g'), V::C(1, 5)]),
                _ => {}
            }
            Ent { variant: Some(v), vals }
        })
        .collect();
    (s, es, vec![idx("everything", 4, 0), idx("", 2, 1)])
}
/// contents of the content pack of the corpus: several clusters, wide offsets
fn big_contents() -> fix::Contents {
    let mut v = vec![(vec![7; 70000], 0), (b"after".to_vec(), 0), ((0..300).map(|i| (i * 7) as u8).collect(), 1)];
    v.extend((0..4200u32).map(|i| (i.to_le_bytes()[..(i % 4) as usize].to_vec(), 0)));
    v.extend((0..4097u32).map(|i| (if i % 9 == 0 { vec![i as u8] } else { vec![] }, 1)));
    v
}
/// writes the corpus (run once, natively, against the pinned version)
pub fn c14_gen() {
    match sym::param("set", 0) {
        0 => {
            let (mode, comp) = (sym::param("mode", 0), sym::param("comp", 0));
            write(mode, comp, fix::some_contents());
        }
        1 => {
            let (s, es, ix) = wide();
            c02::write(vec![Dir::of(&s, &es, ix)]);
        }
        _ => {
            let mut c = ContentPackCreator::new("c.jbkc", 7.into(), VENDOR, [9; 24].into(), compression(sym::param("comp", 3))).unwrap();
            for (d, h) in big_contents() {
                c.add_content(cursor(d), c01::hint(h)).map(|_| ()).unwrap();
            }
            c.finalize().map(|_| ()).unwrap_or_else(|_| panic!());
        }
    }
}
fn fill(f: &mut [u8], r: std::ops::Range<usize>, name: &str) {
    if !r.is_empty() && sym::is_concrete(&f[r.clone()]) {
        let b = sym::bytes(r.len(), name);
        f[r].copy_from_slice(&b);
    }
}
fn reseal(f: &mut [u8], p: &dec::Pk) {
    for b in dec::blocks(f, p) {
        if b.crc && !sym::is_concrete(&f[b.start..b.start + b.len]) {
            b.reseal(f);
        }
    }
}
/// the hash of the model, in the check block of a pack
fn rehash(f: &mut [u8], p: &dec::Pk) -> Vec<u8> {
    let (c, h) = (p.check_pos(f), lay::hash(f, p));
    f[c + 1..c + 33].copy_from_slice(&h);
    let s = crate::dec::crc(&f[c..c + 33]);
    f[c + 33..c + 37].copy_from_slice(&s);
    f[c..c + 33].to_vec()
}
/// the free bytes of an entry store (integers and arrays), made symbolic
fn free_entries(b: &mut [u8], p: &dec::Pk, what: u64) {
    let d = lay::directory(b, p);
    for (i, e) in d.entries[0].entries.iter().enumerate() {
        for (n, v) in &e.vals {
            if matches!((&v.v, what), (V::A(_), 0) | (V::U(_) | V::S(_) | V::C(..), 1)) {
                for (k, r) in v.at.iter().enumerate() {
                    fill(b, r.clone(), &format!("{i}{}{k}", String::from_utf8_lossy(n)));
                }
            }
        }
    }
    reseal(b, p);
}
/// what the decoder finds in a directory, in the order of the schema
fn decoded(b: &[u8], p: &dec::Pk, s: &Schema) -> Vec<Ent> {
    let d = lay::directory(b, p);
    d.entries[0]
        .entries
        .iter()
        .map(|e| {
            let variant = e.variant.as_ref().map(|v| v.0);
            let vals = s.props_of(variant).iter().map(|(n, _)| e.vals.iter().find(|(m, _)| m == n.as_bytes()).unwrap().1.v.clone()).collect();
            Ent { variant, vals }
        })
        .collect()
}
/// a container of the corpus: `what` 0 arrays, 1 numbers, 2 contents symbolic, 3 as it is
pub fn c14_old() {
    let (mode, comp, what) = (sym::param("mode", 0), sym::param("comp", 0), sym::param("what", 3));
    let set = format!("{}{}", ["one", "two", "no", "man1", "man2"][mode as usize], comp);
    let mut files: Files = corpus::files(&set).iter().map(|(n, b)| (n.to_string(), b.to_vec())).collect();
    // what the pinned version was asked to write
    let items = fix::some_contents()
        .into_iter()
        .enumerate()
        .map(|(k, (data, _))| {
            let n = if mode < 3 { 1 } else { mode as usize - 2 };
            fix::Item { pack: 1 + (k % n) as u16, content: (k / n) as u32, data }
        })
        .collect();
    let mut f = fix::fix(items);
    // the packs first, then the manifest that holds their checks
    let mut checks: Vec<([u8; 16], Vec<u8>)> = vec![];
    for (_, b) in files.iter_mut() {
        for p in dec::packs(b, 0).iter().filter(|p| p.kind != b'm') {
            if p.kind == b'd' {
                free_entries(b, p, what);
                f.ents = decoded(b, p, &f.schema);
            } else if what == 2 {
                let c = dec::content(b, p);
                for i in 0..c.infos.len() {
                    if let (_, Some(r)) = lay::blob(b, &c, i) {
                        fill(b, r, &format!("content{i}"));
                    }
                }
            }
            checks.push((p.uuid, rehash(b, p)));
        }
    }
    let mut ids: Vec<([u8; 16], u16)> = vec![];
    for (_, b) in files.iter_mut() {
        for p in dec::packs(b, 0).iter().filter(|p| p.kind == b'm') {
            for i in dec::pack_infos(b, p) {
                let so = dec::le(b, i + 24, 8);
                let at = p.pos + (so >> 16) as usize;
                let mut u = [0; 16];
                u.copy_from_slice(&b[i..i + 16]);
                ids.push((u, dec::le(b, i + 32, 2) as u16));
                let c = some(checks.iter().find(|c| c.0 == u), "the manifest of the corpus names another pack");
                b[at..at + 33].copy_from_slice(&c.1);
                let s = dec::crc(&b[at..at + 33]);
                b[at + 33..at + 37].copy_from_slice(&s);
            }
            rehash(b, p);
        }
    }
    for (_, b) in &files {
        for p in dec::packs(b, 0).iter().filter(|p| p.kind == b'c') {
            let id = ids.iter().find(|i| i.0 == p.uuid).unwrap().1;
            let c = dec::content(b, p);
            for it in f.items.iter_mut().filter(|i| i.pack == id) {
                it.data = lay::blob(b, &c, it.content as usize).0;
            }
        }
    }
    if what == 3 {
        let (was, now) = (fix::fix(fix::some_contents().into_iter().map(|c| fix::Item { pack: 1, content: 0, data: c.0 }).collect()), &f);
        sym::check(was.items.iter().zip(&now.items).all(|(a, b)| a.data == b.data), "the corpus does not hold what it was written with");
    }
    decodes(&files, &f, true);
    for (n, b) in &files {
        put(n, b);
    }
    let main = if mode < 3 { "x.jbk" } else { "m.jbkm" };
    let c = fix::reads_exactly(main, &f);
    fix::verifies(&c);
    sym::cover("old container read");
}
/// the wide directory of the corpus
pub fn c14_old_dir() {
    let what = sym::param("what", 3);
    let (s, es, ix) = wide();
    let mut b = corpus::files("wide")[0].1.to_vec();
    let p = dec::header_at(&b, 0);
    if what == 3 {
        lay::holds(&lay::directory(&b, &p), 0, &s, &es, &ix);
    }
    free_entries(&mut b, &p, what);
    rehash(&mut b, &p);
    let es = decoded(&b, &p, &s);
    lay::file(&b, &VEN, false);
    put("d.jbkd", &b);
    c02::verify(&s, &es, &ix);
    sym::cover("old directory read");
}
/// the content pack of the corpus
pub fn c14_old_content() {
    let comp = sym::param("comp", 3);
    let mut b = corpus::files(&format!("big{comp}"))[0].1.to_vec();
    let p = dec::header_at(&b, 0);
    let c = dec::content(&b, &p);
    let want = big_contents();
    sym::check(c.infos.len() == want.len(), "the corpus holds another number of contents");
    let sampled = |i: usize| i < 6 || i % 211 == 0 || i + 3 > want.len() || (i > 4090 && i < 4110) || (i > 4195 && i < 4205);
    for i in [2usize, 4203] {
        let (_, r) = lay::blob(&b, &c, i);
        if let Some(r) = r {
            fill(&mut b, r, "raw");
        }
    }
    rehash(&mut b, &p);
    lay::file(&b, &VEN, false);
    put("c.jbkc", &b);
    let r = ok(open_content("c.jbkc"), "the content pack does not open");
    sym::check(r.get_content_count().into_u64() == want.len() as u64, "the number of contents differs");
    let mut plain: Option<(usize, Vec<u8>)> = None;
    for i in (0..want.len()).filter(|i| sampled(*i)) {
        let k = c.infos[i].0;
        if plain.as_ref().map(|p| p.0) != Some(k) {
            plain = Some((k, some(c.clusters[k].plain(&b), "a cluster is not a stream of its codec")));
        }
        let data = &plain.as_ref().unwrap().1[c.range(i)];
        if i != 2 && i != 4203 {
            sym::check(sym::eq(data, &want[i].0), "the corpus does not hold what it was written with");
        }
        let got = some(ok(r.get_content((i as u32).into()), "a content does not read"), "a content is absent");
        sym::check(sym::eq(&region_bytes(&got), data), "the bytes of a content differ");
    }
    sym::check(ok(r.check(), "checking fails"), "the content pack does not verify");
    sym::cover("old content pack read");
}
