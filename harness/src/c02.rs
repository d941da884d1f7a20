//! C02: entries read back with exactly the values they were written with.
use crate::{kit::*, sym};
use jubako as jbk;

pub fn write(dirs: Vec<Dir>) {
    if write_dir("d.jbkd", dirs).is_err() {
        sym::fail("writing the directory pack fails");
    }
}
/// every declared window exposes exactly its entries, and nothing beyond
pub fn verify(s: &Schema, es: &[Ent], indexes: &[Idx]) {
    let d = ok(open_dir("d.jbkd"), "the written directory pack does not open");
    for ix in indexes {
        let (i, b) = some(ok(d.index(ix.name), "opening an index fails"), "a declared index is not found");
        use jbk::reader::Range;
        let t = Typed::new(&d, &i, s);
        sym::check(i.count().into_u32() == ix.count && i.offset().into_u32() == ix.offset, "an index has another window");
        for k in 0..ix.count {
            let e = &es[(ix.offset + k) as usize];
            expect_entry(s, &i, &b, k, e);
            if k < 4 || k + 2 > ix.count {
                expect_typed(s, &i, &b, &t, k, e);
            }
        }
        let past = sym::uint(32, "past") as u32;
        sym::assume(past >= ix.count);
        match i.get_entry(&t, past.into()) {
            Ok(None) => {}
            _ => sym::fail("an index exposes an entry beyond its window to a typed builder"),
        }
        match i.get_entry(&b, past.into()) {
            Ok(None) => {}
            Ok(Some(_)) => sym::fail("an index exposes an entry beyond its window"),
            Err(_) => sym::fail("asking beyond the window of an index is an error"),
        }
    }
    match d.index("nope") {
        Ok(None) => {}
        _ => sym::fail("an undeclared index is found"),
    }
}
pub fn sval(t: Ty, len: usize, name: &str) -> V {
    match t {
        Ty::U => V::U(sym::u64(name)),
        Ty::S => V::S(sym::u64(name) as i64),
        Ty::A(..) => V::A(sym::bytes(len, name)),
        Ty::C => V::C(sym::uint(16, name) as u16, sym::uint(32, name) as u32),
    }
}
/// integer columns, all 64-bit values
pub fn c02_int() {
    let n = sym::param("n", 2) as usize;
    let t = if sym::param("signed", 0) == 1 { Ty::S } else { Ty::U };
    let s = Schema::flat(vec![("a", t), ("b", Ty::U)], vec![]);
    let es: Vec<Ent> = (0..n).map(|i| ent(vec![sval(t, 0, &format!("a{i}")), V::U(0x1234 + i as u64)])).collect();
    let ix = vec![idx("all", n as u32, 0)];
    let late = sym::choose(1 << sym::param("late", 0), "late") as u32;
    write(vec![Dir::of_late(&s, &es, ix.clone(), late)]);
    verify(&s, &es, &ix);
    sym::cover("integers read back");
}
/// a column that has the same value everywhere is stored once
pub fn c02_same() {
    let n = sym::param("n", 2) as usize;
    let k = sym::param("kind", 0);
    let t = [Ty::U, Ty::S, Ty::C, Ty::A(1, 0)][k as usize];
    let s = Schema::flat(vec![("a", t), ("b", t)], vec![St::Plain]);
    let (v, w) = (sval(t, 2, "v"), sval(t, 1, "w"));
    let es: Vec<Ent> = (0..n).map(|i| ent(vec![v.clone(), if i == 1 { v.clone() } else { w.clone() }])).collect();
    let ix = vec![idx("all", n as u32, 0)];
    let late = sym::choose(1 << sym::param("late", 0), "late") as u32;
    write(vec![Dir::of_late(&s, &es, ix.clone(), late)]);
    verify(&s, &es, &ix);
    sym::cover("constant column read back");
}
/// byte arrays, any split between inline prefix and value store
pub fn c02_array() {
    let n = sym::param("n", 2) as usize;
    let fixed = sym::param("fixed", 1) as usize;
    let k = if sym::param("indexed", 0) == 1 { St::Indexed } else { St::Plain };
    let max = sym::param("maxlen", 3);
    let min = sym::param("minlen", 0);
    let s = Schema::flat(vec![("a", Ty::A(fixed, 0)), ("u", Ty::U)], vec![k]);
    let es: Vec<Ent> = (0..n)
        .map(|i| {
            let len = sym::pick(min, max, "len") as usize;
            ent(vec![V::A(crate::c01::filler(len, 1, &format!("a{i}"))), V::U(i as u64)])
        })
        .collect();
    let ix = vec![idx("all", n as u32, 0)];
    write(vec![Dir::of(&s, &es, ix.clone())]);
    verify(&s, &es, &ix);
    sym::cover("arrays read back");
}
/// two array columns sharing a value store, or one store each
pub fn c02_array2() {
    let n = sym::param("n", 2) as usize;
    let share = sym::param("share", 1) as usize;
    let k = if sym::param("indexed", 0) == 1 { St::Indexed } else { St::Plain };
    let max = sym::param("maxlen", 2);
    let s = Schema::flat(vec![("a", Ty::A(0, 0)), ("b", Ty::A(1, 1 - share))], vec![k, St::Indexed]);
    let es: Vec<Ent> = (0..n)
        .map(|i| {
            let (l, m) = (sym::pick(0, max, "len") as usize, sym::pick(0, max, "len") as usize);
            ent(vec![V::A(sym::bytes(l, &format!("a{i}"))), V::A(sym::bytes(m, &format!("b{i}")))])
        })
        .collect();
    let ix = vec![idx("all", n as u32, 0)];
    write(vec![Dir::of(&s, &es, ix.clone())]);
    verify(&s, &es, &ix);
    sym::cover("arrays read back");
}
/// content addresses
pub fn c02_content() {
    let n = sym::param("n", 2) as usize;
    let s = Schema::flat(vec![("c", Ty::C), ("u", Ty::U)], vec![]);
    let es: Vec<Ent> = (0..n).map(|i| ent(vec![sval(Ty::C, 0, &format!("c{i}")), V::U(7 + i as u64)])).collect();
    let ix = vec![idx("all", n as u32, 0)];
    write(vec![Dir::of(&s, &es, ix.clone())]);
    verify(&s, &es, &ix);
    sym::cover("content addresses read back");
}
/// variants of several shapes
pub fn c02_variant() {
    let n = sym::param("n", 2) as usize;
    let shape = sym::param("shape", 0);
    let common = match sym::param("common", 1) {
        0 => vec![],
        1 => vec![("k", Ty::A(1, 0))],
        _ => vec![("k", Ty::U), ("s", Ty::S)],
    };
    let (v0, v1): (Props, Props) = match shape {
        0 => (vec![("x", Ty::U)], vec![("c", Ty::C), ("y", Ty::A(2, 0))]),
        1 => (vec![("x", Ty::U)], vec![("x", Ty::A(0, 1))]),
        2 => (vec![("x", Ty::S)], vec![]),
        3 => (vec![], vec![]),
        4 => (vec![("x", Ty::A(3, 1)), ("z", Ty::U)], vec![("x", Ty::A(1, 1))]),
        _ => (vec![("x", Ty::U), ("y", Ty::U)], vec![("y", Ty::U), ("x", Ty::U)]),
    };
    let s = Schema { stores: vec![St::Plain, St::Indexed], common, variants: vec![("v0", v0), ("v1", v1)], sort: None };
    let small = sym::param("small", 1) == 1;
    let es: Vec<Ent> = (0..n)
        .map(|i| {
            let v = sym::choose(2, "variant") as usize;
            let vals = s
                .props_of(Some(v))
                .iter()
                .enumerate()
                .map(|(j, (_, t))| {
                    let nm = format!("v{i}_{j}");
                    match t {
                        Ty::U if small => V::U(sym::uint(12, &nm)),
                        Ty::S if small => V::S(sym::uint(7, &nm) as i64),
                        Ty::C if small => V::C(1, sym::uint(10, &nm) as u32),
                        Ty::A(f, _) => {
                            let l = if sym::choose(2, "len") == 0 { 0 } else { f + 1 };
                            V::A(sym::bytes(l, &nm))
                        }
                        _ => sval(*t, 0, &nm),
                    }
                })
                .collect();
            Ent { variant: Some(v), vals }
        })
        .collect();
    let ix = vec![idx("all", n as u32, 0)];
    write(vec![Dir::of(&s, &es, ix.clone())]);
    verify(&s, &es, &ix);
    sym::cover("variants read back");
}
/// windows of one store, several stores in one pack
pub fn c02_index() {
    let n = sym::param("n", 4) as u32;
    let s = Schema::flat(vec![("a", Ty::U), ("b", Ty::A(1, 0))], vec![St::Plain]);
    let es: Vec<Ent> = (0..n).map(|i| ent(vec![V::U(sym::uint(8, &format!("a{i}")) | if i == 1 { 256 } else { 0 }), V::A(if i == 0 { sym::bytes(2, "b") } else { vec![i as u8; i as usize] })])).collect();
    let off = sym::choose(n as u64 + 1, "offset") as u32;
    let cnt = sym::choose((n - off) as u64 + 1, "count") as u32;
    let ix = vec![idx("all", n, 0), idx("w", cnt, off), idx("", n - off, off)];
    let s2 = Schema::flat(vec![("z", Ty::U)], vec![]);
    let es2: Vec<Ent> = (0..2).map(|i| ent(vec![V::U(if i == 0 { sym::uint(16, "z") } else { 300 })])).collect();
    let ix2 = vec![idx("other", 2, 0)];
    write(vec![Dir::of(&s, &es, ix.clone()), Dir::of(&s2, &es2, ix2.clone())]);
    verify(&s, &es, &ix);
    verify(&s2, &es2, &ix2);
    sym::cover("windows read back");
}
/// shapes at the limits of the format: creation may fail, it may not store anything altered
pub fn c02_limit() {
    let what = sym::param("what", 0);
    let k = sym::param("k", 0) as usize;
    sym::panic_ok(true);
    let leak = |s: String| -> &'static str { Box::leak(s.into_boxed_str()) };
    // only the first and the last value of each shape are symbolic: the limits are about counts
    let u = |e: usize, i: usize| V::U(if i == 0 || i + 1 == k { sym::uint(6, "v") } else { (i % 50 + e) as u64 });
    let (s, es): (Schema, Vec<Ent>) = match what {
        // k properties
        0 => {
            let p: Props = (0..k).map(|i| (leak(format!("p{i}")), Ty::U)).collect();
            (Schema::flat(p, vec![]), (0..2).map(|e| ent((0..k).map(|i| u(e, i)).collect())).collect())
        }
        // a property name of k bytes
        1 => (Schema::flat(vec![(leak("n".repeat(k)), Ty::U)], vec![]), vec![ent(vec![V::U(sym::uint(8, "v"))]), ent(vec![V::U(sym::uint(8, "v"))])]),
        // k property names of 255 bytes: a tail beyond 64 KiB
        2 => {
            let p: Props = (0..k).map(|i| (leak(format!("{i:03}{}", "n".repeat(252))), Ty::U)).collect();
            (Schema::flat(p, vec![]), (0..2).map(|e| ent((0..k).map(|i| if i == 0 { u(e, i) } else { V::U((i % 50 + e) as u64) }).collect())).collect())
        }
        // an inline prefix of k bytes
        3 => (
            Schema::flat(vec![("a", Ty::A(k, 0)), ("u", Ty::U)], vec![St::Plain]),
            (0..2).map(|i| ent(vec![V::A(crate::c01::filler(k + i, 1, "a")), V::U(3 + i as u64)])).collect(),
        ),
        // an indexed store with k values: its tail holds one offset per value
        4 => (
            Schema::flat(vec![("a", Ty::A(0, 0))], vec![St::Indexed]),
            (0..k)
                .map(|i| {
                    let mut d = (i as u16).to_be_bytes().to_vec();
                    if i + 1 == k {
                        d.push(sym::u8("last"));
                    }
                    ent(vec![V::A(d)])
                })
                .collect(),
        ),
        // k variants without properties
        5 => {
            let names: Vec<&'static str> = (0..k).map(|i| leak(format!("v{i}"))).collect();
            let props: Props = if sym::param("props", 0) == 1 { vec![("x", Ty::U)] } else { vec![] };
            let s = Schema { stores: vec![], common: vec![("c", Ty::U)], variants: names.iter().map(|n| (*n, props.clone())).collect(), sort: None };
            let es = (0..k)
                .map(|i| {
                    let mut vals = vec![u(0, i)];
                    if !props.is_empty() {
                        vals.push(V::U(i as u64));
                    }
                    Ent { variant: Some(i), vals }
                })
                .collect();
            (s, es)
        }
        // k value stores
        6 => {
            let p: Props = (0..k).map(|i| (leak(format!("p{i}")), Ty::A(0, i))).collect();
            let es = (0..2)
                .map(|e| ent((0..k).map(|i| V::A(if i == 0 || i + 1 == k { sym::bytes(1, "v") } else { vec![i as u8, e] })).collect()))
                .collect();
            (Schema::flat(p, vec![St::Plain; k]), es)
        }
        // arrays of k bytes
        7 => (
            Schema::flat(vec![("a", Ty::A(1, 0)), ("u", Ty::U)], vec![if sym::param("indexed", 0) == 1 { St::Indexed } else { St::Plain }]),
            (0..2).map(|i| ent(vec![V::A(crate::c01::filler(k + i, i as u64, "a")), V::U(3 + i as u64)])).collect(),
        ),
        // an entry of 33 k bytes
        _ => {
            let p: Props = (0..k).map(|i| (leak(format!("p{i}")), Ty::A(31, 0))).collect();
            let es = (0..2).map(|_| ent((0..k).map(|i| V::A(if i + 1 == k { sym::bytes(1, "v") } else { vec![i as u8; i % 40] })).collect())).collect();
            (Schema::flat(p, vec![St::Plain]), es)
        }
    };
    let ix = vec![idx("all", es.len() as u32, 0)];
    let r = write_dir("d.jbkd", vec![Dir::of(&s, &es, ix.clone())]);
    sym::panic_ok(false);
    match r {
        Err(_) => sym::cover("creation refuses"),
        Ok(_) => {
            verify(&s, &es, &ix);
            sym::cover("limit shape read back");
        }
    }
}
/// integers given an explicit size through the schema of the crate are covered by the width forks above;
/// here: one entry, every property kind at once
pub fn c02_mix() {
    let n = sym::param("n", 1) as usize;
    let s = Schema::flat(vec![("u", Ty::U), ("a", Ty::A(2, 0)), ("s", Ty::S), ("c", Ty::C), ("b", Ty::A(0, 1))], vec![St::Plain, St::Indexed]);
    let es: Vec<Ent> = (0..n)
        .map(|i| {
            ent(vec![
                V::U(sym::uint(20, &format!("u{i}"))),
                V::A(sym::bytes(sym::choose(4, "len") as usize, &format!("a{i}"))),
                V::S(sym::uint(7, &format!("s{i}")) as i64),
                V::C(sym::uint(9, &format!("p{i}")) as u16, sym::uint(9, &format!("c{i}")) as u32),
                V::A(sym::bytes(1, &format!("b{i}"))),
            ])
        })
        .collect();
    let ix = vec![idx("all", n as u32, 0)];
    write(vec![Dir::of(&s, &es, ix.clone())]);
    verify(&s, &es, &ix);
    sym::cover("mixed entries read back");
}

/// stores with many distinct values (the creator switches algorithms with their number), some of them
/// beginnings of others, some used twice
pub fn c02_many() {
    let n = sym::param("n", 1100) as usize;
    let fixed = sym::param("fixed", 0) as usize;
    let st = if sym::param("indexed", 1) == 1 { St::Indexed } else { St::Plain };
    let s = Schema::flat(vec![("a", Ty::A(fixed, 0)), ("u", Ty::U)], vec![st]);
    let mut vals: Vec<Vec<u8>> = (0..n).map(|i| format!("v{i:04}").into_bytes()).collect();
    for extra in [&b"v00"[..], b"", b"v1", b"v0007", b"w", b"v00100"] {
        vals.push(extra.to_vec());
    }
    // the bytes of the values are decided one by one here: a symbolic byte would make every comparison of the sorts symbolic
    let mut d = b"v000".to_vec();
    d.push([b'0', b'5', b'z'][sym::choose(3, "last") as usize]);
    vals.push(d);
    let es: Vec<Ent> = vals.iter().enumerate().map(|(i, v)| ent(vec![V::A(v.clone()), V::U(if i + 1 == vals.len() { sym::uint(16, "u") } else { i as u64 * 7 })])).collect();
    let ix = vec![idx("all", es.len() as u32, 0)];
    write(vec![Dir::of(&s, &es, ix.clone())]);
    let d = ok(open_dir("d.jbkd"), "the written directory pack does not open");
    let (r, b) = some(ok(d.index("all"), "opening an index fails"), "a declared index is not found");
    let t = Typed::new(&d, &r, &s);
    for i in (0..es.len()).filter(|i| i % 97 == 0 || *i < 11 || *i + 12 > n) {
        expect_entry(&s, &r, &b, i as u32, &es[i]);
        if i % 97 == 0 {
            expect_typed(&s, &r, &b, &t, i as u32, &es[i]);
        }
    }
    sym::cover("many values read back");
}
