//! C10: the same container, packaged every way.
use crate::{fix, kit::*, sym};
use jubako as jbk;

/// what the high-level creator writes in each mode reads as what was inserted
pub fn c10_modes() {
    let m = sym::param("mode", 0);
    let mut cont = fix::some_contents();
    cont[0].0 = sym::bytes(4, "raw");
    cont[1].0 = sym::bytes(4, "comp");
    let f = fix::basic("x.jbk", m, sym::param("comp", 3), cont);
    fix::verifies(&fix::reads_exactly("x.jbk", &f));
    // the files moved together
    for d in ["y", "y/z"] {
        std::fs::create_dir(d).unwrap();
    }
    for n in ["x.jbk", "x.jbkc", "x.jbkd", "x..jbkd"] {
        if std::path::Path::new(n).exists() {
            std::fs::rename(n, format!("y/z/{n}")).unwrap();
        }
    }
    fix::verifies(&fix::reads_exactly("y/z/x.jbk", &f));
    sym::cover("packaging read back");
}
fn concat(files: &[&str], out: &str) {
    if jbk::tools::concat(files, out).is_err() {
        sym::fail("concatenation fails");
    }
}
/// further content packs given to the high-level creator
pub fn c10_extra() {
    use jbk::creator::*;
    let m = sym::param("mode", 0);
    let comp = sym::param("comp", 3);
    let mut c = BasicCreator::new("x.jbk", fix::mode(m), crate::common::VENDOR, crate::common::compression(comp), std::sync::Arc::new(())).unwrap();
    let mut add = |c: &mut dyn content_pack_adder::Adder, d: Vec<u8>, h: u64| {
        let a = match c.add(d.clone(), h) {
            Ok(a) => a,
            Err(_) => sym::fail("add_content fails"),
        };
        fix::Item { pack: a.pack_id.into_u16(), content: a.content_id.into_u32(), data: d }
    };
    let mut items = vec![add(&mut c, sym::bytes(3, "first"), 0)];
    let n = sym::param("n", 2) as u16;
    let mut extra = vec![];
    let dir = std::env::current_dir().unwrap();
    for i in 0..n {
        let path = jbk::Utf8PathBuf::from_path_buf(dir.join(format!("e{i}.jbkc"))).unwrap();
        let out: Box<dyn PackRecipient> = AtomicOutFile::new(&path).unwrap();
        let mut e = ContentPackCreator::<dyn PackRecipient>::new_from_output(out, jbk::PackId::from(i + 2), crate::common::VENDOR, Default::default(), crate::common::compression(comp)).unwrap();
        items.push(add(&mut e, sym::bytes(2, "extra"), 0));
        items.push(add(&mut e, sym::bytes(1, "extra"), 1));
        extra.push(e);
    }
    let f = fix::fix(items);
    if c.finalize(Box::new(f.dir()), extra).is_err() {
        sym::fail("finalizing the container fails");
    }
    fix::verifies(&fix::reads_exactly("x.jbk", &f));
    sym::cover("extra packs read back");
}
mod content_pack_adder {
    use jubako::creator::*;
    pub trait Adder {
        fn add(&mut self, d: Vec<u8>, h: u64) -> std::io::Result<jubako::ContentAddress>;
    }
    impl<T: ContentAdder> Adder for T {
        fn add(&mut self, d: Vec<u8>, h: u64) -> std::io::Result<jubako::ContentAddress> {
            self.add_content(crate::common::cursor(d), crate::c01::hint(h))
        }
    }
}
/// a permutation of `v`, one path each
fn shuffle<'a>(mut v: Vec<&'a str>) -> Vec<&'a str> {
    for i in 0..v.len().saturating_sub(1) {
        let j = i + sym::choose((v.len() - i) as u64, "order") as usize;
        v.swap(i, j);
    }
    v
}
/// separate packs, any of them put in one file in any order, the others found by their location
pub fn c10_concat() {
    let n = sym::param("n", 1) as u16;
    let all = sym::param("all", 0) == 1;
    let mut cont = fix::some_contents();
    cont[0].0 = sym::bytes(4, "raw");
    let f = fix::manual(n, sym::param("comp", 0), cont);
    let names: Vec<String> = (0..n).map(|i| format!("c{}.jbkc", i + 1)).collect();
    let mut inside = vec!["m.jbkm"];
    for p in ["d.jbkd"].into_iter().chain(names.iter().map(|s| s.as_str())) {
        if all || sym::choose(2, "inside") == 1 {
            inside.push(p);
        }
    }
    let inside = shuffle(inside);
    concat(&inside, "all.jbk");
    // what is inside must not be looked for elsewhere
    for p in &inside {
        match sym::param("decoy", 0) {
            0 => std::fs::remove_file(p).unwrap(),
            1 => put(p, b"something else"),
            _ => {
                // same identity, other bytes
                let mut b = get(p);
                let k = b.len();
                for x in &mut b[128..k - 64] {
                    *x ^= 0xFF;
                }
                put(p, &b)
            }
        }
    }
    fix::verifies(&fix::reads_exactly("all.jbk", &f));
    // concatenated again
    concat(&["all.jbk"], "again.jbk");
    fix::verifies(&fix::reads_exactly("again.jbk", &f));
    sym::cover("concatenation read back");
}
/// containers of the high-level creator concatenated
pub fn c10_rejoin() {
    let m = sym::param("mode", 1);
    let f = fix::basic("x.jbk", m, sym::param("comp", 3), fix::some_contents());
    let files = match m {
        0 => vec!["x.jbk"],
        1 => vec!["x.jbk", "x.jbkc"],
        _ => vec!["x.jbk", "x.jbkc", "x..jbkd"],
    };
    let files = if m == 2 && !std::path::Path::new("x..jbkd").exists() { vec!["x.jbk", "x.jbkc", "x.jbkd"] } else { files };
    let files = shuffle(files);
    concat(&files, "all.jbk");
    for p in files {
        std::fs::remove_file(p).unwrap();
    }
    fix::verifies(&fix::reads_exactly("all.jbk", &f));
    sym::cover("rejoined container read back");
}
/// a pack longer than three bytes count, with others behind it
pub fn c10_bigpack() {
    let m = sym::param("mode", 0);
    let len = (sym::param("len", 1 << 24) + sym::choose(3, "more")) as usize;
    let cont = vec![(crate::c01::filler(len, 1, "big"), 0), (sym::bytes(2, "small"), 1)];
    let f = fix::basic("x.jbk", m, sym::param("comp", 0), cont);
    if m != 0 {
        concat(&["x.jbkc", "x.jbk"], "all.jbk");
        std::fs::remove_file("x.jbkc").unwrap();
    }
    fix::reads_exactly(if m == 0 { "x.jbk" } else { "all.jbk" }, &f);
    sym::cover("big pack read back");
}
/// as many packs as one byte counts, and more
pub fn c10_many() {
    let n = sym::param("n", 257) as u16;
    let cont = (0..n).map(|i| (if i % 85 == 0 { sym::bytes(2, "data") } else { vec![i as u8, 7] }, (i % 2) as u64)).collect();
    let f = fix::manual(n, 0, cont);
    let (file, at) = if sym::param("concat", 0) == 1 {
        let names: Vec<String> = (0..n).rev().map(|i| format!("c{}.jbkc", i + 1)).collect();
        let mut all: Vec<&str> = names.iter().map(|s| s.as_str()).collect();
        all.insert(n as usize / 2, "m.jbkm");
        all.push("d.jbkd");
        concat(&all, "all.jbk");
        for p in all {
            std::fs::remove_file(p).unwrap();
        }
        ("all.jbk", true)
    } else {
        ("m.jbkm", false)
    };
    let c = fix::reads_exactly(file, &f);
    if at {
        fix::verifies(&c);
    }
    sym::cover("many packs read back");
}
/// a container (or a lone manifest) at the end of another file
pub fn c10_embed() {
    let kind = sym::param("kind", 0);
    let (f, file) = match kind {
        0 | 1 => (fix::basic("x.jbk", kind, sym::param("comp", 3), fix::some_contents()), "x.jbk"),
        2 => (fix::manual(2, 0, fix::some_contents()), "m.jbkm"),
        _ => {
            let f = fix::manual(2, 0, fix::some_contents());
            concat(&["m.jbkm", "c2.jbkc", "d.jbkd"], "x.jbk");
            (f, "x.jbk")
        }
    };
    let len = match sym::param("len", 0) {
        0 => sym::choose(9, "prefix length"),
        1 => [63, 64, 65, 100][sym::choose(4, "prefix length") as usize],
        _ => 4096 - 3 + sym::choose(6, "prefix length"),
    };
    let mut b = vec![0x5Au8; len as usize];
    let at = if len >= 64 { 60 * sym::choose(2, "prefix place") as usize } else { 0 };
    let k = (len as usize - at).min(4);
    sym::fill(&mut b[at..at + k], "prefix");
    b.extend_from_slice(&get(file));
    put("e.bin", &b);
    std::fs::remove_file(file).unwrap();
    fix::verifies(&fix::reads_exactly("e.bin", &f));
    sym::cover("embedded container read back");
}
/// packs found first by identity inside, then through the (rewritten) location
pub fn c10_located() {
    let f = fix::manual(2, 0, fix::some_contents());
    std::fs::create_dir("sub").unwrap();
    let k = sym::choose(3, "pack") as usize;
    let p = &f.packs[k];
    let to = ["sub/p", "q", "sub/../r"][sym::choose(3, "place") as usize];
    std::fs::rename(&p.location, to).unwrap();
    if sym::choose(2, "wrapped") == 1 {
        // inside a container, after an unrelated pack
        let other = if k == 1 { "c2.jbkc" } else { "c1.jbkc" };
        concat(&[other, to], "sub/both");
        std::fs::rename("sub/both", to).unwrap();
    }
    match jbk::tools::set_location("m.jbkm", p.uuid, to.into()) {
        Ok(Some(_)) => {}
        _ => sym::fail("rewriting a location fails"),
    }
    fix::verifies(&fix::reads_exactly("m.jbkm", &f));
    sym::cover("located packs read back");
}
