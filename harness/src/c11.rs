//! C11: a missing pack is reported as missing, and everything else still reads.
use crate::{fix, kit::*, sym};
use jbk::reader::{Container, MayMissPack};
use jubako as jbk;

const DAMAGE: u64 = 1;
/// make the pack at `path` unavailable
fn away(path: &str, other: &str, uuid: uuid::Uuid, how: u64) {
    let relocate = |to: &str| match jbk::tools::set_location("m.jbkm", uuid, to.into()) {
        Ok(Some(_)) => {}
        _ => sym::fail("rewriting a location fails"),
    };
    match how {
        0 => std::fs::remove_file(path).unwrap(),
        1 => put(path, &get(other)),
        2 => relocate(""),
        3 => {
            std::fs::remove_file(path).unwrap();
            std::fs::create_dir(path).unwrap()
        }
        4 => relocate("/w/nowhere/at all"),
        5 => relocate("d.jbkd/p"),
        6 => relocate("."),
        7 => {
            // a container in which the pack is not
            if jbk::tools::concat(&[other, "d.jbkd"], "tmp").is_err() {
                sym::fail("concatenation fails");
            }
            std::fs::rename("tmp", path).unwrap()
        }
        // a pack of an identity which is hardly another one
        9 => {
            let mut b = get(path);
            let pk = crate::dec::packs(&b, 0).remove(0);
            b[10 + sym::choose(16, "byte") as usize] ^= [1, 0x80, 0xFF][sym::choose(3, "bits") as usize];
            crate::dec::blocks(&b, &pk)[0].reseal(&mut b);
            let n = b.len();
            for i in 0..64 {
                b[n - 1 - i] = b[i];
            }
            put(path, &b)
        }
        // any name that is not a file
        _ => {
            let mut b = sym::bytes(2, "location");
            for x in &mut b {
                sym::assume(*x < 0x80 && *x != b'/' && *x != 0 && *x != b'.');
            }
            relocate(std::str::from_utf8(&b).unwrap())
        }
    }
}
fn described(c: &Container, f: &fix::Fix, id: u16, how: u64) {
    let m = ok(jbk::reader::ManifestPack::new(reader()), "the manifest does not open");
    let want = some(m.get_content_pack_info(id.into()), "a pack is not in the manifest");
    let a = jbk::ContentAddress::new(id.into(), 0.into());
    for k in 0..2 {
        let d = if k == 0 {
            match ok(c.get_bytes(a), "a content of a missing pack answers with an error") {
                Some(MayMissPack::MISSING(d)) => d,
                _ => sym::fail("a content of a missing pack is not reported as missing"),
            }
        } else {
            match ok(c.get_pack(id.into()), "a missing pack answers with an error") {
                Some(MayMissPack::MISSING(d)) => d,
                _ => sym::fail("a missing pack is not reported as missing"),
            }
        };
        sym::check(d == *want, "a missing pack is described as another one");
        let p = f.packs.iter().find(|p| p.id == id).unwrap();
        sym::check(d.uuid == p.uuid && d.pack_id.into_u16() == id, "a missing pack is described with another identity");
        if how <= DAMAGE || how == 9 {
            sym::check(d.pack_location.as_str() == p.location, "a missing pack is described with another location");
        }
    }
}
fn reader() -> jbk::Reader {
    if std::path::Path::new("m.jbkm").exists() {
        return jbk::Reader::from(ok(jbk::FileSource::open("m.jbkm").map_err(jbk::Error::from), "the manifest does not open"));
    }
    let c = ok(jbk::tools::open_pack("all.jbk"), "the container does not open");
    some(ok(c.get_manifest_pack_reader(), "the manifest is not found"), "the manifest is not found")
}
/// every subset of the content packs unavailable, in each way
pub fn c11_subset() {
    let n = sym::param("n", 2) as u16;
    let how = sym::param("how", 0);
    let wrapped = sym::param("wrapped", 0) == 1;
    let mut cont = fix::some_contents();
    cont[0].0 = sym::bytes(3, "raw");
    let f = fix::manual(n, sym::param("comp", 0), cont);
    // another content pack, which the manifest does not know
    crate::c01::build("other.jbkc", crate::common::compression(0), &[crate::c01::Item { data: vec![1, 2, 3], hint: 1, src: 0 }]);
    let mut w = fix::Walk::exact();
    for i in 1..=n {
        if sym::choose(2, "missing") == 1 {
            w.missing.push(f.packs[i as usize].id);
            away(&format!("c{i}.jbkc"), "other.jbkc", f.packs[i as usize].uuid, how);
        }
    }
    let file = if wrapped {
        // manifest and directory in one file
        if jbk::tools::concat(&["m.jbkm", "d.jbkd"], "all.jbk").is_err() {
            sym::fail("concatenation fails");
        }
        std::fs::remove_file("m.jbkm").unwrap();
        std::fs::remove_file("d.jbkd").unwrap();
        "all.jbk"
    } else {
        "m.jbkm"
    };
    let c = ok(fix::open(file), "a container with missing packs does not open");
    w.container(&c, &f);
    for i in &w.missing {
        described(&c, &f, *i, how);
    }
    fix::verifies(&c);
    sym::cover("missing packs reported");
}
/// the check still covers the packs that are there
pub fn c11_check() {
    let n = sym::param("n", 2) as u16;
    let f = fix::manual(n, 0, fix::some_contents());
    let gone = 1 + sym::choose(n as u64, "missing") as u16;
    let hurt = sym::choose(n as u64 + 1, "altered") as u16;
    sym::assume(gone != hurt);
    std::fs::remove_file(&f.packs[gone as usize].location).unwrap();
    let path = &f.packs[hurt as usize].location;
    let mut b = get(path);
    // one of the last bytes under the checksum, or any of them
    let end = crate::dec::le(&b, 40, 8) as usize;
    let at = end - 1 - sym::choose([4, end as u64, 1][sym::param("any", 0) as usize], "at") as usize;
    if sym::param("any", 0) == 2 {
        // a place of both the header and its copy in the tail
        let (n, i) = (b.len(), sym::choose(64, "place") as usize);
        b[i] ^= 0x55;
        b[n - 1 - i] ^= 0x55;
    } else {
        let x = sym::u8("x");
        sym::assume(x != 0);
        b[at] ^= x;
    }
    put(path, &b);
    let c = match fix::open("m.jbkm") {
        Ok(c) => c,
        Err(_) => {
            sym::check(hurt == 0, "a container with missing packs does not open");
            sym::stop()
        }
    };
    sym::check(!matches!(c.check(), Ok(true)), "the check passes although a pack that is there is altered");
    sym::cover("present packs checked");
}
/// files of the high-level creator, the content file away
pub fn c11_modes() {
    let f = fix::basic("x.jbk", sym::param("mode", 1), 3, fix::some_contents());
    std::fs::remove_file("x.jbkc").unwrap();
    let c = ok(fix::open("x.jbk"), "a container with missing packs does not open");
    let mut w = fix::Walk::exact();
    w.missing.push(1);
    w.container(&c, &f);
    fix::verifies(&c);
    sym::cover("missing content file reported");
}
