//! C12: rewriting a pack location changes that location and nothing else.
use crate::{dec, fix, kit::*, sym};
use jbk::reader::{ManifestPack, PackInfo};
use jubako as jbk;


/// everything the manifest says about a pack, except its location
fn said(p: &PackInfo, m: &ManifestPack) -> Vec<u8> {
    let mut o = p.uuid.as_bytes().to_vec();
    o.extend_from_slice(&p.pack_size.into_u64().to_le_bytes());
    o.extend_from_slice(&p.pack_id.into_u16().to_le_bytes());
    o.push(p.pack_kind as u8);
    o.push(p.pack_group);
    match ok(m.get_pack_free_data_uuid(p.uuid), "the free data of a pack cannot be read") {
        None => o.push(0),
        Some(d) => o.extend_from_slice(d),
    }
    o.extend_from_slice(format!("{:?}", some(ok(m.get_pack_check_info(p.uuid), "the check info of a pack cannot be read"), "a pack has no check info")).as_bytes());
    o
}
fn manifest(file: &str) -> ManifestPack {
    let c = ok(jbk::tools::open_pack(file), "the file does not open");
    let r = some(ok(c.get_manifest_pack_reader(), "the manifest is not found"), "the manifest is not found");
    ok(ManifestPack::new(r), "the manifest does not open")
}
fn infos(m: &ManifestPack) -> Vec<PackInfo> {
    let mut v = vec![m.get_directory_pack_info().clone()];
    v.extend(m.get_pack_infos().iter().cloned());
    v
}
/// file with a manifest, of the given kind
fn target(kind: u64, n: u16) -> (fix::Fix, &'static str) {
    match kind {
        0 => (fix::manual(n, 0, fix::some_contents()), "m.jbkm"),
        1 => (fix::basic("x.jbk", 0, 0, fix::some_contents()), "x.jbk"),
        2 => (fix::basic("x.jbk", 1, 3, fix::some_contents()), "x.jbk"),
        3 => (fix::basic("x.jbk", 2, 0, fix::some_contents()), "x.jbk"),
        _ => {
            let f = fix::manual(n, 0, fix::some_contents());
            let all: &[&str] = if n == 1 { &["c1.jbkc", "m.jbkm", "d.jbkd"] } else { &["c1.jbkc", "m.jbkm", "d.jbkd", "c2.jbkc"] };
            if jbk::tools::concat(all, "x.jbk").is_err() {
                sym::fail("concatenation fails");
            }
            (f, "x.jbk")
        }
    }
}
fn location(i: u64) -> String {
    match sym::choose(sym::param("strings", 7), "location") {
        k @ 0..=3 => {
            let mut b = sym::bytes([0usize, 1, 4, 13][k as usize], &format!("location{i}"));
            for x in &mut b {
                *x &= 0x7F;
            }
            // ASCII
            unsafe { String::from_utf8_unchecked(b) }
        }
        4 => "p".repeat(213),
        5 => "/d/".repeat(70) + "é",
        6 => "é".into(),
        _ => "x".repeat([214, 215, 255, 256, 300][sym::choose(5, "too long") as usize]),
    }
}
/// a chain of rewrites, each checked in full
pub fn c12_set() {
    let kind = sym::param("kind", 0);
    let n = sym::param("n", 2) as u16;
    let (f, file) = target(kind, n);
    for i in 0..sym::param("times", 1) {
        let before = get(file);
        let mb = manifest(file);
        let ib = infos(&mb);
        let l = ib.len();
        let k = match l {
            0..=7 => sym::choose(l as u64 + 1, "pack") as usize,
            // 98 to 100: the last of the free data, once sorted
            _ => [0, 1, 98, 99, 100, 254, 255, l - 2, l - 1, l][sym::choose(10, "pack") as usize],
        };
        let loc = location(i);
        let uuid = if k < ib.len() {
            ib[k].uuid
        } else {
            // any identity that is not in the manifest
            let mut u = [0u8; 16];
            sym::fill(&mut u, "uuid");
            for p in &ib {
                sym::assume(!sym::eq(&u, p.uuid.as_bytes()));
            }
            uuid::Uuid::from_bytes(u)
        };
        if loc.len() > 213 {
            // not admissible: refused, or at least not stored altered
            sym::panic_ok(true);
        }
        let r = jbk::tools::set_location(file, uuid, loc.as_str().into());
        sym::panic_ok(false);
        let after = get(file);
        sym::check(after.len() == before.len(), "the size of the file changes");
        if k == ib.len() {
            sym::check(matches!(r, Ok(None)), "a pack that is not in the manifest is said to be changed");
            sym::check(sym::eq(&after, &before), "naming an unknown pack changes the file");
            continue;
        }
        let r = match r {
            Err(_) if loc.len() > 213 => {
                sym::check(sym::eq(&after, &before), "a refused location changes the file");
                continue;
            }
            Err(_) => sym::fail("rewriting a location fails"),
            Ok(r) => some(r, "a pack of the manifest is not found"),
        };
        sym::check(r.0 as u8 == ib[k].pack_kind as u8, "another kind is returned");
        sym::check(sym::eq(r.1.as_bytes(), ib[k].pack_location.as_bytes()), "another old location is returned");
        // bytes of the file
        let m = dec::packs(&before, 0).into_iter().find(|p| p.kind == b'm').unwrap();
        let at = dec::pack_infos(&before, &m).into_iter().find(|at| before[*at..*at + 16] == *uuid.as_bytes()).unwrap();
        sym::check(sym::eq(&after[..at + 38], &before[..at + 38]), "bytes outside the location change");
        sym::check(sym::eq(&after[at + 256..], &before[at + 256..]), "bytes outside the location change");
        // what the manifest says
        let ma = manifest(file);
        sym::check(ok(jbk::Pack::check(&ma), "checking the manifest fails"), "the manifest does not verify");
        let ia = infos(&ma);
        sym::check(ia.len() == ib.len(), "the number of packs changes");
        for (j, (a, b)) in ia.iter().zip(&ib).enumerate() {
            sym::check(sym::eq(&said(a, &ma), &said(b, &mb)), "another part of a pack description changes");
            let want = if j == k { loc.as_bytes() } else { b.pack_location.as_bytes() };
            sym::check(sym::eq(a.pack_location.as_bytes(), want), "a location reads back as another string");
        }
    }
    if n > 7 {
        sym::cover("location rewritten");
        return;
    }
    // the packs inside the file still read; the others are where they were: restore their location
    let m = manifest(file);
    for (p, want) in infos(&m).iter().zip(f.packs.iter()) {
        if kind == 0 && jbk::tools::set_location(file, p.uuid, want.location.as_str().into()).is_err() {
            sym::fail("rewriting a location fails");
        }
    }
    if kind == 0 || kind == 1 || kind == 4 {
        fix::verifies(&fix::reads_exactly(file, &f));
    }
    sym::cover("location rewritten");
}
/// through a container found at its new place
pub fn c12_follow() {
    let kind = sym::param("kind", 2);
    let (f, file) = target(kind, 1);
    let m = manifest(file);
    let i = infos(&m);
    let p = i.iter().find(|p| !p.pack_location.is_empty() && (kind == 2 || sym::choose(2, "which") == 1 || p.pack_id.into_u16() == 1)).unwrap();
    std::fs::create_dir("elsewhere").unwrap();
    let to = ["z", "elsewhere/a b", "elsewhere/é"][sym::choose(3, "place") as usize];
    std::fs::rename(p.pack_location.as_str(), to).unwrap();
    for l in ["gone", to] {
        match jbk::tools::set_location(file, p.uuid, l.into()) {
            Ok(Some(_)) => {}
            _ => sym::fail("rewriting a location fails"),
        }
    }
    fix::verifies(&fix::reads_exactly(file, &f));
    sym::cover("moved pack found");
}
