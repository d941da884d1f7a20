//! C04: created packs verify; any later change to a checksummed byte makes the check fail.
use crate::{c01, common::*, dec, dmg::*, fix, kit::*, sym};
use jbk::creator::ContainerPackCreator;
use jubako as jbk;

fn passes(r: Result<bool, ()>, what: &str) {
    sym::check(r == Ok(true), what);
}
fn refuses(r: Result<bool, ()>, what: &str) {
    sym::check(r != Ok(true), what);
}
/// everything created verifies, through every check there is
pub fn c04_intact() {
    let (mode, comp) = (sym::param("mode", 0), sym::param("comp", 3));
    let (f, main, pieces) = container(mode, comp);
    passes(container_check(&main), "a created container does not verify");
    for p in &pieces {
        let b = get(&p.file);
        passes(file_check(&p.file), "a created file does not verify");
        let one = &b[p.pk.pos..p.pk.pos + p.pk.size];
        passes(pack_check(p.pk.kind, one, true), "a created pack does not verify");
        passes(pack_check(p.pk.kind, one, false), "a created pack does not verify");
    }
    let _ = f;
    sym::cover("created container verifies");
}
/// symbolic contents and values, still verifies
pub fn c04_contents() {
    let (mode, comp) = (sym::param("mode", 0), sym::param("comp", 3));
    let n = sym::choose(4, "n") as usize;
    let mut c = vec![];
    for i in 0..n {
        c.push((sym::bytes(i, "data"), sym::choose(2, "hint")));
    }
    fix::basic("x.jbk", mode, comp, c);
    passes(container_check("x.jbk"), "a created container does not verify");
    passes(file_check("x.jbk"), "a created file does not verify");
    sym::cover("created container verifies");
}
/// packs of more than 4 KiB, 64 KiB: the check reads them in several steps
pub fn c04_big() {
    let comp = sym::param("comp", 0);
    let len = sym::param("len", 70000) as usize;
    let items = vec![c01::Item { data: c01::filler(len, 1, "data"), hint: 0, src: 0 }];
    c01::build("c1.jbkc", compression(comp), &items);
    let f = get("c1.jbkc");
    passes(pack_check(b'c', &f, true), "a created pack does not verify");
    passes(pack_check(b'c', &f, false), "a created pack does not verify");
    let pk = dec::packs(&f, 0).remove(0);
    let e = pk.check_pos(&f);
    let at = [0, 63, 128, 1023, 1024, 4095, 4096, 65535, 65536, e / 2, e - 100, e - 2, e - 1][sym::choose(13, "at") as usize];
    sym::assume(at < e);
    let mut g = f;
    alter(&mut g, (at, at + 1));
    sym::panic_ok(true);
    refuses(pack_check(b'c', &g, sym::choose(2, "mem") == 1), "the check of a pack passes although a checksummed byte is altered");
    sym::cover("altered pack refused");
}
/// a content pack packed with others by the container creator, and a container of one pack
pub fn c04_wrapped() {
    let n = sym::param("n", 2) as u16;
    let f = fix::manual(n, sym::param("comp", 3), fix::some_contents());
    let mut w = ContainerPackCreator::new("w.jbk", Default::default()).unwrap();
    for p in &f.packs {
        let mut i = w.into_file().unwrap();
        std::io::copy(&mut std::fs::File::open(&p.location).unwrap(), &mut i).unwrap();
        w = i.close(p.uuid).unwrap();
    }
    w.finalize().unwrap();
    passes(file_check("w.jbk"), "a created file does not verify");
    let b = get("w.jbk");
    let packs = dec::packs(&b, 0);
    let p = &packs[sym::choose(packs.len() as u64, "pack") as usize];
    let mut g = b.clone();
    alter(&mut g, window(&covered(&b, p), sym::param("w", 4) as usize));
    sym::panic_ok(true);
    put("w.jbk", &g);
    refuses(file_check("w.jbk"), "the check of a file passes although a checksummed byte of one of its packs is altered");
    sym::cover("altered pack refused");
}
/// a manifest of many packs: its description of each of them is covered, but for the locations
pub fn c04_many() {
    let n = sym::param("n", 257) as u16;
    let f = fix::manual(n, 0, fix::some_contents());
    let b = get("m.jbkm");
    passes(file_check("m.jbkm"), "a created file does not verify");
    let m = dec::packs(&b, 0).remove(0);
    let infos = dec::pack_infos(&b, &m);
    sym::check(infos.len() == f.packs.len(), "a pack is not in the manifest");
    let l = infos.len();
    let at = infos[[0, 1, 127, 255, l - 2, l - 1][sym::choose(6, "pack") as usize]];
    let byte = at + [0, 15, 16, 30, 36, 37][sym::choose(6, "byte") as usize];
    let k = dec::blocks(&b, &m).into_iter().find(|k| k.start <= byte && byte < k.end()).unwrap();
    let mut g = b.clone();
    g[byte] ^= [1, 0x80][sym::choose(2, "bit") as usize];
    k.reseal(&mut g);
    sym::panic_ok(true);
    put("m.jbkm", &g);
    match sym::choose(3, "check") {
        0 => refuses(file_check("m.jbkm"), "the check of a file passes although a checksummed byte of one of its packs is altered"),
        w => refuses(pack_check(b'm', &g, w == 1), "the check of a pack passes although a checksummed byte is altered"),
    }
    sym::cover("altered pack refused");
}
/// any change of a window of any pack; resealed: the block checksums are made consistent again
pub fn c04_alter() {
    let (mode, comp) = (sym::param("mode", 0), sym::param("comp", 3));
    let (_, main, pieces) = container(mode, comp);
    let pick = sym::param("pack", 99) as usize;
    let p = if pick == 99 { &pieces[sym::choose(pieces.len() as u64, "pack") as usize] } else { &pieces[pick] };
    let b = get(&p.file);
    let mut g = b.clone();
    // the check block itself
    let block = sym::param("block", 0) == 1;
    let check = p.pk.check_pos(&b);
    let ranges = match (block, sym::param("reseal", 0)) {
        (false, _) => covered(&b, &p.pk),
        (true, 0) => vec![(check, check + 37)],
        (true, _) => vec![(check + 1, check + 33)],
    };
    if sym::param("reseal", 0) == 1 {
        let (a, e) = window(&ranges, 1);
        let k = dec::blocks(&b, &p.pk).into_iter().find(|k| k.start <= a && a < k.end()).unwrap();
        if !k.crc || a >= k.start + k.len {
            sym::stop();
        }
        // any value where the reader does not follow it, else any bit
        if ["entries", "values", "content infos", "index", "check"].contains(&k.what) {
            alter(&mut g, (a, e));
        } else {
            g[a] ^= 1 << sym::choose(8, "bit");
        }
        k.reseal(&mut g);
    } else {
        alter(&mut g, window(&ranges, sym::param("w", 4) as usize));
    }
    sym::panic_ok(true);
    put(&p.file, &g);
    let what = sym::choose(4, "check");
    // a content pack of another identity is a missing pack for the container
    if what == 0 && p.pk.kind == b'c' && g[p.pk.pos + 10..p.pk.pos + 26] != b[p.pk.pos + 10..p.pk.pos + 26] {
        sym::stop();
    }
    match what {
        0 => refuses(container_check(&main), "the check of a container passes although a checksummed byte is altered"),
        1 => refuses(file_check(&p.file), "the check of a file passes although a checksummed byte of one of its packs is altered"),
        _ => refuses(pack_check(p.pk.kind, &g[p.pk.pos..p.pk.pos + p.pk.size], what == 2), "the check of a pack passes although a checksummed byte is altered"),
    }
    sym::cover("altered pack refused");
}
