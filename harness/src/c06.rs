//! C06: reading a damaged or truncated file returns a value or an error, never crashes.
//! No comparison here: what is read is only required to be a result. A panic, an abort, an invalid
//! memory access, a deadlock or an endless loop is reported by the machine that runs the harness.
use crate::{dec, dmg::*, fix, kit::*, sym};
use jbk::{reader::{EntryTrait, MayMissPack, Range}, Pack};
use jubako as jbk;
use std::io::Read;

fn use_up<T>(r: JR<T>) -> Option<T> {
    r.ok()
}
fn touch_pack(r: jbk::Reader, kind: u8) {
    match kind {
        0 => {
            if let Some(m) = use_up(jbk::reader::ManifestPack::new(r)) {
                for p in std::iter::once(m.get_directory_pack_info()).chain(m.get_pack_infos()) {
                    use_up(m.get_pack_check_info(p.uuid));
                    use_up(m.get_pack_free_data_uuid(p.uuid));
                }
                use_up(m.check());
            }
        }
        1 => {
            if let Some(d) = use_up(jbk::reader::DirectoryPack::new(r)) {
                use_up(d.get_index_from_name("nope"));
                use_up(d.check());
            }
        }
        _ => {
            if let Some(c) = use_up(jbk::reader::ContentPack::new(r)) {
                for i in 0..c.get_content_count().into_u32().min(9) + 1 {
                    touch_bytes(use_up(c.get_content(i.into())).flatten());
                }
                use_up(c.check());
            }
        }
    }
}
fn touch_bytes(r: Option<jbk::reader::ByteRegion>) {
    let r = match r {
        Some(r) => r,
        None => return,
    };
    let n = r.size().into_u64() as usize;
    if n > 1 << 20 {
        return;
    }
    use_up(r.get_slice(jbk::Offset::zero(), n));
    use_up(r.get_slice(jbk::Offset::new(n as u64), 0));
    if n > 1 {
        use_up(r.get_slice(jbk::Offset::new(1), n - 1));
    }
    let mut v = vec![];
    let _ = r.stream().read_to_end(&mut v);
    let mut one = [0u8; 3];
    let _ = r.stream().read_exact(&mut one);
}
/// everything a reader may ask of the files
fn touch(main: &str, files: &[String], f: Option<&fix::Fix>) {
    for file in files {
        let mut readers = vec![];
        if let Ok(p) = jbk::tools::open_pack(file) {
            readers.extend(p.iter().map(|(_, r)| r.clone()));
            use_up(p.get_manifest_pack_reader());
            use_up(p.check());
        }
        // and taken for a pack of each kind
        if let Ok(s) = jbk::FileSource::open(file) {
            readers.push(s.into());
        }
        for r in readers {
            for kind in 0..3 {
                touch_pack(r.clone(), kind);
            }
        }
    }
    let c = match fix::open(main) {
        Ok(c) => c,
        Err(_) => return,
    };
    for p in [0u16, 1, 2, 3, 4, 65535] {
        match use_up(c.get_pack(p.into())) {
            Some(Some(MayMissPack::FOUND(p))) => touch_bytes(use_up(p.get_content(0.into())).flatten()),
            _ => {}
        }
    }
    use_up(cindex(&c, "nope"));
    if let Some(f) = f {
        for i in &f.idxs {
            if let Some(Some((ix, b))) = use_up(cindex(&c, i.name)) {
                for k in (0..ix.count().into_u32().min(9) + 1).chain([u32::MAX]) {
                    if let Some(Some(e)) = use_up(ix.get_entry(&b, k.into())) {
                        let v = use_up(e.get_variant_id()).flatten().map(|v| v.into_u8() as usize);
                        let mut names = f.schema.props_of(None);
                        if let Some(v) = v.filter(|v| *v < 8) {
                            names = f.schema.props_of(Some(v));
                        }
                        for (n, _) in names {
                            if let Some(Some(r)) = use_up(e.get_value(n)) {
                                use_up(r.get());
                            }
                        }
                    }
                }
            }
        }
        for it in &f.items {
            let a = jbk::ContentAddress::new(it.pack.into(), it.content.into());
            if let Some(Some(MayMissPack::FOUND(r))) = use_up(c.get_bytes(a)) {
                touch_bytes(r);
            }
        }
    }
    use_up(c.check());
    let _ = (c.pack_count(), c.uuid());
}
fn files_of(pieces: &[Piece]) -> Vec<String> {
    let mut files: Vec<String> = pieces.iter().map(|p| p.file.clone()).collect();
    files.dedup();
    files
}
fn run(main: &str, pieces: &[Piece], f: &fix::Fix) {
    touch(main, &files_of(pieces), Some(f));
    sym::cover("damaged container read");
}
/// any change of a window of any file
pub fn c06_alter() {
    let (mode, comp) = (sym::param("mode", 0), sym::param("comp", 3));
    let (f, main, pieces) = container(mode, comp);
    damage_window(&pieces);
    run(&main, &pieces, &f);
}
/// a window of the header of a pack and one of its tail or of its second header
pub fn c06_two() {
    let (mode, comp) = (sym::param("mode", 0), sym::param("comp", 3));
    let (f, main, pieces) = container(mode, comp);
    damage_two(&pieces);
    run(&main, &pieces, &f);
}
/// ranges: see `damage_range`
pub fn c06_range() {
    let (mode, comp) = (sym::param("mode", 0), sym::param("comp", 3));
    let (f, main, pieces) = container(mode, comp);
    damage_range(&pieces);
    run(&main, &pieces, &f);
}
/// not a Jubako file at all, whatever its length
pub fn c06_garbage() {
    let n = sym::choose(sym::param("max", 200), "length") as usize;
    let mut b: Vec<u8> = match sym::param("how", 0) {
        0 => vec![0; n],
        1 => vec![0xFF; n],
        2 => (0..n).map(|i| (i * 73 + 11) as u8).collect(),
        k => (0..n).map(|i| if i < 4 { [b'j', b'b', b'k', b"mdcC"[k as usize - 3]][i] } else { i as u8 }).collect(),
    };
    if n > 0 {
        let w = window(&[(0, n)], 4);
        for (x, y) in b[w.0..w.1].iter_mut().zip(sym::bytes(w.1 - w.0, "any")) {
            *x = y;
        }
    }
    put("g.jbk", &b);
    touch("g.jbk", &["g.jbk".into()], None);
    sym::cover("not a Jubako file");
}
/// a file of a container in the place of another one, and a file missing
pub fn c06_swap() {
    let (mode, comp) = (sym::param("mode", 1), sym::param("comp", 3));
    let (f, main, pieces) = container(mode, comp);
    let files = files_of(&pieces);
    let (a, b) = (sym::choose(files.len() as u64, "to") as usize, sym::choose(files.len() as u64 + 1, "from") as usize);
    if b == files.len() {
        std::fs::remove_file(&files[a]).unwrap();
    } else {
        put(&files[a], &get(&files[b]));
    }
    run(&main, &pieces, &f);
    let _ = dec::packs;
}
/// windows of the blocks of a container of `many` contents and `wide` entries
pub fn c06_block() {
    let (mode, comp) = (sym::param("mode", 0), sym::param("comp", 3));
    let (f, main, pieces) = container(mode, comp);
    damage_block(&pieces);
    run(&main, &pieces, &f);
    sym::cover("damaged container read");
}
pub fn c06_infos() {
    many(false);
}
