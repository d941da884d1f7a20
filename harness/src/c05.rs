//! C05: damaged metadata is reported, never silently decoded into different values.
use jubako as jbk;
use crate::{dmg::*, fix, kit::*, sym};

/// what the manifest says of every pack
fn pack_list(path: &str) -> JR<Vec<Vec<u8>>> {
    let c = jbk::tools::open_pack(path)?;
    let mut v = vec![];
    let m = match c.get_manifest_pack_reader()? {
        Some(r) => jbk::reader::ManifestPack::new(r)?,
        None => return jbk::reader::ManifestPack::new(jbk::FileSource::open(path)?.into()).map(|_| v),
    };
    for p in std::iter::once(m.get_directory_pack_info()).chain(m.get_pack_infos()) {
        let mut o = p.uuid.as_bytes().to_vec();
        o.extend_from_slice(&p.pack_id.into_u16().to_le_bytes());
        o.extend_from_slice(&p.pack_size.into_u64().to_le_bytes());
        o.push(p.pack_group);
        o.extend_from_slice(p.pack_location.as_bytes());
        v.push(o);
    }
    for (i, p) in std::iter::once(m.get_directory_pack_info()).chain(m.get_pack_infos()).enumerate() {
        // an error here is an answer too
        match m.get_pack_free_data_uuid(p.uuid) {
            Ok(Some(d)) => v[i].extend_from_slice(d),
            Ok(None) => {}
            Err(e) => return Err(e),
        }
    }
    Ok(v)
}
/// everything the damaged container still says must be what was written
fn still_true(f: &fix::Fix, main: &str, packs: &[Vec<u8>]) {
    sym::panic_ok(true);
    if let Ok(now) = pack_list(main) {
        sym::check(now.len() == packs.len(), "the pack list has another length");
        for (x, y) in now.iter().zip(packs) {
            sym::check(sym::eq(x, y), "a pack description differs");
        }
    }
    let c = match fix::open(main) {
        Ok(c) => c,
        Err(_) => return,
    };
    let mut w = fix::Walk::lenient();
    w.container(&c, f);
    if w.content_differs {
        sym::check(!matches!(c.check(), Ok(true)), "stored bytes differ and the check passes");
    }
}
/// any change of a window of any file
pub fn c05_alter() {
    let (mode, comp) = (sym::param("mode", 0), sym::param("comp", 3));
    let (f, main, pieces) = container(mode, comp);
    let list = ok(pack_list(&main), "the pack list is not read");
    damage_window(&pieces);
    still_true(&f, &main, &list);
    sym::cover("damaged container read");
}
/// a window of the header of a pack and a window of its tail, or of its check info
pub fn c05_two() {
    let (mode, comp) = (sym::param("mode", 0), sym::param("comp", 3));
    let (f, main, pieces) = container(mode, comp);
    let list = ok(pack_list(&main), "the pack list is not read");
    damage_two(&pieces);
    still_true(&f, &main, &list);
    sym::cover("damaged container read");
}
/// ranges: see `damage_range`
pub fn c05_big() {
    let (mode, comp) = (sym::param("mode", 0), sym::param("comp", 3));
    let (f, main, pieces) = container(mode, comp);
    let list = ok(pack_list(&main), "the pack list is not read");
    damage_range(&pieces);
    still_true(&f, &main, &list);
    sym::cover("damaged container read");
}
/// windows of the blocks of a container of `many` contents and `wide` entries
pub fn c05_block() {
    let (mode, comp) = (sym::param("mode", 0), sym::param("comp", 3));
    let (f, main, pieces) = container(mode, comp);
    let list = ok(pack_list(&main), "the pack list is not read");
    damage_block(&pieces);
    still_true(&f, &main, &list);
    sym::cover("damaged container read");
}

pub fn c05_infos() {
    many(true);
}
