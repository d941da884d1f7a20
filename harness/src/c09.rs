//! C09: creation is all-or-nothing at the destination path.
use crate::{c01, common::*, fix, fix::Item, kit::*, sym};
use jbk::creator::{AtomicOutFile, BasicCreator, ContentPackCreator, PackRecipient};
use jubako as jbk;
use std::sync::Arc;

const OLD: &[u8] = b"the previous complete file, longer or shorter than what replaces it";

fn dest() -> &'static str {
    match sym::param("name", 0) {
        0 => "x.jbk",
        1 => "x",
        2 => "x.jbkm",
        3 => "sub/dir.d/x.jbk",
        // the name the content pack would get
        _ => "x.jbkc",
    }
}
/// the contents, and whether each is wanted compressed; some bytes are free. Kept in files, so that
/// they are still known after the process died.
fn prepare() {
    let k = sym::param("sym", 2) as usize;
    let mut v: Vec<(Vec<u8>, u64)> = vec![(b"a raw content".to_vec(), 1), (b"a compressed content".to_vec(), 0), (vec![], 1)];
    let big = sym::param("big", 0) as usize;
    if big > 0 {
        v.push(((0..big).map(|i| (i * 7 + i / 251) as u8).collect(), sym::param("bighint", 1)));
    }
    for i in 0..k {
        v[i % 2].0[i / 2] = sym::u8("content byte");
    }
    for (i, (d, h)) in v.into_iter().enumerate() {
        put(&format!("in{i}"), &d);
        put(&format!("in{i}.hint"), &[h as u8]);
    }
}
fn contents() -> Vec<(Vec<u8>, u64)> {
    (0..).map_while(|i| Some((std::fs::read(format!("in{i}")).ok()?, get(&format!("in{i}.hint"))[0] as u64))).collect()
}
/// the expectation, rebuilt without the creator: contents are numbered in order in pack 1
fn expected(extra: bool) -> fix::Fix {
    let mut items: Vec<Item> = contents().into_iter().enumerate().map(|(i, (d, _))| Item { pack: 1, content: i as u32, data: d }).collect();
    if extra {
        items.push(Item { pack: 2, content: 0, data: b"in the extra pack".to_vec() });
    }
    fix::fix(items)
}
fn create(contents: Vec<(Vec<u8>, u64)>, exp: fix::Fix, extra: bool) -> jbk::creator::Result<()> {
    let comp = sym::param("comp", 3);
    let mut c = BasicCreator::new(dest(), fix::mode(sym::param("mode", 0)), VENDOR, compression(comp), Arc::new(()))?;
    let file = sym::param("file", 0) != 0;
    for (i, (d, h)) in contents.into_iter().enumerate() {
        let r: Box<dyn jbk::creator::InputReader> = if file { Box::new(jbk::creator::InputFile::open(format!("in{i}"))?) } else { cursor(d) };
        c.add_content(r, c01::hint(h))?;
    }
    let mut extras: Vec<ContentPackCreator<dyn PackRecipient>> = vec![];
    if extra {
        let p = jbk::Utf8PathBuf::from_path_buf(std::env::current_dir()?).unwrap().join("extra.jbkc");
        let mut e = ContentPackCreator::<dyn PackRecipient>::new_from_output(AtomicOutFile::new(p)?, jbk::PackId::from(2), VENDOR, Default::default(), compression(comp))?;
        e.add_content(cursor(b"in the extra pack".to_vec()), c01::hint(0))?;
        extras.push(e);
    }
    c.finalize(Box::new(exp.dir()), extras)
}
/// what may stand at the destination
fn settle(done: bool, extra: bool) {
    let main = std::fs::read(dest()).ok();
    let old = sym::param("old", 0) != 0;
    match main {
        None => {
            sym::check(!old, "the file that was at the destination is gone");
            sym::check(!done, "creation reports success without a file at the destination");
            sym::cover("nothing at the destination");
        }
        Some(m) if old && m == OLD => {
            sym::check(!done, "creation reports success and leaves the old file");
            sym::cover("the old file is still there");
        }
        Some(_) => {
            // every pack it names is there, complete, and the contents are the ones given
            let c = fix::reads_exactly(dest(), &expected(extra));
            fix::verifies(&c);
            sym::cover("the new container is complete");
        }
    }
}
pub fn c09_atomic() {
    let extra = sym::param("extra", 0) != 0;
    if sym::phase() == 1 {
        settle(false, extra);
        return;
    }
    if sym::param("name", 0) == 3 {
        std::fs::create_dir("sub").unwrap();
        std::fs::create_dir("sub/dir.d").unwrap();
    }
    if sym::param("old", 0) != 0 {
        std::fs::write(dest(), OLD).unwrap();
    }
    prepare();
    let (given, exp) = (contents(), expected(extra));
    sym::panic_ok_die();
    sym::fault(sym::param("fault", 1), sym::param("faults", 1));
    let r = create(given, exp, extra);
    sym::fault(0, 0);
    sym::panic_ok(false);
    if !sym::fault_hit() && sym::param("name", 0) == 4 && sym::param("mode", 0) != 0 {
        sym::cover("no fault");
    } else if !sym::fault_hit() {
        sym::check(r.is_ok(), "creation fails without a fault");
        sym::cover("no fault");
    } else if r.is_ok() {
        sym::cover("success in spite of a fault");
    }
    settle(r.is_ok(), extra);
}
