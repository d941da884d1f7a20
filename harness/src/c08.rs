//! C08: the created pack does not depend on how the compression workers and the writer are scheduled.
use crate::{c01, common::*, kit::*, sym};
use jbk::creator::ContentPackCreator;
use jubako as jbk;

const MIB4: usize = 4 * 1024 * 1024;

/// every callback is a place where any other thread may go first
struct Points(u64);
impl jbk::creator::Progress for Points {
    fn new_cluster(&self, _: u32, _: bool) {
        if self.0 & 1 != 0 {
            sym::point()
        }
    }
    fn handle_cluster(&self, _: u32, _: bool) {
        if self.0 & 2 != 0 {
            sym::point()
        }
    }
    fn handle_cluster_written(&self, _: u32) {
        if self.0 & 4 != 0 {
            sym::point()
        }
    }
    fn content_added(&self, _: jbk::Size) {
        if self.0 & 8 != 0 {
            sym::point()
        }
    }
}
type Contents = Vec<(&'static [u8], u64)>;
/// two bits of `plan` each: 0 small compressed, 1 big compressed, 2 small raw, 3 nothing.
/// A big one fills a compressed cluster.
fn contents() -> Contents {
    let (n, plan) = (sym::param("n", 4), sym::param("plan", 0b00_01_00_01));
    let mut v: Contents = vec![];
    let mut zeros = vec![0u8; MIB4 + 1024];
    for i in 0..64 {
        zeros[16 * i] = i as u8 + 1;
    }
    let zeros: &'static [u8] = Box::leak(zeros.into_boxed_slice());
    for i in 0..n {
        if i == 1 {
            // enough to fill raw clusters while the compressed ones are under way
            for k in 0..sym::param("raw", 0) as usize {
                v.push((&zeros[16 * (k % 64)..][..1 + k % 3], 1));
            }
        }
        let mut d = vec![i as u8 + 1, 0xA0 + i as u8];
        let (big, hint) = match plan >> (2 * (i % 32)) & 3 {
            0 => (false, 0),
            1 => (true, 0),
            2 => (false, 1),
            _ => continue,
        };
        if big {
            v.push((&zeros[16 * i as usize..][..MIB4 - 1], hint));
            continue;
        }
        if i < 4 {
            d[1] = sym::u8("content byte");
        }
        v.push((Box::leak(d.into_boxed_slice()), hint));
    }
    v
}
/// every address resolves to its own bytes, and the pack verifies
fn reads_back(path: &str, given: &Contents, addr: &[u32]) {
    use jbk::Pack;
    let p = ok(open_content(path), "the content pack does not open");
    sym::check(p.get_content_count().into_u32() as usize == given.len(), "another number of contents");
    for (i, (d, _)) in given.iter().enumerate() {
        if given.len() > 1000 && i > 3 && i + 4 < given.len() && i % 512 > 1 && i % 4095 > 2 {
            continue;
        }
        let r = some(ok(p.get_content(jbk::ContentIdx::from(addr[i])), "a content is not read"), "a content is absent");
        sym::check(r.size().into_u64() as usize == d.len(), "a content has another size");
        if d.len() < 1000 {
            sym::check(sym::eq(&region_bytes(&r), *d), "a content has other bytes");
        } else {
            // the ends and the middle of a big one
            let at: &[usize] = if sym::param("deep", 0) != 0 { &[0, d.len() / 2, d.len() - 16] } else { &[0] };
            for at in at.iter().copied() {
                let s = ok(r.get_slice(jbk::Offset::from(at as u64), 16).map_err(Into::into), "a content is not read");
                sym::check(sym::eq(&s, &d[at..at + 16]), "a content has other bytes");
            }
        }
    }
    if sym::param("verify", 1) != 0 {
        sym::check(ok(p.check(), "the check fails"), "the pack does not verify");
    }
}
pub fn c08_order() {
    let given = contents();
    sym::sched(sym::param("sched", 3), sym::param("budget", 0) | sym::param("pb", 0) << 32 | sym::param("parts", 0) << 48 | sym::param("part", 0) << 56);
    let mut c = match ContentPackCreator::new_with_progress(
        "p.jbkc",
        jbk::PackId::from(1),
        VENDOR,
        Default::default(),
        compression(sym::param("comp", 3)),
        std::sync::Arc::new(Points(sym::param("points", 3))),
    ) {
        Ok(c) => c,
        Err(_) => sym::fail("the creator does not start"),
    };
    let mut addr = vec![];
    for (d, h) in &given {
        match c.add_content(Box::new(std::io::Cursor::new(*d)), c01::hint(*h)) {
            Ok(a) => addr.push(a.content_id.into_u32()),
            Err(_) => sym::fail("add_content fails"),
        }
    }
    if c.finalize().is_err() {
        sym::fail("finalizing fails");
    }
    sym::sched(0, 0);
    for (i, a) in addr.iter().enumerate() {
        sym::check(*a as usize == i, "contents are not numbered in the order of insertion");
    }
    reads_back("p.jbkc", &given, &addr);
    sym::cover("pack read back");
}
