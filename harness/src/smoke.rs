use crate::{common::*, sym};
use jubako as jbk;

pub fn smoke0() {
    let x = sym::bytes(2, "x");
    if x[0] == 3 {
        let v: Vec<u8> = x.iter().map(|b| b.wrapping_add(1)).collect();
        sym::check(v[0] == 4, "add");
        std::fs::write("out", &v).unwrap();
        let r = std::fs::read("out").unwrap();
        sym::check(sym::eq(&v, &r), "file round trip");
    }
    println!("hello {}", x.len());
    let h = std::thread::spawn(move || x[0] ^ x[1]);
    let r = h.join().unwrap();
    sym::check(r != 0x42, "expected to fail");
}

pub fn smoke1() {
    let comp = compression(sym::param("comp", 0));
    let data = sym::bytes(sym::param("len", 4) as usize, "data");
    let mut c = jbk::creator::ContentPackCreator::new("pack.jbkc", 1.into(), VENDOR, Default::default(), comp).unwrap();
    let a = c.add_content(cursor(data.clone()), jbk::creator::CompHint::Yes).unwrap();
    sym::check(a.content_id.into_u32() == 0, "first id");
    let (_f, _info) = c.finalize().unwrap();
    drop(_f);
    sym::trace("created");
    let f = jbk::FileSource::open("pack.jbkc").unwrap();
    let r: jbk::Reader = f.into();
    let p = jbk::reader::ContentPack::new(r).unwrap();
    sym::check(p.get_content_count().into_u64() == 1, "count");
    let b = p.get_content(0.into()).unwrap().unwrap();
    let got = region_bytes(&b);
    sym::check(sym::eq(&got, &data), "content");
    sym::cover("read back");
}
pub fn smoke2() {}
