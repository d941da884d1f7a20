//! C13: every view of a stored content shows the same bytes, sizes, offsets and remaining lengths.
use crate::{c01, common::*, kit::*, sym};
use jbk::reader::{ByteRegion, ByteSlice, ByteStream};
use jubako as jbk;
use std::io::Read;

/// a pack of three contents; the one looked at is in the middle of its cluster
fn stored(data: &[u8]) -> ByteRegion {
    let (comp, mem) = (sym::param("comp", 0), sym::param("mem", 0));
    let pre = sym::param("pre", 3) as usize;
    let items = vec![
        c01::Item { data: (0..pre).map(|i| 0x80 ^ i as u8).collect(), hint: 0, src: 0 },
        c01::Item { data: data.to_vec(), hint: 0, src: 0 },
        c01::Item { data: vec![0x55; 5], hint: 0, src: 0 },
    ];
    let addrs = c01::build("p.jbkc", compression(comp), &items);
    let p = if mem == 1 {
        ok(jbk::reader::ContentPack::new(jbk::Reader::from(get("p.jbkc"))), "the written content pack does not open")
    } else {
        ok(open_content("p.jbkc"), "the written content pack does not open")
    };
    some(ok(p.get_content(addrs[1].content_id), "reading a stored content fails"), "a stored content is reported as absent")
}
fn slice_is(r: JR<std::borrow::Cow<[u8]>>, want: &[u8]) {
    match r {
        Ok(s) => sym::check(sym::eq(&s, want), "a slice differs from the bytes of its range"),
        Err(_) => sym::fail("taking a slice inside the range fails"),
    }
}
/// read sizes tried on a stream, whose view is `want`
fn stream_is(mut s: ByteStream, want: &[u8], reads: u64, max: u64) {
    let n = want.len() as u64;
    let mut pos = 0u64;
    state(&s, pos, n);
    for _ in 0..reads {
        let k = sym::choose(max + 1, "read size") as usize;
        let mut buf = vec![0xEEu8; k];
        match s.read(&mut buf) {
            Err(_) => sym::fail("reading a stream inside its range fails"),
            Ok(got) => {
                let left = (n - pos) as usize;
                sym::check(got <= k && got <= left, "a stream returns more bytes than it has");
                sym::check(got > 0 || k == 0 || left == 0, "a stream ends before its size");
                sym::check(sym::eq(&buf[..got], &want[pos as usize..pos as usize + got]), "a stream yields bytes of another range");
                sym::check(buf[got..].iter().all(|b| *b == 0xEE), "a read writes past the count it returns");
                pos += got as u64;
            }
        }
        state(&s, pos, n);
    }
    let mut rest = vec![];
    if s.read_to_end(&mut rest).is_err() {
        sym::fail("reading a stream to its end fails");
    }
    sym::check(sym::eq(&rest, &want[pos as usize..]), "a stream yields bytes of another range");
    state(&s, n, n);
    let mut b = [0u8; 4];
    match s.read(&mut b) {
        Ok(0) => {}
        _ => sym::fail("a stream at its end does not report the end"),
    }
    state(&s, n, n);
}
fn state(s: &ByteStream, pos: u64, n: u64) {
    sym::check(s.size() == n, "a stream reports another size");
    sym::check(s.offset() == pos, "a stream reports another offset");
    sym::check(s.size_left() == n - pos, "a stream reports another remaining length");
}
fn region_is(r: &ByteRegion, want: &[u8]) {
    sym::check(r.size().into_u64() == want.len() as u64, "a region reports another size");
    slice_is(r.get_slice(jbk::Offset::zero(), want.len()), want);
}
fn view_is(s: &ByteSlice, want: &[u8]) {
    sym::check(s.size().into_u64() == want.len() as u64, "a cut reports another size");
    slice_is(s.get_slice(jbk::Offset::zero(), want.len()), want);
}
/// (offset, size) inside a view of `n` bytes: all of them when it is short, else around `points`
fn part(n: u64, points: &[u64]) -> (u64, u64) {
    if points.is_empty() {
        let o = sym::choose(n + 1, "offset");
        return (o, sym::choose(n - o + 1, "size"));
    }
    let mut c: Vec<u64> = points.iter().flat_map(|p| [p.wrapping_sub(1), *p, p + 1]).filter(|p| *p <= n).collect();
    c.push(n);
    c.sort();
    c.dedup();
    let a = sym::choose(c.len() as u64, "offset") as usize;
    let b = a + sym::choose((c.len() - a) as u64, "end") as usize;
    (c[a], c[b] - c[a])
}
fn observe(r: &ByteRegion, want: &[u8], points: &[u64], reads: u64, max: u64) {
    match sym::choose(5, "view") {
        0 => {
            region_is(r, want);
            let (o, z) = part(want.len() as u64, points);
            slice_is(r.get_slice(o.into(), z as usize), &want[o as usize..(o + z) as usize]);
        }
        1 => stream_is(r.stream(), want, reads, max),
        2 => stream_is(r.clone().into(), want, reads, max),
        3 => {
            let s = r.as_slice();
            view_is(&s, want);
            let (o, z) = part(want.len() as u64, points);
            slice_is(s.get_slice(o.into(), z as usize), &want[o as usize..(o + z) as usize]);
        }
        _ => stream_is(r.as_slice().stream(), want, reads, max),
    }
}
/// every chain of `depth` cuts and conversions, then every observation
pub fn c13_views() {
    let len = sym::param("len", 3) as usize;
    let depth = sym::param("depth", 2);
    let data = sym::bytes(len, "data");
    let mut r = stored(&data);
    let mut want = &data[..];
    for _ in 0..depth {
        let (o, z) = part(want.len() as u64, &[]);
        r = match sym::choose(3, "cut") {
            0 => r.cut(o.into(), z.into()).into(),
            1 => r.as_slice().cut(o.into(), z.into()).into(),
            _ => {
                let s = r.cut(o.into(), jbk::Size::new(want.len() as u64 - o));
                view_is(&s, &want[o as usize..]);
                let t = s.cut(jbk::Offset::zero(), z.into());
                view_is(&t, &want[o as usize..(o + z) as usize]);
                t.into()
            }
        };
        want = &want[o as usize..(o + z) as usize];
    }
    observe(&r, want, &[], sym::param("reads", 2), sym::param("max", len as u64 + 1));
    sym::cover("views agree");
}
/// contents larger than the 1 KiB file buffer, the 4 KiB decoding step and the 64 KiB parser window
pub fn c13_large() {
    let len = sym::param("len", 9000) as usize;
    let data = c01::filler(len, sym::param("kind", 1), "data");
    let r = stored(&data);
    let points = [0, 1024, 4096, 8192, 65536];
    let (o, z) = part(len as u64, &points);
    let c: ByteRegion = r.cut(o.into(), z.into()).into();
    let want = &data[o as usize..(o + z) as usize];
    match sym::choose(3, "view") {
        0 => {
            region_is(&c, want);
            let (o, z) = (want.len() / 2, want.len() - want.len() / 2);
            slice_is(c.get_slice(o.into(), z), &want[o..o + z]);
        }
        v => {
            let mut s: ByteStream = if v == 1 { c.stream() } else { c.into() };
            let step = [1000usize, 1024, 4096, 5000][sym::choose(4, "step") as usize];
            let mut pos = 0;
            let mut buf = vec![0u8; step];
            while pos < want.len() {
                let got = match s.read(&mut buf) {
                    Ok(g) => g,
                    Err(_) => sym::fail("reading a stream inside its range fails"),
                };
                sym::check(got > 0, "a stream ends before its size");
                sym::check(got <= want.len() - pos, "a stream returns more bytes than it has");
                sym::check(sym::eq(&buf[..got], &want[pos..pos + got]), "a stream yields bytes of another range");
                pos += got;
                state(&s, pos as u64, want.len() as u64);
            }
            sym::check(matches!(s.read(&mut buf), Ok(0)), "a stream at its end does not report the end");
        }
    }
    sym::cover("large views agree");
}
/// a symbolic offset and size: one query covers every one of them
pub fn c13_any() {
    let len = sym::param("len", 40) as usize;
    let data = sym::bytes(len, "data");
    let r = stored(&data);
    let o = sym::range(0, len as u64, "offset");
    let z = sym::range(0, len as u64, "size");
    sym::assume(o + z <= len as u64);
    let s = r.cut(o.into(), z.into());
    sym::check(s.size().into_u64() == z, "a cut reports another size");
    let st = s.stream();
    sym::check(st.size() == z && st.offset() == 0 && st.size_left() == z, "a stream on a cut reports another extent");
    let q = sym::range(0, len as u64, "inner");
    sym::assume(q < z);
    let got = match s.get_slice(q.into(), 1) {
        Ok(x) => x[0],
        Err(_) => sym::fail("taking a slice inside the range fails"),
    };
    sym::check(got == data[(o + q) as usize], "a slice differs from the bytes of its range");
    let c: ByteRegion = s.into();
    let mut st: ByteStream = c.into();
    sym::check(st.size() == z && st.offset() == 0 && st.size_left() == z, "a stream from a region reports another extent");
    let mut b = [0u8; 1];
    match st.read(&mut b) {
        Ok(1) => sym::check(b[0] == data[o as usize], "a stream yields bytes of another range"),
        _ => sym::fail("a stream on a non-empty range does not read"),
    }
    sym::check(st.offset() == 1 && st.size_left() == z - 1, "a stream reports another position");
    sym::cover("any range agrees");
}
