//! The committed reference files (written by corpus/make.sh).
pub fn files(set: &str) -> Vec<(&'static str, &'static [u8])> {
    macro_rules! f {
        ($s:literal, $n:literal) => {
            ($n, &include_bytes!(concat!("../../corpus/", $s, "/", $n))[..])
        };
    }
    match set {
        "big0" => vec![f!("big0", "c.jbkc")],
        "big1" => vec![f!("big1", "c.jbkc")],
        "big2" => vec![f!("big2", "c.jbkc")],
        "big3" => vec![f!("big3", "c.jbkc")],
        "man10" => vec![f!("man10", "c1.jbkc"), f!("man10", "d.jbkd"), f!("man10", "m.jbkm")],
        "man11" => vec![f!("man11", "c1.jbkc"), f!("man11", "d.jbkd"), f!("man11", "m.jbkm")],
        "man12" => vec![f!("man12", "c1.jbkc"), f!("man12", "d.jbkd"), f!("man12", "m.jbkm")],
        "man13" => vec![f!("man13", "c1.jbkc"), f!("man13", "d.jbkd"), f!("man13", "m.jbkm")],
        "man20" => vec![f!("man20", "c1.jbkc"), f!("man20", "c2.jbkc"), f!("man20", "d.jbkd"), f!("man20", "m.jbkm")],
        "man21" => vec![f!("man21", "c1.jbkc"), f!("man21", "c2.jbkc"), f!("man21", "d.jbkd"), f!("man21", "m.jbkm")],
        "man22" => vec![f!("man22", "c1.jbkc"), f!("man22", "c2.jbkc"), f!("man22", "d.jbkd"), f!("man22", "m.jbkm")],
        "man23" => vec![f!("man23", "c1.jbkc"), f!("man23", "c2.jbkc"), f!("man23", "d.jbkd"), f!("man23", "m.jbkm")],
        "no0" => vec![f!("no0", "x..jbkd"), f!("no0", "x.jbk"), f!("no0", "x.jbkc")],
        "no1" => vec![f!("no1", "x..jbkd"), f!("no1", "x.jbk"), f!("no1", "x.jbkc")],
        "no2" => vec![f!("no2", "x..jbkd"), f!("no2", "x.jbk"), f!("no2", "x.jbkc")],
        "no3" => vec![f!("no3", "x..jbkd"), f!("no3", "x.jbk"), f!("no3", "x.jbkc")],
        "one0" => vec![f!("one0", "x.jbk")],
        "one1" => vec![f!("one1", "x.jbk")],
        "one2" => vec![f!("one2", "x.jbk")],
        "one3" => vec![f!("one3", "x.jbk")],
        "two0" => vec![f!("two0", "x.jbk"), f!("two0", "x.jbkc")],
        "two1" => vec![f!("two1", "x.jbk"), f!("two1", "x.jbkc")],
        "two2" => vec![f!("two2", "x.jbk"), f!("two2", "x.jbkc")],
        "two3" => vec![f!("two3", "x.jbk"), f!("two3", "x.jbkc")],
        "wide" => vec![f!("wide", "d.jbkd")],
        _ => vec![],
    }
}
