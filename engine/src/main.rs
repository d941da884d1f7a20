mod expr;
mod fs;
mod hash;
mod interp;
mod ir;
mod libc;
mod mem;
mod solver;

use interp::*;
use ir::*;
use mem::*;
use std::collections::BTreeMap;
use std::rc::Rc;
use std::time::Instant;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jl(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| js(s)).collect::<Vec<_>>().join(","))
}

fn usage() -> ! {
    eprintln!("usage: symex FILE.bc --harness NAME [--param k=v]* [--time S] [--steps N] [--paths N] [--viol N] [--smt-timeout MS] [--out FILE] [--dump DIR] [--replay FILE] [-v] [--trace]");
    std::process::exit(2)
}

fn main() {
    // deep expression recursion
    let h = std::thread::Builder::new().stack_size(4 << 30).spawn(real_main).unwrap();
    h.join().unwrap();
}

fn real_main() {
    let mut bc = None;
    let mut harness = String::new();
    let mut params: BTreeMap<String, u64> = BTreeMap::new();
    let (mut time, mut steps, mut paths, mut viol, mut smt) = (600.0, 60_000_000u64, u64::MAX, 8usize, 60_000u32);
    let mut mem_mb = 3500u64;
    let mut out = None;
    let mut dump = None;
    let mut replay = None;
    let (mut verbose, mut tracefn) = (false, false);
    let mut a = std::env::args().skip(1);
    while let Some(x) = a.next() {
        let mut nx = || a.next().unwrap_or_else(|| usage());
        match x.as_str() {
            "--harness" => harness = nx(),
            "--param" => {
                let p = nx();
                let (k, v) = p.split_once('=').unwrap_or_else(|| usage());
                params.insert(k.into(), v.parse().unwrap());
            }
            "--time" => time = nx().parse().unwrap(),
            "--steps" => steps = nx().parse().unwrap(),
            "--paths" => paths = nx().parse().unwrap(),
            "--viol" => viol = nx().parse().unwrap(),
            "--smt-timeout" => smt = nx().parse().unwrap(),
            "--mem" => mem_mb = nx().parse().unwrap(),
            "--out" => out = Some(nx()),
            "--dump" => dump = Some(nx()),
            "--replay" => replay = Some(nx()),
            "-v" => verbose = true,
            "--trace" => tracefn = true,
            _ if bc.is_none() && !x.starts_with('-') => bc = Some(x),
            _ => usage(),
        }
    }
    let bc = bc.unwrap_or_else(|| usage());
    let t0 = Instant::now();
    let mut md = Module::load(&bc);
    let mut mem = Mem::new();
    // object ids for globals
    for g in md.globals.iter_mut() {
        g.addr = mem.alloc_bytes(Bytes::new(0, 0), Kind::Global, false);
    }
    md.init_globals();
    let mut tls_tmpl = expr::FxMap::default();
    for g in md.globals.iter() {
        let (id, _) = Mem::split(g.addr);
        let o = mem.get_mut(id).unwrap();
        o.b = Bytes { data: g.init.clone(), sym: Default::default() };
        o.ro = g.constant;
        if g.tls {
            tls_tmpl.insert(id, ());
        }
    }
    let tab = libc::table();
    let mut ext: Vec<Option<ExtFn>> = vec![];
    let mut hook: Vec<u8> = vec![];
    for f in &md.fns {
        let e = if f.decl || tab.contains_key(f.name.as_str()) {
            if f.name.starts_with("llvm.") {
                libc::intrinsic(&f.name)
            } else {
                tab.get(f.name.as_str()).copied()
            }
        } else {
            None
        };
        ext.push(e);
        let p = f.name.starts_with("_R")
            && (f.name.contains("9panicking9panic_fmt") || f.name.contains("9panicking18panic_nounwind_fmt")
                || f.name.contains("9panicking11begin_panic")
                || f.name.contains("9panicking13resume_unwind"));
        hook.push(if p { 1 } else { 0 });
    }
    let mut x = expr::Ctx::new();
    let _ = x.tt();
    let mut s = solver::Solver::new(smt);
    s.dump_dir = dump;
    let st = State {
        threads: vec![],
        cur: 0,
        mem,
        pc: vec![],
        model: ModelState { m: Rc::new(Default::default()), memo: Rc::new(Default::default()) },
        fs: fs::Fs::new(),
        hashes: vec![],
        inputs: vec![],
        notes: vec![],
        steps: 0,
        mark: 0,
        pending: None,
        in_sched: false,
        nchoice: 0,
        choices: vec![],
        sched: Default::default(),
        fault: Default::default(),
        clock: 1_700_000_000_000_000_000,
        rng: 0x1234_5678_9abc_def1,
        phase: 0,
        panic_ok: 0,
        covers: vec![],
        depth: 0,
        names: Default::default(),
        mapped: 0,
    };
    let replay = replay.map(|f| {
        let mut r = interp::Replay { inputs: Default::default(), choices: vec![] };
        for l in std::fs::read_to_string(&f).expect("replay file").lines() {
            let w: Vec<&str> = l.split(' ').collect();
            let v = |x: &&str| x.parse::<u128>().unwrap();
            match w[0] {
                "i" => {
                    r.inputs.insert(w[1].into(), w[2..].iter().filter(|x| !x.is_empty()).map(v).collect());
                }
                "c" => r.choices.push((w[1].into(), v(&w[2]))),
                _ => (),
            }
        }
        r
    });
    let mut e = Engine {
        fork_sites: Default::default(),
        x,
        s,
        md,
        st,
        queue: vec![],
        ext,
        hook,
        viol: Default::default(),
        covers: Default::default(),
        n: Default::default(),
        incomplete: vec![],
        need_switch: false,
        verbose,
        harness: harness.clone(),
        params: params.clone(),
        t0,
        time_limit: time,
        slow_log: std::env::var("SX_SLOW").is_ok(),
        mem_check: 0,
        mem_limit: mem_mb,
        max_steps: steps,
        max_paths: paths,
        cur_d: 0,
        log: String::new(),
        initial: None,
        replay,
        samples: vec![],
        max_viol: viol,
        tls_tmpl,
        tracefn,
    };
    e.new_thread("main");
    let m = *e.md.by_name.get("main").expect("no main");
    e.push_call(0, m, &[Val::I(0), Val::I(0)], u32::MAX);
    e.initial = Some(Box::new(e.st.clone()));
    e.explore();
    e.queue.clear();
    // ---------------------------------------------------------------- report
    let mut fns: Vec<String> = vec![];
    let mut lines: std::collections::BTreeSet<(String, u32)> = Default::default();
    for f in &e.md.fns {
        if let Some(b) = f.body {
            if b.name.contains("jubako") && b.hit.iter().any(|h| h.get()) {
                fns.push(b.name.clone());
            }
            for (i, h) in b.hit.iter().enumerate() {
                if h.get() {
                    let (fi, ln) = b.locs[i];
                    if fi != u32::MAX {
                        let file = &e.md.files[fi as usize];
                        if let Some(p) = file.find("/repo/src/") {
                            lines.insert((file[p + 1..].to_string(), ln));
                        }
                    }
                }
            }
        }
    }
    let mut by_file: BTreeMap<String, Vec<u32>> = BTreeMap::new();
    for (f, l) in lines {
        by_file.entry(f).or_default().push(l);
    }
    let mut inc: BTreeMap<String, u64> = BTreeMap::new();
    for i in &e.incomplete {
        *inc.entry(i.clone()).or_insert(0) += 1;
    }
    let st = &e.s.stats;
    let mut o = String::from("{\n");
    o.push_str(&format!("\"harness\": {},\n", js(&harness)));
    o.push_str(&format!(
        "\"params\": {{{}}},\n",
        params.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", ")
    ));
    o.push_str(&format!(
        "\"complete\": {},\n\"secs\": {:.3},\n",
        inc.is_empty(),
        t0.elapsed().as_secs_f64()
    ));
    let n = &e.n;
    o.push_str(&format!("\"counters\": {{\"instrs\": {}, \"paths\": {}, \"forks\": {}, \"pruned\": {}, \"asserts\": {}, \"asserts_solver\": {}, \"faults\": {}, \"concretized\": {}, \"switches\": {}, \"symloads\": {}, \"expected_panics\": {}, \"max_states\": {}, \"nodes\": {}}},\n",
        n.instrs, n.paths, n.forks, n.pruned, n.asserts, n.asserts_solver, n.faults, n.concretized, n.switches, n.symloads, n.expected_panics, n.max_states, e.x.nodes.len()));
    o.push_str(&format!("\"solver\": {{\"queries\": {}, \"sat\": {}, \"unsat\": {}, \"unknown\": {}, \"cached\": {}, \"secs\": {:.3}, \"max_secs\": {:.3}}},\n",
        st.queries, st.sat, st.unsat, st.unknown, st.cached, st.secs, st.max_secs));
    let mut fs: Vec<_> = e.fork_sites.iter().collect();
    fs.sort_by_key(|x| std::cmp::Reverse(*x.1));
    o.push_str(&format!(
        "\"fork_sites\": [{}],\n",
        fs.iter().take(15).map(|(k, v)| format!("[{}, {}]", js(k), v)).collect::<Vec<_>>().join(", ")
    ));
    o.push_str("\"violations\": [");
    for (i, v) in e.viol.values().enumerate() {
        if i > 0 {
            o.push_str(",\n");
        }
        let kv = |l: &Vec<(String, Vec<u128>)>| {
            l.iter()
                .map(|(k, v)| format!("[{}, [{}]]", js(k), v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")))
                .collect::<Vec<_>>()
                .join(", ")
        };
        o.push_str(&format!(
            "{{\"kind\": {}, \"label\": {}, \"count\": {}, \"stack\": {}, \"inputs\": [{}], \"notes\": [{}], \"choices\": [{}], \"faults\": {}, \"fs\": {}}}",
            js(&v.kind),
            js(&v.label),
            v.count,
            jl(&v.stack),
            kv(&v.inputs),
            kv(&v.notes),
            v.choices.iter().map(|(k, c)| format!("[{}, {}]", js(k), c)).collect::<Vec<_>>().join(", "),
            jl(&v.faults),
            jl(&v.fstrace)
        ));
    }
    o.push_str("],\n");
    o.push_str(&format!(
        "\"covers\": {{{}}},\n",
        e.covers.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", ")
    ));
    o.push_str(&format!(
        "\"incomplete\": {{{}}},\n",
        inc.iter().take(20).map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", ")
    ));
    o.push_str(&format!("\"samples\": {},\n", jl(&e.samples)));
    o.push_str(&format!("\"log\": {},\n", js(&e.log)));
    o.push_str(&format!("\"functions\": {},\n", jl(&fns)));
    o.push_str(&format!(
        "\"lines\": {{{}}}\n}}\n",
        by_file
            .iter()
            .map(|(k, v)| format!("{}: [{}]", js(k), v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")))
            .collect::<Vec<_>>()
            .join(", ")
    ));
    match out {
        Some(f) => std::fs::write(f, o).unwrap(),
        None => {
            if verbose {
                let cut = o.find("\"functions\"").unwrap();
                println!("{}", &o[..cut]);
            } else {
                println!("{}", o)
            }
        }
    }
    // skip the (slow) teardown of the term DAG
    std::process::exit(if !e.viol.is_empty() { 1 } else if !inc.is_empty() { 2 } else { 0 });
}
