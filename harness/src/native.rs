//! Native implementation of the harness API: replays one recorded assignment.
//!   VSYM_HARNESS  harness name
//!   VSYM_REPLAY   file of lines: `i NAME v v v` (inputs), `c LABEL v` (choices), `p NAME v` (params)
//! A failed assertion prints `ASSERT-FAILED: msg` and exits with 10; a pruned assumption exits 11.
use std::collections::HashMap;
use std::sync::Mutex;

#[path = "../../engine/src/hash.rs"]
mod hash;

#[derive(Default)]
struct R {
    inputs: HashMap<String, Vec<u64>>,
    choices: HashMap<String, std::collections::VecDeque<u64>>,
    params: HashMap<String, u64>,
    names: HashMap<String, u64>,
}
static REC: Mutex<Option<R>> = Mutex::new(None);

fn with<T>(f: impl FnOnce(&mut R) -> T) -> T {
    let mut g = REC.lock().unwrap_or_else(|e| e.into_inner());
    if g.is_none() {
        let mut r = R::default();
        if let Ok(p) = std::env::var("VSYM_REPLAY") {
            for l in std::fs::read_to_string(p).expect("replay file").lines() {
                let mut t = l.split_whitespace();
                let (Some(k), Some(n)) = (t.next(), t.next()) else { continue };
                let v: Vec<u64> = t.map(|x| x.parse().unwrap()).collect();
                match k {
                    "i" => {
                        r.inputs.insert(n.into(), v);
                    }
                    "c" => r.choices.entry(n.into()).or_default().push_back(v[0]),
                    "p" => {
                        r.params.insert(n.into(), v[0]);
                    }
                    _ => {}
                }
            }
        }
        *g = Some(r);
    }
    f(g.as_mut().unwrap())
}
unsafe fn st(p: *const u8, n: usize) -> String {
    String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).into_owned()
}
fn uniq(r: &mut R, n: &str) -> String {
    let n = n.replace(' ', "_");
    let c = r.names.entry(n.clone()).or_insert(0);
    let k = *c;
    *c += 1;
    if k == 0 {
        n
    } else {
        format!("{n}.{k}")
    }
}
#[no_mangle]
unsafe extern "C" fn vsym_bytes(p: *mut u8, n: usize, name: *const u8, nl: usize) {
    let name = st(name, nl);
    let v = with(|r| {
        let k = uniq(r, &name);
        r.inputs.get(&k).cloned().unwrap_or_default()
    });
    for i in 0..n {
        *p.add(i) = v.get(i).copied().unwrap_or(0) as u8;
    }
}
#[no_mangle]
unsafe extern "C" fn vsym_uint(_w: u64, name: *const u8, nl: usize) -> u64 {
    let name = st(name, nl);
    with(|r| {
        let k = uniq(r, &name);
        r.inputs.get(&k).and_then(|v| v.first().copied()).unwrap_or(0)
    })
}
#[no_mangle]
extern "C" fn vsym_assume(c: u64) {
    if c & 1 == 0 {
        eprintln!("ASSUME-FALSE");
        std::process::exit(11);
    }
}
#[no_mangle]
unsafe extern "C" fn vsym_assert(c: u64, m: *const u8, ml: usize) {
    if c & 1 == 0 {
        eprintln!("ASSERT-FAILED: {}", st(m, ml));
        // no destructors, no waiting for other threads
        extern "C" {
            fn _exit(c: i32) -> !;
        }
        _exit(10);
    }
}
#[no_mangle]
extern "C" fn vsym_cover(_: *const u8, _: usize) {}
#[no_mangle]
unsafe extern "C" fn vsym_param(m: *const u8, ml: usize, d: u64) -> u64 {
    let m = st(m, ml);
    with(|r| r.params.get(&m).copied().unwrap_or(d))
}
#[no_mangle]
extern "C" fn vsym_conc(v: u64) -> u64 {
    v
}
#[no_mangle]
unsafe extern "C" fn vsym_harness(p: *mut u8, n: usize) -> usize {
    let h = std::env::var("VSYM_HARNESS").expect("VSYM_HARNESS");
    let k = h.len().min(n);
    std::ptr::copy_nonoverlapping(h.as_ptr(), p, k);
    k
}
#[no_mangle]
extern "C" fn vsym_phase() -> u64 {
    std::env::var("VSYM_PHASE").ok().and_then(|x| x.parse().ok()).unwrap_or(0)
}
#[no_mangle]
extern "C" fn vsym_reboot() {
    std::process::exit(42)
}
#[no_mangle]
extern "C" fn vsym_fault(mode: u64, _b: u64) {
    // fault injection itself is done by the preloaded shim, armed through this variable
    extern "C" {
        fn dlsym(h: *mut u8, n: *const u8) -> *mut u8;
    }
    unsafe {
        let p = dlsym(std::ptr::null_mut(), c"vshim_arm".as_ptr() as *const u8);
        if !p.is_null() {
            let f: extern "C" fn(u64) = std::mem::transmute(p);
            f(mode);
        }
    }
}
#[no_mangle]
extern "C" fn vsym_fault_hit() -> u64 {
    extern "C" {
        fn dlsym(h: *mut u8, n: *const u8) -> *mut u8;
    }
    unsafe {
        let p = dlsym(std::ptr::null_mut(), c"vshim_hit".as_ptr() as *const u8);
        if !p.is_null() {
            let f: extern "C" fn() -> u64 = std::mem::transmute(p);
            return f();
        }
    }
    0
}
#[no_mangle]
extern "C" fn vsym_sched(_: u64, _: u64) {}
/// schedules cannot be imposed natively: a delay, different in each attempt
#[no_mangle]
extern "C" fn vsym_point() {
    use std::sync::atomic::{AtomicU64, Ordering};
    static N: AtomicU64 = AtomicU64::new(0);
    let a: u64 = std::env::var("VSYM_ATTEMPT").ok().and_then(|x| x.parse().ok()).unwrap_or(0);
    let n = N.fetch_add(1, Ordering::SeqCst) + 1;
    let mut x = (a + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ n.wrapping_mul(0xD1B5_4A32_D192_ED03);
    x ^= x >> 29;
    x = x.wrapping_mul(0xBF58_476D_1CE4_E5B9);
    x ^= x >> 32;
    if a > 0 && x % 3 == 0 {
        std::thread::sleep(std::time::Duration::from_micros(x >> 8 & 0x3FFF));
    }
}
#[no_mangle]
extern "C" fn vsym_panic_ok(on: u64) {
    if on == 2 {
        std::panic::set_hook(Box::new(|_| std::process::exit(42)));
    } else if on != 0 {
        std::panic::set_hook(Box::new(|_| {
            eprintln!("EXPECTED-PANIC");
            std::process::exit(0);
        }));
    } else {
        let _ = std::panic::take_hook();
    }
}
#[no_mangle]
extern "C" fn vsym_mark() {}
#[no_mangle]
extern "C" fn vsym_stop() {
    std::process::exit(0)
}
#[no_mangle]
unsafe extern "C" fn vsym_note(m: *const u8, ml: usize, p: *const u8, n: usize) {
    println!("note {} {:02x?}", st(m, ml), std::slice::from_raw_parts(p, n));
}
#[no_mangle]
unsafe extern "C" fn vsym_eq(p: *const u8, q: *const u8, n: usize) -> u32 {
    (std::slice::from_raw_parts(p, n) == std::slice::from_raw_parts(q, n)) as u32
}
#[no_mangle]
unsafe extern "C" fn vsym_choose(_n: u64, m: *const u8, ml: usize) -> u64 {
    let m = st(m, ml).replace(' ', "_");
    with(|r| r.choices.get_mut(&m).and_then(|q| q.pop_front()).unwrap_or(0))
}
#[no_mangle]
extern "C" fn vsym_threads() -> u64 {
    1
}
#[no_mangle]
unsafe extern "C" fn vsym_trace(m: *const u8, ml: usize) {
    println!("trace {}", st(m, ml));
}
#[no_mangle]
unsafe extern "C" fn vsym_hash(p: *const u8, n: usize, out: *mut u8) {
    let h = hash::blake3(std::slice::from_raw_parts(p, n));
    std::ptr::copy_nonoverlapping(h.as_ptr(), out, 32);
}
#[no_mangle]
extern "C" fn vsym_is_concrete(_: *const u8, _: usize) -> u64 {
    // both answers are legal encodings; take the one the model took
    with(|r| r.choices.get_mut("conc").and_then(|q| q.pop_front()).unwrap_or(0))
}
