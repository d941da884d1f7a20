//! Harness API. In the symbolic build the `vsym_*` functions are implemented by the engine; in the
//! native build (feature "native") by `native.rs`, which replays a recorded assignment.
extern "C" {
    fn vsym_bytes(p: *mut u8, n: usize, name: *const u8, nl: usize);
    fn vsym_uint(w: u64, name: *const u8, nl: usize) -> u64;
    fn vsym_assume(c: u64);
    fn vsym_assert(c: u64, m: *const u8, ml: usize);
    fn vsym_cover(m: *const u8, ml: usize);
    fn vsym_param(m: *const u8, ml: usize, d: u64) -> u64;
    fn vsym_conc(v: u64) -> u64;
    fn vsym_harness(p: *mut u8, n: usize) -> usize;
    fn vsym_phase() -> u64;
    fn vsym_reboot();
    fn vsym_fault(mode: u64, budget: u64);
    fn vsym_fault_hit() -> u64;
    fn vsym_sched(on: u64, budget: u64);
    fn vsym_point();
    fn vsym_panic_ok(on: u64);
    fn vsym_mark();
    fn vsym_stop();
    fn vsym_note(m: *const u8, ml: usize, p: *const u8, n: usize);
    fn vsym_eq(p: *const u8, q: *const u8, n: usize) -> u32;
    fn vsym_choose(n: u64, m: *const u8, ml: usize) -> u64;
    fn vsym_threads() -> u64;
    fn vsym_trace(m: *const u8, ml: usize);
    fn vsym_hash(p: *const u8, n: usize, out: *mut u8);
    fn vsym_is_concrete(p: *const u8, n: usize) -> u64;
}
macro_rules! s {
    ($x:expr) => {
        ($x.as_ptr(), $x.len())
    };
}
pub fn fill(buf: &mut [u8], name: &str) {
    let (p, l) = s!(name);
    unsafe { vsym_bytes(buf.as_mut_ptr(), buf.len(), p, l) }
}
pub fn bytes(n: usize, name: &str) -> Vec<u8> {
    let mut v = vec![0u8; n];
    fill(&mut v, name);
    v
}
pub fn uint(w: u32, name: &str) -> u64 {
    let (p, l) = s!(name);
    unsafe { vsym_uint(w as u64, p, l) }
}
pub fn u64(name: &str) -> u64 {
    uint(64, name)
}
pub fn u8(name: &str) -> u8 {
    uint(8, name) as u8
}
pub fn bool(name: &str) -> bool {
    uint(1, name) != 0
}
/// symbolic value in lo..=hi
pub fn range(lo: u64, hi: u64, name: &str) -> u64 {
    let v = uint(64, name);
    assume(v.wrapping_sub(lo) <= hi - lo);
    v
}
/// symbolic value in lo..=hi, one path per value
pub fn pick(lo: u64, hi: u64, name: &str) -> u64 {
    lo + choose(hi - lo + 1, name)
}
pub fn assume(c: bool) {
    unsafe { vsym_assume(c as u64) }
}
#[inline(never)]
pub fn check(c: bool, m: &str) {
    let (p, l) = s!(m);
    unsafe { vsym_assert(c as u64, p, l) }
}
#[inline(never)]
pub fn fail(m: &str) -> ! {
    check(false, m);
    stop()
}
pub fn cover(m: &str) {
    let (p, l) = s!(m);
    unsafe { vsym_cover(p, l) }
}
pub fn param(m: &str, d: u64) -> u64 {
    let (p, l) = s!(m);
    unsafe { vsym_param(p, l, d) }
}
pub fn conc(v: u64) -> u64 {
    unsafe { vsym_conc(v) }
}
pub fn harness() -> String {
    let mut b = [0u8; 64];
    let n = unsafe { vsym_harness(b.as_mut_ptr(), 64) };
    String::from_utf8_lossy(&b[..n]).into_owned()
}
pub fn phase() -> u64 {
    unsafe { vsym_phase() }
}
pub fn reboot() {
    unsafe { vsym_reboot() }
}
pub fn fault(mode: u64, budget: u64) {
    unsafe { vsym_fault(mode, budget) }
}
pub fn fault_hit() -> bool {
    unsafe { vsym_fault_hit() != 0 }
}
pub fn sched(on: u64, budget: u64) {
    unsafe { vsym_sched(on, budget) }
}
/// any thread may run next
pub fn point() {
    unsafe { vsym_point() }
}
pub fn panic_ok(on: bool) {
    unsafe { vsym_panic_ok(on as u64) }
}
/// from here on a panic (or a hang) is a process death: main() runs again in the next phase
pub fn panic_ok_die() {
    unsafe { vsym_panic_ok(2) }
}
pub fn mark() {
    unsafe { vsym_mark() }
}
pub fn stop() -> ! {
    unsafe { vsym_stop() }
    std::process::exit(0)
}
pub fn note(m: &str, b: &[u8]) {
    let (p, l) = s!(m);
    unsafe { vsym_note(p, l, b.as_ptr(), b.len()) }
}
pub fn note_u(m: &str, v: u64) {
    note(m, &v.to_be_bytes())
}
/// equality as one condition (no fork)
pub fn eq(a: &[u8], b: &[u8]) -> bool {
    a.len() == b.len() && unsafe { vsym_eq(a.as_ptr(), b.as_ptr(), a.len()) != 0 }
}
pub fn choose(n: u64, m: &str) -> u64 {
    let (p, l) = s!(m);
    unsafe { vsym_choose(n, p, l) }
}
pub fn threads() -> u64 {
    unsafe { vsym_threads() }
}
pub fn trace(m: &str) {
    let (p, l) = s!(m);
    unsafe { vsym_trace(p, l) }
}
pub fn hash(b: &[u8]) -> [u8; 32] {
    let mut o = [0u8; 32];
    unsafe { vsym_hash(b.as_ptr(), b.len(), o.as_mut_ptr()) };
    o
}
pub fn is_concrete(b: &[u8]) -> bool {
    unsafe { vsym_is_concrete(b.as_ptr(), b.len()) != 0 }
}
