//! Models of the external world: intrinsics, libc, threads, file system, harness API.
use crate::expr::*;
use crate::fs::*;
use crate::interp::*;
use crate::ir::*;
use crate::mem::*;
use crate::solver::*;
use std::collections::HashMap;
use std::rc::Rc;

const ENOENT: u64 = 2;
const EIO: u64 = 5;
const EBADF: u64 = 9;
const EEXIST: u64 = 17;
const EXDEV: u64 = 18;
const EISDIR: u64 = 21;
const EINVAL: u64 = 22;
const ENOSPC: u64 = 28;
const ENOTDIR: u64 = 20;

fn err(e: &mut Engine, code: u64) -> XR {
    let a = e.st.threads[e.st.cur].errno;
    e.write_int(a, 4, &Val::I(code))?;
    iv(u64::MAX)
}
fn err32(e: &mut Engine, code: u64) -> XR {
    err(e, code)?;
    iv(0xffff_ffff)
}
fn ci(e: &mut Engine, v: &Val) -> u64 {
    e.conc(v)
}
fn add(a: u64, b: u64) -> u64 {
    a.wrapping_add(b)
}

// ------------------------------------------------------------------ intrinsics
fn nop(_: &mut Engine, _: &[Val], _: u32) -> XR {
    Ok(None)
}
fn i_memcpy(e: &mut Engine, a: &[Val], _: u32) -> XR {
    let (d, s, n) = (ci(e, &a[0]), ci(e, &a[1]), ci(e, &a[2]));
    if n == 0 {
        return Ok(Some(Val::I(d)));
    }
    let b = e.read_bytes(s, n as usize)?;
    e.write_bytes(d, &b)?;
    Ok(Some(Val::I(d)))
}
fn i_memset(e: &mut Engine, a: &[Val], _: u32) -> XR {
    let (d, n) = (ci(e, &a[0]), ci(e, &a[2]));
    if n == 0 {
        return Ok(Some(Val::I(d)));
    }
    let mut b = Bytes::new(n as usize, 0);
    match &a[1] {
        Val::I(x) => b.data.fill(*x as u8),
        Val::E(x) => {
            let x = e.x.extract(*x, 0, 8);
            for i in 0..n as u32 {
                b.sym.insert(i, x);
            }
        }
        _ => {}
    }
    e.write_bytes(d, &b)?;
    Ok(Some(Val::I(d)))
}
fn i_trap(_: &mut Engine, _: &[Val], _: u32) -> XR {
    Err(Ex::Fault("abort", "llvm.trap".into()))
}
fn i_assume(_: &mut Engine, _: &[Val], _: u32) -> XR {
    Ok(None)
}
fn i_expect(_: &mut Engine, a: &[Val], _: u32) -> XR {
    Ok(Some(a[0].clone()))
}
fn lanewise(e: &mut Engine, a: &[Val], w: u32, f: &dyn Fn(&mut Engine, &[Val], u32) -> Result<Val, Ex>) -> XR {
    if let Val::A(l) = &a[0] {
        let l = l.clone();
        let mut out = vec![];
        for i in 0..l.len() {
            let args: Vec<Val> = a
                .iter()
                .map(|v| match v {
                    Val::A(x) => x[i].clone(),
                    v => v.clone(),
                })
                .collect();
            out.push(f(e, &args, w)?);
        }
        return Ok(Some(Val::A(Rc::new(out))));
    }
    Ok(Some(f(e, a, w)?))
}
fn i_minmax(e: &mut Engine, a: &[Val], w: u32, p: Pred) -> Result<Val, Ex> {
    let c = e.icmp(p, w, &a[0], &a[1]);
    Ok(e.sel(&Ty::Int(w), &c, &a[0], &a[1]))
}
macro_rules! mm {
    ($n:ident,$p:expr) => {
        fn $n(e: &mut Engine, a: &[Val], w: u32) -> XR {
            lanewise(e, a, w, &|e, a, w| i_minmax(e, a, w, $p))
        }
    };
}
mm!(i_umin, Pred::Ult);
mm!(i_umax, Pred::Ugt);
mm!(i_smin, Pred::Slt);
mm!(i_smax, Pred::Sgt);
fn i_cmp3(e: &mut Engine, a: &[Val], w: u32, lt: Pred, gt: Pred) -> XR {
    // result width: i8 in practice
    let l = e.icmp(lt, w, &a[0], &a[1]);
    let g = e.icmp(gt, w, &a[0], &a[1]);
    let t = e.sel(&Ty::Int(8), &g, &Val::I(1), &Val::I(0));
    Ok(Some(e.sel(&Ty::Int(8), &l, &Val::I(0xff), &t)))
}
fn i_ucmp8(e: &mut Engine, a: &[Val], w: u32) -> XR {
    i_cmp3(e, a, w, Pred::Ult, Pred::Ugt)
}
fn i_scmp8(e: &mut Engine, a: &[Val], w: u32) -> XR {
    i_cmp3(e, a, w, Pred::Slt, Pred::Sgt)
}
fn with_overflow(e: &mut Engine, a: &[Val], w: u32, op: Op, signed: bool) -> XR {
    if let (Val::I(x), Val::I(y)) = (&a[0], &a[1]) {
        let (r, o) = if signed {
            let (x, y) = (sx(*x as u128, w), sx(*y as u128, w));
            let r = match op {
                Op::Add => x + y,
                Op::Sub => x - y,
                _ => x.checked_mul(y).unwrap_or(i128::MAX),
            };
            let t = (r as u128) & mask(w);
            (t, sx(t, w) != r)
        } else {
            let (x, y) = (*x as u128, *y as u128);
            match op {
                Op::Add => ((x + y) & mask(w), x + y > mask(w)),
                Op::Sub => (x.wrapping_sub(y) & mask(w), x < y),
                _ => (x.wrapping_mul(y) & mask(w), x.checked_mul(y).map_or(true, |r| r > mask(w))),
            }
        };
        let r = e.from_u(r, w);
        return Ok(Some(Val::A(Rc::new(vec![r, Val::I(o as u64)]))));
    }
    let x = e.to_e(&a[0], w);
    let y = e.to_e(&a[1], w);
    let r = e.x.bin(op, x, y);
    let o = match (op, signed) {
        (Op::Add, false) => e.x.cmp(P::Ult, r, x),
        (Op::Sub, false) => e.x.cmp(P::Ult, x, y),
        (Op::Add, true) | (Op::Sub, true) => {
            let sxx = e.x.extract(x, w - 1, 1);
            let sy = e.x.extract(y, w - 1, 1);
            let sr = e.x.extract(r, w - 1, 1);
            let same = e.x.bin(Op::Xor, sxx, sy);
            let same = if op == Op::Add { e.x.not(same) } else { same };
            let d = e.x.bin(Op::Xor, sxx, sr);
            e.x.and(same, d)
        }
        _ => {
            // mul
            if 2 * w > 128 {
                return Err(Ex::Fault("unsupported", "128-bit mul overflow".into()));
            }
            let (xx, yy) = if signed { (e.x.sext(x, 2 * w), e.x.sext(y, 2 * w)) } else { (e.x.zext(x, 2 * w), e.x.zext(y, 2 * w)) };
            let p = e.x.bin(Op::Mul, xx, yy);
            if signed {
                let rr = e.x.sext(r, 2 * w);
                let q = e.x.eq(rr, p);
                e.x.not(q)
            } else {
                let h = e.x.extract(p, w, w);
                let z = e.x.c(0, w);
                let q = e.x.eq(h, z);
                e.x.not(q)
            }
        }
    };
    let r = e.from_e(r);
    let o = e.from_e(o);
    Ok(Some(Val::A(Rc::new(vec![r, o]))))
}
fn i_uaddo(e: &mut Engine, a: &[Val], w: u32) -> XR {
    with_overflow(e, a, w, Op::Add, false)
}
fn i_usubo(e: &mut Engine, a: &[Val], w: u32) -> XR {
    with_overflow(e, a, w, Op::Sub, false)
}
fn i_umulo(e: &mut Engine, a: &[Val], w: u32) -> XR {
    with_overflow(e, a, w, Op::Mul, false)
}
fn i_saddo(e: &mut Engine, a: &[Val], w: u32) -> XR {
    with_overflow(e, a, w, Op::Add, true)
}
fn i_ssubo(e: &mut Engine, a: &[Val], w: u32) -> XR {
    with_overflow(e, a, w, Op::Sub, true)
}
fn i_smulo(e: &mut Engine, a: &[Val], w: u32) -> XR {
    with_overflow(e, a, w, Op::Mul, true)
}
fn i_usubsat(e: &mut Engine, a: &[Val], w: u32) -> XR {
    lanewise(e, a, w, &|e, a, w| {
        let c = e.icmp(Pred::Ult, w, &a[0], &a[1]);
        let d = e.bin(Op::Sub, w, &a[0], &a[1])?;
        Ok(e.sel(&Ty::Int(w), &c, &Val::I(0), &d))
    })
}
fn i_uaddsat(e: &mut Engine, a: &[Val], w: u32) -> XR {
    lanewise(e, a, w, &|e, a, w| {
        let d = e.bin(Op::Add, w, &a[0], &a[1])?;
        let c = e.icmp(Pred::Ult, w, &d, &a[0]);
        let m = e.from_u(mask(w), w);
        Ok(e.sel(&Ty::Int(w), &c, &m, &d))
    })
}
fn i_abs(e: &mut Engine, a: &[Val], w: u32) -> XR {
    let z = e.from_u(0, w);
    let n = e.bin(Op::Sub, w, &z, &a[0])?;
    let c = e.icmp(Pred::Slt, w, &a[0], &z);
    Ok(Some(e.sel(&Ty::Int(w), &c, &n, &a[0])))
}
fn i_ctpop(e: &mut Engine, a: &[Val], w: u32) -> XR {
    lanewise(e, a, w, &|e, a, w| match &a[0] {
        Val::I(x) => Ok(Val::I(x.count_ones() as u64)),
        Val::W(x) => Ok(Val::W(x.count_ones() as u128)),
        Val::E(x) => {
            let mut r = e.x.c(0, w);
            for i in 0..w {
                let b = e.x.extract(*x, i, 1);
                let b = e.x.zext(b, w);
                r = e.x.bin(Op::Add, r, b);
            }
            Ok(e.from_e(r))
        }
        _ => panic!(),
    })
}
fn i_ctlz(e: &mut Engine, a: &[Val], w: u32) -> XR {
    lanewise(e, a, w, &|e, a, w| match &a[0] {
        Val::I(x) => Ok(Val::I(if *x == 0 { w as u64 } else { (x.leading_zeros() - (64 - w)) as u64 })),
        Val::W(x) => Ok(Val::W(if *x == 0 { w as u128 } else { (x.leading_zeros() - (128 - w)) as u128 })),
        Val::E(x) => {
            let mut r = e.x.c(w as u128, w);
            for i in 0..w {
                let b = e.x.extract(*x, i, 1);
                let v = e.x.c((w - 1 - i) as u128, w);
                r = e.x.ite(b, v, r);
            }
            Ok(e.from_e(r))
        }
        _ => panic!(),
    })
}
fn i_cttz(e: &mut Engine, a: &[Val], w: u32) -> XR {
    lanewise(e, a, w, &|e, a, w| match &a[0] {
        Val::I(x) => Ok(Val::I(if *x == 0 { w as u64 } else { x.trailing_zeros() as u64 })),
        Val::W(x) => Ok(Val::W(if *x == 0 { w as u128 } else { x.trailing_zeros() as u128 })),
        Val::E(x) => {
            let mut r = e.x.c(w as u128, w);
            for i in (0..w).rev() {
                let b = e.x.extract(*x, i, 1);
                let v = e.x.c(i as u128, w);
                r = e.x.ite(b, v, r);
            }
            Ok(e.from_e(r))
        }
        _ => panic!(),
    })
}
fn i_bswap(e: &mut Engine, a: &[Val], w: u32) -> XR {
    lanewise(e, a, w, &|e, a, w| match &a[0] {
        Val::I(x) => Ok(Val::I(x.swap_bytes() >> (64 - w))),
        Val::W(x) => Ok(Val::W(x.swap_bytes() >> (128 - w))),
        Val::E(x) => {
            let n = w / 8;
            let mut r = e.x.extract(*x, w - 8, 8);
            for i in 1..n {
                let b = e.x.extract(*x, w - 8 - 8 * i, 8);
                r = e.x.concat(b, r);
            }
            Ok(e.from_e(r))
        }
        _ => panic!(),
    })
}
fn i_bitreverse(e: &mut Engine, a: &[Val], w: u32) -> XR {
    lanewise(e, a, w, &|e, a, w| match &a[0] {
        Val::I(x) => Ok(Val::I(x.reverse_bits() >> (64 - w))),
        Val::W(x) => Ok(Val::W(x.reverse_bits() >> (128 - w))),
        Val::E(x) => {
            let mut r = e.x.extract(*x, w - 1, 1);
            for i in 1..w {
                let b = e.x.extract(*x, w - 1 - i, 1);
                r = e.x.concat(b, r);
            }
            Ok(e.from_e(r))
        }
        _ => panic!(),
    })
}
fn fsh(e: &mut Engine, a: &[Val], w: u32, left: bool) -> XR {
    lanewise(e, a, w, &|e, a, w| {
        let s = e.conc(&a[2]) as u32 % w;
        let s = if left { s } else { (w - s) % w };
        // left funnel by s (for right by r: left by w-r, except r==0 -> b)
        if s == 0 {
            return Ok(if left { a[0].clone() } else { a[1].clone() });
        }
        let (x, y) = (e.to_e(&a[0], w), e.to_e(&a[1], w));
        let h = e.x.extract(x, 0, w - s);
        let l = e.x.extract(y, w - s, s);
        let r = e.x.concat(h, l);
        Ok(e.from_e(r))
    })
}
fn i_fshl(e: &mut Engine, a: &[Val], w: u32) -> XR {
    fsh(e, a, w, true)
}
fn i_fshr(e: &mut Engine, a: &[Val], w: u32) -> XR {
    fsh(e, a, w, false)
}
fn i_isconst(_: &mut Engine, _: &[Val], _: u32) -> XR {
    iv(0)
}
fn i_tlsaddr(e: &mut Engine, a: &[Val], _: u32) -> XR {
    let g = ci(e, &a[0]);
    let (id, off) = Mem::split(g);
    let cur = e.st.cur;
    if let Some(x) = e.st.threads[cur].tls.get(&id) {
        return iv(x + off as u64);
    }
    let b = e.st.mem.get(id).unwrap().b.clone();
    let x = e.st.mem.alloc_bytes(b, Kind::Global, false);
    e.st.threads[cur].tls.insert(id, x);
    iv(x + off as u64)
}
fn i_pause(e: &mut Engine, _: &[Val], _: u32) -> XR {
    e.need_switch = e.st.threads.len() > 1;
    Ok(None)
}
fn i_log32(e: &mut Engine, a: &[Val], _: u32) -> XR {
    let x = ci(e, &a[0]);
    iv(f32::from_bits(x as u32).ln().to_bits() as u64)
}
fn i_log2_32(e: &mut Engine, a: &[Val], _: u32) -> XR {
    let x = ci(e, &a[0]);
    iv(f32::from_bits(x as u32).log2().to_bits() as u64)
}
fn i_log64(e: &mut Engine, a: &[Val], _: u32) -> XR {
    let x = ci(e, &a[0]);
    iv(f64::from_bits(x).ln().to_bits())
}
fn i_log2_64(e: &mut Engine, a: &[Val], _: u32) -> XR {
    let x = ci(e, &a[0]);
    iv(f64::from_bits(x).log2().to_bits())
}
fn i_fabs32(e: &mut Engine, a: &[Val], _: u32) -> XR {
    let x = ci(e, &a[0]);
    iv(x & 0x7fff_ffff)
}
fn i_fabs64(e: &mut Engine, a: &[Val], _: u32) -> XR {
    let x = ci(e, &a[0]);
    iv(x & !(1 << 63))
}
fn vreduce(e: &mut Engine, a: &[Val], w: u32, op: Op) -> XR {
    let l = lanes(&a[0]);
    let mut r = l[0].clone();
    for x in &l[1..] {
        r = e.bin(op, w, &r, x)?;
    }
    Ok(Some(r))
}
fn elw(e: &Engine, v: &Val) -> u32 {
    // element width of a vector operand: recovered from symbolic lanes, else passed by name
    if let Val::A(l) = v {
        for x in l.iter() {
            if let Val::E(t) = x {
                return e.x.w(*t);
            }
        }
    }
    64
}
fn i_vr_or(e: &mut Engine, a: &[Val], _: u32) -> XR {
    let w = elw(e, &a[0]);
    vreduce(e, a, w, Op::Or)
}
fn i_vr_and(e: &mut Engine, a: &[Val], _: u32) -> XR {
    let w = elw(e, &a[0]);
    vreduce(e, a, w, Op::And)
}
fn i_vr_xor(e: &mut Engine, a: &[Val], _: u32) -> XR {
    let w = elw(e, &a[0]);
    vreduce(e, a, w, Op::Xor)
}

// ------------------------------------------------------------------ memory
fn l_malloc(e: &mut Engine, a: &[Val], _: u32) -> XR {
    let n = ci(e, &a[0]);
    if n > 1 << 31 {
        return iv(0);
    }
    iv(e.malloc(n))
}
fn l_calloc(e: &mut Engine, a: &[Val], _: u32) -> XR {
    let (n, m) = (ci(e, &a[0]), ci(e, &a[1]));
    let n = match n.checked_mul(m) {
        Some(n) if n <= 1 << 31 => n,
        _ => return iv(0),
    };
    iv(e.st.mem.alloc(n, Kind::Heap, 0))
}
fn l_realloc(e: &mut Engine, a: &[Val], _: u32) -> XR {
    let (p, n) = (ci(e, &a[0]), ci(e, &a[1]));
    if p == 0 {
        return iv(e.malloc(n));
    }
    let (id, off) = Mem::split(p);
    let old = match e.st.mem.get(id) {
        Some(o) if off == 0 && o.kind == Kind::Heap => o.b.clone(),
        _ => return Err(Ex::Fault("memory", "realloc of invalid pointer".into())),
    };
    if n > 1 << 31 {
        return iv(0);
    }
    let mut b = old;
    let ol = b.len();
    b.resize(n as usize);
    for i in ol..n as usize {
        b.data[i] = 0xC5;
    }
    e.st.mem.free_id(id);
    iv(e.st.mem.alloc_bytes(b, Kind::Heap, false))
}
fn l_free(e: &mut Engine, a: &[Val], _: u32) -> XR {
    let p = ci(e, &a[0]);
    e.free(p)?;
    Ok(None)
}
fn l_posix_memalign(e: &mut Engine, a: &[Val], _: u32) -> XR {
    let (p, n) = (ci(e, &a[0]), ci(e, &a[2]));
    let r = e.malloc(n);
    e.write_int(p, 8, &Val::I(r))?;
    iv(0)
}
fn l_aligned_alloc(e: &mut Engine, a: &[Val], _: u32) -> XR {
    let n = ci(e, &a[1]);
    iv(e.malloc(n))
}
fn l_bcmp(e: &mut Engine, a: &[Val], _: u32) -> XR {
    let (p, q, n) = (ci(e, &a[0]), ci(e, &a[1]), ci(e, &a[2]) as usize);
    if n == 0 {
        return iv(0);
    }
    let (x, y) = (e.read_bytes(p, n)?, e.read_bytes(q, n)?);
    if x.sym.is_empty() && y.sym.is_empty() {
        return iv((x.data != y.data) as u64);
    }
    let mut c = e.x.tt();
    for i in 0..n {
        let bx = bexp(e, &x, i);
        let by = bexp(e, &y, i);
        let q = e.x.eq(bx, by);
        c = e.x.and(c, q);
        if e.x.as_const(c) == Some(0) {
            break;
        }
    }
    let one = e.x.c(1, 32);
    let z = e.x.c(0, 32);
    let r = e.x.ite(c, z, one);
    Ok(Some(e.from_e(r)))
}
pub fn bexp(e: &mut Engine, b: &Bytes, i: usize) -> E {
    match b.sym.get(&(i as u32)) {
        Some(x) => *x,
        None => e.x.c(b.data[i] as u128, 8),
    }
}
fn l_memcmp(e: &mut Engine, a: &[Val], _: u32) -> XR {
    let (p, q, n) = (ci(e, &a[0]), ci(e, &a[1]), ci(e, &a[2]) as usize);
    if n == 0 {
        return iv(0);
    }
    let (x, y) = (e.read_bytes(p, n)?, e.read_bytes(q, n)?);
    if x.sym.is_empty() && y.sym.is_empty() {
        return iv(match x.data.cmp(&y.data) {
            std::cmp::Ordering::Less => 0xffff_ffff,
            std::cmp::Ordering::Equal => 0,
            std::cmp::Ordering::Greater => 1,
        });
    }
    let mut r = e.x.c(0, 32);
    let lt = e.x.c(0xffff_ffff, 32);
    let gt = e.x.c(1, 32);
    for i in (0..n).rev() {
        let bx = bexp(e, &x, i);
        let by = bexp(e, &y, i);
        let q = e.x.eq(bx, by);
        let l = e.x.cmp(P::Ult, bx, by);
        let d = e.x.ite(l, lt, gt);
        r = e.x.ite(q, r, d);
    }
    Ok(Some(e.from_e(r)))
}
fn l_strlen(e: &mut Engine, a: &[Val], _: u32) -> XR {
    let p = ci(e, &a[0]);
    let s = e.cstr(p)?;
    iv(s.len() as u64)
}
fn l_abort(_: &mut Engine, _: &[Val], _: u32) -> XR {
    Err(Ex::Fault("abort", "process abort".into()))
}
fn l_exit(_: &mut Engine, _: &[Val], _: u32) -> XR {
    Err(Ex::End)
}
fn l_errno(e: &mut Engine, _: &[Val], _: u32) -> XR {
    iv(e.st.threads[e.st.cur].errno)
}
fn l_strerror_r(e: &mut Engine, a: &[Val], _: u32) -> XR {
    let p = ci(e, &a[1]);
    e.write_bytes(p, &Bytes { data: b"os error\0".to_vec(), sym: Default::default() })?;
    iv(0)
}
fn zero(_: &mut Engine, _: &[Val], _: u32) -> XR {
    iv(0)
}
fn minus1_enosys(e: &mut Engine, _: &[Val], _: u32) -> XR {
    err(e, 38)
}
/// every signal already has a non-default handler: std then installs no alternate stacks
fn l_sigaction(e: &mut Engine, a: &[Val], _: u32) -> XR {
    let old = ci(e, &a[2]);
    if old != 0 {
        e.write_int(old, 8, &Val::I(1))?;
    }
    iv(0)
}
fn l_getauxval(_: &mut Engine, _: &[Val], _: u32) -> XR {
    iv(0)
}
fn l_sysconf(e: &mut Engine, a: &[Val], _: u32) -> XR {
    let k = ci(e, &a[0]);
    iv(match k {
        30 => 4096,
        83 | 84 => *e.params.get("ncpu").unwrap_or(&2),
        _ => 1024,
    })
}
fn l_sched_getaffinity(e: &mut Engine, a: &[Val], _: u32) -> XR {
    let (n, p) = (ci(e, &a[1]), ci(e, &a[2]));
    let mut b = Bytes::new(n as usize, 0);
    let ncpu = *e.params.get("ncpu").unwrap_or(&2);
    let mask = (1u64 << ncpu) - 1;
    b.data[..8].copy_from_slice(&mask.to_le_bytes());
    e.write_bytes(p, &b)?;
    iv(0)
}
fn l_getcwd(e: &mut Engine, a: &[Val], _: u32) -> XR {
    let p = ci(e, &a[0]);
    e.write_bytes(p, &Bytes { data: b"/w\0".to_vec(), sym: Default::default() })?;
    iv(p)
}
fn l_clock_gettime(e: &mut Engine, a: &[Val], _: u32) -> XR {
    let p = ci(e, &a[1]);
    e.st.clock += 1000;
    let c = e.st.clock;
    e.write_int(p, 8, &Val::I(1_700_000_000 + c / 1_000_000_000))?;
    e.write_int(p + 8, 8, &Val::I(c % 1_000_000_000))?;
    iv(0)
}
fn rng(e: &mut Engine) -> u64 {
    e.st.rng = e.st.rng.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = e.st.rng;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
fn l_dlsym(e: &mut Engine, a: &[Val], _: u32) -> XR {
    let p = ci(e, &a[1]);
    let n = e.cstr(p)?;
    if n == "getrandom" {
        return iv(Module::fn_addr(e.md.by_name["getrandom"]));
    }
    iv(0)
}
fn l_getrandom(e: &mut Engine, a: &[Val], _: u32) -> XR {
    let (p, n) = (ci(e, &a[0]), ci(e, &a[1]));
    let mut b = Bytes::new(n as usize, 0);
    for i in 0..n as usize {
        b.data[i] = rng(e) as u8;
    }
    e.write_bytes(p, &b)?;
    iv(n)
}

// ------------------------------------------------------------------ threads
fn l_pthread_create(e: &mut Engine, a: &[Val], _: u32) -> XR {
    let (p, f, arg) = (ci(e, &a[0]), ci(e, &a[2]), ci(e, &a[3]));
    let t = e.new_thread("t");
    let fid = ((f - FN_BASE) / 16) as u32;
    e.push_call(t, fid, &[Val::I(arg)], u32::MAX);
    e.write_int(p, 8, &Val::I(t as u64 + 1))?;
    iv(0)
}
fn l_pthread_join(e: &mut Engine, a: &[Val], _: u32) -> XR {
    let t = ci(e, &a[0]) as usize - 1;
    if e.st.threads[t].st != TSt::Done {
        let cur = e.st.cur;
        e.st.threads[cur].st = TSt::Join(t);
        e.need_switch = true;
    }
    iv(0)
}
fn l_setname(e: &mut Engine, a: &[Val], _: u32) -> XR {
    let (t, p) = (ci(e, &a[0]) as usize - 1, ci(e, &a[1]));
    let s = e.cstr(p)?;
    e.st.threads[t].name = s;
    iv(0)
}
fn l_pthread_self(e: &mut Engine, _: &[Val], _: u32) -> XR {
    iv(e.st.cur as u64 + 1)
}
fn l_gettid(e: &mut Engine, _: &[Val], _: u32) -> XR {
    iv(e.st.cur as u64 + 100)
}
fn l_sched_yield(e: &mut Engine, _: &[Val], _: u32) -> XR {
    e.need_switch = e.st.threads.len() > 1;
    iv(0)
}
fn l_nanosleep(e: &mut Engine, _: &[Val], _: u32) -> XR {
    let cur = e.st.cur;
    let d = e.st.clock + 1_000_000;
    e.st.threads[cur].st = TSt::Sleep(d);
    e.need_switch = true;
    iv(0)
}
fn l_atexit(e: &mut Engine, a: &[Val], _: u32) -> XR {
    let (f, o) = (ci(e, &a[0]), ci(e, &a[1]));
    let cur = e.st.cur;
    e.st.threads[cur].dtors.push((f, o));
    iv(0)
}
fn l_key_create(e: &mut Engine, a: &[Val], _: u32) -> XR {
    let p = ci(e, &a[0]);
    e.st.mapped += 1;
    let k = e.st.mapped;
    e.write_int(p, 4, &Val::I(k))?;
    iv(0)
}
fn l_setspecific(e: &mut Engine, a: &[Val], _: u32) -> XR {
    let (k, v) = (ci(e, &a[0]), ci(e, &a[1]));
    let cur = e.st.cur;
    e.st.threads[cur].keys.insert(k, v);
    iv(0)
}
fn l_getspecific(e: &mut Engine, a: &[Val], _: u32) -> XR {
    let k = ci(e, &a[0]);
    let cur = e.st.cur;
    iv(*e.st.threads[cur].keys.get(&k).unwrap_or(&0))
}
fn l_getstack(e: &mut Engine, a: &[Val], _: u32) -> XR {
    let (p, q) = (ci(e, &a[1]), ci(e, &a[2]));
    e.write_int(p, 8, &Val::I(0x7000_0000))?;
    e.write_int(q, 8, &Val::I(0x10000))?;
    iv(0)
}
fn l_syscall(e: &mut Engine, a: &[Val], _: u32) -> XR {
    let n = ci(e, &a[0]);
    match n {
        202 => {
            let addr = ci(e, &a[1]);
            let op = ci(e, &a[2]) & 0x7f;
            match op {
                0 | 9 => {
                    let want = ci(e, &a[3]) as u32;
                    let v = e.read_int(addr, 4)?;
                    let v = e.conc(&v) as u32;
                    if v != want {
                        return err(e, 11);
                    }
                    let tp = if a.len() > 4 { ci(e, &a[4]) } else { 0 };
                    let deadline = if tp != 0 {
                        let s = e.read_int(tp, 8)?;
                        let ns = e.read_int(tp + 8, 8)?;
                        let (s, ns) = (e.conc(&s), e.conc(&ns));
                        if op == 9 {
                            Some(s.wrapping_sub(1_700_000_000).wrapping_mul(1_000_000_000).wrapping_add(ns))
                        } else {
                            Some(e.st.clock + s.wrapping_mul(1_000_000_000).wrapping_add(ns))
                        }
                    } else {
                        None
                    };
                    let cur = e.st.cur;
                    let reg = e.cur_d;
                    e.st.threads[cur].st = TSt::Futex { addr, deadline, reg };
                    e.need_switch = true;
                    iv(0)
                }
                1 | 10 => {
                    let mut n = ci(e, &a[3]) as i32 as i64;
                    let mut woken = 0;
                    let waiters: Vec<usize> = (0..e.st.threads.len())
                        .filter(|&t| matches!(e.st.threads[t].st, TSt::Futex { addr: x, .. } if x == addr))
                        .collect();
                    let mut ws = waiters;
                    while n > 0 && !ws.is_empty() {
                        let k = if e.st.sched.on && ws.len() > 1 && (n as usize) < ws.len() {
                            e.delay_choice(ws.len() as u64, "wake") as usize
                        } else {
                            0
                        };
                        let t = ws.remove(k);
                        e.finish_wait(t, false);
                        woken += 1;
                        n -= 1;
                    }
                    iv(woken)
                }
                _ => Err(Ex::Fault("unsupported", format!("futex op {}", op))),
            }
        }
        186 => iv(e.st.cur as u64 + 100),
        318 => l_getrandom(e, &a[1..], 0),
        332 => l_statx(e, &a[1..], 0),
        316 => {
            let (p, q, fl) = (ci(e, &a[2]), ci(e, &a[4]), ci(e, &a[5]));
            do_rename(e, p, q, fl & 1 == 1)
        }
        _ => {
            let _ = n;
            err(e, 38)
        }
    }
}

// ------------------------------------------------------------------ files
/// A file system operation is about to take effect: crash / error / partial choices.
/// 0 = proceed, 1 = error (errno already chosen by caller), 2 = short write, 3 = die before,
/// 4 = die after, 5 = die after writing half, 16 + k = die after writing k bytes.
/// mode: 1 death, 2 error, 4 reads too, 8 every cut of a write, 16 errors persist (disk full)
fn fs_point(e: &mut Engine, what: &str, partial: usize) -> Result<u32, Ex> {
    if e.st.fault.mode == 0 {
        return Ok(0);
    }
    if e.st.pending.is_none() {
        e.st.fault.ops += 1;
        let t = format!("{}: {}", e.st.fault.ops, what);
        e.st.fs.trace.push(t);
    }
    if e.st.fault.sticky > 0 && partial > 0 {
        e.st.fault.sticky &= 2;
        return Ok(1);
    }
    if e.st.fault.budget == 0 {
        return Ok(0);
    }
    let can_partial = partial > 1;
    let m = e.st.fault.mode;
    let mut opts: Vec<u32> = vec![0];
    if m & 1 != 0 && what != "read" {
        opts.push(3); // crash before
        opts.push(4); // crash after
        if can_partial && m & 8 != 0 {
            opts.extend((1..partial as u32).map(|k| 16 + k));
        } else if can_partial {
            opts.push(5); // crash after a partial write
        }
    }
    if m & 2 != 0 {
        opts.push(1);
        if can_partial {
            opts.push(2); // short write, then an error
        }
    }
    let k = e.choose(opts.len() as u64, "fault");
    let r = opts[k as usize];
    if r != 0 {
        e.st.fault.budget -= 1;
        if r == 2 || (r == 1 && m & 16 != 0) {
            e.st.fault.sticky = if m & 16 != 0 { 2 } else { 1 };
        }
        let n = match r {
            1 => "error".into(),
            2 => "short write".into(),
            3 => "crash before".into(),
            4 => "crash after".into(),
            5 => format!("crash after {} bytes", partial / 2),
            k => format!("crash after {} bytes", k - 16),
        };
        let t = format!("{} at op {} ({})", n, e.st.fault.ops, what);
        e.st.fault.log.push(t);
    }
    Ok(r)
}
/// process death: forget memory and descriptors, run main() again in the next phase
pub fn reboot(e: &mut Engine) -> Result<(), Ex> {
    let init = match &e.initial {
        Some(i) => (**i).clone(),
        None => return Err(Ex::End),
    };
    let mut ns = init;
    ns.fs = e.st.fs.clone();
    ns.fs.reboot();
    ns.pc = e.st.pc.clone();
    ns.model = e.st.model.clone();
    ns.hashes = e.st.hashes.clone();
    ns.inputs = e.st.inputs.clone();
    ns.notes = e.st.notes.clone();
    ns.nchoice = e.st.nchoice;
    ns.choices = e.st.choices.clone();
    ns.fault.log = e.st.fault.log.clone();
    ns.fault.ops = e.st.fault.ops;
    ns.covers = e.st.covers.clone();
    ns.phase = e.st.phase + 1;
    ns.rng = e.st.rng ^ 0x5555;
    ns.names = e.st.names.clone();
    ns.steps = e.st.steps;
    ns.mark = e.st.steps;
    ns.depth = e.st.depth;
    e.st = ns;
    Ok(())
}
/// performs the reboot; signalled to the interpreter through a Fault consumed by run loop
fn crash(e: &mut Engine) -> XR {
    reboot(e)?;
    // the caller will store a result and bump pc of the (new) top frame: compensate
    let t = e.st.cur;
    let fr = e.st.threads[t].frames.last_mut().unwrap();
    fr.pc = fr.pc.wrapping_sub(1);
    Ok(None)
}

fn path_at(e: &mut Engine, p: u64) -> Result<String, Ex> {
    let s = e.cstr(p)?;
    Ok(norm(&s))
}
fn l_open(e: &mut Engine, a: &[Val], _: u32) -> XR {
    let p = ci(e, &a[0]);
    let flags = ci(e, &a[1]);
    open_path(e, p, flags)
}
fn l_openat(e: &mut Engine, a: &[Val], _: u32) -> XR {
    let p = ci(e, &a[1]);
    let flags = ci(e, &a[2]);
    open_path(e, p, flags)
}
fn open_path(e: &mut Engine, p: u64, flags: u64) -> XR {
    let path = path_at(e, p)?;
    let creat = flags & 0x40 != 0;
    if flags & 0x400000 != 0 && flags & 0x10000 != 0 {
        // O_TMPFILE
        return err32(e, 95);
    }
    if e.st.fs.dirs.contains(&path) {
        if flags & 3 != 0 {
            return err32(e, EISDIR);
        }
        let fd = e.st.fs.new_fd(Ofd { inode: usize::MAX, off: 0, flags, dir: true, std: false });
        return iv(fd as u64);
    }
    let exists = e.st.fs.names.contains_key(&path);
    if exists && flags & 0x10000 != 0 {
        return err32(e, ENOTDIR);
    }
    if !exists && !creat {
        return err32(e, ENOENT);
    }
    if exists && creat && flags & 0x80 != 0 {
        return err32(e, EEXIST);
    }
    if !exists && !e.st.fs.dirs.contains(&parent(&path)) {
        return err32(e, ENOENT);
    }
    let mutating = (!exists && creat) || (exists && flags & 0x200 != 0);
    let mut after = false;
    if mutating {
        match fs_point(e, &format!("open/create {}", path), 0)? {
            1 => return err32(e, EIO),
            3 => return crash(e),
            4 => after = true,
            _ => {}
        }
    }
    let ino = if exists {
        let i = e.st.fs.names[&path];
        if flags & 0x200 != 0 {
            e.st.fs.inodes[i] = Rc::new(Bytes::default());
        }
        i
    } else {
        e.st.fs.inodes.push(Rc::new(Bytes::default()));
        let i = e.st.fs.inodes.len() - 1;
        e.st.fs.names.insert(path, i);
        i
    };
    if after {
        return crash(e);
    }
    let fd = e.st.fs.new_fd(Ofd { inode: ino, off: 0, flags, dir: false, std: false });
    iv(fd as u64)
}
fn ofd(e: &Engine, fd: u64) -> Option<usize> {
    e.st.fs.fds.get(&(fd as i32)).copied()
}
fn l_close(e: &mut Engine, a: &[Val], _: u32) -> XR {
    let fd = ci(e, &a[0]);
    if e.st.fs.fds.remove(&(fd as i32)).is_none() {
        return err32(e, EBADF);
    }
    iv(0)
}
fn l_dup(e: &mut Engine, a: &[Val], _: u32) -> XR {
    let fd = ci(e, &a[0]);
    let o = match ofd(e, fd) {
        Some(o) => o,
        None => return err32(e, EBADF),
    };
    let mut n = 3;
    while e.st.fs.fds.contains_key(&n) {
        n += 1;
    }
    e.st.fs.fds.insert(n, o);
    iv(n as u64)
}
fn l_fcntl(e: &mut Engine, a: &[Val], w: u32) -> XR {
    let cmd = ci(e, &a[1]);
    match cmd {
        0 | 1030 => l_dup(e, a, w),
        _ => iv(0),
    }
}
fn read_at(e: &mut Engine, o: usize, off: u64, p: u64, n: u64) -> Result<u64, Ex> {
    let ino = e.st.fs.ofds[o].inode;
    let f = e.st.fs.inodes[ino].clone();
    let len = f.len() as u64;
    if off >= len {
        return Ok(0);
    }
    let k = n.min(len - off);
    let b = f.slice(off as usize, k as usize);
    e.write_bytes(p, &b)?;
    Ok(k)
}
fn l_read(e: &mut Engine, a: &[Val], _: u32) -> XR {
    let (fd, p, n) = (ci(e, &a[0]), ci(e, &a[1]), ci(e, &a[2]));
    let o = match ofd(e, fd) {
        Some(o) => o,
        None => return err(e, EBADF),
    };
    if e.st.fs.ofds[o].dir {
        return err(e, EISDIR);
    }
    if e.st.fs.ofds[o].std {
        return iv(0);
    }
    if e.st.fs.ofds[o].flags & 3 == 1 {
        return err(e, EBADF);
    }
    if e.st.fault.mode & 4 != 0 {
        if let 1 = fs_point(e, "read", 0)? {
            return err(e, EIO);
        }
    }
    let off = e.st.fs.ofds[o].off;
    let k = read_at(e, o, off, p, n)?;
    e.st.fs.ofds[o].off += k;
    iv(k)
}
fn l_pread(e: &mut Engine, a: &[Val], _: u32) -> XR {
    let (fd, p, n, off) = (ci(e, &a[0]), ci(e, &a[1]), ci(e, &a[2]), ci(e, &a[3]));
    let o = match ofd(e, fd) {
        Some(o) => o,
        None => return err(e, EBADF),
    };
    if e.st.fs.ofds[o].dir {
        return err(e, EISDIR);
    }
    let k = read_at(e, o, off, p, n)?;
    iv(k)
}
pub fn put_file(e: &mut Engine, ino: usize, off: u64, b: &Bytes) {
    let f = Rc::make_mut(&mut e.st.fs.inodes[ino]);
    let end = off as usize + b.len();
    if f.len() < end {
        f.resize(end);
    }
    f.put(off as usize, b);
}
fn file_name(e: &Engine, ino: usize) -> String {
    for (n, i) in &e.st.fs.names {
        if *i == ino {
            return n.clone();
        }
    }
    "(unnamed)".into()
}
fn write_common(e: &mut Engine, fd: u64, b: Bytes, at: Option<u64>) -> XR {
    let o = match ofd(e, fd) {
        Some(o) => o,
        None => return err(e, EBADF),
    };
    if e.st.fs.ofds[o].std {
        let s = String::from_utf8_lossy(&b.data).into_owned();
        if e.verbose {
            eprint!("{}", s);
        }
        if e.log.len() < 10000 {
            e.log.push_str(&s);
        }
        return iv(b.len() as u64);
    }
    if e.st.fs.ofds[o].flags & 3 == 0 {
        return err(e, EBADF);
    }
    let ino = e.st.fs.ofds[o].inode;
    let off = match at {
        Some(x) => x,
        None => {
            if e.st.fs.ofds[o].flags & 0x400 != 0 {
                e.st.fs.inodes[ino].len() as u64
            } else {
                e.st.fs.ofds[o].off
            }
        }
    };
    let mut n = b.len();
    let mut after = false;
    if n > 0 {
        let nm = if e.st.fault.mode != 0 { file_name(e, ino) } else { String::new() };
        match fs_point(e, &format!("write {} bytes at {} of {}", n, off, nm), n)? {
            1 => return err(e, ENOSPC),
            2 => n = n / 2,
            3 => return crash(e),
            4 => after = true,
            5 => {
                after = true;
                n = n / 2
            }
            0 => {}
            k => {
                after = true;
                n = k as usize - 16
            }
        }
    }
    if n == b.len() {
        put_file(e, ino, off, &b);
    } else {
        let s = b.slice(0, n);
        put_file(e, ino, off, &s);
    }
    if after {
        return crash(e);
    }
    if at.is_none() {
        e.st.fs.ofds[o].off = off + n as u64;
    }
    iv(n as u64)
}
fn l_write(e: &mut Engine, a: &[Val], _: u32) -> XR {
    let (fd, p, n) = (ci(e, &a[0]), ci(e, &a[1]), ci(e, &a[2]));
    let b = e.read_bytes(p, n as usize)?;
    write_common(e, fd, b, None)
}
fn l_pwrite(e: &mut Engine, a: &[Val], _: u32) -> XR {
    let (fd, p, n, off) = (ci(e, &a[0]), ci(e, &a[1]), ci(e, &a[2]), ci(e, &a[3]));
    let b = e.read_bytes(p, n as usize)?;
    write_common(e, fd, b, Some(off))
}
fn l_writev(e: &mut Engine, a: &[Val], _: u32) -> XR {
    let (fd, p, n) = (ci(e, &a[0]), ci(e, &a[1]), ci(e, &a[2]));
    let mut all = Bytes::default();
    for i in 0..n {
        let b = e.read_int(p + 16 * i, 8)?;
        let l = e.read_int(p + 16 * i + 8, 8)?;
        let (b, l) = (ci(e, &b), ci(e, &l));
        let x = e.read_bytes(b, l as usize)?;
        let o = all.len();
        all.resize(o + x.len());
        all.put(o, &x);
    }
    write_common(e, fd, all, None)
}
fn l_readv(e: &mut Engine, a: &[Val], _: u32) -> XR {
    let (fd, p, n) = (ci(e, &a[0]), ci(e, &a[1]), ci(e, &a[2]));
    let o = match ofd(e, fd) {
        Some(o) => o,
        None => return err(e, EBADF),
    };
    let mut tot = 0;
    for i in 0..n {
        let b = e.read_int(p + 16 * i, 8)?;
        let l = e.read_int(p + 16 * i + 8, 8)?;
        let (b, l) = (ci(e, &b), ci(e, &l));
        let off = e.st.fs.ofds[o].off;
        let k = read_at(e, o, off, b, l)?;
        e.st.fs.ofds[o].off += k;
        tot += k;
        if k < l {
            break;
        }
    }
    iv(tot)
}
fn l_lseek(e: &mut Engine, a: &[Val], _: u32) -> XR {
    let (fd, off, wh) = (ci(e, &a[0]), ci(e, &a[1]), ci(e, &a[2]));
    let o = match ofd(e, fd) {
        Some(o) => o,
        None => return err(e, EBADF),
    };
    if e.st.fs.ofds[o].dir || e.st.fs.ofds[o].std {
        return err(e, 29);
    }
    let base = match wh {
        0 => 0,
        1 => e.st.fs.ofds[o].off,
        2 => e.st.fs.inodes[e.st.fs.ofds[o].inode].len() as u64,
        _ => return err(e, EINVAL),
    };
    let r = add(base, off) as i64;
    if r < 0 {
        return err(e, EINVAL);
    }
    e.st.fs.ofds[o].off = r as u64;
    iv(r as u64)
}
fn l_ftruncate(e: &mut Engine, a: &[Val], _: u32) -> XR {
    let (fd, n) = (ci(e, &a[0]), ci(e, &a[1]));
    let o = match ofd(e, fd) {
        Some(o) => o,
        None => return err32(e, EBADF),
    };
    let ino = e.st.fs.ofds[o].inode;
    let mut after = false;
    match fs_point(e, "ftruncate", 0)? {
        1 => return err32(e, EIO),
        3 => return crash(e),
        4 => after = true,
        _ => {}
    }
    Rc::make_mut(&mut e.st.fs.inodes[ino]).resize(n as usize);
    if after {
        return crash(e);
    }
    iv(0)
}
fn stat_of(e: &Engine, path: Option<&str>, o: Option<usize>) -> Option<(bool, u64, u64)> {
    // is_dir, size, ino
    if let Some(o) = o {
        let f = &e.st.fs.ofds[o];
        if f.std {
            return Some((false, 0, 1));
        }
        if f.dir {
            return Some((true, 4096, 2));
        }
        return Some((false, e.st.fs.inodes[f.inode].len() as u64, f.inode as u64 + 10));
    }
    let p = path.unwrap();
    if e.st.fs.dirs.contains(p) {
        return Some((true, 4096, 2));
    }
    e.st.fs.names.get(p).map(|i| (false, e.st.fs.inodes[*i].len() as u64, *i as u64 + 10))
}
fn l_statx(e: &mut Engine, a: &[Val], _: u32) -> XR {
    let (fd, p, flags, buf) = (ci(e, &a[0]), ci(e, &a[1]), ci(e, &a[2]), ci(e, &a[4]));
    if buf == 0 || p == 0 {
        return err32(e, 14);
    }
    let s = e.cstr(p)?;
    let r = if s.is_empty() && flags & 0x1000 != 0 {
        match ofd(e, fd) {
            Some(o) => stat_of(e, None, Some(o)),
            None => return err32(e, EBADF),
        }
    } else {
        let n = norm(&s);
        stat_of(e, Some(&n), None)
    };
    let (d, size, ino) = match r {
        Some(x) => x,
        None => return err32(e, ENOENT),
    };
    let mut b = Bytes::new(256, 0);
    let mut w = |o: usize, v: u64, n: usize| b.data[o..o + n].copy_from_slice(&v.to_le_bytes()[..n]);
    w(0, 0xfff, 4);
    w(4, 4096, 4);
    w(16, 1, 4);
    w(28, if d { 0o40755 } else { 0o100644 }, 2);
    w(32, ino, 8);
    w(40, size, 8);
    w(48, (size + 511) / 512, 8);
    e.write_bytes(buf, &b)?;
    iv(0)
}
fn stat_buf(d: bool, size: u64, ino: u64) -> Bytes {
    let mut b = Bytes::new(144, 0);
    let mut w = |o: usize, v: u64, n: usize| b.data[o..o + n].copy_from_slice(&v.to_le_bytes()[..n]);
    w(0, 1, 8);
    w(8, ino, 8);
    w(16, 1, 8);
    w(24, if d { 0o40755 } else { 0o100644 }, 4);
    w(48, size, 8);
    w(56, 4096, 8);
    w(64, (size + 511) / 512, 8);
    b
}
fn l_stat(e: &mut Engine, a: &[Val], _: u32) -> XR {
    let (p, buf) = (ci(e, &a[0]), ci(e, &a[1]));
    let n = path_at(e, p)?;
    match stat_of(e, Some(&n), None) {
        Some((d, s, i)) => {
            e.write_bytes(buf, &stat_buf(d, s, i))?;
            iv(0)
        }
        None => err32(e, ENOENT),
    }
}
fn l_fstat(e: &mut Engine, a: &[Val], _: u32) -> XR {
    let (fd, buf) = (ci(e, &a[0]), ci(e, &a[1]));
    let o = match ofd(e, fd) {
        Some(o) => o,
        None => return err32(e, EBADF),
    };
    let (d, s, i) = stat_of(e, None, Some(o)).unwrap();
    e.write_bytes(buf, &stat_buf(d, s, i))?;
    iv(0)
}
fn do_rename(e: &mut Engine, p: u64, q: u64, noreplace: bool) -> XR {
    let (a, b) = (path_at(e, p)?, path_at(e, q)?);
    if !e.st.fs.names.contains_key(&a) {
        if e.st.fs.dirs.contains(&a) {
            return Err(Ex::Fault("unsupported", "rename of a directory".into()));
        }
        return err32(e, ENOENT);
    }
    if e.st.fs.dirs.contains(&b) {
        return err32(e, EISDIR);
    }
    if noreplace && e.st.fs.names.contains_key(&b) {
        return err32(e, EEXIST);
    }
    if !e.st.fs.dirs.contains(&parent(&b)) {
        return err32(e, ENOENT);
    }
    // different top directories are different file systems
    if e.params.contains_key("xdev") && a.split('/').nth(1) != b.split('/').nth(1) {
        return err32(e, EXDEV);
    }
    let mut after = false;
    match fs_point(e, &format!("rename {} -> {}", a, b), 0)? {
        1 => return err32(e, EIO),
        3 => return crash(e),
        4 => after = true,
        _ => {}
    }
    let i = e.st.fs.names.remove(&a).unwrap();
    e.st.fs.names.insert(b, i);
    if after {
        return crash(e);
    }
    iv(0)
}
fn l_rename(e: &mut Engine, a: &[Val], _: u32) -> XR {
    let (p, q) = (ci(e, &a[0]), ci(e, &a[1]));
    do_rename(e, p, q, false)
}
fn l_linkat(e: &mut Engine, a: &[Val], _: u32) -> XR {
    let (p, q) = (ci(e, &a[1]), ci(e, &a[3]));
    let (s, d) = (path_at(e, p)?, path_at(e, q)?);
    link(e, s, d)
}
fn l_link(e: &mut Engine, a: &[Val], _: u32) -> XR {
    let (p, q) = (ci(e, &a[0]), ci(e, &a[1]));
    let (s, d) = (path_at(e, p)?, path_at(e, q)?);
    link(e, s, d)
}
fn link(e: &mut Engine, s: String, d: String) -> XR {
    let i = match e.st.fs.names.get(&s) {
        Some(i) => *i,
        None => return err32(e, ENOENT),
    };
    if e.st.fs.exists(&d) {
        return err32(e, EEXIST);
    }
    let mut after = false;
    match fs_point(e, &format!("link {} -> {}", s, d), 0)? {
        1 => return err32(e, EIO),
        3 => return crash(e),
        4 => after = true,
        _ => {}
    }
    e.st.fs.names.insert(d, i);
    if after {
        return crash(e);
    }
    iv(0)
}
fn l_unlink(e: &mut Engine, a: &[Val], _: u32) -> XR {
    let p = ci(e, &a[0]);
    let s = path_at(e, p)?;
    if !e.st.fs.names.contains_key(&s) {
        return err32(e, ENOENT);
    }
    let mut after = false;
    match fs_point(e, &format!("unlink {}", s), 0)? {
        1 => return err32(e, EIO),
        3 => return crash(e),
        4 => after = true,
        _ => {}
    }
    e.st.fs.names.remove(&s);
    if after {
        return crash(e);
    }
    iv(0)
}
fn l_mkdir(e: &mut Engine, a: &[Val], _: u32) -> XR {
    let p = ci(e, &a[0]);
    let s = path_at(e, p)?;
    if e.st.fs.exists(&s) {
        return err32(e, EEXIST);
    }
    if !e.st.fs.dirs.contains(&parent(&s)) {
        return err32(e, ENOENT);
    }
    e.st.fs.dirs.insert(s);
    iv(0)
}
fn l_rmdir(e: &mut Engine, a: &[Val], _: u32) -> XR {
    let p = ci(e, &a[0]);
    let s = path_at(e, p)?;
    if !e.st.fs.dirs.remove(&s) {
        return err32(e, ENOENT);
    }
    iv(0)
}
fn copy_fd(e: &mut Engine, i: u64, ioffp: u64, o: u64, ooffp: u64, n: u64) -> XR {
    let (oi, oo) = match (ofd(e, i), ofd(e, o)) {
        (Some(a), Some(b)) => (a, b),
        _ => return err(e, EBADF),
    };
    if e.st.fs.ofds[oi].dir || e.st.fs.ofds[oi].std || e.st.fs.ofds[oo].std || e.st.fs.ofds[oo].dir {
        return err(e, EINVAL);
    }
    let off = if ioffp != 0 {
        let v = e.read_int(ioffp, 8)?;
        ci(e, &v)
    } else {
        e.st.fs.ofds[oi].off
    };
    let ino = e.st.fs.ofds[oi].inode;
    let len = e.st.fs.inodes[ino].len() as u64;
    let k = if off >= len { 0 } else { n.min(len - off) };
    if k == 0 {
        return iv(0);
    }
    let b = e.st.fs.inodes[ino].slice(off as usize, k as usize);
    if ooffp != 0 {
        return Err(Ex::Fault("unsupported", "copy_file_range with output offset".into()));
    }
    let r = write_common(e, o, b, None)?;
    if let Some(Val::I(k)) = r {
        if (k as i64) > 0 {
            if ioffp != 0 {
                e.write_int(ioffp, 8, &Val::I(off + k))?;
            } else if e.st.fs.ofds.get(oi).is_some() {
                e.st.fs.ofds[oi].off = off + k;
            }
        }
    }
    Ok(r)
}
fn l_copy_file_range(e: &mut Engine, a: &[Val], _: u32) -> XR {
    let (i, ip, o, op, n) = (ci(e, &a[0]), ci(e, &a[1]), ci(e, &a[2]), ci(e, &a[3]), ci(e, &a[4]));
    copy_fd(e, i, ip, o, op, n)
}
fn l_sendfile(e: &mut Engine, a: &[Val], _: u32) -> XR {
    let (o, i, ip, n) = (ci(e, &a[0]), ci(e, &a[1]), ci(e, &a[2]), ci(e, &a[3]));
    copy_fd(e, i, ip, o, 0, n)
}
fn l_mmap(e: &mut Engine, a: &[Val], _: u32) -> XR {
    let (n, flags, fd, off) = (ci(e, &a[1]), ci(e, &a[3]), ci(e, &a[4]), ci(e, &a[5]));
    if n == 0 || off % 4096 != 0 {
        return err(e, EINVAL);
    }
    if n > 1 << 32 {
        return err(e, 12);
    }
    let fd = fd as i32;
    if flags & 0x20 != 0 || fd < 0 {
        return iv(e.st.mem.alloc(n, Kind::Map, 0));
    }
    let o = match ofd(e, fd as u64) {
        Some(o) => o,
        None => return err(e, EBADF),
    };
    let f = e.st.fs.inodes[e.st.fs.ofds[o].inode].clone();
    let len = f.len() as u64;
    // pages wholly beyond the end of the file fault when touched
    let avail = ((len.saturating_sub(off)) + 4095) / 4096 * 4096;
    let have = n.min(avail);
    let fl = n.min(len.saturating_sub(off));
    let mut b = f.slice(off.min(len) as usize, fl as usize);
    b.resize(have as usize);
    iv(e.st.mem.alloc_bytes(b, Kind::Map, true))
}
fn l_munmap(e: &mut Engine, a: &[Val], _: u32) -> XR {
    let p = ci(e, &a[0]);
    let (id, _) = Mem::split(p);
    e.st.mem.free_id(id);
    iv(0)
}

// ------------------------------------------------------------------ harness API
fn hstr(e: &mut Engine, p: &Val, n: &Val) -> Result<String, Ex> {
    let (p, n) = (ci(e, p), ci(e, n));
    if n == 0 {
        return Ok(String::new());
    }
    let b = e.concrete_bytes(p, n as usize)?;
    Ok(String::from_utf8_lossy(&b).into_owned())
}
fn uniq(e: &mut Engine, name: &str) -> String {
    use std::hash::Hasher;
    let mut h = FxH::default();
    h.write(name.as_bytes());
    let c = e.st.names.entry(h.finish()).or_insert(0);
    let n = *c;
    *c += 1;
    if n == 0 {
        name.to_string()
    } else {
        format!("{}.{}", name, n)
    }
}
fn fresh_input(e: &mut Engine, name: &str, input: &str, i: usize, w: u32) -> E {
    let v = e.x.fresh(name, w);
    if let Some(q) = &e.replay {
        let x = q.inputs.get(&input.replace(' ', "_")).and_then(|v| v.get(i)).copied().unwrap_or(0);
        return e.x.c(x, w);
    }
    v
}
/// vsym_bytes(ptr, len, name, namelen)
fn v_bytes(e: &mut Engine, a: &[Val], _: u32) -> XR {
    let (p, n) = (ci(e, &a[0]), ci(e, &a[1]));
    let name = hstr(e, &a[2], &a[3])?;
    let name = uniq(e, &name);
    let mut es = vec![];
    for i in 0..n {
        let v = fresh_input(e, &format!("{}[{}]", name, i), &name, i as usize, 8);
        let vv = e.from_e(v);
        e.write_int(p + i, 1, &vv)?;
        es.push(v);
    }
    e.st.inputs.push((name, es));
    Ok(None)
}
/// vsym_uint(width, name, len) -> u64
fn v_uint(e: &mut Engine, a: &[Val], _: u32) -> XR {
    let w = ci(e, &a[0]) as u32;
    let name = hstr(e, &a[1], &a[2])?;
    let name = uniq(e, &name);
    let v = fresh_input(e, &name, &name, 0, w);
    e.st.inputs.push((name, vec![v]));
    let z = e.x.zext(v, 64);
    Ok(Some(e.from_e(z)))
}
fn cond_of(e: &mut Engine, v: &Val) -> E {
    match v {
        Val::I(x) => {
            if x & 1 == 1 {
                e.x.tt()
            } else {
                e.x.ff()
            }
        }
        Val::E(x) => {
            let w = e.x.w(*x);
            if w == 1 {
                *x
            } else {
                e.x.extract(*x, 0, 1)
            }
        }
        _ => panic!(),
    }
}
fn v_assume(e: &mut Engine, a: &[Val], _: u32) -> XR {
    let c = cond_of(e, &a[0]);
    e.assume(c)?;
    Ok(None)
}
fn v_assert(e: &mut Engine, a: &[Val], _: u32) -> XR {
    let c = cond_of(e, &a[0]);
    let m = hstr(e, &a[1], &a[2])?;
    e.assert(c, &m)?;
    Ok(None)
}
fn v_cover(e: &mut Engine, a: &[Val], _: u32) -> XR {
    let m = hstr(e, &a[0], &a[1])?;
    if !e.st.covers.contains(&m) {
        e.st.covers.push(m);
    }
    Ok(None)
}
fn v_param(e: &mut Engine, a: &[Val], _: u32) -> XR {
    let m = hstr(e, &a[0], &a[1])?;
    let d = ci(e, &a[2]);
    iv(*e.params.get(&m).unwrap_or(&d))
}
fn v_conc(e: &mut Engine, a: &[Val], _: u32) -> XR {
    let v = e.conc(&a[0]);
    iv(v)
}
fn v_harness(e: &mut Engine, a: &[Val], _: u32) -> XR {
    let (p, n) = (ci(e, &a[0]), ci(e, &a[1]));
    let h = e.harness.clone();
    let b = h.as_bytes();
    let k = b.len().min(n as usize);
    e.write_bytes(p, &Bytes { data: b[..k].to_vec(), sym: Default::default() })?;
    iv(k as u64)
}
fn v_mode(_: &mut Engine, _: &[Val], _: u32) -> XR {
    iv(1)
}
fn v_phase(e: &mut Engine, _: &[Val], _: u32) -> XR {
    iv(e.st.phase)
}
fn v_reboot(e: &mut Engine, _: &[Val], _: u32) -> XR {
    crash(e)
}
/// vsym_fault(mode, budget)
fn v_fault(e: &mut Engine, a: &[Val], _: u32) -> XR {
    let (m, b) = (ci(e, &a[0]) as u32, ci(e, &a[1]) as u32);
    e.st.fault.mode = m;
    e.st.fault.budget = b;
    Ok(None)
}
fn v_fault_hit(e: &mut Engine, _: &[Val], _: u32) -> XR {
    iv((!e.st.fault.log.is_empty()) as u64)
}
/// vsym_sched(on, budget)
fn v_sched(e: &mut Engine, a: &[Val], _: u32) -> XR {
    let (m, b) = (ci(e, &a[0]), ci(e, &a[1]) as u32);
    e.st.sched.on = m & 1 != 0;
    e.st.sched.only_futex = m & 2 != 0;
    e.st.sched.repo_only = m & 8 != 0;
    e.st.sched.budget = b;
    let pb = (ci(e, &a[1]) >> 32 & 0xFFFF) as u32;
    let part = ci(e, &a[1]) >> 48;
    e.st.sched.parts = part as u32 & 0xFF;
    e.st.sched.part = part as u32 >> 8;
    e.st.sched.sites = 0;
    e.st.sched.departed = false;
    e.st.sched.pbudget = if pb == 0 { u32::MAX } else { pb - 1 };
    e.st.sched.quiet = if m & 4 != 0 { "" } else { "Dropout" };
    Ok(None)
}
/// vsym_point(): any thread may run next
fn v_point(e: &mut Engine, _: &[Val], _: u32) -> XR {
    if e.st.sched.on && e.st.sched.pbudget > 0 {
        e.st.sched.at_point = true;
        e.need_switch = true;
    }
    Ok(None)
}
fn v_panic_ok(e: &mut Engine, a: &[Val], _: u32) -> XR {
    let m = ci(e, &a[0]);
    e.st.panic_ok = m;
    Ok(None)
}
fn v_mark(e: &mut Engine, _: &[Val], _: u32) -> XR {
    e.st.mark = e.st.steps;
    Ok(None)
}
fn v_stop(_: &mut Engine, _: &[Val], _: u32) -> XR {
    Err(Ex::End)
}
/// vsym_note(name,len,ptr,n): bytes shown in counterexamples
fn v_note(e: &mut Engine, a: &[Val], _: u32) -> XR {
    let m = hstr(e, &a[0], &a[1])?;
    let (p, n) = (ci(e, &a[2]), ci(e, &a[3]));
    let b = e.read_bytes(p, n as usize)?;
    let es: Vec<E> = (0..b.len()).map(|i| bexp(e, &b, i)).collect();
    e.st.notes.push((m, es));
    Ok(None)
}
/// vsym_eq(p, q, n) -> 0/1 as one symbolic condition (no forking)
fn v_eq(e: &mut Engine, a: &[Val], w: u32) -> XR {
    let r = l_bcmp(e, a, w)?.unwrap();
    let c = e.icmp(Pred::Eq, 32, &r, &Val::I(0));
    match c {
        Val::E(x) => {
            let z = e.x.zext(x, 32);
            Ok(Some(e.from_e(z)))
        }
        v => Ok(Some(v)),
    }
}
/// is the n-byte memory at p fully concrete?
fn v_is_concrete(e: &mut Engine, a: &[Val], _: u32) -> XR {
    let (p, n) = (ci(e, &a[0]), ci(e, &a[1]));
    let b = e.read_bytes(p, n as usize)?;
    let c = b.sym.is_empty() as u64;
    e.st.choices.push(("conc".into(), c));
    iv(c)
}
/// vsym_hash(ptr,len,out32): collision-free hash. Concrete inputs use a real 256-bit hash;
/// symbolic inputs get a fresh 256-bit value constrained to be injective on this path.
fn v_hash(e: &mut Engine, a: &[Val], _: u32) -> XR {
    let (p, n, out) = (ci(e, &a[0]), ci(e, &a[1]), ci(e, &a[2]));
    let b = e.read_bytes(p, n as usize)?;
    let inp: Vec<Val> = (0..b.len())
        .map(|i| match b.sym.get(&(i as u32)) {
            Some(x) => Val::E(*x),
            None => Val::I(b.data[i] as u64),
        })
        .collect();
    let veq = |x: &Val, y: &Val| match (x, y) {
        (Val::I(a), Val::I(b)) => a == b,
        (Val::E(a), Val::E(b)) => a == b,
        _ => false,
    };
    for h in e.st.hashes.iter() {
        if h.input.len() == inp.len() && h.input.iter().zip(&inp).all(|(x, y)| veq(x, y)) {
            let o = h.out.clone();
            for (i, v) in o.iter().enumerate() {
                e.write_int(out + i as u64, 1, v)?;
            }
            return Ok(None);
        }
    }
    let sym = !b.sym.is_empty();
    let outv: [Val; 32] = if !sym {
        let h = crate::hash::blake3(&b.data);
        std::array::from_fn(|i| Val::I(h[i] as u64))
    } else {
        let nm = format!("hash{}", e.st.hashes.len());
        let vs: Vec<E> = (0..4).map(|i| e.x.fresh(&format!("{}_{}", nm, i), 64)).collect();
        std::array::from_fn(|i| {
            let r = e.x.extract(vs[i / 8], (i % 8) as u32 * 8, 8);
            Val::E(r)
        })
    };
    // injectivity
    let olds = e.st.hashes.clone();
    let mut cons = vec![];
    for h in olds.iter() {
        if !sym && !h.sym {
            continue;
        }
        let mut heq = e.x.tt();
        for i in 0..32 {
            let (x, y) = (e.to_e(&h.out[i], 8), e.to_e(&outv[i], 8));
            let q = e.x.eq(x, y);
            heq = e.x.and(heq, q);
        }
        let mut ieq = if h.input.len() == inp.len() { e.x.tt() } else { e.x.ff() };
        if h.input.len() == inp.len() {
            for i in 0..inp.len() {
                let (x, y) = (e.to_e(&h.input[i], 8), e.to_e(&inp[i], 8));
                let q = e.x.eq(x, y);
                ieq = e.x.and(ieq, q);
                if e.x.as_const(ieq) == Some(0) {
                    break;
                }
            }
        }
        let c = e.x.eq(heq, ieq);
        cons.push(c);
    }
    // make the current model satisfy the constraints: choose fresh values accordingly
    e.st.hashes.push(Rc::new(HashRec { input: Rc::new(inp), out: outv.clone(), sym }));
    if sym {
        let mut pick: Option<Vec<u128>> = None;
        let cur: Vec<u128> = {
            let r = e.st.hashes.last().unwrap().clone();
            r.input
                .iter()
                .map(|v| match v {
                    Val::I(x) => *x as u128,
                    Val::E(x) => e.eval(*x),
                    _ => 0,
                })
                .collect()
        };
        for h in olds.iter() {
            if h.input.len() == cur.len() {
                let same = h.input.iter().zip(&cur).all(|(v, c)| match v {
                    Val::I(x) => *x as u128 == *c,
                    Val::E(x) => e.eval(*x) == *c,
                    _ => false,
                });
                if same {
                    pick = Some(
                        h.out
                            .iter()
                            .map(|v| match v {
                                Val::I(x) => *x as u128,
                                Val::E(x) => e.eval(*x),
                                _ => 0,
                            })
                            .collect(),
                    );
                    break;
                }
            }
        }
        let vals = pick.unwrap_or_else(|| {
            let bytes: Vec<u8> = cur.iter().map(|x| *x as u8).collect();
            crate::hash::blake3(&bytes).iter().map(|x| *x as u128).collect()
        });
        let mut m = Model::default();
        for i in 0..4 {
            if let Val::E(x) = &outv[i * 8] {
                if let Node::Extract(v, _) = *e.x.n(*x) {
                    if let Node::Var(id) = *e.x.n(v) {
                        let mut k = 0u128;
                        for j in 0..8 {
                            k |= vals[i * 8 + j] << (8 * j);
                        }
                        m.insert(id, k);
                    }
                }
            }
        }
        let mut mm: Model = (*e.st.model.m).clone();
        mm.extend(m);
        e.st.model = ModelState { m: Rc::new(mm), memo: Rc::new(Default::default()) };
    }
    for c in cons {
        e.assume(c)?;
    }
    for (i, v) in outv.iter().enumerate() {
        e.write_int(out + i as u64, 1, v)?;
    }
    Ok(None)
}
/// vsym_choose(n,label,len): environment choice (fork), reported as an input
fn v_choose(e: &mut Engine, a: &[Val], _: u32) -> XR {
    let n = ci(e, &a[0]);
    let m = hstr(e, &a[1], &a[2])?;
    let r = e.choose(n, &m);
    iv(r)
}
fn v_threads(e: &mut Engine, _: &[Val], _: u32) -> XR {
    iv(e.st.threads.iter().filter(|t| t.st != TSt::Done).count() as u64)
}
/// vsym_trace(str): debugging
fn v_trace(e: &mut Engine, a: &[Val], _: u32) -> XR {
    let m = hstr(e, &a[0], &a[1])?;
    if e.verbose {
        eprintln!("[trace] {}", m);
    }
    Ok(None)
}

pub fn table() -> HashMap<&'static str, ExtFn> {
    let mut t: HashMap<&'static str, ExtFn> = HashMap::new();
    let l: &[(&str, ExtFn)] = &[
        ("memcpy", i_memcpy),
        ("memmove", i_memcpy),
        ("memset", i_memset),
        ("bcmp", l_bcmp),
        ("memcmp", l_memcmp),
        ("strlen", l_strlen),
        ("malloc", l_malloc),
        ("calloc", l_calloc),
        ("realloc", l_realloc),
        ("free", l_free),
        ("posix_memalign", l_posix_memalign),
        ("aligned_alloc", l_aligned_alloc),
        ("abort", l_abort),
        ("exit", l_exit),
        ("_exit", l_exit),
        ("__errno_location", l_errno),
        ("__xpg_strerror_r", l_strerror_r),
        ("getauxval", l_getauxval),
        ("sysconf", l_sysconf),
        ("sched_getaffinity", l_sched_getaffinity),
        ("getcwd", l_getcwd),
        ("clock_gettime", l_clock_gettime),
        ("getrandom", l_getrandom),
        ("getenv", zero),
        ("dlsym", l_dlsym),
        ("poll", zero),
        ("signal", zero),
        ("sigaction", l_sigaction),
        ("sigaltstack", zero),
        ("mprotect", zero),
        ("getpid", l_gettid),
        ("gettid", l_gettid),
        ("pthread_create", l_pthread_create),
        ("pthread_join", l_pthread_join),
        ("pthread_self", l_pthread_self),
        ("pthread_detach", zero),
        ("pthread_attr_init", zero),
        ("pthread_attr_destroy", zero),
        ("pthread_attr_setstacksize", zero),
        ("pthread_attr_setguardsize", zero),
        ("pthread_attr_getguardsize", zero),
        ("pthread_getattr_np", zero),
        ("pthread_attr_getstack", l_getstack),
        ("pthread_setname_np", l_setname),
        ("pthread_key_create", l_key_create),
        ("pthread_key_delete", zero),
        ("pthread_setspecific", l_setspecific),
        ("pthread_getspecific", l_getspecific),
        ("__cxa_thread_atexit_impl", l_atexit),
        ("sched_yield", l_sched_yield),
        ("clock_nanosleep", l_nanosleep),
        ("nanosleep", l_nanosleep),
        ("syscall", l_syscall),
        ("open", l_open),
        ("open64", l_open),
        ("openat", l_openat),
        ("openat64", l_openat),
        ("close", l_close),
        ("dup", l_dup),
        ("fcntl", l_fcntl),
        ("fcntl64", l_fcntl),
        ("read", l_read),
        ("readv", l_readv),
        ("pread", l_pread),
        ("pread64", l_pread),
        ("write", l_write),
        ("writev", l_writev),
        ("pwrite", l_pwrite),
        ("pwrite64", l_pwrite),
        ("lseek", l_lseek),
        ("lseek64", l_lseek),
        ("ftruncate", l_ftruncate),
        ("ftruncate64", l_ftruncate),
        ("fsync", zero),
        ("fdatasync", zero),
        ("chmod", zero),
        ("fchmod", zero),
        ("stat64", l_stat),
        ("lstat64", l_stat),
        ("stat", l_stat),
        ("fstat64", l_fstat),
        ("fstat", l_fstat),
        ("statx", l_statx),
        ("rename", l_rename),
        ("link", l_link),
        ("linkat", l_linkat),
        ("unlink", l_unlink),
        ("mkdir", l_mkdir),
        ("rmdir", l_rmdir),
        ("mmap64", l_mmap),
        ("mmap", l_mmap),
        ("munmap", l_munmap),
        ("madvise", zero),
        ("copy_file_range", l_copy_file_range),
        ("sendfile64", l_sendfile),
        ("sendfile", l_sendfile),
        ("splice", minus1_enosys),
        ("vsym_bytes", v_bytes),
        ("vsym_uint", v_uint),
        ("vsym_assume", v_assume),
        ("vsym_assert", v_assert),
        ("vsym_cover", v_cover),
        ("vsym_param", v_param),
        ("vsym_conc", v_conc),
        ("vsym_harness", v_harness),
        ("vsym_mode", v_mode),
        ("vsym_phase", v_phase),
        ("vsym_reboot", v_reboot),
        ("vsym_fault", v_fault),
        ("vsym_fault_hit", v_fault_hit),
        ("vsym_point", v_point),
        ("vsym_sched", v_sched),
        ("vsym_panic_ok", v_panic_ok),
        ("vsym_mark", v_mark),
        ("vsym_stop", v_stop),
        ("vsym_note", v_note),
        ("vsym_eq", v_eq),
        ("vsym_is_concrete", v_is_concrete),
        ("vsym_hash", v_hash),
        ("vsym_choose", v_choose),
        ("vsym_threads", v_threads),
        ("vsym_trace", v_trace),
    ];
    for (n, f) in l {
        t.insert(n, *f);
    }
    t
}
pub fn intrinsic(name: &str) -> Option<ExtFn> {
    let n = name.strip_prefix("llvm.")?;
    let p = |s: &str| n.starts_with(s);
    Some(if p("memcpy") || p("memmove") {
        i_memcpy
    } else if p("memset") {
        i_memset
    } else if p("lifetime") || p("experimental.noalias") || p("dbg") || p("prefetch") || p("donothing") || p("invariant") || p("va_") || p("fake.use") {
        nop
    } else if p("trap") || p("ubsantrap") {
        i_trap
    } else if p("assume") {
        i_assume
    } else if p("expect") || p("ssa.copy") || p("launder") || p("strip.invariant") {
        i_expect
    } else if p("umin") {
        i_umin
    } else if p("umax") {
        i_umax
    } else if p("smin") {
        i_smin
    } else if p("smax") {
        i_smax
    } else if p("ucmp.i8") {
        i_ucmp8
    } else if p("scmp.i8") {
        i_scmp8
    } else if p("uadd.with") {
        i_uaddo
    } else if p("usub.with") {
        i_usubo
    } else if p("umul.with") {
        i_umulo
    } else if p("sadd.with") {
        i_saddo
    } else if p("ssub.with") {
        i_ssubo
    } else if p("smul.with") {
        i_smulo
    } else if p("usub.sat") {
        i_usubsat
    } else if p("uadd.sat") {
        i_uaddsat
    } else if p("abs") {
        i_abs
    } else if p("ctpop") {
        i_ctpop
    } else if p("ctlz") {
        i_ctlz
    } else if p("cttz") {
        i_cttz
    } else if p("bswap") {
        i_bswap
    } else if p("bitreverse") {
        i_bitreverse
    } else if p("fshl") {
        i_fshl
    } else if p("fshr") {
        i_fshr
    } else if p("is.constant") {
        i_isconst
    } else if p("threadlocal.address") {
        i_tlsaddr
    } else if p("x86.sse2.pause") {
        i_pause
    } else if p("x86.xgetbv") {
        zero
    } else if p("log.f32") {
        i_log32
    } else if p("log2.f32") {
        i_log2_32
    } else if p("log.f64") {
        i_log64
    } else if p("log2.f64") {
        i_log2_64
    } else if p("fabs.f32") {
        i_fabs32
    } else if p("fabs.f64") {
        i_fabs64
    } else if p("vector.reduce.or") {
        i_vr_or
    } else if p("vector.reduce.and") {
        i_vr_and
    } else if p("vector.reduce.xor") {
        i_vr_xor
    } else {
        return None;
    })
}
