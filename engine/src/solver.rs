//! z3 back end (C API, in process).  Deciding step of every branch/assertion.
use crate::expr::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::rc::Rc;
use std::time::Instant;

type P_ = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P_;
    fn Z3_mk_context_rc(c: P_) -> P_;
    fn Z3_inc_ref(c: P_, a: P_);
    fn Z3_mk_int_symbol(c: P_, i: c_int) -> P_;
    fn Z3_mk_string_symbol(c: P_, s: *const c_char) -> P_;
    fn Z3_mk_bv_sort(c: P_, w: c_uint) -> P_;
    fn Z3_mk_const(c: P_, s: P_, ty: P_) -> P_;
    fn Z3_mk_unsigned_int64(c: P_, v: u64, ty: P_) -> P_;
    fn Z3_mk_true(c: P_) -> P_;
    fn Z3_mk_false(c: P_) -> P_;
    fn Z3_mk_not(c: P_, a: P_) -> P_;
    fn Z3_mk_and(c: P_, n: c_uint, a: *const P_) -> P_;
    fn Z3_mk_or(c: P_, n: c_uint, a: *const P_) -> P_;
    fn Z3_mk_xor(c: P_, a: P_, b: P_) -> P_;
    fn Z3_mk_eq(c: P_, a: P_, b: P_) -> P_;
    fn Z3_mk_ite(c: P_, a: P_, b: P_, d: P_) -> P_;
    fn Z3_mk_bvadd(c: P_, a: P_, b: P_) -> P_;
    fn Z3_mk_bvsub(c: P_, a: P_, b: P_) -> P_;
    fn Z3_mk_bvmul(c: P_, a: P_, b: P_) -> P_;
    fn Z3_mk_bvudiv(c: P_, a: P_, b: P_) -> P_;
    fn Z3_mk_bvsdiv(c: P_, a: P_, b: P_) -> P_;
    fn Z3_mk_bvurem(c: P_, a: P_, b: P_) -> P_;
    fn Z3_mk_bvsrem(c: P_, a: P_, b: P_) -> P_;
    fn Z3_mk_bvshl(c: P_, a: P_, b: P_) -> P_;
    fn Z3_mk_bvlshr(c: P_, a: P_, b: P_) -> P_;
    fn Z3_mk_bvashr(c: P_, a: P_, b: P_) -> P_;
    fn Z3_mk_bvand(c: P_, a: P_, b: P_) -> P_;
    fn Z3_mk_bvor(c: P_, a: P_, b: P_) -> P_;
    fn Z3_mk_bvxor(c: P_, a: P_, b: P_) -> P_;
    fn Z3_mk_bvult(c: P_, a: P_, b: P_) -> P_;
    fn Z3_mk_bvule(c: P_, a: P_, b: P_) -> P_;
    fn Z3_mk_bvslt(c: P_, a: P_, b: P_) -> P_;
    fn Z3_mk_bvsle(c: P_, a: P_, b: P_) -> P_;
    fn Z3_mk_concat(c: P_, a: P_, b: P_) -> P_;
    fn Z3_mk_extract(c: P_, hi: c_uint, lo: c_uint, a: P_) -> P_;
    fn Z3_mk_sign_ext(c: P_, i: c_uint, a: P_) -> P_;
    fn Z3_mk_solver_for_logic(c: P_, l: P_) -> P_;
    fn Z3_solver_inc_ref(c: P_, s: P_);
    fn Z3_solver_dec_ref(c: P_, s: P_);
    fn Z3_solver_assert(c: P_, s: P_, a: P_);
    fn Z3_global_param_set(k: *const c_char, v: *const c_char);
    fn Z3_solver_check(c: P_, s: P_) -> c_int;
    fn Z3_solver_get_model(c: P_, s: P_) -> P_;
    fn Z3_solver_to_string(c: P_, s: P_) -> *const c_char;
    fn Z3_model_inc_ref(c: P_, m: P_);
    fn Z3_model_dec_ref(c: P_, m: P_);
    fn Z3_model_eval(c: P_, m: P_, a: P_, compl: bool, out: *mut P_) -> bool;
    fn Z3_get_numeral_string(c: P_, a: P_) -> *const c_char;
    fn Z3_mk_params(c: P_) -> P_;
    fn Z3_params_inc_ref(c: P_, p: P_);
    fn Z3_params_set_uint(c: P_, p: P_, k: P_, v: c_uint);
    fn Z3_solver_set_params(c: P_, s: P_, p: P_);
    fn Z3_set_error_handler(c: P_, h: Option<extern "C" fn(P_, c_int)>);
}

pub type Model = FxMap<u32, u128>;

#[derive(Default, Clone)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cached: u64,
    pub secs: f64,
    pub max_secs: f64,
}

pub enum Ans {
    Sat(Rc<Model>),
    Unsat,
    Unknown,
}

pub struct Solver {
    c: P_,
    logic: P_,
    params: P_,
    bv: FxMap<E, P_>,
    bo: FxMap<E, P_>,
    vars: FxMap<u32, P_>,
    cache: FxMap<Vec<E>, Option<Rc<Model>>>,
    pub stats: Stats,
    pub dump_dir: Option<String>,
    pub dumped: u64,
}

extern "C" fn on_err(_c: P_, code: c_int) {
    eprintln!("z3 error code {}", code);
    std::process::exit(3);
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Self {
        unsafe {
            let (k, v) = (CString::new("memory_max_size").unwrap(), CString::new("6000").unwrap());
            Z3_global_param_set(k.as_ptr(), v.as_ptr());
            let cfg = Z3_mk_config();
            let c = Z3_mk_context_rc(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let l = CString::new("QF_BV").unwrap();
            let logic = Z3_mk_string_symbol(c, l.as_ptr());
            let params = Z3_mk_params(c);
            Z3_params_inc_ref(c, params);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(c, params, Z3_mk_string_symbol(c, k.as_ptr()), timeout_ms);
            Solver {
                c,
                logic,
                params,
                bv: Default::default(),
                bo: Default::default(),
                vars: Default::default(),
                cache: Default::default(),
                stats: Default::default(),
                dump_dir: None,
                dumped: 0,
            }
        }
    }
    unsafe fn keep(&self, a: P_) -> P_ {
        Z3_inc_ref(self.c, a);
        a
    }
    unsafe fn num(&self, v: u128, w: u32) -> P_ {
        if w <= 64 {
            Z3_mk_unsigned_int64(self.c, v as u64, Z3_mk_bv_sort(self.c, w))
        } else {
            let hi = self.keep(Z3_mk_unsigned_int64(self.c, (v >> 64) as u64, Z3_mk_bv_sort(self.c, w - 64)));
            let lo = self.keep(Z3_mk_unsigned_int64(self.c, v as u64, Z3_mk_bv_sort(self.c, 64)));
            Z3_mk_concat(self.c, hi, lo)
        }
    }
    fn kids(x: &Ctx, e: E) -> Vec<E> {
        match x.n(e) {
            Node::Const(_) | Node::Var(_) => vec![],
            Node::Bin(_, a, b) | Node::Cmp(_, a, b) | Node::Concat(a, b) => vec![*a, *b],
            Node::Ite(a, b, c) => vec![*a, *b, *c],
            Node::Extract(a, _) | Node::SExt(a) => vec![*a],
            Node::Lin(_, t) => t.iter().map(|t| t.0).collect(),
        }
    }
    /// translate e (and everything below) ; afterwards bv/bo lookups succeed.
    unsafe fn tr(&mut self, x: &Ctx, e: E) {
        let mut st = vec![(e, false)];
        while let Some((e, done)) = st.pop() {
            if self.bv.contains_key(&e) || self.bo.contains_key(&e) {
                continue;
            }
            if !done {
                st.push((e, true));
                for k in Self::kids(x, e) {
                    st.push((k, false));
                }
                continue;
            }
            let w = x.w(e);
            let c = self.c;
            match x.n(e).clone() {
                Node::Const(v) => {
                    if w == 1 {
                        let a = self.keep(if v == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) });
                        self.bo.insert(e, a);
                    } else {
                        let a = self.keep(self.num(v, w));
                        self.bv.insert(e, a);
                    }
                }
                Node::Var(v) => {
                    let s = Z3_mk_int_symbol(c, v as c_int);
                    let a = self.keep(Z3_mk_const(c, s, Z3_mk_bv_sort(c, w)));
                    self.vars.insert(v, a);
                    self.bv.insert(e, a);
                }
                Node::Bin(op, a, b) => {
                    if w == 1 {
                        let r = match op {
                            Op::And | Op::Or => {
                                // one n-ary node over the distinct leaves (z3 expands shared nested ones)
                                let mut seen = FxSet::default();
                                let mut leaves = vec![];
                                let mut todo = vec![e];
                                while let Some(k) = todo.pop() {
                                    if !seen.insert(k) {
                                        continue;
                                    }
                                    match x.n(k) {
                                        Node::Bin(o, a, b) if *o == op => {
                                            todo.push(*b);
                                            todo.push(*a);
                                        }
                                        _ => leaves.push(self.b(x, k)),
                                    }
                                }
                                if op == Op::And {
                                    Z3_mk_and(c, leaves.len() as u32, leaves.as_ptr())
                                } else {
                                    Z3_mk_or(c, leaves.len() as u32, leaves.as_ptr())
                                }
                            }
                            Op::Xor => {
                                let (a, b) = (self.b(x, a), self.b(x, b));
                                Z3_mk_xor(c, a, b)
                            }
                            _ => panic!("1-bit {:?}", op),
                        };
                        let r = self.keep(r);
                        self.bo.insert(e, r);
                    } else {
                        let (a, b) = (self.v(x, a), self.v(x, b));
                        let r = match op {
                            Op::Add => Z3_mk_bvadd(c, a, b),
                            Op::Sub => Z3_mk_bvsub(c, a, b),
                            Op::Mul => Z3_mk_bvmul(c, a, b),
                            Op::UDiv => Z3_mk_bvudiv(c, a, b),
                            Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                            Op::URem => Z3_mk_bvurem(c, a, b),
                            Op::SRem => Z3_mk_bvsrem(c, a, b),
                            Op::Shl => Z3_mk_bvshl(c, a, b),
                            Op::LShr => Z3_mk_bvlshr(c, a, b),
                            Op::AShr => Z3_mk_bvashr(c, a, b),
                            Op::And => Z3_mk_bvand(c, a, b),
                            Op::Or => Z3_mk_bvor(c, a, b),
                            Op::Xor => Z3_mk_bvxor(c, a, b),
                        };
                        let r = self.keep(r);
                        self.bv.insert(e, r);
                    }
                }
                Node::Cmp(p, a, b) => {
                    let wa = x.w(a);
                    let r = if wa == 1 {
                        let (a, b) = (self.b(x, a), self.b(x, b));
                        assert!(p == P::Eq);
                        Z3_mk_eq(c, a, b)
                    } else {
                        let (a, b) = (self.v(x, a), self.v(x, b));
                        match p {
                            P::Eq => Z3_mk_eq(c, a, b),
                            P::Ult => Z3_mk_bvult(c, a, b),
                            P::Ule => Z3_mk_bvule(c, a, b),
                            P::Slt => Z3_mk_bvslt(c, a, b),
                            P::Sle => Z3_mk_bvsle(c, a, b),
                        }
                    };
                    let r = self.keep(r);
                    self.bo.insert(e, r);
                }
                Node::Ite(k, a, b) => {
                    let k = self.b(x, k);
                    if w == 1 {
                        let (a, b) = (self.b(x, a), self.b(x, b));
                        let r = self.keep(Z3_mk_ite(c, k, a, b));
                        self.bo.insert(e, r);
                    } else {
                        let (a, b) = (self.v(x, a), self.v(x, b));
                        let r = self.keep(Z3_mk_ite(c, k, a, b));
                        self.bv.insert(e, r);
                    }
                }
                Node::Extract(a, lo) => {
                    let a = self.v(x, a);
                    let r = self.keep(Z3_mk_extract(c, lo + w - 1, lo, a));
                    self.bv.insert(e, r);
                }
                Node::Concat(a, b) => {
                    let (a, b) = (self.v(x, a), self.v(x, b));
                    let r = self.keep(Z3_mk_concat(c, a, b));
                    self.bv.insert(e, r);
                }
                Node::SExt(a) => {
                    let wa = x.w(a);
                    let a = self.v(x, a);
                    let r = self.keep(Z3_mk_sign_ext(c, w - wa, a));
                    self.bv.insert(e, r);
                }
                Node::Lin(k, t) => {
                    if w == 1 {
                        let mut r = self.keep(if k == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) });
                        for (b, _) in t.iter() {
                            let b = self.b(x, *b);
                            r = self.keep(Z3_mk_xor(c, r, b));
                        }
                        self.bo.insert(e, r);
                    } else {
                        let z = self.keep(self.num(0, w));
                        let mut r = self.keep(self.num(k, w));
                        for (b, m) in t.iter() {
                            let b = self.b(x, *b);
                            let m = self.keep(self.num(*m, w));
                            let i = self.keep(Z3_mk_ite(c, b, m, z));
                            r = self.keep(Z3_mk_bvxor(c, r, i));
                        }
                        self.bv.insert(e, r);
                    }
                }
            }
        }
    }
    unsafe fn b(&mut self, x: &Ctx, e: E) -> P_ {
        if let Some(a) = self.bo.get(&e) {
            return *a;
        }
        assert_eq!(x.w(e), 1);
        let a = self.bv[&e];
        let one = self.keep(Z3_mk_unsigned_int64(self.c, 1, Z3_mk_bv_sort(self.c, 1)));
        let r = self.keep(Z3_mk_eq(self.c, a, one));
        self.bo.insert(e, r);
        r
    }
    unsafe fn v(&mut self, x: &Ctx, e: E) -> P_ {
        if let Some(a) = self.bv.get(&e) {
            return *a;
        }
        assert_eq!(x.w(e), 1);
        let a = self.bo[&e];
        let s = Z3_mk_bv_sort(self.c, 1);
        let one = self.keep(Z3_mk_unsigned_int64(self.c, 1, s));
        let zero = self.keep(Z3_mk_unsigned_int64(self.c, 0, s));
        let r = self.keep(Z3_mk_ite(self.c, a, one, zero));
        self.bv.insert(e, r);
        r
    }

    /// Is (slice of pc relevant to q) && q satisfiable?
    pub fn check(&mut self, x: &mut Ctx, pc: &[E], q: E) -> Ans {
        if let Some(k) = x.as_const(q) {
            if k == 0 {
                return Ans::Unsat;
            }
        }
        // independence slicing
        let mut vars: FxSet<u32> = x.vars_of(q).iter().copied().collect();
        let mut used = vec![false; pc.len()];
        let mut sl: Vec<E> = vec![];
        let pv: Vec<Rc<Vec<u32>>> = pc.iter().map(|e| x.vars_of(*e)).collect();
        loop {
            let mut ch = false;
            for i in 0..pc.len() {
                if !used[i] && pv[i].iter().any(|v| vars.contains(v)) {
                    used[i] = true;
                    ch = true;
                    sl.push(pc[i]);
                    vars.extend(pv[i].iter());
                }
            }
            if !ch {
                break;
            }
        }
        sl.push(q);
        sl.sort_unstable();
        sl.dedup();
        if let Some(r) = self.cache.get(&sl) {
            self.stats.cached += 1;
            return match r {
                Some(m) => Ans::Sat(m.clone()),
                None => Ans::Unsat,
            };
        }
        let t0 = Instant::now();
        let r = unsafe {
            for e in &sl {
                self.tr(x, *e);
            }
            let s = Z3_mk_solver_for_logic(self.c, self.logic);
            Z3_solver_inc_ref(self.c, s);
            Z3_solver_set_params(self.c, s, self.params);
            for e in &sl {
                let a = self.b(x, *e);
                Z3_solver_assert(self.c, s, a);
            }
            let r = Z3_solver_check(self.c, s);
            if let Some(d) = &self.dump_dir {
                if self.dumped < 400 {
                    let txt = CStr::from_ptr(Z3_solver_to_string(self.c, s)).to_string_lossy().into_owned();
                    let _ = std::fs::write(
                        format!("{}/q{}.smt2", d, self.dumped),
                        format!("; expect {}\n(set-logic QF_BV)\n{}\n(check-sat)\n", r, txt),
                    );
                    self.dumped += 1;
                }
            }
            let ans = if r == 1 {
                let m = Z3_solver_get_model(self.c, s);
                Z3_model_inc_ref(self.c, m);
                let mut mm = Model::default();
                for v in &vars {
                    if let Some(a) = self.vars.get(v) {
                        let mut out: P_ = std::ptr::null_mut();
                        if Z3_model_eval(self.c, m, *a, true, &mut out) {
                            Z3_inc_ref(self.c, out);
                            let st = CStr::from_ptr(Z3_get_numeral_string(self.c, out));
                            mm.insert(*v, st.to_str().unwrap().parse::<u128>().unwrap());
                        }
                    }
                }
                Z3_model_dec_ref(self.c, m);
                Ans::Sat(Rc::new(mm))
            } else if r == -1 {
                Ans::Unsat
            } else {
                Ans::Unknown
            };
            Z3_solver_dec_ref(self.c, s);
            ans
        };
        let dt = t0.elapsed().as_secs_f64();
        self.stats.queries += 1;
        self.stats.secs += dt;
        if dt > self.stats.max_secs {
            self.stats.max_secs = dt;
        }
        match &r {
            Ans::Sat(m) => {
                self.stats.sat += 1;
                // never trust a model that does not satisfy the query
                let mut memo = Default::default();
                for e in &sl {
                    if x.eval(*e, m, &mut memo) != 1 {
                        eprintln!("solver model does not satisfy query: {}", x.show(*e, 6));
                        std::process::exit(3);
                    }
                }
                self.cache.insert(sl, Some(m.clone()));
            }
            Ans::Unsat => {
                self.stats.unsat += 1;
                self.cache.insert(sl, None);
            }
            Ans::Unknown => self.stats.unknown += 1,
        }
        r
    }
}
