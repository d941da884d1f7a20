//! The symbolic interpreter.
use crate::expr::*;
use crate::fs::Fs;
use crate::ir::*;
use crate::mem::*;
use crate::solver::*;
use std::collections::BTreeMap;
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone)]
pub struct Frame {
    pub f: &'static Func,
    pub pc: u32,
    pub regs: Vec<Val>,
    pub allocas: Vec<u32>,
    pub ret: u32,
}

#[derive(Clone, Debug, PartialEq)]
pub enum TSt {
    Run,
    Futex { addr: u64, deadline: Option<u64>, reg: u32 },
    Join(usize),
    Sleep(u64),
    Done,
}

#[derive(Clone)]
pub struct Thread {
    pub frames: Vec<Frame>,
    pub st: TSt,
    pub tls: FxMap<u32, u64>,
    pub dtors: Vec<(u64, u64)>,
    pub errno: u64,
    pub keys: FxMap<u64, u64>,
    pub skip_point: bool,
    pub spin: u64,
    pub name: String,
}

#[derive(Clone)]
pub struct ModelState {
    pub m: Rc<Model>,
    pub memo: Rc<std::cell::RefCell<FxMap<E, u128>>>,
}

#[derive(Clone)]
pub struct HashRec {
    pub input: Rc<Vec<Val>>,
    pub out: [Val; 32],
    pub sym: bool,
}

impl Sched {
    /// may the schedule depart from the default one here?
    fn open(&mut self, again: bool) -> bool {
        if again || self.departed || self.parts < 2 {
            return true;
        }
        self.sites += 1;
        self.sites % self.parts == self.part
    }
}

/// a path fixed by a replay file
pub struct Replay {
    pub inputs: std::collections::HashMap<String, Vec<u128>>,
    /// every entry of State::choices, in order
    pub choices: Vec<(String, u128)>,
}

#[derive(Clone, Default)]
pub struct Sched {
    pub on: bool,
    pub budget: u32,
    pub points: u64,
    pub only_futex: bool,
    /// preemption only where jubako's code (through the standard library) stands
    pub repo_only: bool,
    /// choices other than "go on" left at explicit points
    pub pbudget: u32,
    /// the first departure from the default schedule happens at a site whose number is `part` modulo `parts`
    pub parts: u32,
    pub part: u32,
    pub sites: u32,
    pub departed: bool,
    /// the current thread stands at an explicit point
    pub at_point: bool,
    /// threads of this name run only when no other can
    pub quiet: &'static str,
}

#[derive(Clone, Default)]
pub struct Fault {
    pub mode: u32,
    /// the next write fails (1) or all of them (2)
    pub sticky: u32,
    pub budget: u32,
    pub ops: u64,
    pub log: Vec<String>,
}

#[derive(Clone)]
pub struct State {
    pub threads: Vec<Thread>,
    pub cur: usize,
    pub mem: Mem,
    pub pc: Vec<E>,
    pub model: ModelState,
    pub fs: Fs,
    pub hashes: Vec<Rc<HashRec>>,
    pub inputs: Vec<(String, Vec<E>)>,
    pub notes: Vec<(String, Vec<E>)>,
    pub steps: u64,
    pub mark: u64,
    pub pending: Option<E>,
    pub in_sched: bool,
    pub nchoice: u32,
    pub choices: Vec<(String, u64)>,
    pub sched: Sched,
    pub fault: Fault,
    pub clock: u64,
    pub rng: u64,
    pub phase: u64,
    pub panic_ok: u64,
    pub covers: Vec<String>,
    pub depth: u32,
    pub names: FxMap<u64, u64>, // name counters (hash -> n)
    pub mapped: u64,
}

pub enum Ex {
    /// path is finished normally / killed by assume
    End,
    Pruned,
    Fault(&'static str, String),
}

pub struct Violation {
    pub kind: String,
    pub label: String,
    pub stack: Vec<String>,
    pub inputs: Vec<(String, Vec<u128>)>,
    pub notes: Vec<(String, Vec<u128>)>,
    pub choices: Vec<(String, u64)>,
    pub faults: Vec<String>,
    pub fstrace: Vec<String>,
    pub count: u64,
}

pub type XR = Result<Option<Val>, Ex>;
pub type ExtFn = fn(&mut Engine, &[Val], u32) -> XR;

#[derive(Default)]
pub struct Counters {
    pub instrs: u64,
    pub paths: u64,
    pub forks: u64,
    pub pruned: u64,
    pub asserts: u64,
    pub asserts_solver: u64,
    pub faults: u64,
    pub concretized: u64,
    pub switches: u64,
    pub symloads: u64,
    pub expected_panics: u64,
    pub max_states: u64,
}

fn rss_mb() -> u64 {
    std::fs::read_to_string("/proc/self/statm").ok().and_then(|s| s.split(' ').nth(1).and_then(|x| x.parse::<u64>().ok())).unwrap_or(0) / 256
}
pub struct Engine {
    pub slow_log: bool,
    pub mem_check: u64,
    pub mem_limit: u64,
    pub x: Ctx,
    pub s: Solver,
    pub md: Module,
    pub st: State,
    pub queue: Vec<State>,
    pub ext: Vec<Option<ExtFn>>,
    pub hook: Vec<u8>,
    pub viol: BTreeMap<String, Violation>,
    pub covers: BTreeMap<String, u64>,
    pub n: Counters,
    pub incomplete: Vec<String>,
    pub need_switch: bool,
    pub verbose: bool,
    pub harness: String,
    pub params: BTreeMap<String, u64>,
    pub t0: Instant,
    pub time_limit: f64,
    pub max_steps: u64,
    pub max_paths: u64,
    pub cur_d: u32,
    pub log: String,
    pub initial: Option<Box<State>>,
    pub replay: Option<Replay>,
    pub samples: Vec<String>,
    pub max_viol: usize,
    pub tls_tmpl: FxMap<u32, ()>,
    pub tracefn: bool,
    pub fork_sites: std::collections::HashMap<String, u64>,
}

pub fn iv(x: u64) -> XR {
    Ok(Some(Val::I(x)))
}

impl Engine {
    // ------------------------------------------------------------ values
    pub fn to_e(&mut self, v: &Val, w: u32) -> E {
        match v {
            Val::I(x) => self.x.c(*x as u128, w),
            Val::W(x) => self.x.c(*x, w),
            Val::E(e) => {
                debug_assert_eq!(self.x.w(*e), w);
                *e
            }
            Val::A(_) => panic!("aggregate as scalar"),
        }
    }
    pub fn from_e(&self, e: E) -> Val {
        match self.x.as_const(e) {
            Some(c) => {
                if self.x.w(e) <= 64 {
                    Val::I(c as u64)
                } else {
                    Val::W(c)
                }
            }
            None => Val::E(e),
        }
    }
    pub fn from_u(&self, v: u128, w: u32) -> Val {
        if w <= 64 {
            Val::I(v as u64)
        } else {
            Val::W(v)
        }
    }
    pub fn eval(&self, e: E) -> u128 {
        let ms = &self.st.model;
        self.x.eval(e, &ms.m, &mut ms.memo.borrow_mut())
    }
    fn set_model(st: &mut State, extra: &Model) {
        let mut m: Model = (*st.model.m).clone();
        for (k, v) in extra {
            m.insert(*k, *v);
        }
        st.model = ModelState { m: Rc::new(m), memo: Rc::new(Default::default()) };
    }
    // ------------------------------------------------------------ constraints
    fn add_pc_to(x: &mut Ctx, st: &mut State, e: E) {
        let mut seen = FxSet::default();
        let mut todo = vec![e];
        while let Some(e) = todo.pop() {
            if x.as_const(e) == Some(1) || !seen.insert(e) {
                continue;
            }
            if let Node::Bin(Op::And, a, b) = *x.n(e) {
                todo.push(b);
                todo.push(a);
                continue;
            }
            if !st.pc.contains(&e) {
                st.pc.push(e);
            }
        }
    }
    pub fn add_pc(&mut self, e: E) {
        Self::add_pc_to(&mut self.x, &mut self.st, e);
    }
    pub fn feasible(&mut self, e: E) -> Ans {
        let t = Instant::now();
        let r = self.s.check(&mut self.x, &self.st.pc, e);
        if self.slow_log && t.elapsed().as_secs_f64() > 1.0 {
            eprintln!("slow query {:.1} s: {}", t.elapsed().as_secs_f64(), self.x.show(e, 8).chars().take(1500).collect::<String>());
            for f in self.stack().iter().take(12) {
                eprintln!("    {f}");
            }
        }
        r
    }
    /// Decide a symbolic condition. Returns the side followed by the current state and the
    /// sibling state (already constrained), if the other side is feasible.
    pub fn split_on(&mut self, c: E) -> (bool, Option<State>) {
        if let Some(k) = self.x.as_const(c) {
            return (k == 1, None);
        }
        let v = self.eval(c) == 1;
        let nc = self.x.not(c);
        let (mine, other) = if v { (c, nc) } else { (nc, c) };
        match self.feasible(other) {
            Ans::Sat(m) => {
                let site = self.site();
                *self.fork_sites.entry(site).or_insert(0) += 1;
                let mut sib = self.st.clone();
                Self::set_model(&mut sib, &m);
                Self::add_pc_to(&mut self.x, &mut sib, other);
                sib.depth += 1;
                self.add_pc(mine);
                self.st.depth += 1;
                self.n.forks += 1;
                (v, Some(sib))
            }
            Ans::Unsat => (v, None),
            Ans::Unknown => {
                self.incomplete.push("solver: unknown".into());
                self.add_pc(mine);
                (v, None)
            }
        }
    }
    /// Fork and re-execute the current instruction in the sibling.
    pub fn branch_here(&mut self, c: E) -> bool {
        let (v, sib) = self.split_on(c);
        if let Some(s) = sib {
            self.queue.push(s);
        }
        v
    }
    /// innermost frames of the current thread, for profiling
    pub fn site(&self) -> String {
        let mut o = String::new();
        for f in self.st.threads[self.st.cur].frames.iter().rev().take(4) {
            let (fi, l) = f.f.locs.get(f.pc as usize).copied().unwrap_or((0, 0));
            let file = self.md.files.get(fi as usize).map(|s| s.as_str()).unwrap_or("?");
            let file = file.rsplit('/').next().unwrap_or("?");
            o.push_str(&format!("{}:{} ", file, l));
        }
        o
    }
    pub fn concretize_e(&mut self, e: E) -> u128 {
        if let Some(c) = self.x.as_const(e) {
            return c;
        }
        self.n.concretized += 1;
        let w = self.x.w(e);
        let v = self.eval(e);
        let k = self.x.c(v, w);
        let eq = self.x.eq(e, k);
        let r = self.branch_here(eq);
        debug_assert!(r);
        v
    }
    pub fn conc(&mut self, v: &Val) -> u64 {
        match v {
            Val::I(x) => *x,
            Val::W(x) => *x as u64,
            Val::E(e) => self.concretize_e(*e) as u64,
            Val::A(_) => panic!("conc of aggregate"),
        }
    }
    /// nondeterministic environment choice 0..n, as a fresh symbolic variable
    pub fn choose(&mut self, n: u64, label: &str) -> u64 {
        if n <= 1 {
            return 0;
        }
        let v = match self.st.pending {
            Some(v) => v,
            None => {
                let nm = format!("{}#{}", label, self.st.nchoice);
                let v = self.x.fresh(&nm, 16);
                let k = self.x.c(n as u128, 16);
                let c = self.x.cmp(P::Ult, v, k);
                // replay: fixed
                let fixed = self.replay_take(label);
                if let Some(f) = fixed {
                    let mut m = Model::default();
                    if let Node::Var(id) = *self.x.n(v) {
                        m.insert(id, f);
                    }
                    Self::set_model(&mut self.st, &m);
                    let f = self.x.c(f, 16);
                    let e = self.x.eq(v, f);
                    self.add_pc(e);
                }
                self.add_pc(c);
                v
            }
        };
        self.st.pending = Some(v);
        let r = self.concretize_e(v) as u64;
        self.st.pending = None;
        self.st.nchoice += 1;
        self.st.choices.push((label.to_string(), r));
        r
    }
    /// the value the replay file gives to the next choice of this path
    pub fn replay_take(&mut self, label: &str) -> Option<u128> {
        let q = self.replay.as_ref()?;
        match q.choices.get(self.st.choices.len()) {
            Some((n, v)) if n == &label.replace(' ', "_") => Some(*v),
            Some((n, _)) => {
                eprintln!("replay mismatch: expected {} got {}", n, label);
                std::process::exit(3);
            }
            None => Some(0),
        }
    }
    pub fn assume(&mut self, c: E) -> Result<(), Ex> {
        if let Some(k) = self.x.as_const(c) {
            return if k == 1 { Ok(()) } else { Err(Ex::Pruned) };
        }
        if self.eval(c) == 1 {
            self.add_pc(c);
            return Ok(());
        }
        match self.feasible(c) {
            Ans::Sat(m) => {
                Self::set_model(&mut self.st, &m);
                self.add_pc(c);
                Ok(())
            }
            Ans::Unsat => Err(Ex::Pruned),
            Ans::Unknown => {
                self.incomplete.push("solver: unknown in assume".into());
                Err(Ex::Pruned)
            }
        }
    }
    pub fn assert(&mut self, c: E, label: &str) -> Result<(), Ex> {
        self.n.asserts += 1;
        if self.x.as_const(c) == Some(1) {
            return Ok(());
        }
        if self.x.as_const(c) == Some(0) {
            self.violation("assert", label);
            return Err(Ex::Pruned);
        }
        self.n.asserts_solver += 1;
        let nc = self.x.not(c);
        match self.feasible(nc) {
            Ans::Sat(m) => {
                let save = self.st.model.clone();
                let npc = self.st.pc.len();
                Self::set_model(&mut self.st, &m);
                self.violation("assert", label);
                self.st.pc.truncate(npc);
                self.st.model = save;
                self.assume(c)
            }
            Ans::Unsat => Ok(()),
            Ans::Unknown => {
                self.incomplete.push(format!("solver: unknown on assertion {}", label));
                self.assume(c)
            }
        }
    }
    pub fn stack(&self) -> Vec<String> {
        let mut out = vec![];
        if let Some(t) = self.st.threads.get(self.st.cur) {
            for f in t.frames.iter().rev().take(40) {
                let (fi, ln) = f.f.locs.get(f.pc as usize).copied().unwrap_or((u32::MAX, 0));
                let file = if fi == u32::MAX { "?" } else { &self.md.files[fi as usize] };
                out.push(format!("{} ({}:{})", f.f.name, file, ln));
            }
        }
        out
    }
    pub fn violation(&mut self, kind: &str, label: &str) {
        self.n.faults += 1;
        let key = format!("{}:{}", kind, label);
        if let Some(v) = self.viol.get_mut(&key) {
            v.count += 1;
            return;
        }
        let ev = |s: &Self, l: &Vec<(String, Vec<E>)>| -> Vec<(String, Vec<u128>)> {
            l.iter().map(|(n, es)| (n.clone(), es.iter().map(|e| s.eval(*e)).collect())).collect()
        };
        let v = Violation {
            kind: kind.into(),
            label: label.into(),
            stack: self.stack(),
            inputs: ev(self, &self.st.inputs),
            notes: ev(self, &self.st.notes),
            choices: self.st.choices.clone(),
            faults: self.st.fault.log.clone(),
            fstrace: self.st.fs.trace.clone(),
            count: 1,
        };
        if self.verbose {
            eprintln!("VIOLATION {} {}", kind, label);
            for s in &v.stack {
                eprintln!("    {}", s);
            }
            for (n, x) in &v.inputs {
                eprintln!("    {} = {:x?}", n, x);
            }
        }
        self.viol.insert(key, v);
    }

    // ------------------------------------------------------------ memory
    #[inline]
    pub fn obj(&self, addr: u64, n: u64) -> Result<(u32, usize), Ex> {
        let (id, off) = Mem::split(addr);
        match self.st.mem.get(id) {
            Some(o) => {
                if off >= 0 && (off as u64) + n <= o.b.len() as u64 {
                    Ok((id, off as usize))
                } else {
                    Err(Ex::Fault(
                        "memory",
                        format!("out-of-bounds access: {} byte(s) at offset {} of a {:?} object of {} bytes", n, off, o.kind, o.b.len()),
                    ))
                }
            }
            None => Err(Ex::Fault(
                "memory",
                if addr < 0x1000 {
                    format!("null pointer access {:#x}", addr)
                } else {
                    format!("access to freed or unmapped memory ({} bytes)", n)
                },
            )),
        }
    }
    pub fn byte_e(&mut self, id: u32, off: usize) -> E {
        let o = self.st.mem.get(id).unwrap();
        if let Some(e) = o.b.sym.get(&(off as u32)) {
            return *e;
        }
        let v = o.b.data[off];
        self.x.c(v as u128, 8)
    }
    #[inline]
    pub fn read_int(&mut self, addr: u64, n: usize) -> Result<Val, Ex> {
        let (id, off) = self.obj(addr, n as u64)?;
        let o = self.st.mem.get(id).unwrap();
        if o.b.sym.is_empty() || !o.b.has_sym(off, n) {
            let d = &o.b.data[off..off + n];
            if n <= 8 {
                let mut b = [0u8; 8];
                b[..n].copy_from_slice(d);
                return Ok(Val::I(u64::from_le_bytes(b)));
            }
            let mut b = [0u8; 16];
            b[..n].copy_from_slice(d);
            return Ok(Val::W(u128::from_le_bytes(b)));
        }
        let mut r = self.byte_e(id, off);
        for i in 1..n {
            let b = self.byte_e(id, off + i);
            r = self.x.concat(b, r);
        }
        Ok(self.from_e(r))
    }
    pub fn write_int(&mut self, addr: u64, n: usize, v: &Val) -> Result<(), Ex> {
        let (id, off) = self.obj(addr, n as u64)?;
        if self.st.mem.get(id).unwrap().ro {
            return Err(Ex::Fault("memory", "write to read-only memory".into()));
        }
        match v {
            Val::I(x) => {
                let o = self.st.mem.get_mut(id).unwrap();
                if !o.b.sym.is_empty() {
                    o.b.clear_sym(off, n);
                }
                let m = n.min(8);
                o.b.data[off..off + m].copy_from_slice(&x.to_le_bytes()[..m]);
                for i in 8..n {
                    o.b.data[off + i] = 0;
                }
            }
            Val::W(x) => {
                let o = self.st.mem.get_mut(id).unwrap();
                o.b.clear_sym(off, n);
                o.b.data[off..off + n].copy_from_slice(&x.to_le_bytes()[..n]);
            }
            Val::E(e) => {
                let w = self.x.w(*e);
                let e = if w < 8 * n as u32 { self.x.zext(*e, 8 * n as u32) } else { *e };
                for i in 0..n {
                    let b = self.x.extract(e, 8 * i as u32, 8);
                    let c = self.x.as_const(b);
                    let o = self.st.mem.get_mut(id).unwrap();
                    match c {
                        Some(c) => {
                            o.b.sym.remove(&((off + i) as u32));
                            o.b.data[off + i] = c as u8;
                        }
                        None => {
                            o.b.sym.insert((off + i) as u32, b);
                        }
                    }
                }
            }
            Val::A(_) => panic!(),
        }
        Ok(())
    }
    pub fn read_bytes(&self, addr: u64, n: usize) -> Result<Bytes, Ex> {
        if n == 0 {
            return Ok(Bytes::default());
        }
        let (id, off) = self.obj(addr, n as u64)?;
        Ok(self.st.mem.get(id).unwrap().b.slice(off, n))
    }
    pub fn write_bytes(&mut self, addr: u64, b: &Bytes) -> Result<(), Ex> {
        if b.len() == 0 {
            return Ok(());
        }
        let (id, off) = self.obj(addr, b.len() as u64)?;
        if self.st.mem.get(id).unwrap().ro {
            return Err(Ex::Fault("memory", "write to read-only memory".into()));
        }
        self.st.mem.get_mut(id).unwrap().b.put(off, b);
        Ok(())
    }
    pub fn concrete_bytes(&mut self, addr: u64, n: usize) -> Result<Vec<u8>, Ex> {
        let b = self.read_bytes(addr, n)?;
        let mut d = b.data.clone();
        for (k, e) in &b.sym {
            d[*k as usize] = self.concretize_e(*e) as u8;
        }
        Ok(d)
    }
    pub fn cstr(&mut self, addr: u64) -> Result<String, Ex> {
        let mut out = vec![];
        let mut a = addr;
        loop {
            let v = self.read_int(a, 1)?;
            let c = self.conc(&v) as u8;
            if c == 0 {
                break;
            }
            out.push(c);
            a += 1;
        }
        Ok(String::from_utf8_lossy(&out).into_owned())
    }
    fn load(&mut self, ty: &Ty, p: &Val) -> Result<Val, Ex> {
        let addr = match p {
            Val::I(a) => *a,
            Val::E(e) => {
                let e = *e;
                return self.sym_load(ty, e);
            }
            _ => panic!("load ptr"),
        };
        self.load_at(ty, addr)
    }
    fn load_at(&mut self, ty: &Ty, addr: u64) -> Result<Val, Ex> {
        match ty {
            Ty::Int(w) => {
                let n = ((*w + 7) / 8) as usize;
                let v = self.read_int(addr, n)?;
                Ok(if *w % 8 != 0 {
                    match v {
                        Val::I(x) => Val::I(x & mask(*w) as u64),
                        Val::W(x) => self.from_u(x & mask(*w), *w),
                        Val::E(e) => {
                            let r = self.x.extract(e, 0, *w);
                            self.from_e(r)
                        }
                        v => v,
                    }
                } else {
                    v
                })
            }
            Ty::Ptr | Ty::F64 => self.read_int(addr, 8),
            Ty::F32 => self.read_int(addr, 4),
            Ty::Vec(e, n) => {
                let sz = e.bits() as u64 / 8;
                if sz == 0 {
                    let bits = e.bits() * *n;
                    if bits % 8 != 0 {
                        return Err(Ex::Fault("unsupported", "sub-byte vector load".into()));
                    }
                    let v = self.read_int(addr, bits as usize / 8)?;
                    return Ok(self.bitcast(&Ty::Int(bits), ty, &v));
                }
                let mut v = vec![];
                for i in 0..*n as u64 {
                    v.push(self.load_at(e, addr + i * sz)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            Ty::Agg(fs) => {
                let mut v = vec![];
                for (o, t) in fs.iter() {
                    v.push(self.load_at(t, addr + o)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            Ty::Void => panic!(),
        }
    }
    fn store(&mut self, ty: &Ty, v: &Val, addr: u64) -> Result<(), Ex> {
        match ty {
            Ty::Int(w) => self.write_int(addr, ((*w + 7) / 8) as usize, v),
            Ty::Ptr | Ty::F64 => self.write_int(addr, 8, v),
            Ty::F32 => self.write_int(addr, 4, v),
            Ty::Vec(e, n) => {
                let sz = e.bits() as u64 / 8;
                if sz == 0 {
                    let bits = e.bits() * *n;
                    if bits % 8 != 0 {
                        return Err(Ex::Fault("unsupported", "sub-byte vector store".into()));
                    }
                    let b = self.bitcast(ty, &Ty::Int(bits), v);
                    return self.write_int(addr, bits as usize / 8, &b);
                }
                if let Val::A(a) = v {
                    for i in 0..*n as usize {
                        self.store(e, &a[i], addr + i as u64 * sz)?;
                    }
                }
                Ok(())
            }
            Ty::Agg(fs) => {
                if let Val::A(a) = v {
                    for (i, (o, t)) in fs.iter().enumerate() {
                        self.store(t, &a[i], addr + o)?;
                    }
                }
                Ok(())
            }
            Ty::Void => panic!(),
        }
    }
    fn sym_load(&mut self, ty: &Ty, e: E) -> Result<Val, Ex> {
        self.n.symloads += 1;
        let w = match ty {
            Ty::Int(w) if *w % 8 == 0 => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            _ => {
                let a = self.concretize_e(e) as u64;
                return self.load_at(ty, a);
            }
        };
        let n = (w / 8) as u64;
        let a0 = self.eval(e) as u64;
        let (id, off0) = Mem::split(a0);
        let size = match self.st.mem.get(id) {
            Some(o) => o.b.len() as u64,
            None => {
                let a = self.concretize_e(e) as u64;
                return self.load_at(ty, a);
            }
        };
        if off0 < 0 || off0 as u64 + n > size {
            let a = self.concretize_e(e) as u64;
            return self.load_at(ty, a);
        }
        let base = self.x.c(addr_of(id) as u128, 64);
        let off = self.x.bin(Op::Sub, e, base);
        let lim = self.x.c((size - n) as u128, 64);
        let inb = self.x.cmp(P::Ule, off, lim);
        let r = self.branch_here(inb);
        debug_assert!(r);
        // structure: const + (0 . idx . 0_k)
        let (y, c) = match *self.x.n(off) {
            Node::Bin(Op::Add, y, k) if self.x.as_const(k).is_some() => (y, self.x.as_const(k).unwrap() as u64),
            _ => (off, 0),
        };
        let hi = self.x.umax(y);
        let mut k = 0;
        while k < 16 {
            let b = self.x.extract(y, k, 1);
            if self.x.as_const(b) == Some(0) {
                k += 1;
            } else {
                break;
            }
        }
        let top = 128 - hi.leading_zeros();
        if top > k && top - k <= 12 {
            let idx = self.x.extract(y, k, top - k);
            let mut tab: Vec<Val> = vec![];
            let cnt = (hi >> k) as u64 + 1;
            let mut last = Val::I(0);
            for i in 0..1u64 << (top - k) {
                let a = addr_of(id).wrapping_add(c).wrapping_add(i << k);
                let o = a.wrapping_sub(addr_of(id));
                if i < cnt && o <= size - n {
                    last = self.read_int(a, n as usize)?;
                }
                tab.push(last.clone());
            }
            if tab.iter().all(|v| !matches!(v, Val::E(_))) {
                let t: Vec<u128> = tab
                    .iter()
                    .map(|v| match v {
                        Val::I(x) => *x as u128,
                        Val::W(x) => *x,
                        _ => 0,
                    })
                    .collect();
                if let Some(l) = self.x.lin_table(&t, idx, w) {
                    return Ok(self.from_e(l));
                }
            }
            let t: Vec<E> = tab.iter().map(|v| self.to_e(v, w)).collect();
            let r = self.x.mux_table(&t, idx);
            return Ok(self.from_e(r));
        }
        if self.verbose {
            eprintln!("sym_load fallback: {} off {:?} y {:?} c {} hi {:#x} k {} site {}", self.x.show(off, 4), self.x.n(off), self.x.n(y), c, hi, k, self.site());
        }
        let a = self.concretize_e(e) as u64;
        self.load_at(ty, a)
    }
    pub fn malloc(&mut self, n: u64) -> u64 {
        self.st.mem.alloc(n, Kind::Heap, 0xC5)
    }
    pub fn free(&mut self, a: u64) -> Result<(), Ex> {
        if a == 0 {
            return Ok(());
        }
        let (id, off) = Mem::split(a);
        match self.st.mem.get(id) {
            Some(o) if off == 0 && o.kind == Kind::Heap => {
                self.st.mem.free_id(id);
                Ok(())
            }
            _ => Err(Ex::Fault("memory", "invalid or double free".into())),
        }
    }

    // ------------------------------------------------------------ arithmetic
    #[inline]
    pub fn bin(&mut self, op: Op, w: u32, a: &Val, b: &Val) -> Result<Val, Ex> {
        if let (Val::I(x), Val::I(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let m = if w >= 64 { u64::MAX } else { (1u64 << w) - 1 };
            return Ok(Val::I(match op {
                Op::Add => x.wrapping_add(y) & m,
                Op::Sub => x.wrapping_sub(y) & m,
                Op::Mul => x.wrapping_mul(y) & m,
                Op::And => x & y,
                Op::Or => x | y,
                Op::Xor => x ^ y,
                Op::Shl => {
                    if y >= w as u64 {
                        0
                    } else {
                        (x << y) & m
                    }
                }
                Op::LShr => {
                    if y >= w as u64 {
                        0
                    } else {
                        x >> y
                    }
                }
                Op::UDiv | Op::URem | Op::SDiv | Op::SRem if y == 0 => {
                    return Err(Ex::Fault("arith", "division by zero".into()))
                }
                _ => fold(op, w, x as u128, y as u128) as u64,
            }));
        }
        if matches!(op, Op::UDiv | Op::URem | Op::SDiv | Op::SRem) {
            let y = self.to_e(b, w);
            let z = self.x.c(0, w);
            let nz = self.x.eq(y, z);
            if self.branch_here(nz) {
                return Err(Ex::Fault("arith", "division by zero".into()));
            }
        }
        let x = self.to_e(a, w);
        let y = self.to_e(b, w);
        let r = self.x.bin(op, x, y);
        Ok(self.from_e(r))
    }
    pub fn icmp(&mut self, p: Pred, w: u32, a: &Val, b: &Val) -> Val {
        let (q, swap, neg) = p.norm();
        let (a, b) = if swap { (b, a) } else { (a, b) };
        if let (Val::I(x), Val::I(y)) = (a, b) {
            let r = match q {
                P::Eq => x == y,
                P::Ult => x < y,
                P::Ule => x <= y,
                _ => foldcmp(q, w, *x as u128, *y as u128),
            };
            return Val::I((r != neg) as u64);
        }
        let x = self.to_e(a, w);
        let y = self.to_e(b, w);
        let mut r = self.x.cmp(q, x, y);
        if neg {
            r = self.x.not(r);
        }
        self.from_e(r)
    }
    pub fn f(&mut self, v: &Val, dbl: bool) -> f64 {
        let x = self.conc(v);
        if dbl {
            f64::from_bits(x)
        } else {
            f32::from_bits(x as u32) as f64
        }
    }
    pub fn unf(d: f64, dbl: bool) -> Val {
        Val::I(if dbl { d.to_bits() } else { (d as f32).to_bits() as u64 })
    }
    fn cast(&mut self, k: Cast, from: &Ty, to: &Ty, v: &Val) -> Val {
        let (fw, tw) = (from.bits(), to.bits());
        match k {
            Cast::Trunc => match v {
                Val::I(x) => Val::I(x & mask(tw) as u64),
                Val::W(x) => self.from_u(x & mask(tw), tw),
                Val::E(e) => {
                    let r = self.x.extract(*e, 0, tw);
                    self.from_e(r)
                }
                _ => panic!(),
            },
            Cast::ZExt => match v {
                Val::I(x) if tw <= 64 => Val::I(*x),
                Val::I(x) => Val::W(*x as u128),
                Val::W(x) => Val::W(*x),
                Val::E(e) => {
                    let r = self.x.zext(*e, tw);
                    self.from_e(r)
                }
                _ => panic!(),
            },
            Cast::SExt => match v {
                Val::I(x) => self.from_u(sx(*x as u128, fw) as u128 & mask(tw), tw),
                Val::W(x) => Val::W(sx(*x, fw) as u128 & mask(tw)),
                Val::E(e) => {
                    let r = self.x.sext(*e, tw);
                    self.from_e(r)
                }
                _ => panic!(),
            },
            Cast::Same => {
                if fw == tw {
                    v.clone()
                } else if fw > tw {
                    self.cast(Cast::Trunc, from, to, v)
                } else {
                    self.cast(Cast::ZExt, from, to, v)
                }
            }
            Cast::FpToUi => {
                let d = self.f(v, *from == Ty::F64);
                self.from_u((d as u128) & mask(tw), tw)
            }
            Cast::FpToSi => {
                let d = self.f(v, *from == Ty::F64);
                self.from_u((d as i128) as u128 & mask(tw), tw)
            }
            Cast::UiToFp => {
                let x = self.conc(v);
                if *to == Ty::F64 {
                    Val::I((x as f64).to_bits())
                } else {
                    Val::I((x as f32).to_bits() as u64)
                }
            }
            Cast::SiToFp => {
                let x = self.conc(v);
                let x = sx(x as u128, fw) as i64;
                if *to == Ty::F64 {
                    Val::I((x as f64).to_bits())
                } else {
                    Val::I((x as f32).to_bits() as u64)
                }
            }
            Cast::FpTrunc | Cast::FpExt => {
                let d = self.f(v, *from == Ty::F64);
                Self::unf(d, *to == Ty::F64)
            }
        }
    }
    pub fn sel(&mut self, ty: &Ty, c: &Val, a: &Val, b: &Val) -> Val {
        match c {
            Val::I(1) => return a.clone(),
            Val::I(_) => return b.clone(),
            _ => {}
        }
        let ce = self.to_e(c, 1);
        match ty {
            Ty::Agg(fs) => {
                if let (Val::A(x), Val::A(y)) = (a, b) {
                    let v = (0..fs.len()).map(|i| self.sel(&fs[i].1, c, &x[i], &y[i])).collect();
                    return Val::A(Rc::new(v));
                }
                panic!()
            }
            Ty::Vec(e, n) => {
                if let (Val::A(x), Val::A(y)) = (a, b) {
                    let v = (0..*n as usize).map(|i| self.sel(e, c, &x[i], &y[i])).collect();
                    return Val::A(Rc::new(v));
                }
                panic!()
            }
            t => {
                let w = t.bits();
                let x = self.to_e(a, w);
                let y = self.to_e(b, w);
                let r = self.x.ite(ce, x, y);
                self.from_e(r)
            }
        }
    }
    fn to_bits(&mut self, ty: &Ty, v: &Val) -> (E, u32) {
        match ty {
            Ty::Vec(e, n) => {
                let w = e.bits();
                let a = if let Val::A(a) = v { a.clone() } else { panic!() };
                let mut r = self.to_e(&a[0], w);
                for i in 1..*n as usize {
                    let h = self.to_e(&a[i], w);
                    r = self.x.concat(h, r);
                }
                (r, w * n)
            }
            t => (self.to_e(v, t.bits()), t.bits()),
        }
    }
    fn bitcast(&mut self, from: &Ty, to: &Ty, v: &Val) -> Val {
        if !matches!(from, Ty::Vec(..)) && !matches!(to, Ty::Vec(..)) {
            return v.clone();
        }
        let (e, _) = self.to_bits(from, v);
        match to {
            Ty::Vec(t, n) => {
                let w = t.bits();
                let l = (0..*n)
                    .map(|i| {
                        let r = self.x.extract(e, i * w, w);
                        self.from_e(r)
                    })
                    .collect();
                Val::A(Rc::new(l))
            }
            _ => self.from_e(e),
        }
    }

    // ------------------------------------------------------------ threads
    pub fn new_thread(&mut self, name: &str) -> usize {
        let errno = self.st.mem.alloc(8, Kind::Global, 0);
        self.st.threads.push(Thread {
            frames: vec![],
            st: TSt::Run,
            tls: Default::default(),
            dtors: vec![],
            errno,
            keys: Default::default(),
            skip_point: false,
            spin: 0,
            name: name.into(),
        });
        self.st.threads.len() - 1
    }
    pub fn push_call(&mut self, t: usize, fid: u32, args: &[Val], ret: u32) {
        let f = self.md.body(fid);
        let mut regs = vec![Val::I(0); f.nregs as usize];
        for (i, a) in args.iter().enumerate() {
            if i < f.nparams as usize {
                regs[i] = a.clone();
            }
        }
        self.st.threads[t].frames.push(Frame { f, pc: 0, regs, allocas: vec![], ret });
    }
    pub fn runnable(&self) -> Vec<usize> {
        (0..self.st.threads.len()).filter(|&i| self.st.threads[i].st == TSt::Run).collect()
    }
    pub fn finish_wait(&mut self, t: usize, timed_out: bool) {
        if let TSt::Futex { reg, .. } = self.st.threads[t].st {
            let fr = self.st.threads[t].frames.last_mut().unwrap();
            if timed_out {
                fr.regs[reg as usize] = Val::I(u64::MAX);
                let e = self.st.threads[t].errno;
                let _ = self.write_int(e, 4, &Val::I(110));
            } else {
                fr.regs[reg as usize] = Val::I(0);
            }
        }
        self.st.threads[t].st = TSt::Run;
    }
    /// pick the next thread to run
    pub fn schedule(&mut self) -> Result<(), Ex> {
        self.n.switches += 1;
        loop {
            let r = self.runnable();
            if r.is_empty() {
                // timeouts
                let mut best: Option<(u64, usize)> = None;
                for (i, t) in self.st.threads.iter().enumerate() {
                    let d = match t.st {
                        TSt::Futex { deadline: Some(d), .. } => d,
                        TSt::Sleep(d) => d,
                        _ => continue,
                    };
                    if best.map_or(true, |b| d < b.0) {
                        best = Some((d, i));
                    }
                }
                match best {
                    Some((d, i)) => {
                        self.st.clock = self.st.clock.max(d);
                        self.finish_wait(i, true);
                        continue;
                    }
                    None => return Err(Ex::Fault("deadlock", "all threads are blocked".into())),
                }
            }
            let cur = self.st.cur;
            let point = std::mem::take(&mut self.st.sched.at_point);
            // a thread that merely yields (spinning) gives way to the next one
            let free = self.st.sched.on && (self.st.in_sched || point || !matches!(self.st.threads[cur].st, TSt::Run));
            let q = self.st.sched.quiet;
            let loud: Vec<usize> = r.iter().copied().filter(|t| q.is_empty() || self.st.threads[*t].name != q).collect();
            let r = if loud.is_empty() || !self.st.sched.on { r } else { loud };
            if free && r.len() > 1 {
                // free choice; a state forked here resumes here
                let mut order: Vec<usize> = r.iter().copied().filter(|t| *t > cur).chain(r.iter().copied().filter(|t| *t < cur)).collect();
                if r.contains(&cur) {
                    order.insert(0, cur);
                }
                self.st.sched.at_point = point;
                self.st.in_sched = true;
                let k = self.delay_choice(order.len() as u64, "sched");
                self.st.in_sched = false;
                self.st.sched.at_point = false;
                self.st.cur = order[k as usize];
            } else {
                self.st.cur = *r.iter().find(|t| **t > cur).unwrap_or(&r[0]);
            }
            return Ok(());
        }
    }
    /// a choice of which all but the first one count as a delay
    pub fn delay_choice(&mut self, n: u64, why: &'static str) -> u64 {
        if self.st.sched.pbudget == 0 || !self.st.sched.open(self.st.pending.is_some()) {
            return 0;
        }
        let k = self.choose(n, why);
        self.st.sched.departed |= k > 0;
        if k > 0 && self.st.sched.pbudget != u32::MAX {
            self.st.sched.pbudget -= 1;
        }
        k
    }
    /// scheduling point before a synchronisation operation; true = switched away
    fn sync_point(&mut self) -> bool {
        if !self.st.sched.on {
            return false;
        }
        let cur = self.st.cur;
        if self.st.threads[cur].skip_point {
            self.st.threads[cur].skip_point = false;
            return false;
        }
        if self.st.sched.budget == 0 {
            return false;
        }
        let r = self.runnable();
        if r.len() < 2 {
            return false;
        }
        if self.st.sched.repo_only {
            let o = self.st.threads[cur].frames.iter().rev().map(|f| f.f.origin(f.pc)).find(|o| *o != Origin::Std);
            if o != Some(Origin::Repo) {
                return false;
            }
        }
        if !self.st.sched.open(self.st.pending.is_some()) {
            return false;
        }
        self.st.sched.points += 1;
        let others: Vec<usize> = r.into_iter().filter(|t| *t != cur).collect();
        let k = self.choose(others.len() as u64 + 1, "preempt");
        if k == 0 {
            return false;
        }
        self.st.sched.budget -= 1;
        self.st.sched.departed = true;
        self.st.threads[cur].skip_point = true;
        self.st.cur = others[k as usize - 1];
        self.n.switches += 1;
        true
    }

    // ------------------------------------------------------------ execution
    fn take_edge(fr: &mut Frame, e: &Edge) {
        match e.moves.len() {
            0 => {}
            1 => {
                let (d, s) = &e.moves[0];
                fr.regs[*d as usize] = Self::get(fr, s);
            }
            _ => {
                let vals: Vec<Val> = e.moves.iter().map(|(_, s)| Self::get(fr, s)).collect();
                for ((d, _), v) in e.moves.iter().zip(vals) {
                    fr.regs[*d as usize] = v;
                }
            }
        }
        fr.pc = e.to;
    }
    #[inline(always)]
    fn get(fr: &Frame, o: &Opnd) -> Val {
        match o {
            Opnd::Reg(r) => match &fr.regs[*r as usize] {
                Val::I(x) => Val::I(*x),
                v => v.clone(),
            },
            Opnd::I(x) => Val::I(*x),
            Opnd::C(v) => v.clone(),
        }
    }

    /// run until the current state ends
    pub fn run_state(&mut self) {
        loop {
            let r = if self.st.in_sched { Ok(()) } else { self.run_thread() };
            match r {
                Ok(()) => {
                    // switch requested
                    if let Err(e) = self.schedule() {
                        self.end(e);
                        return;
                    }
                }
                // a panic, or a hang that someone ends, is a process death like any other
                Err(Ex::Fault(k, l)) if self.st.panic_ok == 2 && (k == "panic" || k == "deadlock") => {
                    self.st.fault.log.push(format!("{}: {}", k, l));
                    *self.covers.entry(format!("(process died: {})", k)).or_insert(0) += 1;
                    if let Err(e) = crate::libc::reboot(self) {
                        self.end(e);
                        return;
                    }
                }
                Err(e) => {
                    self.end(e);
                    return;
                }
            }
        }
    }
    fn end(&mut self, e: Ex) {
        match e {
            Ex::End => {
                self.n.paths += 1;
                let cs = std::mem::take(&mut self.st.covers);
                for c in cs {
                    *self.covers.entry(c).or_insert(0) += 1;
                }
                if self.samples.len() < 3 {
                    let mut s = String::new();
                    for (n, es) in self.st.inputs.iter().take(24) {
                        let v: Vec<String> = es.iter().take(16).map(|e| format!("{:x}", self.eval(*e))).collect();
                        s.push_str(&format!("{}={} ", n, v.join("")));
                    }
                    for (n, v) in self.st.choices.iter().take(40) {
                        s.push_str(&format!("{}:{} ", n, v));
                    }
                    self.samples.push(s);
                }
            }
            Ex::Pruned => self.n.pruned += 1,
            Ex::Fault("panic", l) if self.st.panic_ok == 1 => {
                let _ = l;
                self.n.expected_panics += 1;
                self.n.paths += 1;
                *self.covers.entry("(expected panic)".into()).or_insert(0) += 1;
            }
            Ex::Fault("unsupported", l) => {
                let st = self.stack();
                self.incomplete.push(format!("unsupported: {} at {:?}", l, &st[..st.len().min(6)]));
                self.n.paths += 1;
            }
            Ex::Fault(k, l) => {
                self.violation(k, &l);
                self.n.paths += 1;
            }
        }
    }
    pub fn explore(&mut self) {
        self.mem_check = 0;
        loop {
            self.run_state();
            if self.viol.len() >= self.max_viol {
                self.incomplete.push("stopped: violation limit".into());
                break;
            }
            if self.n.paths + self.n.pruned >= self.max_paths {
                if !self.queue.is_empty() {
                    self.incomplete.push(format!("path limit {} reached", self.max_paths));
                }
                break;
            }
            if self.t0.elapsed().as_secs_f64() > self.time_limit {
                if !self.queue.is_empty() {
                    self.incomplete.push(format!("time limit reached with {} states left", self.queue.len()));
                }
                break;
            }
            self.n.max_states = self.n.max_states.max(self.queue.len() as u64);
            match self.queue.pop() {
                Some(s) => self.st = s,
                None => break,
            }
        }
    }

    /// Ok(()) = the thread must yield; Err = path end
    fn run_thread(&mut self) -> Result<(), Ex> {
        let slice_end = self.st.steps + 3_000_000;
        loop {
            let cur = self.st.cur;
            let fr: *mut Frame = match self.st.threads[cur].frames.last_mut() {
                Some(f) => f,
                None => {
                    // thread function returned: TLS destructors, then done
                    if let Some((f, o)) = self.st.threads[cur].dtors.pop() {
                        let fid = ((f - FN_BASE) / 16) as u32;
                        if self.md.fns[fid as usize].decl {
                            continue;
                        }
                        self.push_call(cur, fid, &[Val::I(o)], u32::MAX);
                        continue;
                    }
                    self.st.threads[cur].st = TSt::Done;
                    if cur == 0 {
                        return Err(Ex::End);
                    }
                    let tl: Vec<u64> = self.st.threads[cur].tls.values().copied().collect();
                    for a in tl {
                        self.st.mem.free_id((a >> 32) as u32);
                    }
                    for t in 0..self.st.threads.len() {
                        if self.st.threads[t].st == TSt::Join(cur) {
                            self.st.threads[t].st = TSt::Run;
                        }
                    }
                    return Ok(());
                }
            };
            // SAFETY: frames vector of the current thread is not touched while `fr` is used below
            let fr: &mut Frame = unsafe { &mut *fr };
            let func = fr.f;
            loop {
                let pc = fr.pc as usize;
                let inst = &func.code[pc];
                func.hit[pc].set(true);
                self.st.steps += 1;
                self.n.instrs += 1;
                match inst {
                    Inst::Bin { op, w, n, d, a, b } => {
                        let (x, y) = (Self::get(fr, a), Self::get(fr, b));
                        let r = if *n == 0 {
                            self.bin(*op, *w, &x, &y)?
                        } else {
                            let (x, y) = (lanes(&x), lanes(&y));
                            let mut v = vec![];
                            for i in 0..*n as usize {
                                v.push(self.bin(*op, *w, &x[i], &y[i])?);
                            }
                            Val::A(Rc::new(v))
                        };
                        fr.regs[*d as usize] = r;
                    }
                    Inst::Icmp { p, w, n, d, a, b } => {
                        let (x, y) = (Self::get(fr, a), Self::get(fr, b));
                        let r = if *n == 0 {
                            self.icmp(*p, *w, &x, &y)
                        } else {
                            let (x, y) = (lanes(&x), lanes(&y));
                            let v = (0..*n as usize).map(|i| self.icmp(*p, *w, &x[i], &y[i])).collect();
                            Val::A(Rc::new(v))
                        };
                        fr.regs[*d as usize] = r;
                    }
                    Inst::Load { ty, d, p, atomic } => {
                        if *atomic && self.st.sched.on && !self.st.sched.only_futex && self.sync_point() {
                            break;
                        }
                        let p = Self::get(fr, p);
                        let v = self.load(ty, &p)?;
                        fr.regs[*d as usize] = v;
                    }
                    Inst::Store { ty, v, p, atomic } => {
                        if *atomic && self.st.sched.on && !self.st.sched.only_futex && self.sync_point() {
                            break;
                        }
                        let p = Self::get(fr, p);
                        let a = self.conc(&p);
                        let v = Self::get(fr, v);
                        self.store(ty, &v, a)?;
                    }
                    Inst::Gep { d, base, off, idx } => {
                        let b = Self::get(fr, base);
                        let mut done = false;
                        if let Val::I(x) = b {
                            let mut a = x.wrapping_add(*off);
                            done = true;
                            for (o, s, w) in idx {
                                match Self::get(fr, o) {
                                    Val::I(i) => {
                                        let i = if *w < 64 { sx(i as u128, *w) as u64 } else { i };
                                        a = a.wrapping_add(i.wrapping_mul(*s));
                                    }
                                    _ => {
                                        done = false;
                                        break;
                                    }
                                }
                            }
                            if done {
                                fr.regs[*d as usize] = Val::I(a);
                            }
                        }
                        if !done {
                            if let Val::A(_) = b {
                                return Err(Ex::Fault("unsupported", "vector gep".into()));
                            }
                            let mut e = self.to_e(&b, 64);
                            let o = self.x.c(*off as u128, 64);
                            e = self.x.bin(Op::Add, e, o);
                            for (o, s, w) in idx {
                                let v = Self::get(fr, o);
                                let i = self.to_e(&v, *w);
                                let i = self.x.sext(i, 64);
                                let s = self.x.c(*s as u128, 64);
                                let m = self.x.bin(Op::Mul, i, s);
                                e = self.x.bin(Op::Add, e, m);
                            }
                            fr.regs[*d as usize] = self.from_e(e);
                        }
                    }
                    Inst::Br(e) => {
                        Self::take_edge(fr, e);
                        if self.st.steps & 0xffff == 0 {
                            break;
                        }
                        continue;
                    }
                    Inst::CondBr { c, t, f } => {
                        let v = Self::get(fr, c);
                        let side = match v {
                            Val::I(x) => x & 1 == 1,
                            Val::E(e) => {
                                let (side, sib) = self.split_on(e);
                                if let Some(mut s) = sib {
                                    let cur = s.cur;
                                    let sf = s.threads[cur].frames.last_mut().unwrap();
                                    Self::take_edge(sf, if side { f } else { t });
                                    self.queue.push(s);
                                }
                                side
                            }
                            _ => panic!(),
                        };
                        Self::take_edge(fr, if side { t } else { f });
                        if self.st.steps & 0xffff == 0 {
                            break;
                        }
                        continue;
                    }
                    Inst::Switch { v, w, cases, edges, default } => {
                        let val = Self::get(fr, v);
                        match val {
                            Val::E(e) => {
                                // group by edge
                                let cv = self.eval(e);
                                let mine = cases.iter().find(|c| c.0 == cv).map(|c| c.1).unwrap_or(*default);
                                let mut conds: BTreeMap<u32, E> = BTreeMap::new();
                                let mut none = self.x.tt();
                                for (k, ed) in cases {
                                    let kc = self.x.c(*k, *w);
                                    let eq = self.x.eq(e, kc);
                                    let ne = self.x.not(eq);
                                    none = self.x.and(none, ne);
                                    let c = conds.get(ed).copied();
                                    let c = match c {
                                        Some(c) => self.x.or(c, eq),
                                        None => eq,
                                    };
                                    conds.insert(*ed, c);
                                }
                                conds.insert(*default, none);
                                for (ed, c) in &conds {
                                    if *ed == mine {
                                        continue;
                                    }
                                    if self.x.as_const(*c) == Some(0) {
                                        continue;
                                    }
                                    match self.feasible(*c) {
                                        Ans::Sat(m) => {
                                            let mut sib = self.st.clone();
                                            Self::set_model(&mut sib, &m);
                                            Self::add_pc_to(&mut self.x, &mut sib, *c);
                                            sib.depth += 1;
                                            self.n.forks += 1;
                                            let cur = sib.cur;
                                            let sf = sib.threads[cur].frames.last_mut().unwrap();
                                            Self::take_edge(sf, &edges[*ed as usize]);
                                            self.queue.push(sib);
                                        }
                                        Ans::Unsat => {}
                                        Ans::Unknown => self.incomplete.push("solver: unknown in switch".into()),
                                    }
                                }
                                let c = conds[&mine];
                                self.add_pc(c);
                                Self::take_edge(fr, &edges[mine as usize]);
                            }
                            v => {
                                let cv = match v {
                                    Val::I(x) => x as u128,
                                    Val::W(x) => x,
                                    _ => panic!(),
                                };
                                let ed = cases.iter().find(|c| c.0 == cv).map(|c| c.1).unwrap_or(*default);
                                Self::take_edge(fr, &edges[ed as usize]);
                            }
                        }
                        continue;
                    }
                    Inst::Select { ty, c, vecc, a, b, d } => {
                        let c = Self::get(fr, c);
                        let (x, y) = (Self::get(fr, a), Self::get(fr, b));
                        let r = if *vecc {
                            let (c, x, y) = (lanes(&c), lanes(&x), lanes(&y));
                            let et = if let Ty::Vec(e, _) = ty { e } else { panic!() };
                            let v = (0..c.len()).map(|i| self.sel(et, &c[i], &x[i], &y[i])).collect();
                            Val::A(Rc::new(v))
                        } else {
                            self.sel(ty, &c, &x, &y)
                        };
                        fr.regs[*d as usize] = r;
                    }
                    Inst::Cast { k, from, to, n, d, a } => {
                        let v = Self::get(fr, a);
                        let r = if *n == 0 {
                            self.cast(*k, from, to, &v)
                        } else {
                            let l = lanes(&v);
                            let r = (0..*n as usize).map(|i| self.cast(*k, from, to, &l[i])).collect();
                            Val::A(Rc::new(r))
                        };
                        fr.regs[*d as usize] = r;
                    }
                    Inst::Bitcast { from, to, d, a } => {
                        let v = Self::get(fr, a);
                        let r = self.bitcast(from, to, &v);
                        fr.regs[*d as usize] = r;
                    }
                    Inst::Copy { d, a } => {
                        let v = Self::get(fr, a);
                        fr.regs[*d as usize] = v;
                    }
                    Inst::Alloca { size, align: _, n, d } => {
                        let n = Self::get(fr, n);
                        let n = self.conc(&n);
                        let a = self.st.mem.alloc(size * n, Kind::Stack, 0xA5);
                        fr.allocas.push((a >> 32) as u32);
                        fr.regs[*d as usize] = Val::I(a);
                    }
                    Inst::ExtractValue { d, a, path } => {
                        let mut v = Self::get(fr, a);
                        for i in path {
                            v = match v {
                                Val::A(l) => l[*i as usize].clone(),
                                _ => panic!("extractvalue"),
                            };
                        }
                        fr.regs[*d as usize] = v;
                    }
                    Inst::InsertValue { d, a, v, path } => {
                        let a = Self::get(fr, a);
                        let v = Self::get(fr, v);
                        fr.regs[*d as usize] = insert(&a, &v, path);
                    }
                    Inst::ExtractElem { d, a, i } => {
                        let a = Self::get(fr, a);
                        let i = Self::get(fr, i);
                        let i = self.conc(&i);
                        fr.regs[*d as usize] = lanes(&a)[i as usize].clone();
                    }
                    Inst::InsertElem { d, a, v, i } => {
                        let a = Self::get(fr, a);
                        let i = Self::get(fr, i);
                        let i = self.conc(&i);
                        let v = Self::get(fr, v);
                        let mut l = (*lanes(&a)).clone();
                        l[i as usize] = v;
                        fr.regs[*d as usize] = Val::A(Rc::new(l));
                    }
                    Inst::Shuffle { d, a, b, mask, n } => {
                        let (x, y) = (Self::get(fr, a), Self::get(fr, b));
                        let (x, y) = (lanes(&x), lanes(&y));
                        let v = mask
                            .iter()
                            .map(|m| {
                                if *m < 0 {
                                    Val::I(0)
                                } else if (*m as u32) < *n {
                                    x[*m as usize].clone()
                                } else {
                                    y[*m as usize - *n as usize].clone()
                                }
                            })
                            .collect();
                        fr.regs[*d as usize] = Val::A(Rc::new(v));
                    }
                    Inst::Fence => {}
                    Inst::CmpXchg { ty, d, p, c, n } => {
                        if self.st.sched.on && !self.st.sched.only_futex && self.sync_point() {
                            break;
                        }
                        let p = Self::get(fr, p);
                        let a = self.conc(&p);
                        let old = self.load_at(ty, a)?;
                        let c = Self::get(fr, c);
                        let nv = Self::get(fr, n);
                        let eq = self.icmp(Pred::Eq, ty.bits(), &old, &c);
                        let ok = match eq {
                            Val::I(x) => x == 1,
                            Val::E(e) => self.branch_here(e),
                            _ => panic!(),
                        };
                        if ok {
                            self.store(ty, &nv, a)?;
                        }
                        fr.regs[*d as usize] = Val::A(Rc::new(vec![old, Val::I(ok as u64)]));
                    }
                    Inst::Rmw { op, ty, d, p, v } => {
                        if self.st.sched.on && !self.st.sched.only_futex && self.sync_point() {
                            break;
                        }
                        let p = Self::get(fr, p);
                        let a = self.conc(&p);
                        let old = self.load_at(ty, a)?;
                        let v = Self::get(fr, v);
                        let w = ty.bits();
                        let r = match op {
                            0 => v,
                            1 => self.bin(Op::Add, w, &old, &v)?,
                            2 => self.bin(Op::Sub, w, &old, &v)?,
                            3 => self.bin(Op::And, w, &old, &v)?,
                            4 => {
                                let t = self.bin(Op::And, w, &old, &v)?;
                                let m = self.from_u(mask(w), w);
                                self.bin(Op::Xor, w, &t, &m)?
                            }
                            5 => self.bin(Op::Or, w, &old, &v)?,
                            6 => self.bin(Op::Xor, w, &old, &v)?,
                            7..=10 => {
                                let pr = match op {
                                    7 => Pred::Sgt,
                                    8 => Pred::Slt,
                                    9 => Pred::Ugt,
                                    _ => Pred::Ult,
                                };
                                let c = self.icmp(pr, w, &old, &v);
                                self.sel(ty, &c, &old, &v)
                            }
                            o => return Err(Ex::Fault("unsupported", format!("atomicrmw {}", o))),
                        };
                        self.store(ty, &r, a)?;
                        fr.regs[*d as usize] = old;
                    }
                    Inst::FBin { op, dbl, d, a, b } => {
                        let (x, y) = (Self::get(fr, a), Self::get(fr, b));
                        let r = if *dbl {
                            let (x, y) = (self.f(&x, true), self.f(&y, true));
                            Val::I(
                                match op {
                                    FOp::Add => x + y,
                                    FOp::Sub => x - y,
                                    FOp::Mul => x * y,
                                    FOp::Div => x / y,
                                    FOp::Rem => x % y,
                                }
                                .to_bits(),
                            )
                        } else {
                            let (x, y) = (self.conc(&x), self.conc(&y));
                            let (x, y) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                            Val::I(
                                match op {
                                    FOp::Add => x + y,
                                    FOp::Sub => x - y,
                                    FOp::Mul => x * y,
                                    FOp::Div => x / y,
                                    FOp::Rem => x % y,
                                }
                                .to_bits() as u64,
                            )
                        };
                        fr.regs[*d as usize] = r;
                    }
                    Inst::FNeg { dbl, d, a } => {
                        let x = Self::get(fr, a);
                        let x = self.f(&x, *dbl);
                        fr.regs[*d as usize] = Self::unf(-x, *dbl);
                    }
                    Inst::Fcmp { p, dbl, d, a, b } => {
                        let (x, y) = (Self::get(fr, a), Self::get(fr, b));
                        let (x, y) = (self.f(&x, *dbl), self.f(&y, *dbl));
                        let un = x.is_nan() || y.is_nan();
                        let (e, g, l) = (x == y, x > y, x < y);
                        let r = ((p & 1 != 0) && e) || ((p & 2 != 0) && g) || ((p & 4 != 0) && l) || ((p & 8 != 0) && un);
                        fr.regs[*d as usize] = Val::I(r as u64);
                    }
                    Inst::Call { f, args, d, rty, w } => {
                        let fid = match f {
                            Callee::Fn(i) => *i,
                            Callee::Ind(o) => {
                                let v = Self::get(fr, o);
                                let a = self.conc(&v);
                                if a < FN_BASE || (a - FN_BASE) / 16 >= self.md.fns.len() as u64 {
                                    return Err(Ex::Fault("memory", format!("call of a non-function {:#x}", a)));
                                }
                                ((a - FN_BASE) / 16) as u32
                            }
                        };
                        let hk = self.hook[fid as usize];
                        if hk != 0 {
                            let av: Vec<Val> = args.iter().map(|a| Self::get(fr, a)).collect();
                            return Err(self.panic_hook(hk, &av));
                        }
                        if let Some(e) = self.ext[fid as usize] {
                            let is_sync = self.hook_sync(fid);
                            if is_sync && self.st.sched.on && self.sync_point() {
                                break;
                            }
                            let av: Vec<Val> = args.iter().map(|a| Self::get(fr, a)).collect();
                            self.cur_d = *d;
                            let r = e(self, &av, *w)?;
                            // the handler may have replaced the stack (reboot)
                            let cur2 = self.st.cur;
                            let fr2 = self.st.threads[cur2].frames.last_mut().unwrap();
                            if let Some(v) = r {
                                if *rty != Ty::Void {
                                    fr2.regs[*d as usize] = v;
                                }
                            }
                            fr2.pc += 1;
                            if self.need_switch {
                                self.need_switch = false;
                                return Ok(());
                            }
                            if !std::ptr::eq(fr2, fr) {
                                break;
                            }
                            continue;
                        }
                        if self.md.fns[fid as usize].decl {
                            return Err(Ex::Fault("unsupported", format!("external function {}", self.md.fns[fid as usize].name)));
                        }
                        if self.st.threads[cur].frames.len() > 4000 {
                            return Err(Ex::Fault("stack", "stack overflow (call depth > 4000)".into()));
                        }
                        let av: Vec<Val> = args.iter().map(|a| Self::get(fr, a)).collect();
                        fr.pc += 1;
                        self.push_call(cur, fid, &av, *d);
                        if self.tracefn {
                            eprintln!("{}{}", " ".repeat(self.st.threads[cur].frames.len()), self.md.fns[fid as usize].name);
                        }
                        break;
                    }
                    Inst::Ret(v) => {
                        let rv = v.as_ref().map(|o| Self::get(fr, o));
                        let done = self.st.threads[cur].frames.pop().unwrap();
                        for id in done.allocas {
                            self.st.mem.free_id(id);
                        }
                        if let Some(p) = self.st.threads[cur].frames.last_mut() {
                            if let Some(v) = rv {
                                if done.ret != u32::MAX {
                                    p.regs[done.ret as usize] = v;
                                }
                            }
                        }
                        break;
                    }
                    Inst::Unreachable => {
                        return Err(Ex::Fault("unreachable", "executed `unreachable` (undefined behaviour)".into()))
                    }
                }
                fr.pc += 1;
            }
            if self.st.steps > self.st.mark + self.max_steps {
                return Err(Ex::Fault("hang", format!("no termination within {} instructions", self.max_steps)));
            }
            if self.n.instrs > self.mem_check {
                self.mem_check = self.n.instrs + 2_000_000;
                if rss_mb() > self.mem_limit {
                    self.incomplete.push("memory limit reached".into());
                    self.time_limit = 0.0;
                    return Err(Ex::Pruned);
                }
            }
            if self.n.instrs & 0xff == 0 && self.t0.elapsed().as_secs_f64() > self.time_limit * 1.1 + 5.0 {
                self.incomplete.push("time limit reached inside a path".into());
                return Err(Ex::Pruned);
            }
            if self.st.steps > slice_end && self.st.threads.len() > 1 {
                return Ok(());
            }
        }
    }
    fn hook_sync(&self, fid: u32) -> bool {
        self.md.fns[fid as usize].name == "syscall"
    }
    fn panic_hook(&mut self, _k: u8, args: &[Val]) -> Ex {
        // last argument: &Location { file: &str, line: u32, col: u32 }
        let mut msg = String::from("panic");
        if let Some(Val::I(l)) = args.last() {
            let g = |s: &mut Self, o: u64, n: usize| match s.read_int(l + o, n) {
                Ok(Val::I(x)) => x,
                _ => 0,
            };
            let p = g(self, 0, 8);
            let n = g(self, 8, 8);
            let line = g(self, 16, 4);
            if n < 4096 {
                if let Ok(b) = self.read_bytes(p, n as usize) {
                    let mut s = String::from_utf8_lossy(&b.data).into_owned();
                    s = s.trim_end_matches('\0').to_string();
                    msg = format!("panic at {}:{}", s, line);
                }
            }
        }
        // innermost frame in the code under test, for panics raised inside std
        for s in self.stack() {
            if let Some(i) = s.find("/repo/src/") {
                let t = s[i..].trim_end_matches(')');
                if !msg.contains("/repo/src") {
                    msg = format!("{} (from {})", msg, t);
                }
                break;
            }
        }
        Ex::Fault("panic", msg)
    }
}

pub fn lanes(v: &Val) -> Rc<Vec<Val>> {
    match v {
        Val::A(a) => a.clone(),
        _ => panic!("not a vector: {:?}", v),
    }
}
fn insert(a: &Val, v: &Val, path: &[u32]) -> Val {
    if path.is_empty() {
        return v.clone();
    }
    match a {
        Val::A(l) => {
            let mut l2 = (**l).clone();
            l2[path[0] as usize] = insert(&l[path[0] as usize], v, &path[1..]);
            Val::A(Rc::new(l2))
        }
        _ => panic!("insertvalue"),
    }
}
