//! Hash-consed bit-vector expression DAG with a simplifier.
//! Widths 1..=128.  Booleans are width-1 vectors.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};
use std::rc::Rc;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum P {
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Const(u128),
    Var(u32),
    Bin(Op, E, E),
    Cmp(P, E, E),
    Ite(E, E, E),
    Extract(E, u32),
    Concat(E, E), // hi, lo
    SExt(E),
    /// GF(2)-affine form: const ^ XOR_i (bit_i ? col_i : 0); bit_i are width-1.
    Lin(u128, Rc<Vec<(E, u128)>>),
}

#[derive(Default, Clone, Copy)]
pub struct FxH(u64);
impl Hasher for FxH {
    #[inline]
    fn finish(&self) -> u64 {
        self.0
    }
    #[inline]
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut v = [0u8; 8];
            v[..c.len()].copy_from_slice(c);
            self.write_u64(u64::from_le_bytes(v));
        }
    }
    #[inline]
    fn write_u64(&mut self, v: u64) {
        self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517cc1b727220a95);
    }
    #[inline]
    fn write_u32(&mut self, v: u32) {
        self.write_u64(v as u64)
    }
    #[inline]
    fn write_u8(&mut self, v: u8) {
        self.write_u64(v as u64)
    }
    #[inline]
    fn write_usize(&mut self, v: usize) {
        self.write_u64(v as u64)
    }
    #[inline]
    fn write_u128(&mut self, v: u128) {
        self.write_u64(v as u64);
        self.write_u64((v >> 64) as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<FxH>>;
pub type FxSet<K> = std::collections::HashSet<K, BuildHasherDefault<FxH>>;

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sx(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

pub struct Ctx {
    pub nodes: Vec<Node>,
    pub width: Vec<u32>,
    tab: FxMap<(Node, u32), E>,
    pub var_names: Vec<String>,
    umax: Vec<u128>,
    umin: Vec<u128>,
    pub vars: Vec<Option<Rc<Vec<u32>>>>,
    memo: FxMap<(u8, E, E, E), E>,
}

pub fn fold(op: Op, w: u32, a: u128, b: u128) -> u128 {
    let m = mask(w);
    let r = match op {
        Op::Add => a.wrapping_add(b),
        Op::Sub => a.wrapping_sub(b),
        Op::Mul => a.wrapping_mul(b),
        // SMT-LIB semantics for zero divisors (paths with a zero divisor are errors anyway)
        Op::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 {
                if x >= 0 {
                    m
                } else {
                    1
                }
            } else {
                x.wrapping_div(y) as u128
            }
        }
        Op::SRem => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 {
                a
            } else {
                x.wrapping_rem(y) as u128
            }
        }
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                a << b
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let s = if b >= w as u128 { w - 1 } else { b as u32 };
            (sx(a, w) >> s.min(127)) as u128
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
    };
    r & m
}
pub fn foldcmp(p: P, w: u32, a: u128, b: u128) -> bool {
    match p {
        P::Eq => a == b,
        P::Ult => a < b,
        P::Ule => a <= b,
        P::Slt => sx(a, w) < sx(b, w),
        P::Sle => sx(a, w) <= sx(b, w),
    }
}

impl Ctx {
    pub fn new() -> Self {
        Ctx {
            nodes: vec![],
            width: vec![],
            tab: Default::default(),
            var_names: vec![],
            umax: vec![],
            umin: vec![],
            vars: vec![],
            memo: Default::default(),
        }
    }
    #[inline]
    pub fn w(&self, e: E) -> u32 {
        self.width[e as usize]
    }
    #[inline]
    pub fn n(&self, e: E) -> &Node {
        &self.nodes[e as usize]
    }
    #[inline]
    pub fn as_const(&self, e: E) -> Option<u128> {
        if let Node::Const(c) = self.nodes[e as usize] {
            Some(c)
        } else {
            None
        }
    }
    fn mk(&mut self, n: Node, w: u32) -> E {
        debug_assert!(w >= 1 && w <= 128);
        if let Some(&e) = self.tab.get(&(n.clone(), w)) {
            return e;
        }
        let m = mask(w);
        let (umin, umax) = match &n {
            Node::Const(c) => (*c, *c),
            Node::Concat(h, l) => {
                let lw = self.w(*l);
                (
                    (self.umin[*h as usize] << lw) | self.umin[*l as usize],
                    (self.umax[*h as usize] << lw) | self.umax[*l as usize],
                )
            }
            Node::Ite(_, a, b) => (
                self.umin[*a as usize].min(self.umin[*b as usize]),
                self.umax[*a as usize].max(self.umax[*b as usize]),
            ),
            Node::Bin(op, a, b) => {
                let (al, ah) = (self.umin[*a as usize], self.umax[*a as usize]);
                let (bl, bh) = (self.umin[*b as usize], self.umax[*b as usize]);
                match op {
                    Op::Add => {
                        match ah.checked_add(bh) {
                            Some(s) if s <= m => (al + bl, s),
                            _ => (0, m),
                        }
                    }
                    Op::Sub => {
                        if al >= bh {
                            (al - bh, ah - bl)
                        } else {
                            (0, m)
                        }
                    }
                    Op::Mul => match ah.checked_mul(bh) {
                        Some(s) if s <= m => (al * bl, s),
                        _ => (0, m),
                    },
                    Op::And => (0, ah.min(bh)),
                    Op::Or | Op::Xor => {
                        let top = 128 - (ah | bh).leading_zeros();
                        (if *op == Op::Or { al.max(bl) } else { 0 }, mask(top.max(1)) & m)
                    }
                    Op::UDiv => {
                        if bl > 0 {
                            (al / bh, ah / bl)
                        } else {
                            (0, m)
                        }
                    }
                    Op::URem => {
                        if bl > 0 {
                            (0, (bh - 1).min(ah))
                        } else {
                            (0, m)
                        }
                    }
                    Op::LShr => (0, ah),
                    _ => (0, m),
                }
            }
            Node::Extract(x, 0) => {
                let xm = self.umax[*x as usize];
                if xm <= m {
                    (self.umin[*x as usize], xm)
                } else {
                    (0, m)
                }
            }
            Node::Lin(c, t) => {
                let all = t.iter().fold(*c, |a, x| a | x.1);
                let low = t.iter().fold(*c, |a, x| a & !x.1);
                (low & m, all & m)
            }
            Node::Extract(x, lo) => (0, (self.umax[*x as usize] >> lo).min(m)),
            _ => (0, m),
        };
        let id = self.nodes.len() as E;
        self.nodes.push(n.clone());
        self.width.push(w);
        self.umin.push(umin);
        self.umax.push(umax);
        self.vars.push(None);
        self.tab.insert((n, w), id);
        id
    }
    pub fn c(&mut self, v: u128, w: u32) -> E {
        self.mk(Node::Const(v & mask(w)), w)
    }
    pub fn fresh(&mut self, name: &str, w: u32) -> E {
        let id = self.var_names.len() as u32;
        self.var_names.push(name.to_string());
        self.mk(Node::Var(id), w)
    }
    pub fn tt(&mut self) -> E {
        self.c(1, 1)
    }
    pub fn ff(&mut self) -> E {
        self.c(0, 1)
    }
    pub fn umax(&self, e: E) -> u128 {
        self.umax[e as usize]
    }
    pub fn umin(&self, e: E) -> u128 {
        self.umin[e as usize]
    }

    /// variables occurring in e (sorted)
    pub fn vars_of(&mut self, e: E) -> Rc<Vec<u32>> {
        if let Some(v) = &self.vars[e as usize] {
            return v.clone();
        }
        // iterative post-order
        let mut stack = vec![(e, false)];
        while let Some((x, done)) = stack.pop() {
            if self.vars[x as usize].is_some() {
                continue;
            }
            let mut kids: Vec<E> = vec![];
            let mut own = vec![];
            match &self.nodes[x as usize] {
                Node::Const(_) => {}
                Node::Var(v) => own.push(*v),
                Node::Bin(_, a, b) | Node::Cmp(_, a, b) | Node::Concat(a, b) => {
                    kids.push(*a);
                    kids.push(*b)
                }
                Node::Ite(a, b, c) => {
                    kids.push(*a);
                    kids.push(*b);
                    kids.push(*c)
                }
                Node::Extract(a, _) | Node::SExt(a) => kids.push(*a),
                Node::Lin(_, t) => kids.extend(t.iter().map(|x| x.0)),
            }
            if !done {
                stack.push((x, true));
                for k in kids {
                    if self.vars[k as usize].is_none() {
                        stack.push((k, false));
                    }
                }
            } else {
                let r = if kids.len() == 1 && own.is_empty() {
                    self.vars[kids[0] as usize].clone().unwrap()
                } else {
                    let mut s: Vec<u32> = own;
                    for k in &kids {
                        s.extend(self.vars[*k as usize].as_ref().unwrap().iter());
                    }
                    s.sort_unstable();
                    s.dedup();
                    // share
                    let mut res = None;
                    for k in &kids {
                        let kv = self.vars[*k as usize].as_ref().unwrap();
                        if **kv == s {
                            res = Some(kv.clone());
                            break;
                        }
                    }
                    res.unwrap_or_else(|| Rc::new(s))
                };
                self.vars[x as usize] = Some(r);
            }
        }
        self.vars[e as usize].clone().unwrap()
    }

    // ---------------------------------------------------------------- structure
    fn pieces(&self, e: E, out: &mut Vec<E>) {
        // low to high
        let mut cur = vec![e];
        while let Some(x) = cur.pop() {
            if let Node::Concat(h, l) = self.nodes[x as usize] {
                cur.push(h);
                cur.push(l);
            } else {
                out.push(x);
            }
        }
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let (wh, wl) = (self.w(h), self.w(l));
        let w = wh + wl;
        assert!(w <= 128, "concat too wide");
        if let (Some(a), Some(b)) = (self.as_const(h), self.as_const(l)) {
            return self.c((a << wl) | b, w);
        }
        // normalise: right-leaning on low side: Concat(h, l) with h not Concat
        if let Node::Concat(hh, hl) = self.nodes[h as usize] {
            let low = self.concat(hl, l);
            return self.concat(hh, low);
        }
        // h atomic; try to merge with the top piece of l
        let (ltop, lrest) = if let Node::Concat(a, b) = self.nodes[l as usize] {
            (a, Some(b))
        } else {
            (l, None)
        };
        let merged = self.merge_adjacent(h, ltop);
        if let Some(m) = merged {
            return match lrest {
                None => m,
                Some(r) => self.concat(m, r),
            };
        }
        self.mk(Node::Concat(h, l), w)
    }
    fn merge_adjacent(&mut self, h: E, l: E) -> Option<E> {
        let (wh, wl) = (self.w(h), self.w(l));
        match (self.n(h).clone(), self.n(l).clone()) {
            (Node::Const(a), Node::Const(b)) => Some(self.c((a << wl) | b, wh + wl)),
            (Node::Extract(x, lo1), Node::Extract(y, lo2)) if x == y && lo1 == lo2 + wl => {
                Some(self.extract(x, lo2, wh + wl))
            }
            (Node::Ite(c1, a1, b1), Node::Ite(c2, a2, b2)) if c1 == c2 => {
                let leaf = |s: &Self, e: E| !matches!(s.n(e), Node::Bin(..) | Node::Ite(..));
                if leaf(self, a1) && leaf(self, a2) && leaf(self, b1) && leaf(self, b2) {
                    let a = self.concat(a1, a2);
                    let b = self.concat(b1, b2);
                    Some(self.ite(c1, a, b))
                } else {
                    None
                }
            }
            (Node::Lin(..), _) | (_, Node::Lin(..)) => {
                // merge linear pieces when both linear-able
                let a = self.try_lin(h, 0)?;
                let b = self.try_lin(l, 0)?;
                let w = wh + wl;
                if w > 128 {
                    return None;
                }
                let mut terms: Vec<(E, u128)> = a.1.iter().map(|(e, c)| (*e, c << wl)).collect();
                terms.extend(b.1.iter().cloned());
                Some(self.mk_lin((a.0 << wl) | b.0, terms, w))
            }
            _ => None,
        }
    }
    pub fn zext(&mut self, e: E, w: u32) -> E {
        let we = self.w(e);
        if we == w {
            return e;
        }
        let z = self.c(0, w - we);
        self.concat(z, e)
    }
    pub fn sext(&mut self, e: E, w: u32) -> E {
        let we = self.w(e);
        if we == w {
            return e;
        }
        if let Some(c) = self.as_const(e) {
            return self.c(sx(c, we) as u128, w);
        }
        if self.umax(e) < 1u128 << (we - 1) {
            return self.zext(e, w);
        }
        match *self.n(e) {
            Node::SExt(x) => return self.mk(Node::SExt(x), w),
            Node::Ite(c, a, b) if self.as_const(a).is_some() && self.as_const(b).is_some() => {
                let a = self.sext(a, w);
                let b = self.sext(b, w);
                return self.ite(c, a, b);
            }
            _ => {}
        }
        if we == 1 {
            let a = self.c(u128::MAX, w);
            let b = self.c(0, w);
            return self.ite(e, a, b);
        }
        self.mk(Node::SExt(e), w)
    }
    pub fn extract(&mut self, e: E, lo: u32, w: u32) -> E {
        if matches!(self.nodes[e as usize], Node::Bin(..) | Node::Ite(..) | Node::Lin(..)) {
            if let Some(r) = self.memo.get(&(0, e, lo, w)) {
                return *r;
            }
            let r = self.extract0(e, lo, w);
            self.memo.insert((0, e, lo, w), r);
            return r;
        }
        self.extract0(e, lo, w)
    }
    fn extract0(&mut self, e: E, lo: u32, w: u32) -> E {
        let we = self.w(e);
        debug_assert!(lo + w <= we);
        if lo == 0 && w == we {
            return e;
        }
        if let Some(c) = self.as_const(e) {
            return self.c(c >> lo, w);
        }
        if self.umax(e) >> lo == 0 {
            return self.c(0, w);
        }
        match self.n(e).clone() {
            Node::Concat(h, l) => {
                let wl = self.w(l);
                if lo >= wl {
                    return self.extract(h, lo - wl, w);
                }
                if lo + w <= wl {
                    return self.extract(l, lo, w);
                }
                let lw = wl - lo;
                let a = self.extract(l, lo, lw);
                let b = self.extract(h, 0, w - lw);
                return self.concat(b, a);
            }
            Node::Extract(x, lo2) => return self.extract(x, lo + lo2, w),
            Node::SExt(x) => {
                let wx = self.w(x);
                if lo + w <= wx {
                    return self.extract(x, lo, w);
                }
                if lo < wx {
                    let low = self.extract(x, lo, wx - lo);
                    return self.sext(low, w);
                }
                let s = self.extract(x, wx - 1, 1);
                return self.sext(s, w);
            }
            Node::Ite(c, a, b) => {
                let ca = !matches!(self.n(a), Node::Bin(..) | Node::Var(_));
                let cb = !matches!(self.n(b), Node::Bin(..) | Node::Var(_));
                if ca || cb {
                    let a = self.extract(a, lo, w);
                    let b = self.extract(b, lo, w);
                    return self.ite(c, a, b);
                }
            }
            Node::Bin(op @ (Op::And | Op::Or | Op::Xor), a, b) => {
                let a = self.extract(a, lo, w);
                let b = self.extract(b, lo, w);
                return self.bin(op, a, b);
            }
            Node::Bin(op @ (Op::Add | Op::Sub | Op::Mul), a, b) if lo == 0 => {
                let a = self.extract(a, 0, w);
                let b = self.extract(b, 0, w);
                return self.bin(op, a, b);
            }
            Node::Lin(c, t) => {
                let m = mask(w);
                let terms: Vec<(E, u128)> = t.iter().map(|(e, k)| (*e, (k >> lo) & m)).collect();
                return self.mk_lin((c >> lo) & m, terms, w);
            }
            _ => {}
        }
        self.mk(Node::Extract(e, lo), w)
    }

    // ---------------------------------------------------------------- GF(2) affine
    /// Normalising constructor
    pub fn mk_lin(&mut self, c: u128, mut terms: Vec<(E, u128)>, w: u32) -> E {
        terms.retain(|t| t.1 != 0);
        terms.sort_by_key(|t| t.0);
        let mut out: Vec<(E, u128)> = Vec::with_capacity(terms.len());
        for t in terms {
            if let Some(l) = out.last_mut() {
                if l.0 == t.0 {
                    l.1 ^= t.1;
                    continue;
                }
            }
            if let Some(l) = out.last() {
                if l.1 == 0 {
                    out.pop();
                }
            }
            out.push(t);
        }
        out.retain(|t| t.1 != 0);
        if out.is_empty() {
            return self.c(c, w);
        }
        if out.len() == 1 && w == 1 {
            let b = out[0].0;
            return if c & 1 == 0 { b } else { self.not(b) };
        }
        self.mk(Node::Lin(c, Rc::new(out)), w)
    }
    /// (const, [(bit, column)]) if e is recognisably affine with few terms.
    fn try_lin(&mut self, e: E, depth: u32) -> Option<(u128, Vec<(E, u128)>)> {
        if depth > 40 {
            return None;
        }
        let w = self.w(e);
        match self.n(e).clone() {
            Node::Const(c) => Some((c, vec![])),
            Node::Lin(c, t) => Some((c, (*t).clone())),
            Node::Concat(h, l) => {
                let wl = self.w(l);
                let (ch, th) = self.try_lin(h, depth + 1)?;
                let (cl, mut tl) = self.try_lin(l, depth + 1)?;
                tl.extend(th.into_iter().map(|(b, k)| (b, k << wl)));
                Some(((ch << wl) | cl, tl))
            }
            Node::Bin(Op::Xor, a, b) => {
                let (ca, mut ta) = self.try_lin(a, depth + 1)?;
                let (cb, tb) = self.try_lin(b, depth + 1)?;
                ta.extend(tb);
                Some((ca ^ cb, ta))
            }
            Node::Bin(Op::And, a, b) if w > 1 => {
                let (x, m) = if let Some(m) = self.as_const(b) {
                    (a, m)
                } else {
                    return None;
                };
                let (c, t) = self.try_lin(x, depth + 1)?;
                Some((c & m, t.into_iter().map(|(e, k)| (e, k & m)).collect()))
            }
            Node::Ite(c, a, b) => {
                if let (Some(ka), Some(kb)) = (self.as_const(a), self.as_const(b)) {
                    Some((kb, vec![(c, ka ^ kb)]))
                } else if w == 1 {
                    Some((0, vec![(e, 1)]))
                } else {
                    self.bits_of(e)
                }
            }
            _ => self.bits_of(e),
        }
    }
    fn bits_of(&mut self, e: E) -> Option<(u128, Vec<(E, u128)>)> {
        let w = self.w(e);
        if w == 1 {
            return Some((0, vec![(e, 1)]));
        }
        let mut t = vec![];
        for i in 0..w {
            let b = self.extract(e, i, 1);
            match self.as_const(b) {
                Some(1) => return None,
                Some(_) => {}
                None => t.push((b, 1u128 << i)),
            }
        }
        Some((0, t))
    }
    /// Table lookup with an affine table (T[a]^T[b]^T[0] == T[a^b]); None if not affine.
    pub fn lin_table(&mut self, table: &[u128], idx: E, w: u32) -> Option<E> {
        let iw = self.w(idx);
        if table.len() != 1usize << iw {
            return None;
        }
        let t0 = table[0];
        for (i, v) in table.iter().enumerate() {
            let mut x = t0;
            for b in 0..iw {
                if i >> b & 1 == 1 {
                    x ^= table[1 << b] ^ t0;
                }
            }
            if x != *v {
                return None;
            }
        }
        let (c, t) = self.try_lin(idx, 0)?;
        let ap = |k: u128| {
            let mut x = 0;
            for b in 0..iw {
                if k >> b & 1 == 1 {
                    x ^= table[1 << b] ^ t0;
                }
            }
            x
        };
        let terms: Vec<(E, u128)> = t.into_iter().map(|(e, k)| (e, ap(k))).collect();
        Some(self.mk_lin(ap(c) ^ t0, terms, w))
    }
    /// mux tree over the bits of idx
    pub fn mux_table(&mut self, table: &[E], idx: E) -> E {
        let iw = self.w(idx);
        let mut cur: Vec<E> = table.to_vec();
        for b in 0..iw {
            let bit = self.extract(idx, b, 1);
            let mut nx = vec![];
            let mut i = 0;
            while i < cur.len() {
                let lo = cur[i];
                let hi = if i + 1 < cur.len() { cur[i + 1] } else { lo };
                nx.push(self.ite(bit, hi, lo));
                i += 2;
            }
            cur = nx;
            if cur.len() == 1 && b + 1 < iw {
                // out of table indices are excluded by the caller
                break;
            }
        }
        cur[0]
    }

    // ---------------------------------------------------------------- operators
    pub fn not(&mut self, e: E) -> E {
        let o = self.c(1, 1);
        self.bin(Op::Xor, e, o)
    }
    pub fn and(&mut self, a: E, b: E) -> E {
        self.bin(Op::And, a, b)
    }
    pub fn or(&mut self, a: E, b: E) -> E {
        self.bin(Op::Or, a, b)
    }
    pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
        let cc = |s: &Self, e: E| matches!(s.nodes[e as usize], Node::Const(_));
        if cc(self, a) && cc(self, b) {
            return self.bin0(op, a, b);
        }
        if let Some(r) = self.memo.get(&(16 + op as u8, a, b, 0)) {
            return *r;
        }
        let r = self.bin0(op, a, b);
        self.memo.insert((16 + op as u8, a, b, 0), r);
        r
    }
    fn bin0(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", op);
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.c(fold(op, w, x, y), w);
        }
        use Op::*;
        // commutative: constant on the right, otherwise ordered
        let (a, b, ca, cb) = match op {
            Add | Mul | And | Or | Xor => {
                if ca.is_some() || (cb.is_none() && a > b) {
                    (b, a, cb, ca)
                } else {
                    (a, b, ca, cb)
                }
            }
            _ => (a, b, ca, cb),
        };
        let m = mask(w);
        if a == b {
            match op {
                Sub | Xor => return self.c(0, w),
                And | Or => return a,
                _ => {}
            }
        }
        if w == 1 {
            match op {
                Add | Sub => return self.bin(Xor, a, b),
                Mul => return self.bin(And, a, b),
                _ => {}
            }
        }
        match (op, cb) {
            (Add | Sub | Or | Xor | Shl | LShr | AShr, Some(0)) => return a,
            (And | Mul, Some(0)) => return self.c(0, w),
            (And, Some(k)) if k == m => return a,
            (Or, Some(k)) if k == m => return self.c(m, w),
            (Mul | UDiv | SDiv, Some(1)) if w > 1 => return a,
            (URem, Some(1)) => return self.c(0, w),
            _ => {}
        }
        match (op, ca) {
            (Shl | LShr | UDiv | URem, Some(0)) => return self.c(0, w),
            _ => {}
        }
        if let Some(k) = cb {
            match op {
                Sub => {
                    let nk = self.c(k.wrapping_neg(), w);
                    return self.bin(Add, a, nk);
                }
                Mul if k.is_power_of_two() => {
                    let s = self.c(k.trailing_zeros() as u128, w);
                    return self.bin(Shl, a, s);
                }
                UDiv if k.is_power_of_two() => {
                    let s = self.c(k.trailing_zeros() as u128, w);
                    return self.bin(LShr, a, s);
                }
                URem if k.is_power_of_two() => {
                    let s = self.c(k - 1, w);
                    return self.bin(And, a, s);
                }
                Shl => {
                    if k >= w as u128 {
                        return self.c(0, w);
                    }
                    let k = k as u32;
                    let x = self.extract(a, 0, w - k);
                    let z = self.c(0, k);
                    return self.concat(x, z);
                }
                LShr => {
                    if k >= w as u128 {
                        return self.c(0, w);
                    }
                    let k = k as u32;
                    let x = self.extract(a, k, w - k);
                    let z = self.c(0, k);
                    return self.concat(z, x);
                }
                AShr => {
                    let k = (k as u32).min(w - 1);
                    let x = self.extract(a, k, w - k);
                    return self.sext(x, w);
                }
                _ => {}
            }
            // op(op(x,k1),k2)
            if let Node::Bin(o2, x, y) = *self.n(a) {
                if let Some(k1) = self.as_const(y) {
                    if o2 == op && matches!(op, Add | Mul | And | Or | Xor) {
                        let k = self.c(fold(op, w, k1, k), w);
                        return self.bin(op, x, k);
                    }
                }
            }
            if let Node::Ite(c, x, y) = *self.n(a) {
                if self.as_const(x).is_some() || self.as_const(y).is_some() {
                    if self.as_const(x).is_some() && self.as_const(y).is_some() {
                        let x = self.bin(op, x, b);
                        let y = self.bin(op, y, b);
                        return self.ite(c, x, y);
                    }
                }
            }
            if op == Add {
                // zero-low-bits concat + small const: handled by solver
                if let Node::Concat(h, l) = *self.n(a) {
                    let wl = self.w(l);
                    if k & mask(wl) == 0 {
                        let kh = self.c(k >> wl, w - wl);
                        let nh = self.bin(Add, h, kh);
                        return self.concat(nh, l);
                    }
                    if k >> wl == 0 && self.as_const(l) == Some(0) {
                        let kl = self.c(k, wl);
                        return self.concat(h, kl);
                    }
                    if k >> wl == 0 && self.umax(l) + k <= mask(wl) {
                        let kl = self.c(k, wl);
                        let nl = self.bin(Add, l, kl);
                        return self.concat(h, nl);
                    }
                }
            }
        }
        if op == Add {
            // (x + k1) + (y + k2), (x+k) + y -> (x+y)+k
            let sp = |s: &Self, e: E| -> Option<(E, u128)> {
                if let Node::Bin(Add, x, y) = *s.n(e) {
                    s.as_const(y).map(|k| (x, k))
                } else {
                    None
                }
            };
            if cb.is_none() {
                match (sp(self, a), sp(self, b)) {
                    (Some((x, k1)), Some((y, k2))) => {
                        let s = self.bin(Add, x, y);
                        let k = self.c(k1.wrapping_add(k2), w);
                        return self.bin(Add, s, k);
                    }
                    (Some((x, k1)), None) => {
                        let s = self.bin(Add, x, b);
                        let k = self.c(k1, w);
                        return self.bin(Add, s, k);
                    }
                    (None, Some((y, k2))) => {
                        let s = self.bin(Add, a, y);
                        let k = self.c(k2, w);
                        return self.bin(Add, s, k);
                    }
                    _ => {}
                }
            }
            // x + (y - x) = y
            for (p, q) in [(a, b), (b, a)] {
                if let Node::Bin(Sub, y, x) = *self.n(q) {
                    if x == p {
                        return y;
                    }
                }
            }
        }
        if op == Sub {
            // (x + y) - x
            if let Node::Bin(Add, x, y) = *self.n(a) {
                if x == b {
                    return y;
                }
                if y == b {
                    return x;
                }
                // (x + k) - b
                if let Some(k) = self.as_const(y) {
                    let s = self.bin(Sub, x, b);
                    let k = self.c(k, w);
                    return self.bin(Add, s, k);
                }
            }
            if let Node::Bin(Add, x, y) = *self.n(b) {
                if x == a {
                    let z = self.c(0, w);
                    return self.bin(Sub, z, y);
                }
                if let Some(k) = self.as_const(y) {
                    let s = self.bin(Sub, a, x);
                    let k = self.c(k.wrapping_neg(), w);
                    return self.bin(Add, s, k);
                }
            }
        }
        if matches!(op, And | Or | Xor) {
            if w == 1 {
                // boolean simplifications
                if let Some(k) = cb {
                    if op == Xor && k == 1 {
                        // not
                        match self.n(a).clone() {
                            Node::Bin(Xor, x, y) if self.as_const(y) == Some(1) => return x,
                            Node::Cmp(P::Ult, x, y) => return self.cmp(P::Ule, y, x),
                            Node::Cmp(P::Ule, x, y) => return self.cmp(P::Ult, y, x),
                            Node::Cmp(P::Slt, x, y) => return self.cmp(P::Sle, y, x),
                            Node::Cmp(P::Sle, x, y) => return self.cmp(P::Slt, y, x),
                            Node::Lin(c, t) => {
                                return self.mk(Node::Lin(c ^ 1, t), 1);
                            }
                            _ => {}
                        }
                    }
                } else {
                    // x & !x, x | !x
                    let na = self.not(a);
                    if na == b {
                        return match op {
                            And => self.ff(),
                            Or => self.tt(),
                            _ => self.tt(),
                        };
                    }
                    // absorption: a & (a & x), a | (a | x), a & (a|x)
                    for (p, q) in [(a, b), (b, a)] {
                        if let Node::Bin(o2, x, y) = *self.n(q) {
                            if x == p || y == p {
                                match (op, o2) {
                                    (And, And) | (Or, Or) => return q,
                                    (And, Or) | (Or, And) => return p,
                                    _ => {}
                                }
                            }
                            let np = self.not(p);
                            if x == np || y == np {
                                let other = if x == np { y } else { x };
                                match (op, o2) {
                                    (And, And) => return self.ff(),
                                    (Or, Or) => return self.tt(),
                                    (And, Or) => return self.bin(And, p, other),
                                    (Or, And) => return self.bin(Or, p, other),
                                    _ => {}
                                }
                            }
                        }
                    }
                }
            } else {
                // piecewise when aligned and at least one piece folds
                let isc = |s: &Self, e: E| matches!(s.n(e), Node::Concat(..));
                let split_const = cb.is_some() && op != Xor;
                if isc(self, a) || isc(self, b) || split_const {
                    if let Some(r) = self.piecewise(op, a, b) {
                        return r;
                    }
                }
            }
            if op == Xor && w > 1 {
                let la = matches!(self.n(a), Node::Lin(..));
                let lb = matches!(self.n(b), Node::Lin(..));
                if la || lb {
                    if let Some((c1, mut t1)) = self.try_lin(a, 0) {
                        if let Some((c2, t2)) = self.try_lin(b, 0) {
                            t1.extend(t2);
                            return self.mk_lin(c1 ^ c2, t1, w);
                        }
                    }
                }
            }
            // x ^ (x ^ y)
            if op == Xor {
                for (p, q) in [(a, b), (b, a)] {
                    if let Node::Bin(Xor, x, y) = *self.n(q) {
                        if x == p {
                            return y;
                        }
                        if y == p {
                            return x;
                        }
                    }
                }
            }
        }
        self.mk(Node::Bin(op, a, b), w)
    }

    fn piecewise(&mut self, op: Op, a: E, b: E) -> Option<E> {
        let mut pa = vec![];
        let mut pb = vec![];
        self.pieces(a, &mut pa);
        self.pieces(b, &mut pb);
        // cut points
        let w = self.w(a);
        let mut cuts = vec![0u32];
        for p in [&pa, &pb] {
            let mut o = 0;
            for e in p.iter() {
                o += self.w(*e);
                cuts.push(o);
            }
        }
        // runs of constants
        for p in [&pa, &pb] {
            let mut o = 0;
            for e in p.iter() {
                let we = self.w(*e);
                if let Some(k) = self.as_const(*e) {
                    if op != Op::Xor {
                        let mut n = 0;
                        for i in 1..we {
                            if (k >> i) & 1 != (k >> (i - 1)) & 1 {
                                cuts.push(o + i);
                                n += 1;
                                if n > 8 {
                                    return None;
                                }
                            }
                        }
                    }
                }
                o += we;
            }
        }
        cuts.sort_unstable();
        cuts.dedup();
        if cuts.len() < 3 {
            return None;
        }
        // require that at least one segment simplifies
        let mut segs = vec![];
        let mut useful = false;
        for i in 0..cuts.len() - 1 {
            let (lo, hi) = (cuts[i], cuts[i + 1]);
            let x = self.extract(a, lo, hi - lo);
            let y = self.extract(b, lo, hi - lo);
            let simp = match (self.as_const(x), self.as_const(y)) {
                (Some(_), Some(_)) => true,
                (Some(k), None) | (None, Some(k)) => k == 0 || k == mask(hi - lo),
                _ => x == y,
            };
            if simp {
                useful = true;
            }
            segs.push((x, y));
        }
        if !useful {
            return None;
        }
        let mut r: Option<E> = None;
        for (x, y) in segs {
            let z = self.bin(op, x, y);
            r = Some(match r {
                None => z,
                Some(l) => self.concat(z, l),
            });
        }
        let r = r.unwrap();
        debug_assert_eq!(self.w(r), w);
        Some(r)
    }

    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(k) = self.as_const(c) {
            return if k == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        if w == 1 {
            match (self.as_const(a), self.as_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.and(n, b);
                }
                (None, Some(0)) => return self.and(c, a),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.or(n, a);
                }
                _ => {}
            }
        }
        if let Node::Bin(Op::Xor, x, y) = *self.n(c) {
            if self.as_const(y) == Some(1) {
                return self.ite(x, b, a);
            }
        }
        if let Node::Ite(c2, x, y) = *self.n(a) {
            if c2 == c {
                return self.ite(c, x, b);
            }
            if y == b {
                let cc = self.and(c, c2);
                return self.ite(cc, x, b);
            }
        }
        if let Node::Ite(c2, x, y) = *self.n(b) {
            if c2 == c {
                return self.ite(c, a, y);
            }
            if x == a {
                let cc = self.or(c, c2);
                return self.ite(cc, a, y);
            }
        }
        self.mk(Node::Ite(c, a, b), w)
    }

    pub fn eq(&mut self, a: E, b: E) -> E {
        self.cmp(P::Eq, a, b)
    }
    pub fn cmp(&mut self, p: P, a: E, b: E) -> E {
        let cc = |s: &Self, e: E| matches!(s.nodes[e as usize], Node::Const(_));
        if cc(self, a) && cc(self, b) {
            return self.cmp0(p, a, b);
        }
        if let Some(r) = self.memo.get(&(1 + p as u8, a, b, 0)) {
            return *r;
        }
        let r = self.cmp0(p, a, b);
        self.memo.insert((1 + p as u8, a, b, 0), r);
        r
    }
    fn cmp0(&mut self, p: P, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.c(foldcmp(p, w, x, y) as u128, 1);
        }
        if a == b {
            return self.c(matches!(p, P::Eq | P::Ule | P::Sle) as u128, 1);
        }
        let (al, ah, bl, bh) = (self.umin(a), self.umax(a), self.umin(b), self.umax(b));
        match p {
            P::Eq => {
                if ah < bl || bh < al {
                    return self.ff();
                }
                let (a, b, cb) = if ca.is_some() || (cb.is_none() && a > b) {
                    (b, a, ca)
                } else {
                    (a, b, cb)
                };
                if w == 1 {
                    let x = self.bin(Op::Xor, a, b);
                    return self.not(x);
                }
                if let Some(k) = cb {
                    match self.n(a).clone() {
                        Node::Bin(Op::Xor, x, y) => {
                            if let Some(k1) = self.as_const(y) {
                                let k = self.c(k ^ k1, w);
                                return self.eq(x, k);
                            }
                            if k == 0 {
                                return self.eq(x, y);
                            }
                        }
                        Node::Bin(Op::Sub, x, y) if k == 0 => return self.eq(x, y),
                        Node::Bin(Op::Add, x, y) => {
                            if let Some(k1) = self.as_const(y) {
                                let k = self.c(k.wrapping_sub(k1), w);
                                return self.eq(x, k);
                            }
                        }
                        Node::Bin(Op::Or, x, y) if k == 0 => {
                            let x = self.eq(x, b);
                            let y = self.eq(y, b);
                            return self.and(x, y);
                        }
                        Node::Ite(c, x, y) => {
                            if self.as_const(x).is_some() || self.as_const(y).is_some() {
                                let x = self.eq(x, b);
                                let y = self.eq(y, b);
                                return self.ite(c, x, y);
                            }
                        }
                        Node::SExt(x) => {
                            let wx = self.w(x);
                            let kx = k & mask(wx);
                            if (sx(kx, wx) as u128) & mask(w) != k {
                                return self.ff();
                            }
                            let kx = self.c(kx, wx);
                            return self.eq(x, kx);
                        }
                        Node::Lin(c, t) => return self.lin_eq(c ^ k, &t, w),
                        _ => {}
                    }
                }
                if matches!(self.n(a), Node::Lin(..)) || matches!(self.n(b), Node::Lin(..)) {
                    let x = self.bin(Op::Xor, a, b);
                    if let Node::Lin(c, t) = self.n(x).clone() {
                        return self.lin_eq(c, &t, w);
                    }
                    if let Some(c) = self.as_const(x) {
                        return self.c((c == 0) as u128, 1);
                    }
                }
                let isc = |s: &Self, e: E| matches!(s.n(e), Node::Concat(..));
                if isc(self, a) || isc(self, b) {
                    // piecewise
                    let (bd, r) = self.eq_pieces(a, b);
                    if bd {
                        return r;
                    }
                }
                // x + y == x
                if let Node::Bin(Op::Add, x, y) = *self.n(a) {
                    if x == b || y == b {
                        let o = if x == b { y } else { x };
                        let z = self.c(0, w);
                        return self.eq(o, z);
                    }
                }
                self.mk(Node::Cmp(P::Eq, a, b), 1)
            }
            P::Ult | P::Ule => {
                if p == P::Ult {
                    if ah < bl {
                        return self.tt();
                    }
                    if al >= bh {
                        return self.ff();
                    }
                } else {
                    if ah <= bl {
                        return self.tt();
                    }
                    if al > bh {
                        return self.ff();
                    }
                }
                if w == 1 {
                    let na = self.not(a);
                    return if p == P::Ult { self.and(na, b) } else { self.or(na, b) };
                }
                if p == P::Ult {
                    if cb == Some(1) {
                        let z = self.c(0, w);
                        return self.eq(a, z);
                    }
                    if ca == Some(0) {
                        let z = self.c(0, w);
                        let e = self.eq(b, z);
                        return self.not(e);
                    }
                } else {
                    if cb == Some(0) {
                        return self.eq(a, b);
                    }
                    if ca == Some(1) {
                        let z = self.c(0, w);
                        let e = self.eq(b, z);
                        return self.not(e);
                    }
                }
                // strip common zero high part
                let hb = 128 - (ah | bh).leading_zeros();
                if hb < w && hb >= 1 {
                    let x = self.extract(a, 0, hb);
                    let y = self.extract(b, 0, hb);
                    return self.cmp(p, x, y);
                }
                // strip common low part when equal
                if let (Node::Concat(h1, l1), Node::Concat(h2, l2)) = (self.n(a).clone(), self.n(b).clone()) {
                    if l1 == l2 {
                        return self.cmp(p, h1, h2);
                    }
                    if h1 == h2 {
                        return self.cmp(p, l1, l2);
                    }
                }
                for (q, other, left) in [(a, b, true), (b, a, false)] {
                    if self.as_const(other).is_some() {
                        if let Node::Ite(c, x, y) = *self.n(q) {
                            if self.as_const(x).is_some() || self.as_const(y).is_some() {
                                let (x, y) = if left {
                                    (self.cmp(p, x, other), self.cmp(p, y, other))
                                } else {
                                    (self.cmp(p, other, x), self.cmp(p, other, y))
                                };
                                return self.ite(c, x, y);
                            }
                        }
                    }
                }
                self.mk(Node::Cmp(p, a, b), 1)
            }
            P::Slt | P::Sle => {
                let half = 1u128 << (w - 1);
                if ah < half && bh < half {
                    let q = if p == P::Slt { P::Ult } else { P::Ule };
                    return self.cmp(q, a, b);
                }
                if w == 1 {
                    // 1 is -1
                    let nb = self.not(b);
                    return if p == P::Slt { self.and(a, nb) } else { self.or(a, nb) };
                }
                // sign tests
                if p == P::Slt && cb == Some(0) {
                    return self.extract(a, w - 1, 1);
                }
                if p == P::Sle && cb == Some(mask(w)) {
                    return self.extract(a, w - 1, 1);
                }
                if p == P::Slt && ca == Some(mask(w)) {
                    let s = self.extract(b, w - 1, 1);
                    return self.not(s);
                }
                if p == P::Sle && ca == Some(0) {
                    let s = self.extract(b, w - 1, 1);
                    return self.not(s);
                }
                if let (Node::SExt(x), Node::SExt(y)) = (self.n(a).clone(), self.n(b).clone()) {
                    if self.w(x) == self.w(y) {
                        return self.cmp(p, x, y);
                    }
                }
                for (q, other, left) in [(a, b, true), (b, a, false)] {
                    if self.as_const(other).is_some() {
                        if let Node::Ite(c, x, y) = *self.n(q) {
                            if self.as_const(x).is_some() || self.as_const(y).is_some() {
                                let (x, y) = if left {
                                    (self.cmp(p, x, other), self.cmp(p, y, other))
                                } else {
                                    (self.cmp(p, other, x), self.cmp(p, other, y))
                                };
                                return self.ite(c, x, y);
                            }
                        }
                    }
                }
                self.mk(Node::Cmp(p, a, b), 1)
            }
        }
    }
    fn eq_pieces(&mut self, a: E, b: E) -> (bool, E) {
        let mut pa = vec![];
        let mut pb = vec![];
        self.pieces(a, &mut pa);
        self.pieces(b, &mut pb);
        let mut cuts = vec![];
        let both = pa.len() > 1 && pb.len() > 1;
        let b_const = self.as_const(b).is_some() || self.as_const(a).is_some();
        for p in [&pa, &pb] {
            let mut o = 0;
            for e in p.iter() {
                cuts.push(o);
                o += self.w(*e);
            }
        }
        cuts.push(self.w(a));
        cuts.sort_unstable();
        cuts.dedup();
        let _ = (both, b_const);
        let mut r = self.tt();
        for i in 0..cuts.len() - 1 {
            let (lo, hi) = (cuts[i], cuts[i + 1]);
            let x = self.extract(a, lo, hi - lo);
            let y = self.extract(b, lo, hi - lo);
            let e = self.eq(x, y);
            r = self.and(r, e);
            if self.as_const(r) == Some(0) {
                return (true, r);
            }
        }
        (true, r)
    }
    /// c ^ XOR terms == 0 as a conjunction after Gaussian elimination.
    fn lin_eq(&mut self, c: u128, t: &[(E, u128)], w: u32) -> E {
        // rows: equations over bits. Build per output bit a set of term indices + const.
        let n = t.len();
        let words = (n + 64) / 64;
        let mut rows: Vec<(Vec<u64>, bool)> = vec![];
        for i in 0..w {
            let mut r = vec![0u64; words];
            for (j, (_, k)) in t.iter().enumerate() {
                if (k >> i) & 1 == 1 {
                    r[j / 64] |= 1 << (j % 64);
                }
            }
            rows.push((r, (c >> i) & 1 == 1));
        }
        // full reduction
        let mut rank = 0;
        for j in 0..n {
            let (wd, bt) = (j / 64, j % 64);
            if let Some(p) = (rank..rows.len()).find(|&i| rows[i].0[wd] >> bt & 1 == 1) {
                rows.swap(rank, p);
                let (pr, pc) = rows[rank].clone();
                for i in 0..rows.len() {
                    if i != rank && rows[i].0[wd] >> bt & 1 == 1 {
                        for x in 0..words {
                            rows[i].0[x] ^= pr[x];
                        }
                        rows[i].1 ^= pc;
                    }
                }
                rank += 1;
            }
        }
        let mut res = self.tt();
        for i in 0..rows.len() {
            let bits: Vec<usize> = (0..n).filter(|&j| rows[i].0[j / 64] >> (j % 64) & 1 == 1).collect();
            if bits.is_empty() {
                if rows[i].1 {
                    return self.ff();
                }
                continue;
            }
            // XOR bits == const   (c ^ xor == 0)
            let k = rows[i].1;
            let e = if bits.len() == 1 {
                let b = t[bits[0]].0;
                if k {
                    b
                } else {
                    self.not(b)
                }
            } else {
                let terms: Vec<(E, u128)> = bits.iter().map(|&j| (t[j].0, 1u128)).collect();
                let x = self.mk_lin(0, terms, 1);
                if k {
                    x
                } else {
                    self.not(x)
                }
            };
            res = self.and(res, e);
            if self.as_const(res) == Some(0) {
                return res;
            }
        }
        res
    }

    // ---------------------------------------------------------------- evaluation
    pub fn eval(&self, e: E, model: &FxMap<u32, u128>, memo: &mut FxMap<E, u128>) -> u128 {
        if let Node::Const(c) = self.nodes[e as usize] {
            return c;
        }
        if let Some(v) = memo.get(&e) {
            return *v;
        }
        let mut stack = vec![e];
        while let Some(&x) = stack.last() {
            if memo.contains_key(&x) {
                stack.pop();
                continue;
            }
            let w = self.width[x as usize];
            macro_rules! get {
                ($k:expr) => {
                    match self.nodes[$k as usize] {
                        Node::Const(c) => Some(c),
                        _ => memo.get(&$k).copied(),
                    }
                };
            }
            macro_rules! need {
                ($k:expr) => {
                    match get!($k) {
                        Some(v) => v,
                        None => {
                            stack.push($k);
                            continue;
                        }
                    }
                };
            }
            let v = match &self.nodes[x as usize] {
                Node::Const(c) => *c,
                Node::Var(v) => model.get(v).copied().unwrap_or(0) & mask(w),
                Node::Bin(op, a, b) => {
                    let a = need!(*a);
                    let b = need!(*b);
                    fold(*op, w, a, b)
                }
                Node::Cmp(p, a, b) => {
                    let wa = self.width[*a as usize];
                    let a = need!(*a);
                    let b = need!(*b);
                    foldcmp(*p, wa, a, b) as u128
                }
                Node::Ite(c, a, b) => {
                    let c = need!(*c);
                    if c == 1 {
                        need!(*a)
                    } else {
                        need!(*b)
                    }
                }
                Node::Extract(a, lo) => {
                    let a = need!(*a);
                    (a >> lo) & mask(w)
                }
                Node::Concat(h, l) => {
                    let wl = self.width[*l as usize];
                    let h = need!(*h);
                    let l = need!(*l);
                    (h << wl) | l
                }
                Node::SExt(a) => {
                    let wa = self.width[*a as usize];
                    let a = need!(*a);
                    (sx(a, wa) as u128) & mask(w)
                }
                Node::Lin(c, t) => {
                    let mut r = *c;
                    let mut miss = false;
                    for (b, k) in t.iter() {
                        match get!(*b) {
                            Some(v) => {
                                if v == 1 {
                                    r ^= k
                                }
                            }
                            None => {
                                stack.push(*b);
                                miss = true;
                            }
                        }
                    }
                    if miss {
                        continue;
                    }
                    r
                }
            };
            memo.insert(x, v);
            stack.pop();
        }
        memo[&e]
    }
    pub fn show(&self, e: E, depth: u32) -> String {
        if depth == 0 {
            return format!("#{}", e);
        }
        let d = depth - 1;
        match self.n(e) {
            Node::Const(c) => format!("{:x}:{}", c, self.w(e)),
            Node::Var(v) => self.var_names[*v as usize].clone(),
            Node::Bin(o, a, b) => format!("({:?} {} {})", o, self.show(*a, d), self.show(*b, d)),
            Node::Cmp(o, a, b) => format!("({:?} {} {})", o, self.show(*a, d), self.show(*b, d)),
            Node::Ite(c, a, b) => {
                format!("(ite {} {} {})", self.show(*c, d), self.show(*a, d), self.show(*b, d))
            }
            Node::Extract(a, lo) => format!("{}[{}+{}]", self.show(*a, d), lo, self.w(e)),
            Node::Concat(a, b) => format!("({}.{})", self.show(*a, d), self.show(*b, d)),
            Node::SExt(a) => format!("sext{}({})", self.w(e), self.show(*a, d)),
            Node::Lin(c, t) => format!("lin({:x};{} terms)", c, t.len()),
        }
    }
}
