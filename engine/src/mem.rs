//! Memory objects and byte containers with concrete + symbolic content.
use crate::expr::E;
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone, Default)]
pub struct Bytes {
    pub data: Vec<u8>,
    pub sym: BTreeMap<u32, E>, // 8-bit expressions overriding data
}
impl Bytes {
    pub fn new(n: usize, fill: u8) -> Self {
        Bytes { data: vec![fill; n], sym: BTreeMap::new() }
    }
    pub fn len(&self) -> usize {
        self.data.len()
    }
    #[inline]
    pub fn has_sym(&self, off: usize, n: usize) -> bool {
        if self.sym.is_empty() {
            return false;
        }
        self.sym.range(off as u32..(off + n) as u32).next().is_some()
    }
    pub fn clear_sym(&mut self, off: usize, n: usize) {
        if self.sym.is_empty() {
            return;
        }
        let ks: Vec<u32> = self.sym.range(off as u32..(off + n) as u32).map(|x| *x.0).collect();
        for k in ks {
            self.sym.remove(&k);
        }
    }
    pub fn slice(&self, off: usize, n: usize) -> Bytes {
        let mut b = Bytes { data: self.data[off..off + n].to_vec(), sym: BTreeMap::new() };
        if !self.sym.is_empty() {
            for (k, v) in self.sym.range(off as u32..(off + n) as u32) {
                b.sym.insert(k - off as u32, *v);
            }
        }
        b
    }
    pub fn put(&mut self, off: usize, src: &Bytes) {
        let n = src.len();
        self.clear_sym(off, n);
        self.data[off..off + n].copy_from_slice(&src.data);
        for (k, v) in &src.sym {
            self.sym.insert(k + off as u32, *v);
        }
    }
    pub fn resize(&mut self, n: usize) {
        if n < self.data.len() {
            let m = self.data.len() - n;
            self.clear_sym(n, m);
        }
        self.data.resize(n, 0);
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Heap,
    Stack,
    Global,
    Map,
}

#[derive(Clone)]
pub struct Obj {
    pub b: Bytes,
    pub ro: bool,
    pub kind: Kind,
    pub freed: bool,
}

pub const BIAS: u64 = 0x10000;
const CH: usize = 64;

#[derive(Clone)]
struct Chunk {
    o: Vec<Option<Rc<Obj>>>,
    live: u32,
}

#[derive(Clone)]
pub struct Mem {
    chunks: Vec<Option<Rc<Chunk>>>,
    next: u32,
}

#[inline]
pub fn addr_of(id: u32) -> u64 {
    ((id as u64) << 32) + BIAS
}

impl Mem {
    pub fn new() -> Self {
        Mem { chunks: vec![], next: 1 }
    }
    pub fn objs(&self) -> u32 {
        self.next
    }
    pub fn alloc_bytes(&mut self, b: Bytes, kind: Kind, ro: bool) -> u64 {
        let id = self.next;
        self.next += 1;
        let c = id as usize / CH;
        while self.chunks.len() <= c {
            self.chunks.push(None);
        }
        let ch = self.chunks[c].get_or_insert_with(|| Rc::new(Chunk { o: vec![None; CH], live: 0 }));
        let ch = Rc::make_mut(ch);
        ch.o[id as usize % CH] = Some(Rc::new(Obj { b, ro, kind, freed: false }));
        ch.live += 1;
        addr_of(id)
    }
    pub fn alloc(&mut self, size: u64, kind: Kind, fill: u8) -> u64 {
        self.alloc_bytes(Bytes::new(size as usize, fill), kind, false)
    }
    pub fn free_id(&mut self, id: u32) -> bool {
        let c = id as usize / CH;
        if let Some(Some(ch)) = self.chunks.get_mut(c) {
            let k = id as usize % CH;
            if ch.o[k].is_none() {
                return false;
            }
            let m = Rc::make_mut(ch);
            m.o[k] = None;
            m.live -= 1;
            if m.live == 0 && (c + 1) * CH <= self.next as usize {
                self.chunks[c] = None;
            }
            return true;
        }
        false
    }
    #[inline]
    pub fn get(&self, id: u32) -> Option<&Rc<Obj>> {
        match self.chunks.get(id as usize / CH) {
            Some(Some(ch)) => ch.o[id as usize % CH].as_ref(),
            _ => None,
        }
    }
    #[inline]
    pub fn get_mut(&mut self, id: u32) -> Option<&mut Obj> {
        match self.chunks.get_mut(id as usize / CH) {
            Some(Some(ch)) => {
                let ch = Rc::make_mut(ch);
                ch.o[id as usize % CH].as_mut().map(Rc::make_mut)
            }
            _ => None,
        }
    }
    /// (id, offset)
    #[inline]
    pub fn split(addr: u64) -> (u32, i64) {
        ((addr >> 32) as u32, (addr & 0xffff_ffff) as i64 - BIAS as i64)
    }
}
