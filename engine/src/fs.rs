//! In-memory file system (part of the symbolic state).
use crate::mem::Bytes;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

#[derive(Clone)]
pub struct Ofd {
    pub inode: usize,
    pub off: u64,
    pub flags: u64,
    pub dir: bool,
    pub std: bool,
}
#[derive(Clone, Default)]
pub struct Fs {
    pub inodes: Vec<Rc<Bytes>>,
    pub names: BTreeMap<String, usize>,
    pub dirs: BTreeSet<String>,
    pub ofds: Vec<Ofd>,
    pub fds: BTreeMap<i32, usize>,
    pub trace: Vec<String>,
}

pub fn norm(p: &str) -> String {
    let full = if p.starts_with('/') { p.to_string() } else { format!("/w/{}", p) };
    let mut out: Vec<&str> = vec![];
    for c in full.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                out.pop();
            }
            c => out.push(c),
        }
    }
    format!("/{}", out.join("/"))
}
pub fn parent(p: &str) -> String {
    match p.rfind('/') {
        Some(0) | None => "/".into(),
        Some(i) => p[..i].to_string(),
    }
}

impl Fs {
    pub fn new() -> Self {
        let mut f = Fs::default();
        for d in ["/", "/w", "/tmp", "/t"] {
            f.dirs.insert(d.into());
        }
        for fd in 0..3 {
            f.ofds.push(Ofd { inode: usize::MAX, off: 0, flags: 0, dir: false, std: true });
            f.fds.insert(fd, fd as usize);
        }
        f
    }
    /// after a process death: descriptors vanish, files stay
    pub fn reboot(&mut self) {
        let n = Fs::new();
        self.ofds = n.ofds;
        self.fds = n.fds;
    }
    pub fn new_fd(&mut self, o: Ofd) -> i32 {
        self.ofds.push(o);
        let mut fd = 3;
        while self.fds.contains_key(&fd) {
            fd += 1;
        }
        self.fds.insert(fd, self.ofds.len() - 1);
        fd
    }
    pub fn exists(&self, p: &str) -> bool {
        self.names.contains_key(p) || self.dirs.contains(p)
    }
}
