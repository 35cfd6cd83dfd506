//! The simulated file system: inodes in memory, a descriptor table, and what
//! of it is durable (for power loss).
use crate::spec::*;
use libc::{
    EACCES, EBADF, EEXIST, EINVAL, EISDIR, ELOOP, ENAMETOOLONG, ENOENT, ENOTDIR, ENOTEMPTY, EPERM,
};
use std::collections::BTreeMap;

pub type Ino = usize;
pub type R<T> = Result<T, i32>;

#[derive(Clone)]
pub enum Data {
    File(Vec<u8>),
    Dir(BTreeMap<String, Ino>),
    Link(String),
}
#[derive(Clone)]
pub struct Inode {
    pub data: Data,
    pub mode: u32,
    pub mtime: u64,
    pub nlink: u32,
    /// Contents at the last fsync (files) if they differ from `data`.
    pub durable: Option<Vec<u8>>,
}

#[derive(Clone, Debug)]
pub enum FdKind {
    Stdin,
    Stdout,
    Stderr,
    File,
    Dir {
        names: Vec<(String, Ino, u8)>,
        next: usize,
    },
    Null,
    Random,
}
#[derive(Clone, Debug)]
pub struct Fd {
    pub kind: FdKind,
    pub ino: Ino,
    pub off: u64,
    pub flags: i32,
    pub path: String,
}

/// Directory changes not yet on disk, in order: (dir, name, old, new).
#[derive(Clone)]
struct NsOp {
    changes: Vec<(Ino, String, Option<Ino>)>,
}

pub struct Vfs {
    pub inodes: Vec<Inode>,
    pub cwd: String,
    pub fds: BTreeMap<i32, Fd>,
    pub dirseed: u64,
    pub clock: u64,
    ns_log: Vec<NsOp>,
    durable_dirs: BTreeMap<Ino, BTreeMap<String, Ino>>,
}

pub const ROOT: Ino = 0;

pub fn split(path: &str) -> Vec<&str> {
    path.split('/')
        .filter(|p| !p.is_empty() && *p != ".")
        .collect()
}

impl Vfs {
    pub fn from_tree(tree: &Tree, cwd: &str, dirseed: u64) -> Vfs {
        let mut v = Vfs {
            inodes: vec![Inode {
                data: Data::Dir(BTreeMap::new()),
                mode: 0o40755,
                mtime: 1,
                nlink: 2,
                durable: None,
            }],
            cwd: cwd.to_string(),
            fds: BTreeMap::new(),
            dirseed,
            clock: 1_790_000_000,
            ns_log: vec![],
            durable_dirs: BTreeMap::new(),
        };
        v.mkdirs("/tmp");
        v.mkdirs(cwd);
        for (p, n) in tree {
            v.put(p, n);
        }
        v.checkpoint();
        for (i, k) in [FdKind::Stdin, FdKind::Stdout, FdKind::Stderr]
            .into_iter()
            .enumerate()
        {
            let path = ["<stdin>", "<stdout>", "<stderr>"][i].to_string();
            v.fds.insert(
                i as i32,
                Fd {
                    kind: k,
                    ino: usize::MAX,
                    off: 0,
                    flags: 2,
                    path,
                },
            );
        }
        v
    }
    fn checkpoint(&mut self) {
        self.ns_log.clear();
        self.durable_dirs.clear();
        for (i, n) in self.inodes.iter_mut().enumerate() {
            n.durable = None;
            if let Data::Dir(d) = &n.data {
                self.durable_dirs.insert(i, d.clone());
            }
        }
    }
    pub fn new_inode(&mut self, data: Data, mode: u32) -> Ino {
        self.clock += 1;
        let durable = match &data {
            Data::File(_) => Some(vec![]),
            _ => None,
        };
        self.inodes.push(Inode {
            data,
            mode,
            mtime: self.clock,
            nlink: 1,
            durable,
        });
        self.inodes.len() - 1
    }
    pub fn mkdirs(&mut self, path: &str) -> Ino {
        let mut cur = ROOT;
        for p in split(path) {
            let next = match &self.inodes[cur].data {
                Data::Dir(d) => d.get(p).copied(),
                _ => None,
            };
            cur = match next {
                Some(i) => i,
                None => {
                    let i = self.new_inode(Data::Dir(BTreeMap::new()), 0o40755);
                    if let Data::Dir(d) = &mut self.inodes[cur].data {
                        d.insert(p.to_string(), i);
                    }
                    i
                }
            };
        }
        cur
    }
    /// Environment side: create or replace a node, with its parents.
    pub fn put(&mut self, path: &str, n: &Node) {
        let (dir, name) = match path.rfind('/') {
            Some(i) => (&path[..i], &path[i + 1..]),
            None => return,
        };
        let d = self.mkdirs(dir);
        if name.is_empty() {
            return;
        }
        let old = match &self.inodes[d].data {
            Data::Dir(m) => m.get(name).copied(),
            _ => return,
        };
        if n.kind == Kind::Dir {
            if let Some(o) = old {
                if matches!(self.inodes[o].data, Data::Dir(_)) {
                    self.inodes[o].mode = 0o40000 | n.mode;
                    return;
                }
            }
        }
        let (data, mode) = match n.kind {
            Kind::File => (Data::File(n.data.0.clone()), 0o100000 | n.mode),
            Kind::Dir => (Data::Dir(BTreeMap::new()), 0o40000 | n.mode),
            Kind::Link => (Data::Link(n.data.str().into_owned()), 0o120000 | 0o777),
        };
        if let (Some(o), Data::File(b)) = (old, &data) {
            if matches!(self.inodes[o].data, Data::File(_)) {
                // Replaced in place by the environment: a new inode, as an
                // editor that saves through a temporary file does.
                let i = self.new_inode(Data::File(b.clone()), mode);
                if let Data::Dir(m) = &mut self.inodes[d].data {
                    m.insert(name.to_string(), i);
                }
                return;
            }
        }
        let i = self.new_inode(data, mode);
        if let Data::Dir(m) = &mut self.inodes[d].data {
            m.insert(name.to_string(), i);
        }
    }
    pub fn remove_tree(&mut self, path: &str) {
        let (dir, name) = match path.rfind('/') {
            Some(0) => ("/", &path[1..]),
            Some(i) => (&path[..i], &path[i + 1..]),
            None => return,
        };
        if let Ok(d) = self.resolve("/", dir, true) {
            if let Data::Dir(m) = &mut self.inodes[d].data {
                m.remove(name);
            }
        }
    }
    pub fn to_tree(&self) -> Tree {
        let mut t = Tree::new();
        self.walk(ROOT, "", &mut t, 0);
        t
    }
    fn walk(&self, ino: Ino, path: &str, t: &mut Tree, depth: usize) {
        if depth > 64 {
            return;
        }
        if let Data::Dir(m) = &self.inodes[ino].data {
            for (name, &i) in m {
                let p = format!("{path}/{name}");
                let n = &self.inodes[i];
                let mode = n.mode & 0o7777;
                match &n.data {
                    Data::File(b) => {
                        t.insert(
                            p,
                            Node {
                                kind: Kind::File,
                                data: Bytes(b.clone()),
                                mode,
                            },
                        );
                    }
                    Data::Dir(_) => {
                        t.insert(
                            p.clone(),
                            Node {
                                kind: Kind::Dir,
                                data: Bytes::default(),
                                mode,
                            },
                        );
                        self.walk(i, &p, t, depth + 1);
                    }
                    Data::Link(l) => {
                        t.insert(p, Node::link(l));
                    }
                }
            }
        }
    }

    fn may(&self, ino: Ino, bit: u32) -> bool {
        self.inodes[ino].mode & bit != 0
    }

    pub fn abs(&self, base: &str, path: &str) -> String {
        if path.starts_with('/') {
            path.to_string()
        } else if base == "/" {
            format!("/{path}")
        } else {
            format!("{base}/{path}")
        }
    }

    pub fn resolve(&self, base: &str, path: &str, follow: bool) -> R<Ino> {
        if path.is_empty() {
            return Err(ENOENT);
        }
        let mut depth = 0;
        let p = self.abs(base, path);
        let trailing = p.ends_with('/') || p.ends_with("/.");
        let (i, _) = self.walk_path(&p, follow || trailing, &mut depth)?;
        if trailing && !matches!(self.inodes[i].data, Data::Dir(_)) {
            return Err(ENOTDIR);
        }
        Ok(i)
    }
    /// Resolve to (inode, canonical path).
    fn walk_path(&self, abs: &str, follow: bool, depth: &mut u32) -> R<(Ino, String)> {
        if abs.len() > 4096 {
            return Err(ENAMETOOLONG);
        }
        let mut stack: Vec<(Ino, String)> = vec![(ROOT, String::new())];
        let parts = split(abs);
        for (k, p) in parts.iter().enumerate() {
            let last = k + 1 == parts.len();
            let (cur, cpath) = stack.last().unwrap().clone();
            let m = match &self.inodes[cur].data {
                Data::Dir(m) => m,
                _ => return Err(ENOTDIR),
            };
            if !self.may(cur, 0o100) {
                return Err(EACCES);
            }
            if *p == ".." {
                if stack.len() > 1 {
                    stack.pop();
                }
                continue;
            }
            if p.len() > 255 {
                return Err(ENAMETOOLONG);
            }
            let i = *m.get(*p).ok_or(ENOENT)?;
            if let Data::Link(t) = &self.inodes[i].data {
                if !last || follow {
                    *depth += 1;
                    if *depth > 40 {
                        return Err(ELOOP);
                    }
                    let tp = self.abs(if cpath.is_empty() { "/" } else { &cpath }, t);
                    let (ti, tpath) = self.walk_path(&tp, true, depth)?;
                    // Rebuild the stack from the canonical path.
                    stack = self.stack_of(&tpath);
                    if stack.last().map(|s| s.0) != Some(ti) {
                        return Err(ENOENT);
                    }
                    continue;
                }
            }
            stack.push((i, format!("{cpath}/{p}")));
        }
        let (i, p) = stack.pop().unwrap();
        Ok((i, if p.is_empty() { "/".into() } else { p }))
    }
    fn stack_of(&self, canon: &str) -> Vec<(Ino, String)> {
        let mut v = vec![(ROOT, String::new())];
        for p in split(canon) {
            let (cur, cp) = v.last().unwrap().clone();
            if let Data::Dir(m) = &self.inodes[cur].data {
                if let Some(&i) = m.get(p) {
                    v.push((i, format!("{cp}/{p}")));
                    continue;
                }
            }
            break;
        }
        v
    }
    pub fn realpath(&self, path: &str) -> R<String> {
        if path.is_empty() {
            return Err(ENOENT);
        }
        let mut d = 0;
        let p = self.abs(&self.cwd, path);
        let (i, c) = self.walk_path(&p, true, &mut d)?;
        if p.ends_with('/') && !matches!(self.inodes[i].data, Data::Dir(_)) {
            return Err(ENOTDIR);
        }
        Ok(c)
    }
    /// Parent directory inode and final name.
    fn parent<'a>(&self, base: &str, path: &'a str) -> R<(Ino, &'a str)> {
        let t = path.trim_end_matches('/');
        let (dir, name) = match t.rfind('/') {
            Some(0) => ("/", &t[1..]),
            Some(i) => (&t[..i], &t[i + 1..]),
            None => (".", t),
        };
        if name.is_empty() || name == "." || name == ".." {
            return Err(EINVAL);
        }
        let d = self.resolve(base, dir, true)?;
        if !matches!(self.inodes[d].data, Data::Dir(_)) {
            return Err(ENOTDIR);
        }
        if !self.may(d, 0o100) {
            return Err(EACCES);
        }
        Ok((d, name))
    }
    fn entries(&self, d: Ino) -> &BTreeMap<String, Ino> {
        match &self.inodes[d].data {
            Data::Dir(m) => m,
            _ => unreachable!(),
        }
    }
    fn link_entry(&mut self, d: Ino, name: &str, new: Option<Ino>) {
        if let Data::Dir(m) = &mut self.inodes[d].data {
            match new {
                Some(i) => {
                    m.insert(name.to_string(), i);
                }
                None => {
                    m.remove(name);
                }
            }
        }
    }

    pub fn alloc_fd(&mut self, fd: Fd, min: i32) -> i32 {
        let mut n = min;
        while self.fds.contains_key(&n) {
            n += 1;
        }
        self.fds.insert(n, fd);
        n
    }

    pub fn open(&mut self, base: &str, path: &str, flags: i32, mode: u32) -> R<i32> {
        let abs = self.abs(base, path);
        if abs == "/dev/null" {
            return Ok(self.alloc_fd(
                Fd {
                    kind: FdKind::Null,
                    ino: usize::MAX,
                    off: 0,
                    flags,
                    path: abs,
                },
                3,
            ));
        }
        if abs == "/dev/urandom" || abs == "/dev/random" {
            return Ok(self.alloc_fd(
                Fd {
                    kind: FdKind::Random,
                    ino: usize::MAX,
                    off: 0,
                    flags,
                    path: abs,
                },
                3,
            ));
        }
        let acc = flags & libc::O_ACCMODE;
        let w = acc != libc::O_RDONLY;
        let r = acc != libc::O_WRONLY;
        let nofollow = flags & libc::O_NOFOLLOW != 0
            || flags & (libc::O_CREAT | libc::O_EXCL) == (libc::O_CREAT | libc::O_EXCL);
        let found = self.resolve(base, path, !nofollow);
        let ino = match found {
            Ok(i) => {
                if flags & libc::O_CREAT != 0 && flags & libc::O_EXCL != 0 {
                    return Err(EEXIST);
                }
                if matches!(self.inodes[i].data, Data::Link(_)) {
                    return Err(ELOOP);
                }
                let isdir = matches!(self.inodes[i].data, Data::Dir(_));
                if isdir && (w || flags & libc::O_CREAT != 0) {
                    return Err(EISDIR);
                }
                if flags & libc::O_DIRECTORY != 0 && !isdir {
                    return Err(ENOTDIR);
                }
                if flags & libc::O_PATH == 0
                    && (r && !self.may(i, 0o400) || w && !self.may(i, 0o200))
                {
                    return Err(EACCES);
                }
                if w && flags & libc::O_TRUNC != 0 {
                    self.set_data(i, vec![]);
                }
                i
            }
            Err(e) if e == ENOENT && flags & libc::O_CREAT != 0 => {
                // Follow a dangling link to the place it names.
                let mut p = self.abs(base, path);
                for _ in 0..40 {
                    match self.resolve("/", &p, false) {
                        Ok(i) => match &self.inodes[i].data {
                            Data::Link(t) if !nofollow => {
                                let dir =
                                    p.rfind('/').map(|k| p[..k].to_string()).unwrap_or_default();
                                p = self.abs(if dir.is_empty() { "/" } else { &dir }, t);
                            }
                            _ => break,
                        },
                        Err(_) => break,
                    }
                }
                let (d, name) = self.parent("/", &p)?;
                if !self.may(d, 0o200) {
                    return Err(EACCES);
                }
                let i = self.new_inode(Data::File(vec![]), 0o100000 | (mode & 0o777 & !0o022));
                let name = name.to_string();
                self.link_entry(d, &name, Some(i));
                self.ns_log.push(NsOp {
                    changes: vec![(d, name, Some(i))],
                });
                i
            }
            Err(e) => return Err(e),
        };
        Ok(self.alloc_fd(
            Fd {
                kind: FdKind::File,
                ino,
                off: 0,
                flags,
                path: abs,
            },
            3,
        ))
    }

    pub fn set_data(&mut self, ino: Ino, new: Vec<u8>) {
        self.clock += 1;
        let n = &mut self.inodes[ino];
        n.mtime = self.clock;
        if let Data::File(b) = &mut n.data {
            if n.durable.is_none() {
                n.durable = Some(b.clone());
            }
            *b = new;
        }
    }
    pub fn write_at(&mut self, ino: Ino, off: u64, data: &[u8]) -> R<()> {
        let mut b = match &self.inodes[ino].data {
            Data::File(b) => b.clone(),
            _ => return Err(EISDIR),
        };
        let off = off as usize;
        if b.len() < off + data.len() {
            b.resize(off + data.len(), 0);
        }
        b[off..off + data.len()].copy_from_slice(data);
        self.set_data(ino, b);
        Ok(())
    }
    pub fn len(&self, ino: Ino) -> u64 {
        match &self.inodes[ino].data {
            Data::File(b) => b.len() as u64,
            Data::Link(l) => l.len() as u64,
            Data::Dir(_) => 4096,
        }
    }
    pub fn fsync(&mut self, ino: Ino) {
        if matches!(self.inodes[ino].data, Data::Dir(_)) {
            // Everything logged so far for the directory tree is durable.
            self.commit_ns(self.ns_log.len());
        } else {
            self.inodes[ino].durable = None;
        }
    }
    fn commit_ns(&mut self, n: usize) {
        for op in self.ns_log.drain(..n) {
            for (d, name, new) in op.changes {
                let m = self.durable_dirs.entry(d).or_default();
                match new {
                    Some(i) => {
                        m.insert(name, i);
                    }
                    None => {
                        m.remove(&name);
                    }
                }
            }
        }
    }
    /// Power loss: a prefix of the logged directory operations survives, and
    /// unsynced file data is old, new, cut short or zeroed.
    pub fn power_loss(&mut self, seed: u64) {
        let mut r = Rng::new(seed);
        let keep = r.us(self.ns_log.len() + 1);
        self.commit_ns(keep);
        self.ns_log.clear();
        for (d, m) in std::mem::take(&mut self.durable_dirs) {
            self.inodes[d].data = Data::Dir(m);
        }
        for n in self.inodes.iter_mut() {
            if let (Data::File(b), Some(old)) = (&mut n.data, n.durable.take()) {
                match r.below(4) {
                    0 => *b = old,
                    1 => {}
                    2 => {
                        let k = r.us(b.len() + 1);
                        b.truncate(k);
                    }
                    _ => {
                        let k = r.us(b.len() + 1);
                        for x in b[k..].iter_mut() {
                            *x = 0;
                        }
                    }
                }
            }
        }
    }
    pub fn mkdir(&mut self, base: &str, path: &str, mode: u32) -> R<()> {
        let (d, name) = self.parent(base, path)?;
        if self.entries(d).contains_key(name) {
            return Err(EEXIST);
        }
        if !self.may(d, 0o200) {
            return Err(EACCES);
        }
        let i = self.new_inode(
            Data::Dir(BTreeMap::new()),
            0o40000 | (mode & 0o777 & !0o022),
        );
        self.link_entry(d, name, Some(i));
        self.ns_log.push(NsOp {
            changes: vec![(d, name.to_string(), Some(i))],
        });
        Ok(())
    }
    pub fn unlink(&mut self, base: &str, path: &str, dir: bool) -> R<()> {
        let (d, name) = self.parent(base, path)?;
        let i = *self.entries(d).get(name).ok_or(ENOENT)?;
        let isdir = matches!(self.inodes[i].data, Data::Dir(_));
        if isdir != dir {
            return Err(if isdir { EISDIR } else { ENOTDIR });
        }
        if let Data::Dir(m) = &self.inodes[i].data {
            if !m.is_empty() {
                return Err(ENOTEMPTY);
            }
        }
        if !self.may(d, 0o200) {
            return Err(EACCES);
        }
        self.link_entry(d, name, None);
        self.inodes[i].nlink -= 1;
        self.ns_log.push(NsOp {
            changes: vec![(d, name.to_string(), None)],
        });
        Ok(())
    }
    pub fn rename(&mut self, b1: &str, from: &str, b2: &str, to: &str, noreplace: bool) -> R<()> {
        let (d1, n1) = self.parent(b1, from)?;
        let (d2, n2) = self.parent(b2, to)?;
        let i = *self.entries(d1).get(n1).ok_or(ENOENT)?;
        if !self.may(d1, 0o200) || !self.may(d2, 0o200) {
            return Err(EACCES);
        }
        if let Some(&o) = self.entries(d2).get(n2) {
            if noreplace {
                return Err(EEXIST);
            }
            if o == i {
                return Ok(());
            }
            let od = matches!(self.inodes[o].data, Data::Dir(_));
            let id = matches!(self.inodes[i].data, Data::Dir(_));
            if od && !id {
                return Err(EISDIR);
            }
            if !od && id {
                return Err(ENOTDIR);
            }
            if od && !self.entries(o).is_empty() {
                return Err(ENOTEMPTY);
            }
        }
        self.link_entry(d1, n1, None);
        self.link_entry(d2, n2, Some(i));
        self.ns_log.push(NsOp {
            changes: vec![(d1, n1.to_string(), None), (d2, n2.to_string(), Some(i))],
        });
        Ok(())
    }
    pub fn link(&mut self, from: &str, to: &str) -> R<()> {
        let i = self.resolve(&self.cwd.clone(), from, false)?;
        let cwd = self.cwd.clone();
        let (d, n) = self.parent(&cwd, to)?;
        if matches!(self.inodes[i].data, Data::Dir(_)) {
            return Err(EPERM);
        }
        if self.entries(d).contains_key(n) {
            return Err(EEXIST);
        }
        if !self.may(d, 0o200) {
            return Err(EACCES);
        }
        self.link_entry(d, n, Some(i));
        self.inodes[i].nlink += 1;
        self.ns_log.push(NsOp {
            changes: vec![(d, n.to_string(), Some(i))],
        });
        Ok(())
    }
    pub fn symlink(&mut self, target: &str, path: &str) -> R<()> {
        let cwd = self.cwd.clone();
        let (d, n) = self.parent(&cwd, path)?;
        if self.entries(d).contains_key(n) {
            return Err(EEXIST);
        }
        let i = self.new_inode(Data::Link(target.to_string()), 0o120777);
        self.link_entry(d, n, Some(i));
        self.ns_log.push(NsOp {
            changes: vec![(d, n.to_string(), Some(i))],
        });
        Ok(())
    }
    pub fn readlink(&self, base: &str, path: &str) -> R<String> {
        let i = self.resolve(base, path, false)?;
        match &self.inodes[i].data {
            Data::Link(t) => Ok(t.clone()),
            _ => Err(EINVAL),
        }
    }
    pub fn opendir_list(&self, ino: Ino) -> R<Vec<(String, Ino, u8)>> {
        let m = match &self.inodes[ino].data {
            Data::Dir(m) => m,
            _ => return Err(ENOTDIR),
        };
        if !self.may(ino, 0o400) {
            return Err(EACCES);
        }
        let mut v: Vec<_> = m
            .iter()
            .map(|(n, &i)| {
                let t = match &self.inodes[i].data {
                    Data::File(_) => libc::DT_REG,
                    Data::Dir(_) => libc::DT_DIR,
                    Data::Link(_) => libc::DT_LNK,
                };
                (n.clone(), i, t)
            })
            .collect();
        if self.dirseed != 0 {
            Rng::new(self.dirseed ^ ino as u64).shuffle(&mut v);
        }
        v.insert(0, ("..".into(), ino, libc::DT_DIR));
        v.insert(0, (".".into(), ino, libc::DT_DIR));
        Ok(v)
    }
    pub fn fd(&self, fd: i32) -> R<&Fd> {
        self.fds.get(&fd).ok_or(EBADF)
    }
    /// Base directory for the *at family.
    pub fn base_of(&self, dirfd: i32) -> R<String> {
        if dirfd == libc::AT_FDCWD {
            Ok(self.cwd.clone())
        } else {
            Ok(self.fd(dirfd)?.path.clone())
        }
    }
}
