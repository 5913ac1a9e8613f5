//! The simulated file system.
//!
//! `now` is what processes see.  `disk` is what is certainly on the medium, and `log` lists what
//! happened since, in order.  After a power loss the medium holds `disk`, a prefix of the metadata
//! operations of the log, whatever was explicitly synced, and any part of the data not synced.

use std::collections::BTreeMap;
use std::rc::Rc;

pub type Ino = usize;

pub const S_IFMT: u32 = 0o170000;
pub const S_IFREG: u32 = 0o100000;
pub const S_IFDIR: u32 = 0o040000;
pub const S_IFLNK: u32 = 0o120000;
pub const S_IFIFO: u32 = 0o010000;
pub const S_IFCHR: u32 = 0o020000;

#[derive(Clone, Debug, PartialEq)]
pub enum Node {
    File(Rc<Vec<u8>>),
    Dir(BTreeMap<String, Ino>),
    Symlink(String),
    /// a named pipe or device; what it accepts is decided by the process layer
    Special,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Inode {
    pub node: Node,
    /// type and permission bits
    pub mode: u32,
    pub uid: u32,
    pub gid: u32,
    pub dev: u32,
    pub mtime: i64,
}

impl Inode {
    pub fn is_dir(&self) -> bool {
        matches!(self.node, Node::Dir(_))
    }
    pub fn size(&self) -> i64 {
        match &self.node {
            Node::File(d) => d.len() as i64,
            Node::Symlink(t) => t.len() as i64,
            Node::Dir(_) => 4096,
            Node::Special => 0,
        }
    }
}

#[derive(Clone, Debug)]
pub enum Op {
    // metadata
    Create { dir: Ino, name: String, ino: Ino, inode: Inode },
    Link { dir: Ino, name: String, ino: Ino },
    Unlink { dir: Ino, name: String },
    Rename { dir: Ino, name: String, to_dir: Ino, to_name: String, exchange: bool },
    Chmod { ino: Ino, mode: u32 },
    Chown { ino: Ino, uid: u32, gid: u32, mode: u32 },
    Truncate { ino: Ino, len: usize },
    /// an inode without a name (O_TMPFILE)
    Anonymous { ino: Ino, inode: Inode },
    // data
    Write { ino: Ino, off: usize, bytes: Rc<Vec<u8>> },
}

impl Op {
    fn is_data(&self) -> bool {
        matches!(self, Op::Write { .. })
    }
    fn attr_of(&self) -> Option<Ino> {
        match self {
            Op::Chmod { ino, .. } | Op::Chown { ino, .. } | Op::Truncate { ino, .. } | Op::Write { ino, .. } => Some(*ino),
            _ => None,
        }
    }
}

#[derive(Clone, Debug)]
pub struct Logged {
    pub op: Op,
    /// made durable by a sync of its inode
    pub synced: bool,
    /// dropped from the cache by a failed sync: no later sync makes it durable
    pub lost: bool,
}

#[derive(Clone, Debug, Default)]
pub struct Tree {
    pub nodes: BTreeMap<Ino, Inode>,
}

pub const ROOT: Ino = 1;

impl Tree {
    pub fn apply(&mut self, op: &Op) {
        match op {
            Op::Create { dir, name, ino, inode } => {
                self.nodes.entry(*ino).or_insert_with(|| inode.clone());
                self.entry(*dir, name, Some(*ino));
            }
            Op::Anonymous { ino, inode } => {
                self.nodes.entry(*ino).or_insert_with(|| inode.clone());
            }
            Op::Link { dir, name, ino } => self.entry(*dir, name, Some(*ino)),
            Op::Unlink { dir, name } => self.entry(*dir, name, None),
            Op::Rename { dir, name, to_dir, to_name, exchange } => {
                let a = self.lookup(*dir, name);
                let b = self.lookup(*to_dir, to_name);
                if let Some(a) = a {
                    if !(dir == to_dir && name == to_name) {
                        self.entry(*dir, name, if *exchange { b } else { None });
                    }
                    self.entry(*to_dir, to_name, Some(a));
                }
            }
            Op::Chmod { ino, mode } => {
                if let Some(n) = self.nodes.get_mut(ino) {
                    n.mode = (n.mode & S_IFMT) | (mode & 0o7777);
                }
            }
            Op::Chown { ino, uid, gid, mode } => {
                if let Some(n) = self.nodes.get_mut(ino) {
                    n.uid = *uid;
                    n.gid = *gid;
                    n.mode = *mode;
                }
            }
            Op::Truncate { ino, len } => {
                if let Some(Node::File(d)) = self.nodes.get_mut(ino).map(|n| &mut n.node) {
                    if d.len() != *len {
                        Rc::make_mut(d).resize(*len, 0);
                    }
                }
            }
            Op::Write { ino, off, bytes } => {
                if let Some(Node::File(d)) = self.nodes.get_mut(ino).map(|n| &mut n.node) {
                    let d = Rc::make_mut(d);
                    if d.len() < off + bytes.len() {
                        d.resize(off + bytes.len(), 0);
                    }
                    d[*off..off + bytes.len()].copy_from_slice(bytes);
                }
            }
        }
    }
    fn entry(&mut self, dir: Ino, name: &str, ino: Option<Ino>) {
        if let Some(Node::Dir(e)) = self.nodes.get_mut(&dir).map(|n| &mut n.node) {
            match ino {
                Some(i) => {
                    e.insert(name.to_string(), i);
                }
                None => {
                    e.remove(name);
                }
            }
        }
    }
    pub fn lookup(&self, dir: Ino, name: &str) -> Option<Ino> {
        match &self.nodes.get(&dir)?.node {
            Node::Dir(e) => e.get(name).copied(),
            _ => None,
        }
    }
    /// How many names a file has.
    pub fn links(&self, ino: Ino) -> i64 {
        self.nodes
            .values()
            .map(|n| match &n.node {
                Node::Dir(e) => e.values().filter(|x| **x == ino).count() as i64,
                _ => 0,
            })
            .sum()
    }
    pub fn file(&self, ino: Ino) -> Option<&Rc<Vec<u8>>> {
        match &self.nodes.get(&ino)?.node {
            Node::File(d) => Some(d),
            _ => None,
        }
    }
    /// Follow an absolute path without permission checks.
    pub fn resolve(&self, path: &str, follow_last: bool) -> Option<Ino> {
        let mut hops = 0;
        self.resolve_from(ROOT, path, follow_last, &mut hops, &mut vec![])
    }
    fn resolve_from(&self, start: Ino, path: &str, follow_last: bool, hops: &mut u32, stack: &mut Vec<Ino>) -> Option<Ino> {
        let mut cur = if path.starts_with('/') { ROOT } else { start };
        if path.starts_with('/') {
            stack.clear();
        }
        let parts: Vec<&str> = path.split('/').filter(|p| !p.is_empty()).collect();
        for (i, p) in parts.iter().enumerate() {
            match *p {
                "." => continue,
                ".." => {
                    cur = stack.pop().unwrap_or(ROOT);
                    continue;
                }
                _ => {}
            }
            let next = self.lookup(cur, p)?;
            let last = i + 1 == parts.len();
            match &self.nodes.get(&next)?.node {
                Node::Symlink(t) if !last || follow_last => {
                    *hops += 1;
                    if *hops > 20 {
                        return None;
                    }
                    let t = t.clone();
                    cur = self.resolve_from(cur, &t, true, hops, stack)?;
                }
                _ => {
                    stack.push(cur);
                    cur = next;
                }
            }
        }
        Some(cur)
    }
    /// What a path holds: its bytes if it is a file.
    pub fn read(&self, path: &str) -> Option<Rc<Vec<u8>>> {
        self.file(self.resolve(path, true)?).cloned()
    }
    /// Every path below `dir` with its inode number.
    pub fn walk(&self, dir: Ino, prefix: &str, out: &mut Vec<(String, Ino)>) {
        if let Some(Node::Dir(e)) = self.nodes.get(&dir).map(|n| &n.node) {
            for (k, v) in e {
                let p = format!("{prefix}/{k}");
                out.push((p.clone(), *v));
                self.walk(*v, &p, out);
            }
        }
    }
    pub fn listing(&self) -> Vec<(String, Ino)> {
        let mut v = vec![];
        self.walk(ROOT, "", &mut v);
        v
    }
}

/// How the unsynced part of the data comes out of a power loss.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum DataLoss {
    /// nothing that was not synced
    None,
    /// lengths survive, contents read as zeros
    Zeros,
    /// everything
    All,
    /// an arbitrary part, decided by a hash of this number
    Some(u64),
}

#[derive(Clone, Debug)]
pub struct Fs {
    pub now: Tree,
    pub disk: Tree,
    pub log: Vec<Logged>,
    /// how many log entries' metadata is certainly on the medium
    pub min_prefix: usize,
    next_ino: Ino,
    pub capacity: Option<usize>,
    /// the modification time of files that are there from the start
    pub born: i64,
    /// times were set, which the log does not have
    pub touched: bool,
}

impl Fs {
    pub fn new() -> Self {
        let mut t = Tree::default();
        t.nodes.insert(
            ROOT,
            Inode { node: Node::Dir(BTreeMap::new()), mode: S_IFDIR | 0o755, uid: 0, gid: 0, dev: 1, mtime: 0 },
        );
        Fs { now: t.clone(), disk: t, log: vec![], min_prefix: 0, next_ino: 2, capacity: None, born: crate::world::WALL_NS - 3_600_000_000_000, touched: false }
    }
    pub fn fresh_ino(&mut self) -> Ino {
        self.next_ino += 1;
        self.next_ino - 1
    }
    pub fn run(&mut self, op: Op) {
        self.now.apply(&op);
        self.log.push(Logged { op, synced: false, lost: false });
    }
    /// Everything so far is on the medium.
    pub fn settle(&mut self) {
        self.disk = self.now.clone();
        self.log.clear();
        self.min_prefix = 0;
    }
    pub fn sync(&mut self, ino: Ino) {
        if self.now.nodes.get(&ino).is_some_and(Inode::is_dir) {
            self.min_prefix = self.log.len();
            return;
        }
        for l in &mut self.log {
            if l.op.attr_of() == Some(ino) && !l.lost {
                l.synced = true;
            }
        }
    }
    pub fn sync_all(&mut self) {
        for l in &mut self.log {
            if !l.lost {
                l.synced = true;
            }
        }
        self.min_prefix = self.log.len();
    }
    pub fn sync_failed(&mut self, ino: Ino) {
        for l in &mut self.log {
            if l.op.attr_of() == Some(ino) && l.op.is_data() && !l.synced {
                l.lost = true;
            }
        }
    }
    pub fn used(&self) -> usize {
        self.now
            .nodes
            .values()
            .map(|n| match &n.node {
                Node::File(d) => d.len(),
                _ => 0,
            })
            .sum()
    }

    /// The number of different metadata prefixes a power loss now could leave.
    pub fn prefixes(&self) -> Vec<usize> {
        let mut v = vec![self.min_prefix];
        for (i, l) in self.log.iter().enumerate() {
            if !l.op.is_data() && i + 1 > self.min_prefix {
                v.push(i + 1);
            }
        }
        v
    }

    /// What a power loss now leaves on the medium.
    pub fn image(&self, prefix: usize, loss: DataLoss) -> Tree {
        let mut t = self.disk.clone();
        for (i, l) in self.log.iter().enumerate() {
            if !l.op.is_data() {
                if i < prefix || l.synced {
                    t.apply(&l.op);
                }
                continue;
            }
            let Op::Write { ino, off, bytes } = &l.op else { continue };
            // data is reachable only if the truncations before it happened
            let ordered = self.log[..i].iter().enumerate().all(|(j, m)| match &m.op {
                Op::Truncate { ino: k, .. } if k == ino => j < prefix || m.synced,
                _ => true,
            });
            if l.synced {
                t.apply(&l.op);
                continue;
            }
            if !ordered || l.lost {
                continue;
            }
            match loss {
                DataLoss::None => {}
                DataLoss::All => t.apply(&l.op),
                DataLoss::Zeros => {
                    t.apply(&Op::Write { ino: *ino, off: *off, bytes: Rc::new(vec![0; bytes.len()]) });
                }
                DataLoss::Some(h) => {
                    // per sector of 512 bytes: written, zero, or not reached
                    for (s, chunk) in bytes.chunks(512).enumerate() {
                        let r = crate::rng::mix(h, (i as u64) << 32 | s as u64) % 4;
                        let b = match r {
                            0 => continue,
                            1 => {
                                let n = (crate::rng::mix(h, s as u64 + 77) as usize) % (chunk.len() + 1);
                                chunk[..n].to_vec()
                            }
                            _ => chunk.to_vec(),
                        };
                        t.apply(&Op::Write { ino: *ino, off: off + s * 512, bytes: Rc::new(b) });
                    }
                }
            }
        }
        t
    }

    /// The machine lost power and came back.
    pub fn power_loss(&mut self, prefix: usize, loss: DataLoss) {
        let t = self.image(prefix, loss);
        self.now = t.clone();
        self.disk = t;
        self.log.clear();
        self.min_prefix = 0;
    }

    // set-up helpers, not part of any history
    pub fn add_dir(&mut self, path: &str, mode: u32, uid: u32, dev: u32) -> Ino {
        self.add(path, Node::Dir(BTreeMap::new()), S_IFDIR | mode, uid, dev)
    }
    pub fn add_file(&mut self, path: &str, data: &[u8], mode: u32, uid: u32) -> Ino {
        let dev = self.dev_of_parent(path);
        self.add(path, Node::File(Rc::new(data.to_vec())), S_IFREG | mode, uid, dev)
    }
    pub fn add_symlink(&mut self, path: &str, target: &str) -> Ino {
        let dev = self.dev_of_parent(path);
        self.add(path, Node::Symlink(target.to_string()), S_IFLNK | 0o777, 0, dev)
    }
    pub fn add_special(&mut self, path: &str, mode: u32) -> Ino {
        let dev = self.dev_of_parent(path);
        self.add(path, Node::Special, mode, 0, dev)
    }
    fn dev_of_parent(&self, path: &str) -> u32 {
        let (d, _) = path.rsplit_once('/').unwrap_or(("", path));
        self.now.resolve(if d.is_empty() { "/" } else { d }, true).and_then(|i| self.now.nodes.get(&i)).map_or(1, |n| n.dev)
    }
    fn add(&mut self, path: &str, node: Node, mode: u32, uid: u32, dev: u32) -> Ino {
        let (d, name) = path.rsplit_once('/').unwrap_or(("", path));
        let dir = self
            .now
            .resolve(if d.is_empty() { "/" } else { d }, true)
            .unwrap_or_else(|| crate::harness_error(&format!("no directory for {path}")));
        let ino = self.fresh_ino();
        let inode = Inode { node, mode, uid, gid: uid, dev, mtime: self.born };
        let op = Op::Create { dir, name: name.to_string(), ino, inode };
        self.now.apply(&op);
        self.disk.apply(&op);
        ino
    }
}
