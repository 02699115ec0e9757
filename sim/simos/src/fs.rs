//! In-memory file system with a volatile (page cache) view and a durable view.
//!
//! Durability model (ext4-like, data=writeback, delayed allocation):
//!  * file data written since the file's last fsync may be lost or torn in any subset at power loss;
//!  * directory operations are journalled: at power loss a prefix of the operations since the last
//!    commit survives; fsync of any file or directory commits the journal up to that point;
//!  * a killed process loses nothing that a system call already accepted.
use crate::prng::Rng;
use std::collections::BTreeMap;

pub type Ino = u64;
pub const ROOT: Ino = 1;

#[derive(Clone, Debug)]
pub enum Node {
    File(FileNode),
    Dir(BTreeMap<Vec<u8>, Ino>),
    Sym(Vec<u8>),
}
#[derive(Clone, Debug, Default)]
pub struct FileNode {
    pub data: Data,
    pub durable: Data,
    pub pending: Vec<Pend>,
}
const CHUNK: usize = 1 << 20;
/// File contents, stored in chunks of which absent parts read as zero (so that files of many
/// gigabytes fit, as they do on a real disk with holes).
#[derive(Clone, Debug, Default)]
pub struct Data {
    len: u64,
    chunks: BTreeMap<u64, Vec<u8>>,
}
impl Data {
    pub fn len(&self) -> u64 {
        self.len
    }
    pub fn is_empty(&self) -> bool {
        self.len == 0
    }
    pub fn set_len(&mut self, n: u64) {
        if n < self.len {
            let k = n / CHUNK as u64;
            let _ = self.chunks.split_off(&(k + 1));
            if let Some(c) = self.chunks.get_mut(&k) {
                c.truncate((n % CHUNK as u64) as usize);
            }
        }
        self.len = n;
    }
    pub fn write(&mut self, mut off: u64, mut b: &[u8]) {
        self.len = self.len.max(off + b.len() as u64);
        while !b.is_empty() {
            let k = off / CHUNK as u64;
            let o = (off % CHUNK as u64) as usize;
            let n = (CHUNK - o).min(b.len());
            let part = &b[..n];
            match self.chunks.get_mut(&k) {
                Some(c) => {
                    if c.len() < o + n {
                        c.resize(o + n, 0);
                    }
                    c[o..o + n].copy_from_slice(part);
                }
                None if n >= 4096 && part.iter().all(|x| *x == 0) => {}
                None => {
                    let mut c = vec![0; o];
                    c.extend_from_slice(part);
                    self.chunks.insert(k, c);
                }
            }
            off += n as u64;
            b = &b[n..];
        }
    }
    /// fills `out` from `off`; the range has to lie inside the file
    pub fn read(&self, mut off: u64, mut out: &mut [u8]) {
        while !out.is_empty() {
            let k = off / CHUNK as u64;
            let o = (off % CHUNK as u64) as usize;
            let n = (CHUNK - o).min(out.len());
            let (part, rest) = std::mem::take(&mut out).split_at_mut(n);
            let have = self.chunks.get(&k).map(|c| &c[o.min(c.len())..(o + n).min(c.len())]).unwrap_or(&[]);
            part[..have.len()].copy_from_slice(have);
            part[have.len()..].fill(0);
            off += n as u64;
            out = rest;
        }
    }
    pub fn to_vec(&self) -> Vec<u8> {
        let mut v = vec![0; self.len as usize];
        self.read(0, &mut v);
        v
    }
}
impl From<&[u8]> for Data {
    fn from(b: &[u8]) -> Data {
        let mut d = Data::default();
        d.write(0, b);
        d
    }
}
#[derive(Clone, Debug)]
pub enum Pend {
    Write { off: u64, data: Vec<u8> },
    Zero { off: u64, len: u64 },
    Trunc(u64),
}
#[derive(Clone, Debug)]
pub struct Inode {
    pub node: Node,
    pub parent: Ino, // for directories
    pub mode: u32,
    pub mtime: u64,
    pub nlink: u32,
    pub opens: u32,
}
#[derive(Clone, Debug)]
pub enum Meta {
    Add { dir: Ino, name: Vec<u8>, ino: Ino },
    Del { dir: Ino, name: Vec<u8> },
    Move { d1: Ino, n1: Vec<u8>, d2: Ino, n2: Vec<u8>, ino: Ino },
}
#[derive(Clone, Debug)]
pub struct Fs {
    pub inodes: BTreeMap<Ino, Inode>,
    pub next: Ino,
    /// durable directory tree: dir ino -> entries
    pub ddirs: BTreeMap<Ino, BTreeMap<Vec<u8>, Ino>>,
    pub journal: Vec<Meta>,
    pub cwd: Vec<u8>,
    /// every namespace or content change: (operation, canonical path)
    pub mutations: Vec<(&'static str, Vec<u8>)>,
}
pub type R<T> = Result<T, i32>;

fn is_dir(n: &Node) -> bool {
    matches!(n, Node::Dir(_))
}

impl Default for Fs {
    fn default() -> Self {
        Self::new()
    }
}
impl Fs {
    pub fn new() -> Self {
        let mut f = Fs {
            inodes: BTreeMap::new(),
            next: 2,
            ddirs: BTreeMap::new(),
            journal: vec![],
            cwd: b"/".to_vec(),
            mutations: vec![],
        };
        f.inodes.insert(ROOT, Inode { node: Node::Dir(BTreeMap::new()), parent: ROOT, mode: 0o755, mtime: 0, nlink: 2, opens: 0 });
        f.ddirs.insert(ROOT, BTreeMap::new());
        f
    }
    pub fn node(&self, i: Ino) -> R<&Inode> {
        self.inodes.get(&i).ok_or(libc::ENOENT)
    }
    fn dir(&self, i: Ino) -> R<&BTreeMap<Vec<u8>, Ino>> {
        match &self.node(i)?.node {
            Node::Dir(d) => Ok(d),
            _ => Err(libc::ENOTDIR),
        }
    }
    fn dir_mut(&mut self, i: Ino) -> R<&mut BTreeMap<Vec<u8>, Ino>> {
        match &mut self.inodes.get_mut(&i).ok_or(libc::ENOENT)?.node {
            Node::Dir(d) => Ok(d),
            _ => Err(libc::ENOTDIR),
        }
    }
    pub fn file_mut(&mut self, i: Ino) -> R<&mut FileNode> {
        match &mut self.inodes.get_mut(&i).ok_or(libc::EBADF)?.node {
            Node::File(f) => Ok(f),
            _ => Err(libc::EISDIR),
        }
    }
    pub fn file(&self, i: Ino) -> R<&FileNode> {
        match &self.node(i)?.node {
            Node::File(f) => Ok(f),
            _ => Err(libc::EISDIR),
        }
    }
    /// Resolve to (parent dir, last component name, inode if it exists). Root resolves to (ROOT, "", Some).
    pub fn walk(&self, base: Option<Ino>, path: &[u8], follow: bool) -> R<(Ino, Vec<u8>, Option<Ino>)> {
        self.walk_d(base, path, follow, 0)
    }
    fn walk_d(&self, base: Option<Ino>, path: &[u8], follow: bool, depth: u32) -> R<(Ino, Vec<u8>, Option<Ino>)> {
        if depth > 40 {
            return Err(libc::ELOOP);
        }
        if path.is_empty() {
            return Err(libc::ENOENT);
        }
        if path.len() > 4095 {
            return Err(libc::ENAMETOOLONG);
        }
        let mut cur: Ino = if path[0] == b'/' {
            ROOT
        } else if let Some(b) = base {
            b
        } else {
            let c = self.cwd.clone();
            self.walk_d(Some(ROOT), &c, true, depth + 1)?.2.ok_or(libc::ENOENT)?
        };
        let trailing = path.len() > 1 && path.ends_with(b"/");
        let comps: Vec<&[u8]> = path.split(|c| *c == b'/').filter(|c| !c.is_empty()).collect();
        if comps.is_empty() {
            return Ok((ROOT, vec![], Some(ROOT)));
        }
        let mut parent = cur;
        let mut name: Vec<u8> = vec![];
        let mut res: Option<Ino> = Some(cur);
        for (k, c) in comps.iter().enumerate() {
            let last = k + 1 == comps.len();
            let n = self.node(cur)?;
            if !is_dir(&n.node) {
                return Err(libc::ENOTDIR);
            }
            if c.len() > 255 {
                return Err(libc::ENAMETOOLONG);
            }
            if *c == b"." {
                parent = n.parent;
                name = b".".to_vec();
                res = Some(cur);
                continue;
            }
            if *c == b".." {
                let up = n.parent;
                parent = up;
                name = b"..".to_vec();
                cur = up;
                res = Some(cur);
                continue;
            }
            match self.dir(cur)?.get(*c) {
                None => {
                    if last {
                        return Ok((cur, c.to_vec(), None));
                    }
                    return Err(libc::ENOENT);
                }
                Some(&i) => {
                    if let Node::Sym(t) = &self.node(i)?.node {
                        if !last || follow || trailing {
                            let (p, n2, r) = self.walk_d(Some(cur), t, true, depth + 1)?;
                            if last {
                                return Ok((p, n2, r));
                            }
                            cur = r.ok_or(libc::ENOENT)?;
                            res = Some(cur);
                            continue;
                        }
                    }
                    parent = cur;
                    name = c.to_vec();
                    cur = i;
                    res = Some(i);
                }
            }
        }
        if trailing {
            if let Some(i) = res {
                if !is_dir(&self.node(i)?.node) {
                    return Err(libc::ENOTDIR);
                }
            }
        }
        Ok((parent, name, res))
    }
    pub fn lookup(&self, base: Option<Ino>, path: &[u8], follow: bool) -> R<Ino> {
        self.walk(base, path, follow)?.2.ok_or(libc::ENOENT)
    }
    /// canonical absolute path of a directory inode plus name
    pub fn dir_path(&self, mut i: Ino) -> Vec<u8> {
        let mut parts: Vec<Vec<u8>> = vec![];
        let mut guard = 0;
        while i != ROOT && guard < 200 {
            guard += 1;
            let p = match self.inodes.get(&i) {
                Some(n) => n.parent,
                None => break,
            };
            if let Ok(d) = self.dir(p) {
                if let Some((n, _)) = d.iter().find(|(_, v)| **v == i) {
                    parts.push(n.clone());
                }
            }
            i = p;
        }
        let mut o = vec![];
        for p in parts.iter().rev() {
            o.push(b'/');
            o.extend_from_slice(p);
        }
        if o.is_empty() {
            o.push(b'/');
        }
        o
    }
    pub fn join_path(&self, dir: Ino, name: &[u8]) -> Vec<u8> {
        let mut p = self.dir_path(dir);
        if !p.ends_with(b"/") {
            p.push(b'/');
        }
        p.extend_from_slice(name);
        p
    }
    fn mutate(&mut self, op: &'static str, p: Vec<u8>) {
        self.mutations.push((op, p));
    }
    fn add(&mut self, dir: Ino, name: &[u8], node: Node, mode: u32, now: u64) -> R<Ino> {
        if name.is_empty() || name == b"." || name == b".." {
            return Err(libc::EEXIST);
        }
        let i = self.next;
        self.next += 1;
        let d = matches!(node, Node::Dir(_));
        self.inodes.insert(i, Inode { node, parent: dir, mode, mtime: now, nlink: if d { 2 } else { 1 }, opens: 0 });
        self.dir_mut(dir)?.insert(name.to_vec(), i);
        if d {
            self.ddirs.insert(i, BTreeMap::new());
        }
        self.journal.push(Meta::Add { dir, name: name.to_vec(), ino: i });
        Ok(i)
    }
    pub fn create_file(&mut self, dir: Ino, name: &[u8], mode: u32, now: u64) -> R<Ino> {
        let p = self.join_path(dir, name);
        let r = self.add(dir, name, Node::File(FileNode::default()), mode, now)?;
        self.mutate("create", p);
        Ok(r)
    }
    pub fn mkdir(&mut self, base: Option<Ino>, path: &[u8], mode: u32, now: u64) -> R<()> {
        let (d, n, e) = self.walk(base, path, false)?;
        if e.is_some() {
            return Err(libc::EEXIST);
        }
        let p = self.join_path(d, &n);
        self.add(d, &n, Node::Dir(BTreeMap::new()), mode, now)?;
        self.mutate("mkdir", p);
        Ok(())
    }
    pub fn symlink(&mut self, base: Option<Ino>, target: &[u8], path: &[u8], now: u64) -> R<()> {
        let (d, n, e) = self.walk(base, path, false)?;
        if e.is_some() {
            return Err(libc::EEXIST);
        }
        let p = self.join_path(d, &n);
        self.add(d, &n, Node::Sym(target.to_vec()), 0o777, now)?;
        self.mutate("symlink", p);
        Ok(())
    }
    pub fn link(&mut self, base: Option<Ino>, old: &[u8], base2: Option<Ino>, new: &[u8]) -> R<()> {
        let i = self.lookup(base, old, false)?;
        if is_dir(&self.node(i)?.node) {
            return Err(libc::EPERM);
        }
        let (d0, _, _) = self.walk(base, old, false)?;
        let (d, n, e) = self.walk(base2, new, false)?;
        if e.is_some() {
            return Err(libc::EEXIST);
        }
        if self.device(d0) != self.device(d) {
            return Err(libc::EXDEV);
        }
        let p = self.join_path(d, &n);
        self.dir_mut(d)?.insert(n.clone(), i);
        self.inodes.get_mut(&i).unwrap().nlink += 1;
        self.journal.push(Meta::Add { dir: d, name: n, ino: i });
        self.mutate("link", p);
        Ok(())
    }
    fn drop_link(&mut self, i: Ino) {
        if let Some(n) = self.inodes.get_mut(&i) {
            n.nlink = n.nlink.saturating_sub(if is_dir(&n.node) { 2 } else { 1 });
        }
        // inodes are kept (memory is small): the durable view may still refer to them
    }
    pub fn unlink(&mut self, base: Option<Ino>, path: &[u8]) -> R<()> {
        let (d, n, e) = self.walk(base, path, false)?;
        let i = e.ok_or(libc::ENOENT)?;
        if is_dir(&self.node(i)?.node) {
            return Err(libc::EISDIR);
        }
        let p = self.join_path(d, &n);
        self.dir_mut(d)?.remove(&n);
        self.drop_link(i);
        self.journal.push(Meta::Del { dir: d, name: n });
        self.mutate("unlink", p);
        Ok(())
    }
    pub fn rmdir(&mut self, base: Option<Ino>, path: &[u8]) -> R<()> {
        let (d, n, e) = self.walk(base, path, false)?;
        let i = e.ok_or(libc::ENOENT)?;
        if n == b"." || n == b".." || i == ROOT {
            return Err(libc::EINVAL);
        }
        if !self.dir(i)?.is_empty() {
            return Err(libc::ENOTEMPTY);
        }
        let p = self.join_path(d, &n);
        self.dir_mut(d)?.remove(&n);
        self.drop_link(i);
        self.journal.push(Meta::Del { dir: d, name: n });
        self.mutate("rmdir", p);
        Ok(())
    }
    /// Each directory below the root is a file system of its own: nothing is renamed or linked across.
    fn device(&self, mut d: Ino) -> Ino {
        while let Some(n) = self.inodes.get(&d) {
            if n.parent == ROOT || n.parent == d {
                break;
            }
            d = n.parent;
        }
        d
    }
    pub fn rename(&mut self, b1: Option<Ino>, old: &[u8], b2: Option<Ino>, new: &[u8], noreplace: bool) -> R<()> {
        let (d1, n1, e1) = self.walk(b1, old, false)?;
        let i = e1.ok_or(libc::ENOENT)?;
        let (d2, n2, e2) = self.walk(b2, new, false)?;
        if n1 == b"." || n1 == b".." || n2 == b"." || n2 == b".." || i == ROOT {
            return Err(libc::EBUSY);
        }
        if self.device(d1) != self.device(d2) {
            return Err(libc::EXDEV);
        }
        let src_dir = is_dir(&self.node(i)?.node);
        if let Some(t) = e2 {
            if noreplace {
                return Err(libc::EEXIST);
            }
            if t == i {
                return Ok(());
            }
            let t_dir = is_dir(&self.node(t)?.node);
            if t_dir && !src_dir {
                return Err(libc::EISDIR);
            }
            if !t_dir && src_dir {
                return Err(libc::ENOTDIR);
            }
            if t_dir && !self.dir(t)?.is_empty() {
                return Err(libc::ENOTEMPTY);
            }
            self.drop_link(t);
        } else if new.ends_with(b"/") && !src_dir {
            return Err(libc::ENOTDIR);
        }
        let p1 = self.join_path(d1, &n1);
        let p2 = self.join_path(d2, &n2);
        self.dir_mut(d1)?.remove(&n1);
        self.dir_mut(d2)?.insert(n2.clone(), i);
        if src_dir {
            self.inodes.get_mut(&i).unwrap().parent = d2;
        }
        self.journal.push(Meta::Move { d1, n1, d2, n2, ino: i });
        self.mutate("rename-from", p1);
        self.mutate("rename-to", p2);
        Ok(())
    }
    pub fn write_at(&mut self, i: Ino, off: u64, b: &[u8], now: u64) -> R<()> {
        let f = self.file_mut(i)?;
        f.data.write(off, b);
        f.pending.push(if b.len() >= CHUNK && b.iter().all(|x| *x == 0) { Pend::Zero { off, len: b.len() as u64 } } else { Pend::Write { off, data: b.to_vec() } });
        self.inodes.get_mut(&i).unwrap().mtime = now;
        Ok(())
    }
    pub fn truncate(&mut self, i: Ino, len: u64, now: u64) -> R<()> {
        let f = self.file_mut(i)?;
        if len > (1 << 40) {
            return Err(libc::EFBIG);
        }
        if f.data.len() == len {
            return Ok(());
        }
        f.data.set_len(len);
        f.pending.push(Pend::Trunc(len));
        self.inodes.get_mut(&i).unwrap().mtime = now;
        Ok(())
    }
    pub fn commit_journal(&mut self) {
        let j = std::mem::take(&mut self.journal);
        for m in &j {
            apply_meta(&mut self.ddirs, m);
        }
    }
    pub fn fsync(&mut self, i: Ino) {
        if let Some(n) = self.inodes.get_mut(&i) {
            if let Node::File(f) = &mut n.node {
                f.durable = f.data.clone();
                f.pending.clear();
            }
        }
        self.commit_journal();
    }
    /// make everything durable (a quiescent, long-synced disk)
    pub fn sync_all(&mut self) {
        self.commit_journal();
        for n in self.inodes.values_mut() {
            if let Node::File(f) = &mut n.node {
                f.durable = f.data.clone();
                f.pending.clear();
            }
        }
    }
    /// the state a machine reboots with
    pub fn power_loss(&mut self, r: &mut Rng) -> String {
        let keep = match r.below(4) {
            0 => 0,
            1 | 2 => self.journal.len() as u64,
            _ => r.below(self.journal.len() as u64 + 1),
        } as usize;
        let lost_meta = self.journal.len() - keep;
        let j = std::mem::take(&mut self.journal);
        for m in &j[..keep] {
            apply_meta(&mut self.ddirs, m);
        }
        let mut lost_w = 0;
        for n in self.inodes.values_mut() {
            if let Node::File(f) = &mut n.node {
                let pend = std::mem::take(&mut f.pending);
                if pend.is_empty() {
                    f.data = f.durable.clone();
                    continue;
                }
                let mode = r.below(5);
                let mut d = f.durable.clone();
                let cut = r.below(pend.len() as u64 + 1) as usize;
                for (k, p) in pend.iter().enumerate() {
                    let keep = match mode {
                        0 => false,
                        1 => true,
                        2 => k < cut,
                        _ => r.below(100) < 70,
                    };
                    if !keep {
                        lost_w += 1;
                        continue;
                    }
                    match p {
                        Pend::Write { off, data } if mode == 4 => {
                            // torn: each 512-byte sector independently reaches the platter
                            let mut o = 0usize;
                            while o < data.len() {
                                let n = (512 - ((*off as usize + o) % 512)).min(data.len() - o);
                                if r.below(100) < 75 {
                                    apply(&mut d, &Pend::Write { off: off + o as u64, data: data[o..o + n].to_vec() });
                                } else {
                                    lost_w += 1;
                                }
                                o += n;
                            }
                        }
                        p => apply(&mut d, p),
                    }
                }
                f.durable = d.clone();
                f.data = d;
            }
        }
        // rebuild the volatile tree from the durable one
        let dd = self.ddirs.clone();
        for (i, e) in dd {
            if let Some(n) = self.inodes.get_mut(&i) {
                n.node = Node::Dir(e.clone());
                for (_, c) in e {
                    if let Some(cn) = self.inodes.get_mut(&c) {
                        if is_dir(&cn.node) {
                            cn.parent = i;
                        }
                    }
                }
            }
        }
        format!("power loss: {} directory ops and {} writes lost", lost_meta, lost_w)
    }
    pub fn used(&self) -> u64 {
        self.inodes.values().filter(|n| n.nlink > 0 || n.opens > 0).map(|n| if let Node::File(f) = &n.node { f.data.len() } else { 0 }).sum()
    }
    // ---- conveniences for the harness (not fault-injected) ----
    pub fn put_dirs(&mut self, path: &str) {
        let mut cur = String::new();
        for c in path.split('/').filter(|c| !c.is_empty()) {
            cur.push('/');
            cur.push_str(c);
            let _ = self.mkdir(None, cur.as_bytes(), 0o755, 0);
        }
    }
    pub fn put(&mut self, path: &str, data: &[u8]) {
        if let Some(k) = path.rfind('/') {
            if k > 0 {
                self.put_dirs(&path[..k]);
            }
        }
        let (d, n, e) = self.walk(None, path.as_bytes(), true).expect("put: bad path");
        let i = match e {
            Some(i) => i,
            None => self.create_file(d, &n, 0o644, 0).expect("put"),
        };
        let f = self.file_mut(i).expect("put: not a file");
        f.data = Data::from(data);
        f.durable = f.data.clone();
        f.pending.clear();
        self.commit_journal();
        self.mutations.clear();
    }
    /// a file of `len` zero bytes except for `parts`
    pub fn put_sparse(&mut self, path: &str, len: u64, parts: &[(u64, Vec<u8>)]) {
        self.put(path, b"");
        let i = self.lookup(None, path.as_bytes(), true).expect("put_sparse");
        let f = self.file_mut(i).expect("put_sparse");
        f.data.set_len(len);
        for (o, b) in parts {
            f.data.write(*o, b);
        }
        f.durable = f.data.clone();
    }
    pub fn get(&self, path: &str) -> Option<Vec<u8>> {
        let i = self.lookup(None, path.as_bytes(), true).ok()?;
        self.file(i).ok().map(|f| f.data.to_vec())
    }
    pub fn exists(&self, path: &str) -> bool {
        self.lookup(None, path.as_bytes(), false).is_ok()
    }
    /// all paths (files: Some(contents), dirs: None), volatile view
    pub fn tree(&self) -> BTreeMap<String, Option<Vec<u8>>> {
        let mut o = BTreeMap::new();
        self.tree_at(ROOT, "", &mut o);
        o
    }
    /// every entry in parent-before-child order: (path, kind d/f/l, contents or link target)
    pub fn entries(&self) -> Vec<(Vec<u8>, char, Vec<u8>)> {
        let mut o = vec![];
        self.entries_at(ROOT, &[], &mut o);
        o
    }
    fn entries_at(&self, i: Ino, pre: &[u8], o: &mut Vec<(Vec<u8>, char, Vec<u8>)>) {
        if let Ok(d) = self.dir(i) {
            for (n, c) in d {
                let p = [pre, b"/", n].concat();
                match self.inodes.get(c).map(|x| &x.node) {
                    Some(Node::File(f)) => o.push((p, 'f', f.data.to_vec())),
                    Some(Node::Sym(t)) => o.push((p, 'l', t.clone())),
                    Some(Node::Dir(_)) => {
                        o.push((p.clone(), 'd', vec![]));
                        self.entries_at(*c, &p, o);
                    }
                    None => {}
                }
            }
        }
    }
    pub fn put_entry(&mut self, path: &[u8], kind: char, data: &[u8]) -> R<()> {
        match kind {
            'd' => match self.mkdir(None, path, 0o755, 0) {
                Err(libc::EEXIST) => Ok(()),
                r => r,
            },
            'l' => self.symlink(None, data, path, 0),
            _ => {
                let w = self.walk(None, path, true)?;
                let i = match w.2 {
                    Some(i) => i,
                    None => self.create_file(w.0, &w.1, 0o644, 0)?,
                };
                self.truncate(i, 0, 0)?;
                self.write_at(i, 0, data, 0)
            }
        }
    }
    fn tree_at(&self, i: Ino, pre: &str, o: &mut BTreeMap<String, Option<Vec<u8>>>) {
        if let Ok(d) = self.dir(i) {
            for (n, c) in d {
                let p = format!("{}/{}", pre, n.iter().map(|b| if (32..127).contains(b) { (*b as char).to_string() } else { format!("\\x{:02x}", b) }).collect::<String>());
                match self.inodes.get(c).map(|x| &x.node) {
                    Some(Node::File(f)) => {
                        o.insert(p, Some(f.data.to_vec()));
                    }
                    Some(Node::Dir(_)) => {
                        o.insert(p.clone(), None);
                        self.tree_at(*c, &p, o);
                    }
                    Some(Node::Sym(t)) => {
                        o.insert(p, Some([b"SYMLINK:".as_slice(), t].concat()));
                    }
                    None => {}
                }
            }
        }
    }
}
fn apply(d: &mut Data, p: &Pend) {
    match p {
        Pend::Write { off, data } => d.write(*off, data),
        Pend::Zero { off, len } => {
            let z = vec![0u8; CHUNK];
            let (mut o, end) = (*off, off + len);
            while o < end {
                let n = (CHUNK as u64).min(end - o);
                d.write(o, &z[..n as usize]);
                o += n;
            }
        }
        Pend::Trunc(n) => d.set_len(*n),
    }
}
fn apply_meta(dd: &mut BTreeMap<Ino, BTreeMap<Vec<u8>, Ino>>, m: &Meta) {
    match m {
        Meta::Add { dir, name, ino } => {
            dd.entry(*dir).or_default().insert(name.clone(), *ino);
        }
        Meta::Del { dir, name } => {
            dd.entry(*dir).or_default().remove(name);
        }
        Meta::Move { d1, n1, d2, n2, ino } => {
            dd.entry(*d1).or_default().remove(n1);
            dd.entry(*d2).or_default().insert(n2.clone(), *ino);
        }
    }
}
