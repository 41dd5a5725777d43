//! The simulated file system: an in-memory tree of inodes, plus a model of
//! what would be on the disk if the power failed now.
//!
//! Durability model (ext4-like, deliberately weak but legal):
//! * namespace changes go to a journal; a power failure keeps some prefix of
//!   it, at least up to the last commit (any fsync/sync commits it);
//! * data written or truncated since a file's last fsync is kept in part: any
//!   prefix of the operations, torn at 512-byte sectors, with unwritten
//!   sectors reading as zeros or old bytes, or the size change alone.
use crate::rng::Rng;
use std::collections::BTreeMap;
use std::sync::Arc;

pub type Ino = u64;
pub const ROOT: Ino = 1;

pub mod e {
    pub const EPERM: i32 = 1;
    pub const ENOENT: i32 = 2;
    pub const EINTR: i32 = 4;
    pub const EIO: i32 = 5;
    pub const ECHILD: i32 = 10;
    pub const EAGAIN: i32 = 11;
    pub const EBADF: i32 = 9;
    pub const EACCES: i32 = 13;
    pub const EEXIST: i32 = 17;
    pub const EXDEV: i32 = 18;
    pub const ENOTDIR: i32 = 20;
    pub const EISDIR: i32 = 21;
    pub const EINVAL: i32 = 22;
    pub const EMFILE: i32 = 24;
    pub const ENOSPC: i32 = 28;
    pub const ESPIPE: i32 = 29;
    pub const EROFS: i32 = 30;
    pub const EPIPE: i32 = 32;
    pub const ENAMETOOLONG: i32 = 36;
    pub const ENOTEMPTY: i32 = 39;
    pub const ELOOP: i32 = 40;
}
use e::*;

#[derive(Clone, Debug, PartialEq)]
pub enum Body {
    File(Arc<Vec<u8>>),
    Dir(BTreeMap<String, Ino>),
    Link(String),
}
#[derive(Clone, Debug)]
pub struct Node {
    pub body: Body,
    pub mode: u32,
    pub mtime: i64,
    pub nlink: u32,
    pub open: u32,
}
#[derive(Clone, Debug)]
enum DataOp {
    Write(u64, Arc<Vec<u8>>),
    SetLen(u64),
}
#[derive(Clone, Debug)]
enum MetaOp {
    Create(Ino, Body, u32),
    Link(Ino, String, Ino),
    Unlink(Ino, String),
    Rename(Ino, String, Ino, String),
    Chmod(Ino, u32),
}
#[derive(Clone, Debug)]
struct DNode {
    body: Body,
    mode: u32,
}
#[derive(Clone, Debug)]
pub struct Fs {
    nodes: BTreeMap<Ino, Node>,
    next: Ino,
    disk: BTreeMap<Ino, DNode>,
    journal: Vec<MetaOp>,
    pending: BTreeMap<Ino, Vec<DataOp>>,
    pub free: Option<u64>,
    pub now: i64,
}

#[derive(Clone, Debug)]
pub struct Resolved {
    pub parent: Ino,
    pub name: String,
    pub ino: Option<Ino>,
    pub abs: String,
}

fn apply(body: &mut Vec<u8>, op: &DataOp) {
    match op {
        DataOp::SetLen(n) => body.resize(*n as usize, 0),
        DataOp::Write(off, d) => {
            let off = *off as usize;
            if body.len() < off + d.len() {
                body.resize(off + d.len(), 0);
            }
            body[off..off + d.len()].copy_from_slice(d);
        }
    }
}

impl Fs {
    pub fn new() -> Fs {
        let mut f = Fs {
            nodes: BTreeMap::new(),
            next: 2,
            disk: BTreeMap::new(),
            journal: vec![],
            pending: BTreeMap::new(),
            free: None,
            now: 0,
        };
        f.nodes.insert(
            ROOT,
            Node { body: Body::Dir(BTreeMap::new()), mode: 0o755, mtime: 0, nlink: 1, open: 0 },
        );
        f.checkpoint();
        f
    }
    /// Everything currently visible becomes durable.
    pub fn checkpoint(&mut self) {
        self.disk = self
            .nodes
            .iter()
            .map(|(i, n)| (*i, DNode { body: n.body.clone(), mode: n.mode }))
            .collect();
        self.journal.clear();
        self.pending.clear();
    }
    pub fn node(&self, i: Ino) -> &Node {
        &self.nodes[&i]
    }
    fn nm(&mut self, i: Ino) -> &mut Node {
        self.nodes.get_mut(&i).unwrap()
    }
    pub fn open_ref(&mut self, i: Ino) {
        self.nm(i).open += 1
    }
    pub fn close_ref(&mut self, i: Ino) {
        self.nm(i).open -= 1;
        self.gc(i);
    }
    fn gc(&mut self, i: Ino) {
        let n = &self.nodes[&i];
        if n.nlink == 0 && n.open == 0 {
            if let Body::File(d) = &n.body {
                let l = d.len() as u64;
                if let Some(f) = self.free.as_mut() {
                    *f += l;
                }
            }
            self.nodes.remove(&i);
        }
    }
    fn dir(&self, i: Ino) -> Result<&BTreeMap<String, Ino>, i32> {
        match &self.nodes[&i].body {
            Body::Dir(d) => Ok(d),
            _ => Err(ENOTDIR),
        }
    }
    /// Resolves `path` from `cwd` (absolute).  The last component may be absent.
    /// The absolute path with all symbolic links but a final one resolved, as
    /// far down as it exists.
    pub fn place(&self, path: &str) -> String {
        if !path.starts_with('/') {
            return path.to_string();
        }
        let mut rest: Vec<&str> = vec![];
        let mut p = path;
        while let Some(k) = p.rfind('/') {
            rest.push(&p[k + 1..]);
            p = &p[..k];
            if let Ok(r) = self.resolve("/", if p.is_empty() { "/" } else { p }, true) {
                if r.ino.is_some() {
                    let mut s = if r.abs == "/" { String::new() } else { r.abs };
                    for c in rest.iter().rev().filter(|c| !c.is_empty()) {
                        s.push('/');
                        s.push_str(c);
                    }
                    return if s.is_empty() { "/".into() } else { s };
                }
            }
        }
        path.to_string()
    }
    pub fn resolve(&self, cwd: &str, path: &str, follow_last: bool) -> Result<Resolved, i32> {
        if path.is_empty() {
            return Err(ENOENT);
        }
        let full = if path.starts_with('/') { path.to_string() } else { format!("{}/{}", cwd, path) };
        let mut todo: Vec<String> = full.split('/').filter(|c| !c.is_empty()).rev().map(|s| s.to_string()).collect();
        let must_dir = full.ends_with('/') || full.ends_with("/.");
        let mut stack: Vec<(Ino, String)> = vec![(ROOT, String::new())];
        let mut links = 0;
        while let Some(c) = todo.pop() {
            let cur = stack.last().unwrap().0;
            if c == "." {
                self.dir(cur)?;
                continue;
            }
            if c == ".." {
                self.dir(cur)?;
                if stack.len() > 1 {
                    stack.pop();
                }
                continue;
            }
            if c.len() > 255 {
                return Err(ENAMETOOLONG);
            }
            let d = self.dir(cur)?;
            match d.get(&c) {
                None => {
                    if todo.iter().all(|c| c == ".") {
                        let abs = format!("{}/{}", join(&stack), c);
                        return Ok(Resolved { parent: cur, name: c, ino: None, abs });
                    }
                    return Err(ENOENT);
                }
                Some(&i) => {
                    let n = &self.nodes[&i];
                    if let Body::Link(t) = &n.body {
                        if !todo.is_empty() || follow_last || must_dir {
                            links += 1;
                            if links > 40 {
                                return Err(ELOOP);
                            }
                            if t.starts_with('/') {
                                stack.truncate(1);
                            }
                            for c in t.split('/').filter(|c| !c.is_empty()).rev() {
                                todo.push(c.to_string());
                            }
                            continue;
                        }
                    }
                    stack.push((i, c));
                }
            }
        }
        let abs = join(&stack);
        let (ino, name) = stack.pop().unwrap();
        if must_dir && !matches!(self.nodes[&ino].body, Body::Dir(_)) {
            return Err(ENOTDIR);
        }
        let parent = stack.last().map(|x| x.0).unwrap_or(ROOT);
        Ok(Resolved { parent, name, ino: Some(ino), abs: if abs.is_empty() { "/".into() } else { abs } })
    }
    fn insert(&mut self, parent: Ino, name: &str, body: Body, mode: u32) -> Ino {
        let i = self.next;
        self.next += 1;
        let t = self.now;
        self.nodes.insert(i, Node { body: body.clone(), mode, mtime: t, nlink: 1, open: 0 });
        self.journal.push(MetaOp::Create(i, body, mode));
        self.journal.push(MetaOp::Link(parent, name.to_string(), i));
        if let Body::Dir(d) = &mut self.nm(parent).body {
            d.insert(name.to_string(), i);
        }
        self.nm(parent).mtime = t;
        i
    }
    pub fn create(&mut self, r: &Resolved, mode: u32) -> Result<Ino, i32> {
        if self.free == Some(0) {
            return Err(ENOSPC);
        }
        Ok(self.insert(r.parent, &r.name, Body::File(Arc::new(vec![])), mode))
    }
    pub fn mkdir(&mut self, cwd: &str, p: &str, mode: u32) -> Result<(), i32> {
        let r = self.resolve(cwd, p, false)?;
        if r.ino.is_some() {
            return Err(EEXIST);
        }
        if self.free == Some(0) {
            return Err(ENOSPC);
        }
        self.insert(r.parent, &r.name, Body::Dir(BTreeMap::new()), mode);
        Ok(())
    }
    pub fn symlink(&mut self, cwd: &str, target: &str, p: &str) -> Result<(), i32> {
        let r = self.resolve(cwd, p, false)?;
        if r.ino.is_some() {
            return Err(EEXIST);
        }
        self.insert(r.parent, &r.name, Body::Link(target.to_string()), 0o777);
        Ok(())
    }
    pub fn link(&mut self, cwd: &str, a: &str, b: &str) -> Result<(), i32> {
        let r = self.resolve(cwd, a, false)?;
        let i = r.ino.ok_or(ENOENT)?;
        if matches!(self.node(i).body, Body::Dir(_)) {
            return Err(EPERM);
        }
        let s = self.resolve(cwd, b, false)?;
        if s.ino.is_some() {
            return Err(EEXIST);
        }
        self.nm(i).nlink += 1;
        if let Body::Dir(d) = &mut self.nm(s.parent).body {
            d.insert(s.name.clone(), i);
        }
        self.journal.push(MetaOp::Link(s.parent, s.name, i));
        Ok(())
    }
    pub fn unlink(&mut self, cwd: &str, p: &str) -> Result<(), i32> {
        let r = self.resolve(cwd, p, false)?;
        let i = r.ino.ok_or(ENOENT)?;
        if matches!(self.node(i).body, Body::Dir(_)) {
            return Err(EISDIR);
        }
        self.detach(r.parent, &r.name, i);
        self.journal.push(MetaOp::Unlink(r.parent, r.name));
        Ok(())
    }
    fn detach(&mut self, parent: Ino, name: &str, i: Ino) {
        let t = self.now;
        if let Body::Dir(d) = &mut self.nm(parent).body {
            d.remove(name);
        }
        self.nm(parent).mtime = t;
        self.nm(i).nlink -= 1;
        self.gc(i);
    }
    pub fn rmdir(&mut self, cwd: &str, p: &str) -> Result<(), i32> {
        let r = self.resolve(cwd, p, false)?;
        let i = r.ino.ok_or(ENOENT)?;
        if !self.dir(i)?.is_empty() {
            return Err(ENOTEMPTY);
        }
        self.detach(r.parent, &r.name, i);
        self.journal.push(MetaOp::Unlink(r.parent, r.name));
        Ok(())
    }
    pub fn rename(&mut self, cwd: &str, a: &str, b: &str, noreplace: bool) -> Result<(), i32> {
        let r = self.resolve(cwd, a, false)?;
        let i = r.ino.ok_or(ENOENT)?;
        let s = self.resolve(cwd, b, false)?;
        let idir = matches!(self.node(i).body, Body::Dir(_));
        if let Some(j) = s.ino {
            if noreplace {
                return Err(EEXIST);
            }
            if i == j {
                return Ok(());
            }
            let jdir = matches!(self.node(j).body, Body::Dir(_));
            if idir && !jdir {
                return Err(ENOTDIR);
            }
            if !idir && jdir {
                return Err(EISDIR);
            }
            if jdir && !self.dir(j)?.is_empty() {
                return Err(ENOTEMPTY);
            }
        }
        if idir && (s.abs.starts_with(&format!("{}/", r.abs))) {
            return Err(EINVAL);
        }
        if let Some(j) = s.ino {
            self.detach(s.parent, &s.name, j);
        }
        if let Body::Dir(d) = &mut self.nm(r.parent).body {
            d.remove(&r.name);
        }
        if let Body::Dir(d) = &mut self.nm(s.parent).body {
            d.insert(s.name.clone(), i);
        }
        self.journal.push(MetaOp::Rename(r.parent, r.name, s.parent, s.name));
        Ok(())
    }
    pub fn chmod(&mut self, i: Ino, mode: u32) {
        self.nm(i).mode = mode & 0o7777;
        self.journal.push(MetaOp::Chmod(i, mode & 0o7777));
    }
    pub fn set_mtime(&mut self, i: Ino, t: i64) {
        self.nm(i).mtime = t;
    }
    pub fn len(&self, i: Ino) -> u64 {
        match &self.node(i).body {
            Body::File(d) => d.len() as u64,
            Body::Link(t) => t.len() as u64,
            _ => 4096,
        }
    }
    pub fn read(&self, i: Ino, off: u64, n: usize) -> Result<&[u8], i32> {
        match &self.node(i).body {
            Body::File(d) => {
                let s = (off as usize).min(d.len());
                Ok(&d[s..(s + n).min(d.len())])
            }
            Body::Dir(_) => Err(EISDIR),
            _ => Err(EINVAL),
        }
    }
    /// Writes as much as the free space allows; returns bytes written.
    pub fn write(&mut self, i: Ino, off: u64, data: &[u8]) -> Result<usize, i32> {
        let old = self.len(i);
        let mut n = data.len() as u64;
        let grow = (off + n).saturating_sub(old);
        if let Some(free) = self.free {
            if grow > free {
                let short = grow - free;
                if short >= n {
                    if n > 0 {
                        return Err(ENOSPC);
                    }
                } else {
                    n -= short;
                }
            }
            let g = (off + n).saturating_sub(old);
            self.free = Some(free - g);
        }
        let op = DataOp::Write(off, Arc::new(data[..n as usize].to_vec()));
        self.data_op(i, op);
        Ok(n as usize)
    }
    pub fn set_len(&mut self, i: Ino, n: u64) -> Result<(), i32> {
        let old = self.len(i);
        if let Some(f) = self.free {
            if n > old && n - old > f {
                return Err(ENOSPC);
            }
            self.free = Some(f + old - n.min(old) - n.saturating_sub(old));
        }
        if n != old {
            self.data_op(i, DataOp::SetLen(n));
        }
        Ok(())
    }
    fn data_op(&mut self, i: Ino, op: DataOp) {
        let t = self.now;
        let n = self.nm(i);
        n.mtime = t;
        if let Body::File(d) = &mut n.body {
            apply(Arc::make_mut(d), &op);
        }
        self.pending.entry(i).or_default().push(op);
    }
    pub fn fsync(&mut self, i: Ino) {
        self.commit();
        self.flush(i);
    }
    pub fn sync(&mut self) {
        self.checkpoint();
    }
    fn flush(&mut self, i: Ino) {
        self.pending.remove(&i);
        if let (Some(n), Some(d)) = (self.nodes.get(&i), self.disk.get_mut(&i)) {
            if let Body::File(_) = n.body {
                d.body = n.body.clone();
            }
        }
    }
    fn commit(&mut self) {
        let ops = std::mem::take(&mut self.journal);
        for op in &ops {
            Self::meta(&mut self.disk, op);
        }
    }
    fn meta(disk: &mut BTreeMap<Ino, DNode>, op: &MetaOp) {
        fn d<'a>(disk: &'a mut BTreeMap<Ino, DNode>, i: &Ino) -> &'a mut BTreeMap<String, Ino> {
            match &mut disk.get_mut(i).unwrap().body {
                Body::Dir(d) => d,
                _ => unreachable!(),
            }
        }
        match op {
            MetaOp::Create(i, b, m) => {
                disk.insert(*i, DNode { body: b.clone(), mode: *m });
            }
            MetaOp::Link(p, n, i) => {
                d(disk, p).insert(n.clone(), *i);
            }
            MetaOp::Unlink(p, n) => {
                d(disk, p).remove(n);
            }
            MetaOp::Rename(p, n, q, m) => {
                if let Some(i) = d(disk, p).remove(n) {
                    d(disk, q).insert(m.clone(), i);
                }
            }
            MetaOp::Chmod(i, m) => {
                if let Some(x) = disk.get_mut(i) {
                    x.mode = *m;
                }
            }
        }
    }
    pub fn unsynced(&self) -> (usize, usize) {
        (self.journal.len(), self.pending.values().map(|v| v.len()).sum())
    }
    /// The machine loses power: what remains is some legal on-disk state.
    pub fn power_loss(&mut self, rng: &mut Rng) {
        let keep = match rng.below(4) {
            0 => 0,
            1 | 2 => self.journal.len(),
            _ => rng.below(self.journal.len() + 1),
        };
        let mut disk = std::mem::take(&mut self.disk);
        let ops: Vec<MetaOp> = self.journal[..keep].to_vec();
        for op in &ops {
            Self::meta(&mut disk, op);
        }
        for (i, ops) in std::mem::take(&mut self.pending) {
            let Some(n) = disk.get_mut(&i) else { continue };
            let Body::File(d) = &mut n.body else { continue };
            let d = Arc::make_mut(d);
            match rng.below(5) {
                0 => {}
                1 => ops.iter().for_each(|o| apply(d, o)),
                2 => {
                    // sizes changed, data never reached the disk
                    for o in &ops {
                        match o {
                            DataOp::SetLen(_) => apply(d, o),
                            DataOp::Write(..) => {}
                        }
                    }
                }
                3 => {
                    // prefix, last one torn at a sector boundary
                    let k = rng.below(ops.len() + 1);
                    ops[..k].iter().for_each(|o| apply(d, o));
                    if let Some(DataOp::Write(off, b)) = ops.get(k) {
                        let sect = b.len() / 512 + 1;
                        let cut = (rng.below(sect + 1) * 512).min(b.len());
                        apply(d, &DataOp::Write(*off, Arc::new(b[..cut].to_vec())));
                    }
                }
                _ => {
                    // full size, some sectors never written (old bytes or zeros)
                    for o in &ops {
                        match o {
                            DataOp::SetLen(_) => apply(d, o),
                            DataOp::Write(off, b) => {
                                let end = *off as usize + b.len();
                                if d.len() < end {
                                    d.resize(end, 0);
                                }
                                let mut s = 0;
                                while s < b.len() {
                                    let t = (s + 512).min(b.len());
                                    if rng.chance(0.5) {
                                        d[*off as usize + s..*off as usize + t].copy_from_slice(&b[s..t]);
                                    }
                                    s = t;
                                }
                            }
                        }
                    }
                }
            }
        }
        // Rebuild the visible tree from the disk.
        let mut nodes = BTreeMap::new();
        let mut work = vec![ROOT];
        while let Some(i) = work.pop() {
            let dn = &disk[&i];
            if let Some(n) = nodes.get_mut(&i) {
                let n: &mut Node = n;
                n.nlink += 1;
                continue;
            }
            if let Body::Dir(d) = &dn.body {
                work.extend(d.values().copied());
            }
            nodes.insert(i, Node { body: dn.body.clone(), mode: dn.mode, mtime: self.now, nlink: 1, open: 0 });
        }
        self.nodes = nodes;
        self.free = None;
        self.checkpoint();
    }

    // ---- conveniences for scenarios and oracles (always durable) ----
    pub fn mkdirs(&mut self, p: &str) {
        let mut cur = String::new();
        for c in p.split('/').filter(|c| !c.is_empty()) {
            cur = format!("{}/{}", cur, c);
            let _ = self.mkdir("/", &cur, 0o755);
        }
    }
    pub fn put(&mut self, p: &str, data: &[u8]) {
        let free = self.free.take();
        if let Some(k) = p.rfind('/') {
            self.mkdirs(&p[..k]);
        }
        // like an editor's atomic save: a new inode replaces the old one
        let mode = match self.resolve("/", p, false) {
            Ok(Resolved { ino: Some(i), .. }) => {
                let m = self.node(i).mode;
                if !matches!(self.node(i).body, Body::Dir(_)) {
                    let _ = self.unlink("/", p);
                }
                m
            }
            _ => 0o644,
        };
        if let Ok(r) = self.resolve("/", p, false) {
            if r.ino.is_none() {
                let i = self.insert(r.parent, &r.name, Body::File(Arc::new(vec![])), mode);
                self.data_op(i, DataOp::Write(0, Arc::new(data.to_vec())));
                self.flush_all(i);
            }
        }
        self.free = free;
    }
    fn flush_all(&mut self, i: Ino) {
        self.commit();
        self.flush(i);
    }
    pub fn get(&self, p: &str) -> Option<Arc<Vec<u8>>> {
        let r = self.resolve("/", p, true).ok()?;
        match &self.node(r.ino?).body {
            Body::File(d) => Some(d.clone()),
            _ => None,
        }
    }
    pub fn ino(&self, p: &str) -> Option<Ino> {
        self.resolve("/", p, true).ok()?.ino
    }
    pub fn mode(&self, p: &str) -> Option<u32> {
        Some(self.node(self.ino(p)?).mode)
    }
    pub fn remove_any(&mut self, p: &str) {
        if let Ok(Resolved { ino: Some(i), .. }) = self.resolve("/", p, false) {
            if let Body::Dir(d) = &self.node(i).body {
                let names: Vec<String> = d.keys().cloned().collect();
                for n in names {
                    self.remove_any(&format!("{}/{}", p, n));
                }
                let _ = self.rmdir("/", p);
            } else {
                let _ = self.unlink("/", p);
            }
            self.commit();
        }
    }
    /// All paths below `p` (p excluded) with their nodes, not following links.
    pub fn walk(&self, p: &str) -> Vec<(String, Ino)> {
        let mut out = vec![];
        if let Some(i) = self.ino(p) {
            let base = if p == "/" { "" } else { p };
            self.walk_from(i, base, &mut out);
        }
        out
    }
    fn walk_from(&self, i: Ino, p: &str, out: &mut Vec<(String, Ino)>) {
        if let Body::Dir(d) = &self.node(i).body {
            for (n, &j) in d {
                let q = format!("{}/{}", p, n);
                out.push((q.clone(), j));
                self.walk_from(j, &q, out);
            }
        }
    }
    /// path -> content of all regular files below `p`
    pub fn files(&self, p: &str) -> BTreeMap<String, Arc<Vec<u8>>> {
        self.walk(p)
            .into_iter()
            .filter_map(|(q, i)| match &self.node(i).body {
                Body::File(d) => Some((q, d.clone())),
                _ => None,
            })
            .collect()
    }
}
fn join(stack: &[(Ino, String)]) -> String {
    let mut s = String::new();
    for (_, n) in stack.iter().skip(1) {
        s.push('/');
        s.push_str(n);
    }
    s
}

/// File names are bytes.  The simulation keeps them as text, with every byte
/// that is not part of valid UTF-8 mapped to one private-use character.
pub fn dec(b: &[u8]) -> String {
    let mut s = String::new();
    let mut b = b;
    loop {
        match std::str::from_utf8(b) {
            Ok(t) => {
                s.push_str(t);
                return s;
            }
            Err(e) => {
                let k = e.valid_up_to();
                s.push_str(std::str::from_utf8(&b[..k]).unwrap());
                s.push(char::from_u32(0xf700 + b[k] as u32).unwrap());
                b = &b[k + 1..];
            }
        }
    }
}
pub fn enc(s: &str) -> Vec<u8> {
    let mut v = vec![];
    for c in s.chars() {
        match c as u32 {
            x @ 0xf780..=0xf7ff => v.push((x - 0xf700) as u8),
            _ => v.extend(c.encode_utf8(&mut [0; 4]).as_bytes()),
        }
    }
    v
}
