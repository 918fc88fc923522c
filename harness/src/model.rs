//! The reference model: a tree of nodes with sparse byte arrays, descriptors,
//! mounts, limits and times. It shares no code with the crate under test.
use crate::bytes::Bytes;
use stable_fs::error::Error as E;
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet};

pub type Id = usize;
pub const ROOT: Id = 0;
pub const ROOT_FD: u32 = 3;
pub const R_READ: u64 = 1 << 1;
pub const R_WRITE: u64 = 1 << 6;
pub const R_ALL: u64 = (1 << 28) - 1;
/// (2^32 - 1 - 10) chunks of 4096 bytes: the published maximum file size.
pub const MAX_FILE_SIZE: u64 = (u32::MAX as u64 - 10) * 4096;
pub const F_APPEND: u16 = 1;
pub const F_NONBLOCK: u16 = 4;
pub const O_CREATE: u16 = 1;
pub const O_DIRECTORY: u16 = 2;
pub const O_EXCL: u16 = 4;
pub const O_TRUNC: u16 = 8;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Times {
    pub a: u64,
    pub m: u64,
    pub c: u64,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Meta {
    pub size: u64,
    pub times: Times,
    pub limit: Option<u64>,
}
#[derive(Clone, Debug)]
pub struct Ent {
    pub id: Id,
    /// index observed in a listing (then it must stay)
    pub index: Cell<Option<u32>>,
}
#[derive(Clone, Debug)]
pub enum Kind {
    Dir(BTreeMap<String, Ent>),
    File {
        bytes: Bytes,
        /// chunk format: Some(1), Some(2), or None for legacy
        chunk: Option<u8>,
        mount: Option<usize>,
        /// metadata of the mounted file, kept between mounts
        mmeta: Option<Meta>,
    },
}
#[derive(Clone, Debug)]
pub struct Node {
    pub kind: Kind,
    /// regular (host) metadata; size of directories is computed
    pub meta: Meta,
    pub links: u64,
    /// identity observed in the real file system
    pub sut: Cell<Option<u64>>,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct MFd {
    pub id: Id,
    pub cursor: u64,
    pub flags: u16,
    pub rights: u64,
    pub inh: u64,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Policy {
    PreviousOrZero,
    PreviousOrPages,
    Explicit(u64),
    Pages,
}

#[derive(Clone, Debug)]
pub struct Model {
    pub nodes: BTreeMap<Id, Node>,
    pub next: Id,
    pub fds: BTreeMap<u32, MFd>,
    /// contents of the memories usable for mounts (size field unused)
    pub mems: Vec<Bytes>,
    /// chunk type of new files
    pub chunk_type: u8,
    pub dead_suts: BTreeSet<u64>,
}

pub type R<T> = Result<T, E>;

impl Model {
    pub fn new(n_mems: usize, chunk_type: u8) -> Self {
        let mut m = Model {
            nodes: BTreeMap::new(),
            next: 1,
            fds: BTreeMap::new(),
            mems: vec![Bytes::default(); n_mems],
            chunk_type,
            dead_suts: BTreeSet::new(),
        };
        m.nodes.insert(
            ROOT,
            Node {
                kind: Kind::Dir(BTreeMap::new()),
                meta: Meta { size: 0, times: Times { a: 0, m: 0, c: 0 }, limit: None },
                links: 1,
                sut: Cell::new(None),
            },
        );
        m.open_root();
        m
    }
    pub fn open_root(&mut self) {
        self.fds.insert(
            ROOT_FD,
            MFd { id: ROOT, cursor: 0, flags: 0, rights: R_ALL, inh: R_ALL },
        );
    }
    pub fn restart(&mut self, chunk_type: u8) {
        self.fds.clear();
        self.open_root();
        for n in self.nodes.values_mut() {
            if let Kind::File { mount, .. } = &mut n.kind {
                *mount = None;
            }
        }
        self.chunk_type = chunk_type;
    }

    // ---- queries
    pub fn is_dir(&self, id: Id) -> bool {
        matches!(self.nodes[&id].kind, Kind::Dir(_))
    }
    pub fn entries(&self, id: Id) -> &BTreeMap<String, Ent> {
        match &self.nodes[&id].kind {
            Kind::Dir(e) => e,
            _ => panic!("model: not a dir"),
        }
    }
    fn entries_mut(&mut self, id: Id) -> &mut BTreeMap<String, Ent> {
        match &mut self.nodes.get_mut(&id).unwrap().kind {
            Kind::Dir(e) => e,
            _ => panic!("model: not a dir"),
        }
    }
    pub fn mounted(&self, id: Id) -> Option<usize> {
        match &self.nodes[&id].kind {
            Kind::File { mount, .. } => *mount,
            _ => None,
        }
    }
    pub fn open_count(&self, id: Id) -> usize {
        self.fds.values().filter(|f| f.id == id).count()
    }
    /// The metadata in force (mounted one when mounted).
    pub fn meta(&self, id: Id) -> Meta {
        let n = &self.nodes[&id];
        match &n.kind {
            Kind::Dir(e) => Meta { size: e.len() as u64, ..n.meta },
            Kind::File { mount: Some(_), mmeta, .. } => mmeta.unwrap(),
            Kind::File { bytes, .. } => Meta { size: bytes.size, ..n.meta },
        }
    }
    pub fn host_meta(&self, id: Id) -> Meta {
        let n = &self.nodes[&id];
        match &n.kind {
            Kind::Dir(e) => Meta { size: e.len() as u64, ..n.meta },
            Kind::File { bytes, .. } => Meta { size: bytes.size, ..n.meta },
        }
    }
    fn put_meta(&mut self, id: Id, new: Meta) -> R<()> {
        if new.size > new.limit.unwrap_or(MAX_FILE_SIZE).min(MAX_FILE_SIZE) {
            return Err(E::FileTooLarge);
        }
        let n = self.nodes.get_mut(&id).unwrap();
        match &mut n.kind {
            Kind::Dir(_) => n.meta = new,
            Kind::File { mount: Some(_), mmeta, .. } => *mmeta = Some(new),
            Kind::File { bytes, .. } => {
                bytes.set_len(new.size);
                n.meta = new;
            }
        }
        Ok(())
    }
    pub fn content(&self, id: Id, off: u64, len: usize) -> Vec<u8> {
        match &self.nodes[&id].kind {
            Kind::File { mount: Some(m), .. } => self.mems[*m].read_at(off, len),
            Kind::File { bytes, .. } => bytes.read_at(off, len),
            _ => panic!("model: content of dir"),
        }
    }
    pub fn content_ranges(&self, id: Id, cold: bool) -> Vec<(u64, u64)> {
        match &self.nodes[&id].kind {
            Kind::File { mount: Some(m), mmeta, .. } if !cold => {
                self.mems[*m].interesting(mmeta.unwrap().size)
            }
            Kind::File { bytes, .. } => bytes.interesting(bytes.size),
            _ => vec![],
        }
    }

    pub fn parts(path: &str) -> R<Vec<&str>> {
        if path.starts_with('/') {
            return Err(E::OperationNotPermitted);
        }
        let mut v: Vec<&str> = vec![];
        for p in path.split('/') {
            match p {
                "" | "." => {}
                ".." => {
                    if v.pop().is_none() {
                        return Err(E::OperationNotPermitted);
                    }
                }
                p => v.push(p),
            }
        }
        Ok(v)
    }
    pub fn dir_of_fd(&self, fd: u32) -> R<Id> {
        match self.fds.get(&fd) {
            None => Err(E::BadFileDescriptor),
            Some(f) if self.is_dir(f.id) => Ok(f.id),
            Some(_) => Err(E::NotADirectoryOrSymbolicLink),
        }
    }
    pub fn file_of_fd(&self, fd: u32) -> R<MFd> {
        match self.fds.get(&fd) {
            Some(f) if !self.is_dir(f.id) => Ok(*f),
            _ => Err(E::BadFileDescriptor),
        }
    }
    pub fn find(&self, dir: Id, path: &str) -> R<Id> {
        let mut cur = dir;
        for p in Self::parts(path)? {
            if p.len() > 255 {
                return Err(E::FilenameTooLong);
            }
            match &self.nodes[&cur].kind {
                Kind::Dir(e) => match e.get(p) {
                    Some(x) => cur = x.id,
                    None => return Err(E::NoSuchFileOrDirectory),
                },
                _ => return Err(E::NoSuchFileOrDirectory),
            }
        }
        Ok(cur)
    }
    /// (parent, last name) of an existing path with at least one component.
    fn parent_of(&self, dir: Id, path: &str) -> R<Option<(Id, String)>> {
        let parts = Self::parts(path)?;
        let mut cur = dir;
        let mut parent = None;
        for p in parts {
            parent = Some((cur, p.to_string()));
            cur = self.entries(cur)[p].id;
        }
        Ok(parent)
    }

    // ---- tree changes
    fn add_node(&mut self, kind: Kind, ctime: u64) -> Id {
        let id = self.next;
        self.next += 1;
        self.nodes.insert(
            id,
            Node {
                kind,
                meta: Meta {
                    size: 0,
                    times: Times { a: ctime, m: ctime, c: ctime },
                    limit: None,
                },
                links: 1,
                sut: Cell::new(None),
            },
        );
        id
    }
    fn add_entry(&mut self, dir: Id, name: &str, id: Id) {
        self.entries_mut(dir)
            .insert(name.to_string(), Ent { id, index: Cell::new(None) });
    }
    pub fn new_dir(&mut self, ctime: u64) -> Id {
        self.add_node(Kind::Dir(BTreeMap::new()), ctime)
    }
    pub fn new_file(&mut self, ctime: u64) -> Id {
        let chunk = Some(self.chunk_type);
        self.add_node(
            Kind::File { bytes: Bytes::default(), chunk, mount: None, mmeta: None },
            ctime,
        )
    }
    pub fn attach(&mut self, dir: Id, name: &str, id: Id) {
        self.add_entry(dir, name, id);
    }
    /// Checks of creating `path` (known not to exist); no effects.
    /// Returns the deepest existing directory and the missing components.
    fn plan_create(&self, dir: Id, path: &str) -> R<(Id, Vec<String>)> {
        let parts = Self::parts(path)?;
        if parts.iter().any(|p| p.len() > 255) {
            return Err(E::FilenameTooLong);
        }
        let mut cur = dir;
        for (i, p) in parts.iter().enumerate() {
            match &self.nodes[&cur].kind {
                Kind::Dir(e) => match e.get(*p) {
                    Some(x) => cur = x.id,
                    None => {
                        return Ok((cur, parts[i..].iter().map(|s| s.to_string()).collect()));
                    }
                },
                _ => return Err(E::InvalidArgument),
            }
        }
        unreachable!("model: plan_create on an existing path")
    }
    /// Create the missing parents, return (directory, last name).
    fn make_parents(&mut self, mut dir: Id, missing: &[String], ctime: u64) -> (Id, String) {
        for p in &missing[..missing.len() - 1] {
            let d = self.new_dir(ctime);
            self.add_entry(dir, p, d);
            dir = d;
        }
        (dir, missing[missing.len() - 1].clone())
    }
    fn create(&mut self, dir: Id, path: &str, is_dir: bool, ctime: u64) -> R<Id> {
        match self.find(dir, path) {
            Ok(_) => return Err(E::FileExists),
            Err(E::NoSuchFileOrDirectory) => {}
            Err(e) => return Err(e),
        }
        let (d, missing) = self.plan_create(dir, path)?;
        let (d, name) = self.make_parents(d, &missing, ctime);
        let id = if is_dir { self.new_dir(ctime) } else { self.new_file(ctime) };
        self.add_entry(d, &name, id);
        Ok(id)
    }
    fn drop_link(&mut self, id: Id) {
        let n = self.nodes.get_mut(&id).unwrap();
        n.links -= 1;
        if n.links == 0 {
            if let Some(s) = n.sut.get() {
                self.dead_suts.insert(s);
            }
            self.nodes.remove(&id);
        }
    }
    /// Whether unlinking one name of `id` is refused (ignoring type checks).
    fn busy(&self, id: Id) -> bool {
        self.mounted(id).is_some() || (self.open_count(id) > 0 && self.nodes[&id].links == 1)
    }
    pub fn remove(&mut self, dirfd: u32, path: &str, want_dir: bool) -> R<()> {
        let dir = self.dir_of_fd(dirfd)?;
        let id = self.find(dir, path)?;
        if self.mounted(id).is_some() {
            return Err(E::TextFileBusy);
        }
        match &self.nodes[&id].kind {
            Kind::Dir(e) => {
                if !want_dir {
                    return Err(E::IsDirectory);
                }
                if !e.is_empty() {
                    return Err(E::DirectoryNotEmpty);
                }
            }
            _ => {
                if want_dir {
                    return Err(E::NotADirectoryOrSymbolicLink);
                }
            }
        }
        if self.busy(id) {
            return Err(E::TextFileBusy);
        }
        let (p, name) = self.parent_of(dir, path)?.expect("model: removing an open root");
        self.entries_mut(p).remove(&name);
        self.drop_link(id);
        Ok(())
    }
    /// All (parent, name, id) below `dir`, children before parents.
    pub fn subtree(&self, dir: Id) -> Vec<(Id, String, Id)> {
        let mut v = vec![];
        for (n, e) in self.entries(dir) {
            if self.is_dir(e.id) {
                v.extend(self.subtree(e.id));
            }
            v.push((dir, n.clone(), e.id));
        }
        v
    }
    pub fn within(&self, top: Id, id: Id) -> bool {
        top == id || self.subtree(top).iter().any(|(_, _, x)| *x == id)
    }
    /// Recursive removal. Err(None): must fail, possibly after removing part of
    /// the subtree of the returned directory (see `partial`).
    pub fn remove_recursive(&mut self, dirfd: u32, path: &str) -> Result<(), (Option<E>, Option<Id>)> {
        let dir = self.dir_of_fd(dirfd).map_err(|e| (Some(e), None))?;
        let id = self.find(dir, path).map_err(|e| (Some(e), None))?;
        if !self.is_dir(id) {
            return self.remove(dirfd, path, false).map_err(|e| (Some(e), None));
        }
        let sub = self.subtree(id);
        let mut names: BTreeMap<Id, u64> = BTreeMap::new();
        for (_, _, x) in &sub {
            *names.entry(*x).or_default() += 1;
        }
        let mut blocked = self.open_count(id) > 0;
        for (x, k) in &names {
            if self.mounted(*x).is_some()
                || (self.open_count(*x) > 0 && *k >= self.nodes[x].links)
            {
                blocked = true;
            }
        }
        if blocked {
            return Err((None, Some(id)));
        }
        for (p, n, x) in sub {
            self.entries_mut(p).remove(&n);
            self.drop_link(x);
        }
        let (p, name) = self.parent_of(dir, path).unwrap().unwrap();
        self.entries_mut(p).remove(&name);
        self.drop_link(id);
        Ok(())
    }
    /// After a partial recursive removal: take away one observed-missing entry.
    /// Err if it was not removable.
    pub fn forget(&mut self, parent: Id, name: &str) -> Result<(), String> {
        let id = self.entries(parent)[name].id;
        if self.is_dir(id) {
            let kids: Vec<String> = self.entries(id).keys().cloned().collect();
            for k in kids {
                self.forget(id, &k)?;
            }
        }
        if self.busy(id) {
            return Err(format!("entry {name:?} in use was removed"));
        }
        self.entries_mut(parent).remove(name);
        self.drop_link(id);
        Ok(())
    }
    fn replace_dst(&mut self, src: Id, dir: Id, path: &str, dst: Id) -> R<()> {
        let sd = self.is_dir(src);
        let dd = self.is_dir(dst);
        if sd != dd {
            return Err(if dd { E::PermissionDenied } else { E::NotADirectoryOrSymbolicLink });
        }
        if dd && !self.entries(dst).is_empty() {
            return Err(E::DirectoryNotEmpty);
        }
        if self.busy(dst) {
            return Err(E::TextFileBusy);
        }
        let (p, name) = self.parent_of(dir, path)?.expect("model: replacing a handle's own dir");
        self.entries_mut(p).remove(&name);
        self.drop_link(dst);
        Ok(())
    }
    fn place(&mut self, src: Id, dir: Id, path: &str) -> R<()> {
        match self.find(dir, path) {
            Ok(dst) => {
                // parents exist: cannot fail after this
                let (p, name) = match self.parent_of(dir, path)? {
                    Some(x) => x,
                    None => {
                        // the handle's own directory: always open, or wrong type
                        self.replace_dst(src, dir, path, dst)?;
                        unreachable!()
                    }
                };
                self.replace_dst(src, dir, path, dst)?;
                self.add_entry(p, &name, src);
            }
            Err(E::NoSuchFileOrDirectory) => {
                let (d, missing) = self.plan_create(dir, path)?;
                let ctime = self.meta(src).times.c;
                let (d, name) = self.make_parents(d, &missing, ctime);
                self.add_entry(d, &name, src);
            }
            Err(e) => return Err(e),
        }
        Ok(())
    }
    pub fn link(&mut self, ofd: u32, opath: &str, nfd: u32, npath: &str) -> R<Id> {
        let od = self.dir_of_fd(ofd)?;
        let nd = self.dir_of_fd(nfd)?;
        let src = self.find(od, opath)?;
        if self.is_dir(src) {
            return Err(E::OperationNotPermitted);
        }
        match self.find(nd, npath) {
            Ok(d) if d == src => return Ok(src),
            Ok(_) | Err(E::NoSuchFileOrDirectory) => {}
            Err(e) => return Err(e),
        }
        self.place(src, nd, npath)?;
        self.nodes.get_mut(&src).unwrap().links += 1;
        Ok(src)
    }
    pub fn rename(&mut self, ofd: u32, opath: &str, nfd: u32, npath: &str) -> R<Id> {
        let od = self.dir_of_fd(ofd)?;
        let nd = self.dir_of_fd(nfd)?;
        let src = self.find(od, opath)?;
        match self.find(nd, npath) {
            Ok(d) if d == src => return Ok(src),
            Ok(_) | Err(E::NoSuchFileOrDirectory) => {}
            Err(e) => return Err(e),
        }
        if self.mounted(src).is_some() {
            return Err(E::TextFileBusy);
        }
        if self.is_dir(src) {
            if Self::parts(opath)?.is_empty() {
                return Err(E::InvalidArgument);
            }
            // the directory that would receive the entry (deepest existing one)
            let mut cur = nd;
            for p in {
                let mut ps = Self::parts(npath)?;
                ps.pop();
                ps
            } {
                match &self.nodes[&cur].kind {
                    Kind::Dir(e) if e.contains_key(p) => cur = e[p].id,
                    _ => break,
                }
            }
            if self.within(src, cur) {
                return Err(E::InvalidArgument);
            }
        }
        let (p, name) = self.parent_of(od, opath)?.unwrap();
        self.place(src, nd, npath)?;
        self.entries_mut(p).remove(&name);
        Ok(src)
    }

    // ---- descriptors
    pub fn fd_for(&self, id: Id, flags: u16, rights: u64, inh: u64, truncated: bool) -> MFd {
        let cursor = if !self.is_dir(id) && flags & F_APPEND != 0 && !truncated {
            self.meta(id).size
        } else {
            0
        };
        MFd { id, cursor, flags, rights, inh }
    }
    /// Returns the descriptor contents; the number is chosen by the real system.
    #[allow(clippy::too_many_arguments)]
    pub fn open(&mut self, dirfd: u32, path: &str, flags: u16, rights: u64, inh: u64, oflags: u16, ctime: u64) -> R<MFd> {
        let dir = self.dir_of_fd(dirfd)?;
        match self.find(dir, path) {
            Ok(id) => {
                if oflags & O_CREATE != 0 && oflags & O_EXCL != 0 {
                    return Err(E::FileExists);
                }
                if self.is_dir(id) {
                    return Ok(self.fd_for(id, flags, rights, inh, false));
                }
                if oflags & O_DIRECTORY != 0 {
                    return Err(E::OperationNotPermitted);
                }
                let trunc = oflags & O_TRUNC != 0;
                if trunc {
                    let m = self.meta(id);
                    self.put_meta(id, Meta { size: 0, ..m })?;
                }
                Ok(self.fd_for(id, flags, rights, inh, trunc))
            }
            Err(E::NoSuchFileOrDirectory) => {
                if oflags & O_CREATE == 0 {
                    return Err(E::NoSuchFileOrDirectory);
                }
                let id = self.create(dir, path, oflags & O_DIRECTORY != 0, ctime)?;
                Ok(self.fd_for(id, flags, rights, inh, false))
            }
            Err(e) => Err(e),
        }
    }
    pub fn mkdir(&mut self, dirfd: u32, path: &str, ctime: u64) -> R<Id> {
        let dir = self.dir_of_fd(dirfd)?;
        self.create(dir, path, true, ctime)
    }
    pub fn close(&mut self, fd: u32) -> R<()> {
        if fd == ROOT_FD {
            return Ok(());
        }
        self.fds.remove(&fd).map(|_| ()).ok_or(E::BadFileDescriptor)
    }
    pub fn renumber(&mut self, from: u32, to: u32) -> R<()> {
        if from == to {
            return Ok(());
        }
        let Some(f) = self.fds.get(&from).copied() else { return Err(E::BadFileDescriptor) };
        if from == ROOT_FD || to == ROOT_FD {
            return Err(E::BadFileDescriptor);
        }
        if let Some(t) = self.fds.get(&to)
            && self.is_dir(t.id) != self.is_dir(f.id)
        {
            return Err(E::BadFileDescriptor);
        }
        self.fds.remove(&from);
        self.fds.insert(to, f);
        Ok(())
    }

    // ---- data
    /// Bytes that a read at `off` must return.
    fn readable(&self, id: Id, off: u64, len: u64) -> Vec<u8> {
        let size = self.meta(id).size;
        if off >= size {
            return vec![];
        }
        self.content(id, off, len.min(size - off) as usize)
    }
    pub fn read(&mut self, fd: u32, len: u64, at: Option<u64>) -> R<Vec<u8>> {
        let f = self.file_of_fd(fd)?;
        if f.rights & R_READ == 0 {
            return Err(E::OperationNotPermitted);
        }
        let v = self.readable(f.id, at.unwrap_or(f.cursor), len);
        if at.is_none() {
            self.fds.get_mut(&fd).unwrap().cursor += v.len() as u64;
        }
        Ok(v)
    }
    /// Vectored write; `at` = explicit offset.
    pub fn write(&mut self, fd: u32, bufs: &[Vec<u8>], at: Option<u64>) -> R<u64> {
        let f = self.file_of_fd(fd)?;
        if f.rights & R_WRITE == 0 {
            return Err(E::OperationNotPermitted);
        }
        let off = if f.flags & F_APPEND != 0 {
            self.meta(f.id).size
        } else {
            at.unwrap_or(f.cursor)
        };
        let mut done = 0u64;
        for b in bufs {
            if b.is_empty() {
                continue;
            }
            let max = self.meta(f.id).limit.unwrap_or(MAX_FILE_SIZE).min(MAX_FILE_SIZE);
            match off.checked_add(done).and_then(|o| o.checked_add(b.len() as u64)) {
                Some(end) if end <= max => {}
                _ => return Err(E::FileTooLarge),
            }
            let o = off + done;
            let n = self.nodes.get_mut(&f.id).unwrap();
            match &mut n.kind {
                Kind::File { mount: Some(m), mmeta, .. } => {
                    self.mems[*m].put(o, b);
                    let mm = mmeta.as_mut().unwrap();
                    mm.size = mm.size.max(o + b.len() as u64);
                }
                Kind::File { bytes, .. } => bytes.write_at(o, b),
                _ => unreachable!(),
            }
            done += b.len() as u64;
        }
        if at.is_none() {
            self.fds.get_mut(&fd).unwrap().cursor = off + done;
        }
        Ok(done)
    }
    pub fn seek(&mut self, fd: u32, delta: i64, whence: u8) -> R<u64> {
        let f = self.file_of_fd(fd)?;
        let size = self.meta(f.id).size as i128;
        let d = delta as i128;
        let pos = match whence {
            0 => d,
            1 => f.cursor as i128 + d,
            _ => {
                if d > 0 {
                    return Err(E::InvalidSeek);
                }
                size + d
            }
        };
        if pos < 0 || pos > u64::MAX as i128 {
            return Err(if whence == 2 { E::InvalidSeek } else { E::InvalidArgument });
        }
        self.fds.get_mut(&fd).unwrap().cursor = pos as u64;
        Ok(pos as u64)
    }
    pub fn set_size(&mut self, fd: u32, size: u64) -> R<()> {
        let f = self.file_of_fd(fd)?;
        if f.rights & R_WRITE == 0 {
            return Err(E::InvalidArgument);
        }
        let m = self.meta(f.id);
        self.put_meta(f.id, Meta { size, ..m })
    }
    pub fn set_limit(&mut self, fd: u32, limit: u64) -> R<()> {
        let f = self.file_of_fd(fd)?;
        let m = self.meta(f.id);
        self.put_meta(f.id, Meta { limit: Some(limit), ..m })
    }
    pub fn set_time(&mut self, fd: u32, a: Option<u64>, md: Option<u64>) -> R<()> {
        let f = *self.fds.get(&fd).ok_or(E::BadFileDescriptor)?;
        let mut m = self.meta(f.id);
        if let Some(a) = a {
            m.times.a = a;
        }
        if let Some(x) = md {
            m.times.m = x;
        }
        self.put_meta(f.id, m)
    }
    pub fn set_meta(&mut self, fd: u32, new: Meta) -> R<()> {
        let f = *self.fds.get(&fd).ok_or(E::BadFileDescriptor)?;
        self.put_meta(f.id, new)
    }
    pub fn set_stat(&mut self, fd: u32, flags: u16, rights: u64, inh: u64) -> R<()> {
        let f = *self.fds.get(&fd).ok_or(E::BadFileDescriptor)?;
        if self.is_dir(f.id) && flags & (F_APPEND | F_NONBLOCK) != 0 {
            return Err(E::BadFileDescriptor);
        }
        let f = self.fds.get_mut(&fd).unwrap();
        f.flags = flags;
        f.rights = rights;
        f.inh = inh;
        Ok(())
    }

    // ---- mounts. `path` with one leading slash already stripped.
    fn mount_target(&self, path: &str) -> R<Id> {
        let id = self.find(ROOT, path)?;
        if self.is_dir(id) {
            return Err(E::BadFileDescriptor);
        }
        Ok(id)
    }
    pub fn mount(&mut self, path: &str, mem: usize, pages: u64, policy: Policy) -> R<Id> {
        let id = match self.find(ROOT, path) {
            Ok(id) => {
                if self.is_dir(id) {
                    return Err(E::BadFileDescriptor);
                }
                id
            }
            Err(E::NoSuchFileOrDirectory) => {
                let size = match policy {
                    Policy::PreviousOrZero => 0,
                    Policy::Explicit(n) => n,
                    _ => pages.checked_mul(65536).unwrap_or(u64::MAX),
                };
                if size > MAX_FILE_SIZE {
                    return Err(E::FileTooLarge);
                }
                self.create(ROOT, path, false, 0)?
            }
            Err(e) => return Err(e),
        };
        if self.mounted(id).is_some() {
            return Err(E::DeviceOrResourceBusy);
        }
        let host = self.host_meta(id);
        let Kind::File { mmeta, .. } = &self.nodes[&id].kind else { unreachable!() };
        let prev = *mmeta;
        let cap = pages.checked_mul(65536).unwrap_or(u64::MAX);
        let fits = prev.map(|p| p.size).filter(|s| *s <= cap);
        let size = match policy {
            Policy::PreviousOrZero => fits.unwrap_or(0),
            Policy::PreviousOrPages => fits.unwrap_or(cap),
            Policy::Explicit(n) => n,
            Policy::Pages => cap,
        };
        let new = Meta { size, ..prev.unwrap_or(host) };
        if size > new.limit.unwrap_or(MAX_FILE_SIZE).min(MAX_FILE_SIZE) {
            return Err(E::FileTooLarge);
        }
        let n = self.nodes.get_mut(&id).unwrap();
        if let Kind::File { mount, mmeta, .. } = &mut n.kind {
            *mount = Some(mem);
            *mmeta = Some(new);
        }
        Ok(id)
    }
    pub fn unmount(&mut self, path: &str) -> R<usize> {
        let id = self.mount_target(path)?;
        let n = self.nodes.get_mut(&id).unwrap();
        let Kind::File { mount, .. } = &mut n.kind else { unreachable!() };
        mount.take().ok_or(E::NoSuchDevice)
    }
    pub fn init(&mut self, path: &str) -> R<()> {
        let id = self.mount_target(path)?;
        let Some(mi) = self.mounted(id) else { return Err(E::NoSuchDevice) };
        let host = self.host_meta(id);
        let n = self.nodes.get_mut(&id).unwrap();
        let Kind::File { bytes, mmeta, .. } = &mut n.kind else { unreachable!() };
        // only small files are transferred (generator)
        let data = bytes.read_at(0, bytes.size as usize);
        self.mems[mi].put(0, &data);
        *mmeta = Some(host);
        Ok(())
    }
    pub fn store(&mut self, path: &str) -> R<()> {
        let id = self.mount_target(path)?;
        let Some(mi) = self.mounted(id) else { return Err(E::NoSuchDevice) };
        let mm = self.meta(id);
        let host = self.host_meta(id);
        if mm.size > host.limit.unwrap_or(MAX_FILE_SIZE) {
            return Err(E::FileTooLarge);
        }
        let data = self.mems[mi].read_at(0, mm.size as usize);
        let n = self.nodes.get_mut(&id).unwrap();
        let Kind::File { bytes, .. } = &mut n.kind else { unreachable!() };
        bytes.set_len(mm.size);
        bytes.put(0, &data);
        n.meta = mm;
        Ok(())
    }

    // ---- paths for generators
    /// All existing (path, id) below `dir` (bounded).
    pub fn paths(&self, dir: Id) -> Vec<(String, Id)> {
        let mut out = vec![];
        fn go(m: &Model, d: Id, pre: &str, out: &mut Vec<(String, Id)>) {
            for (n, e) in m.entries(d) {
                if out.len() > 4000 {
                    return;
                }
                let p = if pre.is_empty() { n.clone() } else { format!("{pre}/{n}") };
                out.push((p.clone(), e.id));
                if m.is_dir(e.id) {
                    go(m, e.id, &p, out);
                }
            }
        }
        go(self, dir, "", &mut out);
        out
    }
}
