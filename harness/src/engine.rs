//! Applies operations to the real file system and to the model and compares.
use crate::bytes::fill;
use crate::mem::Mem;
use crate::model::{self as md, Id, Kind, Meta, Model, Policy, ROOT, ROOT_FD, Times};
use crate::ops::*;
use ic_stable_structures::Memory;
use ic_stable_structures::memory_manager::MemoryManager;
use serde::{Deserialize, Serialize};
use stable_fs::error::Error as E;
use stable_fs::fs::{
    Advice, ChunkSize, ChunkType, DstBuf, FdFlags, FdStat, FileSystem, OpenFlags, SrcBuf, Whence,
};
use stable_fs::storage::Storage;
use stable_fs::storage::stable::StableStorage;
use stable_fs::storage::transient::TransientStorage;
use stable_fs::storage::types::{FileType, Metadata, MountedFileSizePolicy};
use std::collections::BTreeMap;

pub const DOT: u32 = u32::MAX - 5;
pub const DOTDOT: u32 = u32::MAX - 4;
pub const N_MEMS: usize = 3;
/// Larger transfers are left out; of those above the first bound only one is
/// made in a history, because copying takes long in this build.
const MID_TRANSFER: u64 = 4 << 20;
const MAX_TRANSFER: u64 = 40 << 20;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Backend {
    Transient,
    V1,
    V2,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Config {
    pub backend: Backend,
    /// index into 4K, 8K, 16K, 32K, 64K
    pub chunk: u8,
    /// None: StableStorage::new; Some(start): own manager, range start..start+10
    pub start: Option<u8>,
    /// identifiers beyond the needed ten in the range given
    #[serde(default)]
    pub extra: u8,
    /// a file system that has been in use for long (see `special::age_image`)
    #[serde(default)]
    pub age: u8,
}
pub const CHUNKS: [(ChunkSize, usize); 5] = [
    (ChunkSize::CHUNK4K, 4096),
    (ChunkSize::CHUNK8K, 8192),
    (ChunkSize::CHUNK16K, 16384),
    (ChunkSize::CHUNK32K, 32768),
    (ChunkSize::CHUNK64K, 65536),
];
impl Config {
    pub fn chunk_bytes(&self) -> u64 {
        match self.backend {
            Backend::V2 => CHUNKS[self.chunk as usize % 5].1 as u64,
            _ => 4096,
        }
    }
    pub fn chunk_type(&self) -> u8 {
        if self.backend == Backend::V2 { 2 } else { 1 }
    }
    pub fn end(&self, start: u8) -> u8 {
        (start + 10).saturating_add(self.extra).min(254)
    }
    pub fn stable(&self) -> bool {
        self.backend != Backend::Transient
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize, PartialOrd, Ord)]
pub enum Cat {
    Panic,
    /// success where refusal is due or the reverse
    Outcome,
    ErrCode,
    /// wrong bytes
    Data,
    /// wrong transferred count
    Count,
    /// bytes outside the transferred range of a buffer changed
    Canary,
    Size,
    Cursor,
    /// names, types or identities
    Tree,
    Links,
    Times,
    Limit,
    Stat,
    Chunk,
    Listing,
    FdNumber,
    Mount,
    /// special checks
    Other,
    /// a defect of the harness itself
    Harness,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Div {
    pub cat: Cat,
    pub step: usize,
    pub op: String,
    pub detail: String,
}
type D<T> = Result<T, (Cat, String)>;

#[derive(Clone, Debug, Default)]
pub struct CaseStats {
    pub ok: BTreeMap<&'static str, u32>,
    pub err: BTreeMap<&'static str, u32>,
    pub label: BTreeMap<&'static str, u32>,
    pub skipped: u32,
}
impl CaseStats {
    pub fn oks(&self, k: &str) -> u32 {
        self.ok.get(k).copied().unwrap_or(0)
    }
    pub fn errs(&self, k: &str) -> u32 {
        self.err.get(k).copied().unwrap_or(0)
    }
    pub fn lab(&self, k: &str) -> u32 {
        self.label.get(k).copied().unwrap_or(0)
    }
    fn l(&mut self, k: &'static str) {
        *self.label.entry(k).or_default() += 1;
    }
}

#[derive(Clone, Copy, Debug, Default, Serialize, Deserialize, Hash)]
pub struct Opts {
    pub audit_after_err: bool,
    pub audit_each: bool,
    pub cold_each: bool,
    /// error codes that are compared as well (CODE_*)
    pub codes: u8,
    /// no final audits (differential use)
    pub no_final: bool,
    /// everything stored must belong to a live node (images of other releases)
    #[serde(default)]
    pub owners: bool,
}

pub const CODE_ONP: u8 = 1;
pub const CODE_BADFD: u8 = 2;
pub const CODE_BIG: u8 = 4;
pub const CODE_INVAL: u8 = 8;

pub struct World {
    pub cfg: Config,
    pub opts: Opts,
    pub fs: FileSystem,
    pub mem: Mem,
    pub mems: Vec<Mem>,
    /// a very deep tree exists
    abyss: bool,
    pub m: Model,
    pub chunk_size: u64,
    pub ever_stored: bool,
    pub stats: CaseStats,
    /// transcript of comparable results (differential use)
    pub log: Option<Vec<String>>,
    /// manager shared with others (restarts are then driven from outside)
    pub mm: Option<Manager>,
    last_fd: u32,
    big_transfer: bool,
    /// above zero: part of every name given
    pub fresh: u16,
}

pub fn flags_of(b: u16) -> FdFlags {
    FdFlags::from_bits_truncate(b)
}
pub fn stat_of(flags: u16, rights: u64, inh: u64) -> FdStat {
    FdStat { flags: flags_of(flags), rights_base: rights, rights_inheriting: inh }
}
/// Calls `f` with a stack as small as that of a canister.
fn small_stack<R>(f: impl FnOnce() -> R) -> R {
    struct Moved<T>(T);
    // (the calling thread waits, nothing is used by two threads at once)
    unsafe impl<T> Send for Moved<T> {}
    impl<T> Moved<T> {
        fn take(self) -> T {
            self.0
        }
    }
    let f = Moved(f);
    let r = std::thread::scope(|s| {
        let t = std::thread::Builder::new().stack_size(1 << 20).spawn_scoped(s, move || Moved(std::panic::catch_unwind(std::panic::AssertUnwindSafe(f.take()))));
        t.expect("thread").join()
    });
    match r.expect("thread").take() {
        Ok(r) => r,
        Err(p) => std::panic::resume_unwind(p),
    }
}
pub type Manager = std::rc::Rc<MemoryManager<Mem>>;
pub fn boot_storage(cfg: &Config, mem: &Mem, mm: Option<&Manager>) -> Box<dyn Storage> {
    match (cfg.backend, mm) {
        (Backend::Transient, _) => Box::new(TransientStorage::new()),
        (_, Some(mm)) => {
            let s = cfg.start.unwrap_or(229);
            Box::new(StableStorage::new_with_memory_manager(mm, s..cfg.end(s)))
        }
        _ => match cfg.start {
            None => Box::new(StableStorage::new(mem.clone())),
            Some(s) => {
                let mm = MemoryManager::init(mem.clone());
                Box::new(StableStorage::new_with_memory_manager(&mm, s..cfg.end(s)))
            }
        },
    }
}
pub fn boot(cfg: &Config, mem: &Mem, first: bool) -> FileSystem {
    boot_in(cfg, mem, None, first)
}
/// As `boot`, sharing a memory manager when one is given.
pub fn boot_in(cfg: &Config, mem: &Mem, mm: Option<&Manager>, first: bool) -> FileSystem {
    let mut st = boot_storage(cfg, mem, mm);
    if cfg.stable() {
        if cfg.backend == Backend::V1 {
            st.set_chunk_type(ChunkType::V1);
        }
        if first && (cfg.backend == Backend::V2) {
            st.set_chunk_size(CHUNKS[cfg.chunk as usize % 5].0)
                .expect("fresh storage must accept a chunk size");
        }
    }
    FileSystem::new(st).expect("FileSystem::new")
}

fn es(e: &E) -> String {
    format!("{e:?}")
}
fn kind_of(m: &Model, id: Id) -> FileType {
    if m.is_dir(id) { FileType::Directory } else { FileType::RegularFile }
}

impl World {
    pub fn new(cfg: Config, opts: Opts) -> World {
        let mem = Mem::new();
        let fs = boot(&cfg, &mem, true);
        if cfg.age == 0 || !cfg.stable() {
            return Self::over(cfg, opts, mem, fs);
        }
        drop(fs);
        let stored = crate::special::age_image(&cfg, &mem);
        let fs = boot(&cfg, &mem, false);
        let mut w = Self::over(cfg, opts, mem, fs);
        w.ever_stored = stored;
        w.stats.l("aged");
        w
    }
    pub fn over(cfg: Config, opts: Opts, mem: Mem, fs: FileSystem) -> World {
        World {
            cfg,
            opts,
            fs,
            mem,
            mems: (0..N_MEMS).map(|_| Mem::new()).collect(),
            abyss: false,
            m: Model::new(N_MEMS, cfg.chunk_type()),
            chunk_size: if cfg.backend == Backend::V1 { 16384 } else { cfg.chunk_bytes() },
            ever_stored: false,
            stats: CaseStats::default(),
            log: None,
            mm: None,
            last_fd: 0,
            big_transfer: false,
            fresh: 0,
        }
    }

    // ---- resolution
    fn fd(&self, f: Fd) -> u32 {
        let pick = |v: Vec<u32>, n: u16| if v.is_empty() { 9999 } else { v[n as usize % v.len()] };
        match f {
            Fd::Root => ROOT_FD,
            Fd::Raw(n) => n,
            Fd::Any(n) => pick(self.m.fds.keys().copied().collect(), n),
            Fd::Dir(n) => pick(
                self.m.fds.iter().filter(|(_, f)| self.m.is_dir(f.id)).map(|(k, _)| *k).collect(),
                n,
            ),
            Fd::File(n) => pick(
                self.m.fds.iter().filter(|(_, f)| !self.m.is_dir(f.id)).map(|(k, _)| *k).collect(),
                n,
            ),
        }
    }
    fn toks(&self, t: &[Tok]) -> String {
        t.iter()
            .map(|t| match t {
                Tok::N(n) if self.fresh > 0 => format!("{}-{}", name(*n), self.fresh),
                Tok::N(n) => name(*n),
                Tok::Kin(class, how) => kin(*class, *how),
                Tok::Dot => ".".into(),
                Tok::DotDot => "..".into(),
                Tok::Empty => String::new(),
            })
            .collect::<Vec<_>>()
            .join("/")
    }
    fn decorate(p: &str, d: u8) -> String {
        match d % 10 {
            1 => format!("./{p}"),
            2 => format!("{p}/."),
            3 => p.replace('/', "//"),
            4 => format!("{p}/"),
            5 => format!("zz/../{p}"),
            6 => p.replace('/', "/./"),
            7 => {
                let first = p.split('/').next().unwrap_or("");
                format!("{first}/../{p}")
            }
            8 => format!("{p}/q/.."),
            _ => p.to_string(),
        }
    }
    fn path(&self, dir: u32, p: &Path) -> String {
        let base = self.m.dir_of_fd(dir).unwrap_or(ROOT);
        let pick = |n: u16, f: &dyn Fn(Id) -> bool| -> String {
            let v: Vec<(String, Id)> =
                self.m.paths(base).into_iter().filter(|(_, id)| f(*id)).collect();
            if v.is_empty() { name(n % 6) } else { v[n as usize % v.len()].0.clone() }
        };
        let join = |a: String, b: String| {
            if a.is_empty() {
                b
            } else if b.is_empty() {
                a
            } else {
                format!("{a}/{b}")
            }
        };
        match p {
            Path::Comps(t, lead, trail) => {
                let mut s = self.toks(t);
                if *lead {
                    s.insert(0, '/');
                }
                if *trail {
                    s.push('/');
                }
                s
            }
            Path::Existing(n, d) => Self::decorate(&pick(*n, &|_| true), *d),
            Path::ExistingFile(n, d) => Self::decorate(&pick(*n, &|i| !self.m.is_dir(i)), *d),
            Path::ExistingDir(n, d) => Self::decorate(&pick(*n, &|i| self.m.is_dir(i)), *d),
            Path::Under(n, t) => {
                let mut v: Vec<String> = vec![String::new()];
                v.extend(
                    self.m.paths(base).into_iter().filter(|(_, i)| self.m.is_dir(*i)).map(|x| x.0),
                );
                join(v[*n as usize % v.len()].clone(), self.toks(t))
            }
            Path::Below(n, t) => join(pick(*n, &|_| true), self.toks(t)),
            Path::Kin(n, how) => {
                let p = pick(*n, &|_| true);
                match p.rsplit_once('/') {
                    Some((d, x)) => format!("{d}/{}", vary(x, *how)),
                    None => vary(&p, *how),
                }
            }
            Path::Raw(s) => s.clone(),
        }
    }
    fn pos(&self, fd: u32, p: Pos) -> u64 {
        let f = self.m.file_of_fd(fd).ok();
        let meta = f.map(|f| self.m.meta(f.id));
        let add = |b: u64, d: i64| b.saturating_add_signed(d);
        let v = match p {
            Pos::Abs(n) => n,
            Pos::Size(d) => add(meta.map(|m| m.size).unwrap_or(0), d),
            Pos::Limit(d) => add(meta.and_then(|m| m.limit).unwrap_or(10_000), d),
            Pos::Cursor(d) => add(f.map(|f| f.cursor).unwrap_or(0), d),
            Pos::Max(d) => add(md::MAX_FILE_SIZE, d),
        };
        v
    }
    fn is_mounted_fd(&self, fd: u32) -> bool {
        self.m.file_of_fd(fd).map(|f| self.m.mounted(f.id).is_some()).unwrap_or(false)
    }
    fn lens(&self, fd: u32, start: u64, lens: &[Len]) -> Vec<usize> {
        let f = self.m.file_of_fd(fd).ok();
        let meta = f.map(|f| self.m.meta(f.id));
        let mut at = start;
        let mut out = vec![];
        for l in lens {
            let n = match l {
                Len::Abs(n) => *n as u64,
                Len::ToMultiple(u, d) => {
                    let u = *u as u64;
                    let r = u - at % u;
                    r.saturating_add_signed(*d as i64)
                }
                Len::ToEnd(d) => meta
                    .map(|m| m.size.saturating_sub(at))
                    .unwrap_or(0)
                    .min(200_000)
                    .saturating_add_signed(*d as i64),
                Len::ToLimit(d) => meta
                    .and_then(|m| m.limit)
                    .unwrap_or(md::MAX_FILE_SIZE)
                    .saturating_sub(at)
                    .min(200_000)
                    .saturating_add_signed(*d as i64),
            }
            .min(48 << 20);
            at = at.saturating_add(n);
            out.push(n as usize);
        }
        out
    }

    // ---- comparison helpers
    fn cmp<T: PartialEq + std::fmt::Debug>(&mut self, what: &str, cat: Cat, sut: Result<T, E>, exp: Result<T, E>) -> D<bool> {
        match (sut, exp) {
            (Ok(a), Ok(b)) => {
                if a == b {
                    Ok(true)
                } else {
                    Err((cat, format!("{what}: got {a:?}, expected {b:?}")))
                }
            }
            (Err(a), Err(b)) => {
                self.log(|| format!("error {a:?}"));
                let named = match b {
                    E::OperationNotPermitted => CODE_ONP,
                    E::BadFileDescriptor => CODE_BADFD,
                    E::FileTooLarge => CODE_BIG,
                    E::InvalidArgument => CODE_INVAL,
                    _ => 0,
                };
                if a != b && self.opts.codes & named != 0 {
                    return Err((Cat::ErrCode, format!("{what}: error {} instead of {}", es(&a), es(&b))));
                }
                Ok(false)
            }
            (Ok(a), Err(b)) => Err((Cat::Outcome, format!("{what}: succeeded ({a:?}), expected error {}", es(&b)))),
            (Err(a), Ok(_)) => Err((Cat::Outcome, format!("{what}: failed with {}, expected success", es(&a)))),
        }
    }
    /// Record or check the identity of a node.
    fn ident(m: &Model, id: Id, sut: u64) -> D<()> {
        let n = &m.nodes[&id];
        match n.sut.get() {
            Some(s) if s == sut => Ok(()),
            Some(s) => Err((Cat::Tree, format!("identity changed: node {s} became {sut}"))),
            None => {
                if m.dead_suts.contains(&sut) {
                    return Err((Cat::Tree, format!("identity {sut} of a removed object reused")));
                }
                if m.nodes.iter().any(|(i, n)| *i != id && n.sut.get() == Some(sut)) {
                    return Err((Cat::Tree, format!("identity {sut} already belongs to another object")));
                }
                n.sut.set(Some(sut));
                Ok(())
            }
        }
    }
    fn check_meta(m: &Model, cfg: &Config, id: Id, got: &Metadata, cold: bool, what: &str) -> D<()> {
        let exp = if cold { m.host_meta(id) } else { m.meta(id) };
        if got.file_type != kind_of(m, id) {
            return Err((Cat::Tree, format!("{what}: type {:?}", got.file_type)));
        }
        Self::ident(m, id, got.node).map_err(|(c, d)| (c, format!("{what}: {d}")))?;
        if got.size != exp.size {
            return Err((Cat::Size, format!("{what}: size {}, expected {}", got.size, exp.size)));
        }
        if got.link_count != m.nodes[&id].links {
            return Err((Cat::Links, format!("{what}: link count {}, expected {}", got.link_count, m.nodes[&id].links)));
        }
        let t = Times { a: got.times.accessed, m: got.times.modified, c: got.times.created };
        if t != exp.times {
            return Err((Cat::Times, format!("{what}: times {t:?}, expected {:?}", exp.times)));
        }
        if got.maximum_size_allowed != exp.limit {
            return Err((Cat::Limit, format!("{what}: limit {:?}, expected {:?}", got.maximum_size_allowed, exp.limit)));
        }
        if let Kind::File { chunk, .. } = &m.nodes[&id].kind {
            let g = got.chunk_type.map(|c| c as u8);
            let e = if cfg.stable() { *chunk } else { Some(1) };
            if g != e {
                return Err((Cat::Chunk, format!("{what}: chunk type {g:?}, expected {e:?}")));
            }
        }
        Ok(())
    }
    /// Register a descriptor returned by the real system.
    fn new_fd(&mut self, fd: u32, f: md::MFd) -> D<()> {
        if fd <= ROOT_FD || self.m.fds.contains_key(&fd) {
            return Err((Cat::FdNumber, format!("descriptor {fd} handed out while in use or reserved")));
        }
        self.m.fds.insert(fd, f);
        Ok(())
    }

    // ---- audits
    /// Complete listing through `fd`, checked against the model.
    /// Returns (index, name) without dots.
    fn list_all(fs: &mut FileSystem, m: &Model, fd: u32, id: Id) -> D<Vec<(u32, String)>> {
        let mut got: Vec<(u32, Vec<u8>, u64, Option<FileType>)> = vec![];
        fs.with_direntries(fd, None, &mut |i, e| {
            got.push((*i, e.name.bytes[..e.name.length as usize].to_vec(), e.node, e.entry_type));
            true
        })
        .map_err(|e| (Cat::Listing, format!("listing failed: {e:?}")))?;
        if got.len() < 2 || got[0].0 != DOT || got[0].1 != b"." || got[1].0 != DOTDOT || got[1].1 != b".." {
            return Err((Cat::Listing, "listing from the beginning does not start with '.' and '..'".into()));
        }
        Self::ident(m, id, got[0].2).map_err(|(_, d)| (Cat::Listing, format!("'.': {d}")))?;
        let mut out = vec![];
        let mut last = 0u32;
        let mut seen = std::collections::BTreeSet::new();
        for (k, (i, n, node, ty)) in got[2..].iter().enumerate() {
            let n = String::from_utf8(n.clone()).map_err(|_| (Cat::Listing, "entry name is not UTF-8".to_string()))?;
            if k > 0 && *i <= last {
                return Err((Cat::Listing, format!("index {i} of {n:?} does not increase")));
            }
            last = *i;
            let Some(e) = m.entries(id).get(&n) else {
                return Err((Cat::Tree, format!("unexpected entry {:?}", short(&n))));
            };
            if !seen.insert(n.clone()) {
                return Err((Cat::Listing, format!("entry {:?} listed twice", short(&n))));
            }
            Self::ident(m, e.id, *node).map_err(|(c, d)| (c, format!("entry {:?}: {d}", short(&n))))?;
            if let Some(t) = ty
                && *t != kind_of(m, e.id)
            {
                return Err((Cat::Listing, format!("entry {:?} has type {t:?}", short(&n))));
            }
            match e.index.get() {
                None => e.index.set(Some(*i)),
                Some(x) if x == *i => {}
                Some(x) => return Err((Cat::Listing, format!("entry {:?} moved from index {x} to {i}", short(&n)))),
            }
            out.push((*i, n));
        }
        for n in m.entries(id).keys() {
            if !seen.contains(n) {
                return Err((Cat::Tree, format!("entry {:?} missing from listing", short(n))));
            }
        }
        Ok(out)
    }
    fn audit_file(fs: &mut FileSystem, m: &Model, fd: u32, id: Id, cold: bool, what: &str) -> D<()> {
        for (a, b) in m.content_ranges(id, cold) {
            let mut at = a;
            while at < b {
                let n = (b - at).min(1 << 18) as usize;
                let mut buf = vec![0xA5u8; n];
                let r = fs
                    .read_vec_with_offset(fd, &[DstBuf { buf: buf.as_mut_ptr(), len: n }], at)
                    .map_err(|e| (Cat::Data, format!("{what}: audit read at {at} failed: {e:?}")))?;
                if r != n as u64 {
                    return Err((Cat::Count, format!("{what}: audit read at {at} gave {r} of {n} bytes")));
                }
                let exp = if cold {
                    match &m.nodes[&id].kind {
                        Kind::File { bytes, .. } => bytes.read_at(at, n),
                        _ => unreachable!(),
                    }
                } else {
                    m.content(id, at, n)
                };
                if buf != exp {
                    let k = buf.iter().zip(&exp).position(|(x, y)| x != y).unwrap();
                    return Err((
                        Cat::Data,
                        format!("{what}: byte at {} is {:#x}, expected {:#x}", at + k as u64, buf[k], exp[k]),
                    ));
                }
                at += n as u64;
            }
        }
        Ok(())
    }
    fn audit_dir(fs: &mut FileSystem, m: &Model, cfg: &Config, fd: u32, id: Id, cold: bool, what: &str) -> D<()> {
        let meta = fs.metadata(fd).map_err(|e| (Cat::Tree, format!("metadata of {what} failed: {e:?}")))?;
        Self::check_meta(m, cfg, id, &meta, cold, what)?;
        let l = Self::list_all(fs, m, fd, id).map_err(|(c, d)| (c, format!("in {what}: {d}")))?;
        let count = l.len();
        for (k, (_, n)) in l.into_iter().enumerate() {
            let e = &m.entries(id)[&n];
            let w = format!("{what}/{}", short(&n));
            // a look-up is linear in the directory: in a very wide one most of
            // the empty files are only compared by identity
            if count > 1400
                && k % 97 != count % 97
                && let Kind::File { bytes, mount: None, .. } = &m.nodes[&e.id].kind
                && bytes.size == 0
                && let Some(node) = m.nodes[&e.id].sut.get()
            {
                let meta = fs.metadata_from_node(node).map_err(|e| (Cat::Tree, format!("metadata of {w} failed: {e:?}")))?;
                Self::check_meta(m, cfg, e.id, &meta, cold, &w)?;
                continue;
            }
            let sub = fs
                .open(fd, &n, FdStat::default(), OpenFlags::empty(), 0)
                .map_err(|e| (Cat::Tree, format!("{w}: listed but open failed: {e:?}")))?;
            if m.is_dir(e.id) {
                Self::audit_dir(fs, m, cfg, sub, e.id, cold, &w)?;
            } else {
                let meta = fs.metadata(sub).map_err(|e| (Cat::Tree, format!("metadata of {w} failed: {e:?}")))?;
                Self::check_meta(m, cfg, e.id, &meta, cold, &w)?;
                match fs.metadata_from_node(meta.node) {
                    Ok(x) if x == meta => {}
                    x => return Err((Cat::Tree, format!("{w}: metadata_from_node gives {x:?}, metadata {meta:?}"))),
                }
                Self::audit_file(fs, m, sub, e.id, cold, &w)?;
            }
            fs.close(sub).map_err(|e| (Cat::FdNumber, format!("closing audit descriptor failed: {e:?}")))?;
        }
        Ok(())
    }
    pub fn audit_fds(&mut self) -> D<()> {
        for (fd, f) in &self.m.fds {
            let (ty, st) = self.fs.get_stat(*fd).map_err(|e| (Cat::Stat, format!("descriptor {fd} lost: {e:?}")))?;
            if ty != kind_of(&self.m, f.id) {
                return Err((Cat::Stat, format!("descriptor {fd} has type {ty:?}")));
            }
            if (st.flags.bits(), st.rights_base, st.rights_inheriting) != (f.flags, f.rights, f.inh) {
                return Err((Cat::Stat, format!("descriptor {fd} has flags/rights {st:?}, expected {f:?}")));
            }
            if *fd > 2 {
                let meta = self.fs.metadata(*fd).map_err(|e| (Cat::Tree, format!("descriptor {fd}: metadata failed {e:?}")))?;
                Self::check_meta(&self.m, &self.cfg, f.id, &meta, false, &format!("descriptor {fd}"))?;
            }
            if ty == FileType::RegularFile {
                let c = self.fs.tell(*fd).map_err(|e| (Cat::Cursor, format!("tell({fd}) failed: {e:?}")))?;
                if c != f.cursor {
                    return Err((Cat::Cursor, format!("cursor of {fd} is {c}, expected {}", f.cursor)));
                }
            }
        }
        Ok(())
    }
    fn audit_mems(&self) -> D<()> {
        for (i, m) in self.mems.iter().enumerate() {
            let size = m.size() * 65536;
            for (a, b) in self.m.mems[i].interesting(size) {
                let mut buf = vec![0u8; (b - a) as usize];
                m.read(a, &mut buf);
                let exp = self.m.mems[i].read_at(a, buf.len());
                if buf != exp {
                    let k = buf.iter().zip(&exp).position(|(x, y)| x != y).unwrap();
                    return Err((Cat::Mount, format!("memory {i} differs at {}: {:#x} expected {:#x}", a + k as u64, buf[k], exp[k])));
                }
            }
        }
        Ok(())
    }
    pub fn audit_warm(&mut self) -> D<()> {
        self.audit_fds()?;
        if self.fs.root_fd() != ROOT_FD || self.fs.root_path() != "/" {
            return Err((Cat::FdNumber, "the root descriptor or path is another one".into()));
        }
        if self.cfg.stable() && self.fs.get_storage_version() != 1 {
            return Err((Cat::Other, format!("storage version {}", self.fs.get_storage_version())));
        }
        let m = &self.m;
        Self::audit_dir(&mut self.fs, m, &self.cfg, ROOT_FD, ROOT, false, "")?;
        self.audit_mems()?;
        if self.cfg.stable() {
            self.check_chunk_size()?;
        }
        Ok(())
    }
    fn check_chunk_size(&self) -> D<()> {
        let c = self.fs.storage.chunk_size() as u64;
        if c != self.chunk_size {
            return Err((Cat::Chunk, format!("chunk size {c}, expected {}", self.chunk_size)));
        }
        Ok(())
    }
    /// Audit through a second file system over a snapshot of the memory.
    pub fn audit_cold(&mut self) -> D<()> {
        if !self.cfg.stable() {
            return Ok(());
        }
        let snap = self.mem.snapshot();
        let mut fs = boot(&self.cfg, &snap, false);
        let c = fs.storage.chunk_size() as u64;
        if c != self.chunk_size {
            return Err((Cat::Chunk, format!("(restarted) chunk size {c}, expected {}", self.chunk_size)));
        }
        Self::audit_dir(&mut fs, &self.m, &self.cfg, ROOT_FD, ROOT, true, "(restarted)")?;
        // remembered sizes of mounted files
        let files: Vec<(String, Id)> = self.m.paths(ROOT);
        let mut done = std::collections::BTreeSet::new();
        for (p, id) in files {
            if let Kind::File { mmeta: Some(mm), .. } = &self.m.nodes[&id].kind
                && done.insert(id)
            {
                let k = (mm.size.div_ceil(65536)).max(1);
                if k > 1 << 20 {
                    continue;
                }
                let mem = Mem::new();
                mem.grow(k);
                fs.mount_memory_file(&p, Box::new(mem), MountedFileSizePolicy::PreviousOrZero)
                    .map_err(|e| (Cat::Mount, format!("(restarted) mount of {p:?} failed: {e:?}")))?;
                let got = fs.open_metadata(ROOT_FD, &p).map_err(|e| (Cat::Mount, format!("{e:?}")))?;
                if got.size != mm.size {
                    return Err((Cat::Mount, format!("(restarted) remembered mounted size {}, expected {}", got.size, mm.size)));
                }
            }
        }
        Ok(())
    }
    pub fn final_audit(&mut self) -> D<()> {
        self.audit_warm()?;
        self.audit_cold()
    }

    fn log(&mut self, s: impl FnOnce() -> String) {
        if let Some(l) = &mut self.log {
            l.push(s());
        }
    }

    pub fn run(&mut self, ops: &[Op]) -> Result<(), Div> {
        for (i, op) in ops.iter().enumerate() {
            self.step(op).map_err(|(cat, detail)| Div { cat, step: i, op: format!("{op:?}"), detail })?;
        }
        if !self.opts.no_final {
            self.final_audit().map_err(|(cat, detail)| Div {
                cat,
                step: ops.len(),
                op: "final audit".into(),
                detail,
            })?;
        }
        Ok(())
    }

    /// Pages of each memory that the files mounted on it reach.
    fn reach(&self) -> [u64; N_MEMS] {
        let mut r = [0; N_MEMS];
        for id in self.m.nodes.keys() {
            if let Some(i) = self.m.mounted(*id) {
                r[i] = r[i].max(self.m.meta(*id).size.div_ceil(65536));
            }
        }
        r
    }

    pub fn step(&mut self, op: &Op) -> D<()> {
        // a memory grows as far as a file mounted on it, and no further
        let grows = matches!(op, Op::Read { .. } | Op::Write { .. } | Op::SetSize { .. } | Op::Mount { .. } | Op::Init { .. } | Op::Store { .. })
            && (matches!(op, Op::Mount { .. }) || self.m.nodes.keys().any(|id| self.m.mounted(*id).is_some()));
        let before = if grows { Some((self.reach(), self.mems.iter().map(|m| m.size()).collect::<Vec<_>>())) } else { None };
        let r = self.exec(op)?;
        if let Some((reach, pages)) = before {
            let now = self.reach();
            for (i, m) in self.mems.iter().enumerate() {
                let most = pages[i].max(reach[i]).max(now[i]);
                if m.size() > most {
                    return Err((Cat::Mount, format!("memory {i} has grown to {} pages, the files mounted on it need {most}", m.size())));
                }
            }
        }
        let k = op.kind();
        match r {
            Some(true) => {
                *self.stats.ok.entry(k).or_default() += 1;
                if matches!(
                    op,
                    Op::Open { .. } | Op::Mkdir { .. } | Op::MkdirOpen { .. } | Op::Write { .. } | Op::SetSize { .. } | Op::SetLimit { .. }
                        | Op::SetTimes { .. } | Op::SetMeta { .. } | Op::RmFile { .. } | Op::RmDir { .. } | Op::RmRec { .. }
                        | Op::Link { .. } | Op::Rename { .. } | Op::Mount { .. } | Op::Unmount { .. } | Op::Init { .. } | Op::Store { .. } | Op::Many { .. } | Op::Each { .. } | Op::Sparse { read: false, .. }
                ) {
                    self.stats.l("changes");
                    if self.stats.oks("restart") > 0 {
                        self.stats.l("change_after_restart");
                    }
                }
            }
            Some(false) => {
                *self.stats.err.entry(k).or_default() += 1;
                if self.opts.audit_after_err {
                    self.audit_warm()?;
                    self.audit_cold()?;
                }
            }
            None => self.stats.skipped += 1,
        }
        if self.opts.audit_each {
            self.audit_warm()?;
        }
        if self.opts.cold_each {
            self.audit_cold()?;
        }
        Ok(())
    }

    fn opened(&mut self, sut: Result<u32, E>, exp: Result<md::MFd, E>, what: &str) -> D<bool> {
        match (sut, exp) {
            (Ok(fd), Ok(f)) => {
                self.new_fd(fd, f)?;
                self.last_fd = fd;
                // identity and type immediately
                let meta = self.fs.metadata(fd).map_err(|e| (Cat::Outcome, format!("{what}: metadata of new descriptor failed: {e:?}")))?;
                Self::check_meta(&self.m, &self.cfg, f.id, &meta, false, what)?;
                self.log(|| "opened".into());
                Ok(true)
            }
            (a, b) => {
                let a = a.map(|_| ());
                let b = b.map(|_| ());
                self.cmp(what, Cat::Outcome, a, b)
            }
        }
    }

    /// Some(true) = succeeded, Some(false) = refused, None = skipped
    fn exec(&mut self, op: &Op) -> D<Option<bool>> {
        let r = match op {
            Op::Open { dir, path, oflags, flags, rights, ctime } => {
                let d = self.fd(*dir);
                let p = self.path(d, path);
                let fl = flags_of(*flags).bits();
                let exp = self.m.open(d, &p, fl, *rights, *rights, *oflags, *ctime);
                let sut = self.fs.open(d, &p, stat_of(*flags, *rights, *rights), OpenFlags::from_bits_truncate(*oflags), *ctime);
                self.opened(sut, exp, "open")?
            }
            Op::Mkdir { dir, path, ctime } => {
                let d = self.fd(*dir);
                let p = self.path(d, path);
                let exp = self.m.mkdir(d, &p, *ctime).map(|_| ());
                let sut = self.fs.mkdir(d, &p, FdStat::default(), *ctime);
                self.cmp("mkdir", Cat::Outcome, sut, exp)?
            }
            Op::MkdirOpen { dir, path, ctime } => {
                let d = self.fd(*dir);
                let p = self.path(d, path);
                let exp = self.m.mkdir(d, &p, *ctime).map(|id| self.m.fd_for(id, 0, md::R_ALL, md::R_ALL, false));
                let sut = self.fs.create_open_directory(d, &p, FdStat::default(), *ctime);
                self.opened(sut, exp, "create_open_directory")?
            }
            Op::Close { fd } => {
                let f = self.fd(*fd);
                let exp = self.m.close(f);
                let sut = self.fs.close(f);
                self.cmp("close", Cat::Outcome, sut, exp)?
            }
            Op::Renumber { from, to } => {
                let a = self.fd(*from);
                let b = self.fd(*to);
                if a == b && !self.m.fds.contains_key(&a) {
                    return Ok(None);
                }
                let exp = self.m.renumber(a, b);
                let sut = self.fs.renumber(a, b);
                self.cmp("renumber", Cat::Outcome, sut, exp)?
            }
            Op::Read { fd, lens, at, plain } => return self.do_read(*fd, lens, *at, *plain),
            Op::Write { fd, lens, at, seed, plain } => return self.do_write(*fd, lens, *at, *seed, *plain),
            Op::Seek { fd, delta, whence } => {
                let f = self.fd(*fd);
                self.do_seek(f, *delta, *whence % 3)?
            }
            Op::SeekTo { fd, pos } => {
                let f = self.fd(*fd);
                let p = self.pos(f, *pos).min(i64::MAX as u64) as i64;
                self.do_seek(f, p, 0)?
            }
            Op::Tell { fd } => {
                let f = self.fd(*fd);
                let exp = self.m.file_of_fd(f).map(|f| f.cursor);
                let sut = self.fs.tell(f);
                self.cmp("tell", Cat::Cursor, sut, exp)?
            }
            Op::SetSize { fd, pos } => {
                let f = self.fd(*fd);
                let n = self.pos(f, *pos);
                let old = self.m.file_of_fd(f).ok().map(|x| self.m.meta(x.id).size);
                let exp = self.m.set_size(f, n);
                let sut = self.fs.set_file_size(f, n);
                let ok = self.cmp(&format!("set_file_size({n})"), Cat::Outcome, sut, exp)?;
                if ok && let Some(o) = old {
                    if n < o {
                        self.stats.l("shrunk");
                        if n % 4096 == 0 && n > 0 {
                            self.stats.l("shrunk_to_multiple");
                        }
                    } else if n > o {
                        self.stats.l("extended");
                    }
                }
                ok
            }
            Op::SetLimit { fd, pos } => {
                let f = self.fd(*fd);
                let n = self.pos(f, *pos);
                let exp = self.m.set_limit(f, n);
                let sut = self.fs.set_file_size_limit(f, n);
                self.cmp(&format!("set_file_size_limit({n})"), Cat::Outcome, sut, exp)?
            }
            Op::SetTimes { fd, a, m } => {
                let f = self.fd(*fd);
                let mut ok = true;
                if let Some(t) = a {
                    let exp = self.m.set_time(f, Some(*t), None);
                    let sut = self.fs.set_accessed_time(f, *t);
                    ok &= self.cmp("set_accessed_time", Cat::Outcome, sut, exp)?;
                }
                if let Some(t) = m {
                    let exp = self.m.set_time(f, None, Some(*t));
                    let sut = self.fs.set_modified_time(f, *t);
                    ok &= self.cmp("set_modified_time", Cat::Outcome, sut, exp)?;
                }
                if ok && (a.is_some() || m.is_some()) && self.m.fds.contains_key(&f) {
                    self.ever_stored = true;
                }
                ok
            }
            Op::SetMeta { fd, size, limit, times } => {
                let f = self.fd(*fd);
                if f <= 2 {
                    return Ok(None);
                }
                let sz = size.map(|p| self.pos(f, p));
                let lim = limit.map(|l| l.map(|p| self.pos(f, p)));
                match (self.fs.metadata(f), self.m.fds.get(&f).copied()) {
                    (Ok(mut sm), Some(mf)) => {
                        let mut mm = self.m.meta(mf.id);
                        if !self.m.is_dir(mf.id) {
                            if let Some(s) = sz {
                                sm.size = s;
                                mm.size = s;
                            }
                            if let Some(l) = lim {
                                sm.maximum_size_allowed = l;
                                mm.limit = l;
                            }
                        }
                        if let Some((a, b, c)) = times {
                            sm.times.accessed = *a;
                            sm.times.modified = *b;
                            sm.times.created = *c;
                            mm.times = Times { a: *a, m: *b, c: *c };
                        }
                        let exp = self.m.set_meta(f, mm);
                        let sut = self.fs.set_metadata(f, sm);
                        let ok = self.cmp("set_metadata", Cat::Outcome, sut, exp)?;
                        if ok {
                            self.ever_stored = true;
                        }
                        ok
                    }
                    (Err(e), None) => self.cmp::<()>("metadata", Cat::Outcome, Err(e), Err(E::BadFileDescriptor))?,
                    (a, b) => return Err((Cat::Outcome, format!("metadata({f}): {:?} vs model {b:?}", a.map(|_| ())))),
                }
            }
            Op::SetMetaBad { fd, what, val } => {
                let f = self.fd(*fd);
                if f <= 2 || !self.m.fds.contains_key(&f) {
                    return Ok(None);
                }
                let Ok(mut sm) = self.fs.metadata(f) else {
                    return Err((Cat::Outcome, format!("metadata({f}) failed")));
                };
                if what % 2 == 0 {
                    if sm.node == *val {
                        return Ok(None);
                    }
                    sm.node = *val;
                } else {
                    sm.file_type = match (sm.file_type, val % 2) {
                        (FileType::Directory, 0) => FileType::RegularFile,
                        (FileType::RegularFile, 0) => FileType::Directory,
                        _ => FileType::SymbolicLink,
                    };
                }
                if val % 3 == 0 {
                    sm.size /= 2;
                    sm.times.modified ^= 5;
                }
                let root = self.m.fds[&f].id == ROOT;
                if root && self.m.entries(ROOT).is_empty() {
                    return Ok(None); // possibly no record to compare with yet
                }
                let sut = self.fs.set_metadata(f, sm);
                if sut.is_ok() {
                    return Err((Cat::Outcome, format!("set_metadata with a changed {} succeeded", if what % 2 == 0 { "identity" } else { "type" })));
                }
                false
            }
            Op::NodeMeta { n, dead, raw } => {
                let live: Vec<(u64, Id)> = self.m.nodes.iter().filter(|(i, _)| **i != ROOT).filter_map(|(i, x)| x.sut.get().map(|s| (s, *i))).collect();
                let unknown = self.m.nodes.values().any(|x| x.sut.get().is_none());
                let node = match raw {
                    Some(r) => *r,
                    None if *dead && !self.m.dead_suts.is_empty() => *self.m.dead_suts.iter().nth(*n as usize % self.m.dead_suts.len()).unwrap(),
                    None if !live.is_empty() => live[*n as usize % live.len()].0,
                    None => return Ok(None),
                };
                if node == 0 {
                    return Ok(None);
                }
                match (self.fs.metadata_from_node(node), live.iter().find(|x| x.0 == node)) {
                    (Ok(g), Some((_, id))) => {
                        Self::check_meta(&self.m, &self.cfg, *id, &g, false, "metadata_from_node")?;
                        // (not logged: back ends may number objects differently)
                        return Ok(Some(true));
                    }
                    (Err(e), None) => {
                        if raw.is_none_or(|r| r >> 32 > 0) {
                            self.log(|| format!("{e:?}"));
                        }
                        false
                    }
                    (Ok(_), None) if unknown => return Ok(None),
                    (Ok(_), None) => return Err((Cat::Outcome, format!("metadata_from_node({node}) of no existing object succeeded"))),
                    (Err(e), Some(_)) => return Err((Cat::Outcome, format!("metadata_from_node({node}) failed: {e:?}"))),
                }
            }
            Op::GetMeta { fd } => {
                let f = self.fd(*fd);
                if f <= 2 {
                    let _ = self.fs.metadata(f);
                    return Ok(None);
                }
                match (self.fs.metadata(f), self.m.fds.get(&f)) {
                    (Ok(g), Some(mf)) => {
                        Self::check_meta(&self.m, &self.cfg, mf.id, &g, false, "metadata")?;
                        true
                    }
                    (g, mf) => {
                        let exp = mf.map(|_| ()).ok_or(E::BadFileDescriptor);
                        self.cmp("metadata", Cat::Outcome, g.map(|_| ()), exp)?
                    }
                }
            }
            Op::GetStat { fd } => {
                let f = self.fd(*fd);
                let exp = self
                    .m
                    .fds
                    .get(&f)
                    .map(|x| (kind_of(&self.m, x.id), x.flags, x.rights, x.inh))
                    .ok_or(E::BadFileDescriptor);
                let sut = self.fs.get_stat(f).map(|(t, s)| (t, s.flags.bits(), s.rights_base, s.rights_inheriting));
                self.cmp("get_stat", Cat::Stat, sut, exp)?
            }
            Op::SetStat { fd, flags, rights, inh } => {
                let f = self.fd(*fd);
                let exp = self.m.set_stat(f, flags_of(*flags).bits(), *rights, *inh);
                let sut = self.fs.set_stat(f, stat_of(*flags, *rights, *inh));
                self.cmp("set_stat", Cat::Outcome, sut, exp)?
            }
            Op::Stat { dir, path } => {
                let d = self.fd(*dir);
                let p = self.path(d, path);
                let exp = self.m.dir_of_fd(d).and_then(|x| self.m.find(x, &p));
                match (self.fs.open_metadata(d, &p), exp) {
                    (Ok(g), Ok(id)) => {
                        Self::check_meta(&self.m, &self.cfg, id, &g, false, &format!("open_metadata({:?})", short(&p)))?;
                        true
                    }
                    (g, e) => self.cmp(&format!("open_metadata({:?})", short(&p)), Cat::Outcome, g.map(|_| ()), e.map(|_| ()))?,
                }
            }
            Op::RmFile { dir, path } => {
                let d = self.fd(*dir);
                let p = self.path(d, path);
                let exp = self.m.remove(d, &p, false);
                let sut = self.fs.remove_file(d, &p);
                self.cmp(&format!("remove_file({:?})", short(&p)), Cat::Outcome, sut, exp)?
            }
            Op::RmDir { dir, path } => {
                let d = self.fd(*dir);
                let p = self.path(d, path);
                let exp = self.m.remove(d, &p, true);
                let sut = self.fs.remove_dir(d, &p);
                self.cmp(&format!("remove_dir({:?})", short(&p)), Cat::Outcome, sut, exp)?
            }
            Op::RmRec { dir, path } => {
                let d = self.fd(*dir);
                let p = self.path(d, path);
                let exp = self.m.remove_recursive(d, &p);
                let sut = if self.abyss {
                    let fs = &mut self.fs;
                    small_stack(|| fs.remove_recursive(d, &p))
                } else {
                    self.fs.remove_recursive(d, &p)
                };
                match exp {
                    Ok(()) => self.cmp(&format!("remove_recursive({:?})", short(&p)), Cat::Outcome, sut, Ok(()))?,
                    Err((Some(e), _)) => self.cmp(&format!("remove_recursive({:?})", short(&p)), Cat::Outcome, sut, Err(e))?,
                    Err((None, top)) => {
                        if sut.is_ok() {
                            return Err((Cat::Outcome, format!("remove_recursive({:?}) of a subtree in use succeeded", short(&p))));
                        }
                        let fd = self
                            .fs
                            .open(d, &p, FdStat::default(), OpenFlags::empty(), 0)
                            .map_err(|e| (Cat::Tree, format!("directory gone after a refused recursive removal: {e:?}")))?;
                        self.stats.l("partial_recursive");
                        self.sync_partial(fd, top.unwrap())?;
                        let _ = self.fs.close(fd);
                        false
                    }
                }
            }
            Op::Link { od, op, nd, np } => {
                let a = self.fd(*od);
                let pa = self.path(a, op);
                let b = self.fd(*nd);
                let pb = self.path(b, np);
                let exp = self.m.link(a, &pa, b, &pb).map(|id| self.m.fd_for(id, 0, md::R_ALL, md::R_ALL, false));
                let sut = self.fs.create_hard_link(a, &pa, b, &pb);
                self.opened(sut, exp, &format!("create_hard_link({:?},{:?})", short(&pa), short(&pb)))?
            }
            Op::Rename { od, op, nd, np } => {
                let a = self.fd(*od);
                let pa = self.path(a, op);
                let b = self.fd(*nd);
                let pb = self.path(b, np);
                let exp = self.m.rename(a, &pa, b, &pb).map(|id| self.m.fd_for(id, 0, md::R_ALL, md::R_ALL, false));
                let sut = self.fs.rename(a, &pa, b, &pb);
                self.opened(sut, exp, &format!("rename({:?},{:?})", short(&pa), short(&pb)))?
            }
            Op::List { dir, start, stop } => {
                let d = self.fd(*dir);
                self.do_list(d, *start, *stop)?
            }
            Op::GetEntry { dir, start } => {
                let d = self.fd(*dir);
                match self.m.dir_of_fd(d) {
                    Err(e) => {
                        let sut = self.fs.get_direntry(d, 1).map(|_| ());
                        self.cmp("get_direntry", Cat::Outcome, sut, Err(e))?
                    }
                    Ok(id) => {
                        let all = Self::list_all(&mut self.fs, &self.m, d, id)?;
                        let i = match *start {
                            Start::Entry(n, k) if !all.is_empty() => all[n as usize % all.len()].0.saturating_add_signed(k as i32),
                            Start::Raw(n) => n,
                            Start::Dot => DOT,
                            Start::DotDot => DOTDOT,
                            _ => 0,
                        };
                        let exp = all.iter().find(|x| x.0 == i);
                        match (self.fs.get_direntry(d, i), exp) {
                            (Ok(e), Some(x)) => {
                                let n = String::from_utf8_lossy(&e.name.bytes[..e.name.length as usize]).to_string();
                                if n != x.1 {
                                    return Err((Cat::Listing, format!("index {i} gives {n:?}, listing says {:?}", x.1)));
                                }
                                Self::ident(&self.m, self.m.entries(id)[&n].id, e.node)?;
                                true
                            }
                            (Err(_), None) => false,
                            (a, b) => return Err((Cat::Listing, format!("get_direntry({i}): {:?}, listing has {b:?}", a.map(|e| e.node)))),
                        }
                    }
                }
            }
            Op::Mount { path, slash, mem, pol } => {
                let (p, full) = self.mpath(path, *slash);
                let mi = *mem as usize % self.mems.len();
                let pages = self.mems[mi].size();
                let (mp, sp) = match *pol {
                    Pol::PrevOrZero => (Policy::PreviousOrZero, MountedFileSizePolicy::PreviousOrZero),
                    Pol::PrevOrPages => (Policy::PreviousOrPages, MountedFileSizePolicy::PreviousOrMemoryPages),
                    Pol::Explicit(n) => (Policy::Explicit(n), MountedFileSizePolicy::Explicit(n)),
                    Pol::Pages => (Policy::Pages, MountedFileSizePolicy::MemoryPages),
                };
                let exp = self.m.mount(&p, mi, pages, mp);
                let id = exp.as_ref().ok().copied();
                let sut = self.fs.mount_memory_file(&full, Box::new(self.mems[mi].clone()), sp);
                let ok = self.cmp(&format!("mount_memory_file({:?})", short(&p)), Cat::Outcome, sut, exp.map(|_| ()))?;
                if let Some(id) = id {
                    let g = self.fs.open_metadata(ROOT_FD, &p).map_err(|e| (Cat::Mount, format!("mounted file not found: {e:?}")))?;
                    Self::check_meta(&self.m, &self.cfg, id, &g, false, "after mount").map_err(|(c, d)| (if c == Cat::Size { Cat::Mount } else { c }, d))?;
                    if g.size > 0 {
                        self.stats.l("mounted_nonempty");
                    }
                }
                ok
            }
            Op::Unmount { path, slash } => {
                let (p, full) = self.mpath(path, *slash);
                let exp = self.m.unmount(&p);
                match (self.fs.unmount_memory_file(&full), exp) {
                    (Ok(b), Ok(mi)) => {
                        // the same memory must come back
                        let h = &self.mems[mi];
                        if b.size() != h.size() {
                            return Err((Cat::Mount, "unmount returned a different memory".into()));
                        }
                        let before = h.size();
                        let same = if before < 4 {
                            b.grow(1);
                            h.size() == before + 1
                        } else {
                            let at = 0;
                            let (mut x, mut y) = ([0u8], [0u8]);
                            h.read(at, &mut x);
                            b.write(at, &[!x[0]]);
                            h.read(at, &mut y);
                            b.write(at, &x);
                            y[0] == !x[0]
                        };
                        if !same {
                            return Err((Cat::Mount, "unmount returned a different memory".into()));
                        }
                        true
                    }
                    (s, e) => self.cmp("unmount_memory_file", Cat::Outcome, s.map(|_| ()), e.map(|_| ()))?,
                }
            }
            Op::Init { path, slash } => {
                let (p, full) = self.mpath(path, *slash);
                if let Ok(id) = self.m.find(ROOT, &p)
                    && !self.m.is_dir(id)
                    && !self.transfer_fits(self.m.host_meta(id).size)
                {
                    return Ok(None);
                }
                let exp = self.m.init(&p);
                let sut = self.fs.init_memory_file(&full);
                self.cmp("init_memory_file", Cat::Outcome, sut, exp)?
            }
            Op::Store { path, slash } => {
                let (p, full) = self.mpath(path, *slash);
                if let Ok(id) = self.m.find(ROOT, &p)
                    && !self.m.is_dir(id)
                    && !self.transfer_fits(self.m.meta(id).size)
                {
                    return Ok(None);
                }
                let exp = self.m.store(&p);
                let sut = self.fs.store_memory_file(&full);
                self.cmp("store_memory_file", Cat::Outcome, sut, exp)?
            }
            Op::MemWrite { mem, off, len, seed } => {
                let mi = *mem as usize % self.mems.len();
                let off = off % (1 << 41);
                let data = fill(*seed, *len as usize);
                let end = off + data.len() as u64;
                let h = &self.mems[mi];
                let need = end.div_ceil(65536);
                if h.size() < need {
                    h.grow(need - h.size());
                }
                h.write(off, &data);
                self.m.mems[mi].put(off, &data);
                true
            }
            Op::MemGrow { mem, pages } => {
                let mi = *mem as usize % self.mems.len();
                self.mems[mi].grow(*pages as u64);
                true
            }
            Op::Advice { fd, off, len } => {
                let f = self.fd(*fd);
                let exp = if f <= 2 { Ok(()) } else { self.m.file_of_fd(f).map(|_| ()) };
                let sut = self.fs.advice(f, *off, *len, Advice::Random);
                self.cmp("advice", Cat::Outcome, sut, exp)?
            }
            Op::Allocate { fd, off, len } => {
                let f = self.fd(*fd);
                let exp = if f <= 2 { Ok(()) } else { self.m.file_of_fd(f).map(|_| ()) };
                let sut = self.fs.allocate(f, *off, *len);
                self.cmp("allocate", Cat::Outcome, sut, exp)?
            }
            Op::Flush { fd } => {
                let f = self.fd(*fd);
                let exp = self.m.file_of_fd(f).map(|_| ());
                let sut = self.fs.flush(f);
                self.cmp("flush", Cat::Outcome, sut, exp)?
            }
            Op::SetChunkType { v } => {
                if !self.cfg.stable() {
                    return Ok(None);
                }
                let t = if v % 2 == 0 { 1 } else { 2 };
                self.fs.storage.set_chunk_type(if t == 1 { ChunkType::V1 } else { ChunkType::V2 });
                self.m.chunk_type = t;
                if self.fs.storage.chunk_type() as u8 != t {
                    return Err((Cat::Chunk, "chunk type not taken over".into()));
                }
                true
            }
            Op::SetChunkSize { v } => {
                if !self.cfg.stable() {
                    return Ok(None);
                }
                let (cs, n) = CHUNKS[*v as usize % 5];
                let n = n as u64;
                let stored = self.ever_stored || self.m.next > 1;
                let exp = if n == self.chunk_size || !stored { Ok(()) } else { Err(E::InvalidArgument) };
                let ok = exp.is_ok();
                let sut = self.fs.storage.set_chunk_size(cs);
                let r = self.cmp(&format!("set_chunk_size({n})"), Cat::Outcome, sut, exp)?;
                if ok {
                    self.chunk_size = n;
                }
                self.check_chunk_size()?;
                r
            }
            Op::Restart { mode } => {
                if !self.cfg.stable() {
                    return Ok(None);
                }
                // replace the running instance, nothing is flushed or closed
                let mut cfg = self.cfg;
                if cfg.backend == Backend::V1 && mode % 4 == 3 {
                    // the application forgets to choose V1 again
                    cfg.backend = Backend::V2;
                }
                self.fs = boot(&Config { backend: Backend::Transient, ..self.cfg }, &self.mem, false);
                self.fs = boot_in(&cfg, &self.mem, self.mm.as_ref(), false);
                self.m.restart(cfg.chunk_type());
                self.check_chunk_size()?;
                true
            }
            Op::Many { dir, sub, base, k, how, seed } => {
                for i in 0..*k {
                    self.many_one(*dir, *sub, *base, i, *how, *seed, *k)?;
                }
                true
            }
            Op::Each { dir, sub, base, k, step, how, seed } => {
                for i in 0..*k {
                    self.each_one(*dir, *sub, base.wrapping_add(i.wrapping_mul(*step)), *how, seed.wrapping_add(i as u32))?;
                }
                true
            }
            Op::Sparse { fd, from, k, stride, read, seed } => {
                // (so many chunks, not only so many places)
                let unit = if *k > 8000 { self.chunk_size.clamp(4096, 16384) } else { 4096 };
                for i in 0..*k as u64 {
                    let at = Some(Pos::Abs(*from as u64 + i * *stride as u64 * unit));
                    let o = if *read {
                        Op::Read { fd: *fd, lens: vec![Len::Abs(3)], at, plain: false }
                    } else {
                        Op::Write { fd: *fd, lens: vec![Len::Abs(9)], at, seed: seed.wrapping_add(i as u32), plain: false }
                    };
                    if !self.sub_step(&o)? {
                        break;
                    }
                }
                true
            }
            Op::AuditWarm => {
                self.audit_warm()?;
                true
            }
            Op::AuditCold => {
                self.audit_cold()?;
                true
            }
        };
        if r {
            self.log(|| "ok".to_string());
        }
        Ok(Some(r))
    }

    fn sub_step(&mut self, op: &Op) -> D<bool> {
        let r = self.exec(op).map_err(|(c, d)| (c, format!("at {op:?}: {d}")))?;
        if let Some(r) = r {
            let m = if r { &mut self.stats.ok } else { &mut self.stats.err };
            *m.entry(op.kind()).or_default() += 1;
        }
        Ok(r == Some(true))
    }
    fn close_last(&mut self) -> D<()> {
        let fd = Fd::Raw(self.last_fd);
        self.sub_step(&Op::Close { fd })?;
        Ok(())
    }
    fn sub_path(sub: Option<u16>, n: u16) -> Path {
        let mut t = vec![];
        match sub {
            // spread over directories of 40 names
            Some(SPREAD) => t.push(Tok::N(30_000 + n / 40)),
            Some(s) => t.push(Tok::N(s)),
            None => {}
        }
        t.push(Tok::N(n));
        Path::Comps(t, false, false)
    }
    fn many_one(&mut self, dir: Fd, sub: Option<u16>, base: u16, i: u16, how: u8, seed: u32, k: u16) -> D<()> {
        if how == 100 {
            // directories nested thousands deep, each made through the last
            self.abyss = true;
            let dir = if i == 0 { dir } else { Fd::Raw(self.last_fd) };
            if !self.sub_step(&Op::MkdirOpen { dir, path: Path::Comps(vec![Tok::N(base)], false, false), ctime: 5 })? {
                return Ok(());
            }
            if i % 512 == 77 {
                let (dir, deepest) = (Fd::Raw(self.last_fd), self.last_fd);
                if self.sub_step(&Op::Open { dir, path: Path::Comps(vec![Tok::N(base + 1)], false, false), oflags: md::O_CREATE, flags: 0, rights: md::R_ALL, ctime: 6 })? {
                    self.close_last()?;
                }
                self.last_fd = deepest;
            }
            if i > 0 {
                self.sub_step(&Op::Close { fd: dir })?;
            }
            if i + 1 == k {
                self.close_last()?;
            }
            return Ok(());
        }
        if how == 101 {
            if self.sub_step(&Op::Rename { od: dir, op: Self::sub_path(None, base), nd: dir, np: Self::sub_path(None, base + 2) })? {
                self.close_last()?;
            }
            return Ok(());
        }
        let how = how % 9;
        let n = base.wrapping_add(i);
        let path = match how {
            // one file again and again
            7 => Self::sub_path(sub, base),
            // ever deeper
            8 if i >= (if k >= 250 { 300 } else { 150 }) => return Ok(()),
            8 => Path::Comps((0..=i).map(|_| Tok::N(base)).collect(), false, false),
            _ => Self::sub_path(sub, n),
        };
        let ctime = n as u64 + 1;
        let mkdir = match how {
            2 => true,
            3 => i % 3 == 0,
            8 => true,
            _ => false,
        };
        if mkdir {
            self.sub_step(&Op::Mkdir { dir, path: path.clone(), ctime })?;
            if how == 8 && i % 16 == 15 {
                let Path::Comps(mut t, a, b) = path else { unreachable!() };
                t.push(Tok::N(base.wrapping_add(1)));
                let path = Path::Comps(t, a, b);
                if self.sub_step(&Op::Open { dir, path, oflags: md::O_CREATE, flags: 0, rights: md::R_ALL, ctime })? {
                    self.close_last()?;
                }
            }
            return Ok(());
        }
        if how == 5 && i > 0 {
            if self.sub_step(&Op::Link { od: dir, op: Self::sub_path(sub, base), nd: dir, np: path })? {
                self.close_last()?;
            }
            return Ok(());
        }
        if self.sub_step(&Op::Open { dir, path, oflags: md::O_CREATE, flags: 0, rights: md::R_ALL, ctime })? {
            let fd = Fd::Raw(self.last_fd);
            let seed = seed.wrapping_add(i as u32);
            let len = match how {
                1 => 40,
                6 => 3,
                4 => 5000,
                _ => 0,
            };
            if len > 0 && !self.m.is_dir(self.m.fds[&self.last_fd].id) {
                self.sub_step(&Op::Write { fd, lens: vec![Len::Abs(len)], at: None, seed, plain: true })?;
            }
            // 6 and 7 leave the descriptors open
            if how != 6 && how != 7 {
                self.close_last()?;
            }
        }
        Ok(())
    }
    fn each_one(&mut self, dir: Fd, sub: Option<u16>, n: u16, how: u8, seed: u32) -> D<()> {
        let path = Self::sub_path(sub, n);
        let open = |oflags| Op::Open { dir, path: path.clone(), oflags, flags: 0, rights: md::R_ALL, ctime: 9 };
        match how % 11 {
            9 => {
                self.sub_step(&Op::Mount { path, slash: seed % 2 == 0, mem: seed as u8, pol: Pol::Explicit(seed as u64 % 5000) })?;
            }
            10 => {
                self.sub_step(&Op::Unmount { path, slash: seed % 2 == 0 })?;
            }
            0 => {
                self.sub_step(&Op::RmFile { dir, path })?;
            }
            1 => {
                self.sub_step(&Op::RmRec { dir, path })?;
            }
            2 => {
                self.sub_step(&Op::Stat { dir, path })?;
            }
            h @ (4 | 5) => {
                let (a, b) = (n, n.wrapping_add(20_000));
                let (a, b) = if h == 4 { (a, b) } else { (b, a) };
                if self.sub_step(&Op::Rename { od: dir, op: Self::sub_path(sub, a), nd: dir, np: Self::sub_path(sub, b) })? {
                    self.close_last()?;
                }
            }
            7 => {
                self.sub_step(&Op::RmRec { dir, path: path.clone() })?;
                if self.sub_step(&open(md::O_CREATE))? {
                    self.close_last()?;
                }
            }
            h => {
                if self.sub_step(&open(0))? {
                    let fd = Fd::Raw(self.last_fd);
                    let file = !self.m.is_dir(self.m.fds[&self.last_fd].id);
                    match h {
                        3 if file => {
                            self.sub_step(&Op::Write { fd, lens: vec![Len::Abs(1 + seed % 90)], at: Some(Pos::Abs(seed as u64 % 50)), seed, plain: false })?;
                        }
                        8 if file => {
                            self.sub_step(&Op::SetSize { fd, pos: Pos::Abs(seed as u64 % 9000) })?;
                        }
                        6 => {
                            self.sub_step(&Op::SetTimes { fd, a: Some(seed as u64), m: Some(7) })?;
                        }
                        _ => {}
                    }
                    self.close_last()?;
                }
            }
        }
        Ok(())
    }

    fn transfer_fits(&mut self, size: u64) -> bool {
        if size <= MID_TRANSFER {
            return true;
        }
        let ok = size <= MAX_TRANSFER && !self.big_transfer;
        self.big_transfer |= ok;
        ok
    }
    fn mpath(&self, path: &Path, slash: bool) -> (String, String) {
        let p = self.path(ROOT_FD, path);
        if slash {
            (p.clone(), format!("/{p}"))
        } else {
            (p.strip_prefix('/').unwrap_or(&p).to_string(), p)
        }
    }

    fn do_seek(&mut self, f: u32, delta: i64, whence: u8) -> D<bool> {
        let exp = self.m.seek(f, delta, whence);
        let w = match whence {
            0 => Whence::SET,
            1 => Whence::CUR,
            _ => Whence::END,
        };
        let sut = self.fs.seek(f, delta, w);
        self.cmp(&format!("seek({delta},{whence})"), Cat::Cursor, sut, exp)
    }

    fn do_read(&mut self, fd: Fd, lens: &[Len], at: Option<Pos>, plain: bool) -> D<Option<bool>> {
        let f = self.fd(fd);
        let at = at.map(|p| self.pos(f, p));
        let start = at.unwrap_or_else(|| self.m.file_of_fd(f).map(|x| x.cursor).unwrap_or(0));
        let mut ls = self.lens(f, start, lens);
        let plain = plain && at.is_none();
        if plain {
            ls.truncate(1);
            if ls.is_empty() {
                ls.push(0);
            }
        }
        let total: usize = ls.iter().sum();
        const PAD: usize = 8;
        let mut bufs: Vec<Vec<u8>> = ls.iter().map(|n| vec![0xA5u8; n + PAD]).collect();
        let exp = self.m.read(f, total as u64, at);
        let sut = if plain {
            self.fs.read(f, &mut bufs[0][..ls[0]])
        } else {
            let dst: Vec<DstBuf> = bufs.iter_mut().zip(&ls).map(|(b, n)| DstBuf { buf: b.as_mut_ptr(), len: *n }).collect();
            match at {
                None => self.fs.read_vec(f, &dst),
                Some(o) => self.fs.read_vec_with_offset(f, &dst, o),
            }
        };
        let data = exp.as_ref().ok().cloned().unwrap_or_default();
        let what = format!("read {ls:?} at {at:?} (start {start})");
        let r = self.cmp(&what, Cat::Count, sut, exp.map(|v| v.len() as u64))?;
        let mut k = 0usize;
        for (b, n) in bufs.iter().zip(&ls) {
            for (i, x) in b.iter().enumerate() {
                if i < *n && k < data.len() {
                    if *x != data[k] {
                        return Err((Cat::Data, format!("{what}: byte {k} (offset {}) is {x:#x}, expected {:#x}", start + k as u64, data[k])));
                    }
                    k += 1;
                } else if *x != 0xA5 {
                    return Err((Cat::Canary, format!("{what}: buffer changed beyond the returned bytes")));
                }
            }
        }
        if data.len() > 65536 {
            self.stats.l("long_read");
        }
        if !data.is_empty() {
            self.stats.l("read_bytes");
        }
        self.log(|| format!("read {}", data.len()));
        Ok(Some(r))
    }

    fn do_write(&mut self, fd: Fd, lens: &[Len], at: Option<Pos>, seed: u32, plain: bool) -> D<Option<bool>> {
        let f = self.fd(fd);
        let mounted = self.is_mounted_fd(f);
        let at = at.map(|p| self.pos(f, p));
        let mf = self.m.file_of_fd(f).ok();
        let size = mf.map(|x| self.m.meta(x.id).size).unwrap_or(0);
        let append = mf.map(|x| x.flags & md::F_APPEND != 0).unwrap_or(false);
        let start = if append { size } else { at.unwrap_or_else(|| mf.map(|x| x.cursor).unwrap_or(0)) };
        let mut ls = self.lens(f, start, lens);
        let plain = plain && at.is_none();
        if plain {
            ls.truncate(1);
            if ls.is_empty() {
                ls.push(0);
            }
        }
        let bufs: Vec<Vec<u8>> = ls.iter().enumerate().map(|(i, n)| fill(seed.wrapping_add(i as u32), *n)).collect();
        let exp = self.m.write(f, &bufs, at);
        let sut = if plain {
            self.fs.write(f, &bufs[0])
        } else {
            let src: Vec<SrcBuf> = bufs.iter().map(|b| SrcBuf { buf: b.as_ptr(), len: b.len() }).collect();
            match at {
                None => self.fs.write_vec(f, &src),
                Some(o) => self.fs.write_vec_with_offset(f, &src, o),
            }
        };
        let what = format!("write {ls:?} at {at:?} (start {start})");
        let r = self.cmp(&what, Cat::Count, sut, exp)?;
        let total: u64 = ls.iter().map(|x| *x as u64).sum();
        if r && total > 0 {
            self.stats.l("wrote");
            if mounted {
                self.stats.l("mounted_io");
            }
            let c = self.cfg.chunk_bytes();
            if start / c != (start + total - 1) / c {
                self.stats.l("wrote_across_chunks");
            }
            if start > size {
                self.stats.l("wrote_past_end");
            }
            if start < size {
                self.stats.l("overwrote");
            }
            if (start / 65536) != (start + total - 1) / 65536 {
                self.stats.l("wrote_across_64k");
            }
        }
        self.log(|| format!("write {total}"));
        Ok(Some(r))
    }

    fn do_list(&mut self, d: u32, start: Start, stop: u16) -> D<bool> {
        let id = match self.m.dir_of_fd(d) {
            Err(e) => {
                let sut = self.fs.with_direntries(d, None, &mut |_, _| true);
                return self.cmp("with_direntries", Cat::Outcome, sut, Err(e));
            }
            Ok(id) => id,
        };
        let all = Self::list_all(&mut self.fs, &self.m, d, id)?;
        let from = match start {
            Start::None => None,
            Start::Zero => Some(0),
            Start::Dot => Some(DOT),
            Start::DotDot => Some(DOTDOT),
            Start::Raw(n) => Some(n),
            Start::Entry(n, k) => Some(if all.is_empty() {
                0
            } else {
                all[n as usize % all.len()].0.saturating_add_signed(k as i32)
            }),
        };
        let mut exp: Vec<(u32, String)> = vec![];
        let dots = match from {
            None | Some(DOT) => 2,
            Some(DOTDOT) => 1,
            _ => 0,
        };
        if dots == 2 {
            exp.push((DOT, ".".into()));
        }
        if dots >= 1 {
            exp.push((DOTDOT, "..".into()));
        }
        let min = if dots > 0 { 0 } else { from.unwrap_or(0) };
        exp.extend(all.into_iter().filter(|x| x.0 >= min));
        let stop = if stop == 0 { usize::MAX } else { stop as usize };
        exp.truncate(stop);
        let mut got: Vec<(u32, String)> = vec![];
        let mut whose: Vec<(u64, Option<FileType>)> = vec![];
        let sut = self.fs.with_direntries(d, from, &mut |i, e| {
            whose.push((e.node, e.entry_type));
            got.push((*i, String::from_utf8_lossy(&e.name.bytes[..e.name.length as usize]).to_string()));
            got.len() < stop
        });
        self.cmp("with_direntries", Cat::Outcome, sut, Ok(()))?;
        if got != exp {
            return Err((
                Cat::Listing,
                format!(
                    "listing from {from:?} stopping after {stop}: got {:?}, expected {:?}",
                    got.iter().map(|x| (x.0, short(&x.1))).collect::<Vec<_>>(),
                    exp.iter().map(|x| (x.0, short(&x.1))).collect::<Vec<_>>()
                ),
            ));
        }
        for ((i, n), (node, ty)) in got.iter().zip(whose) {
            let what = format!("listing from {from:?}, entry {:?}", short(n));
            let x = match *i {
                DOT => id,
                DOTDOT => continue,
                _ => self.m.entries(id)[n].id,
            };
            Self::ident(&self.m, x, node).map_err(|(_, d)| (Cat::Listing, format!("{what}: {d}")))?;
            if ty.is_some_and(|t| t != kind_of(&self.m, x)) {
                return Err((Cat::Listing, format!("{what} has type {ty:?}")));
            }
        }
        if from.is_some() && from != Some(0) && !got.is_empty() {
            self.stats.l("resumed");
        }
        Ok(true)
    }

    /// After a refused recursive removal: remove from the model what is gone.
    fn sync_partial(&mut self, fd: u32, id: Id) -> D<()> {
        let mut names = std::collections::BTreeSet::new();
        self.fs
            .with_direntries(fd, Some(0), &mut |_, e| {
                names.insert(String::from_utf8_lossy(&e.name.bytes[..e.name.length as usize]).to_string());
                true
            })
            .map_err(|e| (Cat::Listing, format!("listing failed: {e:?}")))?;
        let mine: Vec<String> = self.m.entries(id).keys().cloned().collect();
        for n in &mine {
            if !names.contains(n) {
                self.m.forget(id, n).map_err(|d| (Cat::Tree, d))?;
            }
        }
        for n in mine {
            if names.contains(&n) {
                let e = self.m.entries(id)[&n].id;
                if self.m.is_dir(e) {
                    let sub = self
                        .fs
                        .open(fd, &n, FdStat::default(), OpenFlags::DIRECTORY, 0)
                        .map_err(|e| (Cat::Tree, format!("listed directory does not open: {e:?}")))?;
                    self.sync_partial(sub, e)?;
                    let _ = self.fs.close(sub);
                }
            }
        }
        Ok(())
    }
}

pub fn short(s: &str) -> String {
    if s.len() <= 60 {
        s.to_string()
    } else {
        let head: String = s.chars().take(20).collect();
        format!("{head}..({} bytes)", s.len())
    }
}
#[allow(dead_code)]
pub fn meta_of(m: &Model, id: Id) -> Meta {
    m.meta(id)
}
