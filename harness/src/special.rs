//! Checks that are not one history against the model: differential runs over
//! the back ends, shared memory managers, growth over repeated rounds, images
//! of earlier releases, encodings.
use crate::bytes::fill;
use crate::engine::*;
use crate::mem::Mem;
use crate::model::{Id, Kind, Meta, Model, ROOT, ROOT_FD, Times};
use crate::ops::*;
use ciborium::Value;
use ic_stable_structures::memory_manager::{MemoryId, MemoryManager};
use ic_stable_structures::storable::Bound;
use ic_stable_structures::{BTreeMap as SMap, Cell as SCell, Memory, Storable};
use serde::{Deserialize, Serialize};
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

type D<T> = Result<T, (Cat, String)>;
fn other<T>(s: impl Into<String>) -> D<T> {
    Err((Cat::Other, s.into()))
}

// ------------------------------------------------------------------ C10
pub fn run_diff(cfgs: &[Config], ops: &[Op]) -> (CaseStats, Result<(), Div>) {
    let mut stats = CaseStats::default();
    let mut base: Option<(Config, Vec<Vec<String>>)> = None;
    for cfg in cfgs {
        let mut w = World::new(*cfg, Opts::default());
        let mut t: Vec<Vec<String>> = vec![];
        let mut div: Option<(Cat, String)> = None;
        for (i, op) in ops.iter().enumerate() {
            w.log = Some(vec![]);
            let r = w.step(op);
            let mut l = w.log.take().unwrap();
            let mut stop = false;
            if let Err((cat, d)) = r {
                if cat == Cat::Harness {
                    return (stats, Err(Div { cat, step: i, op: format!("{op:?}"), detail: d }));
                }
                // differs from the model: only a difference between back ends matters here
                l.push(format!("{cat:?}"));
                div = Some((cat, d));
                stop = true;
            }
            t.push(l);
            if stop {
                break;
            }
        }
        if div.is_none() {
            let mut l = vec!["final".to_string()];
            if let Err((cat, d)) = w.final_audit() {
                l.push(format!("{cat:?}"));
                div = Some((cat, d));
            }
            t.push(l);
        }
        match &base {
            None => {
                stats = std::mem::take(&mut w.stats);
                base = Some((*cfg, t));
            }
            Some((bc, b)) => {
                for i in 0..b.len().max(t.len()) {
                    if b.get(i) != t.get(i) {
                        let d = Div {
                            cat: Cat::Other,
                            step: i,
                            op: ops.get(i).map(|o| format!("{o:?}")).unwrap_or("final audit".into()),
                            detail: format!("{bc:?} gives {:?}, {cfg:?} gives {:?} ({div:?})", b.get(i), t.get(i)),
                        };
                        return (stats, Err(d));
                    }
                }
            }
        }
    }
    (stats, Ok(()))
}

// ------------------------------------------------------------------ C17
#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
pub enum MOp {
    /// operation on the first / second file system
    A(Op),
    B(Op),
    /// the owner of a foreign memory grows or writes it
    Grow(u8, u8),
    Put { f: u8, off: u32, len: u16, seed: u32 },
    /// process restart: everything is opened again
    Restart,
    Check,
}
#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
pub struct Multi {
    pub a: Config,
    pub b: Config,
    /// extra identifiers at the end of the ranges given
    pub slack: u8,
    pub bucket: u16,
    pub foreign: Vec<u8>,
    pub ops: Vec<MOp>,
}

struct Foreign {
    id: u8,
    pages: u64,
    bytes: crate::bytes::Bytes,
}
fn check_foreign(mm: &MemoryManager<Mem>, fs: &[Foreign]) -> D<()> {
    for f in fs {
        let v = mm.get(MemoryId::new(f.id));
        if v.size() != f.pages {
            return other(format!("memory {} has {} pages, its owner left {}", f.id, v.size(), f.pages));
        }
        for p in 0..f.pages {
            let mut b = vec![0u8; 65536];
            v.read(p * 65536, &mut b);
            let e = f.bytes.read_at(p * 65536, 65536);
            if b != e {
                let k = b.iter().zip(&e).position(|(x, y)| x != y).unwrap();
                return other(format!("memory {} changed at {}: {:#x}, its owner wrote {:#x}", f.id, p * 65536 + k as u64, b[k], e[k]));
            }
        }
    }
    Ok(())
}

pub fn run_multi(c: &Multi) -> (CaseStats, Result<(), Div>) {
    let mem = Mem::new();
    let bucket = c.bucket.max(1);
    let mut mm: Manager = Rc::new(MemoryManager::init_with_bucket_size(mem.clone(), bucket));
    // foreign memories exist before the file systems
    let mut fo: Vec<Foreign> = c.foreign.iter().map(|id| Foreign { id: *id, pages: 0, bytes: Default::default() }).collect();
    for (i, f) in fo.iter_mut().enumerate() {
        let v = mm.get(MemoryId::new(f.id));
        v.grow(1);
        f.pages = 1;
        let d = fill(1000 + i as u32, 65536);
        v.write(0, &d);
        f.bytes.put(0, &d);
    }
    let open = |cfg: &Config, mm: &Manager| -> World {
        let fs = boot_in(cfg, &mem, Some(mm), true);
        let mut w = World::over(*cfg, Opts::default(), mem.clone(), fs);
        w.mm = Some(mm.clone());
        w
    };
    let mut a = open(&c.a, &mm);
    let mut b = open(&c.b, &mm);
    let mut st = CaseStats::default();
    let mut step = |i: usize, o: &MOp, a: &mut World, b: &mut World| -> D<()> {
        match o {
            MOp::A(op) => a.step(op).map_err(|(c, d)| (c, format!("first file system: {d}")))?,
            MOp::B(op) => b.step(op).map_err(|(c, d)| (c, format!("second file system: {d}")))?,
            MOp::Grow(f, p) => {
                if let Some(k) = fo.len().checked_sub(1) {
                    let f = &mut fo[*f as usize % (k + 1)];
                    if f.pages < 20 && mm.get(MemoryId::new(f.id)).grow(*p as u64) >= 0 {
                        f.pages += *p as u64;
                    }
                }
            }
            MOp::Put { f, off, len, seed } => {
                if let Some(k) = fo.len().checked_sub(1) {
                    let f = &mut fo[*f as usize % (k + 1)];
                    let off = *off as u64 % (f.pages * 65536);
                    let len = (*len as u64).min(f.pages * 65536 - off);
                    let d = fill(*seed, len as usize);
                    mm.get(MemoryId::new(f.id)).write(off, &d);
                    f.bytes.put(off, &d);
                }
            }
            MOp::Restart => {
                // drop the old file systems first
                a.fs = boot(&Config { backend: Backend::Transient, ..a.cfg }, &mem, false);
                b.fs = boot(&Config { backend: Backend::Transient, ..b.cfg }, &mem, false);
                a.mm = None;
                b.mm = None;
                mm = Rc::new(MemoryManager::init(mem.clone()));
                a.mm = Some(mm.clone());
                b.mm = Some(mm.clone());
                a.step(&Op::Restart { mode: 0 })?;
                b.step(&Op::Restart { mode: 0 })?;
            }
            MOp::Check => check_foreign(&mm, &fo)?,
        }
        if i == usize::MAX {
            check_foreign(&mm, &fo)?;
        }
        Ok(())
    };
    let mut res = Ok(());
    for (i, o) in c.ops.iter().enumerate() {
        if let Err((cat, detail)) = step(i, o, &mut a, &mut b) {
            res = Err(Div { cat, step: i, op: format!("{o:?}"), detail });
            break;
        }
    }
    if res.is_ok() {
        let fin = a
            .final_audit()
            .map_err(|(c, d)| (c, format!("first file system: {d}")))
            .and_then(|_| b.final_audit().map_err(|(c, d)| (c, format!("second file system: {d}"))))
            .and_then(|_| step(usize::MAX, &MOp::Check, &mut a, &mut b));
        if let Err((cat, detail)) = fin {
            res = Err(Div { cat, step: c.ops.len(), op: "final audit".into(), detail });
        }
    }
    for w in [&a, &b] {
        for (m, o) in [(&mut st.ok, &w.stats.ok), (&mut st.err, &w.stats.err), (&mut st.label, &w.stats.label)] {
            for (k, v) in o {
                *m.entry(k).or_default() += v;
            }
        }
    }
    let both = a.stats.lab("changes") >= 2 && b.stats.lab("changes") >= 2;
    if both {
        st.label.insert("both_changed", 1);
    }
    (st, res)
}

// ------------------------------------------------------------------ stored structures
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct OName(pub Vec<u8>);
impl PartialOrd for OName {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for OName {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.0.cmp(&o.0)
    }
}
impl Storable for OName {
    fn to_bytes(&self) -> Cow<'_, [u8]> {
        let mut v = vec![0u8; 256];
        v[0] = self.0.len() as u8;
        v[1..1 + self.0.len()].copy_from_slice(&self.0);
        Cow::Owned(v)
    }
    fn into_bytes(self) -> Vec<u8> {
        self.to_bytes().into_owned()
    }
    fn from_bytes(b: Cow<[u8]>) -> Self {
        OName(b[1..1 + b[0] as usize].to_vec())
    }
    const BOUND: Bound = Bound::Bounded { max_size: 256, is_fixed_size: true };
}
#[derive(Clone)]
struct OChunk(Vec<u8>);
impl Storable for OChunk {
    fn to_bytes(&self) -> Cow<'_, [u8]> {
        Cow::Borrowed(&self.0)
    }
    fn into_bytes(self) -> Vec<u8> {
        self.0
    }
    fn from_bytes(b: Cow<[u8]>) -> Self {
        OChunk(b.to_vec())
    }
    const BOUND: Bound = Bound::Bounded { max_size: 4096, is_fixed_size: true };
}
/// Raw record of unbounded size.
#[derive(Clone)]
pub struct Rec(pub Vec<u8>);
impl Storable for Rec {
    fn to_bytes(&self) -> Cow<'_, [u8]> {
        Cow::Borrowed(&self.0)
    }
    fn into_bytes(self) -> Vec<u8> {
        self.0
    }
    fn from_bytes(b: Cow<[u8]>) -> Self {
        Rec(b.to_vec())
    }
    const BOUND: Bound = Bound::Unbounded;
}
pub fn cbor(v: &Value) -> Vec<u8> {
    let mut b = vec![];
    ciborium::ser::into_writer(v, &mut b).unwrap();
    b
}
fn text(s: &str) -> Value {
    Value::Text(s.to_string())
}
fn num(n: u64) -> Value {
    Value::Integer(n.into())
}
fn opt(n: Option<u64>) -> Value {
    n.map(num).unwrap_or(Value::Null)
}
pub fn map(v: Vec<(&str, Value)>) -> Value {
    Value::Map(v.into_iter().map(|(k, v)| (text(k), v)).collect())
}

/// Make a fresh image look like one that has been in use for long: identifiers
/// and chunk addresses handed out so far are large, some chunks wait for reuse.
/// Returns whether chunks count as handed out.
pub fn age_image(cfg: &Config, mem: &Mem) -> bool {
    let start = cfg.start.unwrap_or(229);
    let mm = MemoryManager::init(mem.clone());
    let get = |k: u8| mm.get(MemoryId::new(start + k));
    let a = cfg.age as u64;
    let next = match a % 8 {
        0 => 1,
        1 => (1 << 8) - 2 + a / 64,
        2 => (1 << 16) - 3 + a / 64,
        3 => (1 << 31) - 2,
        4 | 5 => (1u64 << 32) - 4 + a / 64,
        6 => 1 << 40,
        _ => (1 << 63) - 2,
    };
    let mut h = SCell::init(get(0), Rec(vec![]));
    h.set(Rec(cbor(&map(vec![("version", num(1)), ("next_node", num(next))]))));
    let al = get(6);
    let mut b = [0u8; 8];
    al.read(8, &mut b);
    let chunk = u64::from_le_bytes(b);
    let max = match (a / 8) % 8 {
        0 | 1 => 0,
        2 => (1u64 << 31) - 2 * chunk,
        3 | 4 | 5 => (1u64 << 32) - 3 * chunk,
        6 => 1 << 33,
        _ => 1 << 35,
    };
    if max == 0 {
        return false;
    }
    let data = get(7);
    data.grow(max.div_ceil(65536).saturating_sub(data.size()));
    // the list of free chunks may be about to cross the end of its first page
    let free = match (a / 64) % 4 {
        2 => (65536 - 128) / 8 - 2 + a % 4,
        n => n,
    };
    al.grow(((128 + 8 * free).div_ceil(65536)).saturating_sub(al.size()));
    let mut list = vec![];
    for k in 0..free {
        // the last ones of the list are taken first
        let p = max - (2 * (free - k) - 1) * chunk;
        if free - k <= 8 {
            data.write(p, &vec![0xDDu8; chunk as usize]);
        }
        list.extend_from_slice(&p.to_le_bytes());
    }
    al.write(128, &list);
    al.write(16, &free.to_le_bytes());
    al.write(24, &max.to_le_bytes());
    true
}

/// Ownership of storage: everything stored belongs to exactly one live owner
/// and every chunk ever handed out is in use or free.
fn audit_owners(w: &mut World) -> D<()> {
    w.audit_warm()?;
    let m = &w.m;
    let mut live: BTreeMap<u64, Id> = BTreeMap::new();
    for (id, n) in &m.nodes {
        if let Some(s) = n.sut.get() {
            live.insert(s, *id);
        }
    }
    let snap = w.mem.snapshot();
    let mm = MemoryManager::init(snap);
    let s = w.cfg.start.unwrap_or(229);
    let get = |k: u8| mm.get(MemoryId::new(s + k));
    let al = get(6);
    if al.size() == 0 {
        return Ok(());
    }
    let rd = |i: u64| {
        let mut b = [0u8; 8];
        al.read(i * 8, &mut b);
        u64::from_le_bytes(b)
    };
    let (nfree, max) = (rd(2), rd(3));
    let chunk = w.chunk_size;
    if nfree > 1 << 20 {
        return other("the list of free chunks is damaged");
    }
    let mut seen: BTreeSet<u64> = BTreeSet::new();
    for i in 0..nfree {
        let p = rd(16 + i);
        if p % chunk != 0 || p >= max || !seen.insert(p) {
            return other(format!("free chunk {p} is listed twice or lies outside the storage handed out"));
        }
    }
    let size_of = |node: u64| -> Option<(u64, bool)> { live.get(&node).map(|id| (m.host_meta(*id).size, m.is_dir(*id))) };
    let ptrs: SMap<(u64, u32), u64, _> = SMap::init(get(5));
    let mut used = 0u64;
    for e in ptrs.iter() {
        let (node, idx) = *e.key();
        let p = e.value();
        used += 1;
        if p % chunk != 0 || p >= max || !seen.insert(p) {
            return other(format!("chunk {p} of node {node} has two owners or lies outside the storage handed out"));
        }
        let Some((size, dir)) = size_of(node) else {
            return other(format!("chunk {idx} of removed node {node} is still kept"));
        };
        if idx < u32::MAX - 10 && (dir || idx as u64 * chunk >= size) {
            return other(format!("chunk {idx} of node {node} lies above its size {size} and is still kept"));
        }
    }
    if (nfree + used) * chunk != max {
        return other(format!("{} chunks were handed out, {used} are in use and {nfree} free: some are lost", max / chunk));
    }
    let v1: SMap<(u64, u32), OChunk, _> = SMap::init(get(3));
    for (node, idx) in v1.keys() {
        let Some((size, dir)) = size_of(node) else {
            return other(format!("V1 chunk {idx} of removed node {node} is still kept"));
        };
        if dir || idx as u64 * 4096 >= size {
            return other(format!("V1 chunk {idx} of node {node} lies above its size {size} and is still kept"));
        }
    }
    for k in [1, 4] {
        let map: SMap<u64, Rec, _> = SMap::init(get(k));
        if let Some(node) = map.keys().find(|n| size_of(*n).is_none()) {
            return other(format!("metadata of removed node {node} is still kept"));
        }
    }
    let de: SMap<(u64, u32), Rec, _> = SMap::init(get(2));
    for (node, _) in de.keys() {
        if !matches!(size_of(node), Some((_, true))) {
            return other(format!("an entry of removed directory {node} is still kept"));
        }
    }
    let lk: SMap<(u64, OName), u32, _> = SMap::init(get(9));
    for (node, _) in lk.keys() {
        if !matches!(size_of(node), Some((_, true))) {
            return other(format!("an index entry of removed directory {node} is still kept"));
        }
    }
    // (images of other releases: not every entry is in the index)
    if lk.len() > de.len() || (lk.len() < de.len() && !w.opts.owners) {
        return other(format!("{} directory entries, but {} names in the index", de.len(), lk.len()));
    }
    Ok(())
}

// ------------------------------------------------------------------ C09
#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
pub struct Cycle {
    pub cfg: Config,
    pub setup: Vec<Op>,
    pub round: Vec<Op>,
    /// true: the round ends by closing and removing all that was not there before
    pub clean: bool,
    pub rounds: u16,
    /// every round has names of its own
    #[serde(default)]
    pub fresh: bool,
}
fn digest(w: &World) -> String {
    use std::hash::{Hash, Hasher};
    let m = &w.m;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    for (p, id) in m.paths(ROOT) {
        p.hash(&mut h);
        let n = &m.nodes[&id];
        n.links.hash(&mut h);
        format!("{:?}", m.host_meta(id)).hash(&mut h);
        if let Kind::File { bytes, chunk, mount, mmeta } = &n.kind {
            bytes.digest(&mut h);
            format!("{chunk:?} {mount:?} {mmeta:?}").hash(&mut h);
        }
    }
    let mut fds: Vec<String> = vec![];
    for f in m.fds.values() {
        let n = &m.nodes[&f.id];
        let mut k = std::collections::hash_map::DefaultHasher::new();
        if let Kind::File { bytes, .. } = &n.kind {
            bytes.digest(&mut k);
        }
        fds.push(format!("{} {} {} {:?} {:x}", f.flags, f.cursor, n.links, m.host_meta(f.id), k.finish()));
    }
    fds.sort();
    fds.hash(&mut h);
    for (a, b) in w.mems.iter().zip(&m.mems) {
        a.size().hash(&mut h);
        b.digest(&mut h);
    }
    m.chunk_type.hash(&mut h);
    format!("{:x}", h.finish())
}
fn clean_up(w: &mut World, keep: &BTreeSet<String>) -> D<()> {
    let paths = w.m.paths(ROOT);
    for (p, id) in &paths {
        if w.m.nodes.contains_key(id) && w.m.mounted(*id).is_some() {
            w.step(&Op::Unmount { path: Path::Raw(p.clone()), slash: false })?;
        }
    }
    let fds: Vec<u32> = w.m.fds.keys().copied().filter(|f| *f != ROOT_FD).collect();
    for fd in fds {
        w.step(&Op::Close { fd: Fd::Raw(fd) })?;
    }
    // children first
    let mut paths: Vec<(String, Id)> = w.m.paths(ROOT);
    paths.sort_by_key(|x| std::cmp::Reverse(x.0.matches('/').count()));
    for (i, (p, _)) in paths.iter().enumerate() {
        if keep.contains(p) || w.m.find(ROOT, p).is_err() {
            continue;
        }
        let dir = w.m.is_dir(w.m.find(ROOT, p).unwrap());
        let path = Path::Raw(p.clone());
        let op = match (dir, i % 2) {
            (false, 0) => Op::RmFile { dir: Fd::Root, path },
            (true, 0) if w.m.entries(w.m.find(ROOT, p).unwrap()).is_empty() => Op::RmDir { dir: Fd::Root, path },
            _ => Op::RmRec { dir: Fd::Root, path },
        };
        w.step(&op)?;
    }
    Ok(())
}

fn pages(w: &World) -> Vec<u64> {
    let mm = MemoryManager::init(w.mem.snapshot());
    let s = w.cfg.start.unwrap_or(229);
    (0..10).map(|k| mm.get(MemoryId::new(s + k)).size()).collect()
}

pub fn run_cycle(c: &Cycle) -> (CaseStats, Result<(), Div>) {
    let mem = Mem::new();
    // growth in steps of one page
    let _ = MemoryManager::init_with_bucket_size(mem.clone(), 1);
    let fs = boot(&c.cfg, &mem, true);
    let mut w = World::over(c.cfg, Opts::default(), mem.clone(), fs);
    let r = cycle_body(c, &mut w);
    let st = std::mem::take(&mut w.stats);
    (st, r.map_err(|(step, op, (cat, detail))| Div { cat, step, op, detail }))
}
fn cycle_body(c: &Cycle, w: &mut World) -> Result<(), (usize, String, (Cat, String))> {
    let at = |s: usize, o: &str| {
        let o = o.to_string();
        move |e: (Cat, String)| (s, o, e)
    };
    for (i, op) in c.setup.iter().enumerate() {
        w.step(op).map_err(at(i, &format!("setup {op:?}")))?;
    }
    if c.clean {
        // descriptors of the setup are closed as well
        let keep = w.m.paths(ROOT).into_iter().map(|x| x.0).collect();
        clean_up(w, &keep).map_err(at(c.setup.len(), "clean-up"))?;
    }
    let keep: BTreeSet<String> = w.m.paths(ROOT).into_iter().map(|x| x.0).collect();
    audit_owners(w).map_err(at(c.setup.len(), "ownership after the setup"))?;
    let round = |w: &mut World, n: usize| -> Result<(), (usize, String, (Cat, String))> {
        w.fresh = if c.fresh { n as u16 + 1 } else { 0 };
        for (i, op) in c.round.iter().enumerate() {
            let o = format!("round {n} {op:?}");
            w.step(op).map_err(at(i, &o))?;
            if n == 0 && i % 4 == 3 {
                audit_owners(w).map_err(at(i, &format!("ownership after {o}")))?;
            }
        }
        if c.clean {
            clean_up(w, &keep).map_err(at(c.round.len(), "clean-up"))?;
        }
        if n < 3 {
            audit_owners(w).map_err(at(c.round.len(), "ownership after a round"))?;
        }
        Ok(())
    };
    let mut last = digest(w);
    let mut cyclic = 0;
    let r = (c.rounds as usize).max(16);
    let warm = r / 4;
    let mut p1 = 0;
    for n in 0..r {
        round(w, n)?;
        let d = digest(w);
        cyclic = if d == last { cyclic + 1 } else { 0 };
        last = d;
        if n + 1 == warm {
            p1 = w.mem.size();
        }
        if n >= 3 && cyclic == 0 {
            w.stats.label.insert("not_cyclic", 1);
            break;
        }
    }
    if cyclic > 0 {
        w.stats.label.insert("cyclic", 1);
        let p2 = w.mem.size();
        if p2 > p1 + 1 {
            // does it go on?
            for n in r..4 * r {
                round(w, n)?;
            }
            let p3 = w.mem.size();
            let span1 = (r - warm) as u64;
            let span2 = 3 * r as u64;
            if (p3 - p2) * span1 * 2 >= (p2 - p1) * span2 && p3 > p2 + 3 {
                return Err((
                    4 * r,
                    "repeated rounds".into(),
                    (Cat::Other, format!("memory keeps growing: {p1} pages after {warm} rounds, {p2} after {r}, {p3} after {} rounds; pages per memory {:?}", 4 * r, pages(w))),
                ));
            }
        }
    }
    w.final_audit().map_err(at(c.round.len(), "final audit"))
}

// ------------------------------------------------------------------ C20
#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
pub struct LNode {
    pub parent: u8,
    pub name: u16,
    pub dir: bool,
    /// offset, length, seed
    pub parts: Vec<(u32, u16, u32)>,
    pub extra: u32,
    pub v2: bool,
    pub typed: bool,
    pub times: (u64, u64, u64),
    /// second name
    pub link: Option<(u8, u16)>,
    pub mounted: Option<u32>,
    pub limit: Option<u32>,
    pub gap: u8,
    /// this entry is in the lookup index / has a type / is a chunk record already
    pub newer: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
pub struct Legacy {
    pub cfg: Config,
    /// 0: up to 0.5, 1: 0.6, 2: 0.7 to 0.9, 3: since 0.10
    pub variant: u8,
    pub bucket: u16,
    pub nodes: Vec<LNode>,
    pub opts: Opts,
    pub ops: Vec<Op>,
    /// a journal of the mounted metadata: n-th file, size, state
    #[serde(default)]
    pub journal: Option<(u16, u32, u8)>,
    /// so many further empty files in one of the directories
    #[serde(default)]
    pub wide: Option<(u8, u16)>,
    /// the n-th entry has this index, when it is larger than the one before
    #[serde(default)]
    pub jump: Option<(u8, u32)>,
}
/// As the releases with the journal laid it out in memory.
#[derive(Default)]
#[allow(dead_code)]
struct JournalMeta {
    node: u64,
    file_type: stable_fs::storage::types::FileType,
    link_count: u64,
    size: u64,
    times: stable_fs::storage::types::Times,
    first_dir_entry: Option<u32>,
    last_dir_entry: Option<u32>,
    chunk_type: Option<stable_fs::fs::ChunkType>,
}
#[derive(Clone, Copy)]
#[allow(dead_code)]
enum RawType {
    Directory = 3,
    RegularFile = 4,
    SymbolicLink = 7,
}
#[derive(Clone, Copy)]
#[allow(dead_code)]
enum RawChunk {
    V1 = 1,
    V2 = 2,
}
#[allow(dead_code)]
struct RawTimes {
    accessed: u64,
    modified: u64,
    created: u64,
}
#[repr(C, align(8))]
struct RawMeta {
    node: u64,
    file_type: RawType,
    link_count: u64,
    size: u64,
    times: RawTimes,
    first_dir_entry: Option<u32>,
    last_dir_entry: Option<u32>,
    chunk_type: Option<RawChunk>,
    maximum_size_allowed: Option<u64>,
}

struct Entry {
    parent: u64,
    index: u32,
    name: String,
    node: u64,
    dir: bool,
    newer: bool,
}

fn meta_cbor(m: &Model, id: Id, node: u64, variant: u8, meta: Meta, fl: (Option<u64>, Option<u64>)) -> Vec<u8> {
    let n = &m.nodes[&id];
    let chunk = match &n.kind {
        Kind::File { chunk, .. } => *chunk,
        _ => None,
    };
    let mut v = vec![
        ("node", num(node)),
        ("file_type", text(if m.is_dir(id) { "Directory" } else { "RegularFile" })),
        ("link_count", num(n.links)),
        ("size", num(meta.size)),
        ("times", map(vec![("accessed", num(meta.times.a)), ("modified", num(meta.times.m)), ("created", num(meta.times.c))])),
        ("first_dir_entry", opt(fl.0)),
        ("last_dir_entry", opt(fl.1)),
    ];
    if variant >= 1 {
        v.push(("chunk_type", chunk.map(|c| text(if c == 1 { "V1" } else { "V2" })).unwrap_or(Value::Null)));
    }
    if variant >= 2 {
        v.push(("maximum_size_allowed", opt(meta.limit)));
    }
    cbor(&map(v))
}
fn meta_raw(m: &Model, id: Id, node: u64, meta: Meta, fl: (Option<u64>, Option<u64>)) -> Vec<u8> {
    let n = &m.nodes[&id];
    let chunk = match &n.kind {
        Kind::File { chunk, .. } => *chunk,
        _ => None,
    };
    let r = RawMeta {
        node,
        file_type: if m.is_dir(id) { RawType::Directory } else { RawType::RegularFile },
        link_count: n.links,
        size: meta.size,
        times: RawTimes { accessed: meta.times.a, modified: meta.times.m, created: meta.times.c },
        first_dir_entry: fl.0.map(|x| x as u32),
        last_dir_entry: fl.1.map(|x| x as u32),
        chunk_type: chunk.map(|c| if c == 1 { RawChunk::V1 } else { RawChunk::V2 }),
        maximum_size_allowed: meta.limit,
    };
    let mut v = vec![0u8; std::mem::size_of::<RawMeta>()];
    // SAFETY: plain data of exactly this size
    unsafe { std::ptr::copy_nonoverlapping(&r as *const RawMeta as *const u8, v.as_mut_ptr(), v.len()) };
    v
}

/// Lay the image out and build the model of it.
fn build_image(c: &Legacy, mem: &Mem) -> (Model, u64) {
    let var = c.variant % 4;
    let chunk = CHUNKS[c.cfg.chunk as usize % 5].1 as u64;
    let mut m = Model::new(N_MEMS, c.cfg.chunk_type());
    let mut dirs: Vec<Id> = vec![ROOT];
    let mut suts: BTreeMap<Id, u64> = BTreeMap::from([(ROOT, 0u64)]);
    let mut next = 1u64;
    let mut entries: Vec<Entry> = vec![];
    let mut idx: BTreeMap<u64, u32> = BTreeMap::new();
    let mut newer_of: BTreeMap<Id, bool> = BTreeMap::from([(ROOT, true)]);
    let mut place = |m: &mut Model, suts: &BTreeMap<Id, u64>, parent: Id, nm: u16, id: Id, gap: u8, newer: bool| -> bool {
        let mut s = name(nm);
        if s.len() > 255 {
            while s.len() > 250 {
                s.pop();
            }
        }
        if m.entries(parent).contains_key(&s) {
            return false;
        }
        m.attach(parent, &s, id);
        let k = idx.entry(suts[&parent]).or_insert(0);
        *k += 1 + gap as u32 % 3;
        if let Some((at, to)) = c.jump
            && at as usize == entries.len()
        {
            *k = (*k).max(to);
        }
        entries.push(Entry { parent: suts[&parent], index: *k, name: s, node: suts[&id], dir: m.is_dir(id), newer });
        true
    };
    for l in &c.nodes {
        let parent = dirs[l.parent as usize % dirs.len()];
        let id = if l.dir { m.new_dir(l.times.2) } else { m.new_file(l.times.2) };
        let sut = next;
        next += 1 + l.gap as u64 % 4;
        suts.insert(id, sut);
        newer_of.insert(id, l.newer);
        if !place(&mut m, &suts, parent, l.name, id, l.gap, l.newer) {
            m.nodes.remove(&id);
            suts.remove(&id);
            continue;
        }
        {
            let n = m.nodes.get_mut(&id).unwrap();
            n.sut.set(Some(sut));
            n.meta.times = Times { a: l.times.0, m: l.times.1, c: l.times.2 };
            if let Kind::File { bytes, chunk, mmeta, .. } = &mut n.kind {
                for (o, k, s) in &l.parts {
                    bytes.write_at(*o as u64 % 300_000, &fill(*s, *k as usize % 9000));
                }
                let v2 = var >= 1 && l.v2;
                *chunk = match var {
                    0 => None,
                    1 if !l.typed => None,
                    _ => Some(if v2 { 2 } else { 1 }),
                };
                if chunk.is_some() || bytes.size > 0 {
                    // (an untyped file needs stored chunks to tell its format)
                    let n = bytes.size + l.extra as u64 % 20_000;
                    bytes.set_len(n);
                }
                if let Some(k) = l.mounted
                    && var >= 1
                    && chunk.is_some()
                {
                    *mmeta = Some(Meta { size: k as u64 % 300_000, times: Times { a: 7, m: 8, c: l.times.2 }, limit: None });
                }
                if var >= 2
                    && let Some(x) = l.limit
                {
                    n.meta.limit = Some(bytes.size + x as u64 % 50_000);
                }
            }
        }
        if l.dir {
            dirs.push(id);
        } else if let Some((p, nm)) = l.link
            && place(&mut m, &suts, dirs[p as usize % dirs.len()], nm, id, 0, l.newer)
        {
            m.nodes.get_mut(&id).unwrap().links += 1;
        }
    }
    if let Some((d, k)) = c.wide {
        let parent = dirs[d as usize % dirs.len()];
        for i in 0..k {
            let id = m.new_file(5);
            suts.insert(id, next);
            newer_of.insert(id, true);
            m.nodes[&id].sut.set(Some(next));
            if let Kind::File { chunk, .. } = &mut m.nodes.get_mut(&id).unwrap().kind {
                *chunk = (var >= 2).then_some(2);
            }
            next += 1;
            assert!(place(&mut m, &suts, parent, 5000 + i, id, 0, newer_of[&parent]));
        }
    }
    m.nodes[&ROOT].sut.set(Some(0));
    // ---- write it
    let start = c.cfg.start.unwrap_or(229);
    let mm = match c.bucket {
        0 => MemoryManager::init(mem.clone()),
        b => MemoryManager::init_with_bucket_size(mem.clone(), b),
    };
    let get = |k: u8| mm.get(MemoryId::new(start + k));
    let _ = SCell::init(get(0), Rec(cbor(&map(vec![("version", num(1)), ("next_node", num(next))]))));
    let mut md_map: SMap<u64, Rec, _> = SMap::init(get(1));
    let mut de: SMap<(u64, u32), Rec, _> = SMap::init(get(2));
    let mut v1: SMap<(u64, u32), OChunk, _> = SMap::init(get(3));
    let mut mo: SMap<u64, Rec, _> = SMap::init(get(4));
    let mut fl: BTreeMap<u64, (Option<u64>, Option<u64>)> = BTreeMap::new();
    for (i, e) in entries.iter().enumerate() {
        let f = fl.entry(e.parent).or_default();
        let prev = f.1;
        if f.0.is_none() {
            f.0 = Some(e.index as u64);
        }
        f.1 = Some(e.index as u64);
        let nexte = entries[i + 1..].iter().find(|x| x.parent == e.parent).map(|x| x.index as u64);
        let mut full = e.name.as_bytes().to_vec();
        full.resize(255, 0);
        let mut v = vec![("name", map(vec![("length", num(e.name.len() as u64)), ("bytes", Value::Bytes(full))])), ("node", num(e.node))];
        if var == 3 || e.newer {
            v.push(("entry_type", if e.newer || var == 3 { text(if e.dir { "Directory" } else { "RegularFile" }) } else { Value::Null }));
        } else {
            v.push(("next_entry", opt(nexte)));
            v.push(("prev_entry", opt(prev)));
        }
        de.insert((e.parent, e.index), Rec(cbor(&map(v))));
    }
    if var == 3 || entries.iter().any(|e| e.newer) {
        let mut lk: SMap<(u64, OName), u32, _> = SMap::init(get(9));
        for e in &entries {
            if var == 3 || e.newer {
                lk.insert((e.parent, OName(e.name.as_bytes().to_vec())), e.index);
            }
        }
    }
    let al = get(6);
    let data = get(7);
    let mut ptrs: Option<SMap<(u64, u32), u64, _>> = None;
    let (mut max, mut free) = (0u64, vec![]);
    if var >= 1 {
        al.grow(1);
        al.write(0, if var == 1 { b"ALO1\0\0\0\0" } else { b"FSA1\0\0\0\0" });
        ptrs = Some(SMap::init(get(5)));
    }
    let put = |bytes: &[u8], max: &mut u64, free: &mut Vec<u64>| -> u64 {
        // now and then a chunk that was used and freed before
        if (*max / chunk) % 5 == 3 {
            free.push(*max);
            let need = (*max + chunk).div_ceil(65536);
            if data.size() < need {
                data.grow(need - data.size());
            }
            data.write(*max, &vec![0xDDu8; chunk as usize]);
            *max += chunk;
        }
        let p = *max;
        *max += chunk;
        let need = *max - 0;
        let need = need.div_ceil(65536);
        if data.size() < need {
            data.grow(need - data.size());
        }
        data.write(p, bytes);
        p
    };
    for (id, n) in &m.nodes {
        let s = suts[id];
        let f = fl.get(&s).copied().unwrap_or_default();
        let meta = m.host_meta(*id);
        let as_chunk = var == 3 || (var == 2 && newer_of[id]);
        if *id == ROOT && m.entries(ROOT).is_empty() {
            // never stored
        } else if as_chunk {
            let mut b = meta_raw(&m, *id, s, meta, f);
            b.resize(1024, 0);
            let p = put(&b, &mut max, &mut free);
            ptrs.as_mut().unwrap().insert((s, u32::MAX - 1), p);
        } else {
            md_map.insert(s, Rec(meta_cbor(&m, *id, s, var, meta, f)));
        }
        if let Kind::File { bytes, mmeta, .. } = &n.kind {
            if let Some(mm) = mmeta {
                if as_chunk {
                    let mut b = meta_raw(&m, *id, s, *mm, (None, None));
                    b.resize(1024, 0);
                    let p = put(&b, &mut max, &mut free);
                    ptrs.as_mut().unwrap().insert((s, u32::MAX - 2), p);
                } else {
                    mo.insert(s, Rec(meta_cbor(&m, *id, s, var, *mm, (None, None))));
                }
            }
            let v2 = var >= 1
                && match &n.kind {
                    Kind::File { chunk: Some(c), .. } => *c == 2,
                    _ => c.nodes.iter().any(|l| l.v2), // untyped: decided per image
                };
            let unit = if v2 { chunk } else { 4096 };
            for k in 0..bytes.size.div_ceil(unit) {
                let b = bytes.read_at(k * unit, unit as usize);
                if b.iter().all(|x| *x == 0) {
                    continue; // sparse
                }
                if v2 {
                    let p = put(&b, &mut max, &mut free);
                    ptrs.as_mut().unwrap().insert((s, k as u32), p);
                } else {
                    v1.insert((s, k as u32), OChunk(b));
                }
            }
        }
    }
    if let (Some((k, size, state)), 1 | 2) = (c.journal, var) {
        // the journal of the release that had it: possibly a size not yet stored
        let j = get(8);
        j.grow(1);
        j.write(0, b"FSJ1\0\0\0\0");
        let files: Vec<Id> = m
            .nodes
            .iter()
            .filter(|(id, n)| matches!(n.kind, Kind::File { chunk: Some(_), .. }) && !(var == 2 && newer_of[id]) && suts.contains_key(id))
            .map(|x| *x.0)
            .collect();
        let mut jm = JournalMeta::default();
        let mut node = u64::MAX;
        if !files.is_empty() {
            let id = files[k as usize % files.len()];
            let n = m.nodes.get_mut(&id).unwrap();
            jm.node = suts[&id];
            jm.link_count = n.links;
            jm.size = size as u64;
            jm.times.created = n.meta.times.c;
            jm.times.accessed = 71;
            jm.times.modified = 72;
            node = match state {
                0 => u64::MAX,        // written back already
                1 => suts[&id] + 777, // not the same file
                _ => suts[&id],
            };
            if let Kind::File { chunk, mmeta, .. } = &mut n.kind {
                jm.chunk_type = chunk.map(|c| if c == 1 { stable_fs::fs::ChunkType::V1 } else { stable_fs::fs::ChunkType::V2 });
                if node == jm.node {
                    *mmeta = Some(Meta { size: size as u64, times: Times { a: 71, m: 72, c: n.meta.times.c }, limit: None });
                }
            }
        }
        j.write(16, &node.to_le_bytes());
        let k = std::mem::size_of::<JournalMeta>();
        // SAFETY: plain data of exactly this size; the padding starts as zero
        let b = unsafe {
            let mut x = std::mem::MaybeUninit::<JournalMeta>::zeroed();
            x.write(jm);
            std::slice::from_raw_parts(x.as_ptr() as *const u8, k).to_vec()
        };
        j.write(24, &b);
    }
    if var >= 1 {
        al.write(8, &chunk.to_le_bytes());
        al.write(16, &(free.len() as u64).to_le_bytes());
        al.write(24, &max.to_le_bytes());
        for (i, p) in free.iter().enumerate() {
            al.write(128 + 8 * i as u64, &p.to_le_bytes());
        }
    }
    (m, chunk)
}

// ------------------------------------------------------------------ C27
#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
pub enum Damage {
    /// header of another format version
    Version(u32),
    /// marker of the chunk allocator
    Marker([u8; 8]),
    /// chunk size of the chunk allocator
    Chunk(u64),
    /// a range of identifiers: first one relative to the own range, length
    Range(i16, u8),
    /// a range of identifiers that ends before it starts
    Reversed(u8, u8),
    /// a long enough range that ends at 255
    End(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
pub struct Refuse {
    pub cfg: Config,
    pub ops: Vec<Op>,
    pub damage: Vec<(Damage, Vec<Op>)>,
}
pub fn run_refuse(c: &Refuse) -> (CaseStats, Result<(), Div>) {
    let mut w = World::new(c.cfg, Opts { no_final: true, ..Opts::default() });
    let r = refuse_body(c, &mut w);
    (std::mem::take(&mut w.stats), r)
}
fn refuse_body(c: &Refuse, w: &mut World) -> Result<(), Div> {
    w.run(&c.ops)?;
    for (i, (d, ops)) in c.damage.iter().enumerate() {
        let at = |e: (Cat, String)| Div { cat: e.0, step: c.ops.len() + i, op: format!("{d:?}"), detail: e.1 };
        refuse_one(w, d).map_err(at)?;
        w.run(ops)?;
    }
    w.final_audit().map_err(|(cat, detail)| Div { cat, step: usize::MAX, op: "final audit".into(), detail })
}
/// Is a file system opened? (An arithmetic overflow found by the checks of this build refuses
/// nothing: a build without them, which canisters use, goes on with the wrapped number.)
fn attempt(mem: &Mem, lo: u8, hi: u8) -> bool {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let mm = MemoryManager::init(mem.clone());
        let st = stable_fs::storage::stable::StableStorage::new_with_memory_manager(&mm, lo..hi);
        stable_fs::fs::FileSystem::new(Box::new(st)).is_ok()
    }))
    .unwrap_or_else(|e| {
        let text = e.downcast_ref::<&str>().copied().or(e.downcast_ref::<String>().map(|s| s.as_str()));
        text.is_some_and(|s| s.starts_with("attempt to ") && s.ends_with(" with overflow"))
    })
}
fn refuse_one(w: &mut World, d: &Damage) -> D<()> {
    let s = w.cfg.start.unwrap_or(229);
    let mm = MemoryManager::init(w.mem.clone());
    let get = |k: u8| mm.get(MemoryId::new(s + k));
    let (mem, old, new) = match d {
        Damage::Version(v) => {
            let mem = get(0);
            let mut old = vec![0u8; 4096];
            mem.read(0, &mut old);
            let len = u32::from_le_bytes(old[4..8].try_into().unwrap()) as usize;
            let Ok(Value::Map(mut fields)) = ciborium::de::from_reader::<Value, _>(&old[8..8 + len]) else {
                return Ok(()); // stored in another way
            };
            let mut done = false;
            for (k, x) in fields.iter_mut() {
                if k.as_text() == Some("version") {
                    done = *x != num(*v as u64);
                    *x = num(*v as u64);
                }
            }
            if !done {
                return Ok(());
            }
            let b = cbor(&Value::Map(fields));
            let mut new = old.clone();
            new[4..8].copy_from_slice(&(b.len() as u32).to_le_bytes());
            new[8..8 + b.len()].copy_from_slice(&b);
            (mem, old, new)
        }
        Damage::Marker(b) => {
            let mem = get(6);
            let mut old = vec![0u8; 8];
            mem.read(0, &mut old);
            if &old[..4] == &b[..4] || &b[..4] == b"FSA1" || &b[..4] == b"ALO1" {
                return Ok(());
            }
            (mem, old, b.to_vec())
        }
        Damage::Chunk(n) => {
            let mem = get(6);
            let mut old = vec![0u8; 16];
            mem.read(0, &mut old);
            if [0, 4096, 8192, 16384, 32768, 65536].contains(n) {
                return Ok(());
            }
            let mut new = old.clone();
            new[8..].copy_from_slice(&n.to_le_bytes());
            (mem, old, new)
        }
        Damage::Range(..) | Damage::Reversed(..) | Damage::End(_) => {
            let (lo, hi) = match d {
                Damage::Range(from, len) => {
                    let lo = (s as i16 + from).clamp(0, 254) as u8;
                    (lo, lo.saturating_add(*len))
                }
                Damage::Reversed(a, b) => ((*a).max(*b), (*a).min(*b)),
                Damage::End(lo) => (*lo, 255),
                _ => unreachable!(),
            };
            if hi.saturating_sub(lo) >= 10 && hi <= 254 {
                return Ok(());
            }
            let before = w.mem.size();
            if attempt(&w.mem, lo, hi) {
                return Err((Cat::Other, format!("a file system was opened on the memories {lo}..{hi}")));
            }
            if w.mem.size() != before {
                return Err((Cat::Other, "a refused range made the memory grow".into()));
            }
            w.stats.label.insert("refused", 1);
            // (opened again from the memory: anything written there would show)
            w.audit_cold()?;
            return Ok(());
        }
    };
    mem.write(0, &new);
    let opened = attempt(&w.mem, s, w.cfg.end(s));
    if opened {
        return Err((Cat::Other, "an image of unknown format was opened".into()));
    }
    let mut now = vec![0u8; new.len()];
    mem.read(0, &mut now);
    if now != new {
        return Err((Cat::Other, "a refused image was changed".into()));
    }
    mem.write(0, &old);
    w.stats.label.insert("refused", 1);
    w.step(&Op::Restart { mode: 0 })?;
    w.audit_warm()?;
    w.audit_cold()
}

pub fn run_legacy(c: &Legacy) -> (CaseStats, Result<(), Div>) {
    let mem = Mem::new();
    let (m, chunk) = build_image(c, &mem);
    let var = c.variant % 4;
    // the first release with V2 chunks chooses the size
    let fs = boot(&c.cfg, &mem, var == 0);
    let mut w = World::over(c.cfg, c.opts, mem, fs);
    w.m = m;
    w.ever_stored = true;
    if var != 0 {
        w.chunk_size = chunk;
    }
    let r = (|| {
        w.audit_warm().map_err(|(c, d)| (c, format!("after opening the image: {d}")))?;
        w.audit_cold().map_err(|(c, d)| (c, format!("after opening the image: {d}")))
    })();
    let r = match r {
        Err((cat, detail)) => Err(Div { cat, step: 0, op: "opening".into(), detail }),
        Ok(()) => w.run(&c.ops),
    };
    let r = r.and_then(|()| {
        if !c.opts.owners {
            return Ok(());
        }
        w.stats.label.insert("owners", 1);
        audit_owners(&mut w).map_err(|(cat, detail)| Div { cat, step: c.ops.len(), op: "ownership at the end".into(), detail })
    });
    (std::mem::take(&mut w.stats), r)
}
