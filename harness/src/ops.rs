//! Operations. Descriptors, paths, offsets and lengths are given relative to
//! the state at the time of the call, so any subsequence stays meaningful.
use serde::{Deserialize, Serialize};

/// `sub` of the bulk operations: spread over many directories
pub const SPREAD: u16 = 99;

/// Which descriptor: n-th open directory / file / any, or a raw number.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Fd {
    Root,
    Dir(u16),
    File(u16),
    Any(u16),
    Raw(u32),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Tok {
    /// n-th name of the alphabet
    N(u16),
    /// one of a family of similar names: length class, variation
    Kin(u8, u8),
    Dot,
    DotDot,
    Empty,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Path {
    /// components; leading slash; trailing slash
    Comps(Vec<Tok>, bool, bool),
    /// n-th existing path below the directory handle, spelled with decoration
    Existing(u16, u8),
    /// n-th existing file / directory
    ExistingFile(u16, u8),
    ExistingDir(u16, u8),
    /// n-th existing directory (or the handle itself) plus new components
    Under(u16, Vec<Tok>),
    /// n-th existing path plus components (may be below a file)
    Below(u16, Vec<Tok>),
    /// n-th existing path with its last component slightly changed
    Kin(u16, u8),
    Raw(String),
}

/// An absolute or relative position, resolved against the file.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Pos {
    Abs(u64),
    Size(i64),
    Limit(i64),
    Cursor(i64),
    /// near the general maximum file size
    Max(i64),
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Len {
    Abs(u32),
    /// up to the next multiple of the unit after the position, plus delta
    ToMultiple(u32, i32),
    /// up to the file size, plus delta
    ToEnd(i32),
    /// up to the limit, plus delta
    ToLimit(i32),
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Pol {
    PrevOrZero,
    PrevOrPages,
    Explicit(u64),
    Pages,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Start {
    None,
    Zero,
    /// the index of the n-th entry of the directory, plus delta
    Entry(u16, i8),
    Dot,
    DotDot,
    Raw(u32),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Op {
    Open { dir: Fd, path: Path, oflags: u16, flags: u16, rights: u64, ctime: u64 },
    Mkdir { dir: Fd, path: Path, ctime: u64 },
    MkdirOpen { dir: Fd, path: Path, ctime: u64 },
    Close { fd: Fd },
    Renumber { from: Fd, to: Fd },
    /// buffer lengths; position None = at the cursor
    Read { fd: Fd, lens: Vec<Len>, at: Option<Pos>, plain: bool },
    Write { fd: Fd, lens: Vec<Len>, at: Option<Pos>, seed: u32, plain: bool },
    Seek { fd: Fd, delta: i64, whence: u8 },
    /// seek(SET) to a resolved position
    SeekTo { fd: Fd, pos: Pos },
    Tell { fd: Fd },
    SetSize { fd: Fd, pos: Pos },
    SetLimit { fd: Fd, pos: Pos },
    SetTimes { fd: Fd, a: Option<u64>, m: Option<u64> },
    SetMeta { fd: Fd, size: Option<Pos>, limit: Option<Option<Pos>>, times: Option<(u64, u64, u64)> },
    /// a record with another identity (0), type (1)
    SetMetaBad { fd: Fd, what: u8, val: u64 },
    /// metadata by identity: of the n-th known object, a removed one, or any number
    NodeMeta { n: u16, dead: bool, raw: Option<u64> },
    GetMeta { fd: Fd },
    GetStat { fd: Fd },
    SetStat { fd: Fd, flags: u16, rights: u64, inh: u64 },
    Stat { dir: Fd, path: Path },
    RmFile { dir: Fd, path: Path },
    RmDir { dir: Fd, path: Path },
    RmRec { dir: Fd, path: Path },
    Link { od: Fd, op: Path, nd: Fd, np: Path },
    Rename { od: Fd, op: Path, nd: Fd, np: Path },
    List { dir: Fd, start: Start, stop: u16 },
    GetEntry { dir: Fd, start: Start },
    Mount { path: Path, slash: bool, mem: u8, pol: Pol },
    Unmount { path: Path, slash: bool },
    Init { path: Path, slash: bool },
    Store { path: Path, slash: bool },
    MemWrite { mem: u8, off: u64, len: u32, seed: u32 },
    MemGrow { mem: u8, pages: u32 },
    Advice { fd: Fd, off: u64, len: u64 },
    Allocate { fd: Fd, off: u64, len: u64 },
    Flush { fd: Fd },
    SetChunkType { v: u8 },
    SetChunkSize { v: u8 },
    Restart { mode: u8 },
    /// create `k` entries named base, base+1, ..
    Many { dir: Fd, sub: Option<u16>, base: u16, k: u16, how: u8, seed: u32 },
    /// one action on each of the names base, base+step, ..
    Each { dir: Fd, sub: Option<u16>, base: u16, k: u16, step: u16, how: u8, seed: u32 },
    /// short accesses at `k` places, `stride` units of 4 KiB apart
    Sparse { fd: Fd, from: u32, k: u16, stride: u16, read: bool, seed: u32 },
    /// full comparison through the running instance / a second cold one
    AuditWarm,
    AuditCold,
}

pub fn name(n: u16) -> String {
    match n {
        0..=5 => ((b'a' + n as u8) as char).to_string(),
        6 => "x".repeat(255),
        7 => "x".repeat(254) + "y",
        8 => "x".repeat(256),
        9 => "é".into(),
        10 => "a b".into(),
        11 => ".a".into(),
        12 => "...".into(),
        13 => "A".into(),
        14 => "ü".repeat(127) + "z",
        15 => "a\0b".into(),
        16 => "x".repeat(254),
        17 => "aa".into(),
        18 => "ü".repeat(128),
        19 => "\u{10FFFF}".into(),
        20 => "..a".into(),
        21 => "a.".into(),
        22 => "a\0".into(),
        23 => "x".repeat(300),
        24 => "e\u{301}".into(),
        25 => "É".into(),
        26 => "E\u{301}".into(),
        27 => "ß".into(),
        28 => "\u{1E9E}".into(),
        29 => "k".into(),
        30 => "\u{212A}".into(),
        31 => "\u{FB01}".into(),
        32 => "fi".into(),
        33 => "\u{FEFF}a".into(),
        34 => "a\u{200B}".into(),
        35 => "\n".into(),
        36 => "\\".into(),
        37 => "a\\b".into(),
        38 => "*".into(),
        39 => "?".into(),
        40 => "a:b".into(),
        41 => "~".into(),
        42 => "-".into(),
        43 => "%2e".into(),
        44 => "ÿ".into(),
        45 => "Ÿ".into(),
        46 => "i\u{307}".into(),
        47 => "\u{130}".into(),
        48 => " ".into(),
        49 => " a".into(),
        50 => "a ".into(),
        51 => "\0".into(),
        52 => "0".into(),
        53 => "00".into(),
        54 => ".".repeat(255),
        55 => "日本語".into(),
        56 => "日".repeat(85),
        57 => "日".repeat(85) + "x",
        58 => "a\tb".into(),
        59 => "\u{1F600}".repeat(63) + "abc",
        n => format!("n{n}"),
    }
}

/// A name that differs little from `s`.
pub fn vary(s: &str, how: u8) -> String {
    let mut c: Vec<char> = s.chars().collect();
    let n = c.len();
    let swap = |x: char| if x == 'z' { 'y' } else { 'z' };
    match how % 20 {
        1 if n > 1 => {
            c.pop();
        }
        2 if n > 1 => c.truncate(n.div_ceil(2)),
        3 => c.push('z'),
        4 if n > 0 => c[n - 1] = swap(c[n - 1]),
        5 if n > 0 => c[0] = swap(c[0]),
        6 if n > 0 => c[n / 2] = swap(c[n / 2]),
        7 => c = s.chars().flat_map(|x| if x.is_lowercase() { x.to_uppercase().collect::<Vec<_>>() } else { x.to_lowercase().collect() }).collect(),
        8 => c.push(' '),
        9 => c.push('\n'),
        10 => c.push('\0'),
        11 => c.insert(0, ' '),
        12 => c.push('.'),
        13 => c.push('e'),
        14 => c.push('\u{301}'),
        15 => c.extend(['\r', '\t']),
        16 => c.insert(0, '\u{FEFF}'),
        17 => c.push('\u{200B}'),
        18 if n > 0 => c[n - 1] = 'é',
        19 if n > 0 => c[n / 2] = '\u{FF41}',
        _ => {}
    }
    c.into_iter().collect()
}
const KIN: [usize; 20] = [2, 3, 8, 9, 15, 16, 17, 24, 31, 32, 33, 48, 63, 64, 65, 100, 128, 200, 253, 254];
pub fn kin(class: u8, how: u8) -> String {
    let base: String = "the quick brown fox jumps over ".chars().cycle().take(KIN[class as usize % KIN.len()]).collect();
    vary(&base, how)
}

impl Op {
    pub fn kind(&self) -> &'static str {
        match self {
            Op::Open { .. } => "open",
            Op::Mkdir { .. } => "mkdir",
            Op::MkdirOpen { .. } => "mkdir_open",
            Op::Close { .. } => "close",
            Op::Renumber { .. } => "renumber",
            Op::Read { .. } => "read",
            Op::Write { .. } => "write",
            Op::Seek { .. } => "seek",
            Op::SeekTo { .. } => "seek_to",
            Op::Tell { .. } => "tell",
            Op::SetSize { .. } => "set_size",
            Op::SetLimit { .. } => "set_limit",
            Op::SetTimes { .. } => "set_times",
            Op::SetMeta { .. } => "set_meta",
            Op::SetMetaBad { .. } => "set_meta_bad",
            Op::NodeMeta { .. } => "node_meta",
            Op::GetMeta { .. } => "get_meta",
            Op::GetStat { .. } => "get_stat",
            Op::SetStat { .. } => "set_stat",
            Op::Stat { .. } => "stat",
            Op::RmFile { .. } => "rm_file",
            Op::RmDir { .. } => "rm_dir",
            Op::RmRec { .. } => "rm_rec",
            Op::Link { .. } => "link",
            Op::Rename { .. } => "rename",
            Op::List { .. } => "list",
            Op::GetEntry { .. } => "get_entry",
            Op::Mount { .. } => "mount",
            Op::Unmount { .. } => "unmount",
            Op::Init { .. } => "init",
            Op::Store { .. } => "store",
            Op::MemWrite { .. } => "mem_write",
            Op::MemGrow { .. } => "mem_grow",
            Op::Advice { .. } => "advice",
            Op::Allocate { .. } => "allocate",
            Op::Flush { .. } => "flush",
            Op::SetChunkType { .. } => "set_chunk_type",
            Op::SetChunkSize { .. } => "set_chunk_size",
            Op::Restart { .. } => "restart",
            Op::Many { .. } => "many",
            Op::Each { .. } => "each",
            Op::Sparse { .. } => "sparse",
            Op::AuditWarm => "audit_warm",
            Op::AuditCold => "audit_cold",
        }
    }
}
