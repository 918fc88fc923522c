//! C26: stored records and published codes.
use crate::engine::{CaseStats, Cat, Div};
use crate::special::{cbor, map};
use ciborium::Value;
use ic_stable_structures::Storable;
use ic_stable_structures::storable::Bound;
use serde::{Deserialize, Serialize};
use stable_fs::error::Error as E;
use stable_fs::fs::{Advice, ChunkSize, ChunkType, FdFlags, FdStat, OpenFlags};
use stable_fs::storage::types::*;
use std::borrow::Cow;
use std::cmp::Ordering;

#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
pub struct RecSpec {
    pub node: u64,
    pub kind: u8,
    pub links: u64,
    pub size: u64,
    pub times: (u64, u64, u64),
    pub first: Option<u32>,
    pub last: Option<u32>,
    pub chunk: Option<bool>,
    pub limit: Option<u64>,
    /// fields left out of the hand-made record (only optional ones), order and extras
    pub omit: u8,
    pub rot: u8,
    pub extra: u8,
    pub version: u32,
}
#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
pub enum Enc {
    /// up to four names, compared with each other
    Names(Vec<Vec<u8>>),
    Meta(RecSpec),
    Entry(Vec<u8>, RecSpec),
    Head(RecSpec),
    /// seed, number of bytes
    Chunk(Vec<(u16, u8)>),
    Codes(u8),
    Policy { prev: Option<u64>, pages: u64, explicit: u64 },
}

fn kind(k: u8) -> FileType {
    [FileType::Directory, FileType::RegularFile, FileType::SymbolicLink][k as usize % 3]
}
fn kname(k: u8) -> &'static str {
    ["Directory", "RegularFile", "SymbolicLink"][k as usize % 3]
}
fn bound<T: Storable>(what: &str, b: &[u8]) -> Result<(), String> {
    if let Bound::Bounded { max_size, is_fixed_size } = T::BOUND {
        if b.len() > max_size as usize || (is_fixed_size && b.len() != max_size as usize) {
            return Err(format!("{what} is encoded in {} bytes, the declared bound is {max_size} (fixed: {is_fixed_size})", b.len()));
        }
    }
    Ok(())
}
fn both<T: Storable + Clone>(what: &str, v: &T) -> Result<Vec<u8>, String> {
    let a = v.to_bytes().into_owned();
    let b = v.clone().into_bytes();
    if a != b {
        return Err(format!("to_bytes and into_bytes of {what} differ"));
    }
    bound::<T>(what, &a)?;
    Ok(a)
}
fn int(n: u64) -> Value {
    Value::Integer(n.into())
}
fn txt(s: &str) -> Value {
    Value::Text(s.into())
}
fn arrange(mut v: Vec<(&'static str, Value)>, s: &RecSpec) -> Vec<u8> {
    match s.extra % 4 {
        1 => v.push(("next_entry", Value::Null)),
        2 => {
            v.insert(0, ("prev_entry", int(3)));
            v.push(("later_field", Value::Array(vec![int(1), Value::Bool(true)])));
        }
        _ => {}
    }
    let k = s.rot as usize % v.len();
    v.rotate_left(k);
    cbor(&map(v))
}
fn meta_same(a: &Metadata, b: &Metadata) -> bool {
    a.node == b.node
        && a.file_type == b.file_type
        && a.link_count == b.link_count
        && a.size == b.size
        && a.times == b.times
        && a.chunk_type == b.chunk_type
        && a.maximum_size_allowed == b.maximum_size_allowed
}
fn metadata(s: &RecSpec) -> Metadata {
    Metadata {
        node: s.node,
        file_type: kind(s.kind),
        link_count: s.links,
        size: s.size,
        times: Times { accessed: s.times.0, modified: s.times.1, created: s.times.2 },
        first_dir_entry: s.first,
        last_dir_entry: s.last,
        chunk_type: s.chunk.map(|b| if b { ChunkType::V2 } else { ChunkType::V1 }),
        maximum_size_allowed: s.limit,
    }
}

fn names(v: &[Vec<u8>]) -> Result<(), String> {
    let mut f = vec![];
    for x in v {
        match FileName::new(x) {
            Err(e) => {
                if x.len() <= 255 || e != E::FilenameTooLong {
                    return Err(format!("a name of {} bytes is refused: {e:?}", x.len()));
                }
            }
            Ok(n) => {
                if x.len() > 255 {
                    return Err(format!("a name of {} bytes is accepted", x.len()));
                }
                if n.length as usize != x.len() || n.bytes[..x.len()] != x[..] {
                    return Err(format!("the name {x:?} is kept as {n:?}"));
                }
                if let Ok(s) = std::str::from_utf8(x)
                    && n.to_string() != s
                {
                    return Err(format!("the name {s:?} prints as {n}"));
                }
                let b = both("a name", &n)?;
                let r = FileName::from_bytes(Cow::Borrowed(&b));
                if r.length != n.length || r.bytes[..x.len()] != x[..] || r != n || r.cmp(&n) != Ordering::Equal {
                    return Err(format!("the name {x:?} decodes to {r:?}"));
                }
                f.push((x, n));
            }
        }
    }
    for (xa, a) in &f {
        for (xb, b) in &f {
            if (a == b) != (xa == xb) || (a != b) != (xa != xb) {
                return Err(format!("names {xa:?} and {xb:?} compare equal: {}", a == b));
            }
            if a.cmp(b) != b.cmp(a).reverse() || (a.cmp(b) == Ordering::Equal) != (a == b) {
                return Err(format!("the order of {xa:?} and {xb:?} contradicts itself or equality"));
            }
            if a.partial_cmp(b) != Some(a.cmp(b)) || (a < b) != (a.cmp(b) == Ordering::Less) {
                return Err(format!("two orders of {xa:?} and {xb:?}"));
            }
            // images in the field are sorted bytewise, shorter first
            if a.cmp(b) != xa.cmp(xb) {
                return Err(format!("{xa:?} and {xb:?} are ordered {:?}, stored indexes have {:?}", a.cmp(b), xa.cmp(xb)));
            }
            for (_, c) in &f {
                if a.cmp(b) != Ordering::Greater && b.cmp(c) != Ordering::Greater && a.cmp(c) == Ordering::Greater {
                    return Err("the order of names is not transitive".into());
                }
            }
        }
    }
    Ok(())
}

fn codes(c: u8) -> Result<(), String> {
    let ft = match c {
        3 => Some(FileType::Directory),
        4 => Some(FileType::RegularFile),
        7 => Some(FileType::SymbolicLink),
        _ => None,
    };
    let got = FileType::try_from(c);
    match (&got, ft) {
        (Ok(a), Some(b)) if *a == b && u8::from(*a) == c && *a as u8 == c => {}
        (Err(E::InvalidArgument), None) => {}
        _ => return Err(format!("file type code {c} gives {got:?}")),
    }
    let got = Advice::try_from(c);
    let name = ["Normal", "Sequential", "Random", "WillNeed", "DontNeed", "NoReuse"];
    match &got {
        Ok(a) if (c as usize) < 6 && format!("{a:?}") == name[c as usize] && u8::from(*a) == c => {}
        Err(E::InvalidArgument) if c > 5 => {}
        _ => return Err(format!("advice code {c} gives {got:?}")),
    }
    // flags
    for (f, v) in [(FdFlags::APPEND, 1u16), (FdFlags::DSYNC, 2), (FdFlags::NONBLOCK, 4), (FdFlags::RSYNC, 8), (FdFlags::SYNC, 16)] {
        if f.bits() != v {
            return Err(format!("descriptor flag {f:?} is {}", f.bits()));
        }
    }
    let b = c as u16;
    let want = (b & 31 == b).then_some(b);
    if FdFlags::from_bits(b).map(|f| f.bits()) != want || FdFlags::from_bits_truncate(b).bits() != b & 31 {
        return Err(format!("descriptor flags of {b} are {:?}", FdFlags::from_bits(b)));
    }
    for (f, v) in [(OpenFlags::CREATE, 1u16), (OpenFlags::DIRECTORY, 2), (OpenFlags::EXCLUSIVE, 4), (OpenFlags::TRUNCATE, 8)] {
        if f.bits() != v {
            return Err(format!("open flag {v} is {}", f.bits()));
        }
    }
    if OpenFlags::from_bits(b).map(|f| f.bits()) != (b & 15 == b).then_some(b) {
        return Err(format!("open flags of {b}"));
    }
    let sizes: Vec<usize> = ChunkSize::VALUES.iter().map(|x| *x as usize).collect();
    if sizes != [4096, 8192, 16384, 32768, 65536] {
        return Err(format!("chunk sizes {sizes:?}"));
    }
    if ChunkType::V1 as u8 != 1 || ChunkType::V2 as u8 != 2 {
        return Err("chunk type codes".into());
    }
    let d = FdStat::default();
    if d.flags.bits() != 0 || d.rights_base != (1 << 28) - 1 || d.rights_inheriting != (1 << 28) - 1 {
        return Err(format!("the default descriptor state is {d:?}"));
    }
    let k: [(&str, u64, u64); 9] = [
        ("FILE_CHUNK_SIZE_V1", FILE_CHUNK_SIZE_V1 as u64, 4096),
        ("DEFAULT_FILE_CHUNK_SIZE_V2", DEFAULT_FILE_CHUNK_SIZE_V2 as u64, 16384),
        ("MAX_FILE_CHUNK_SIZE_V2", MAX_FILE_CHUNK_SIZE_V2 as u64, 65536),
        ("MAX_FILE_NAME", MAX_FILE_NAME as u64, 255),
        ("MAX_FILE_CHUNK_COUNT", MAX_FILE_CHUNK_COUNT as u64, 0xffff_fff5),
        ("MAX_FILE_SIZE", MAX_FILE_SIZE, 0xffff_fff5 * 4096),
        ("MAX_FILE_ENTRY_INDEX", MAX_FILE_ENTRY_INDEX as u64, 0xffff_fff5),
        ("DUMMY_DOT_ENTRY_INDEX", DUMMY_DOT_ENTRY_INDEX as u64, 0xffff_fffa),
        ("DUMMY_DOT_DOT_ENTRY_INDEX", DUMMY_DOT_DOT_ENTRY_INDEX as u64, 0xffff_fffb),
    ];
    for (n, v, w) in k {
        if v != w {
            return Err(format!("{n} is {v}, published as {w}"));
        }
    }
    if ZEROES.iter().any(|b| *b != 0) || ZEROES.len() != 65536 {
        return Err("ZEROES".into());
    }
    if DUMMY_DOT_ENTRY.1.name.to_string() != "." || DUMMY_DOT_DOT_ENTRY.1.name.to_string() != ".." || DUMMY_DOT_ENTRY.0 != 0xffff_fffa || DUMMY_DOT_DOT_ENTRY.0 != 0xffff_fffb {
        return Err("the dot entries".into());
    }
    for (e, n) in errors() {
        if e as i32 != n {
            return Err(format!("an error has another code than WASI's {n}"));
        }
    }
    Ok(())
}

fn errors() -> Vec<(E, i32)> {
    use E::*;
    vec![
        (ArgumentListTooLong, 1),
        (PermissionDenied, 2),
        (AddressInUse, 3),
        (AddressNotAvailable, 4),
        (AddressFamilyNotSupported, 5),
        (ResourceUnavailableOrOperationWouldBlock, 6),
        (ConnectionAlreadyInProgress, 7),
        (BadFileDescriptor, 8),
        (BadMessage, 9),
        (DeviceOrResourceBusy, 10),
        (OperationCanceled, 11),
        (NoChildProcesses, 12),
        (ConnectionAborted, 13),
        (ConnectionRefused, 14),
        (ConnectionReset, 15),
        (ResourceDeadlockWouldOccur, 16),
        (DestinationAddressRequired, 17),
        (MathematicsArgumentOutOfDomainOfFunction, 18),
        (Reserved19, 19),
        (FileExists, 20),
        (BadAddress, 21),
        (FileTooLarge, 22),
        (HostIsUnreachable, 23),
        (IdentifierRemoved, 24),
        (IllegalByteSequence, 25),
        (OperationInProgress, 26),
        (InterruptedFunction, 27),
        (InvalidArgument, 28),
        (IOError, 29),
        (SocketIsConnected, 30),
        (IsDirectory, 31),
        (TooManyLevelsOfSymbolicLinks, 32),
        (FileDescriptorValueTooLarge, 33),
        (TooManyLinks, 34),
        (MessageTooLarge, 35),
        (Reserved36, 36),
        (FilenameTooLong, 37),
        (NetworkIsDown, 38),
        (ConnectionAbortedByNetwork, 39),
        (NetworkUnreachable, 40),
        (TooManyFilesOpenInSystem, 41),
        (NoBufferSpaceAvailable, 42),
        (NoSuchDevice, 43),
        (NoSuchFileOrDirectory, 44),
        (ExecutableFileFormatError, 45),
        (NoLocksAvailable, 46),
        (Reserved47, 47),
        (NotEnoughSpace, 48),
        (NoMessageOfTheDesiredType, 49),
        (ProtocolNotAvailable, 50),
        (NoSpaceLeftOnDevice, 51),
        (FunctionNotSupported, 52),
        (SocketNotConnected, 53),
        (NotADirectoryOrSymbolicLink, 54),
        (DirectoryNotEmpty, 55),
        (StateNotRecoverable, 56),
        (NotASocket, 57),
        (NotSupportedOrOperationNotSupportedOnSocket, 58),
        (InappropriateIOControlOperation, 59),
        (NoSuchDeviceOrAddress, 60),
        (ValueTooLargeToBeStoredInDataType, 61),
        (PreviousOwnerDied, 62),
        (OperationNotPermitted, 63),
        (BrokenPipe, 64),
        (ProtocolError, 65),
        (ProtocolNotSupported, 66),
        (ProtocolWrongTypeForSocket, 67),
        (ResultTooLarge, 68),
        (ReadOnlyFileSystem, 69),
        (InvalidSeek, 70),
        (NoSuchProcess, 71),
        (Reserved72, 72),
        (ConnectionTimedOut, 73),
        (TextFileBusy, 74),
        (CrossDeviceLink, 75),
        (ExtensionCapabilitiesInsufficient, 76),
    ]
}

fn one(e: &Enc, st: &mut CaseStats) -> Result<(), String> {
    match e {
        Enc::Names(v) => {
            if v.len() > 1 && v.iter().any(|a| v.iter().any(|b| a != b && a.len().abs_diff(b.len()) < 3)) {
                st.label.insert("near_names", 1);
            }
            names(v)
        }
        Enc::Meta(s) => {
            let m = metadata(s);
            let b = both("a metadata record", &m)?;
            let r = Metadata::from_bytes(Cow::Borrowed(&b));
            if r != m {
                return Err(format!("{m:?} decodes to {r:?}"));
            }
            let r = Metadata::from_bytes(Cow::Owned(b));
            if r != m {
                return Err(format!("{m:?} decodes to {r:?}"));
            }
            // a record of an earlier or later release
            let mut v = vec![
                ("node", int(s.node)),
                ("file_type", txt(kname(s.kind))),
                ("link_count", int(s.links)),
                ("size", int(s.size)),
                ("times", map(vec![("accessed", int(s.times.0)), ("modified", int(s.times.1)), ("created", int(s.times.2))])),
            ];
            let mut w = m.clone();
            let o = s.omit;
            if o & 1 == 0 {
                v.push(("first_dir_entry", s.first.map(|x| int(x as u64)).unwrap_or(Value::Null)));
            } else {
                w.first_dir_entry = None;
            }
            if o & 2 == 0 {
                v.push(("last_dir_entry", s.last.map(|x| int(x as u64)).unwrap_or(Value::Null)));
            } else {
                w.last_dir_entry = None;
            }
            if o & 4 == 0 {
                v.push(("chunk_type", s.chunk.map(|x| txt(if x { "V2" } else { "V1" })).unwrap_or(Value::Null)));
            } else {
                w.chunk_type = None;
            }
            if o & 8 == 0 {
                v.push(("maximum_size_allowed", s.limit.map(int).unwrap_or(Value::Null)));
            } else {
                w.maximum_size_allowed = None;
            }
            if o & 15 != 0 {
                st.label.insert("omitted", 1);
            }
            let r = Metadata::from_bytes(Cow::Owned(arrange(v, s)));
            if !meta_same(&r, &w) {
                return Err(format!("the record of {w:?} without the fields {o:#b} decodes to {r:?}"));
            }
            Ok(())
        }
        Enc::Entry(name, s) => {
            if name.len() > 255 {
                return Ok(());
            }
            let n = FileName::new(name).map_err(|e| format!("{e:?}"))?;
            let et = (s.omit & 16 == 0).then(|| kind(s.kind));
            let d = DirEntry { name: n, node: s.node, entry_type: et };
            let b = both("a directory entry", &d)?;
            let same = |r: &DirEntry| r.name.length as usize == name.len() && r.name.bytes[..name.len()] == name[..] && r.node == s.node && r.entry_type == et;
            for b in [Cow::Borrowed(&b[..]), Cow::Owned(b.clone())] {
                let r = DirEntry::from_bytes(b);
                if !same(&r) {
                    return Err(format!("{d:?} decodes to {r:?}"));
                }
            }
            let mut full = name.clone();
            full.resize(255, 0);
            let mut v = vec![("name", map(vec![("length", int(name.len() as u64)), ("bytes", Value::Bytes(full))])), ("node", int(s.node))];
            if let Some(_) = et {
                v.push(("entry_type", txt(kname(s.kind))));
            } else if s.omit & 32 == 0 {
                v.push(("entry_type", Value::Null));
            } else {
                st.label.insert("omitted", 1);
            }
            let r = DirEntry::from_bytes(Cow::Owned(arrange(v, s)));
            if !same(&r) {
                return Err(format!("the stored entry {d:?} decodes to {r:?}"));
            }
            Ok(())
        }
        Enc::Head(s) => {
            let h = Header { version: s.version, next_node: s.node };
            let b = both("the header", &h)?;
            let r = Header::from_bytes(Cow::Owned(b));
            let r2 = Header::from_bytes(Cow::Owned(arrange(vec![("version", int(s.version as u64)), ("next_node", int(s.node))], s)));
            for r in [r, r2] {
                if r.version != s.version || r.next_node != s.node {
                    return Err(format!("{h:?} decodes to {r:?}"));
                }
            }
            Ok(())
        }
        Enc::Chunk(v) => {
            let mut c = FileChunk::default();
            if c.bytes.iter().any(|b| *b != 0) {
                return Err("a default chunk is not zero".into());
            }
            for (k, x) in v {
                c.bytes[*k as usize % 4096] = *x;
            }
            let b = both("a chunk", &c)?;
            if b != c.bytes {
                return Err("a chunk is not stored as its bytes".into());
            }
            if FileChunk::from_bytes(Cow::Borrowed(&b)) != c || FileChunk::from_bytes(Cow::Owned(b)) != c {
                return Err("a chunk decodes to something else".into());
            }
            Ok(())
        }
        Enc::Codes(c) => {
            st.label.insert("codes", 1);
            codes(*c)
        }
        Enc::Policy { prev, pages, explicit } => {
            let cur = pages * 65536;
            let fits = prev.filter(|p| *p <= cur);
            let t = [
                (MountedFileSizePolicy::PreviousOrZero, fits.unwrap_or(0)),
                (MountedFileSizePolicy::PreviousOrMemoryPages, fits.unwrap_or(cur)),
                (MountedFileSizePolicy::Explicit(*explicit), *explicit),
                (MountedFileSizePolicy::MemoryPages, cur),
            ];
            for (i, (p, w)) in t.iter().enumerate() {
                let g = p.get_mounted_file_size(*prev, *pages);
                if g != *w {
                    return Err(format!("mount policy {i} gives {g}, not {w} (previous {prev:?}, {pages} pages)"));
                }
            }
            Ok(())
        }
    }
}

pub fn run_enc(v: &[Enc]) -> (CaseStats, Result<(), Div>) {
    let mut st = CaseStats::default();
    for (i, e) in v.iter().enumerate() {
        *st.ok.entry(match e {
            Enc::Names(_) => "names",
            Enc::Meta(_) => "metadata",
            Enc::Entry(..) => "entry",
            Enc::Head(_) => "header",
            Enc::Chunk(_) => "chunk",
            Enc::Codes(_) => "codes",
            Enc::Policy { .. } => "policy",
        })
        .or_default() += 1;
        if let Err(d) = one(e, &mut st) {
            return (st, Err(Div { cat: Cat::Other, step: i, op: format!("{e:?}"), detail: d }));
        }
    }
    (st, Ok(()))
}
