//! Strategies: operation generators and one profile per property.
use crate::engine::{Backend, Config};
use crate::model as md;
use crate::ops::*;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use proptest::strategy::Union;

pub type S<T> = BoxedStrategy<T>;

pub fn weighted<T: std::fmt::Debug + 'static>(v: Vec<(u32, S<T>)>) -> S<T> {
    Union::new_weighted(v.into_iter().filter(|x| x.0 > 0).collect()).boxed()
}

/// Parameters shared by the operation generators.
#[derive(Clone, Copy)]
pub struct G {
    /// size of the name alphabet
    pub names: u16,
    /// weight of unusual path spellings (usual = 20)
    pub wild: u32,
    /// weight of bad descriptors (good = 40)
    pub badfd: u32,
    /// weight of far / extreme positions (ordinary = 40)
    pub far: u32,
    /// weight of large transfers (ordinary = 60)
    pub big: u32,
    /// weight of unusual rights and flags
    pub odd: u32,
}
impl Default for G {
    fn default() -> Self {
        G { names: 5, wild: 0, badfd: 1, far: 1, big: 1, odd: 1 }
    }
}

const UNITS: [u64; 6] = [4096, 8192, 16384, 32768, 65536, 409600];

impl G {
    pub fn dir(&self) -> S<Fd> {
        weighted(vec![
            (26, Just(Fd::Root).boxed()),
            (14, (0u16..6).prop_map(Fd::Dir).boxed()),
            (self.badfd, self.bad()),
        ])
    }
    fn bad(&self) -> S<Fd> {
        weighted(vec![
            (3, (0u16..6).prop_map(Fd::Any).boxed()),
            (3, (0u16..6).prop_map(Fd::File).boxed()),
            (1, (0u16..6).prop_map(Fd::Dir).boxed()),
            (3, (0u32..14).prop_map(Fd::Raw).boxed()),
            (1, any::<u32>().prop_map(Fd::Raw).boxed()),
            (1, Just(Fd::Raw(u32::MAX)).boxed()),
        ])
    }
    pub fn file(&self) -> S<Fd> {
        weighted(vec![(40, (0u16..8).prop_map(Fd::File).boxed()), (self.badfd, self.bad())])
    }
    pub fn any_fd(&self) -> S<Fd> {
        weighted(vec![(40, (0u16..12).prop_map(Fd::Any).boxed()), (self.badfd, self.bad())])
    }
    pub fn tok(&self) -> S<Tok> {
        weighted(vec![
            (60, (0..self.names).prop_map(Tok::N).boxed()),
            (1 + self.wild, (0u8..20, 0u8..20).prop_map(|(a, b)| Tok::Kin(a, b)).boxed()),
            (
                3 * self.wild,
                weighted(vec![
                    (3, Just(Tok::Dot).boxed()),
                    (3, Just(Tok::DotDot).boxed()),
                    (2, Just(Tok::Empty).boxed()),
                    (3, (0u16..60).prop_map(Tok::N).boxed()),
                ]),
            ),
        ])
    }
    pub fn path_new(&self) -> S<Path> {
        let w = self.wild;
        weighted(vec![
            (10, (vec(self.tok(), 1..=2)).prop_map(|t| Path::Comps(t, false, false)).boxed()),
            (3, (vec(self.tok(), 3..=5)).prop_map(|t| Path::Comps(t, false, false)).boxed()),
            (9, (0u16..12, vec(self.tok(), 1..=2)).prop_map(|(n, t)| Path::Under(n, t)).boxed()),
            (1, (0u16..12, vec(self.tok(), 1..=2)).prop_map(|(n, t)| Path::Below(n, t)).boxed()),
            (
                w / 4,
                (vec(self.tok(), 0..=4), any::<bool>(), any::<bool>())
                    .prop_map(|(t, a, b)| Path::Comps(t, a, b))
                    .boxed(),
            ),
            (w / 8, self.raw_path()),
        ]
        .into_iter()
        .map(|(k, s)| (8 * k, s))
        .chain([
            (4, (0u16..24, 0u8..20).prop_map(|(n, k)| Path::Kin(n, k)).boxed()),
            (1, weighted(vec![(8, vec(self.tok(), 6..40).boxed()), (1, vec(self.tok(), 40..200).boxed())]).prop_map(|t| Path::Comps(t, false, false)).boxed()),
            (1, (0u8..20, prop_oneof![9 => vec(0u8..3, 2..24), 1 => vec(0u8..2, 16..80)]).prop_map(|(c, v)| Path::Comps(v.into_iter().map(|k| Tok::Kin(c, k)).collect(), false, false)).boxed()),
        ])
        .collect())
    }
    pub fn raw_path(&self) -> S<Path> {
        prop_oneof![
            vec(select(vec!['/', '.', 'a', 'b', 'é', '\0', '\\', ' ']), 0..10)
                .prop_map(|v| Path::Raw(v.into_iter().collect())),
            vec(any::<char>(), 0..6).prop_map(|v| Path::Raw(v.into_iter().collect())),
            select(vec!["", ".", "/", "..", "./", "../", "a/..", "a/../..", "//", "/a", "./a", "a/../b", "...", "a//b"])
                .prop_map(|s| Path::Raw(s.to_string())),
        ]
        .boxed()
    }
    fn deco(&self) -> S<u8> {
        weighted(vec![(20, Just(0u8).boxed()), (self.wild, (0u8..10).boxed())])
    }
    pub fn path_old(&self) -> S<Path> {
        weighted(vec![
            (10, (0u16..24, self.deco()).prop_map(|(n, d)| Path::Existing(n, d)).boxed()),
            (6, (0u16..24, self.deco()).prop_map(|(n, d)| Path::ExistingFile(n, d)).boxed()),
        ])
    }
    pub fn path_kin(&self) -> S<Path> {
        (0u16..24, 0u8..20).prop_map(|(n, k)| Path::Kin(n, k)).boxed()
    }
    pub fn path_dir(&self) -> S<Path> {
        (0u16..24, self.deco()).prop_map(|(n, d)| Path::ExistingDir(n, d)).boxed()
    }
    pub fn path_file(&self) -> S<Path> {
        (0u16..24, self.deco()).prop_map(|(n, d)| Path::ExistingFile(n, d)).boxed()
    }
    pub fn path(&self) -> S<Path> {
        weighted(vec![(40, self.path_old()), (32, self.path_new()), (8, self.path_dir()), (3, self.path_kin())])
    }
    pub fn pos(&self) -> S<Pos> {
        weighted(vec![
            (8, (0u64..300).prop_map(Pos::Abs).boxed()),
            (
                12,
                (0u64..=18, select(UNITS.to_vec()), -2i64..=2)
                    .prop_map(|(k, u, d)| Pos::Abs((k * u).saturating_add_signed(d)))
                    .boxed(),
            ),
            (8, (-3i64..=3).prop_map(Pos::Size).boxed()),
            (
                5,
                (-3i64..=3, select(UNITS.to_vec()), -1i64..=1)
                    .prop_map(|(k, u, d)| Pos::Size(k * u as i64 + d))
                    .boxed(),
            ),
            (4, (-5000i64..5000).prop_map(Pos::Cursor).boxed()),
            (4, (0u64..150_000).prop_map(Pos::Abs).boxed()),
            (
                self.far,
                prop_oneof![
                    4 => (0u64..1 << 26).prop_map(Pos::Abs),
                    2 => (0u64..1 << 43).prop_map(Pos::Abs),
                    2 => (0u64..2000, 4096u64..4097, -2i64..=2).prop_map(|(k, u, d)| Pos::Abs((k * u).saturating_add_signed(d))),
                    2 => (-70_000i64..10).prop_map(Pos::Max),
                    1 => (31u32..44, -20_000i64..20_000).prop_map(|(s, d)| Pos::Abs((1u64 << s).saturating_add_signed(d))),
                    1 => (31u32..44, 0u64..3, -2i64..=2).prop_map(|(s, k, d)| Pos::Abs(((1u64 << s) + k * 4096).saturating_add_signed(d))),
                ]
                .boxed(),
            ),
        ])
    }
    pub fn pos_extreme(&self) -> S<Pos> {
        prop_oneof![
            3 => (0u32..64, -2i64..=2).prop_map(|(s, d)| Pos::Abs((1u64 << s).wrapping_add_signed(d))),
            2 => (0u64..70000).prop_map(|d| Pos::Abs(u64::MAX - d)),
            1 => any::<u64>().prop_map(Pos::Abs),
            3 => (-70_000i64..70_000).prop_map(Pos::Max),
            1 => (-3i64..=3).prop_map(Pos::Max),
            1 => (-3i64..=3).prop_map(|d| Pos::Abs((i64::MAX as u64).wrapping_add_signed(d))),
            1 => (-12i64..=4, -2i64..=2).prop_map(|(k, d)| Pos::Abs(((u32::MAX as u64).wrapping_add_signed(k) * 4096).wrapping_add_signed(d))),
            4 => self.pos(),
        ]
        .boxed()
    }
    pub fn len(&self) -> S<Len> {
        weighted(vec![
            (14, (0u32..200).prop_map(Len::Abs).boxed()),
            (3, Just(Len::Abs(0)).boxed()),
            (
                12,
                (select(vec![4096u32, 4096, 8192, 16384, 32768, 65536]), -2i32..=2)
                    .prop_map(|(u, d)| Len::ToMultiple(u, d))
                    .boxed(),
            ),
            (4, (-2i32..=20).prop_map(Len::ToEnd).boxed()),
            (8, (select(vec![4096u32, 8192, 16384, 65536]), 1u32..4, -1i32..=1).prop_map(|(u, k, d)| Len::Abs((u * k).saturating_add_signed(d))).boxed()),
            (5, (200u32..20_000).prop_map(Len::Abs).boxed()),
            (self.big, (20_000u32..400_000).prop_map(Len::Abs).boxed()),
            (self.big / 8, (400_000u32..5_000_000).prop_map(Len::Abs).boxed()),
        ])
    }
    /// very many short buffers
    pub fn buffers(&self) -> S<Vec<Len>> {
        let k = prop_oneof![2 => 120usize..135, 3 => 250usize..262, 2 => 500usize..520, 3 => 1015usize..1100];
        (k, any::<u32>(), 1u32..40).prop_map(|(k, seed, m)| (0..k as u32).map(|i| Len::Abs((i.wrapping_mul(7) ^ seed) % m)).collect()).boxed()
    }
    pub fn lens(&self) -> S<Vec<Len>> {
        prop_oneof![1200 => vec(self.len(), 1), 400 => vec(self.len(), 2..5), 200 => vec(self.len(), 0..3), 10 => vec((0u32..60).prop_map(Len::Abs), 5..70), 1 => self.buffers()].boxed()
    }
    pub fn time(&self) -> S<u64> {
        prop_oneof![24 => 1u64..100_000, 4 => Just(0u64), 4 => any::<u64>(), 1 => (1u32..64, -1i64..=1).prop_map(|(s, d)| (1u64 << s).wrapping_add_signed(d)), 1 => Just(u64::MAX)].boxed()
    }
    pub fn rights(&self) -> S<u64> {
        weighted(vec![
            (30, Just(md::R_ALL).boxed()),
            (
                self.odd,
                prop_oneof![
                    2 => Just(md::R_READ),
                    2 => Just(md::R_WRITE),
                    1 => Just(md::R_READ | md::R_WRITE),
                    1 => Just(md::R_ALL & !md::R_READ),
                    1 => Just(md::R_ALL & !md::R_WRITE),
                    1 => Just(0u64),
                    1 => any::<u64>().prop_map(|x| x & md::R_ALL),
                ]
                .boxed(),
            ),
        ])
    }
    pub fn flags(&self) -> S<u16> {
        weighted(vec![
            (20, Just(0u16).boxed()),
            (2 + 2 * self.odd, Just(md::F_APPEND).boxed()),
            (self.odd, (0u16..32).boxed()),
        ])
    }
    pub fn oflags(&self) -> S<u16> {
        prop_oneof![
            10 => Just(md::O_CREATE),
            6 => Just(0u16),
            2 => Just(md::O_CREATE | md::O_EXCL),
            2 => Just(md::O_TRUNC),
            2 => Just(md::O_CREATE | md::O_TRUNC),
            2 => Just(md::O_DIRECTORY),
            2 => Just(md::O_CREATE | md::O_DIRECTORY),
            1 => 0u16..16,
        ]
        .boxed()
    }

    // ---- operations
    pub fn open(&self) -> S<Op> {
        (self.dir(), self.path(), self.oflags(), self.flags(), self.rights(), self.time())
            .prop_map(|(dir, path, oflags, flags, rights, ctime)| Op::Open { dir, path, oflags, flags, rights, ctime })
            .boxed()
    }
    /// open or create a regular file
    pub fn open_file(&self) -> S<Op> {
        (
            self.dir(),
            weighted(vec![(6, self.path_new()), (4, self.path_file())]),
            select(vec![md::O_CREATE, md::O_CREATE, md::O_CREATE, md::O_CREATE, md::O_CREATE | md::O_EXCL]),
            self.flags(),
            self.rights(),
            self.time(),
        )
            .prop_map(|(dir, path, oflags, flags, rights, ctime)| Op::Open { dir, path, oflags, flags, rights, ctime })
            .boxed()
    }
    pub fn open_trunc(&self) -> S<Op> {
        (self.dir(), self.path_file(), self.flags(), self.rights())
            .prop_map(|(dir, path, flags, rights)| Op::Open { dir, path, oflags: md::O_TRUNC, flags, rights, ctime: 7 })
            .boxed()
    }
    pub fn open_old(&self) -> S<Op> {
        (self.dir(), self.path_old(), self.flags(), self.rights())
            .prop_map(|(dir, path, flags, rights)| Op::Open { dir, path, oflags: 0, flags, rights, ctime: 7 })
            .boxed()
    }
    pub fn open_dir(&self) -> S<Op> {
        (self.dir(), self.path_dir())
            .prop_map(|(dir, path)| Op::Open { dir, path, oflags: md::O_DIRECTORY, flags: 0, rights: md::R_ALL, ctime: 7 })
            .boxed()
    }
    pub fn mkdir(&self) -> S<Op> {
        (self.dir(), self.path_new(), self.time(), 0u8..4)
            .prop_map(|(dir, path, ctime, k)| if k == 0 { Op::MkdirOpen { dir, path, ctime } } else { Op::Mkdir { dir, path, ctime } })
            .boxed()
    }
    pub fn close(&self) -> S<Op> {
        self.any_fd().prop_map(|fd| Op::Close { fd }).boxed()
    }
    pub fn renumber(&self) -> S<Op> {
        let to = prop_oneof![4 => (0u16..12).prop_map(Fd::Any), 3 => (0u16..8).prop_map(Fd::File), 4 => (0u32..20).prop_map(Fd::Raw), 1 => any::<u32>().prop_map(Fd::Raw), 1 => Just(Fd::Raw(u32::MAX))];
        (self.any_fd(), to).prop_map(|(from, to)| Op::Renumber { from, to }).boxed()
    }
    pub fn read(&self) -> S<Op> {
        (self.file(), self.lens(), proptest::option::weighted(0.6, self.pos()), any::<bool>())
            .prop_map(|(fd, lens, at, plain)| Op::Read { fd, lens, at, plain })
            .boxed()
    }
    pub fn write(&self) -> S<Op> {
        (self.file(), self.lens(), proptest::option::weighted(0.5, self.pos()), any::<u32>(), any::<bool>())
            .prop_map(|(fd, lens, at, seed, plain)| Op::Write { fd, lens, at, seed, plain })
            .boxed()
    }
    pub fn seek(&self) -> S<Op> {
        let delta = prop_oneof![6 => -5000i64..5000, 2 => -200_000i64..200_000, 1 => Just(0i64)];
        prop_oneof![
            3 => (self.file(), delta, 0u8..3).prop_map(|(fd, delta, whence)| Op::Seek { fd, delta, whence }),
            3 => (self.file(), self.pos()).prop_map(|(fd, pos)| Op::SeekTo { fd, pos }),
        ]
        .boxed()
    }
    pub fn seek_extreme(&self) -> S<Op> {
        let delta = prop_oneof![
            2 => any::<i64>(),
            2 => select(vec![i64::MIN, i64::MAX, i64::MIN + 1, i64::MAX - 1, -1, 0, 1]),
            2 => -5000i64..5000,
            1 => (0u32..63, any::<bool>()).prop_map(|(s, n)| if n { -(1i64 << s) } else { 1i64 << s }),
        ];
        (self.file(), delta, 0u8..3).prop_map(|(fd, delta, whence)| Op::Seek { fd, delta, whence }).boxed()
    }
    pub fn tell(&self) -> S<Op> {
        self.file().prop_map(|fd| Op::Tell { fd }).boxed()
    }
    pub fn set_size(&self) -> S<Op> {
        (self.file(), self.pos()).prop_map(|(fd, pos)| Op::SetSize { fd, pos }).boxed()
    }
    pub fn limit_pos(&self) -> S<Pos> {
        prop_oneof![3 => (0i64..20_000).prop_map(Pos::Size), 2 => (-3i64..=3).prop_map(Pos::Size), 3 => self.pos(), 1 => (-2i64..=2).prop_map(Pos::Limit), 1 => (-2i64..=2).prop_map(Pos::Max), 1 => Just(Pos::Abs(u64::MAX))].boxed()
    }
    pub fn set_limit(&self) -> S<Op> {
        (self.file(), self.limit_pos()).prop_map(|(fd, pos)| Op::SetLimit { fd, pos }).boxed()
    }
    pub fn set_times(&self) -> S<Op> {
        (self.any_fd(), proptest::option::of(self.time()), proptest::option::of(self.time()))
            .prop_map(|(fd, a, m)| Op::SetTimes { fd, a, m })
            .boxed()
    }
    pub fn set_meta(&self) -> S<Op> {
        (
            self.any_fd(),
            proptest::option::of(self.pos()),
            proptest::option::weighted(0.3, proptest::option::of(self.limit_pos())),
            proptest::option::of((self.time(), self.time(), self.time())),
        )
            .prop_map(|(fd, size, limit, times)| Op::SetMeta { fd, size, limit, times })
            .boxed()
    }
    pub fn set_meta_size(&self) -> S<Op> {
        (self.file(), self.pos())
            .prop_map(|(fd, p)| Op::SetMeta { fd, size: Some(p), limit: None, times: None })
            .boxed()
    }
    pub fn get_meta(&self) -> S<Op> {
        self.any_fd().prop_map(|fd| Op::GetMeta { fd }).boxed()
    }
    pub fn set_meta_bad(&self) -> S<Op> {
        (self.any_fd(), 0u8..2, prop_oneof![2 => 0u64..12, 1 => any::<u64>()]).prop_map(|(fd, what, val)| Op::SetMetaBad { fd, what, val }).boxed()
    }
    pub fn node_meta(&self) -> S<Op> {
        (any::<u16>(), any::<bool>(), proptest::option::weighted(0.15, prop_oneof![0u64..20, any::<u64>(), Just(u64::MAX)]))
            .prop_map(|(n, dead, raw)| Op::NodeMeta { n, dead, raw })
            .boxed()
    }
    pub fn get_stat(&self) -> S<Op> {
        self.any_fd().prop_map(|fd| Op::GetStat { fd }).boxed()
    }
    pub fn set_stat(&self) -> S<Op> {
        (self.any_fd(), self.flags(), self.rights(), self.rights())
            .prop_map(|(fd, flags, rights, inh)| Op::SetStat { fd, flags, rights, inh })
            .boxed()
    }
    pub fn stat(&self) -> S<Op> {
        (self.dir(), self.path()).prop_map(|(dir, path)| Op::Stat { dir, path }).boxed()
    }
    pub fn rm_file(&self) -> S<Op> {
        (self.dir(), weighted(vec![(8, self.path_file()), (1, self.path())])).prop_map(|(dir, path)| Op::RmFile { dir, path }).boxed()
    }
    pub fn rm_dir(&self) -> S<Op> {
        (self.dir(), weighted(vec![(8, self.path_dir()), (1, self.path())])).prop_map(|(dir, path)| Op::RmDir { dir, path }).boxed()
    }
    pub fn rm_rec(&self) -> S<Op> {
        (self.dir(), weighted(vec![(8, self.path_dir()), (2, self.path())])).prop_map(|(dir, path)| Op::RmRec { dir, path }).boxed()
    }
    pub fn link(&self) -> S<Op> {
        (
            self.dir(),
            weighted(vec![(8, self.path_file()), (1, self.path())]),
            self.dir(),
            weighted(vec![(8, self.path_new()), (2, self.path())]),
        )
            .prop_map(|(od, op, nd, np)| Op::Link { od, op, nd, np })
            .boxed()
    }
    pub fn rename(&self) -> S<Op> {
        (
            self.dir(),
            weighted(vec![(8, self.path_old()), (4, self.path_dir()), (1, self.path())]),
            self.dir(),
            weighted(vec![(8, self.path_new()), (6, self.path_old()), (2, self.path_dir())]),
        )
            .prop_map(|(od, op, nd, np)| Op::Rename { od, op, nd, np })
            .boxed()
    }
    pub fn start(&self) -> S<Start> {
        prop_oneof![
            3 => Just(Start::None),
            1 => Just(Start::Zero),
            8 => (0u16..40, prop_oneof![6 => Just(0i8), 1 => -2i8..=2]).prop_map(|(n, d)| Start::Entry(n, d)),
            2 => Just(Start::Dot),
            2 => Just(Start::DotDot),
            1 => (0u32..40).prop_map(Start::Raw),
            1 => (0u32..16).prop_map(|d| Start::Raw(u32::MAX - d)),
            1 => any::<u32>().prop_map(Start::Raw),
        ]
        .boxed()
    }
    pub fn list(&self) -> S<Op> {
        (self.dir(), self.start(), prop_oneof![2 => Just(0u16), 3 => 1u16..12])
            .prop_map(|(dir, start, stop)| Op::List { dir, start, stop })
            .boxed()
    }
    pub fn get_entry(&self) -> S<Op> {
        (self.dir(), self.start()).prop_map(|(dir, start)| Op::GetEntry { dir, start }).boxed()
    }
    pub fn mpath(&self) -> S<Path> {
        weighted(vec![(10, self.path_file()), (3, self.path_new()), (1, self.path())])
    }
    pub fn pol(&self) -> S<Pol> {
        prop_oneof![
            4 => Just(Pol::PrevOrZero),
            4 => Just(Pol::PrevOrPages),
            4 => Just(Pol::Pages),
            3 => (0u64..200_000).prop_map(Pol::Explicit),
            2 => (0u64..4, -1i64..=1).prop_map(|(k, d)| Pol::Explicit((k * 65536).saturating_add_signed(d))),
            1 => (22u32..46, -2i64..300).prop_map(|(s, d)| Pol::Explicit((1u64 << s).saturating_add_signed(d))),
        ]
        .boxed()
    }
    pub fn mount(&self) -> S<Op> {
        (self.mpath(), any::<bool>(), 0u8..3, self.pol())
            .prop_map(|(path, slash, mem, pol)| Op::Mount { path, slash, mem, pol })
            .boxed()
    }
    pub fn unmount(&self) -> S<Op> {
        (self.mpath(), any::<bool>()).prop_map(|(path, slash)| Op::Unmount { path, slash }).boxed()
    }
    pub fn init(&self) -> S<Op> {
        (self.mpath(), any::<bool>()).prop_map(|(path, slash)| Op::Init { path, slash }).boxed()
    }
    pub fn store(&self) -> S<Op> {
        (self.mpath(), any::<bool>()).prop_map(|(path, slash)| Op::Store { path, slash }).boxed()
    }
    pub fn mem_write(&self) -> S<Op> {
        (0u8..3, prop_oneof![3 => 0u64..200, 3 => (0u64..40).prop_map(|k| k * 4096), 2 => 0u64..300_000, 1 => (31u32..40, -300i64..300).prop_map(|(s, d)| (1u64 << s).saturating_add_signed(d))], prop_oneof![4 => 1u32..300, 1 => 1u32..80_000], any::<u32>())
            .prop_map(|(mem, off, len, seed)| Op::MemWrite { mem, off, len, seed })
            .boxed()
    }
    pub fn mem_grow(&self) -> S<Op> {
        (0u8..3, prop_oneof![9 => 1u32..4, 1 => 65_000u32..70_000, 1 => any::<u32>()]).prop_map(|(mem, pages)| Op::MemGrow { mem, pages }).boxed()
    }
    pub fn misc(&self) -> S<Op> {
        prop_oneof![
            (self.any_fd(), any::<u64>(), any::<u64>()).prop_map(|(fd, off, len)| Op::Advice { fd, off, len }),
            (self.any_fd(), any::<u64>(), any::<u64>()).prop_map(|(fd, off, len)| Op::Allocate { fd, off, len }),
            self.any_fd().prop_map(|fd| Op::Flush { fd }),
        ]
        .boxed()
    }
    pub fn chunk_type(&self) -> S<Op> {
        (0u8..2).prop_map(|v| Op::SetChunkType { v }).boxed()
    }
    pub fn chunk_size(&self) -> S<Op> {
        (0u8..5).prop_map(|v| Op::SetChunkSize { v }).boxed()
    }
    pub fn restart(&self) -> S<Op> {
        (0u8..4).prop_map(|mode| Op::Restart { mode }).boxed()
    }
    pub fn warm(&self) -> S<Op> {
        Just(Op::AuditWarm).boxed()
    }
    pub fn cold(&self) -> S<Op> {
        Just(Op::AuditCold).boxed()
    }

    // ---- scale
    /// How many names, and where: below 20, around the node-cache and
    /// tree-node sizes, and (level 2) above 1000. The larger ones are usually
    /// spread over directories, because the file system searches linearly.
    fn count(level: u8) -> S<(Option<u16>, u16)> {
        let one = || prop_oneof![1 => Just(None), 1 => (0u16..2).prop_map(Some)];
        let spread = || Just(Some(SPREAD));
        weighted(vec![
            (10, (one(), 1u16..20).boxed()),
            (4, (prop_oneof![1 => one(), 1 => spread()], 40u16..140).boxed()),
            (if level >= 1 { 2 } else { 0 }, (prop_oneof![1 => one(), 4 => spread()], prop_oneof![3 => 120u16..420, 1 => 250u16..280]).boxed()),
            (if level >= 2 { 1 } else { 0 }, (prop_oneof![1 => one(), 9 => spread()], 1001u16..1200).boxed()),
        ])
    }
    pub fn many(&self, level: u8) -> S<Op> {
        (Self::count(level), prop_oneof![3 => Just(100u16), 1 => 100u16..700], 0u8..9, any::<u32>())
            .prop_map(|((sub, k), base, how, seed)| Op::Many { dir: Fd::Root, sub, base, k, how, seed })
            .boxed()
    }
    pub fn each(&self, level: u8) -> S<Op> {
        (Self::count(level), prop_oneof![1 => Just(100u16), 2 => 100u16..300, 1 => 100u16..1300], prop_oneof![3 => Just(1u16), 1 => 2u16..9], 0u8..11, any::<u32>())
            .prop_map(|((sub, k), base, step, how, seed)| Op::Each { dir: Fd::Root, sub, base, k, step, how, seed })
            .boxed()
    }
    /// a run of names, actions on most of it, sometimes a restart between
    pub fn crowd(&self, level: u8) -> S<Vec<Op>> {
        let act = (0u8..11, 0u16..8, prop_oneof![3 => Just(1u16), 2 => 2u16..9, 1 => 20u16..60], any::<u32>(), 0u8..8);
        (Self::count(level), 0u8..9, any::<u32>(), vec(act, 1..5))
            .prop_map(|((sub, k), how, seed, acts)| {
                let dir = Fd::Root;
                let mut v = vec![Op::Many { dir, sub, base: 100, k, how, seed }];
                for (how, from, step, seed, x) in acts {
                    match x {
                        0 => v.push(Op::Restart { mode: 0 }),
                        1 => v.push(Op::SetTimes { fd: Fd::Root, a: Some(seed as u64), m: None }),
                        2 => v.push(Op::List { dir, start: Start::Entry(seed as u16 % (k + 2), 0), stop: 0 }),
                        _ => {}
                    }
                    let from = k / 8 * from;
                    let rest = (k - from).div_ceil(step);
                    // removals and look-ups of many names in one directory are slow
                    let rest = if k > 500 && sub != Some(SPREAD) { rest.min(100) } else { rest };
                    v.push(Op::Each { dir, sub, base: 100 + from, k: rest, step, how, seed });
                }
                v
            })
            .boxed()
    }
    /// many files mounted at the same time, some of them used and unmounted
    pub fn mounts(&self) -> S<Vec<Op>> {
        let k = prop_oneof![4 => 5u16..40, 2 => 120u16..140, 2 => 250u16..280, 1 => 500u16..530];
        let act = (select(vec![10u8, 10, 9, 3, 8, 6, 0, 2]), 0u16..8, 1u16..6, any::<u32>(), 0u8..8);
        (k, proptest::bool::ANY, any::<u32>(), vec(act, 1..6))
            .prop_map(|(k, made, seed, acts)| {
                let dir = Fd::Root;
                let sub = Some(SPREAD);
                let mut v = vec![];
                if made {
                    v.push(Op::Many { dir, sub, base: 100, k, how: 1, seed });
                } else {
                    // mounting makes the files, not the directories
                    for d in 100 / 40..=(100 + k) / 40 {
                        v.push(Op::Mkdir { dir, path: Path::Comps(vec![Tok::N(30_000 + d)], false, false), ctime: 1 });
                    }
                }
                v.push(Op::Each { dir, sub, base: 100, k, step: 1, how: 9, seed });
                for (how, from, step, seed, x) in acts {
                    if x == 0 {
                        v.push(Op::Restart { mode: 0 });
                    }
                    let from = k / 8 * from;
                    v.push(Op::Each { dir, sub, base: 100 + from, k: (k - from).div_ceil(step), step, how, seed });
                }
                v
            })
            .boxed()
    }
    /// directories nested hundreds or thousands deep, removed again
    pub fn abyss(&self) -> S<Vec<Op>> {
        (prop_oneof![3 => 300u16..1000, 2 => 1000u16..3000, 2 => 5000u16..7000], proptest::bool::ANY, proptest::bool::ANY, any::<u32>())
            .prop_map(|(k, restart, moved, seed)| {
                let dir = Fd::Root;
                let path = |n| Path::Comps(vec![Tok::N(n)], false, false);
                let mut v = vec![Op::Many { dir, sub: None, base: 77, k, how: 100, seed }];
                if restart {
                    v.push(Op::Restart { mode: 0 });
                }
                if moved {
                    v.push(Op::Many { dir, sub: None, base: 77, k: 1, how: 101, seed });
                }
                v.push(Op::RmRec { dir, path: path(if moved { 79 } else { 77 }) });
                v
            })
            .boxed()
    }
    /// many descriptors, of one file or of several, most closed again
    pub fn horde(&self, level: u8) -> S<Vec<Op>> {
        let k = weighted(vec![(6, (2u16..40).boxed()), (2, (40u16..300).boxed()), (if level >= 1 { 1 } else { 0 }, prop_oneof![250u16..270, 1000u16..1100].boxed())]);
        let close = prop_oneof![2 => Just(0u16), 3 => 1u16..6, 3 => 6u16..300];
        (k, prop_oneof![6u8..8], close, 0u16..4, any::<bool>(), vec(self.any_fd().prop_map(|fd| Op::Close { fd }), 0..6))
            .prop_map(|(k, how, keep, pre, rm, more)| {
                let dir = Fd::Root;
                let mut v = vec![Op::Many { dir, sub: None, base: 100, k: pre, how: 6, seed: 1 }, Op::Many { dir, sub: None, base: 100, k, how, seed: 2 }];
                for i in 0..k.saturating_sub(keep) {
                    v.push(Op::Close { fd: Fd::Any(if i % 3 == 0 { i } else { i + keep }) });
                }
                v.extend(more);
                if rm {
                    v.push(Op::Each { dir, sub: None, base: 100, k: (pre + 3).max(3), step: 1, how: 0, seed: 1 });
                }
                v
            })
            .boxed()
    }
    /// many chunks: written in one piece or one by one
    pub fn vast(&self, level: u8) -> S<Vec<Op>> {
        let k = weighted(vec![
            (4, (20u16..130).boxed()),
            (3, prop_oneof![(130u16..700), (1000u16..1100)].boxed()),
            (if level >= 2 { 1 } else { 0 }, (8150u16..8250).boxed()),
            (if level >= 2 { 1 } else { 0 }, (9990u16..10400).boxed()),
        ]);
        let from = prop_oneof![3 => Just(0u32), 2 => (0u32..64).prop_map(|k| k * 4096), 1 => 0u32..100_000];
        let stride = prop_oneof![6 => Just(1u16), 2 => 2u16..5, 1 => Just(16u16), 1 => Just(1024u16)];
        (0u16..4, k, from, stride, any::<u32>(), 0u8..8, any::<bool>())
            .prop_map(move |(f, k, from, stride, seed, what, shrink)| {
                let fd = Fd::File(f);
                let mut v = vec![];
                let stride = if k > 8000 { 1 } else { stride };
                match what {
                    // one long read over a file that is mostly holes
                    3 if level >= 2 && seed % 3 == 0 => {
                        let len = 4096 * (k as u32 * 9 % 11_000) + seed % 4099;
                        let last = from as u64 + len as u64 - (seed as u64 / 7) % (len as u64 / 2 + 1);
                        v.push(Op::Write { fd, lens: vec![Len::Abs(9)], at: Some(Pos::Abs(last)), seed, plain: false });
                        v.push(Op::Read { fd, lens: vec![Len::Abs(len)], at: Some(Pos::Abs(from as u64)), plain: false });
                    }
                    // many buffers
                    4 if k > 999 && k < 1500 => {
                        let lens: Vec<Len> = (0..k as u32).map(|i| Len::Abs((i ^ seed) % 13)).collect();
                        v.push(Op::Write { fd, lens: lens.clone(), at: Some(Pos::Abs(from as u64)), seed, plain: false });
                        v.push(Op::Read { fd, lens, at: Some(Pos::Abs(from as u64)), plain: false });
                    }
                    0 | 1 if k < 1500 => v.push(Op::Write { fd, lens: vec![Len::Abs(k as u32 * 4096 + seed % 3)], at: Some(Pos::Abs(from as u64)), seed, plain: false }),
                    2 => v.push(Op::Sparse { fd, from, k, stride, read: true, seed }),
                    _ => v.push(Op::Sparse { fd, from, k, stride, read: false, seed }),
                }
                if shrink {
                    let keep = match seed % 4 {
                        0 => 0,
                        1 => seed as u64 % 5000,
                        2 => 4096 * (seed as u64 / 4 % k as u64),
                        _ => 65536 * 16,
                    };
                    v.push(Op::SetSize { fd, pos: Pos::Abs(keep) });
                    if seed % 5 > 0 {
                        v.push(Op::SetSize { fd, pos: Pos::Abs(from as u64 + k as u64 * stride as u64 * 4096) });
                    }
                }
                v
            })
            .boxed()
    }

    // ---- mixtures
    /// namespace operations
    pub fn namespace(&self) -> Vec<(u32, S<Op>)> {
        vec![
            (10, self.open()),
            (8, self.open_file()),
            (8, self.mkdir()),
            (4, self.close()),
            (5, self.rm_file()),
            (4, self.rm_dir()),
            (2, self.rm_rec()),
            (4, self.link()),
            (7, self.rename()),
            (4, self.stat()),
            (3, self.list()),
            (2, self.write()),
        ]
    }
    pub fn data(&self) -> Vec<(u32, S<Op>)> {
        vec![
            (20, self.write()),
            (14, self.read()),
            (6, self.seek()),
            (4, self.set_size()),
            (1, self.open_trunc()),
        ]
    }
    pub fn everything(&self) -> Vec<(u32, S<Op>)> {
        vec![
            (14, weighted(self.namespace())),
            (14, weighted(self.data())),
            (1, self.renumber()),
            (1, self.tell()),
            (1, self.set_limit()),
            (1, self.set_times()),
            (1, self.set_meta()),
            (1, self.get_meta()),
            (1, self.set_meta_bad()),
            (1, self.node_meta()),
            (1, self.get_stat()),
            (1, self.set_stat()),
            (1, self.get_entry()),
            (2, self.mount()),
            (2, self.unmount()),
            (1, self.init()),
            (1, self.store()),
            (1, self.mem_write()),
            (1, self.misc()),
            (1, self.chunk_type()),
        ]
    }
}

pub fn file_named(k: u16, dir: Option<u16>) -> Op {
    let mut t = vec![];
    if let Some(d) = dir {
        t.push(Tok::N(d));
    }
    t.push(Tok::N(k));
    Op::Open { dir: Fd::Root, path: Path::Comps(t, false, false), oflags: md::O_CREATE, flags: 0, rights: md::R_ALL, ctime: 10 + k as u64 }
}
pub fn n(t: &[u16]) -> Path {
    Path::Comps(t.iter().map(|k| Tok::N(*k)).collect(), false, false)
}
/// Open `k` files at the start.
pub fn prelude_files(k: std::ops::RangeInclusive<u16>) -> S<Vec<Op>> {
    k.prop_map(|k| (0..k).map(|i| file_named(i, None)).collect()).boxed()
}
/// Every kind of operation that leaves the configuration alone.
fn rest() -> S<Op> {
    let g = G { names: 5, odd: 1, badfd: 1, ..G::default() };
    weighted(vec![
        (2, g.open()),
        (2, g.open_file()),
        (1, g.open_old()),
        (1, g.open_dir()),
        (1, g.open_trunc()),
        (1, g.mkdir()),
        (2, g.close()),
        (3, g.renumber()),
        (1, g.read()),
        (2, g.write()),
        (1, g.seek()),
        (1, g.seek_extreme()),
        (1, g.tell()),
        (2, g.set_size()),
        (2, g.set_limit()),
        (2, g.set_times()),
        (2, g.set_meta()),
        (1, g.set_meta_size()),
        (1, g.set_meta_bad()),
        (1, g.get_meta()),
        (1, g.node_meta()),
        (1, g.get_stat()),
        (2, g.set_stat()),
        (1, g.stat()),
        (2, g.rm_file()),
        (1, g.rm_dir()),
        (1, g.rm_rec()),
        (2, g.link()),
        (2, g.rename()),
        (1, g.list()),
        (1, g.get_entry()),
        (2, g.mount()),
        (1, g.unmount()),
        (1, g.init()),
        (1, g.store()),
        (1, g.mem_write()),
        (1, g.mem_grow()),
        (1, g.misc()),
    ])
}

/// (one operation in about twenty is any operation, whatever the property is about)
pub fn seq(pre: S<Vec<Op>>, w: Vec<(u32, S<Op>)>, len: std::ops::Range<usize>) -> S<Vec<Op>> {
    (pre, vec(weighted(vec![(20, weighted(w)), (1, rest())]), len))
        .prop_map(|(mut a, b)| {
            a.extend(b);
            a
        })
        .boxed()
}
/// Like `seq` with multi-operation pieces.
pub fn bursts(pre: S<Vec<Op>>, w: Vec<(u32, S<Vec<Op>>)>, len: std::ops::Range<usize>) -> S<Vec<Op>> {
    (pre, vec(weighted(w), len))
        .prop_map(|(mut a, b)| {
            for x in b {
                a.extend(x);
            }
            a
        })
        .boxed()
}
pub fn one(s: S<Op>) -> S<Vec<Op>> {
    s.prop_map(|o| vec![o]).boxed()
}
pub fn start() -> S<Option<u8>> {
    prop_oneof![4 => Just(None), 1 => (0u8..=244).prop_map(Some), 1 => select(vec![0u8, 219, 229, 244]).prop_map(Some)].boxed()
}
/// Mostly a fresh file system, now and then one that was in use for long.
fn age() -> S<u8> {
    prop_oneof![14 => Just(0u8), 1 => any::<u8>()].boxed()
}
pub fn cfg_all() -> S<Config> {
    (
        prop_oneof![2 => Just(Backend::Transient), 3 => Just(Backend::V1), 6 => Just(Backend::V2)],
        prop_oneof![3 => Just(0u8), 2 => Just(2u8), 3 => 0u8..5],
        start(),
        age(),
    )
        .prop_map(|(backend, chunk, start, age)| Config { backend, chunk, start, extra: start.map(|s| s % 13).unwrap_or(0), age })
        .boxed()
}
pub fn cfg_stable() -> S<Config> {
    (prop_oneof![3 => Just(Backend::V1), 6 => Just(Backend::V2)], prop_oneof![3 => Just(0u8), 2 => Just(2u8), 3 => 0u8..5], start(), age())
        .prop_map(|(backend, chunk, start, age)| Config { backend, chunk, start, extra: start.map(|s| s % 13).unwrap_or(0), age })
        .boxed()
}
