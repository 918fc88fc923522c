//! Per property: what is generated, what counts as non-trivial, what is claimed.
use crate::case::Case;
use crate::enc::*;
use crate::special::*;
use crate::engine::*;
use crate::generate::*;
use crate::model as md;
use crate::ops::*;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;

pub const ALL: [&str; 27] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16",
    "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27",
];

pub struct Prop {
    pub cases: S<Case>,
    /// cases in the quick tier
    pub quick: u64,
    pub rule: &'static str,
    pub nontrivial: fn(&CaseStats) -> bool,
    pub ignores: &'static [Cat],
}

fn hist(cfg: S<Config>, opts: Opts, ops: S<Vec<Op>>) -> S<Case> {
    (cfg, ops).prop_map(move |(cfg, ops)| Case::Hist { cfg, opts, ops }).boxed()
}
/// A history with one or two pieces of large scale put somewhere into it.
fn scaled(cfg: S<Config>, opts: Opts, pre: S<Vec<Op>>, w: Vec<(u32, S<Op>)>, len: std::ops::Range<usize>, big: S<Vec<Op>>) -> S<Case> {
    let ops = (seq(pre, w, len), vec((big, any::<u16>()), 1..3))
        .prop_map(|(mut v, bigs)| {
            for (b, at) in bigs {
                let at = at as usize % (v.len() + 1);
                v.splice(at..at, b);
            }
            v
        })
        .boxed();
    hist(cfg, opts, ops)
}
/// One file with more than 65536 names, some of them removed again.
fn links() -> S<Case> {
    let dir = Fd::Root;
    let one = |n| Path::Comps(vec![Tok::N(n)], false, false);
    let ops = (100u16..2000, 2000u16..40_000, 1u16..200, any::<u32>())
        .prop_map(move |(base, from, k, seed)| {
            let first = Path::Comps(vec![Tok::N(30_000 + base / 40), Tok::N(base)], false, false);
            let mut v = vec![Op::Many { dir, sub: Some(SPREAD), base, k: u16::MAX, how: 5, seed }];
            for n in 0..4 {
                v.push(Op::Link { od: dir, op: first.clone(), nd: dir, np: one(n) });
                v.push(Op::Close { fd: Fd::Any(0) });
            }
            v.push(Op::Open { dir, path: one(0), oflags: 0, flags: 0, rights: md::R_ALL, ctime: 3 });
            v.push(Op::Write { fd: Fd::File(0), lens: vec![Len::Abs(50)], at: None, seed, plain: true });
            v.push(Op::Each { dir, sub: Some(SPREAD), base: from, k, step: 3, how: 0, seed });
            v.push(Op::RmFile { dir, path: one(1) });
            v
        })
        .boxed();
    hist(cfg_all(), O, ops)
}
/// Mostly the plain history, once in `every` with pieces of scale.
fn mixed(every: u32, cfg: S<Config>, opts: Opts, pre: S<Vec<Op>>, w: Vec<(u32, S<Op>)>, len: std::ops::Range<usize>, big: S<Vec<Op>>) -> S<Case> {
    any_of(vec![
        (every - 1, hist(cfg.clone(), opts, seq(pre.clone(), w.clone(), len.clone()))),
        (1, scaled(cfg, opts, pre, w, len, big)),
    ])
}
fn any_of_ops(v: Vec<(u32, S<Op>)>) -> S<Op> {
    weighted(v)
}
fn any_of(v: Vec<(u32, S<Case>)>) -> S<Case> {
    weighted(v)
}
const O: Opts = Opts { audit_after_err: false, audit_each: false, cold_each: false, codes: 0, no_final: false, owners: false };
fn none() -> S<Vec<Op>> {
    Just(vec![]).boxed()
}
fn wops(k: &[(&'static str, u32)], g: &G) -> Vec<(u32, S<Op>)> {
    k.iter()
        .map(|(n, w)| {
            let s = match *n {
                "open" => g.open(),
                "open_file" => g.open_file(),
                "open_old" => g.open_old(),
                "open_dir" => g.open_dir(),
                "open_trunc" => g.open_trunc(),
                "mkdir" => g.mkdir(),
                "close" => g.close(),
                "renumber" => g.renumber(),
                "read" => g.read(),
                "write" => g.write(),
                "seek" => g.seek(),
                "seek_x" => g.seek_extreme(),
                "tell" => g.tell(),
                "set_size" => g.set_size(),
                "set_limit" => g.set_limit(),
                "set_times" => g.set_times(),
                "set_meta" => g.set_meta(),
                "set_meta_size" => g.set_meta_size(),
                "get_meta" => g.get_meta(),
                "set_meta_bad" => g.set_meta_bad(),
                "node_meta" => g.node_meta(),
                "get_stat" => g.get_stat(),
                "set_stat" => g.set_stat(),
                "stat" => g.stat(),
                "rm_file" => g.rm_file(),
                "rm_dir" => g.rm_dir(),
                "rm_rec" => g.rm_rec(),
                "link" => g.link(),
                "rename" => g.rename(),
                "list" => g.list(),
                "get_entry" => g.get_entry(),
                "mount" => g.mount(),
                "unmount" => g.unmount(),
                "init" => g.init(),
                "store" => g.store(),
                "mem_write" => g.mem_write(),
                "mem_grow" => g.mem_grow(),
                "misc" => g.misc(),
                "chunk_type" => g.chunk_type(),
                "chunk_size" => g.chunk_size(),
                "restart" => g.restart(),
                "warm" => g.warm(),
                "cold" => g.cold(),
                x => panic!("unknown op {x}"),
            };
            (*w, s)
        })
        .collect()
}

/// A small tree to work in: directories 0,1 (with 0/2), files 3, 0/3, 1/4, hard link 4.
fn small_tree() -> S<Vec<Op>> {
    (any::<bool>(), any::<bool>(), 0u16..3)
        .prop_map(|(dirs, link, k)| {
            let mut v = vec![];
            if dirs {
                v.push(Op::MkdirOpen { dir: Fd::Root, path: n(&[0]), ctime: 3 });
                v.push(Op::Mkdir { dir: Fd::Root, path: n(&[0, 2]), ctime: 4 });
                v.push(Op::Mkdir { dir: Fd::Root, path: n(&[1]), ctime: 5 });
            }
            for i in 0..k {
                v.push(file_named(3 + i % 2, [None, Some(0), Some(1)][i as usize % 3]));
                v.push(Op::Write { fd: Fd::File(i), lens: vec![Len::Abs(100 + 50 * i as u32)], at: None, seed: 5 + i as u32, plain: true });
            }
            if link && k > 0 {
                v.push(Op::Link { od: Fd::Root, op: n(&[3]), nd: Fd::Root, np: n(&[4]) });
            }
            v
        })
        .boxed()
}

pub fn prop(id: &str) -> Prop {
    let g = G::default();
    match id {
        "C01" => {
            let g = G { odd: 0, names: 3, ..g };
            let w = wops(
                &[("write", 30), ("read", 22), ("seek", 8), ("open_file", 3), ("open_old", 3), ("close", 1), ("set_size", 2), ("open_trunc", 1), ("rm_file", 1), ("chunk_type", 1), ("restart", 1), ("warm", 1), ("link", 1)],
                &g,
            );
            Prop {
                cases: mixed(40, cfg_all(), O, prelude_files(1..=3), w, 4..60, g.vast(2)),
                quick: 24_000,
                rule: "at least two writes, one of them across a chunk boundary or past the end, and a later non-empty read",
                nontrivial: |s| s.lab("wrote") >= 2 && s.lab("wrote_across_chunks") + s.lab("wrote_past_end") >= 1 && s.lab("read_bytes") >= 1,
                ignores: &[],
            }
        }
        "C02" => {
            let g = G { odd: 0, names: 3, far: 2, ..g };
            let w = wops(
                &[("write", 20), ("read", 10), ("set_size", 25), ("set_meta_size", 8), ("open_trunc", 5), ("seek", 3), ("open_old", 2), ("chunk_type", 1), ("restart", 1), ("warm", 3), ("cold", 2), ("open_file", 2), ("rm_file", 1)],
                &g,
            );
            Prop {
                cases: mixed(30, cfg_all(), O, prelude_files(1..=3), w, 4..50, g.vast(2)),
                quick: 24_000,
                rule: "a non-empty file was shrunk and later extended or written past its end",
                nontrivial: |s| s.lab("wrote") >= 1 && s.lab("shrunk") >= 1 && s.lab("extended") + s.lab("wrote_past_end") >= 1,
                ignores: &[],
            }
        }
        "C03" => {
            let g = G { names: 4, ..g };
            let mut w = g.namespace();
            w.extend(wops(&[("restart", 1), ("warm", 2), ("cold", 1), ("get_meta", 1)], &g));
            Prop {
                cases: mixed(60, cfg_all(), O, small_tree(), w, 5..70, g.crowd(2)),
                quick: 30_000,
                rule: "at least two creations and one removal, rename or link succeeded",
                nontrivial: |s| s.oks("open") + s.oks("mkdir") + s.oks("mkdir_open") >= 2 && s.oks("rm_file") + s.oks("rm_dir") + s.oks("rm_rec") + s.oks("rename") + s.oks("link") >= 1,
                ignores: &[],
            }
        }
        "C04" => {
            let g = G { names: 4, wild: 30, ..g };
            let mut w = g.namespace();
            w.extend(wops(&[("open", 10), ("stat", 20), ("mkdir", 10), ("warm", 1), ("restart", 1), ("mount", 1), ("unmount", 1)], &g));
            Prop {
                cases: mixed(60, cfg_all(), Opts { codes: CODE_ONP, audit_after_err: false, ..O }, small_tree(), w, 5..60, g.crowd(1)),
                quick: 30_000,
                rule: "at least three path operations succeeded and two were refused",
                nontrivial: |s| s.ok.values().sum::<u32>() >= 3 && s.err.values().sum::<u32>() >= 2,
                ignores: &[],
            }
        }
        "C05" => {
            let mut w = g.everything();
            w.extend(wops(&[("restart", 6), ("cold", 3), ("mount", 2), ("unmount", 1), ("set_times", 1), ("set_limit", 1), ("chunk_size", 1)], &g));
            Prop {
                cases: mixed(30, cfg_stable(), O, small_tree(), w, 5..80, any_v(vec![(3, g.crowd(2)), (1, g.vast(1))])),
                quick: 22_000,
                rule: "a restart happened after at least three successful changes and was followed by another successful change",
                nontrivial: |s| s.oks("restart") >= 1 && s.lab("change_after_restart") >= 1 && s.lab("changes") >= 3,
                ignores: &[],
            }
        }
        "C06" => c06(),
        "C07" => {
            let g = G { names: 4, ..g };
            let mut w = g.namespace();
            w.extend(wops(&[("node_meta", 3), ("link", 25), ("rm_file", 12), ("rename", 8), ("write", 8), ("read", 4), ("set_size", 3), ("set_times", 2), ("set_limit", 1), ("close", 6), ("restart", 1), ("warm", 2), ("mount", 2), ("unmount", 2), ("rm_rec", 2)], &g));
            Prop {
                cases: any_of(vec![(29_999, mixed(60, cfg_all(), O, small_tree(), w, 5..60, g.crowd(2))), (1, links())]),
                quick: 30_000,
                rule: "a link was made and afterwards a name was removed, replaced or renamed or the file changed",
                nontrivial: |s| s.oks("link") >= 1 && s.oks("rm_file") + s.oks("rename") + s.oks("write") + s.oks("rm_rec") >= 1,
                ignores: &[],
            }
        }
        "C08" => {
            let g = G { names: 4, ..g };
            let mut w = g.namespace();
            w.extend(wops(&[("rename", 45), ("link", 4), ("write", 4), ("read", 2), ("close", 6), ("open_dir", 4), ("restart", 1), ("warm", 3), ("mount", 2), ("unmount", 2)], &g));
            Prop {
                cases: any_of(vec![
                    (3, mixed(60, cfg_all(), O, small_tree(), w.clone(), 5..50, g.crowd(1))),
                    (1, hist(cfg_all(), Opts { audit_each: true, audit_after_err: true, ..O }, seq(small_tree(), w, 5..16))),
                ]),
                quick: 30_000,
                rule: "at least one rename succeeded and one was refused, or three succeeded",
                nontrivial: |s| (s.oks("rename") >= 1 && s.errs("rename") >= 1) || s.oks("rename") >= 3,
                ignores: &[],
            }
        }
        "C11" => {
            let g = G { names: 4, badfd: 6, odd: 2, ..g };
            let w = wops(
                &[("open", 18), ("open_file", 8), ("open_old", 8), ("open_dir", 4), ("close", 16), ("renumber", 18), ("read", 4), ("write", 6), ("seek", 4), ("tell", 3), ("get_stat", 3), ("get_meta", 3), ("set_stat", 2), ("set_size", 2), ("mkdir", 2), ("rename", 1), ("link", 1), ("rm_file", 2), ("rm_dir", 1), ("list", 2), ("restart", 1), ("warm", 2), ("misc", 2), ("set_times", 1), ("stat", 1)],
                &g,
            );
            Prop {
                cases: mixed(40, cfg_all(), Opts { codes: CODE_BADFD, ..O }, small_tree(), w, 8..80, any_v(vec![(1, g.crowd(1)), (2, g.horde(1))])),
                quick: 30_000,
                rule: "at least three opens, a close and a renumber succeeded",
                nontrivial: |s| s.oks("open") >= 3 && s.oks("close") >= 1 && s.oks("renumber") >= 1,
                ignores: &[],
            }
        }
        "C12" => {
            let g = G { names: 3, odd: 40, ..g };
            let w = wops(
                &[("open", 8), ("open_old", 12), ("open_file", 6), ("read", 22), ("write", 22), ("set_size", 8), ("set_stat", 14), ("get_stat", 6), ("seek", 4), ("tell", 2), ("close", 4), ("renumber", 2), ("open_trunc", 2), ("warm", 2), ("link", 1), ("rename", 1), ("restart", 1), ("mount", 1), ("unmount", 1)],
                &g,
            );
            Prop {
                cases: mixed(60, cfg_all(), Opts { codes: CODE_ONP | CODE_INVAL, ..O }, prelude_files(1..=2), w, 8..60, any_v(vec![(1, g.vast(0)), (1, g.horde(0))])),
                quick: 30_000,
                rule: "a read or write was refused and another one succeeded",
                nontrivial: |s| s.errs("read") + s.errs("write") >= 1 && s.oks("read") + s.oks("write") >= 1,
                ignores: &[],
            }
        }
        "C13" => {
            let g = G { names: 3, far: 6, odd: 0, ..g };
            let lim = |g: &G| -> S<Op> {
                prop_oneof![
                    3 => (g.file(), vec(prop_oneof![3 => (-3i32..=3).prop_map(Len::ToLimit), 2 => (1u32..5000).prop_map(Len::Abs)], 1..4), any::<u32>(), any::<bool>(), proptest::option::weighted(0.3, prop_oneof![(-9000i64..=3).prop_map(Pos::Limit), g.pos_extreme()]))
                        .prop_map(|(fd, lens, seed, plain, at)| Op::Write { fd, lens, at, seed, plain }),
                    1 => (g.file(), (-3i64..=3).prop_map(Pos::Limit)).prop_map(|(fd, pos)| Op::SetSize { fd, pos }),
                    1 => (g.file(), (-9000i64..=3).prop_map(Pos::Limit)).prop_map(|(fd, pos)| Op::SeekTo { fd, pos }),
                    1 => (g.file(), g.pos_extreme()).prop_map(|(fd, pos)| Op::SetSize { fd, pos }),
                    1 => (g.file(), g.pos_extreme()).prop_map(|(fd, pos)| Op::SetLimit { fd, pos }),
                ]
                .boxed()
            };
            let mut w = wops(
                &[("write", 12), ("read", 4), ("set_limit", 16), ("set_size", 8), ("set_meta", 6), ("seek", 4), ("open_file", 3), ("open_old", 3), ("open_trunc", 2), ("link", 2), ("rm_file", 1), ("restart", 2), ("mount", 3), ("unmount", 2), ("init", 1), ("store", 3), ("warm", 2), ("mem_write", 1), ("rename", 1)],
                &g,
            );
            w.push((24, lim(&g)));
            Prop {
                cases: any_of(vec![
                    (3, mixed(60, cfg_all(), Opts { codes: CODE_BIG, ..O }, prelude_files(1..=2), w.clone(), 6..50, g.vast(1))),
                    (1, hist(cfg_all(), Opts { codes: CODE_BIG, audit_after_err: true, ..O }, seq(prelude_files(1..=2), w, 6..30))),
                ]),
                quick: 22_000,
                rule: "a limit was set, a write, size or metadata change was refused and a write succeeded",
                nontrivial: |s| s.oks("set_limit") + s.oks("set_meta") >= 1 && s.errs("write") + s.errs("set_size") + s.errs("set_meta") >= 1 && s.oks("write") >= 1,
                ignores: &[],
            }
        }
        "C14" | "C15" => {
            let g = G { names: 3, far: 1, odd: 0, ..g };
            let a = id == "C14";
            let k = |x: u32, y: u32| if a { x } else { y };
            let w = wops(
                &[("mount", k(14, 18)), ("unmount", k(8, 14)), ("init", k(3, 12)), ("store", k(3, 12)), ("mem_write", 10), ("mem_grow", 4), ("write", k(18, 10)), ("read", k(12, 3)), ("set_size", k(4, 6)), ("seek", 3), ("open_file", 4), ("open_old", 4), ("open_trunc", 2), ("rm_file", 4), ("rm_rec", 1), ("rename", k(4, 1)), ("link", 3), ("close", 4), ("restart", k(2, 4)), ("cold", 2), ("warm", 2), ("set_limit", 1), ("set_meta", 1), ("set_times", 1), ("mkdir", 1), ("get_meta", 1)],
                &g,
            );
            Prop {
                cases: mixed(60, cfg_all(), O, prelude_files(1..=3), w, 6..60, any_v(vec![(1, g.vast(1)), (1, g.mounts())])),
                quick: 22_000,
                rule: if a { "a mounted file was read or written and later unmounted or the host compared" } else { "a transfer or a second mount of a file with a remembered size happened" },
                nontrivial: if a {
                    |s| s.oks("mount") >= 1 && s.lab("mounted_io") >= 1
                } else {
                    |s| s.oks("mount") >= 2 || s.oks("init") + s.oks("store") >= 1
                },
                ignores: &[],
            }
        }
        "C16" => {
            let g = G { names: 3, badfd: 8, odd: 4, wild: 6, far: 3, ..g };
            let mut w = g.everything();
            w.extend(wops(&[("rename", 10), ("link", 8), ("mkdir", 6), ("open", 8), ("rm_dir", 5), ("rm_file", 5), ("seek_x", 3), ("set_limit", 5), ("set_meta", 3), ("set_meta_bad", 3), ("mount", 5), ("store", 3), ("renumber", 3), ("restart", 1), ("rm_rec", 3), ("chunk_size", 1)], &g));
            w.push((6, (g.file(), g.pos_extreme()).prop_map(|(fd, pos)| Op::SetSize { fd, pos }).boxed()));
            w.push((4, (g.file(), g.pos_extreme(), any::<u32>()).prop_map(|(fd, p, seed)| Op::Write { fd, lens: vec![Len::Abs(100)], at: Some(p), seed, plain: false }).boxed()));
            Prop {
                cases: mixed(60, cfg_all(), Opts { audit_after_err: true, ..O }, small_tree(), w, 5..40, any_v(vec![(1, g.vast(0)), (2, g.crowd(0)), (1, one(weighted(vec![(1, g.many(1)), (1, g.each(1))])))])),
                quick: 14_000,
                rule: "at least two calls were refused in a state with at least two successful changes",
                nontrivial: |s| s.err.values().sum::<u32>() >= 2 && s.lab("changes") >= 2,
                ignores: &[],
            }
        }
        "C09" => c09(),
        "C10" => c10(),
        "C17" => c17(),
        "C18" => c18(),
        "C20" => c20(),
        "C26" => c26(),
        "C27" => c27(),
        "C19" => c19(),
        "C21" => {
            let g = G { names: 4, ..g };
            let w = wops(
                &[("chunk_type", 12), ("chunk_size", 8), ("restart", 8), ("open_file", 12), ("write", 20), ("read", 8), ("set_size", 8), ("open_trunc", 3), ("rm_file", 4), ("rename", 2), ("link", 2), ("close", 4), ("mkdir", 1), ("warm", 2), ("cold", 2), ("set_times", 1), ("get_meta", 3), ("mount", 1), ("unmount", 1), ("init", 1), ("store", 1)],
                &g,
            );
            Prop {
                cases: any_of(vec![
                    (4, mixed(50, cfg_stable(), O, none(), w.clone(), 6..60, any_v(vec![(1, g.vast(1)), (2, g.crowd(1))]))),
                    (1, hist(cfg_stable(), Opts { cold_each: true, ..O }, seq(vec(g.chunk_size(), 0..3).boxed(), w, 3..16))),
                ]),
                quick: 26_000,
                rule: "the chunk type or size was set and files were written, or files of both formats were written",
                nontrivial: |s| s.oks("set_chunk_type") + s.oks("set_chunk_size") + s.errs("set_chunk_size") >= 1 && s.lab("wrote") >= 1,
                ignores: &[],
            }
        }
        "C22" => {
            let g = G { names: 4, ..g };
            let mut w = g.namespace();
            w.extend(wops(&[("node_meta", 4), ("rm_file", 14), ("rm_dir", 12), ("rm_rec", 14), ("link", 6), ("mkdir", 8), ("open_dir", 5), ("close", 10), ("write", 4), ("read", 3), ("mount", 3), ("unmount", 2), ("restart", 1), ("warm", 2), ("cold", 1)], &g));
            Prop {
                cases: any_of(vec![
                    (1999, mixed(60, cfg_all(), O, small_tree(), w.clone(), 5..60, g.crowd(2))),
                    (1, scaled(cfg_all(), O, small_tree(), w, 5..40, g.abyss())),
                ]),
                quick: 30_000,
                rule: "at least one removal succeeded and one was refused",
                nontrivial: |s| s.oks("rm_file") + s.oks("rm_dir") + s.oks("rm_rec") >= 1 && s.errs("rm_file") + s.errs("rm_dir") + s.errs("rm_rec") >= 1,
                ignores: &[],
            }
        }
        "C23" => {
            let g = G { names: 4, ..g };
            let mut w = g.namespace();
            w.extend(wops(&[("set_times", 18), ("set_meta", 14), ("set_meta_bad", 3), ("node_meta", 5), ("get_meta", 10), ("set_limit", 5), ("write", 6), ("read", 5), ("set_size", 3), ("restart", 3), ("warm", 4), ("cold", 2), ("mount", 3), ("unmount", 3), ("init", 2), ("store", 2), ("open_trunc", 2)], &g));
            Prop {
                cases: any_of(vec![
                    (4, mixed(60, cfg_all(), O, small_tree(), w.clone(), 5..60, g.crowd(2))),
                    (1, hist(cfg_all(), Opts { audit_each: true, ..O }, seq(small_tree(), w, 3..20))),
                ]),
                quick: 26_000,
                rule: "at least two attributes were set on a tree with at least two objects",
                nontrivial: |s| s.oks("set_times") + s.oks("set_meta") + s.oks("set_limit") >= 2 && s.oks("open") + s.oks("mkdir") >= 2,
                ignores: &[],
            }
        }
        "C24" => {
            let g = G { names: 3, ..g };
            let splits = prop_oneof![300 => vec(prop_oneof![2 => Just(Len::Abs(0)), 3 => (1u32..9000).prop_map(Len::Abs), 3 => g.len()], 2..7), 1 => g.buffers()].boxed();
            let vw = (g.file(), splits.clone(), proptest::option::weighted(0.4, g.pos()), any::<u32>())
                .prop_map(|(fd, lens, at, seed)| Op::Write { fd, lens, at, seed, plain: false })
                .boxed();
            let vr = (g.file(), splits, proptest::option::weighted(0.4, g.pos()))
                .prop_map(|(fd, lens, at)| Op::Read { fd, lens, at, plain: false })
                .boxed();
            let app = g.path_file().prop_map(|path| Op::Open { dir: Fd::Root, path, oflags: 0, flags: md::F_APPEND, rights: md::R_ALL, ctime: 1 }).boxed();
            let stat = (g.file(), select(vec![0u16, 1, 1, 4, 5])).prop_map(|(fd, flags)| Op::SetStat { fd, flags, rights: md::R_ALL, inh: md::R_ALL }).boxed();
            let mut w = wops(&[("read", 10), ("write", 10), ("seek", 16), ("seek_x", 5), ("tell", 8), ("set_size", 3), ("open_old", 4), ("close", 2), ("open_trunc", 2), ("set_limit", 1), ("warm", 1), ("restart", 1), ("renumber", 1), ("mount", 1), ("unmount", 1)], &g);
            w.extend(vec![(14, vw), (14, vr), (6, app), (5, stat)]);
            Prop {
                cases: mixed(60, cfg_all(), O, prelude_files(1..=2), w, 6..60, g.vast(1)),
                quick: 26_000,
                rule: "a write, a read and a seek succeeded",
                nontrivial: |s| s.oks("write") >= 1 && s.lab("read_bytes") >= 1 && s.oks("seek") + s.oks("seek_to") >= 1,
                ignores: &[],
            }
        }
        "C25" => {
            let g = G { names: 4, odd: 0, badfd: 0, ..g };
            let w = wops(
                &[("open_file", 12), ("write", 24), ("set_size", 14), ("set_meta_size", 3), ("open_trunc", 8), ("rm_file", 12), ("close", 12), ("rename", 5), ("rm_rec", 2), ("read", 6), ("warm", 5), ("cold", 2), ("chunk_type", 2), ("restart", 3), ("mkdir", 1), ("link", 1), ("mount", 1), ("store", 1), ("unmount", 1), ("mem_write", 1)],
                &g,
            );
            Prop {
                cases: mixed(30, cfg_all(), O, prelude_files(1..=3), w, 8..70, any_v(vec![(3, g.vast(2)), (1, g.crowd(1))])),
                quick: 24_000,
                rule: "data was written, discarded by a removal, truncation or shrink, and written again",
                nontrivial: |s| s.lab("wrote") >= 3 && s.oks("rm_file") + s.lab("shrunk") + s.oks("rename") >= 1,
                ignores: &[],
            }
        }
        _ => panic!("no check for {id}"),
    }
}

fn c19() -> Prop {
    let g = G { names: 6, wild: 1, ..G::default() };
    let mut w = g.namespace();
    w.extend(wops(&[("list", 30), ("get_entry", 14), ("rm_file", 6), ("rename", 4), ("restart", 1), ("cold", 1), ("open_dir", 4)], &g));
    // wide directories: many names, some removed again
    let wide = (proptest::bool::ANY, 1u16..120, vec((0u16..120, any::<bool>()), 0..30), vec(weighted(vec![(6, g.list()), (3, g.get_entry()), (1, g.restart())]), 1..12))
        .prop_map(|(sub, k, rm, tail)| {
            let mut v = vec![];
            let p = |i: u16| if sub { n(&[0, 100 + i]) } else { n(&[100 + i]) };
            for i in 0..k {
                let path = p(i);
                v.push(if i % 3 == 0 { Op::Mkdir { dir: Fd::Root, path, ctime: 1 } } else { Op::Open { dir: Fd::Root, path, oflags: 1, flags: 0, rights: md::R_ALL, ctime: 1 } });
                if i % 3 != 0 {
                    v.push(Op::Close { fd: Fd::File(0) });
                }
            }
            if sub {
                v.push(Op::Open { dir: Fd::Root, path: n(&[0]), oflags: 0, flags: 0, rights: md::R_ALL, ctime: 1 });
            }
            for (i, again) in rm {
                v.push(Op::RmRec { dir: Fd::Root, path: p(i % k) });
                if again {
                    v.push(Op::Mkdir { dir: Fd::Root, path: p(i % k), ctime: 2 });
                }
            }
            v.extend(tail);
            v
        })
        .boxed();
    Prop {
        cases: any_of(vec![(90, hist(cfg_all(), O, seq(small_tree(), w.clone(), 5..60))), (30, hist(cfg_all(), O, wide)), (2, scaled(cfg_all(), O, small_tree(), w.clone(), 5..40, g.crowd(2))), (20, legacy(weighted(w)))]),
        quick: 24_000,
        rule: "a listing was resumed at an index inside a directory",
        nontrivial: |s| s.lab("resumed") >= 1,
        ignores: &[],
    }
}

fn any_v(v: Vec<(u32, S<Vec<Op>>)>) -> S<Vec<Op>> {
    weighted(v)
}

fn c18() -> Prop {
    let g = G { names: 60, badfd: 14, odd: 10, wild: 8, far: 20, ..G::default() };
    let mut w = g.everything();
    w.extend(wops(&[("seek_x", 10), ("renumber", 4), ("list", 4), ("get_entry", 4), ("set_limit", 3), ("misc", 2), ("restart", 1), ("chunk_size", 1), ("rename", 4), ("link", 2)], &g));
    let x = g.pos_extreme();
    w.push((8, (g.file(), x.clone()).prop_map(|(fd, pos)| Op::SetSize { fd, pos }).boxed()));
    w.push((4, (g.file(), x.clone()).prop_map(|(fd, pos)| Op::SetLimit { fd, pos }).boxed()));
    w.push((5, (g.file(), x.clone()).prop_map(|(fd, pos)| Op::SeekTo { fd, pos }).boxed()));
    w.push((4, (g.file(), proptest::option::of(x.clone()), proptest::option::of(proptest::option::of(x.clone()))).prop_map(|(fd, size, limit)| Op::SetMeta { fd, size, limit, times: None }).boxed()));
    w.push((8, (g.file(), g.lens(), proptest::option::weighted(0.8, x.clone()), any::<u32>()).prop_map(|(fd, lens, at, seed)| Op::Write { fd, lens, at, seed, plain: true }).boxed()));
    w.push((8, (g.file(), g.lens(), proptest::option::weighted(0.8, x.clone())).prop_map(|(fd, lens, at)| Op::Read { fd, lens, at, plain: true }).boxed()));
    w.push((2, (g.mpath(), any::<bool>(), any::<u64>(), 0u8..3).prop_map(|(path, slash, k, mem)| Op::Mount { path, slash, mem, pol: Pol::Explicit(k >> (k % 60)) }).boxed()));
    Prop {
        cases: mixed(60, cfg_all(), O, small_tree(), w, 5..60, any_v(vec![(4, g.vast(1)), (8, g.crowd(2)), (4, g.horde(2)), (4, g.mounts()), (1, g.abyss())])),
        quick: 24_000,
        rule: "at least five calls succeeded and five were refused",
        nontrivial: |s| s.ok.values().sum::<u32>() >= 5 && s.err.values().sum::<u32>() >= 5,
        ignores: &[],
    }
}

fn c06() -> Prop {
    let g = G { names: 6, odd: 0, badfd: 0, ..G::default() };
    let nm = |k: u16| if k % 4 == 0 { n(&[0, 200 + k]) } else { n(&[200 + k]) };
    // create / look up / remove / recreate a run of names
    let run = (0u16..400, 1u16..160, 0u8..8).prop_map(move |(a, len, what)| {
        let mut v = vec![];
        for k in a..a + len {
            let k = k % 400;
            match what {
                0 => v.push(Op::RmFile { dir: Fd::Root, path: nm(k) }),
                1 => {
                    v.push(Op::RmFile { dir: Fd::Root, path: nm(k) });
                    v.push(Op::Open { dir: Fd::Root, path: nm(k), oflags: 1, flags: 0, rights: md::R_ALL, ctime: k as u64 });
                    v.push(Op::Close { fd: Fd::File(0) });
                }
                2 => v.push(Op::Rename { od: Fd::Root, op: nm(k), nd: Fd::Root, np: nm((k + 7) % 400) }),
                3 | 4 => {
                    v.push(Op::Open { dir: Fd::Root, path: nm(k), oflags: 1, flags: 0, rights: md::R_ALL, ctime: k as u64 });
                    v.push(Op::Close { fd: Fd::File(0) });
                }
                _ => v.push(Op::Stat { dir: Fd::Root, path: nm(k) }),
            }
        }
        v
    });
    // scattered one-byte reads: many chunk pointers cached, mostly absent
    let scan = (0u16..4, 1u32..60, prop_oneof![Just(4096u64 * 1024), Just(4096 * 100), Just(65536 * 64), Just(16384)], 0u64..5).prop_map(|(f, k, step, o)| {
        (0..k as u64).map(|i| Op::Read { fd: Fd::File(f), lens: vec![Len::Abs(1)], at: Some(Pos::Abs(o * 4096 + i * step)), plain: false }).collect::<Vec<_>>()
    });
    let poke = (0u16..4, 1u32..20, 0u64..(1 << 27), any::<u32>()).prop_map(|(f, k, base, seed)| {
        (0..k as u64).map(|i| Op::Write { fd: Fd::File(f), lens: vec![Len::Abs(40)], at: Some(Pos::Abs((base + i * 777_777) % (1 << 28))), seed: seed.wrapping_add(i as u32), plain: false }).collect::<Vec<_>>()
    });
    let big = (0u16..4, 0u64..1 << 28).prop_map(|(f, n)| vec![Op::SetSize { fd: Fd::File(f), pos: Pos::Abs(n) }]);
    let single2 = wops(&[("read", 8), ("write", 8), ("set_size", 5), ("open_file", 3), ("open_old", 5), ("rm_file", 3), ("rename", 3), ("link", 2), ("stat", 6), ("close", 2), ("mount", 2), ("unmount", 2), ("get_meta", 2), ("open_trunc", 1), ("rm_rec", 1), ("mkdir", 1), ("set_times", 3), ("set_limit", 1), ("restart", 1), ("warm", 1)], &g);
    let single = weighted(wops(&[("node_meta", 3), ("read", 8), ("write", 8), ("set_size", 5), ("open_file", 3), ("open_old", 2), ("rm_file", 3), ("rename", 3), ("link", 2), ("stat", 6), ("close", 2), ("mount", 2), ("unmount", 2), ("get_meta", 2), ("open_trunc", 1), ("rm_rec", 1), ("mkdir", 1), ("set_times", 1)], &g));
    let w: Vec<(u32, S<Vec<Op>>)> = vec![
        (4, run.boxed()),
        (4, scan.boxed()),
        (4, poke.boxed()),
        (2, big.boxed()),
        (30, one(single)),
        (2, one(g.warm())),
        (2, one(g.cold())),
    ];
    let small = wops(&[("node_meta", 4), ("read", 10), ("write", 10), ("set_size", 6), ("open", 6), ("open_file", 4), ("stat", 12), ("mkdir", 4), ("rm_file", 6), ("rm_dir", 3), ("rm_rec", 2), ("rename", 6), ("link", 3), ("close", 5), ("mount", 2), ("unmount", 2), ("open_trunc", 1), ("list", 1)], &G { names: 4, ..g });
    // more than 1000 files: metadata records
    let many = (1001u16..1300, vec((0u16..1300, 0u8..6), 20..120), g.restart()).prop_map(move |(k, ops, r)| {
        let nm = |i: u16| n(&[i / 100, 1000 + i]);
        let mut v = vec![];
        for i in 0..k {
            v.push(Op::Open { dir: Fd::Root, path: nm(i), oflags: 1, flags: 0, rights: md::R_ALL, ctime: i as u64 });
            if i % 50 == 0 {
                v.push(Op::Write { fd: Fd::File(0), lens: vec![Len::Abs(30)], at: None, seed: i as u32, plain: true });
            }
            v.push(Op::Close { fd: Fd::File(0) });
        }
        v.push(r);
        for (i, what) in ops {
            let p = nm(i % k);
            match what {
                0 => v.push(Op::RmFile { dir: Fd::Root, path: p }),
                1 | 2 => {
                    v.push(Op::Open { dir: Fd::Root, path: p, oflags: 1, flags: 1, rights: md::R_ALL, ctime: 9 });
                    v.push(Op::Write { fd: Fd::File(0), lens: vec![Len::Abs(30)], at: None, seed: i as u32, plain: true });
                    v.push(Op::SetTimes { fd: Fd::File(0), a: Some(i as u64), m: None });
                    v.push(Op::Close { fd: Fd::File(0) });
                }
                _ => v.push(Op::Stat { dir: Fd::Root, path: p }),
            }
        }
        v
    });
    Prop {
        cases: any_of(vec![
            (60, hist(cfg_stable(), Opts { cold_each: true, audit_each: true, ..O }, seq(small_tree(), small, 5..30))),
            (60, hist(cfg_stable(), O, bursts(prelude_files(1..=4), w, 5..30))),
            (1, hist(cfg_stable(), O, many.boxed())),
            (3, scaled(cfg_stable(), O, small_tree(), single2, 5..40, any_v(vec![(3, g.crowd(2)), (2, g.vast(2))]))),
        ]),
        quick: 8_000,
        rule: "at least ten operations succeeded, among them a change after a look-up, read or listing",
        nontrivial: |s| s.ok.values().sum::<u32>() >= 10 && s.lab("changes") >= 3,
        ignores: &[],
    }
}

fn c09() -> Prop {
    let g = G { names: 4, odd: 0, badfd: 1, ..G::default() };
    let w = wops(
        &[("open_file", 14), ("write", 22), ("set_size", 10), ("open_trunc", 6), ("rm_file", 12), ("close", 10), ("rename", 12), ("link", 8), ("rm_rec", 4), ("rm_dir", 3), ("mkdir", 6), ("open_dir", 2), ("read", 4), ("chunk_type", 1), ("restart", 2), ("set_times", 3), ("set_limit", 2), ("mount", 4), ("unmount", 3), ("store", 2), ("init", 1), ("list", 2), ("stat", 1), ("set_meta", 2)],
        &g,
    );
    let big = (g.file(), 1u32..200_000, any::<u32>()).prop_map(|(fd, n, seed)| Op::Write { fd, lens: vec![Len::Abs(n)], at: Some(Pos::Abs(0)), seed, plain: false }).boxed();
    let mut wr = w.clone();
    wr.push((8, big));
    let case = |clean: bool, rounds: std::ops::Range<u16>, len: std::ops::Range<usize>| {
        (cfg_stable(), seq(small_tree(), w.clone(), 0..14), vec(weighted(wr.clone()), len), rounds, 0u8..8)
            .prop_map(move |(cfg, setup, round, rounds, f)| Case::Cycle(Cycle { cfg, setup, round, clean, rounds, fresh: clean && f == 0 }))
            .boxed()
    };
    // bursts of names: directory growth
    let names = (cfg_stable(), 5u16..60, any::<bool>(), 1u8..4, any::<bool>())
        .prop_map(|(cfg, k, sub, what, fresh)| {
            let p = |i: u16| if sub { n(&[0, 300 + i]) } else { n(&[300 + i]) };
            let mut round = vec![];
            for i in 0..k {
                match (what, i % 3) {
                    (1, _) | (2, 0) => round.push(Op::Mkdir { dir: Fd::Root, path: p(i), ctime: 1 }),
                    _ => {
                        round.push(Op::Open { dir: Fd::Root, path: p(i), oflags: 1, flags: 0, rights: md::R_ALL, ctime: 1 });
                        round.push(Op::Write { fd: Fd::File(0), lens: vec![Len::Abs(10)], at: None, seed: 1, plain: true });
                        round.push(Op::Close { fd: Fd::File(0) });
                    }
                }
            }
            Case::Cycle(Cycle { cfg, setup: vec![], round, clean: true, rounds: 16, fresh })
        })
        .boxed();
    // what other releases stored is given back as well
    let old = legacy_with(Opts { owners: true, ..O }, any_of_ops(vec![(3, weighted(wr.clone())), (2, weighted(wops(&[("open_old", 6), ("rm_file", 8), ("rm_rec", 6), ("rm_dir", 2), ("set_size", 4), ("open_trunc", 3), ("rename", 2)], &g)))]));
    Prop {
        cases: any_of(vec![(3, old), (10, case(true, 24..64, 2..10)), (6, case(false, 24..64, 1..7)), (4, case(true, 16..17, 10..40)), (1, names)]),
        quick: 5_000,
        rule: "the rounds returned to the same state (or the image was one of another release) and something was written or removed in them",
        nontrivial: |s| s.lab("cyclic") + s.lab("owners") >= 1 && s.lab("wrote") + s.oks("rm_file") + s.oks("rm_rec") + s.oks("rename") + s.oks("set_size") >= 1,
        ignores: &[],
    }
}

fn c10() -> Prop {
    let g = G { names: 6, badfd: 3, odd: 4, wild: 3, far: 4, ..G::default() };
    let mut w: Vec<(u32, S<Op>)> = vec![(20, weighted(g.namespace())), (20, weighted(g.data()))];
    w.extend(wops(
        &[("set_meta_bad", 1), ("node_meta", 1), ("renumber", 1), ("tell", 2), ("set_limit", 3), ("set_times", 3), ("set_meta", 3), ("get_meta", 2), ("get_stat", 1), ("set_stat", 1), ("get_entry", 1), ("mount", 3), ("unmount", 2), ("init", 2), ("store", 2), ("mem_write", 1), ("mem_grow", 1), ("misc", 1), ("seek_x", 1), ("set_size", 5), ("open_trunc", 2), ("list", 3), ("warm", 3)],
        &g,
    ));
    w.push((1, (g.file(), g.pos_extreme()).prop_map(|(fd, pos)| Op::SetSize { fd, pos }).boxed()));
    w.push((1, (g.file(), g.pos_extreme(), any::<u32>()).prop_map(|(fd, p, seed)| Op::Write { fd, lens: vec![Len::Abs(100)], at: Some(p), seed, plain: false }).boxed()));
    w.push((1, (g.file(), g.lens(), g.pos_extreme()).prop_map(|(fd, lens, p)| Op::Read { fd, lens, at: Some(p), plain: false }).boxed()));
    let cfgs = (any::<bool>(), 0u8..5, 0u8..5, prop_oneof![14 => Just(0u8), 1 => (0u8..32).prop_map(|k| k * 8)]).prop_map(|(v, a, b, age)| {
        let mk = |backend, chunk| Config { backend, chunk, start: None, extra: 0, age: 0 };
        let mut c = vec![mk(Backend::Transient, 0), Config { age, ..mk(Backend::V2, a) }, mk(Backend::V1, 0)];
        if v && a != b {
            c.push(mk(Backend::V2, b));
        }
        c
    });
    Prop {
        cases: (cfgs, seq(small_tree(), w, 5..60), weighted(vec![(50, none()), (1, any_v(vec![(2, g.crowd(1)), (1, g.vast(1)), (1, g.horde(1))]))]), any::<u16>())
            .prop_map(|(cfgs, mut ops, mut big, at)| {
                // (the transient storage has no restart)
                big.retain(|o| !matches!(o, Op::Restart { .. }));
                let at = at as usize % (ops.len() + 1);
                ops.splice(at..at, big);
                Case::Diff { cfgs, ops }
            })
            .boxed(),
        quick: 14_000,
        rule: "at least five calls succeeded, one was refused and something was written",
        nontrivial: |s| s.ok.values().sum::<u32>() >= 5 && s.err.values().sum::<u32>() >= 1 && s.lab("wrote") >= 1,
        ignores: &[],
    }
}

fn c17() -> Prop {
    let g = G { names: 4, odd: 0, badfd: 0, ..G::default() };
    let mut w: Vec<(u32, S<Op>)> = vec![(16, weighted(g.namespace())), (24, weighted(g.data()))];
    w.extend(wops(&[("set_times", 1), ("set_limit", 1), ("mount", 1), ("unmount", 1), ("store", 1), ("mem_write", 1), ("set_size", 3), ("rm_rec", 2), ("chunk_type", 1), ("warm", 1), ("cold", 1), ("chunk_size", 1)], &g));
    let w = weighted(w);
    let start = prop_oneof![2 => select(vec![0u8, 1, 10, 219, 229, 243, 244]), 3 => 0u8..=244].boxed();
    let gap = prop_oneof![4 => Just(0u8), 2 => 1u8..4, 2 => 0u8..200].boxed();
    let conf = (start, gap, any::<bool>(), prop_oneof![1 => Just(Backend::V1), 3 => Just(Backend::V2)], prop_oneof![1 => Just(Backend::V1), 3 => Just(Backend::V2)], 0u8..5, 0u8..5, vec((0u8..=4, any::<bool>(), any::<bool>(), 0u8..=254), 0..6), select(vec![1u16, 2, 8, 128]))
        .prop_map(|(sa, gap, up, ba, bb, ca, cb, fo, bucket)| {
            let hi = sa as u32 + 10 + gap as u32;
            let lo = sa as i32 - 10 - gap as i32;
            let sb = if up && hi <= 244 {
                hi as u8
            } else if lo >= 0 {
                lo as u8
            } else {
                (sa as u32 + 10).min(244) as u8
            };
            let out = |x: i32| (0..=254).contains(&x) && !(sa as i32..sa as i32 + 10).contains(&x) && !(sb as i32..sb as i32 + 10).contains(&x);
            let mut foreign: Vec<u8> = fo
                .into_iter()
                .filter_map(|(d, first, above, any)| {
                    let s = if first { sa } else { sb } as i32;
                    let x = if d == 4 { any as i32 } else if above { s + 10 + d as i32 } else { s - 1 - d as i32 };
                    out(x).then_some(x as u8)
                })
                .collect();
            foreign.sort();
            foreign.dedup();
            (Config { backend: ba, chunk: ca, start: Some(sa), extra: if gap % 5 == 1 { gap } else { 0 }, age: 0 }, Config { backend: bb, chunk: cb, start: Some(sb), extra: if gap % 7 == 2 { 200 } else { 0 }, age: 0 }, foreign, bucket)
        })
        .boxed();
    let mop = prop_oneof![
        10 => w.clone().prop_map(MOp::A),
        10 => w.prop_map(MOp::B),
        2 => (any::<u8>(), 1u8..4).prop_map(|(f, p)| MOp::Grow(f, p)),
        3 => (any::<u8>(), any::<u32>(), 1u16..3000, any::<u32>()).prop_map(|(f, off, len, seed)| MOp::Put { f, off, len, seed }),
        1 => Just(MOp::Restart),
        2 => Just(MOp::Check),
    ];
    Prop {
        cases: (conf, vec(mop, 6..70)).prop_map(|((a, b, foreign, bucket), ops)| Case::Multi(Multi { a, b, slack: 0, bucket, foreign, ops })).boxed(),
        quick: 25_000,
        rule: "both file systems were changed at least twice",
        nontrivial: |s| s.lab("both_changed") >= 1,
        ignores: &[],
    }
}

/// An image another release left, and calls on it.
fn legacy(w: S<Op>) -> S<Case> {
    legacy_with(O, w)
}
fn legacy_with(opts: Opts, w: S<Op>) -> S<Case> {
    let time = || prop_oneof![3 => 0u64..1000, 1 => any::<u64>()];
    let part = (prop_oneof![2 => Just(0u32), 2 => (0u32..70).prop_map(|k| k * 4096), 2 => 0u32..20_000, 1 => any::<u32>()], prop_oneof![3 => 1u16..300, 2 => 1u16..9000, 1 => Just(4096u16)], any::<u32>());
    let node = (
        (any::<u8>(), prop_oneof![6 => 0u16..8, 3 => 0u16..70], proptest::bool::weighted(0.35)),
        (vec(part, 0..4), prop_oneof![3 => Just(0u32), 2 => any::<u32>()], any::<bool>(), any::<bool>()),
        (time(), time(), time()),
        (proptest::option::weighted(0.25, (any::<u8>(), 0u16..8)), proptest::option::weighted(0.2, any::<u32>()), proptest::option::weighted(0.2, any::<u32>()), prop_oneof![3 => Just(0u8), 1 => any::<u8>()], proptest::bool::weighted(0.3)),
    )
        .prop_map(|((parent, name, dir), (parts, extra, v2, typed), times, (link, mounted, limit, gap, newer))| LNode { parent, name, dir, parts, extra, v2, typed, times, link, mounted, limit, gap, newer });
    let journal = (any::<u16>(), prop_oneof![6 => 0u32..300_000, 1 => Just(0u32), 1 => any::<u32>()], 0u8..6);
    let wide = (any::<u8>(), weighted(vec![(30, (1u16..60).boxed()), (8, (60u16..400).boxed()), (1, (1000u16..6000).boxed())]));
    let jump = (any::<u8>(), prop_oneof![2 => (1u32..32, -2i64..=2).prop_map(|(s, d)| (1u32 << s).wrapping_add_signed(d as i32)), 1 => any::<u32>(), 1 => 30u32..2000].prop_map(|x| x.min(u32::MAX - 40_000)));
    let opt = proptest::option::weighted::<S<(u8, u16)>>;
    (cfg_stable(), 0u8..4, select(vec![0u16, 1, 16, 128]), vec(node, 1..14), vec(w, 0..40), proptest::option::weighted(0.35, journal), opt(0.1, wide.boxed()), proptest::option::weighted(0.15, jump))
        .prop_map(move |(cfg, variant, bucket, nodes, ops, journal, wide, jump)| Case::Legacy(Legacy { cfg, variant, bucket, nodes, opts, ops, journal, wide, jump }))
        .boxed()
}

fn c20() -> Prop {
    let g = G { names: 8, odd: 0, badfd: 0, wild: 1, ..G::default() };
    let mut w = g.everything();
    w.extend(wops(&[("restart", 5), ("cold", 2), ("warm", 2), ("mount", 3), ("unmount", 2), ("open_old", 14), ("open_trunc", 3), ("set_size", 8), ("read", 6), ("write", 8), ("rm_file", 3), ("rm_rec", 2), ("link", 3), ("rename", 4), ("list", 3)], &g));
    let w = weighted(w);
    Prop {
        cases: legacy(w),
        quick: 24_000,
        rule: "at least one later call changed the opened image",
        nontrivial: |s| s.lab("changes") >= 1,
        ignores: &[],
    }
}

fn c27() -> Prop {
    let g = G { names: 4, ..G::default() };
    let mut w = g.everything();
    w.extend(wops(&[("restart", 2), ("chunk_size", 1)], &g));
    let w = weighted(w);
    let ver = prop_oneof![3 => select(vec![0u32, 2, 3, 10, 257, 65537, u32::MAX]), 2 => any::<u32>()].prop_map(Damage::Version);
    let mark = prop_oneof![
        2 => any::<[u8; 8]>(),
        2 => select(vec![*b"FSA2\0\0\0\0", *b"FSA0\0\0\0\0", *b"ALO2\0\0\0\0", *b"FSJ1\0\0\0\0", *b"BTR\x01\0\0\0\0", [0u8; 8], *b"FSB1\0\0\0\0", *b"fsa1\0\0\0\0", *b"1ASF\0\0\0\0"]),
    ]
    .prop_map(Damage::Marker);
    let range = prop_oneof![
        4 => (-12i16..12, 0u8..10).prop_map(|(a, b)| Damage::Range(a, b)),
        1 => (0i16..255, 0u8..10).prop_map(|(a, b)| Damage::Range(a, b)),
        1 => (240i16..255, any::<u8>()).prop_map(|(a, b)| Damage::Range(a, b)),
        2 => (-12i16..12, Just(9u8)).prop_map(|(a, b)| Damage::Range(a, b)),
        1 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Damage::Reversed(a, b)),
        1 => prop_oneof![1 => 0u8..=245, 1 => 240u8..=245].prop_map(Damage::End),
    ];
    let chunk = prop_oneof![
        2 => any::<u64>(),
        2 => 1u64..100_000,
        2 => select(vec![4096u64, 8192, 16384, 32768, 65536]).prop_flat_map(|n| select(vec![n - 1, n + 1, n << 32, n | 1 << 32, n * 2 + n, n << 5, n / 16])),
    ]
    .prop_map(Damage::Chunk);
    let d = prop_oneof![2 => ver, 2 => mark, 1 => chunk, 3 => range];
    Prop {
        cases: (cfg_stable(), seq(small_tree(), vec![(1, w.clone())], 0..25), vec((d, vec(w, 0..6)), 1..6))
            .prop_map(|(cfg, ops, damage)| Case::Refuse(Refuse { cfg, ops, damage }))
            .boxed(),
        quick: 14_000,
        rule: "an opening was refused on a file system with at least two changes",
        nontrivial: |s| s.lab("refused") >= 1 && s.lab("changes") >= 2,
        ignores: &[],
    }
}

fn c26() -> Prop {
    let byte = || prop_oneof![3 => Just(b'a'), 2 => Just(0u8), 1 => Just(255u8), 2 => any::<u8>()];
    let len = || prop_oneof![2 => 0usize..4, 2 => 250usize..=256, 2 => 0usize..=256, 1 => Just(255usize)];
    // near relatives of one name
    let names = (len().prop_flat_map(move |n| vec(byte(), n)), vec((0u8..8, any::<u16>(), any::<u8>()), 0..4)).prop_map(|(base, m)| {
        let mut v = vec![base.clone()];
        for (what, at, b) in m {
            let mut x = v[at as usize % v.len()].clone();
            let k = at as usize % x.len().max(1);
            match what {
                0 => x.push(b),
                1 => x.push(0),
                2 => {
                    x.pop();
                }
                3 if !x.is_empty() => x[k] ^= 0x80,
                4 if !x.is_empty() => x[k] = b,
                5 => x.truncate(k),
                6 if !x.is_empty() => *x.last_mut().unwrap() = b,
                _ => {}
            }
            v.push(x);
        }
        Enc::Names(v)
    });
    let num = || prop_oneof![2 => 0u64..30, 1 => select(vec![255u64, 256, 65535, 65536, u32::MAX as u64, 1 << 32, u64::MAX - 1, u64::MAX, 1 << 63]), 2 => any::<u64>()].boxed();
    let spec = move || {
        ((num(), any::<u8>(), num(), num()), (num(), num(), num()), proptest::option::of(any::<u32>()), proptest::option::of(any::<u32>()), proptest::option::of(any::<bool>()), proptest::option::of(num()), (any::<u8>(), any::<u8>(), any::<u8>(), any::<u32>()))
            .prop_map(|((node, kind, links, size), times, first, last, chunk, limit, (omit, rot, extra, version))| RecSpec { node, kind, links, size, times, first, last, chunk, limit, omit, rot, extra, version })
    };
    let e = prop_oneof![
        6 => names,
        6 => spec().prop_map(Enc::Meta),
        6 => (len().prop_flat_map(move |n| vec(byte(), n)), spec()).prop_map(|(n, s)| Enc::Entry(n, s)),
        2 => spec().prop_map(Enc::Head),
        2 => vec((any::<u16>(), any::<u8>()), 0..20).prop_map(Enc::Chunk),
        2 => any::<u8>().prop_map(Enc::Codes),
        3 => (proptest::option::of(prop_oneof![2 => (0u64..8, -1i64..=1).prop_map(|(k, d)| (k * 65536).saturating_add_signed(d)), 1 => 0u64..500_000, 1 => any::<u64>()]), prop_oneof![3 => 0u64..8, 1 => 0u64..(1 << 40)], num()).prop_map(|(prev, pages, explicit)| Enc::Policy { prev, pages, explicit }),
    ];
    Prop {
        cases: vec(e, 1..24).prop_map(Case::Enc).boxed(),
        quick: 60_000,
        rule: "names that differ little were compared, or a record without some optional field was decoded",
        nontrivial: |s| s.lab("near_names") + s.lab("omitted") >= 1,
        ignores: &[],
    }
}
