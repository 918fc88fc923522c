//! Drives the generators, shrinks failures, writes replays and evidence.
use crate::case::{Case, run_case};
use crate::engine::{Cat, CaseStats, Div};
use crate::props::{Prop, prop};
use proptest::strategy::{Strategy, ValueTree};
use proptest::test_runner::{Config as PtConfig, RngAlgorithm, TestRng, TestRunner};
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub divergence: Option<Div>,
    pub case: Case,
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}


pub fn run_caught(c: &Case) -> (CaseStats, Result<(), Div>) {
    match catch_unwind(AssertUnwindSafe(|| run_case(c))) {
        Ok(x) => x,
        Err(_) => {
            let (loc, msg) = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            let own = ["src/model.rs", "src/bytes.rs", "src/generate.rs", "src/runner.rs", "src/props.rs", "src/ops.rs"];
            let cat = if own.iter().any(|f| loc.starts_with(f)) { Cat::Harness } else { Cat::Panic };
            (CaseStats::default(), Err(Div { cat, step: 0, op: "?".into(), detail: format!("panic at {loc}: {msg}") }))
        }
    }
}

fn claimed(p: &Prop, d: &Div) -> bool {
    !p.ignores.contains(&d.cat)
}

fn seed_bytes(seed: u64, id: &str, shard: u64) -> [u8; 32] {
    let mut out = [0u8; 32];
    for k in 0..4u64 {
        // FNV-1a then splitmix
        let mut h = 0xcbf29ce484222325u64 ^ k.wrapping_mul(0x9E3779B97F4A7C15);
        for b in seed.to_le_bytes().iter().chain(id.as_bytes()).chain(&shard.to_le_bytes()) {
            h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
        }
        h = (h ^ (h >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        h = (h ^ (h >> 27)).wrapping_mul(0x94D049BB133111EB);
        out[k as usize * 8..][..8].copy_from_slice(&(h ^ (h >> 31)).to_le_bytes());
    }
    out
}

pub struct Args {
    pub id: String,
    pub tier: String,
    pub seed: u64,
    pub secs: u64,
    pub scale: f64,
    pub out: PathBuf,
    pub evidence: Option<PathBuf>,
    pub threads: usize,
    pub record: bool,
    /// keep going and histogram the divergences (development)
    pub survey: bool,
}

#[derive(Default)]
struct Totals {
    evals: u64,
    distinct: HashSet<u64>,
    distinct_nt: u64,
    foreign: u64,
    skipped: u64,
    ok: BTreeMap<&'static str, u64>,
    err: BTreeMap<&'static str, u64>,
    label: BTreeMap<&'static str, u64>,
    samples: Vec<String>,
    survey: BTreeMap<String, (u64, String)>,
}

/// Processor time one case may take (the slowest take a fraction of a second).
const CPU_LIMIT: Duration = Duration::from_secs(60);
const SHRINK_LIMIT: Duration = Duration::from_secs(100);
const RSS_LIMIT: u64 = 20 << 30;

fn rss() -> u64 {
    std::fs::read_to_string("/proc/self/statm")
        .ok()
        .and_then(|s| s.split_whitespace().nth(1).and_then(|x| x.parse::<u64>().ok()))
        .map(|p| p * 4096)
        .unwrap_or(0)
}

/// Processor time a thread of this process has used.
fn cpu_of(tid: &str) -> Option<Duration> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/schedstat")).ok()?;
    Some(Duration::from_nanos(s.split_whitespace().next()?.parse().ok()?))
}
fn own_tid() -> String {
    std::fs::read_link("/proc/thread-self").ok().and_then(|p| p.file_name().map(|f| f.to_string_lossy().into_owned())).unwrap_or_default()
}

fn sample_text(c: &Case) -> String {
    let s = c.describe();
    if s.len() > 1200 {
        let mut k = 1200;
        while !s.is_char_boundary(k) {
            k -= 1;
        }
        format!("{}... ({} characters)", &s[..k], s.len())
    } else {
        s
    }
}

pub fn write_replay(a: &Args, r: &Replay) -> PathBuf {
    std::fs::create_dir_all(&a.out).unwrap();
    let body = serde_json::to_string_pretty(r).unwrap();
    let mut h = std::collections::hash_map::DefaultHasher::new();
    body.hash(&mut h);
    let p = a.out.join(format!("{}-{:08x}.json", a.id, h.finish() as u32));
    std::fs::write(&p, body).unwrap();
    p
}

pub fn report(a: &Args, d: &Div, case: &Case) {
    let r = Replay { property: a.id.clone(), divergence: Some(d.clone()), case: case.clone() };
    let p = write_replay(a, &r);
    println!("{:?} at step {} ({}): {}", d.cat, d.step, d.op, d.detail);
    let mut t = case.describe();
    if t.len() > 6000 {
        t = sample_text(case);
    }
    println!("case: {t}");
    println!("VIOLATION property={} replay={}", a.id, p.display());
}

fn shrink(p: &Prop, tree: &mut Box<dyn ValueTree<Value = Case>>, first: Div, known: &Known) -> (Div, Case) {
    let t0 = Instant::now();
    let mut best = (first, tree.current());
    if !tree.simplify() {
        return best;
    }
    loop {
        if t0.elapsed() > Duration::from_secs(40) {
            return best;
        }
        let c = tree.current();
        let (_, r) = run_caught(&c);
        let more = match r {
            Err(d) if d.cat != Cat::Harness && claimed(p, &d) && known.matches(&d).is_none() => {
                best = (d, c);
                tree.simplify()
            }
            _ => tree.complicate(),
        };
        if !more {
            return best;
        }
    }
}

/// Known findings: lines `known property=<id> cat=<Cat> op=<substring> detail=<substring> :: text`
pub struct Known(pub Vec<(String, String, String, String)>);
impl Known {
    pub fn load(id: &str) -> Known {
        let mut v = vec![];
        let path = concat!(env!("CARGO_MANIFEST_DIR"), "/../known-findings.txt");
        for l in std::fs::read_to_string(path).unwrap_or_default().lines() {
            let Some(rest) = l.strip_prefix("known: property=") else { continue };
            let f: Vec<&str> = rest.split(" | ").collect();
            if f.len() == 5 && f[0] == id {
                v.push((f[1].to_string(), f[2].to_string(), f[3].to_string(), f[4].to_string()));
            }
        }
        Known(v)
    }
    pub fn matches(&self, d: &Div) -> Option<&str> {
        self.0
            .iter()
            .find(|(c, o, t, _)| format!("{:?}", d.cat) == *c && d.op.contains(o.as_str()) && d.detail.contains(t.as_str()))
            .map(|x| x.3.as_str())
    }
}

/// Exit code of the check.
pub fn check(a: &Args) -> i32 {
    let t0 = Instant::now();
    let p0 = prop(&a.id);
    let shards = 64u64;
    let total = ((p0.quick as f64) * a.scale) as u64;
    let per = total.div_ceil(shards).max(1);
    let rule = p0.rule;
    drop(p0);
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let failed: Mutex<Option<(Div, Case)>> = Mutex::new(None);
    let broken: Mutex<Option<String>> = Mutex::new(None);
    let tot: Mutex<Totals> = Mutex::new(Totals::default());
    // what each thread is at: number of the case, case
    let current: Vec<Mutex<(String, u64, Option<Case>)>> = (0..a.threads).map(|_| Mutex::new((String::new(), 0, None))).collect();
    let shrinking: Mutex<Option<(Instant, Div, Case)>> = Mutex::new(None);
    let done = Arc::new(AtomicBool::new(false));
    let known = Known::load(&a.id);
    let deadline = t0 + Duration::from_secs(a.secs);
    std::thread::scope(|s| {
        let mut hs = vec![];
        for t in 0..a.threads {
            let (next, stop, failed, broken, tot, current, known, shrinking) = (&next, &stop, &failed, &broken, &tot, &current, &known, &shrinking);
            hs.push(
                std::thread::Builder::new()
                    .stack_size(256 << 20)
                    .spawn_scoped(s, move || {
                        let p = prop(&a.id);
                        current[t].lock().unwrap().0 = own_tid();
                        let mut local = Totals::default();
                        'shards: loop {
                            let k = next.fetch_add(1, Ordering::SeqCst);
                            if k >= shards {
                                break;
                            }
                            let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes(a.seed, &a.id, k));
                            let cfg = PtConfig { failure_persistence: None, ..PtConfig::default() };
                            let mut runner = TestRunner::new_with_rng(cfg, rng);
                            for _ in 0..per {
                                if stop.load(Ordering::Relaxed) || Instant::now() > deadline {
                                    break 'shards;
                                }
                                let mut tree: Box<dyn ValueTree<Value = Case>> = match p.cases.new_tree(&mut runner) {
                                    Ok(t) => Box::new(t),
                                    Err(e) => {
                                        *broken.lock().unwrap() = Some(format!("generator: {e}"));
                                        stop.store(true, Ordering::SeqCst);
                                        break 'shards;
                                    }
                                };
                                let c = tree.current();
                                let mut h = std::collections::hash_map::DefaultHasher::new();
                                c.hash(&mut h);
                                let hash = h.finish();
                                if a.record {
                                    let _ = std::fs::create_dir_all(&a.out);
                                    let r = Replay { property: a.id.clone(), divergence: None, case: c.clone() };
                                    let _ = std::fs::write(a.out.join(format!("{}-cur-{t}.json", a.id)), serde_json::to_string(&r).unwrap());
                                }
                                {
                                    let mut g = current[t].lock().unwrap();
                                    g.1 += 1;
                                    g.2 = Some(c.clone());
                                }
                                let (st, r) = run_caught(&c);
                                current[t].lock().unwrap().2 = None;
                                local.evals += 1;
                                let nt = (p.nontrivial)(&st);
                                if local.distinct.insert(hash) && nt {
                                    local.distinct_nt += 1;
                                    if local.samples.is_empty() && local.evals > 3 {
                                        local.samples.push(sample_text(&c));
                                    }
                                }
                                for (m, o) in [(&mut local.ok, &st.ok), (&mut local.err, &st.err), (&mut local.label, &st.label)] {
                                    for (k, v) in o {
                                        *m.entry(k).or_default() += *v as u64;
                                    }
                                }
                                local.skipped += st.skipped as u64;
                                if let Err(d) = r {
                                    if d.cat == Cat::Harness {
                                        *broken.lock().unwrap() = Some(format!("{d:?}\n{}", c.describe()));
                                        stop.store(true, Ordering::SeqCst);
                                        break 'shards;
                                    }
                                    if a.survey {
                                        let words: Vec<String> = d.detail.chars().map(|c| if c.is_ascii_digit() { '#' } else { c }).collect::<String>().replace("##", "#").replace("##", "#").replace("##", "#").split(' ').take(14).map(|s| s.to_string()).collect();
                                        let key = format!("{:?} {} :: {}", d.cat, d.op.split([' ', '{']).next().unwrap_or(""), words.join(" "));
                                        let e = local.survey.entry(key).or_default();
                                        e.0 += 1;
                                        if e.0 == 1 {
                                            let (d, c) = shrink(&p, &mut tree, d, known);
                                            e.1 = format!("{:?} at {} {} :: {} -- {}", d.cat, d.step, d.op, d.detail, sample_text(&c));
                                        }
                                        continue;
                                    }
                                    if let Some(_t) = known.matches(&d) {
                                        local.foreign += 1;
                                        continue;
                                    }
                                    if !claimed(&p, &d) {
                                        local.foreign += 1;
                                        continue;
                                    }
                                    if !stop.swap(true, Ordering::SeqCst) {
                                        *shrinking.lock().unwrap() = Some((Instant::now(), d.clone(), c.clone()));
                                        *failed.lock().unwrap() = Some(shrink(&p, &mut tree, d, known));
                                        *shrinking.lock().unwrap() = None;
                                    }
                                    break 'shards;
                                }
                            }
                        }
                        let mut g = tot.lock().unwrap();
                        g.evals += local.evals;
                        for h in local.distinct {
                            g.distinct.insert(h);
                        }
                        g.distinct_nt += local.distinct_nt;
                        g.foreign += local.foreign;
                        g.skipped += local.skipped;
                        for (k, v) in local.ok {
                            *g.ok.entry(k).or_default() += v;
                        }
                        for (k, v) in local.err {
                            *g.err.entry(k).or_default() += v;
                        }
                        for (k, v) in local.label {
                            *g.label.entry(k).or_default() += v;
                        }
                        g.samples.extend(local.samples);
                        for (k, v) in local.survey {
                            let e = g.survey.entry(k).or_insert((0, v.1.clone()));
                            e.0 += v.0;
                        }
                    })
                    .unwrap(),
            );
        }
        // watchdog
        let done2 = done.clone();
        let current = &current;
        let shrinking = &shrinking;
        s.spawn(move || {
            // case number and processor time at which it was first seen
            let mut seen: Vec<(u64, Option<Duration>)> = vec![(0, None); current.len()];
            while !done2.load(Ordering::Relaxed) {
                std::thread::sleep(Duration::from_millis(200));
                let big = rss() > RSS_LIMIT;
                let mut worst: Option<(Duration, Case)> = None;
                for (c, s) in current.iter().zip(&mut seen) {
                    let g = c.lock().unwrap();
                    let Some(case) = &g.2 else { continue };
                    let now = cpu_of(&g.0);
                    if s.0 != g.1 {
                        *s = (g.1, now);
                    }
                    let (Some(a), Some(b)) = (s.1, now) else { continue };
                    let used = b.saturating_sub(a);
                    if (used > CPU_LIMIT || big) && worst.as_ref().is_none_or(|w| used > w.0) {
                        worst = Some((used, case.clone()));
                    }
                }
                if let Some((t, d, c)) = &*shrinking.lock().unwrap()
                    && t.elapsed() > SHRINK_LIMIT
                {
                    report(a, d, c);
                    std::process::exit(1);
                }
                if let Some((t, c)) = worst {
                    let d = Div {
                        cat: Cat::Panic,
                        step: 0,
                        op: "?".into(),
                        detail: if big { "a call allocates without bound".into() } else { format!("a call does not return ({t:?} of processor time so far)") },
                    };
                    report(a, &d, &c);
                    std::process::exit(1);
                }
            }
        });
        for h in hs {
            let _ = h.join();
        }
        done.store(true, Ordering::SeqCst);
    });
    let tot = tot.into_inner().unwrap();
    if let Some(b) = broken.into_inner().unwrap() {
        eprintln!("HARNESS ERROR: {b}");
        return 3;
    }
    if a.survey {
        let mut v: Vec<_> = tot.survey.iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(x.1.0));
        for (k, (n, ex)) in v {
            println!("{n:6} {k}\n         e.g. {ex}");
        }
    }
    let failed = failed.into_inner().unwrap();
    let wall = t0.elapsed().as_secs_f64();
    println!(
        "{} {}: {} cases ({} distinct, {} of them non-trivial), {:.1} s",
        a.id,
        a.tier,
        tot.evals,
        tot.distinct.len(),
        tot.distinct_nt,
        wall
    );
    if a.survey || std::env::var("FSPROP_VERBOSE").is_ok() {
        println!("ok {:?}\nerr {:?}\nlabels {:?} skipped {} unclaimed {}", tot.ok, tot.err, tot.label, tot.skipped, tot.foreign);
    }
    if let Some(e) = &a.evidence {
        let mut samples: Vec<String> = tot.samples.iter().take(4).cloned().collect();
        if samples.is_empty() {
            samples.push("(none)".into());
        }
        let classes: BTreeMap<String, u64> = tot
            .ok
            .iter()
            .map(|(k, v)| (format!("{k} succeeded"), *v))
            .chain(tot.err.iter().map(|(k, v)| (format!("{k} refused"), *v)))
            .chain(tot.label.iter().map(|(k, v)| (k.to_string(), *v)))
            .collect();
        let j = serde_json::json!({
            "property": a.id,
            "tier": a.tier,
            "seed": a.seed,
            "level": "exploration",
            "coverage": {
                "evaluations": tot.evals,
                "distinct_nontrivial": tot.distinct_nt,
                "rule": rule,
                "samples": samples,
                "distinct": tot.distinct.len(),
                "unclaimed_divergences": tot.foreign,
                "operations": classes,
            },
            "assumptions": [
                "the reference model in harness/src/model.rs states the intended behaviour",
                "stable memory is a byte array that keeps what is written (mem.rs)",
            ],
            "wall_s": wall,
            "violations": if failed.is_some() { 1 } else { 0 },
        });
        if let Some(d) = e.parent() {
            let _ = std::fs::create_dir_all(d);
        }
        std::fs::write(e, serde_json::to_string_pretty(&j).unwrap()).expect("evidence");
    }
    for k in &known.0 {
        println!("KNOWN-FINDING: property={} {}", a.id, k.3);
    }
    if let Some((d, c)) = failed {
        report(a, &d, &c);
        return 1;
    }
    if tot.evals == 0 {
        eprintln!("HARNESS ERROR: no case was run");
        return 3;
    }
    0
}
