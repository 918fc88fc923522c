//! fsprop: property-based checks of stable-fs. See /verif/DESIGN.md.
mod bytes;
mod case;
mod enc;
mod engine;
mod generate;
mod mem;
mod model;
mod ops;
mod props;
mod runner;
mod special;

use runner::*;
use std::path::PathBuf;

fn main() {
    let v: Vec<String> = std::env::args().skip(1).collect();
    let get = |k: &str| v.iter().position(|x| x == k).and_then(|i| v.get(i + 1).cloned());
    install_hook();
    if let Some(f) = get("--replay") {
        let r: Replay = serde_json::from_str(&std::fs::read_to_string(&f).expect("replay file")).expect("replay format");
        let code = std::thread::Builder::new()
            .stack_size(256 << 20)
            .spawn(move || {
                println!("{}", r.case.describe());
                let (_, res) = run_caught(&r.case);
                match res {
                    Ok(()) => {
                        println!("the property holds on this case");
                        0
                    }
                    Err(d) => {
                        println!("{:?} at step {} ({}): {}", d.cat, d.step, d.op, d.detail);
                        println!("VIOLATION property={} replay={f}", r.property);
                        1
                    }
                }
            })
            .unwrap()
            .join()
            .unwrap_or(3);
        std::process::exit(code);
    }
    let Some(id) = v.first().cloned() else {
        eprintln!("usage: fsprop <property> --tier quick|thorough | fsprop --replay FILE");
        std::process::exit(2);
    };
    if !props::ALL.contains(&id.as_str()) {
        eprintln!("unknown property {id}");
        std::process::exit(2);
    }
    let tier = get("--tier").unwrap_or("quick".into());
    let thorough = tier == "thorough";
    let root = PathBuf::from(concat!(env!("CARGO_MANIFEST_DIR"), "/.."));
    let envn = |k: &str| std::env::var(k).ok().and_then(|s| s.parse::<f64>().ok());
    let survey = v.iter().any(|x| x == "--survey");
    let child = std::env::var("FSPROP_CHILD").ok();
    let out = get("--out").map(PathBuf::from).unwrap_or(root.join("out"));
    let a = Args {
        seed: envn("VERIF_SEED").unwrap_or(1.0) as u64,
        secs: envn("FSPROP_SECS").unwrap_or(if thorough { 720.0 } else { 240.0 }) as u64,
        scale: envn("FSPROP_SCALE").unwrap_or(if thorough { 80.0 } else { 4.0 }),
        evidence: if survey { None } else { Some(root.join("evidence").join(format!("{id}.json"))) },
        out,
        threads: envn("FSPROP_THREADS").map(|x| x as usize).unwrap_or_else(|| std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(8)),
        record: child.as_deref() == Some("record"),
        survey,
        id: id.clone(),
        tier,
    };
    if child.is_some() || survey {
        std::process::exit(check(&a));
    }
    // supervise: a stack overflow or abort ends only the child
    let exe = std::env::current_exe().unwrap();
    let run = |mode: &str| std::process::Command::new(&exe).args(&v).env("FSPROP_CHILD", mode).status().expect("child");
    let st = run("1");
    if let Some(c) = st.code()
        && c < 128
    {
        std::process::exit(c);
    }
    eprintln!("the process under test died ({st}); looking for the case");
    let _ = run("record");
    for t in 0..a.threads {
        let f = a.out.join(format!("{id}-cur-{t}.json"));
        if !f.exists() {
            continue;
        }
        let st = std::process::Command::new(&exe)
            .args(["--replay", f.to_str().unwrap()])
            .stdout(std::process::Stdio::null())
            .status()
            .expect("child");
        if st.code() == Some(0) || st.code() == Some(3) {
            continue;
        }
        let keep = a.out.join(format!("{id}-crash.json"));
        std::fs::copy(&f, &keep).unwrap();
        println!("the process dies on this case ({st})");
        println!("VIOLATION property={id} replay={}", keep.display());
        std::process::exit(1);
    }
    eprintln!("HARNESS ERROR: the crash did not recur");
    std::process::exit(3);
}
