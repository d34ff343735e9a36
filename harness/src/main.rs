//! Bounded checks of the real avdl crate through its public API and binary:
//! random cases judged by oracles written without reference to its code.
mod canon;
mod generate;
mod model;
mod negative;
mod print;
mod props;
mod rng;
mod run;

use std::collections::HashSet;
use std::path::PathBuf;
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::time::{Duration, Instant};

fn arg(name: &str, default: &str) -> String {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1)).cloned().unwrap_or(default.to_string())
}
fn main() {
    let cmd = std::env::args().nth(1).unwrap_or_default();
    let prop = std::env::args().nth(2).unwrap_or_default();
    if cmd == "convert" {
        // harness convert FILE: the result for one file, as JSON.
        std::panic::set_hook(Box::new(|_| {}));
        let r = std::panic::catch_unwind(|| {
            let mut b = avdl::Idl::new();
            match b.convert(&prop) {
                Ok(o) => serde_json::json!({"ok": o.json, "warnings": o.warnings.iter().map(run::message).collect::<Vec<_>>()}),
                Err(e) => serde_json::json!({"err": run::message(&e), "warnings": b.drain_warnings().iter().map(run::message).collect::<Vec<_>>()}),
            }
        });
        println!("{}", r.unwrap_or(serde_json::json!({"panic": true})));
        return;
    }
    if !props::ALL.contains(&prop.as_str()) {
        eprintln!("usage: harness run|one PROPERTY [--seed N] [--cases N] [--secs N] [--threads N] [--index N] [--scratch DIR] [--bin AVDL] [--replays DIR] [--tier T]");
        std::process::exit(2);
    }
    let seed: u64 = arg("--seed", "1").parse().unwrap();
    let scratch = PathBuf::from(arg("--scratch", "/tmp/avdl-harness")).join(std::process::id().to_string());
    let bin = Some(arg("--bin", "")).filter(|s| !s.is_empty()).map(PathBuf::from);
    let thorough = arg("--tier", "quick") == "thorough";
    std::panic::set_hook(Box::new(|_| {}));
    let code = match cmd.as_str() {
        "one" => {
            let idx: u64 = arg("--index", "0").parse().unwrap();
            let ctx = run::Ctx { dir: scratch.join("t0"), bin, thorough };
            let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || props::run(&prop, seed, idx, &ctx)).unwrap();
            let o = h.join().expect("the harness itself panicked");
            for (p, t) in &o.files {
                println!("===== {p}\n{t}");
            }
            println!("===== {}", o.note);
            for f in &o.fails {
                println!("FAIL {f}");
            }
            !o.fails.is_empty() as i32
        }
        "run" => sweep(&prop, seed, &scratch, bin, thorough),
        _ => 2,
    };
    let _ = std::fs::remove_dir_all(&scratch);
    std::process::exit(code);
}

fn sweep(prop: &str, seed: u64, scratch: &std::path::Path, bin: Option<PathBuf>, thorough: bool) -> i32 {
    let cases: u64 = arg("--cases", "2000").parse().unwrap();
    let secs: u64 = arg("--secs", "60").parse().unwrap();
    let threads: u64 = arg("--threads", "8").parse().unwrap();
    let max_fail: usize = arg("--max-fail", "5").parse().unwrap();
    let replays = PathBuf::from(arg("--replays", "/tmp/avdl-replays"));
    let start = Instant::now();
    let next = AtomicU64::new(0);
    let done = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let keys: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
    let fails: Mutex<Vec<serde_json::Value>> = Mutex::new(vec![]);
    let samples: Mutex<Vec<serde_json::Value>> = Mutex::new(vec![]);
    // What each thread is doing, for a watchdog and for crashes.
    let cur: Vec<(AtomicU64, AtomicU64)> = (0..threads).map(|_| (AtomicU64::new(u64::MAX), AtomicU64::new(0))).collect();
    std::fs::create_dir_all(scratch).unwrap();
    std::thread::scope(|s| {
        for t in 0..threads {
            let (next, done, stop, keys, fails, samples, cur) = (&next, &done, &stop, &keys, &fails, &samples, &cur);
            let ctx = run::Ctx { dir: scratch.join(format!("t{t}")), bin: bin.clone(), thorough };
            let curfile = std::fs::OpenOptions::new().create(true).truncate(true).write(true).open(scratch.join(format!("current-{t}"))).unwrap();
            let replays = replays.clone();
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, move || {
                    use std::os::unix::fs::FileExt;
                    loop {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= cases || stop.load(Ordering::Relaxed) || start.elapsed().as_secs() >= secs {
                            break;
                        }
                        cur[t as usize].1.store(start.elapsed().as_millis() as u64, Ordering::Relaxed);
                        cur[t as usize].0.store(i, Ordering::Relaxed);
                        let _ = curfile.write_all_at(format!("{i:020}").as_bytes(), 0);
                        let o = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| props::run(prop, seed, i, &ctx))) {
                            Ok(o) => o,
                            Err(e) => {
                                let m = e.downcast_ref::<String>().cloned().unwrap_or_else(|| e.downcast_ref::<&str>().unwrap_or(&"?").to_string());
                                eprintln!("HARNESS-ERROR {prop} case {i}: {m}");
                                continue;
                            }
                        };
                        done.fetch_add(1, Ordering::Relaxed);
                        if o.nontrivial {
                            keys.lock().unwrap().insert(run::hash(&o.files));
                        }
                        if i < 3 {
                            let mut t: String = o.files.iter().map(|(p, t)| format!("--- {p}\n{t}\n")).collect();
                            t = t.chars().take(900).collect();
                            samples.lock().unwrap().push(serde_json::json!({"index": i, "note": o.note, "input": t}));
                        }
                        if !o.fails.is_empty() {
                            let mut f = fails.lock().unwrap();
                            if f.len() < max_fail {
                                std::fs::create_dir_all(&replays).unwrap();
                                let path = replays.join(format!("{prop}-{seed}-{i}.json"));
                                let v = serde_json::json!({
                                    "property": prop, "seed": seed, "index": i, "note": o.note, "fails": o.fails,
                                    "files": o.files.iter().map(|(p, t)| serde_json::json!({"path": p, "text": t})).collect::<Vec<_>>(),
                                    "rerun": format!("harness one {prop} --seed {seed} --index {i}"),
                                });
                                std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).unwrap();
                                f.push(serde_json::json!({"index": i, "replay": path, "fails": o.fails}));
                            }
                            if f.len() >= max_fail {
                                stop.store(true, Ordering::Relaxed);
                            }
                        }
                    }
                    cur[t as usize].0.store(u64::MAX, Ordering::Relaxed);
                })
                .unwrap();
        }
        // Watchdog: one case takes milliseconds.
        let (cur, fails, stop, done, keys) = (&cur, &fails, &stop, &done, &keys);
        let _ = stop;
        let replays = replays.clone();
        s.spawn(move || {
            loop {
                std::thread::sleep(Duration::from_millis(20));
                let now = start.elapsed().as_millis() as u64;
                let mut busy = false;
                for (i, at) in cur.iter() {
                    let i = i.load(Ordering::Relaxed);
                    if i != u64::MAX {
                        busy = true;
                        if now.saturating_sub(at.load(Ordering::Relaxed)) > 60_000 {
                            std::fs::create_dir_all(&replays).unwrap();
                            let path = replays.join(format!("{prop}-{seed}-{i}.json"));
                            let v = serde_json::json!({"property": prop, "seed": seed, "index": i, "fails": ["no answer within 60 s"],
                                "rerun": format!("harness one {prop} --seed {seed} --index {i}")});
                            std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).unwrap();
                            fails.lock().unwrap().push(serde_json::json!({"index": i, "replay": path, "fails": ["no answer within 60 s"]}));
                            println!(
                                "{}",
                                serde_json::json!({"property": prop, "evaluations": done.load(Ordering::Relaxed), "distinct": keys.lock().unwrap().len(),
                                    "samples": [], "violations": *fails.lock().unwrap(), "wall_s": start.elapsed().as_secs_f64()})
                            );
                            std::process::exit(1);
                        }
                    }
                }
                if !busy && now > 200 {
                    break;
                }
            }
        });
    });
    let mut v = fails.into_inner().unwrap();
    v.sort_by_key(|x| x["index"].as_u64());
    println!(
        "{}",
        serde_json::json!({"property": prop, "evaluations": done.load(Ordering::Relaxed), "distinct": keys.into_inner().unwrap().len(),
            "samples": samples.into_inner().unwrap(), "violations": v, "wall_s": start.elapsed().as_secs_f64()})
    );
    !v.is_empty() as i32
}
