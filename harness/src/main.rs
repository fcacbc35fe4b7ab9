//! zv: executes abstract cases (NDJSON, produced by the TLA+ generators) on async_zip and records traces (NDJSON)
//! which the TLA+ trace specification judges.  The harness itself never decides anything.
//!
//!   zv run  --cases F --out PREFIX --seed N --jobs J      supervisor; writes PREFIX.0 .. PREFIX.J-1
//!   zv worker ...                                         one shard (internal)
//! Exit 0: traces written (whatever they contain).  Exit 2: the harness itself is at fault.
mod alloc;
mod codec;
mod copy;
mod dates;
mod exec;
mod fams;
mod foreign;
mod io;
mod limits;
mod model;
mod rawzip;
mod reading;
mod util;
mod views;
mod writer;

use serde_json::{json, Value};
use std::fs::{File, OpenOptions};
use std::io::{BufRead, BufReader, Write};
use std::os::fd::AsRawFd;
use std::sync::atomic::Ordering;

#[global_allocator]
static METER: alloc::Meter = alloc::Meter;

fn opt(args: &[String], k: &str, d: &str) -> String {
    args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned().unwrap_or(d.into())
}
fn load(path: &str) -> Vec<Value> {
    BufReader::new(File::open(path).expect("harness: cases"))
        .lines()
        .map(|l| l.unwrap())
        .filter(|l| !l.trim().is_empty())
        .map(|l| serde_json::from_str(&l).expect("harness: case json"))
        .collect()
}

fn worker(args: &[String]) -> i32 {
    let cases = load(&opt(args, "--cases", ""));
    let seed: u64 = opt(args, "--seed", "1").parse().unwrap();
    let shard: usize = opt(args, "--shard", "0").parse().unwrap();
    let jobs: usize = opt(args, "--jobs", "1").parse().unwrap();
    let from: usize = opt(args, "--from", "0").parse().unwrap();
    let limit: u64 = opt(args, "--tmo", "120").parse().unwrap();
    let mut out = OpenOptions::new().create(true).append(true).open(opt(args, "--out", "")).expect("harness: trace");
    alloc::TRACE_FD.store(out.as_raw_fd(), Ordering::SeqCst);
    std::panic::set_hook(Box::new(|_| {}));
    exec::now_ms();
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(250));
        let t = exec::STARTED.load(Ordering::SeqCst);
        if t != 0 && exec::now_ms() > t + limit * 1000 {
            alloc::emergency(b"{\"e\":\"Hang\",\"why\":\"no result within the time limit\"}\n", 43);
        }
    });
    for (idx, case) in cases.iter().enumerate() {
        if idx % jobs != shard || idx < from {
            continue;
        }
        let id = case.get("idx").and_then(|x| x.as_u64()).unwrap_or(idx as u64);
        writeln!(out, "{}", json!({"e": "Begin", "sc": idx, "fam": util::s(case, "fam"), "case": id})).unwrap();
        // one at a time: it needs many GB
        let lock = (util::s(case, "fam") == "bigdir").then(|| {
            let f = File::create(format!("{}.lock", opt(args, "--cases", ""))).expect("harness: lock");
            f.lock().expect("harness: lock");
            f
        });
        exec::STARTED.store(exec::now_ms(), Ordering::SeqCst);
        let r = exec::guarded(|| fams::dispatch(case, seed, id));
        exec::STARTED.store(0, Ordering::SeqCst);
        drop(lock);
        let mut ev = fams::take_events();
        if let Err(m) = r {
            if m.contains("harness:") {
                eprintln!("case {idx}: {m}");
                return 3;
            }
            ev.push(json!({"e": "Panic", "why": m}));
        }
        let mut buf = String::new();
        for e in ev {
            buf.push_str(&e.to_string());
            buf.push('\n');
        }
        buf.push_str("{\"e\":\"End\"}\n");
        out.write_all(buf.as_bytes()).unwrap();
    }
    0
}

fn supervise(args: &[String]) -> i32 {
    let jobs: usize = opt(args, "--jobs", "8").parse().unwrap();
    let prefix = opt(args, "--out", "trace");
    let exe = std::env::current_exe().unwrap();
    let hs: Vec<_> = (0..jobs)
        .map(|j| {
            let args = args.to_vec();
            let exe = exe.clone();
            let path = format!("{prefix}.{j}");
            std::thread::spawn(move || {
                let _ = std::fs::remove_file(&path);
                File::create(&path).unwrap();
                let mut from = 0usize;
                // one hang or a few abnormal ends per shard are enough for a verdict: do not spend the time limit on more
                let mut hangs = 0;
                for _ in 0..20 {
                    let mut c = std::process::Command::new(&exe);
                    c.arg("worker");
                    for k in ["--cases", "--seed", "--tmo"] {
                        if let Some(i) = args.iter().position(|a| a == k) {
                            c.arg(k).arg(&args[i + 1]);
                        }
                    }
                    c.args(["--shard", &j.to_string(), "--jobs", &jobs.to_string(), "--out", &path, "--from", &from.to_string()]);
                    let st = c.status().expect("harness: spawn");
                    match st.code() {
                        Some(0) => return 0,
                        Some(3) => return 2,
                        code => {
                            // find the scenario that was running and go on after it
                            let text = std::fs::read_to_string(&path).unwrap_or_default();
                            let whole = text.rfind('\n').map(|i| i + 1).unwrap_or(0);
                            let mut last = None;
                            let mut tail = "";
                            for l in text[..whole].lines() {
                                if l.contains("\"e\":\"Begin\"") {
                                    last = serde_json::from_str::<Value>(l).ok().map(|v| util::n(&v, "sc") as usize);
                                }
                                tail = l;
                            }
                            let Some(last) = last else { return 2 };
                            let f = OpenOptions::new().write(true).open(&path).unwrap();
                            f.set_len(whole as u64).unwrap();
                            drop(f);
                            if !tail.contains("\"e\":\"Died\"") && !tail.contains("\"e\":\"Hang\"") {
                                let mut f = OpenOptions::new().append(true).open(&path).unwrap();
                                writeln!(f, "{}", json!({"e": "Died", "why": format!("process ended: {code:?}")})).unwrap();
                            }
                            hangs += tail.contains("\"e\":\"Hang\"") as u32;
                            if hangs >= 2 {
                                return 0;
                            }
                            from = last + 1;
                        }
                    }
                }
                0
            })
        })
        .collect();
    hs.into_iter().map(|h| h.join().unwrap_or(2)).max().unwrap_or(0)
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let code = match args.first().map(|s| s.as_str()) {
        Some("worker") => worker(&args),
        Some("run") => supervise(&args),
        _ => {
            eprintln!("usage: zv run --cases F --out PREFIX [--seed N] [--jobs J]");
            2
        }
    };
    std::process::exit(code);
}
