mod gen_circuits;
mod fast;
mod gen_words;
mod rng;
mod utils_driver;
mod words;
mod world;

use rng::Rng;
use serde_json::{json, Value};
use std::fs::File;
use std::io::{BufRead, BufReader, BufWriter, Write};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::Duration;

static PROGRESS: AtomicU64 = AtomicU64::new(0);

fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned())
}

/// harness gen PROP --seed S --stream K --events N --out FILE
///   records runs of the library for PROP until about N lines are written
/// harness exec FILE --out FILE
///   performs the calls in FILE (replies in it are ignored) and records the replies
/// harness mbt FILE
///   performs the calls in FILE and compares the replies with those in FILE
fn main() {
    if arg("--loud").is_none() { std::panic::set_hook(Box::new(|_| {})); }
    let limit: u64 = arg("--hang").and_then(|x| x.parse().ok()).unwrap_or(60);
    std::thread::spawn(move || {
        let mut last = 0;
        let mut idle = 0;
        loop {
            std::thread::sleep(Duration::from_secs(1));
            let now = PROGRESS.load(Ordering::Relaxed);
            idle = if now == last { idle + 1 } else { 0 };
            last = now;
            if idle > limit {
                println!("HANG");
                std::process::exit(3);
            }
        }
    });
    let t = std::thread::Builder::new()
        .stack_size(4 << 30)
        .spawn(run)
        .expect("thread")
        .join();
    std::process::exit(match t {
        Ok(c) => c,
        Err(_) => 2,
    });
}

fn run() -> i32 {
    let args: Vec<String> = std::env::args().collect();
    let num = |n: &str, d: u64| arg(n).and_then(|x| x.parse().ok()).unwrap_or(d);
    match args.get(1).map(|s| s.as_str()) {
        Some("gen") => {
            let prop = args[2].clone();
            let seed = num("--seed", 1);
            let stream = num("--stream", 0);
            let events = num("--events", 1000);
            let mut f = BufWriter::new(File::create(arg("--out").expect("--out")).expect("create"));
            let count = std::cell::Cell::new(0u64);
            let scen = std::cell::Cell::new(0u64);
            {
                let mut out = |e: &Value| {
                    PROGRESS.fetch_add(1, Ordering::Relaxed);
                    count.set(count.get() + 1);
                    serde_json::to_writer(&mut f, e).unwrap();
                    f.write_all(b"\n").unwrap();
                    // what was done last is on disk if the library takes the process down
                    f.flush().unwrap();
                };
                let pnum: u64 = prop[1..].parse().unwrap_or(0);
                let rng = Rng::new(seed, stream * 100 + pnum);
                let streams = num("--streams", 8);
                // the share of this stream in enumerations
                let share = stream % streams;
                if (11..=18).contains(&pnum) || pnum == 21 {
                    let deep = arg("--deep").is_some();
                    let mut g =
                        gen_words::WGen { rng, out: &mut out, round: 0, stream: share, streams, deep, pool: vec![] };
                    while count.get() < events {
                        g.scenario(&prop);
                        scen.set(scen.get() + 1);
                    }
                } else if pnum == 19 || pnum == 20 {
                    let mut g = utils_driver::UGen { rng, out: &mut out, round: 0, stream: share, streams };
                    while count.get() < events {
                        g.scenario(&prop);
                        scen.set(scen.get() + 1);
                    }
                } else {
                    let mut g = gen_circuits::Gen::new(rng, &mut out);
                    if arg("--sizes").is_some() {
                        while count.get() < events {
                            g.sizes_scenario();
                            scen.set(scen.get() + 1);
                        }
                    }
                    // large circuits: the shapes are shared out among the streams
                    if arg("--big").is_some() {
                        for k in (0..8).filter(|k| k % streams == share) {
                            g.big(&prop, k as usize);
                            scen.set(scen.get() + 1);
                        }
                    }
                    while count.get() < events {
                        g.scenario(&prop);
                        scen.set(scen.get() + 1);
                    }
                }
            }
            println!("{}", json!({"events": count.get(), "scenarios": scen.get()}));
            0
        }
        Some("mbt") => mbt(&args[2], &arg("--out").expect("--out"), num("--max", u64::MAX)),
        Some("record") => {
            let parts = num("--parts", 8) as usize;
            let prefix = arg("--out").expect("--out");
            let mut fs: Vec<_> = (0..parts)
                .map(|k| BufWriter::new(File::create(format!("{prefix}-{k}")).expect("create")))
                .collect();
            let (mut n, max) = (0, num("--max", u64::MAX) as usize);
            for l in BufReader::new(File::open(&args[2]).expect("open")).lines().take(max) {
                let v = behaviour(&l.unwrap());
                let f = &mut fs[n % parts];
                n += 1;
                let mut w = world::World::new();
                writeln!(f, "{}", json!({"op": "reset"})).unwrap();
                for e in v.as_array().unwrap() {
                    PROGRESS.fetch_add(1, Ordering::Relaxed);
                    serde_json::to_writer(&mut *f, &w.exec(e)).unwrap();
                    f.write_all(b"\n").unwrap();
                }
                f.flush().unwrap();
            }
            println!("{}", json!({"behaviours": n}));
            0
        }
        Some("exec") => {
            let mut f = BufWriter::new(File::create(arg("--out").expect("--out")).expect("create"));
            let mut w = world::World::new();
            let lines: Vec<Value> = BufReader::new(File::open(&args[2]).expect("open"))
                .lines()
                .map(|l| serde_json::from_str(&l.unwrap()).expect("json"))
                .collect();
            if lines.first().map(|e| e.get("lanes").is_some()).unwrap_or(false) {
                for r in words::run(&lines) {
                    serde_json::to_writer(&mut f, &r).unwrap();
                    f.write_all(b"\n").unwrap();
                }
                return 0;
            }
            for e in lines {
                PROGRESS.fetch_add(1, Ordering::Relaxed);
                let r = w.exec(&e);
                serde_json::to_writer(&mut f, &r).unwrap();
                f.write_all(b"\n").unwrap();
                f.flush().unwrap();
            }
            0
        }
        _ => 2,
    }
}

/// A behaviour as TLC wrote it.  (Lines of more than 8 KB that two workers write at the same time
/// come out mixed: the driver then has them written by one.)
fn behaviour(line: &str) -> Value {
    let v = match serde_json::from_str(line) {
        Ok(Value::String(s)) => serde_json::from_str(&s),
        v => v,
    };
    v.unwrap_or_else(|_| {
        println!("MIXED");
        std::process::exit(4)
    })
}

/// The dependents of a gate are compared without regard to their order.
fn bags(e: &Value) -> Value {
    let mut e = e.clone();
    if e["op"] == "alldeps" {
        if let Some(all) = e["r"].as_array_mut() {
            for d in all.iter_mut().filter_map(|d| d.as_array_mut()) {
                d.sort_by_key(|x| x.as_i64());
            }
        }
    }
    e
}

/// Replays behaviours (one JSON array of calls with predicted replies per line).
fn mbt(path: &str, bad: &str, max: u64) -> i32 {
    let lines: Vec<String> =
        BufReader::new(File::open(path).expect("open")).lines().map(|l| l.unwrap()).collect();
    let lines: Vec<&String> = if (lines.len() as u64) > max {
        // a fixed sample
        let mut r = Rng::new(arg("--seed").and_then(|x| x.parse().ok()).unwrap_or(1), 99);
        (0..max).map(|_| &lines[r.below(lines.len())]).collect()
    } else {
        lines.iter().collect()
    };
    let fails = std::sync::Mutex::new(Vec::<(usize, String)>::new());
    let calls = AtomicU64::new(0);
    std::thread::scope(|s| {
        for t in 0..8usize {
            let (fails, calls, lines) = (&fails, &calls, &lines);
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(s, move || {
                    for (at, line) in lines.iter().enumerate().skip(t).step_by(8) {
                        let v = behaviour(line);
                        let calls_made = v.as_array().unwrap();
                        // a program over words is evaluated as a whole
                        let program = calls_made[0].get("lanes").map(|_| words::run(calls_made));
                        let mut w = world::World::new();
                        for (i, e) in calls_made.iter().enumerate() {
                            PROGRESS.fetch_add(1, Ordering::Relaxed);
                            calls.fetch_add(1, Ordering::Relaxed);
                            let got = match &program {
                                Some(p) => p.get(i).cloned().unwrap_or(Value::Null),
                                None => w.exec(e),
                            };
                            if bags(&got) != bags(e) {
                                let m = json!({"behaviour": v, "predicted": e, "observed": got});
                                fails.lock().unwrap().push((at, m.to_string()));
                                break;
                            }
                        }
                    }
                })
                .unwrap();
        }
    });
    let mut f = fails.into_inner().unwrap();
    f.sort();
    println!("{}", json!({"behaviours": lines.len(), "calls": calls.load(Ordering::Relaxed), "mismatches": f.len()}));
    if let Some((_, m)) = f.first() {
        std::fs::write(bad, m).expect("write");
        return 1;
    }
    0
}
