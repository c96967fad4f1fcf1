//! Seeded search over simulated runs: workers, violation handling, minimisation, replay, evidence.
use crate::alloc;
use crate::ctx::{Ctx, Stats, Violation, R};
use crate::props::{self, Prop};
use crate::tape::{fnv, mix, Tape};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::{Command, Stdio};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct RunOut {
    pub violation: Option<Violation>,
    pub tape: Vec<u32>,
    pub digest: u64,
    pub sig: u64,
    pub input_sig: u64,
    pub steps: u64,
    pub evals: u64,
    pub nontrivial: bool,
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    pub trace: Vec<String>,
    pub arena_clean: bool,
    pub faults_on: bool,
}

/// Payload of panics injected by the simulator (a failing user callback).
pub struct Injected(pub &'static str);

static LAST_PANIC: Mutex<Option<(String, String)>> = Mutex::new(None);

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        if info.payload().is::<Injected>() {
            return;
        }
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        *LAST_PANIC.lock().unwrap() = Some((loc, msg));
    }));
}

/// Run `f`; a panic that the simulator did not inject becomes a violation.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, Violation> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(e) => {
            if e.is::<Injected>() {
                return Err(Violation { key: "injected".into(), msg: "injected fault escaped".into() });
            }
            let (loc, msg) = LAST_PANIC.lock().unwrap().take().unwrap_or_default();
            let file = loc.rsplit("/repo/").next().unwrap_or("").to_string();
            Err(Violation { key: format!("panic {file}"), msg: format!("panicked at {loc}: {msg}") })
        }
    }
}

fn copy_str(s: &str) -> String {
    // re-allocate outside the arena
    String::from_utf8(s.as_bytes().to_vec()).unwrap()
}

pub fn run_one(p: &Prop, tape: Tape, tracing: bool) -> RunOut {
    let run = p.run;
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn_scoped(s, move || {
                let mut tape = tape;
                let faults_on = tape.pick(4) != 1;
                let hash_seed = tape.raw() as u64;
                let policy = tape.pick(4);
                let aseed = tape.raw() as u64;
                alloc::set_hash_seed(hash_seed);
                let arena = alloc::reset(policy, aseed);
                let out = {
                    if arena {
                        alloc::activate(true);
                    }
                    let mut c = Ctx::new(tape, faults_on, hash_seed, tracing);
                    let r: Result<R, Violation> = guard(|| run(&mut c));
                    alloc::activate(false);
                    let v = match r {
                        Ok(Ok(())) => None,
                        Ok(Err(v)) => Some(v),
                        Err(v) => Some(v),
                    };
                    RunOut {
                        violation: v
                            .map(|v| Violation { key: copy_str(&v.key), msg: copy_str(&v.msg) }),
                        tape: c.t.rec.to_vec(),
                        digest: c.digest,
                        sig: c.sig,
                        input_sig: c.input_sig,
                        steps: c.steps,
                        evals: c.evals,
                        nontrivial: c.nontrivial,
                        faults: c.faults.iter().map(|(a, b)| (*a, *b)).collect(),
                        probes: c.probes.iter().map(|(a, b)| (*a, *b)).collect(),
                        trace: c.trace.iter().map(|s| copy_str(s)).collect(),
                        arena_clean: false,
                        faults_on,
                    }
                };
                let mut out = out;
                *LAST_PANIC.lock().unwrap() = None;
                out.arena_clean = arena && alloc::live() == 0;
                out
            })
            .unwrap()
            .join()
            .unwrap()
    })
}

pub fn seed_of(base: u64, id: &str, i: u64) -> u64 {
    mix(fnv(base ^ 0xcbf29ce484222325, id.as_bytes()) ^ mix(i))
}

// ---------------------------------------------------------------- worker

pub fn worker(args: &[String]) -> ! {
    let id = &args[0];
    let base: u64 = args[1].parse().unwrap();
    let start: u64 = args[2].parse().unwrap();
    let stride: u64 = args[3].parse().unwrap();
    let end: u64 = args[4].parse().unwrap();
    let deadline = Instant::now() + Duration::from_millis(args[5].parse().unwrap());
    let status = &args[6];
    let digests: u64 = args[7].parse().unwrap();
    let p = props::get(id).unwrap();
    let mut st = Stats::default();
    let mut out = std::io::stdout();
    // warm-up outside the arena so that process-wide lazies never live in it
    alloc::init_off();
    let _ = run_one(p, Tape::from_data(vec![]), false);
    let _ = run_one(p, Tape::from_seed(12345), false);
    alloc::init();
    use std::os::unix::fs::FileExt;
    let sf = std::fs::OpenOptions::new().create(true).write(true).open(status).unwrap();
    let mut i = start;
    let mut samples: Vec<Value> = vec![];
    // for whoever tunes the generators
    let slow: u128 = std::env::var("SIM_SLOW").ok().and_then(|x| x.parse().ok()).unwrap_or(u128::MAX);
    while i < end && (Instant::now() < deadline || i == start) {
        let seed = seed_of(base, id, i);
        let _ = sf.write_at(format!("{i:>20}\n").as_bytes(), 0);
        let want_sample = start == 0 && samples.len() < 2 && i > 0;
        let began = Instant::now();
        let r = run_one(p, Tape::from_seed(seed), want_sample);
        if began.elapsed().as_millis() > slow {
            println!("T run {i} seed {seed}: {:?}", began.elapsed());
        }
        st.runs += 1;
        st.steps += r.steps;
        st.evals += r.evals;
        for (k, v) in &r.faults {
            *st.faults.entry(k).or_default() += v;
        }
        for (k, v) in &r.probes {
            *st.probes.entry(k).or_default() += v;
        }
        if r.faults_on {
            *st.probes.entry("runs_faulty_config").or_default() += 1;
        } else {
            *st.probes.entry("runs_fault_free_config").or_default() += 1;
        }
        if r.nontrivial {
            st.nontrivial += 1;
            st.inputs.insert(mix(r.input_sig) ^ r.sig);
        }
        st.sigs.insert(r.sig);
        if i < digests {
            println!("D {i} {:016x}", r.digest);
        }
        if want_sample && r.nontrivial {
            let cut = |x: &String| if x.chars().count() > 400 { x.chars().take(400).collect::<String>() + " ..." } else { x.clone() };
            let t: Vec<String> = r.trace.iter().take(60).map(cut).collect();
            samples.push(json!({"run": i, "seed": seed, "trace": t}));
        }
        if let Some(v) = r.violation {
            println!("V {}", json!({"i": i, "seed": seed, "key": v.key, "msg": v.msg, "tape": r.tape}));
            break;
        }
        if !r.arena_clean {
            // something outlived the run in the arena: continue in a fresh process
            println!("N {}", i + stride);
            i += stride;
            break;
        }
        i += stride;
    }
    let j = json!({
        "runs": st.runs, "steps": st.steps, "evals": st.evals, "nontrivial": st.nontrivial,
        "faults": st.faults, "probes": st.probes, "next": i,
        "sigs": st.sigs.iter().collect::<Vec<_>>(), "inputs": st.inputs.iter().collect::<Vec<_>>(),
        "samples": samples,
        "allocs": alloc::ALLOCS.load(std::sync::atomic::Ordering::SeqCst),
        "reuses": alloc::REUSES.load(std::sync::atomic::Ordering::SeqCst),
    });
    let _ = writeln!(out, "S {j}");
    std::process::exit(0);
}

#[derive(Default)]
struct Agg {
    runs: u64,
    steps: u64,
    evals: u64,
    nontrivial: u64,
    faults: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    sigs: HashSet<u64>,
    inputs: HashSet<u64>,
    samples: Vec<Value>,
    digests: BTreeMap<u64, String>,
    allocs: u64,
    reuses: u64,
}

#[derive(Debug, Clone)]
struct Found {
    i: u64,
    seed: u64,
    key: String,
    msg: String,
    tape: Option<Vec<u32>>,
}

enum WOut {
    Done,
    Next(u64),
    Violation(Found),
    Died(u64, String),
}

fn absorb(agg: &Mutex<Agg>, j: &Value) {
    let mut a = agg.lock().unwrap();
    let g = |k: &str| j[k].as_u64().unwrap_or(0);
    a.runs += g("runs");
    a.steps += g("steps");
    a.evals += g("evals");
    a.nontrivial += g("nontrivial");
    a.allocs += g("allocs");
    a.reuses += g("reuses");
    for (k, v) in j["faults"].as_object().unwrap() {
        *a.faults.entry(k.clone()).or_default() += v.as_u64().unwrap();
    }
    for (k, v) in j["probes"].as_object().unwrap() {
        *a.probes.entry(k.clone()).or_default() += v.as_u64().unwrap();
    }
    for s in j["sigs"].as_array().unwrap() {
        a.sigs.insert(s.as_u64().unwrap());
    }
    for s in j["inputs"].as_array().unwrap() {
        a.inputs.insert(s.as_u64().unwrap());
    }
    for s in j["samples"].as_array().unwrap() {
        a.samples.push(s.clone());
    }
}

/// Parent-side supervision of one worker process: detects aborts and hangs.
#[allow(clippy::too_many_arguments)]
fn supervise(id: &str, base: u64, start: u64, stride: u64, end: u64, ms: u64, status: &str, digests: u64, agg: &Mutex<Agg>, stop: &std::sync::atomic::AtomicBool) -> WOut {
    let _ = std::fs::write(status, "");
    let mut ch = Command::new(std::env::current_exe().unwrap())
        .args(["worker", id, &base.to_string(), &start.to_string(), &stride.to_string(), &end.to_string(), &ms.to_string(), status, &digests.to_string()])
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .unwrap();
    let so = ch.stdout.take().unwrap();
    let mut se = ch.stderr.take().unwrap();
    let lines: Mutex<Vec<String>> = Mutex::new(vec![]);
    let err: Mutex<Vec<u8>> = Mutex::new(vec![]);
    let mut hung = false;
    let mut status_code = None;
    std::thread::scope(|s| {
        s.spawn(|| {
            for l in BufReader::new(so).lines().map_while(Result::ok) {
                lines.lock().unwrap().push(l);
            }
        });
        s.spawn(|| {
            use std::io::Read;
            let mut b = vec![];
            let _ = se.read_to_end(&mut b);
            b.truncate(4096);
            *err.lock().unwrap() = b;
        });
        let mut last = (String::new(), Instant::now());
        loop {
            if let Ok(Some(c)) = ch.try_wait() {
                status_code = Some(c);
                break;
            }
            std::thread::sleep(Duration::from_millis(15));
            let cur = std::fs::read_to_string(status).unwrap_or_default();
            if cur != last.0 {
                last = (cur, Instant::now());
            } else if last.1.elapsed() > Duration::from_secs(HANG_SECS) {
                hung = true;
                let _ = ch.kill();
                let _ = ch.wait();
                break;
            }
            if stop.load(std::sync::atomic::Ordering::SeqCst) {
                let _ = ch.kill();
                let _ = ch.wait();
                break;
            }
        }
    });
    let mut next = None;
    let mut found = None;
    let mut done = false;
    for l in lines.lock().unwrap().iter() {
        let (k, rest) = l.split_at(l.len().min(2));
        match k {
            "T " => eprintln!("slow {rest}"),
            "D " => {
                let mut it = rest.split(' ');
                let i: u64 = it.next().unwrap().parse().unwrap();
                let d = it.next().unwrap().to_string();
                agg.lock().unwrap().digests.insert(i, d);
            }
            "V " => {
                let j: Value = serde_json::from_str(rest).unwrap();
                found = Some(Found {
                    i: j["i"].as_u64().unwrap(),
                    seed: j["seed"].as_u64().unwrap(),
                    key: j["key"].as_str().unwrap().into(),
                    msg: j["msg"].as_str().unwrap().into(),
                    tape: Some(j["tape"].as_array().unwrap().iter().map(|v| v.as_u64().unwrap() as u32).collect()),
                });
            }
            "N " => next = Some(rest.trim().parse().unwrap()),
            "S " => {
                absorb(agg, &serde_json::from_str(rest).unwrap());
                done = true;
            }
            _ => {}
        }
    }
    if let Some(f) = found {
        return WOut::Violation(f);
    }
    if stop.load(std::sync::atomic::Ordering::SeqCst) {
        return WOut::Done;
    }
    let cur: Option<u64> = std::fs::read_to_string(status).ok().and_then(|s| s.trim().parse().ok());
    if hung {
        return WOut::Died(cur.unwrap_or(start), "hang".into());
    }
    if !done {
        let e = String::from_utf8_lossy(&err.lock().unwrap()).to_string();
        let what = format!("abort ({:?}) {}", status_code, e.lines().find(|l| l.contains("overflow") || l.contains("memory") || l.contains("panick")).unwrap_or(""));
        return WOut::Died(cur.unwrap_or(start), what);
    }
    match next {
        Some(n) => WOut::Next(n),
        None => WOut::Done,
    }
}

const HANG_SECS: u64 = 45;

// ---------------------------------------------------------------- minimisation

fn fails_inproc(p: &Prop, tape: &[u32], key: &str) -> Option<Vec<u32>> {
    let r = run_one(p, Tape::from_data(tape.to_vec()), false);
    match r.violation {
        Some(v) if v.key == key => Some(r.tape),
        _ => None,
    }
}

fn fails_subproc(p: &Prop, tape: &[u32], key: &str) -> Option<Vec<u32>> {
    let f = std::env::temp_dir().join(format!("sim-min-{}.json", std::process::id()));
    std::fs::write(&f, json!({"property": p.id, "key": key, "tape": tape}).to_string()).unwrap();
    let ok = replay_fresh(&f.to_string_lossy(), 10) == Some(1);
    let _ = std::fs::remove_file(&f);
    ok.then(|| tape.to_vec())
}

fn minimise(p: &Prop, tape: Vec<u32>, key: &str, budget: Duration) -> (Vec<u32>, u64) {
    let inproc = !(key.starts_with("abort") || key.starts_with("hang"));
    let t0 = Instant::now();
    let mut tries = 0u64;
    let mut cur = tape;
    let mut test = |c: &[u32]| -> Option<Vec<u32>> {
        tries += 1;
        if inproc {
            fails_inproc(p, c, key)
        } else {
            fails_subproc(p, c, key)
        }
    };
    let better = |a: &Vec<u32>, b: &Vec<u32>| (a.len(), a.iter().map(|x| *x as u64).sum::<u64>()) < (b.len(), b.iter().map(|x| *x as u64).sum::<u64>());
    'outer: loop {
        let before = cur.clone();
        // delete chunks
        let mut n = (cur.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < cur.len() {
                if t0.elapsed() > budget {
                    break 'outer;
                }
                let mut c = cur.clone();
                c.drain(i..(i + n).min(c.len()));
                match test(&c) {
                    Some(t) if better(&t, &cur) => cur = t,
                    _ => i += n,
                }
            }
            if n == 1 {
                break;
            }
            n /= 2;
        }
        // zero chunks
        let mut n = (cur.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < cur.len() {
                if t0.elapsed() > budget {
                    break 'outer;
                }
                let e = (i + n).min(cur.len());
                if cur[i..e].iter().any(|x| *x != 0) {
                    let mut c = cur.clone();
                    c[i..e].iter_mut().for_each(|x| *x = 0);
                    if let Some(t) = test(&c) {
                        if better(&t, &cur) {
                            cur = t;
                        }
                    }
                }
                i += n;
            }
            if n == 1 {
                break;
            }
            n /= 2;
        }
        // shrink values
        for i in 0..cur.len() {
            if i >= cur.len() {
                break;
            }
            let mut v = cur[i] / 2;
            while i < cur.len() && cur[i] > 0 && v < cur[i] {
                if t0.elapsed() > budget {
                    break 'outer;
                }
                let mut c = cur.clone();
                c[i] = v;
                match test(&c) {
                    Some(t) if better(&t, &cur) => {
                        cur = t;
                        v = cur.get(i).copied().unwrap_or(0) / 2;
                    }
                    _ => {
                        if i >= cur.len() || v + 1 >= cur[i] {
                            break;
                        }
                        v = cur[i] - (cur[i] - v) / 2;
                    }
                }
            }
        }
        if cur == before {
            break;
        }
    }
    (cur, tries)
}

/// Run `sim replay FILE` in a fresh process; Some(exit code).
fn replay_fresh(file: &str, secs: u64) -> Option<i32> {
    let mut ch = Command::new(std::env::current_exe().unwrap())
        .args(["replay-raw", file])
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
        .ok()?;
    let t0 = Instant::now();
    loop {
        if let Ok(Some(c)) = ch.try_wait() {
            // a process killed by a signal reproduces an abort
            return Some(c.code().unwrap_or(1));
        }
        if t0.elapsed() > Duration::from_secs(secs) {
            let _ = ch.kill();
            let _ = ch.wait();
            return Some(1);
        }
        std::thread::sleep(Duration::from_millis(5));
    }
}

pub fn replay(file: &str, raw: bool) -> ! {
    let j: Value = serde_json::from_str(&std::fs::read_to_string(file).expect("replay file")).expect("replay json");
    let id = j["property"].as_str().unwrap();
    let key = j["key"].as_str().unwrap().to_string();
    let p = props::get(id).expect("property");
    if !raw && (key.starts_with("abort") || key.starts_with("hang")) {
        let c = replay_fresh(file, HANG_SECS);
        if c == Some(1) {
            println!("reproduced: {key}");
            println!("VIOLATION property={id} replay={file}");
        }
        std::process::exit(c.unwrap_or(2));
    }
    if let Some(name) = j["known"].as_str() {
        let bad = run_demo(p, name);
        if let Some(m) = bad {
            println!("reproduced: {m}");
            println!("VIOLATION property={id} replay={file}");
            std::process::exit(1);
        }
        println!("not reproduced");
        std::process::exit(0);
    }
    let tape = match j["tape"].as_array() {
        Some(a) => Tape::from_data(a.iter().map(|v| v.as_u64().unwrap() as u32).collect()),
        None => Tape::from_seed(j["seed"].as_u64().unwrap()),
    };
    alloc::init_off();
    let _ = run_one(p, Tape::from_data(vec![]), false);
    let _ = run_one(p, Tape::from_seed(12345), false);
    alloc::init();
    let r = run_one(p, tape, !raw);
    if !raw {
        for l in &r.trace {
            println!("{l}");
        }
    }
    match r.violation {
        Some(v) if v.key == key || j["key"].as_str() == Some("*") => {
            println!("reproduced: {} :: {}", v.key, v.msg);
            println!("digest {:016x}", r.digest);
            println!("VIOLATION property={id} replay={file}");
            std::process::exit(1)
        }
        Some(v) => {
            println!("different failure: {} :: {} (expected {key})", v.key, v.msg);
            std::process::exit(3)
        }
        None => {
            println!("not reproduced");
            std::process::exit(0)
        }
    }
}

// ---------------------------------------------------------------- known findings

fn run_demo(p: &Prop, name: &str) -> Option<String> {
    let d = p.known.iter().find(|k| k.0 == name)?.1;
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn_scoped(s, || match guard(d) {
                Ok(r) => r,
                Err(v) => Some(v.msg),
            })
            .unwrap()
            .join()
            .unwrap()
    })
}

fn listed_findings(root: &str, id: &str) -> Vec<(String, String)> {
    let txt = std::fs::read_to_string(format!("{root}/known-findings.txt")).unwrap_or_default();
    let pre = format!("finding: property={id} case=");
    txt.lines()
        .filter_map(|l| l.strip_prefix(&pre))
        .map(|r| {
            let (a, b) = r.split_once(' ').unwrap_or((r, ""));
            (a.to_string(), b.to_string())
        })
        .collect()
}

// ---------------------------------------------------------------- check

pub fn check(id: &str, tier: &str) -> ! {
    let t0 = Instant::now();
    let root = std::env::var("SIM_ROOT").unwrap_or_else(|_| "/verif".into());
    let p = match props::get(id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {id}");
            std::process::exit(2)
        }
    };
    let base: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let secs: u64 = std::env::var("SIM_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(match tier {
        "thorough" => p.thorough_secs,
        _ => p.quick_secs,
    });
    let max_runs: u64 = std::env::var("SIM_RUNS").ok().and_then(|s| s.parse().ok()).unwrap_or(u64::MAX / 2);
    let workers: u64 = std::env::var("SIM_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let _ = std::fs::create_dir_all(format!("{root}/replays"));
    let _ = std::fs::create_dir_all(format!("{root}/evidence"));
    let tmp = std::env::temp_dir().join(format!("sim-{}-{}", id, std::process::id()));
    std::fs::create_dir_all(&tmp).unwrap();

    let mut violations: Vec<(String, Found)> = vec![];

    // known findings: each listed one is demonstrated; an unlisted demonstration is a violation
    let listed = listed_findings(&root, id);
    for (name, _) in p.known {
        if let Some(m) = run_demo(p, name) {
            if let Some((_, what)) = listed.iter().find(|l| l.0 == *name) {
                println!("KNOWN-FINDING: property={id} {name}: {what}");
            } else {
                let f = format!("{root}/replays/{id}-known-{name}.json");
                std::fs::write(&f, json!({"property": id, "key": name, "known": name, "msg": m, "typed": std::env::var("TYPED_ARGS").ok()}).to_string()).unwrap();
                violations.push((f, Found { i: 0, seed: 0, key: name.to_string(), msg: m, tape: None }));
            }
        }
    }

    let agg = Mutex::new(Agg::default());
    let found: Mutex<Option<Found>> = Mutex::new(None);
    let stop = std::sync::atomic::AtomicBool::new(false);
    let digests = 24u64;
    let deadline = t0 + Duration::from_secs(secs);
    let mut determinism_mismatch = vec![];
    if violations.is_empty() {
        std::thread::scope(|s| {
            for w in 0..workers {
                let (agg, found, stop, tmp) = (&agg, &found, &stop, &tmp);
                s.spawn(move || {
                    let mut start = w;
                    let status = tmp.join(format!("w{w}")).to_string_lossy().to_string();
                    loop {
                        let ms = deadline.saturating_duration_since(Instant::now()).as_millis() as u64;
                        if ms == 0 && start != w {
                            break;
                        }
                        match supervise(id, base, start, workers, max_runs, ms, &status, digests, agg, stop) {
                            WOut::Done => break,
                            WOut::Next(n) => start = n,
                            WOut::Violation(f) => {
                                let mut g = found.lock().unwrap();
                                if g.is_none() {
                                    *g = Some(f);
                                }
                                stop.store(true, std::sync::atomic::Ordering::SeqCst);
                                break;
                            }
                            WOut::Died(i, what) => {
                                let key = what.split(' ').next().unwrap().to_string();
                                let mut g = found.lock().unwrap();
                                if g.is_none() {
                                    *g = Some(Found { i, seed: seed_of(base, id, i), key, msg: what, tape: None });
                                }
                                stop.store(true, std::sync::atomic::Ordering::SeqCst);
                                break;
                            }
                        }
                    }
                });
            }
        });
        // determinism: the first seeds again in another process, digests compared
        if found.lock().unwrap().is_none() {
            let agg2 = Mutex::new(Agg::default());
            let status = tmp.join("det").to_string_lossy().to_string();
            let stop2 = std::sync::atomic::AtomicBool::new(false);
            let mut start = 0;
            while let WOut::Next(n) = supervise(id, base, start, 1, digests, 20000, &status, digests, &agg2, &stop2) {
                start = n;
            }
            let a = agg.lock().unwrap();
            let b = agg2.lock().unwrap();
            for (i, d) in &b.digests {
                if a.digests.get(i).is_some_and(|x| x != d) {
                    determinism_mismatch.push(*i);
                }
            }
        }
    }
    let f = found.lock().unwrap().clone();
    if let Some(f) = f {
        let tape = match &f.tape {
            Some(t) => Some(t.clone()),
            None => {
                // the run killed its process: regenerate its tape by recording choices in a child
                None
            }
        };
        let file = format!("{root}/replays/{id}-{:016x}.json", f.seed);
        let (min, tries) = match tape {
            Some(t) => {
                alloc::init_off();
                let _ = run_one(p, Tape::from_data(vec![]), false);
                let _ = run_one(p, Tape::from_seed(12345), false);
                alloc::init();
                let (m, n) = minimise(p, t, &f.key, Duration::from_secs(p.min_secs));
                (Some(m), n)
            }
            None => (None, 0),
        };
        let mut j = json!({"property": id, "seed": f.seed, "run": f.i, "key": f.key, "msg": f.msg, "minimise_attempts": tries});
        if let Ok(a) = std::env::var("TYPED_ARGS") {
            j["typed"] = json!(a);
        }
        if let Some(m) = &min {
            let r = run_one(p, Tape::from_data(m.clone()), true);
            j["tape"] = json!(m);
            j["trace"] = json!(r.trace);
            j["digest"] = json!(format!("{:016x}", r.digest));
            if let Some(v) = r.violation {
                j["msg"] = json!(v.msg);
            }
        }
        std::fs::write(&file, serde_json::to_string_pretty(&j).unwrap()).unwrap();
        let mut code = replay_fresh(&file, HANG_SECS);
        if code != Some(1) && min.is_some() {
            // fall back on the unminimised tape
            j["tape"] = json!(f.tape);
            j["minimised"] = json!(false);
            std::fs::write(&file, serde_json::to_string_pretty(&j).unwrap()).unwrap();
            code = replay_fresh(&file, HANG_SECS);
        }
        println!("run {} seed {:#x}: {} :: {}", f.i, f.seed, f.key, j["msg"].as_str().unwrap_or(""));
        println!("replay in a fresh process: {}", if code == Some(1) { "reproduced" } else { "NOT reproduced" });
        violations.push((file, f));
    }
    let a = agg.lock().unwrap();
    let wall = t0.elapsed().as_secs_f64();
    let mut ev = json!({
        "property": id, "tier": tier, "seed": base, "level": "exploration",
        "wall_s": wall, "violations": violations.len(),
        "assumptions": p.assumptions.split("; ").collect::<Vec<_>>(),
        "coverage": {
            "evaluations": a.evals.max(a.runs),
            "distinct_nontrivial": a.inputs.len(),
            "rule": p.rule,
            "samples": a.samples,
            "simulated_runs": a.runs,
            "nontrivial_runs": a.nontrivial,
            "seeds_per_hour": (a.runs as f64 / wall * 3600.0) as u64,
            "scheduler_steps": a.steps,
            "simulated_time": "logical steps only: bluejay has no clock or timer; one scheduler step is one unit",
            "faults_injected": a.faults,
            "probes": a.probes,
            "distinct_interleavings": a.sigs.len(),
            "interleaving_measure": "FNV hash of the sequence of (actor, step kind, fault kind) of a run",
            "distinct_inputs_rule": "hash of all generated inputs of a run combined with its interleaving hash; only runs that exercised the property's oracle (nontrivial) are counted",
            "sim_allocations": a.allocs, "sim_address_reuses": a.reuses,
            "determinism_replayed_seeds": digests, "determinism_mismatches": determinism_mismatch,
            "components_real": p.real, "components_stub": p.stub,
        }
    });
    // what was counted before the runs (S15: programs that must or must not compile)
    if let Some(x) = std::env::var("SIM_EXTRA").ok().and_then(|f| std::fs::read_to_string(f).ok()).and_then(|x| serde_json::from_str::<Value>(&x).ok()) {
        ev["coverage"]["programs"] = x;
    }
    std::fs::write(format!("{root}/evidence/{id}.json"), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    let _ = std::fs::remove_dir_all(&tmp);
    if !determinism_mismatch.is_empty() {
        println!("note: runs {determinism_mismatch:?} gave different event digests in two processes");
    }
    println!("{id} {tier}: {} runs, {} evaluations, {} distinct nontrivial, {} interleavings, {:.1}s", a.runs, a.evals, a.inputs.len(), a.sigs.len(), wall);
    println!("faults: {:?}", a.faults);
    println!("probes: {:?}", a.probes);
    if violations.is_empty() {
        std::process::exit(0);
    }
    for (f, _) in &violations {
        println!("VIOLATION property={id} replay={f}");
    }
    std::process::exit(1);
}
