//! Batches of runs, minimisation, replay, evidence.

use crate::gen;
use crate::plan::Plan;
use crate::rt::mix2;
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Default, Clone)]
pub struct Report {
    pub stats: BTreeMap<String, u64>,
    pub faults: BTreeMap<String, u64>,
    pub digests: Vec<(u64, u64)>,
    pub log: Vec<String>,
    pub checks: u64,
    pub sim_us: u64,
    pub trace: u64,
    pub hash: u64,
    pub violation: Option<(String, String)>,
}

fn exe(profile: &str) -> String {
    let k = match profile {
        "checked" => "SIM_CHECKED",
        "stepped" => "SIM_STEPPED",
        _ => "SIM_RELEASE",
    };
    std::env::var(k).unwrap_or_else(|_| std::env::current_exe().unwrap().to_string_lossy().into_owned())
}

/// One plan in one fresh process. Err: the harness itself failed.
pub fn child(p: &Plan, verbose: bool) -> Result<Report, String> {
    let mut c = Command::new(exe(&p.profile));
    c.arg("one");
    if verbose {
        c.arg("-v");
    }
    // an empty environment: nothing of this machine reaches the run
    let keep: Vec<(String, String)> =
        std::env::vars().filter(|(k, _)| k == "SIM_CHECKED" || k == "SIM_RELEASE" || k == "SIM_STEPPED").collect();
    c.env_clear().envs(keep).env("LANG", "C");
    c.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped());
    let mut ch = c.spawn().map_err(|e| format!("cannot start a run: {e}"))?;
    let text = p.to_text();
    ch.stdin.take().unwrap().write_all(text.as_bytes()).ok();
    let out = ch.wait_with_output().map_err(|e| format!("run: {e}"))?;
    let mut r = parse(&String::from_utf8_lossy(&out.stdout));
    if let Some(rep) = r.take() {
        return Ok(rep);
    }
    use std::os::unix::process::ExitStatusExt;
    let sig = out.status.signal();
    let err = String::from_utf8_lossy(&out.stderr);
    let tail: String = err.lines().rev().take(2).collect::<Vec<_>>().join(" / ");
    match sig {
        Some(14) | Some(24) => Ok(Report {
            violation: Some(("no-progress".into(), "the run did not finish within its processor time limit: an operation never returns".into())),
            ..Default::default()
        }),
        Some(9) => Err("a run was killed".into()),
        Some(s) => Ok(Report {
            violation: Some(("crash".into(), format!("the process running the library died from signal {s}: {tail}"))),
            ..Default::default()
        }),
        None => Err(format!("a run ended with {:?} and no report: {tail}", out.status.code())),
    }
}

fn parse(s: &str) -> Option<Report> {
    let mut r = Report::default();
    for l in s.lines() {
        let (k, rest) = l.split_at(1);
        let rest = rest.trim_start();
        let two = || {
            let (a, b) = rest.rsplit_once(' ').unwrap_or((rest, "0"));
            (a.to_string(), b.parse::<u64>().unwrap_or(0))
        };
        match k {
            "S" => {
                let (a, b) = two();
                *r.stats.entry(a).or_insert(0) += b;
            }
            "F" => {
                let (a, b) = two();
                *r.faults.entry(a).or_insert(0) += b;
            }
            "D" => {
                let (a, b) = two();
                r.digests.push((a.parse().unwrap_or(0), b));
            }
            "L" => r.log.push(rest.to_string()),
            "C" => r.checks = rest.parse().unwrap_or(0),
            "U" => r.sim_us = rest.parse().unwrap_or(0),
            "T" => r.trace = rest.parse().unwrap_or(0),
            "H" => r.hash = rest.parse().unwrap_or(0),
            "V" => {
                let (a, b) = rest.split_once('\t').unwrap_or((rest, ""));
                r.violation = Some((a.to_string(), b.to_string()));
            }
            "E" => return Some(r),
            _ => {}
        }
    }
    None
}

/// Two violations are the same if they are of one class; panics also by place.
fn key(v: &(String, String)) -> String {
    if v.0 == "panic" {
        let loc = v.1.rsplit_once('@').map(|x| x.1).unwrap_or("");
        return format!("panic@{loc}");
    }
    v.0.clone()
}

fn fails_alike(p: &Plan, k: &str) -> bool {
    matches!(child(p, false), Ok(r) if r.violation.as_ref().map(key).as_deref() == Some(k))
}

fn minimise(orig: &Plan, k: &str, budget_s: f64) -> (Plan, u64) {
    let t0 = Instant::now();
    let tries = AtomicU64::new(0);
    let ok = |p: &Plan| -> bool {
        if t0.elapsed().as_secs_f64() > budget_s || tries.load(SeqCst) > 400 {
            return false;
        }
        tries.fetch_add(1, SeqCst);
        fails_alike(p, k)
    };
    let mut best = orig.clone();
    loop {
        let before = best.to_text();
        // operations, then faults, in halving chunks
        for what in 0..2 {
            let len = |p: &Plan| if what == 0 { p.ops.len() } else { p.faults.len() };
            let mut chunk = len(&best).div_ceil(2).max(1);
            loop {
                let mut i = 0;
                while i < len(&best) {
                    let mut c = best.clone();
                    let end = (i + chunk).min(len(&c));
                    if what == 0 {
                        c.ops.drain(i..end);
                    } else {
                        c.faults.drain(i..end);
                    }
                    if ok(&c) {
                        best = c;
                    } else {
                        i += chunk;
                    }
                }
                if chunk == 1 {
                    break;
                }
                chunk = chunk.div_ceil(2);
            }
        }
        let knobs: Vec<String> = best.knobs.keys().cloned().collect();
        for kn in knobs {
            let cur = best.knob(&kn);
            let mut cands: Vec<u64> = vec![];
            match kn.as_str() {
                "preempt" => cands = vec![0, 1, cur / 4, cur / 2],
                "workers" => cands = vec![1, 2],
                "sched" | "entropy" => {}
                _ if kn.ends_with(".n") => {
                    let mut x = 8;
                    while x < cur {
                        cands.push(x);
                        x *= 2;
                    }
                }
                _ if kn.ends_with(".sk") => cands = vec![0],
                _ if kn.starts_with("s.") && kn.ends_with(".dim") => cands = vec![2],
                _ if kn.starts_with("s.") && (kn.ends_with(".first") || kn.ends_with(".nd")) => cands = vec![1, 2],
                _ => {}
            }
            for c in cands {
                if c < cur {
                    let mut q = best.clone();
                    q.set(&kn, c);
                    if ok(&q) {
                        best = q;
                        break;
                    }
                }
            }
        }
        if best.to_text() == before || t0.elapsed().as_secs_f64() > budget_s {
            break;
        }
    }
    (best, tries.load(SeqCst))
}

struct Known {
    prop: String,
    text: String,
}

fn known_findings() -> Vec<Known> {
    let path = std::env::var("SIM_KNOWN").unwrap_or_default();
    let Ok(s) = std::fs::read_to_string(path) else { return vec![] };
    s.lines()
        .filter_map(|l| l.strip_prefix("known: property="))
        .filter_map(|l| l.split_once(' '))
        .filter_map(|(p, r)| r.strip_prefix("match=").map(|t| Known { prop: p.to_string(), text: t.trim().to_string() }))
        .collect()
}

fn quick_runs(prop: &str) -> u64 {
    match prop {
        "C01" => 900,
        "C02" => 700,
        "C03" => 2000,
        "C04" | "C11" => 12000,
        "C05" | "C06" => 10000,
        "C07" | "C09" => 3000,
        "C10" => 2000,
        "C12" | "C14" | "C08" => 6000,
        "C13" | "C15" | "C17" => 4000,
        "C16" => 8000,
        _ => 2000,
    }
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            '\t' => o += " ",
            c if (c as u32) < 32 => {}
            c => o.push(c),
        }
    }
    o + "\""
}

fn js_map(m: &BTreeMap<String, u64>) -> String {
    format!("{{{}}}", m.iter().map(|(k, v)| format!("{}: {v}", js(k))).collect::<Vec<_>>().join(", "))
}

pub fn main(args: &[String]) -> i32 {
    match args.get(1).map(|s| s.as_str()) {
        Some("check") => check(&args[2], args.get(3).map(|s| s.as_str()).unwrap_or("quick")),
        Some("gen") => {
            let seed = args[3].parse::<u64>().expect("seed");
            print!("{}", gen::plan(&args[2], seed, args.get(4).map(|s| s.as_str()).unwrap_or("quick")).to_text());
            0
        }
        Some("replay") => replay(&args[2]),
        Some("determinism") => determinism(args),
        _ => {
            eprintln!("usage: onion-sim check PROP [quick|thorough] | replay FILE | gen PROP SEED | determinism COUNT [PROP..]");
            2
        }
    }
}

fn replay(path: &str) -> i32 {
    let text = match std::fs::read_to_string(path) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{path}: {e}");
            return 2;
        }
    };
    let p = match Plan::parse(&text) {
        Ok(p) => p,
        Err(e) => {
            eprintln!("{path}: {e}");
            return 2;
        }
    };
    match child(&p, true) {
        Err(e) => {
            eprintln!("{e}");
            2
        }
        Ok(r) => {
            for l in &r.log {
                println!("{l}");
            }
            println!("faults: {}", js_map(&r.faults));
            match r.violation {
                Some((c, t)) => {
                    println!("VIOLATION property={} replay={path}", p.prop);
                    println!("{c}: {t}");
                    1
                }
                None => {
                    println!("no violation of {}", p.prop);
                    0
                }
            }
        }
    }
}

fn seed_of(prop: &str, verif_seed: u64, i: u64) -> u64 {
    mix2(mix2(verif_seed, gen::prop_no(prop)), i) >> 1
}

fn determinism(args: &[String]) -> i32 {
    let count: u64 = args.get(2).and_then(|s| s.parse().ok()).unwrap_or(50);
    let props: Vec<String> = if args.len() > 3 { args[3..].to_vec() } else { (1..=16).map(|i| format!("C{i:02}")).collect() };
    let bad = AtomicU64::new(0);
    let done = AtomicU64::new(0);
    for prop in &props {
        // first pass one at a time per thread with 8 threads, second with 3
        let mut outs: Vec<BTreeMap<u64, String>> = vec![];
        for threads in [8usize, 3] {
            let next = AtomicU64::new(0);
            let m = Mutex::new(BTreeMap::new());
            std::thread::scope(|s| {
                for _ in 0..threads {
                    s.spawn(|| loop {
                        let i = next.fetch_add(1, SeqCst);
                        if i >= count {
                            break;
                        }
                        let p = gen::plan(prop, seed_of(prop, 4242, i), "quick");
                        let r = child(&p, true);
                        let t = match r {
                            Ok(r) => format!("{:?}|{:?}|{:?}|{:?}|{}|{}|{}|{:?}", r.stats, r.faults, r.digests, r.log, r.checks, r.trace, r.hash, r.violation),
                            Err(e) => format!("error {e}"),
                        };
                        m.lock().unwrap().insert(i, t);
                        done.fetch_add(1, SeqCst);
                    });
                }
            });
            outs.push(m.into_inner().unwrap());
        }
        let mut b = 0;
        for i in 0..count {
            if outs[0][&i] != outs[1][&i] {
                b += 1;
                println!("{prop} run {i} (seed {}) differs", seed_of(prop, 4242, i));
            }
        }
        bad.fetch_add(b, SeqCst);
        println!("{prop}: {count} seeds run twice, {b} differ");
    }
    println!("{} runs, {} divergent", done.load(SeqCst), bad.load(SeqCst));
    if bad.load(SeqCst) > 0 {
        1
    } else {
        0
    }
}

fn check(prop: &str, tier: &str) -> i32 {
    let t0 = Instant::now();
    let verif_seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let quick = tier != "thorough";
    let runs: u64 = std::env::var("SIM_RUNS").ok().and_then(|s| s.parse().ok()).unwrap_or(if quick { quick_runs(prop) } else { 1_000_000 });
    let cap: f64 = std::env::var("SIM_CAP").ok().and_then(|s| s.parse().ok()).unwrap_or(if quick { 240.0 } else { 1500.0 });
    let threads = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(16);
    let known = known_findings();
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    #[derive(Default)]
    struct Acc {
        stats: BTreeMap<String, u64>,
        faults: BTreeMap<String, u64>,
        runs: u64,
        checks: u64,
        sim_us: u64,
        traces: BTreeSet<u64>,
        logs: BTreeSet<u64>,
        nontrivial: BTreeSet<u64>,
        samples: Vec<String>,
        profiles: BTreeMap<String, u64>,
        bad: BTreeMap<u64, (Plan, (String, String))>,
        known: BTreeMap<String, u64>,
        errors: Vec<String>,
        slowest: f64,
        max_configs: BTreeSet<String>,
    }
    let acc = Mutex::new(Acc::default());
    println!("{prop} {tier}: VERIF_SEED={verif_seed}, up to {runs} simulated runs on {threads} processes");
    std::thread::scope(|s| {
        for _ in 0..threads {
            s.spawn(|| loop {
                if stop.load(SeqCst) || t0.elapsed().as_secs_f64() > cap {
                    break;
                }
                let i = next.fetch_add(1, SeqCst);
                if i >= runs {
                    break;
                }
                let p = gen::plan(prop, seed_of(prop, verif_seed, i), tier);
                let t1 = Instant::now();
                let r = child(&p, i < 3);
                let dt = t1.elapsed().as_secs_f64();
                let mut a = acc.lock().unwrap();
                match r {
                    Err(e) => {
                        a.errors.push(format!("run {i} (seed {}): {e}", p.seed));
                        if a.errors.len() > 3 {
                            stop.store(true, SeqCst);
                        }
                    }
                    Ok(r) => {
                        a.runs += 1;
                        a.checks += r.checks;
                        a.sim_us += r.sim_us;
                        a.slowest = a.slowest.max(dt);
                        a.traces.insert(r.trace);
                        a.logs.insert(r.hash);
                        if r.checks > 0 {
                            a.nontrivial.insert(r.hash);
                        }
                        *a.profiles.entry(p.profile.clone()).or_insert(0) += 1;
                        let shape: String = p.knobs.iter().filter(|(k, _)| k.starts_with('p') || k.starts_with("s.")).map(|(k, v)| format!("{k}={v} ")).collect();
                        a.max_configs.insert(shape);
                        for (k, v) in &r.stats {
                            *a.stats.entry(k.clone()).or_insert(0) += v;
                        }
                        for (k, v) in &r.faults {
                            *a.faults.entry(k.clone()).or_insert(0) += v;
                        }
                        if i < 3 {
                            let head: Vec<String> = r.log.iter().take(6).cloned().collect();
                            a.samples.push(format!(
                                "seed {} ({} build), {} operations, {} faults planned, fired {}: {}",
                                p.seed,
                                p.profile,
                                p.ops.len(),
                                p.faults.len(),
                                js_map(&r.faults).replace('"', ""),
                                head.join(" | ")
                            ));
                        }
                        if let Some(v) = r.violation {
                            if let Some(k) = known.iter().find(|k| k.prop == prop && v.1.contains(&k.text)) {
                                *a.known.entry(k.text.clone()).or_insert(0) += 1;
                            } else {
                                a.bad.insert(i, (p, v));
                                stop.store(true, SeqCst);
                            }
                        }
                    }
                }
            });
        }
    });
    let mut a = acc.into_inner().unwrap();
    let search_s = t0.elapsed().as_secs_f64();
    let mut code = 0;
    let mut shrink_note = String::new();
    let bad = std::mem::take(&mut a.bad);
    for (i, (p, v)) in &bad {
        let k = key(v);
        let again = (0..3).any(|_| fails_alike(p, &k));
        if v.0 == "no-progress" && !again {
            a.errors.push(format!("run {i}: timed out once, not again"));
            continue;
        }
        let (small, tries) = if again { minimise(p, &k, 60.0) } else { (p.clone(), 0) };
        let dir = std::env::var("SIM_REPLAYS").unwrap_or_else(|_| "replays".into());
        std::fs::create_dir_all(&dir).ok();
        let path = format!("{dir}/{prop}-{}.plan", p.seed);
        let r = child(&small, true).unwrap_or_default();
        let vv = r.violation.clone().unwrap_or_else(|| v.clone());
        let mut text = format!("# {}: {}\n# found as run {i} of VERIF_SEED={verif_seed}, minimised from {} operations and {} faults to {} and {} in {tries} runs\n# replay: ./check.sh replay {path}\n", vv.0, vv.1, p.ops.len(), p.faults.len(), small.ops.len(), small.faults.len());
        for l in &r.log {
            text += &format!("# | {l}\n");
        }
        text += &small.to_text();
        if let Err(e) = std::fs::write(&path, &text) {
            a.errors.push(format!("cannot write {path}: {e}"));
        }
        let same = fails_alike(&small, &k);
        println!("run {i} seed {} ({} build): {}: {}", p.seed, p.profile, v.0, v.1);
        println!("minimised: {} operations, {} faults; {}: {}", small.ops.len(), small.faults.len(), vv.0, vv.1);
        println!("replay in a fresh process {}", if same { "reproduces it" } else { "did not reproduce it (the code under test behaves nondeterministically)" });
        println!("VIOLATION property={prop} replay={path}");
        shrink_note = format!("{} -> {} operations", p.ops.len(), small.ops.len());
        code = 1;
        break;
    }
    for (k, n) in &a.known {
        println!("KNOWN-FINDING: property={prop} {k} ({n} runs)");
    }
    if code == 0 && !a.errors.is_empty() {
        for e in &a.errors {
            eprintln!("harness error: {e}");
        }
        code = 2;
    }
    if code == 0 && a.runs == 0 {
        eprintln!("harness error: no run completed");
        code = 2;
    }
    let wall = t0.elapsed().as_secs_f64();
    let per_hour = (a.runs as f64 / search_s.max(0.001) * 3600.0) as u64;
    let ops: u64 = a.stats.iter().filter(|(k, _)| k.starts_with("op_")).map(|(_, v)| v).sum();
    let ev = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {verif_seed},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n  \"simulated_runs\": {},\n  \"runs_and_seeds_per_hour\": {per_hour},\n  \"operations_executed\": {ops},\n  \"results_judged_by_oracle\": {},\n  \"simulated_time_s\": {:.3},\n  \"faults_fired\": {},\n  \"distinct_schedules\": {},\n  \"distinct_event_logs\": {},\n  \"distinct_configurations\": {},\n  \"runs_per_build\": {},\n  \"slowest_run_s\": {:.2},\n  \"counters\": {},\n  \"real_components\": {},\n  \"stubbed_components\": {},\n  \"minimisation\": {}\n }},\n \"assumptions\": {},\n \"violations\": {},\n \"wall_s\": {:.1}\n}}\n",
        js(prop),
        js(if quick { "quick" } else { "thorough" }),
        a.runs,
        a.nontrivial.len(),
        js("each run is one seed: configuration, operations of every party, faults, entropy and schedule are drawn from it and executed in one fresh process; a run counts as distinct and non-trivial if its event log hash is new and the oracle judged at least one result in it"),
        a.samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "),
        a.runs,
        a.checks,
        a.sim_us as f64 / 1e6,
        js_map(&a.faults),
        a.traces.len(),
        a.logs.len(),
        a.max_configs.len(),
        js_map(&a.profiles),
        a.slowest,
        js_map(&a.stats),
        js("all modules of onion-pir under test, rand 0.8.5 except ThreadRng, rand_chacha, rand_distr, sha2, num-bigint, ndarray, crypto-bigint, std collections and locks"),
        js("entropy source behind rand::ThreadRng, getrandom, thread scheduler (real threads released one at a time), and for the PIR properties the transport, timers, clock and the server's key store"),
        js(&shrink_note),
        "[\"the reference arithmetic, worst-case noise bounds and scenario code in /verif/sim are right\", \"preemption is explored at allocations, entropy draws and lock waits only\", \"a clean batch is evidence for the sampled schedules and faults, not a proof\"]",
        (code == 1) as u8,
        wall
    );
    let dir = std::env::var("SIM_EVIDENCE").unwrap_or_else(|_| "evidence".into());
    std::fs::create_dir_all(&dir).ok();
    if let Err(e) = std::fs::write(format!("{dir}/{prop}.json"), ev) {
        eprintln!("harness error: cannot write evidence: {e}");
        if code == 0 {
            code = 2;
        }
    }
    println!("{prop}: {} runs, {ops} operations, {} results judged, {} distinct schedules, {wall:.1} s: {}", a.runs, a.checks, a.traces.len(), match code { 0 => "held", 1 => "VIOLATED", _ => "error" });
    code
}
