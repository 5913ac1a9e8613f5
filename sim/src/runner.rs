//! Runs many seeds over several worker processes, shrinks a failure, writes replay and evidence.

use crate::choice::{Choices, Recorded};
use crate::rng::mix;
use crate::world::Violation;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::{Read, Write};
use std::time::{Duration, Instant};

#[derive(Default)]
pub struct Outcome {
    pub violation: Option<Violation>,
    pub trace: Vec<String>,
    pub fired: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub signature: u64,
    pub nontrivial: bool,
    pub sim_ns: u64,
    pub switches: u64,
}

pub fn is_library(id: &str) -> bool {
    matches!(id, "C11" | "C12" | "C13" | "C14" | "C15" | "C16" | "C17" | "C18" | "C22" | "C25")
}

pub struct Sims {
    cli: crate::cli::Cli,
    lib: crate::libsim::Lib,
}

impl Sims {
    pub fn new() -> Self {
        Sims { cli: crate::cli::Cli { oracle: Default::default() }, lib: crate::libsim::Lib::new() }
    }
    pub fn run(&mut self, id: &str, ch: &mut Choices) -> (Outcome, Recorded) {
        let library = is_library(id) || (id == "C10" && ch.draw(crate::choice::Kind::Schedule, 4) == 3);
        if !library {
            let o = self.cli.run(id, ch);
            (o, ch.recorded())
        } else {
            self.lib.run(id, ch)
        }
    }
}

pub fn run_seed(seed: u64, id: &str, index: u64) -> u64 {
    mix(mix(seed, crate::rng::hash(id.as_bytes())), index)
}

fn recorded_json(r: &Recorded) -> Value {
    json!({"scenario": r[0], "fault": r[1], "schedule": r[2]})
}
fn recorded_from(v: &Value) -> Recorded {
    let f = |k: &str| -> Vec<u32> {
        v[k].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap_or(0) as u32).collect()).unwrap_or_default()
    };
    [f("scenario"), f("fault"), f("schedule")]
}

// ------------------------------------------------------------------ worker

pub fn worker(id: &str, seed: u64, k: u64, n: u64, max_runs: u64, secs: f64) {
    let t0 = Instant::now();
    let mut sims = Sims::new();
    let mut fired: BTreeMap<String, u64> = BTreeMap::new();
    let mut probes: BTreeMap<String, u64> = BTreeMap::new();
    let mut sigs: HashSet<u64> = HashSet::new();
    let (mut runs, mut nontrivial, mut sim_ns, mut switches) = (0u64, 0u64, 0u64, 0u64);
    let mut samples: Vec<Value> = vec![];
    let mut found: Option<Value> = None;
    let known = Known::load();
    let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
    let mut i = k;
    let mut worst: (f64, u64) = (0.0, 0);
    while i < max_runs && t0.elapsed().as_secs_f64() < secs {
        let t1 = Instant::now();
        let rs = run_seed(seed, id, i);
        let mut ch = Choices::from_seed(rs);
        let (o, rec) = sims.run(id, &mut ch);
        let d = t1.elapsed().as_secs_f64();
        if d > worst.0 {
            worst = (d, i);
        }
        runs += 1;
        sim_ns += o.sim_ns;
        switches += o.switches;
        for (a, b) in &o.fired {
            *fired.entry(a.clone()).or_default() += b;
        }
        for (a, b) in &o.probes {
            *probes.entry(a.clone()).or_default() += b;
        }
        if o.nontrivial {
            nontrivial += 1;
            sigs.insert(o.signature);
        }
        if samples.len() < 2 && o.nontrivial && !o.trace.is_empty() {
            let most = std::env::var("MDSIM_SAMPLE").ok().and_then(|v| v.parse().ok()).unwrap_or(30);
            let tr: Vec<&String> = o.trace.iter().take(most).collect();
            samples.push(json!({"run": i, "seed": rs.to_string(), "trace": tr}));
        }
        if let Some(v) = o.violation {
            if let Some(k) = known.matches(id, &v) {
                *known_hits.entry(k).or_default() += 1;
            } else {
                found = Some(json!({"run": i, "seed": rs.to_string(), "class": v.class, "detail": v.detail,
                    "choices": recorded_json(&rec)}));
                break;
            }
        }
        i += n;
    }
    let out = json!({
        "runs": runs, "nontrivial": nontrivial, "sim_ns": sim_ns, "switches": switches, "fired": fired,
        "probes": probes, "samples": samples, "found": found, "known": known_hits,
        "branches": crate::libsim::branches(), "all_branches": crate::simrt::BRANCHES.load(std::sync::atomic::Ordering::Relaxed),
        "slowest_run_s": worst.0, "slowest_run": worst.1,
        "sigs": sigs.iter().map(|x| x.to_string()).collect::<Vec<_>>(),
    });
    let mut so = std::io::stdout().lock();
    let _ = so.write_all(out.to_string().as_bytes());
    let _ = so.flush();
}

// ------------------------------------------------------------------ known findings

pub struct Known(Vec<(String, String, String)>);

impl Known {
    pub fn load() -> Self {
        let p = format!("{}/known_findings.txt", crate::docs::home());
        let t = std::fs::read_to_string(p).unwrap_or_default();
        let mut v = vec![];
        for l in t.lines() {
            // finding: property=C01 match="text" what fails
            let Some(r) = l.strip_prefix("finding: property=") else { continue };
            let Some((id, r)) = r.split_once(' ') else { continue };
            let Some(r) = r.strip_prefix("match=\"") else { continue };
            let Some((m, what)) = r.split_once('"') else { continue };
            v.push((id.to_string(), m.to_string(), what.trim().to_string()));
        }
        Known(v)
    }
    pub fn matches(&self, id: &str, v: &Violation) -> Option<String> {
        let text = format!("{}: {}", v.class, v.detail);
        self.0.iter().find(|k| k.0 == id && text.contains(&k.1)).map(|k| k.2.clone())
    }
    pub fn listed(&self, id: &str) -> Vec<String> {
        self.0.iter().filter(|k| k.0 == id).map(|k| k.2.clone()).collect()
    }
}

// ------------------------------------------------------------------ shrinking

struct Shrinker<'a> {
    sims: &'a mut Sims,
    id: String,
    class: String,
    best: Recorded,
    deadline: Instant,
    tried: HashSet<u64>,
    pub attempts: u64,
}

fn weight(r: &Recorded) -> (usize, u64) {
    (r.iter().map(Vec::len).sum(), r.iter().flatten().map(|x| u64::from(*x)).sum())
}

impl Shrinker<'_> {
    fn attempt(&mut self, cand: Recorded) -> bool {
        if Instant::now() > self.deadline {
            return false;
        }
        let mut h = crate::rng::Fnv::default();
        for (i, s) in cand.iter().enumerate() {
            h.addn(i as u64 + 1_000_000);
            for x in s {
                h.addn(u64::from(*x));
            }
        }
        if !self.tried.insert(h.0) {
            return false;
        }
        self.attempts += 1;
        let mut ch = Choices::from_recorded(&cand);
        let sims = &mut *self.sims;
        let id = self.id.clone();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| sims.run(&id, &mut ch)));
        let Ok((o, mut rec)) = r else { return false };
        for s in &mut rec {
            while s.last() == Some(&0) {
                s.pop();
            }
        }
        if o.violation.is_some_and(|v| v.class == self.class) && weight(&rec) < weight(&self.best) {
            self.best = rec;
            return true;
        }
        false
    }
    fn go(&mut self) {
        for s in &mut self.best {
            while s.last() == Some(&0) {
                s.pop();
            }
        }
        loop {
            let start = weight(&self.best);
            for st in [2usize, 1, 0] {
                // cut the tail
                let mut keep = 0;
                while keep < self.best[st].len() {
                    let mut c = self.best.clone();
                    c[st].truncate(keep);
                    if self.attempt(c) {
                        break;
                    }
                    keep = (keep * 2).max(1);
                }
                // zero and delete spans, from large to small
                let mut size = (self.best[st].len() / 2).max(1);
                loop {
                    let mut i = 0;
                    while i < self.best[st].len() {
                        let end = (i + size).min(self.best[st].len());
                        let mut c = self.best.clone();
                        c[st].drain(i..end);
                        if self.attempt(c) {
                            continue;
                        }
                        let mut c = self.best.clone();
                        let any = c[st][i..end].iter().any(|x| *x != 0);
                        c[st][i..end].fill(0);
                        if any {
                            self.attempt(c);
                        }
                        i += size;
                        if Instant::now() > self.deadline {
                            return;
                        }
                    }
                    if size == 1 {
                        break;
                    }
                    size /= 2;
                }
                // lower single values
                let mut i = 0;
                while i < self.best[st].len() {
                    let v = self.best[st][i];
                    for t in [v / 2, v.saturating_sub(1)] {
                        if t < v {
                            let mut c = self.best.clone();
                            c[st][i] = t;
                            if self.attempt(c) {
                                break;
                            }
                        }
                    }
                    i += 1;
                    if Instant::now() > self.deadline {
                        return;
                    }
                }
            }
            if weight(&self.best) >= start {
                return;
            }
        }
    }
}

// ------------------------------------------------------------------ check

pub struct Tier {
    pub secs: f64,
    pub max_runs: u64,
    pub shrink_secs: u64,
}

pub fn check(id: &str, tier: &str, seed: u64) -> i32 {
    let t0 = Instant::now();
    let home = crate::docs::home();
    let scale: f64 = std::env::var("MDSIM_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(0.0);
    let mut t = if tier == "thorough" {
        Tier { secs: 600.0, max_runs: u64::MAX, shrink_secs: 120 }
    } else {
        Tier { secs: 25.0, max_runs: u64::MAX, shrink_secs: 15 }
    };
    if scale > 0.0 {
        t.secs = scale;
    }
    let n = std::thread::available_parallelism().map_or(4, |x| x.get()).clamp(1, 16) as u64;
    let exe = std::env::current_exe().unwrap_or_else(|e| crate::harness_error(&e.to_string()));
    let mut kids = vec![];
    for k in 0..n {
        let c = std::process::Command::new(&exe)
            .args(["worker", id, &seed.to_string(), &k.to_string(), &n.to_string(), &t.max_runs.to_string(), &t.secs.to_string()])
            .stdout(std::process::Stdio::piped())
            .stdin(std::process::Stdio::null())
            .spawn()
            .unwrap_or_else(|e| crate::harness_error(&format!("cannot start a worker: {e}")));
        kids.push(c);
    }
    // read every worker's report; the first one with a finding ends the search
    let (tx, rx) = std::sync::mpsc::channel();
    let mut pids = vec![];
    for mut c in kids {
        let tx = tx.clone();
        pids.push(c.id() as i32);
        std::thread::spawn(move || {
            let mut s = String::new();
            if let Some(o) = c.stdout.as_mut() {
                let _ = o.read_to_string(&mut s);
            }
            let st = c.wait();
            let _ = tx.send((s, st.map(|x| x.success()).unwrap_or(false)));
        });
    }
    drop(tx);
    let mut reports: Vec<Value> = vec![];
    let mut found: Option<Value> = None;
    let mut broken = 0;
    let deadline = t0 + Duration::from_secs_f64(t.secs + 150.0);
    let mut left = n;
    while left > 0 {
        let wait = deadline.saturating_duration_since(Instant::now());
        let Ok((s, ok)) = rx.recv_timeout(wait) else {
            for p in &pids {
                unsafe { libc::kill(*p, libc::SIGKILL) };
            }
            crate::harness_error("a worker did not finish in time");
        };
        left -= 1;
        match serde_json::from_str::<Value>(&s) {
            Ok(v) if ok => {
                if found.is_none() && !v["found"].is_null() {
                    found = Some(v["found"].clone());
                    for p in &pids {
                        unsafe { libc::kill(*p, libc::SIGTERM) };
                    }
                }
                reports.push(v);
            }
            _ if found.is_some() => {}
            _ => broken += 1,
        }
    }
    if broken > 0 && found.is_none() {
        crate::harness_error(&format!("{broken} of {n} workers failed"));
    }
    let search_s = t0.elapsed().as_secs_f64();

    // merge
    let sum = |k: &str| reports.iter().map(|r| r[k].as_u64().unwrap_or(0)).sum::<u64>();
    let merge = |k: &str| {
        let mut m: BTreeMap<String, u64> = BTreeMap::new();
        for r in &reports {
            if let Some(o) = r[k].as_object() {
                for (a, b) in o {
                    *m.entry(a.clone()).or_default() += b.as_u64().unwrap_or(0);
                }
            }
        }
        m
    };
    let mut sigs: HashSet<&str> = HashSet::new();
    for r in &reports {
        if let Some(a) = r["sigs"].as_array() {
            sigs.extend(a.iter().filter_map(|x| x.as_str()));
        }
    }
    let mut samples: Vec<Value> = vec![];
    for r in &reports {
        if let Some(a) = r["samples"].as_array() {
            samples.extend(a.iter().take(1).cloned());
        }
    }
    samples.truncate(3);
    let runs = sum("runs");
    let fired = merge("fired");
    let known = merge("known");

    let listed = Known::load().listed(id);
    for k in &listed {
        println!("KNOWN-FINDING: property={id} {k}");
    }

    let mut replay_path = String::new();
    let mut shrink_info = Value::Null;
    if let Some(f) = &found {
        let rec = recorded_from(&f["choices"]);
        let class = f["class"].as_str().unwrap_or("").to_string();
        let before = weight(&rec);
        let mut sims = Sims::new();
        crate::set_quiet(true);
        let (best, attempts) = {
            let mut sh = Shrinker {
                sims: &mut sims,
                id: id.to_string(),
                class: class.clone(),
                best: rec.clone(),
                deadline: Instant::now() + Duration::from_secs(t.shrink_secs),
                tried: HashSet::new(),
                attempts: 0,
            };
            sh.go();
            (sh.best.clone(), sh.attempts)
        };
        let mut best = best;
        let mut ch = Choices::from_recorded(&best);
        let (mut o, _) = sims.run(id, &mut ch);
        if o.violation.as_ref().is_none_or(|v| v.class != class) {
            best = rec.clone();
            let mut ch = Choices::from_recorded(&best);
            o = sims.run(id, &mut ch).0;
        }
        crate::set_quiet(false);
        let detail = o.violation.as_ref().map_or(f["detail"].as_str().unwrap_or("").to_string(), |v| v.detail.clone());
        let reproduced = o.violation.is_some();
        let after = weight(&best);
        let _ = std::fs::create_dir_all(format!("{home}/replays"));
        replay_path = format!("{home}/replays/{id}-{}.json", f["seed"].as_str().unwrap_or("0"));
        let file = json!({
            "property": id, "verif_seed": seed, "run": f["run"], "seed": f["seed"], "class": class, "detail": detail,
            "choices": recorded_json(&best), "event_hash": o.signature.to_string(), "reproduced_in_process": reproduced,
            "trace": o.trace,
        });
        if std::fs::write(&replay_path, serde_json::to_string_pretty(&file).unwrap_or_default()).is_err() {
            crate::harness_error("cannot write the replay file");
        }
        shrink_info = json!({"choices_before": before.0, "choices_after": after.0, "attempts": attempts, "reproduced": reproduced});
        println!("seed {} run {}: {class}: {detail}", f["seed"].as_str().unwrap_or(""), f["run"]);
        println!("minimised from {} to {} recorded choices in {attempts} attempts", before.0, after.0);
        let tr = o.trace.len();
        for l in o.trace.iter().skip(tr.saturating_sub(60)) {
            println!("  {l}");
        }
    }

    let per_hour = |x: u64| (x as f64 / search_s.max(0.001) * 3600.0) as u64;
    let lib = is_library(id);
    let mut branches: HashSet<u64> = HashSet::new();
    let mut all_branches = 0;
    for r in &reports {
        branches.extend(r["branches"].as_array().into_iter().flatten().filter_map(|x| x.as_u64()));
        all_branches = r["all_branches"].as_u64().unwrap_or(0);
    }
    let evidence = json!({
        "property": id,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": sigs.len(),
            "rule": crate::rules(id),
            "samples": samples,
            "nontrivial_runs": sum("nontrivial"),
            "simulated_runs_per_hour": per_hour(runs),
            "seeds_per_hour": per_hour(runs),
            "simulated_seconds": sum("sim_ns") as f64 / 1e9,
            "faults_injected": fired,
            "context_switches": sum("switches"),
            "distinct_event_logs": sigs.len(),
            "library_branches_reached": if branches.is_empty() { Value::Null } else { json!(branches.len()) },
            "library_branches": if branches.is_empty() { Value::Null } else { json!(all_branches) },
            "probes": merge("probes"),
            "known_findings_hit": known,
            "workers": n,
            "search_wall_s": search_s,
            "real_components": if lib {
                json!(["markdown-fmt library (all of src/ but main.rs)", "pulldown-cmark, textwrap, regex, tracing", "Rust standard library"])
            } else {
                json!(["the markdown-fmt executable as cargo builds it (main.rs, the library, clap, tracing-subscriber, anyhow)", "Rust standard library and the C library above the interposed calls"])
            },
            "stub_components": if lib {
                json!(["host program: callbacks, subscribers, caller threads", "thread scheduler", "allocator failure and layout", "clock and random source"])
            } else {
                json!(["file system, page cache and disk", "standard streams", "process ids, clock, random source", "allocation failures", "process scheduler", "users and permissions"])
            },
            "minimisation": shrink_info,
        },
        "assumptions": crate::assumptions(id),
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": i32::from(found.is_some()),
    });
    let _ = std::fs::create_dir_all(format!("{home}/evidence"));
    if std::fs::write(format!("{home}/evidence/{id}.json"), serde_json::to_string_pretty(&evidence).unwrap_or_default()).is_err() {
        crate::harness_error("cannot write the evidence file");
    }
    println!(
        "{id} {tier}: {runs} runs, {} distinct non-trivial, {:.1} s search, {} faults, {} switches",
        sigs.len(),
        search_s,
        fired.values().sum::<u64>(),
        sum("switches")
    );
    if found.is_some() {
        println!("VIOLATION property={id} replay={replay_path}");
        return 1;
    }
    if runs == 0 {
        crate::harness_error("no run was made");
    }
    0
}

// ------------------------------------------------------------------ replay and self-test

pub fn replay(path: &str) -> i32 {
    let t = std::fs::read_to_string(path).unwrap_or_else(|e| crate::harness_error(&format!("{path}: {e}")));
    let v: Value = serde_json::from_str(&t).unwrap_or_else(|e| crate::harness_error(&format!("{path}: {e}")));
    let id = v["property"].as_str().unwrap_or("").to_string();
    let rec = recorded_from(&v["choices"]);
    let mut sims = Sims::new();
    let mut ch = Choices::from_recorded(&rec);
    let (o, _) = sims.run(&id, &mut ch);
    for l in &o.trace {
        println!("  {l}");
    }
    match o.violation {
        Some(x) => {
            println!("{}: {}", x.class, x.detail);
            let same = v["event_hash"].as_str() == Some(o.signature.to_string().as_str());
            println!("event log {} the recorded one", if same { "equals" } else { "DIFFERS from" });
            println!("VIOLATION property={id} replay={path}");
            1
        }
        None => {
            println!("{id}: the recorded run shows no violation");
            0
        }
    }
}

/// Print one line per run; two invocations must agree.
pub fn selftest(id: &str, seed: u64, k: u64, n: u64, count: u64) {
    let mut sims = Sims::new();
    let mut i = k;
    while i < count {
        let mut ch = Choices::from_seed(run_seed(seed, id, i));
        let (o, rec) = sims.run(id, &mut ch);
        let mut h = crate::rng::Fnv::default();
        for s in &rec {
            for x in s {
                h.addn(u64::from(*x));
            }
            h.addn(u64::MAX);
        }
        if std::env::var_os("MDSIM_TRACE").is_some() {
            for l in &o.trace {
                println!("  {l}");
            }
        }
        for l in &o.trace {
            h.add(l.as_bytes());
        }
        println!("{id} {i} {:016x} {:016x} {}", o.signature, h.0, o.violation.map_or(String::new(), |v| v.class));
        i += n;
    }
}
