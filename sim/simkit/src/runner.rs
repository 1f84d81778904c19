//! Batches of runs: workers, known findings, shrinking, replay, evidence.

use crate::ctx::{Ctx, Fail, Res, Stats};
use crate::rng::mix;
use serde::{Deserialize, Serialize};
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::Arc;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::time::{Duration, Instant};

/// A directed run that demonstrates one defect: fails exactly while the defect is there.
pub struct Known {
    pub sig: &'static str,
    pub run: fn(&Ctx) -> Res,
}

pub struct PropertyDef {
    pub id: &'static str,
    pub run: fn(&Ctx) -> Res,
    pub quick_runs: u64,
    pub thorough_runs: u64,
    /// How runs are made and what makes one non-trivial.
    pub rule: &'static str,
    /// What `states` counts.
    pub state_measure: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub assumptions: &'static [&'static str],
    /// Conditions that the workload is meant to reach; a probe at zero is reported.
    pub expect: &'static [&'static str],
    pub known: &'static [Known],
}

#[derive(Clone, Serialize, Deserialize)]
struct Replay {
    property: String,
    seed: u64,
    run: u64,
    class: String,
    msg: String,
    sig: Option<String>,
    /// Name of the directed run, if it is one.
    directed: Option<String>,
    /// Whether `tape` decides the run; otherwise (the process died) it is made again from seed and run.
    by_tape: bool,
    tape: Vec<u64>,
    draws_before_shrinking: usize,
    hash: u64,
    trace: Vec<String>,
}

#[derive(Clone, Serialize, Deserialize)]
struct Found {
    run: u64,
    fail: Fail,
    tape: Vec<u64>,
    marks: Vec<usize>,
}

#[derive(Default, Serialize, Deserialize)]
struct WorkerOut {
    runs: u64,
    next: u64,
    distinct: Vec<u64>,
    stats: Stats,
    states: Vec<u64>,
    found: Option<Found>,
    known_hits: BTreeMap<String, u64>,
    hashes: Vec<(u64, u64)>,
    samples: Vec<Value>,
    wall_s: f64,
}

struct RunResult {
    ctx: Ctx,
    fail: Option<Fail>,
}

const HANG_S: u64 = 90;

/// One run, in a thread of its own: thread-local state (hash seeds, generators) starts afresh.
fn execute(f: fn(&Ctx) -> Res, ctx: Ctx, entropy: u64) -> RunResult {
    crate::simos::reset(entropy);
    let c2 = ctx.clone();
    let h = std::thread::Builder::new()
        .name("run".into())
        .stack_size(16 << 20)
        .spawn(move || {
            crate::simos::enter();
            crate::set_current(Some(c2.clone()));
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&c2)));
            crate::set_current(None);
            let out = match r {
                Ok(Ok(())) => None,
                Ok(Err(e)) => Some(e),
                Err(e) => Some(Fail::new("panic", format!("the code under test panicked: {}", last_panic(&*e)))),
            };
            crate::simos::leave();
            out
        })
        .expect("run thread");
    let fail = h.join().unwrap_or_else(|_| Some(Fail::new("panic", "panic outside the run")));
    RunResult { ctx, fail }
}

static LAST_PANIC: std::sync::Mutex<Option<String>> = std::sync::Mutex::new(None);

fn last_panic(e: &(dyn std::any::Any + Send)) -> String {
    let t = crate::panic_text(e);
    match LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()).take() {
        Some(l) if l.contains(&t) => l,
        _ => t,
    }
}

fn quiet_panics() {
    let verbose = std::env::var("SIM_PANICS").is_ok();
    std::panic::set_hook(Box::new(move |i| {
        let text = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if verbose || !crate::simos::in_sim() {
            eprintln!("panic: {text} ({l})");
        }
        *LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()) = Some(format!("{text} ({l})"));
    }));
}

/// Text and place of the last panic.
pub fn panic_place() -> Option<String> {
    LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()).clone()
}

fn run_seed(p: &str, seed: u64, run: u64) -> u64 {
    mix(p, &[seed, run])
}

fn do_generate(p: &PropertyDef, seed: u64, run: u64, trace: bool) -> RunResult {
    let rs = run_seed(p.id, seed, run);
    execute(p.run, Ctx::generate(rs, trace), ENTROPY)
}
fn do_tape(p: &PropertyDef, tape: &[u64], trace: bool) -> RunResult {
    execute(p.run, Ctx::from_tape(tape.to_vec(), trace), ENTROPY)
}
/// The entropy stream is the same in every run; scenarios re-seed it from the tape.
const ENTROPY: u64 = 0x5EED;

fn root() -> PathBuf {
    std::env::var("VERIF_ROOT").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

#[derive(Deserialize, Clone)]
struct KnownEntry {
    property: String,
    sig: String,
    what: String,
    status: String,
}

fn known_entries(id: &str) -> Vec<KnownEntry> {
    let t = std::fs::read_to_string(root().join("known_findings.jsonl")).unwrap_or_default();
    t.lines()
        .filter_map(|l| serde_json::from_str::<KnownEntry>(l).ok())
        .filter(|e| e.property == id && e.status == "known")
        .collect()
}

fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned()
}

fn die(msg: &str) -> ! {
    eprintln!("harness error: {msg}");
    std::process::exit(2)
}

static WARM: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
fn warm_up(p: &PropertyDef) {
    for run in 0..WARM.load(std::sync::atomic::Ordering::Relaxed) {
        do_generate(p, 0, u64::MAX - run, false);
    }
}

/// Entry point of a harness executable.
pub fn main(props: &[PropertyDef]) {
    main_warm(props, 0)
}

/// The same for code that initializes tables on first use: what that draws (the keys of hash maps) would
/// make the first run of a process differ from the same run later on. `warm` runs go first, and do not count.
pub fn main_warm(props: &[PropertyDef], warm: u64) {
    quiet_panics();
    let args: Vec<String> = std::env::args().collect();
    let cmd = args.get(1).map(String::as_str).unwrap_or("");
    if cmd == "list" {
        for p in props {
            println!("{}", p.id);
        }
        return;
    }
    let id = args.get(2).cloned().unwrap_or_default();
    let Some(p) = props.iter().find(|p| p.id == id) else { die(&format!("unknown property {id:?}")) };
    WARM.store(warm, std::sync::atomic::Ordering::Relaxed);
    if cmd != "check" {
        warm_up(p);
    }
    match cmd {
        "check" => check(p, &args),
        "worker" => worker(p, &args),
        "shrink" => shrink(p, &args),
        "replay" => replay(p, &args),
        "one" => one(p, &args),
        "selftest" => selftest(p, &args),
        _ => die("usage: check|replay|one|selftest ID .."),
    }
}

fn threads() -> u64 {
    std::env::var("SIM_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| {
        std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4).clamp(1, 16)
    })
}

fn seed_env() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<u64>().ok()).unwrap_or(1)
}

fn spawn_self(args: &[String]) -> std::process::Child {
    let exe = std::env::current_exe().unwrap_or_else(|e| die(&e.to_string()));
    Command::new(exe)
        .args(args)
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .spawn()
        .unwrap_or_else(|e| die(&format!("spawn: {e}")))
}

fn scratch() -> PathBuf {
    let d = std::env::temp_dir().join(format!("simkit-{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap_or_else(|e| die(&e.to_string()));
    d
}

fn check(p: &PropertyDef, args: &[String]) {
    let t0 = Instant::now();
    let tier = arg(args, "--tier").unwrap_or_else(|| "quick".into());
    let seed = seed_env();
    let n = threads();
    let (runs, cap) = if tier == "thorough" { (p.thorough_runs, 720u64) } else { (p.quick_runs, 240u64) };
    let runs = std::env::var("SIM_RUNS").ok().and_then(|s| s.parse().ok()).unwrap_or(runs);
    let cap = std::env::var("SIM_CAP").ok().and_then(|s| s.parse().ok()).unwrap_or(cap);
    let dir = scratch();
    let known = known_entries(p.id);
    let mut violations: Vec<(Replay, PathBuf)> = Vec::new();
    let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();

    // Directed runs first.
    for k in p.known {
        let r = execute(k.run, Ctx::from_tape(vec![], true), ENTROPY);
        if std::env::var_os("SIM_DIRECTED").is_some() {
            println!("-- {}\n{}\n{:?}", k.sig, r.ctx.lock().trace.join("\n"), r.fail);
        }
        if let Some(f) = r.fail {
            let sig = f.sig.clone().unwrap_or_else(|| k.sig.into());
            if known.iter().any(|e| e.sig == sig) {
                *known_hits.entry(sig).or_default() += 1;
            } else {
                let trace = r.ctx.lock().trace.clone();
                let hash = r.ctx.lock().hash;
                let rep = Replay {
                    property: p.id.into(),
                    seed,
                    run: 0,
                    class: f.class,
                    msg: f.msg,
                    sig: Some(sig),
                    directed: Some(k.sig.into()),
                    by_tape: true,
                    tape: vec![],
                    draws_before_shrinking: 0,
                    hash,
                    trace,
                };
                let path = write_replay(&rep, "directed");
                violations.push((rep, path));
            }
        }
    }

    let mut agg = WorkerOut::default();
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut states: HashSet<u64> = HashSet::new();
    let mut found: Vec<Found> = Vec::new();
    let mut dead: Vec<(u64, String)> = Vec::new();
    if violations.is_empty() {
        let mut kids = Vec::new();
        for k in 0..n {
            let out = dir.join(format!("w{k}.json"));
            let cur = dir.join(format!("w{k}.cur"));
            let a: Vec<String> = [
                "worker",
                p.id,
                "--k",
                &k.to_string(),
                "--n",
                &n.to_string(),
                "--runs",
                &runs.to_string(),
                "--cap",
                &cap.to_string(),
                "--out",
                &out.to_string_lossy(),
                "--cur",
                &cur.to_string_lossy(),
            ]
            .iter()
            .map(|s| s.to_string())
            .collect();
            kids.push((k, spawn_self(&a), out, cur));
        }
        for (k, mut c, out, cur) in kids {
            let st = c.wait().unwrap_or_else(|e| die(&e.to_string()));
            match st.code() {
                Some(0) => {}
                Some(97) => {
                    let r = std::fs::read_to_string(&cur).ok().and_then(|s| s.trim().parse().ok()).unwrap_or(k);
                    dead.push((r, "hang".into()));
                }
                Some(c) => die(&format!("worker {k} ended with {c}")),
                None => {
                    let r = std::fs::read_to_string(&cur).ok().and_then(|s| s.trim().parse().ok()).unwrap_or(k);
                    use std::os::unix::process::ExitStatusExt;
                    let sig = st.signal().unwrap_or(0);
                    if sig == 9 {
                        die(&format!("worker {k} was killed"));
                    }
                    dead.push((r, format!("abort-signal-{sig}")));
                }
            }
            if let Some(w) = std::fs::read(&out).ok().and_then(|b| serde_json::from_slice::<WorkerOut>(&b).ok()) {
                agg.runs += w.runs;
                add_stats(&mut agg.stats, &w.stats);
                distinct.extend(&w.distinct);
                states.extend(&w.states);
                agg.hashes.extend(w.hashes);
                if agg.samples.len() < 4 {
                    agg.samples.extend(w.samples);
                }
                for (s, c) in w.known_hits {
                    *known_hits.entry(s).or_default() += c;
                }
                if let Some(f) = w.found {
                    found.push(f);
                }
            }
        }
        found.sort_by_key(|f| f.run);
        dead.sort();
    }
    let batch_s = t0.elapsed().as_secs_f64();

    if let Some(f) = found.first()
        && dead.first().is_none_or(|d| f.run <= d.0)
    {
        let rep = shrink_in_child(p, seed, f, &dir);
        let path = write_replay(&rep, "seeded");
        violations.push((rep, path));
    } else if let Some((run, class)) = dead.first() {
        let rep = Replay {
            property: p.id.into(),
            seed,
            run: *run,
            class: class.clone(),
            msg: format!("run {run} did not end by itself: {class}"),
            sig: None,
            directed: None,
            by_tape: false,
            tape: vec![],
            draws_before_shrinking: 0,
            hash: 0,
            trace: vec![],
        };
        let path = write_replay(&rep, "seeded");
        violations.push((rep, path));
    }

    // Determinism: some of the runs again, in this fresh process, logs compared.
    let mut rechecked = 0u64;
    let mut mismatched = 0u64;
    if violations.is_empty() {
        let mut hs = agg.hashes.clone();
        hs.sort();
        let step = (hs.len() / 16).max(1);
        warm_up(p);
        let tr = Instant::now();
        for (run, h) in hs.iter().step_by(step).take(16) {
            let r = do_generate(p, seed, *run, false);
            rechecked += 1;
            if r.ctx.lock().hash != *h {
                mismatched += 1;
            }
            if tr.elapsed() > Duration::from_secs(20) {
                break;
            }
        }
        if mismatched > 0 {
            eprintln!("WARNING: {mismatched} of {rechecked} repeated runs logged something else");
        }
    }

    let s = &agg.stats;
    let unreached: Vec<&str> = p
        .expect
        .iter()
        .copied()
        .filter(|e| !s.probes.contains_key(*e) && !s.faults.contains_key(*e))
        .collect();
    if !unreached.is_empty() && violations.is_empty() && tier == "quick" {
        eprintln!("note: conditions not reached: {unreached:?}");
    }
    let per_hour = |x: f64| if batch_s > 0.0 { (x / batch_s * 3600.0).round() } else { 0.0 };
    let ev = json!({
        "property": p.id,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": agg.runs,
            "distinct_nontrivial": distinct.len(),
            "rule": p.rule,
            "samples": agg.samples,
            "simulated_runs": agg.runs,
            "runs_per_hour": per_hour(agg.runs as f64),
            "seeds_per_hour": per_hour(agg.runs as f64),
            "simulated_seconds": s.sim_ns as f64 / 1e9,
            "steps": s.steps,
            "choices_drawn": s.draws,
            "context_switches": s.switches,
            "operations": s.ops,
            "faults_injected": s.faults,
            "probes_hit": s.probes,
            "probes_not_reached": unreached,
            "distinct_states": states.len(),
            "distinct_states_measure": p.state_measure,
            "distinct_executions_measure": "64-bit hash of the whole event log of a run",
            "components_real": p.real,
            "components_stub": p.stub,
            "determinism_rechecks": rechecked,
            "determinism_mismatches": mismatched,
            "known_finding_hits": known_hits,
            "directed_runs": p.known.len(),
            "workers": n,
        },
        "assumptions": p.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violations.len(),
    });
    let ep = root().join("evidence");
    let _ = std::fs::create_dir_all(&ep);
    if let Err(e) = std::fs::write(ep.join(format!("{}.json", p.id)), serde_json::to_vec_pretty(&ev).unwrap()) {
        die(&format!("evidence: {e}"));
    }
    let _ = std::fs::remove_dir_all(&dir);

    for e in &known {
        if known_hits.contains_key(&e.sig) {
            println!("KNOWN-FINDING: property={} {}", p.id, e.what);
        }
    }
    for (r, path) in &violations {
        println!("{}: {}", r.class, r.msg);
        for t in r.trace.iter().rev().take(40).rev() {
            println!("    {t}");
        }
        println!("VIOLATION property={} replay={}", p.id, path.display());
    }
    println!(
        "{} {}: {} runs, {} distinct non-trivial, {} states, {:.1} simulated s, {:.1} s wall, {} violations",
        p.id,
        tier,
        agg.runs,
        distinct.len(),
        states.len(),
        s.sim_ns as f64 / 1e9,
        t0.elapsed().as_secs_f64(),
        violations.len()
    );
    std::process::exit(i32::from(!violations.is_empty()));
}

fn add_stats(a: &mut Stats, b: &Stats) {
    for (m, n) in [(&mut a.ops, &b.ops), (&mut a.faults, &b.faults), (&mut a.probes, &b.probes)] {
        for (k, v) in n {
            *m.entry(k.clone()).or_default() += v;
        }
    }
    a.sim_ns += b.sim_ns;
    a.switches += b.switches;
    a.steps += b.steps;
    a.draws += b.draws;
}

fn write_replay(r: &Replay, kind: &str) -> PathBuf {
    let d = root().join("replays");
    let _ = std::fs::create_dir_all(&d);
    let path = d.join(format!("{}-{}-s{}-r{}.json", r.property, kind, r.seed, r.run));
    if let Err(e) = std::fs::write(&path, serde_json::to_vec_pretty(r).unwrap()) {
        die(&format!("replay: {e}"));
    }
    path
}

fn worker(p: &PropertyDef, args: &[String]) {
    let get = |n: &str| arg(args, n).and_then(|s| s.parse::<u64>().ok()).unwrap_or_else(|| die(n));
    let (k, n, runs, cap) = (get("--k"), get("--n"), get("--runs"), get("--cap"));
    let out_path = arg(args, "--out").unwrap_or_else(|| die("--out"));
    let cur_path = arg(args, "--cur").unwrap_or_else(|| die("--cur"));
    let seed = seed_env();
    let known: BTreeSet<String> = known_entries(p.id).into_iter().map(|e| e.sig).collect();
    let t0 = Instant::now();
    let mut o = WorkerOut::default();
    let mut distinct = HashSet::new();
    let mut states: HashSet<u64> = HashSet::new();
    let cur_file = std::fs::File::create(&cur_path).unwrap_or_else(|e| die(&e.to_string()));
    let beat = Arc::new(AtomicU64::new(0));
    let busy = Arc::new(AtomicBool::new(false));
    {
        let (beat, busy) = (beat.clone(), busy.clone());
        std::thread::spawn(move || {
            let mut last = (0u64, Instant::now());
            loop {
                std::thread::sleep(Duration::from_millis(500));
                let b = beat.load(Ordering::SeqCst);
                if b != last.0 || !busy.load(Ordering::SeqCst) {
                    last = (b, Instant::now());
                } else if last.1.elapsed() > Duration::from_secs(HANG_S) {
                    std::process::exit(97);
                }
            }
        });
    }
    let mut run = k;
    while run < runs && t0.elapsed() < Duration::from_secs(cap) {
        use std::os::unix::fs::FileExt;
        let _ = cur_file.write_at(format!("{run:>16}\n").as_bytes(), 0);
        beat.fetch_add(1, Ordering::SeqCst);
        busy.store(true, Ordering::SeqCst);
        let want_sample = k == 0 && o.samples.len() < 3 && (o.runs == 1 || o.runs == 50 || o.runs == 400);
        let r = do_generate(p, seed, run, want_sample);
        busy.store(false, Ordering::SeqCst);
        o.runs += 1;
        let g = r.ctx.lock();
        add_stats(&mut o.stats, &g.stats);
        if g.nontrivial && distinct.len() < 400_000 {
            distinct.insert(g.hash);
        }
        if states.len() < 400_000 {
            states.extend(&g.states);
        }
        if o.runs % 64 == 1 && o.hashes.len() < 4096 {
            o.hashes.push((run, g.hash));
        }
        if want_sample {
            let t: Vec<String> = g.trace.iter().take(60).map(|s| s.chars().take(240).collect()).collect();
            o.samples.push(json!({"run": run, "choices": g.rec.len(), "events_shown": t.len(), "log": t}));
        }
        if let Some(f) = r.fail {
            match &f.sig {
                Some(s) if known.contains(s) => *o.known_hits.entry(s.clone()).or_default() += 1,
                _ => {
                    o.found = Some(Found { run, fail: f, tape: g.rec.clone(), marks: g.marks.clone() });
                    break;
                }
            }
        }
        drop(g);
        run += n;
    }
    o.next = run;
    o.distinct = distinct.into_iter().collect();
    o.states = states.into_iter().collect();
    o.wall_s = t0.elapsed().as_secs_f64();
    std::fs::write(out_path, serde_json::to_vec(&o).unwrap()).unwrap_or_else(|e| die(&e.to_string()));
}

fn shrink_in_child(p: &PropertyDef, seed: u64, f: &Found, dir: &Path) -> Replay {
    let inp = dir.join("shrink.in");
    let out = dir.join("shrink.out");
    std::fs::write(&inp, serde_json::to_vec(f).unwrap()).unwrap_or_else(|e| die(&e.to_string()));
    let a: Vec<String> = ["shrink", p.id, "--in", &inp.to_string_lossy(), "--out", &out.to_string_lossy()]
        .iter()
        .map(|s| s.to_string())
        .collect();
    let mut c = spawn_self(&a);
    let t0 = Instant::now();
    loop {
        match c.try_wait() {
            Ok(Some(_)) => break,
            Ok(None) if t0.elapsed() > Duration::from_secs(60) => {
                let _ = c.kill();
                let _ = c.wait();
                break;
            }
            _ => std::thread::sleep(Duration::from_millis(20)),
        }
    }
    // The child rewrites the file at every improvement: whatever is there is the best so far.
    std::fs::read(&out).ok().and_then(|b| serde_json::from_slice::<Replay>(&b).ok()).unwrap_or_else(|| Replay {
        property: p.id.into(),
        seed,
        run: f.run,
        class: f.fail.class.clone(),
        msg: f.fail.msg.clone(),
        sig: f.fail.sig.clone(),
        directed: None,
        by_tape: true,
        tape: f.tape.clone(),
        draws_before_shrinking: f.tape.len(),
        hash: 0,
        trace: vec![],
    })
}

fn shrink(p: &PropertyDef, args: &[String]) {
    let inp = arg(args, "--in").unwrap_or_else(|| die("--in"));
    let out = arg(args, "--out").unwrap_or_else(|| die("--out"));
    let f: Found = serde_json::from_slice(&std::fs::read(inp).unwrap_or_else(|e| die(&e.to_string())))
        .unwrap_or_else(|e| die(&e.to_string()));
    let seed = seed_env();
    let t0 = Instant::now();
    let budget = Duration::from_secs(25);
    let known: BTreeSet<String> = known_entries(p.id).into_iter().map(|e| e.sig).collect();
    let class = f.fail.class.clone();
    // (tape, marks) of a run that fails in the same way, or nothing.
    let attempt = |tape: &[u64]| -> Option<(Vec<u64>, Vec<usize>)> {
        let r = do_tape(p, tape, false);
        let fail = r.fail?;
        if fail.class != class || fail.sig.as_ref().is_some_and(|s| known.contains(s)) {
            return None;
        }
        let g = r.ctx.lock();
        Some((g.rec.clone(), g.marks.clone()))
    };
    let write = |tape: &[u64]| {
        let r = do_tape(p, tape, true);
        let g = r.ctx.lock();
        let fail = r.fail.clone().unwrap_or_else(|| f.fail.clone());
        let rep = Replay {
            property: p.id.into(),
            seed,
            run: f.run,
            class: fail.class,
            msg: fail.msg,
            sig: fail.sig,
            directed: None,
            by_tape: true,
            tape: tape.to_vec(),
            draws_before_shrinking: f.tape.len(),
            hash: g.hash,
            trace: g.trace.clone(),
        };
        std::fs::write(&out, serde_json::to_vec(&rep).unwrap()).unwrap_or_else(|e| die(&e.to_string()));
    };
    let Some((mut best, mut marks)) = attempt(&f.tape) else {
        // Does not repeat in another process: report as it was found.
        return;
    };
    write(&best);
    let trim = |t: &mut Vec<u64>| {
        while t.last() == Some(&0) {
            t.pop();
        }
    };
    trim(&mut best);
    'outer: loop {
        let before = (best.len(), best.iter().map(|v| u128::from(*v)).sum::<u128>());
        // Steps away, many at a time first.
        let mut span = marks.len().max(1) / 2;
        while span >= 1 {
            let mut i = 0;
            while i + span < marks.len() {
                if t0.elapsed() > budget {
                    break 'outer;
                }
                let (a, b) = (marks[i], marks[i + span].min(best.len()));
                if a < b {
                    let mut t = best.clone();
                    t.drain(a..b);
                    if let Some((nt, nm)) = attempt(&t)
                        && nt.len() < best.len() + span
                    {
                        let shorter = {
                            let mut x = nt.clone();
                            trim(&mut x);
                            x.len() < best.len()
                        };
                        if shorter {
                            best = nt;
                            trim(&mut best);
                            marks = nm;
                            continue;
                        }
                    }
                }
                i += span.max(1);
            }
            span /= 2;
        }
        write(&best);
        // Plain deletion of draws.
        for len in [32usize, 8, 2, 1] {
            let mut i = 0;
            while i + len <= best.len() {
                if t0.elapsed() > budget {
                    break 'outer;
                }
                if best.len() > 600 && len == 1 {
                    break;
                }
                let mut t = best.clone();
                t.drain(i..i + len);
                if let Some((mut nt, nm)) = attempt(&t) {
                    trim(&mut nt);
                    if nt.len() < best.len() {
                        best = nt;
                        marks = nm;
                        continue;
                    }
                }
                i += len;
            }
        }
        // Smaller values.
        let mut i = 0;
        while i < best.len() {
            if t0.elapsed() > budget {
                break 'outer;
            }
            let v = best[i];
            if v > 0 {
                for w in [0, 1, v / 2, v - 1] {
                    if w >= v || i >= best.len() {
                        continue;
                    }
                    let mut t = best.clone();
                    t[i] = w;
                    if let Some((mut nt, nm)) = attempt(&t) {
                        trim(&mut nt);
                        if nt.len() <= best.len() {
                            best = nt;
                            marks = nm;
                            break;
                        }
                    }
                }
            }
            i += 1;
        }
        write(&best);
        let after = (best.len(), best.iter().map(|v| u128::from(*v)).sum::<u128>());
        if after >= before {
            break;
        }
    }
    write(&best);
}

fn replay(p: &PropertyDef, args: &[String]) {
    let path = args.get(3).cloned().unwrap_or_else(|| die("replay ID FILE"));
    let rep: Replay = serde_json::from_slice(&std::fs::read(&path).unwrap_or_else(|e| die(&e.to_string())))
        .unwrap_or_else(|e| die(&e.to_string()));
    if !rep.by_tape {
        let a: Vec<String> =
            ["one", p.id, &rep.run.to_string(), &rep.seed.to_string()].iter().map(|s| s.to_string()).collect();
        let st = spawn_self(&a).wait().unwrap_or_else(|e| die(&e.to_string()));
        if st.code().is_none() || st.code() == Some(97) {
            println!("{}: {}", rep.class, rep.msg);
            println!("VIOLATION property={} replay={path}", p.id);
            std::process::exit(1);
        }
        println!("not reproduced");
        std::process::exit(0);
    }
    let r = match &rep.directed {
        Some(s) => match p.known.iter().find(|k| k.sig == s) {
            Some(k) => execute(k.run, Ctx::from_tape(vec![], true), ENTROPY),
            None => die("unknown directed run"),
        },
        None => do_tape(p, &rep.tape, true),
    };
    let g = r.ctx.lock();
    for t in &g.trace {
        println!("    {t}");
    }
    match r.fail {
        Some(f) => {
            println!("{}: {}", f.class, f.msg);
            if g.hash == rep.hash {
                println!("the event log is the recorded one");
            } else {
                println!("the event log differs from the recorded one");
            }
            println!("VIOLATION property={} replay={path}", p.id);
            let _ = std::io::stdout().flush();
            std::process::exit(1);
        }
        None => println!("not reproduced"),
    }
}

fn one(p: &PropertyDef, args: &[String]) {
    let run = args.get(3).and_then(|s| s.parse().ok()).unwrap_or_else(|| die("one ID RUN [SEED]"));
    let seed = args.get(4).and_then(|s| s.parse().ok()).unwrap_or_else(seed_env);
    std::thread::spawn(|| {
        std::thread::sleep(Duration::from_secs(HANG_S + 30));
        std::process::exit(97);
    });
    // Other runs first, in this process: they must not matter.
    if let Some(before) = arg(args, "--after") {
        for b in before.split(',').filter_map(|s| s.parse().ok()) {
            do_generate(p, seed, b, false);
        }
    }
    let r = do_generate(p, seed, run, true);
    let g = r.ctx.lock();
    for t in &g.trace {
        println!("{t}");
    }
    println!("hash {:016x} draws {} fail {:?}", g.hash, g.rec.len(), r.fail);
}

/// Prints a digest of many runs' logs: to compare across processes.
fn selftest(p: &PropertyDef, args: &[String]) {
    let runs: u64 = args.get(3).and_then(|s| s.parse().ok()).unwrap_or(200);
    let stride: u64 = args.get(4).and_then(|s| s.parse().ok()).unwrap_or(1);
    let seed = seed_env();
    let mut map = BTreeMap::new();
    // Another order of execution in the same process must not matter.
    for off in (0..stride).rev() {
        let mut i = off;
        while i < runs {
            let r = do_generate(p, seed, i, false);
            let g = r.ctx.lock();
            map.insert(i, (g.hash, g.rec.len()));
            i += stride;
        }
    }
    let mut h = 0u64;
    for (i, (a, b)) in &map {
        if std::env::var("SIM_EACH").is_ok() {
            println!("{i} {a:016x} {b}");
        }
        h = mix("self", &[h, *i, *a, *b as u64]);
    }
    println!("{} runs={} digest={h:016x}", p.id, map.len());
}
