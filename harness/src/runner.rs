//! Batches of runs over forked workers, evidence, replay files.
use crate::exec::{self, Res};
use crate::oracle::{self, Tally, Violation};
use crate::prng::Rng;
use crate::rt::{self, Stats};
use crate::spec::{Replay, Spec};
use crate::{gen, minimise};
use serde::{Deserialize, Serialize};
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}
fn deep() -> bool {
    std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough")
}
fn workers() -> usize {
    std::env::var("APSIM_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8)
}
/// Runs per check and the wall-clock limit of the search.
fn plan(prop: &str, deep: bool) -> (u64, Duration) {
    let quick = match prop {
        "C01" => 1000,
        "C02" | "C03" | "C04" => 1600,
        "C05" => 1200,
        "C06" => 1600,
        "C07" => 1600,
        "C19" => 500,
        "C20" => 1000,
        "C08" | "C10" => 80_000,
        "C09" | "C13" => 40_000,
        "C12" | "C14" => 25_000,
        _ => 45_000,
    };
    let n = std::env::var("APSIM_RUNS").ok().and_then(|s| s.parse().ok());
    match (n, deep) {
        (Some(n), _) => (n, Duration::from_secs(3600)),
        (None, false) => (quick, Duration::from_secs(200)),
        (None, true) => (quick * 40, Duration::from_secs(780)),
    }
}

pub fn make(prop: &str, seed: u64, i: u64, deep: bool) -> Spec {
    let p = prop.bytes().fold(0u64, |h, b| h * 31 + b as u64);
    let mut r = Rng::derive(seed, p, i);
    let mut s = gen::generate(prop, &mut r, deep, i);
    s.origin = format!("VERIF_SEED={seed} tier={} run={i}", if deep { "thorough" } else { "quick" });
    s
}
/// Executes all universes of a run. Fault positions relative to the fault-free universe become absolute.
pub fn execute(s: &mut Spec) -> Vec<Res> {
    let mut res: Vec<Res> = vec![];
    for i in 0..s.universes.len() {
        if let Some(o) = &mut s.universes[i].faults.oom {
            if o.at == 0 {
                let n = res.first().and_then(|r| r.ops.iter().find(|x| x.thread == o.thread && x.op == o.op)).map_or(1, |x| x.mem.allocs);
                o.at = 1 + (o.frac as u128 * n as u128 / 1_000_000) as u64;
            }
        }
        let r = exec::run(s, &s.universes[i]);
        res.push(r);
    }
    res
}
pub fn log_hash(res: &[Res]) -> u64 {
    oracle::hash(&res.iter().map(|r| (&r.ops, format!("{:?}", r.end), r.stats.log_hash, r.stats.steps, &r.trace)).collect::<Vec<_>>())
}

#[derive(Serialize, Deserialize, Default)]
struct Report {
    tally: Tally,
    stats: Stats,
    runs: u64,
    universes: u64,
    found: Option<(u64, Spec, Violation)>,
    error: Option<String>,
    cov: Vec<u32>,
    samples: Vec<Spec>,
    hashes: Vec<(u64, u64)>,
}

fn count(rep: &mut Report, s: &Spec, res: &[Res]) {
    let t = &mut rep.tally;
    let a = &mut rep.stats;
    for (u, r) in s.universes.iter().zip(res) {
        rep.universes += 1;
        let x = &r.stats;
        macro_rules! sum { ($($f:ident)*) => { $( a.$f += x.$f; )* } }
        sum!(steps switches forced allocs stalls_fired waited_on_stalled eintr_fired short_fired spurious_fired getrandom_calls clock_reads
            clock_jumps futex_waits futex_wakes sleeps affinity_reads lib_threads thread_local_dtors callback_yields static_accesses rare_switches env_reads files_looked_for outside_calls sim_ns);
        a.oom_fired += r.oom_fired;
        if x.switches > 0 { t.inter.insert(x.log_hash); }
        t.add("operations", r.ops.len() as u64);
        for o in &r.ops {
            let op = &u.threads[o.thread][o.op];
            if o.steps > 100_000 { t.max("max_share_of_step_bound_permille", o.steps * 1000 / exec::default_budget(op, s)); }
            if !oracle::good(op) {
                t.add("failing_calls", 1);
                t.add("failing_calls_that_panicked", matches!(o.out, exec::Out::Panic(_)) as u64);
            }
        }
        t.add("universes_with_several_callers", (u.threads.len() > 1) as u64);
        t.add("universes_with_variables", (u.env.vars > 0) as u64);
        t.add("universes_with_failing_devices", (u.env.device > 0) as u64);
        t.add("universes_with_fixed_hash_keys", (u.env.key_mode > 0) as u64);
        t.add("faulty_random_streams", u.threads.iter().flatten().filter(|o| match o {
            crate::spec::Op::Seeds { rng, .. } | crate::spec::Op::Kmeans { rng, .. } => rng.stuck + rng.poor > 0,
            _ => false,
        }).count() as u64);
    }
}

fn batch(prop: &str, seed: u64, runs: u64, deep: bool, workers: usize, limit: Duration, keep_hashes: bool) -> Report {
    let stop = unsafe {
        &*(libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0) as *const AtomicU64)
    };
    stop.store(u64::MAX, SeqCst);
    // the next run nobody has taken yet; what a run does never depends on who executes it
    let next = unsafe { &*(stop as *const AtomicU64).add(8) };
    let start = Instant::now();
    let mut pipes = vec![];
    for w in 0..workers {
        unsafe {
            let mut fds = [0; 2];
            assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
            let pid = libc::fork();
            assert!(pid >= 0);
            if pid == 0 {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                libc::close(fds[0]);
                rt::fresh_shared();
                let mut rep = Report::default();
                let mut i = next.fetch_add(1, SeqCst);
                let slow = std::env::var("APSIM_SLOW").is_ok();
                while i < runs && i <= stop.load(SeqCst) && start.elapsed() < limit {
                    let t0 = Instant::now();
                    let mut s = make(prop, seed, i, deep);
                    let mut res = execute(&mut s);
                    let t1 = Instant::now();
                    let mut verdict = oracle::judge(&s, &res, &mut rep.tally);
                    let by_clock = |v: &Result<Option<Violation>, String>| matches!(v, Ok(Some(x)) if x.class == "hang") || v.is_err();
                    if by_clock(&verdict) {
                        // the wall clock or the machine had a say in this: once more
                        res = execute(&mut s);
                        verdict = oracle::judge(&s, &res, &mut Tally::default());
                    }
                    count(&mut rep, &s, &res);
                    if slow && t0.elapsed() > Duration::from_secs(2) {
                        eprintln!("slow run {i}: {:?} + {:?}, images {:?}", t1 - t0, t1.elapsed(), s.images.iter().map(|i| (i.w, i.h)).collect::<Vec<_>>());
                    }
                    rep.runs += 1;
                    if keep_hashes { rep.hashes.push((i, log_hash(&res))); }
                    if rep.samples.len() < 2 && w < 2 { rep.samples.push(s.clone()); }
                    match verdict {
                        Ok(None) => {}
                        // development: how often would it be found?
                        Ok(Some(v)) if std::env::var_os("APSIM_COUNT").is_some() => eprintln!("HIT run {i} {}", v.class),
                        Ok(Some(v)) => {
                            stop.fetch_min(i, SeqCst);
                            rep.found = Some((i, s, v));
                            break;
                        }
                        Err(e) => {
                            rep.error = Some(format!("run {i}: {e}"));
                            break;
                        }
                    }
                    i = next.fetch_add(1, SeqCst);
                }
                rep.cov = rt::coverage();
                let b = serde_json::to_vec(&rep).unwrap();
                let mut f = std::fs::File::from_raw_fd(fds[1]);
                f.write_all(&b).unwrap();
                drop(f);
                libc::_exit(0);
            }
            libc::close(fds[1]);
            pipes.push((pid, std::fs::File::from_raw_fd(fds[0])));
        }
    }
    let mut all = Report::default();
    let mut cov = std::collections::BTreeSet::new();
    for (pid, mut f) in pipes {
        let mut b = vec![];
        f.read_to_end(&mut b).unwrap();
        let mut st = 0;
        unsafe { libc::waitpid(pid, &mut st, 0) };
        let Ok(r) = serde_json::from_slice::<Report>(&b) else {
            all.error = Some(format!("worker died (status {st})"));
            continue;
        };
        all.tally.merge(&r.tally);
        let (a, x) = (&mut all.stats, &r.stats);
        macro_rules! sum { ($($f:ident)*) => { $( a.$f += x.$f; )* } }
        sum!(steps switches forced allocs oom_fired stalls_fired waited_on_stalled eintr_fired short_fired spurious_fired getrandom_calls clock_reads
            clock_jumps futex_waits futex_wakes sleeps affinity_reads lib_threads thread_local_dtors callback_yields static_accesses rare_switches env_reads files_looked_for outside_calls sim_ns);
        all.runs += r.runs;
        all.universes += r.universes;
        all.samples.extend(r.samples);
        all.hashes.extend(r.hashes);
        cov.extend(r.cov);
        if r.error.is_some() { all.error = r.error; }
        if let Some(f) = r.found {
            if all.found.as_ref().map_or(true, |g| f.0 < g.0) { all.found = Some(f); }
        }
    }
    all.cov = cov.into_iter().collect();
    all.hashes.sort();
    all
}

#[derive(Serialize, Deserialize)]
struct ReplayFile {
    property: String,
    violation: Violation,
    how: String,
    spec: Spec,
}

pub fn check(prop: &str) -> i32 {
    let (seed, deep) = (seed(), deep());
    let (runs, limit) = plan(prop, deep);
    let start = Instant::now();
    println!("apsim {prop}: VERIF_SEED={seed} tier={} runs={runs}", if deep { "thorough" } else { "quick" });
    let mut rep = batch(prop, seed, runs, deep, workers(), limit, false);
    let search = start.elapsed().as_secs_f64();
    if rep.found.is_none() {
        if let Some(e) = &rep.error {
            println!("ERROR: {e}");
            return 2;
        }
    }
    let mut code = 0;
    let found = rep.found.take();
    if let Some((i, spec, v)) = &found {
        println!("violation in run {i} ({}): {}", v.class, v.detail);
        let (spec, v) = minimise::minimise(spec.clone(), v.clone());
        let dir = std::path::Path::new("replays");
        let _ = std::fs::create_dir_all(dir);
        let path = dir.join(format!("{prop}-{seed}-{i}.json"));
        let f = ReplayFile { property: prop.into(), violation: v.clone(), how: "./check.sh replay <this file>".into(), spec };
        std::fs::write(&path, serde_json::to_string_pretty(&f).unwrap()).unwrap();
        println!("minimised ({}): {}", v.class, v.detail);
        // a fresh process must fail the same way
        let again = std::process::Command::new("/proc/self/exe").arg("replay").arg(&path).output();
        let same = again.is_ok_and(|o| o.status.code() == Some(1));
        println!("replay in a fresh process: {}", if same { "same violation" } else { "NOT reproduced" });
        let full = std::fs::canonicalize(&path).unwrap_or(path);
        println!("VIOLATION property={prop} replay={}", full.display());
        code = 1;
    }
    evidence(prop, seed, deep, &rep, search, start.elapsed().as_secs_f64(), found.is_some(), runs);
    if code == 0 {
        println!("{prop}: held in {} runs ({} universes) in {search:.1} s", rep.runs, rep.universes);
    }
    code
}

fn cut(x: &mut serde_json::Value) {
    match x {
        serde_json::Value::String(s) if s.len() > 600 => {
            let n = s.len();
            let mut k = 500;
            while !s.is_char_boundary(k) { k -= 1; }
            s.truncate(k);
            s.push_str(&format!("... ({n} characters)"));
        }
        serde_json::Value::Array(a) => {
            let n = a.len();
            if n > 24 {
                a.truncate(20);
                a.push(format!("... ({n} entries)").into());
            }
            a.iter_mut().for_each(cut);
        }
        serde_json::Value::Object(o) => o.values_mut().for_each(cut),
        _ => {}
    }
}

#[allow(clippy::too_many_arguments)]
fn evidence(prop: &str, seed: u64, deep: bool, r: &Report, search: f64, wall: f64, violated: bool, planned: u64) {
    let s = &r.stats;
    let pubapi = !(prop > "C07" && prop < "C16");
    let rule = if pubapi {
        "Evaluations are simulated operations (for C07: simulated processes). A run has one seed: it draws images, callers' operation lists (including calls on malformed buffers), an environment (hash keys, entropy faults, clock, CPUs, \
         addresses, stale memory), a schedule and faults from the PRNG and executes each of its universes in a fresh simulated process. A case is an \
         image (with the precision, or for C07 with the injected failure) and counts as non-trivial if it was answered and forms at least one group \
         (C02-C04), was extracted in at least two universes or callers (C01, C05), reached the step accounting (C06), the memory accounting (C19) or the watch on the outside world (C20) or had an allocation failure fired in it (C07)."
    } else {
        "Evaluations are simulated operations. A run has one seed: it draws data sets, callers' operation lists, random streams (stuck, poor, failing, shared), weight callbacks (yielding, failing), an environment, \
         a schedule and faults from the PRNG. A case is an operation with its data; it is non-trivial if 1 < k < n (k-means), n > 2 (trees, hierarchies) \
         or at least one cluster exists (density)."
    };
    let mut samples: Vec<serde_json::Value> = r.samples.iter().take(2).map(|s| serde_json::to_value(s).unwrap()).collect();
    samples.iter_mut().for_each(cut);
    let cov = serde_json::json!({
        "evaluations": if prop == "C07" { r.universes } else { r.tally.n.get("operations").copied().unwrap_or(0) },
        "universes": r.universes,
        "distinct_nontrivial": r.tally.cases.len(),
        "rule": rule,
        "samples": samples,
        "runs": r.runs,
        "runs_planned": planned,
        "runs_per_hour": (r.runs as f64 / search * 3600.0) as u64,
        "simulated_processes_per_hour": (r.universes as f64 / search * 3600.0) as u64,
        "simulated_seconds": s.sim_ns as f64 / 1e9,
        "scheduling_steps": s.steps,
        "preemptive_switches": s.switches,
        "switches_at_rare_points": s.rare_switches,
        "accesses_to_static_memory": s.static_accesses,
        "forced_switches": s.forced,
        "distinct_interleavings": r.tally.inter.len(),
        "distinct_interleavings_measure": "distinct hashes of the sequence of (switch target, step, operation begin/end, futex and entropy event) among universes with at least one preemptive switch",
        "basic_blocks_reached": r.cov.len(),
        "basic_blocks_instrumented": rt::n_guards(),
        "faults_injected": {
            "allocation_failures": s.oom_fired,
            "stalled_callers": s.stalls_fired,
            "interrupted_entropy_reads": s.eintr_fired,
            "short_entropy_reads": s.short_fired,
            "clock_jumps": s.clock_jumps,
            "spurious_wakeups": s.spurious_fired,
            "failing_calls": r.tally.n.get("failing_calls").copied().unwrap_or(0),
            "faulty_random_streams": r.tally.n.get("faulty_random_streams").copied().unwrap_or(0),
            "callback_yields": s.callback_yields,
            "simulated_processes_with_environment_variables_set": r.tally.n.get("universes_with_variables").copied().unwrap_or(0),
            "simulated_processes_with_failing_output_devices": r.tally.n.get("universes_with_failing_devices").copied().unwrap_or(0),
        },
        "seam_traffic": {
            "entropy_reads": s.getrandom_calls, "clock_reads": s.clock_reads, "futex_waits": s.futex_waits, "futex_wakes": s.futex_wakes,
            "sleeps": s.sleeps, "cpu_count_reads": s.affinity_reads, "threads_started_by_the_library": s.lib_threads, "thread_local_destructors_run": s.thread_local_dtors, "allocations": s.allocs, "environment_variables_read": s.env_reads, "files_looked_for": s.files_looked_for, "attempts_to_change_the_outside_world": s.outside_calls,
        },
        "counts": r.tally.n,
        "real_components": if pubapi { "all of auto-palette through its public API (ImageData::new, ImageData::extract, Swatch), std collections and synchronisation, num-traits" }
            else { "the crate-internal component under test (k-means and its initializers, spanning tree, hierarchical clustering, DBSCAN, k-d tree), std, num-traits, rand's sampling code" },
        "stubbed_components": "thread scheduling, futexes, memory allocator, entropy, clocks, sleeps, CPU count, environment variables, process id, files and output (libc seams); the random source and the weight callback (C08-C15)",
    });
    let e = serde_json::json!({
        "property": prop, "tier": if deep { "thorough" } else { "quick" }, "seed": seed, "level": "exploration",
        "coverage": cov,
        "assumptions": [
            "interleavings are sequentially consistent and switch at basic-block boundaries of the library, allocations and system calls",
            "sampling: a clean batch is evidence, not proof",
        ],
        "wall_s": wall,
        "violations": violated as u32,
    });
    let _ = std::fs::create_dir_all("evidence");
    std::fs::write(format!("evidence/{prop}.json"), serde_json::to_string_pretty(&e).unwrap()).unwrap();
}

/// Makes the schedule of a run explicit.
pub fn explicit(s: &Spec, res: &[Res]) -> Spec {
    let mut s = s.clone();
    for (u, r) in s.universes.iter_mut().zip(res) {
        if matches!(r.end, exec::End::Done(_)) {
            u.sched.replay = Some(Replay { ..r.trace.clone() });
        }
    }
    s
}

pub fn replay(path: &str) -> i32 {
    let Ok(text) = std::fs::read_to_string(path) else {
        println!("cannot read {path}");
        return 2;
    };
    let f: ReplayFile = match serde_json::from_str(&text) {
        Ok(f) => f,
        Err(e) => {
            println!("{path}: {e}");
            return 2;
        }
    };
    let mut s = f.spec;
    let res = execute(&mut s);
    match oracle::judge(&s, &res, &mut Tally::default()) {
        Ok(Some(v)) => {
            println!("{}: {}", v.class, v.detail);
            println!("log {:016x}", log_hash(&res));
            if v == f.violation {
                println!("VIOLATION property={} replay={path}", f.property);
                1
            } else {
                println!("a different violation than recorded ({})", f.violation.class);
                3
            }
        }
        Ok(None) => {
            println!("no violation");
            0
        }
        Err(e) => {
            println!("ERROR: {e}");
            2
        }
    }
}

pub fn debug(prop: &str, i: u64) -> i32 {
    let mut s = make(prop, seed(), i, deep());
    let t0 = Instant::now();
    let res = execute(&mut s);
    let mut t = Tally::default();
    let v = oracle::judge(&s, &res, &mut t);
    let mut j = serde_json::to_value(&s).unwrap();
    cut(&mut j);
    println!("{}", serde_json::to_string(&j).unwrap());
    for r in &res {
        println!("{:?} steps {} switches {} allocs {} log {:016x}", r.end, r.stats.steps, r.stats.switches, r.stats.allocs, r.stats.log_hash);
    }
    println!("{:?}\n{v:?}\n{:?}", t.n, t0.elapsed());
    0
}

/// Determinism: every run twice, with different numbers of workers, and once more from its explicit schedule.
pub fn selftest(runs: u64, workers: usize) -> i32 {
    let props: &[&str] = if cfg!(feature = "internals") {
        &["C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15"]
    } else {
        &["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C19", "C20"]
    };
    let mut bad = 0;
    for p in props {
        let a = batch(p, seed(), runs, false, workers, Duration::from_secs(3000), true);
        let b = batch(p, seed(), runs, false, 1.max(workers / 3), Duration::from_secs(3000), true);
        let diff = a.hashes.iter().zip(&b.hashes).filter(|(x, y)| x != y).count() + a.hashes.len().abs_diff(b.hashes.len());
        let mut exp = 0;
        for i in 0..(runs / 4).max(1) {
            let mut s = make(p, seed(), i, false);
            let r1 = execute(&mut s);
            let mut e = explicit(&s, &r1);
            let r2 = execute(&mut e);
            let strip = |r: &[Res]| oracle::hash(&r.iter().map(|r| (&r.ops, r.stats.log_hash, r.stats.steps)).collect::<Vec<_>>());
            if strip(&r1) != strip(&r2) { exp += 1; }
        }
        for f in [&a.found, &b.found].into_iter().flatten() { println!("{p}: run {} {:?}", f.0, f.2); }
        println!("{p}: {} runs, {diff} differ between batches, {exp} of {} explicit schedules differ{}", a.hashes.len(), (runs / 4).max(1),
            a.error.or(b.error).map(|e| format!(", ERROR {e}")).unwrap_or_default());
        bad += diff + exp;
    }
    (bad > 0) as i32
}
