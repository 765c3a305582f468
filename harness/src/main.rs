#![allow(dead_code)]
mod alloc;
#[macro_use]
mod core;
mod geo;
mod graph;
mod lexer;
mod misc;
mod paths;
mod queue;
mod ramp;
mod splines;
mod vecopt;

use crate::core::*;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{exit, Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[global_allocator]
static GLOBAL: alloc::CheckAlloc = alloc::CheckAlloc;

/// CPU seconds that one case may use before it counts as not returning. An ordinary
/// case uses between a microsecond and a few milliseconds.
const HANG_CPU_S: u64 = 20;
const CONFIRM_CPU_S: u64 = 40;
/// Address space limit of the processes that run cases.
const MEM_LIMIT: u64 = 6 << 30;
/// The same for processes that run a single case.
const MEM_LIMIT_ONE: u64 = 2 << 30;
/// Shrinking stops after this time.
const SHRINK_WALL_S: u64 = 60;
/// A worker whose shrinking used this much CPU time (in one case that does not return) ends.
const SHRINK_CPU_S: f64 = 60.0;

fn all_props() -> Vec<PropDef> {
    let mut v = Vec::new();
    v.extend(vecopt::props());
    v.extend(ramp::props());
    v.extend(graph::props());
    v.extend(queue::props());
    v.extend(paths::props());
    v.extend(splines::props());
    v.extend(lexer::props());
    v.extend(misc::props());
    v
}

fn verif_dir() -> PathBuf {
    std::env::var_os("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}

fn die(msg: &str) -> ! {
    eprintln!("harness error: {}", msg);
    exit(2);
}

fn find_prop(id: &str) -> PropDef {
    all_props().into_iter().find(|p| p.id == id).unwrap_or_else(|| die(&format!("no property {}", id)))
}

fn find_part<'a>(p: &'a PropDef, name: &str) -> &'a dyn DynPart {
    p.parts.iter().find(|x| x.name() == name).map(|b| &**b).unwrap_or_else(|| die(&format!("no part {}", name)))
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for p in all_props() {
                println!("{} {}", p.id, p.parts.iter().map(|x| x.name()).collect::<Vec<_>>().join(","));
            }
        }
        Some("check") => check_main(&args[2], args.get(3).map(|s| s.as_str())),
        Some("replay") => replay_main(&args[2]),
        Some("worker") => worker_main(&args[2..]),
        Some("one") => one_main(&args[2..]),
        Some("series") => series_main(&args[2..]),
        Some("evalcase") => evalcase_main(&args[2..]),
        _ => die("usage: vpharness list | check ID [PART] | replay FILE"),
    }
}

fn env_run(id: &str) -> RunArgs {
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let threads = std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4).clamp(1, 16);
    RunArgs { id: id.to_string(), seed, tier, threads }
}

fn limit(cmd: &mut Command, cpu: Option<u64>) {
    unsafe {
        cmd.pre_exec(move || {
            let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &core);
            let bytes = if cpu.is_some() { MEM_LIMIT_ONE } else { MEM_LIMIT };
            let mem = libc::rlimit { rlim_cur: bytes, rlim_max: bytes };
            if !cfg!(vp_asan) {
                libc::setrlimit(libc::RLIMIT_AS, &mem);
            }
            if let Some(c) = cpu {
                let lim = libc::rlimit { rlim_cur: c, rlim_max: c + 1 };
                libc::setrlimit(libc::RLIMIT_CPU, &lim);
            }
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        });
    }
}

fn me() -> PathBuf {
    std::env::current_exe().unwrap_or_else(|_| die("current_exe"))
}

struct Scratch(PathBuf);
impl Scratch {
    fn new() -> Self {
        let base = verif_dir().join("scratch");
        let d = base.join(format!("run-{}", std::process::id()));
        std::fs::create_dir_all(&d).unwrap_or_else(|e| die(&format!("scratch: {}", e)));
        Scratch(d)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

enum EvalOutcome {
    Holds,
    Fails(String),
    /// killed by a signal or an abort
    Crash(String),
    Hang,
    Error(String),
}

/// Runs one replay file in a fresh process.
fn eval_file(id: &str, part: &str, file: &Path, cpu: u64, scratch: &Path) -> EvalOutcome {
    let out = scratch.join("eval.json");
    let _ = std::fs::remove_file(&out);
    let errf = scratch.join("eval.err");
    let mut cmd = Command::new(me());
        cmd.env("RUST_BACKTRACE", "0");
    cmd.arg("evalcase").arg(id).arg(part).arg(file).arg(&out);
    run_isolated(cmd, cpu, &out, &errf)
}

fn run_isolated(mut cmd: Command, cpu: u64, out: &Path, errf: &Path) -> EvalOutcome {
    cmd.stdin(Stdio::null()).stdout(Stdio::null());
    match std::fs::File::create(errf) {
        Ok(f) => {
            cmd.stderr(f);
        }
        Err(e) => return EvalOutcome::Error(format!("{}", e)),
    }
    limit(&mut cmd, Some(cpu));
    let st = match cmd.status() {
        Ok(s) => s,
        Err(e) => return EvalOutcome::Error(format!("spawn: {}", e)),
    };
    let err = tail(errf);
    if let Some(sig) = st.signal() {
        if sig == libc::SIGXCPU || (sig == libc::SIGKILL && cpu_exhausted(&st)) {
            return EvalOutcome::Hang;
        }
        if sig == libc::SIGKILL || sig == libc::SIGTERM {
            return EvalOutcome::Error(format!("killed from outside (signal {})", sig));
        }
        return EvalOutcome::Crash(format!("signal {}: {}", sig, err));
    }
    match st.code() {
        Some(0) => EvalOutcome::Holds,
        Some(1) => EvalOutcome::Fails(std::fs::read_to_string(out).unwrap_or_default()),
        c => EvalOutcome::Error(format!("exit {:?}: {}", c, err)),
    }
}

fn cpu_exhausted(_st: &std::process::ExitStatus) -> bool {
    false
}

fn tail(p: &Path) -> String {
    let s = std::fs::read(p).unwrap_or_default();
    let s = String::from_utf8_lossy(&s).into_owned();
    let n = s.len().saturating_sub(600);
    let mut i = n;
    while !s.is_char_boundary(i) {
        i += 1;
    }
    s[i..].trim().replace('\n', " | ")
}

fn evalcase_main(a: &[String]) {
    install_panic_hook();
    let p = find_prop(&a[0]);
    let part = find_part(&p, &a[1]);
    let v: serde_json::Value = serde_json::from_slice(&std::fs::read(&a[2]).unwrap_or_else(|e| die(&format!("{}", e)))).unwrap_or_else(|e| die(&format!("{}", e)));
    match on_big_stack(|| part.run_json(v.get("case").unwrap_or(&v))) {
        Ok(()) => exit(0),
        Err(m) => {
            let _ = std::fs::write(&a[3], m);
            exit(1);
        }
    }
}

/// Cases run on threads with this stack, in every mode.
const STACK: usize = 64 << 20;

fn on_big_stack<R: Send>(f: impl FnOnce() -> R + Send) -> R {
    std::thread::scope(|s| std::thread::Builder::new().stack_size(STACK).spawn_scoped(s, f).unwrap().join().unwrap())
}

fn one_main(a: &[String]) {
    install_panic_hook();
    let mut run = env_run(&a[0]);
    run.threads = 1;
    let p = find_prop(&a[0]);
    let part = find_part(&p, &a[1]);
    let index: u64 = a[2].parse().unwrap();
    match on_big_stack(|| part.run_index(&run, index)) {
        Ok(()) => exit(0),
        Err(f) => {
            let _ = std::fs::write(&a[3], f.msg);
            exit(1);
        }
    }
}

/// series ID PART FIRST STEP LAST OUT: several cases, one after another, in one process.
fn series_main(a: &[String]) {
    install_panic_hook();
    let mut run = env_run(&a[0]);
    run.threads = 1;
    let p = find_prop(&a[0]);
    let part = find_part(&p, &a[1]);
    let n: Vec<u64> = a[2..5].iter().map(|x| x.parse().unwrap()).collect();
    for index in (n[0]..=n[2]).step_by(n[1] as usize) {
        if let Err(f) = on_big_stack(|| part.run_index(&run, index)) {
            let _ = std::fs::write(&a[5], f.msg);
            exit(1);
        }
    }
    exit(0);
}

/// Runs a series in another process.
fn eval_series(run: &RunArgs, part: &str, n: [u64; 3], scratch: &Path) -> EvalOutcome {
    let out = scratch.join("series.out");
    let _ = std::fs::remove_file(&out);
    let mut cmd = Command::new(me());
    cmd.env("RUST_BACKTRACE", "0").env("VERIF_SEED", run.seed.to_string()).env("VERIF_TIER", run.tier.name());
    cmd.arg("series").arg(&run.id).arg(part).args(n.iter().map(|x| x.to_string())).arg(&out);
    run_isolated(cmd, CONFIRM_CPU_S, &out, &scratch.join("series.err"))
}

fn map_slots(path: &Path, n: usize) -> &'static [AtomicU64] {
    use std::os::unix::io::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).open(path).unwrap_or_else(|e| die(&format!("{}", e)));
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), n * 8, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0);
        if p == libc::MAP_FAILED {
            die("mmap");
        }
        std::slice::from_raw_parts(p as *const AtomicU64, n)
    }
}

fn thread_cpu_s(clock: libc::clockid_t) -> f64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe {
        if libc::clock_gettime(clock, &mut ts) != 0 {
            return 0.0;
        }
    }
    ts.tv_sec as f64 + ts.tv_nsec as f64 * 1e-9
}

/// worker ID PART SLOTFILE OUT
fn worker_main(a: &[String]) {
    install_panic_hook();
    let run = env_run(&a[0]);
    let prop = find_prop(&a[0]);
    let part = find_part(&prop, &a[1]);
    let nt = run.threads as usize;
    let slots = map_slots(Path::new(&a[2]), nt + 1);
    let shared = Shared { stop: AtomicBool::new(false), slots: &slots[..nt], failure: Mutex::new(None) };
    let stats: Mutex<Vec<ThreadStats>> = Mutex::new(Vec::new());
    let clocks: Mutex<Vec<(usize, libc::clockid_t)>> = Mutex::new(Vec::new());
    let done = AtomicBool::new(false);
    std::thread::scope(|s| {
        let mut hs = Vec::new();
        for t in 0..nt {
            let (run, shared, stats, clocks) = (&run, &shared, &stats, &clocks);
            hs.push(
                std::thread::Builder::new()
                    .stack_size(STACK)
                    .spawn_scoped(s, move || {
                        let mut clk: libc::clockid_t = 0;
                        unsafe {
                            libc::pthread_getcpuclockid(libc::pthread_self(), &mut clk);
                        }
                        clocks.lock().unwrap().push((t, clk));
                        let st = part.run_range(run, t as u64, shared);
                        stats.lock().unwrap().push(st);
                    })
                    .unwrap(),
            );
        }
        let (done, clocks) = (&done, &clocks);
        s.spawn(move || {
            // watchdog, on the CPU time of each thread
            let mut seen: BTreeMap<usize, (u64, f64)> = BTreeMap::new();
            while !done.load(Ordering::Relaxed) {
                std::thread::sleep(Duration::from_millis(100));
                for &(t, clk) in clocks.lock().unwrap().iter() {
                    let cur = slots[t].load(Ordering::SeqCst);
                    if cur == 0 {
                        continue;
                    }
                    let cpu = thread_cpu_s(clk);
                    let e = seen.entry(t).or_insert((cur, cpu));
                    if e.0 != cur {
                        *e = (cur, cpu);
                    } else if cpu - e.1 > HANG_CPU_S as f64 {
                        slots[nt].store(t as u64 + 1, Ordering::SeqCst);
                        unsafe { libc::_exit(77) };
                    }
                }
            }
        });
        for h in hs {
            let _ = h.join();
        }
        done.store(true, Ordering::Relaxed);
    });
    let failure = shared.failure.into_inner().unwrap();
    let failure = failure.map(|f| {
        // Kept for the parent, in case a smaller input kills this process or does not return.
        let v = serde_json::json!({"index": f.index, "case": f.case, "msg": f.msg});
        std::fs::write(format!("{}.found", a[3]), serde_json::to_vec(&v).unwrap()).unwrap_or_else(|e| die(&format!("{}", e)));
        let start = thread_cpu_s(libc::CLOCK_PROCESS_CPUTIME_ID);
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(200));
            if thread_cpu_s(libc::CLOCK_PROCESS_CPUTIME_ID) - start > SHRINK_CPU_S {
                unsafe { libc::_exit(78) };
            }
        });
        on_big_stack(|| part.shrink_index(&run, f.index)).unwrap_or(f)
    });
    let mut evaluations = 0;
    let mut nontrivial = 0;
    let mut rejected = 0;
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut labels: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut samples: Vec<(u64, serde_json::Value)> = Vec::new();
    for st in stats.into_inner().unwrap() {
        evaluations += st.evaluations;
        nontrivial += st.nontrivial;
        rejected += st.rejected;
        hashes.extend(st.hashes);
        for (k, v) in st.labels {
            *labels.entry(k).or_insert(0) += v;
        }
        samples.extend(st.samples);
    }
    samples.sort_by_key(|s| s.0);
    samples.truncate(3);
    let out = serde_json::json!({
        "evaluations": evaluations,
        "nontrivial": nontrivial,
        "rejected": rejected,
        "distinct_nontrivial": hashes.len(),
        "labels": labels,
        "samples": samples.into_iter().map(|s| s.1).collect::<Vec<_>>(),
        "failure": failure.map(|f| serde_json::json!({"index": f.index, "case": f.case, "msg": f.msg})),
    });
    std::fs::write(&a[3], serde_json::to_vec(&out).unwrap()).unwrap_or_else(|e| die(&format!("{}", e)));
    exit(0);
}

fn write_replay(id: &str, part: &str, case: &serde_json::Value, msg: &str, run: Option<(&RunArgs, u64)>) -> PathBuf {
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{}.json", id, part));
    let v = serde_json::json!({
        "property": id, "part": part, "message": msg, "case": case,
        "seed": run.map(|r| r.0.seed), "index": run.map(|r| r.1),
    });
    std::fs::write(&path, serde_json::to_vec_pretty(&v).unwrap()).unwrap_or_else(|e| die(&format!("{}", e)));
    path
}

fn violation(id: &str, part: &str, path: &Path, msg: &str) {
    let m: String = msg.chars().take(1500).collect();
    println!("{} [{}]: {}", id, part, m);
    println!("VIOLATION property={} replay={}", id, path.display());
    let _ = std::io::stdout().flush();
}

fn check_main(id: &str, only_part: Option<&str>) {
    let t0 = Instant::now();
    let run = env_run(id);
    let prop = find_prop(id);
    let scratch = Scratch::new();
    let mut violations = 0;
    let mut error: Option<String> = None;

    // 1. Saved inputs (regressions), without the library.
    let mut regress = 0u64;
    let rdir = verif_dir().join("regress").join(id);
    if let Ok(rd) = std::fs::read_dir(&rdir) {
        let mut files: Vec<PathBuf> = rd.flatten().map(|e| e.path()).filter(|p| p.extension().map(|x| x == "json").unwrap_or(false)).collect();
        files.sort();
        for f in files {
            let v: serde_json::Value = serde_json::from_slice(&std::fs::read(&f).unwrap_or_default()).unwrap_or_else(|e| die(&format!("{}: {}", f.display(), e)));
            let part = v["part"].as_str().unwrap_or_else(|| die("regress file without part")).to_string();
            if !prop.parts.iter().any(|x| x.name() == part) {
                die(&format!("{}: no part {}", f.display(), part));
            }
            regress += 1;
            match eval_file(id, &part, &f, CONFIRM_CPU_S, &scratch.0) {
                EvalOutcome::Holds => {}
                EvalOutcome::Fails(m) | EvalOutcome::Crash(m) => {
                    violations += 1;
                    let path = write_replay(id, &part, &v["case"], &m, None);
                    violation(id, &part, &path, &m);
                }
                EvalOutcome::Hang => {
                    violations += 1;
                    let path = write_replay(id, &part, &v["case"], "does not return", None);
                    violation(id, &part, &path, "does not return");
                }
                EvalOutcome::Error(m) => error = Some(m),
            }
            if violations > 0 {
                break;
            }
        }
    }

    // 2. Generated search.
    let mut evaluations = regress;
    let mut distinct = 0u64;
    let mut samples: Vec<serde_json::Value> = Vec::new();
    let mut parts_ev = serde_json::Map::new();
    for part in prop.parts.iter() {
        if violations > 0 {
            break;
        }
        let name = part.name();
        if only_part.map(|o| o != name).unwrap_or(false) {
            continue;
        }
        let tp = Instant::now();
        let slotf = scratch.0.join("slots");
        std::fs::write(&slotf, vec![0u8; (run.threads as usize + 1) * 8]).unwrap_or_else(|e| die(&format!("{}", e)));
        let slots = map_slots(&slotf, run.threads as usize + 1);
        let out = scratch.0.join("out.json");
        let found = scratch.0.join("out.json.found");
        let _ = std::fs::remove_file(&out);
        let _ = std::fs::remove_file(&found);
        let errf = scratch.0.join("worker.err");
        let mut cmd = Command::new(me());
        cmd.env("RUST_BACKTRACE", "0");
        cmd.arg("worker").arg(id).arg(name).arg(&slotf).arg(&out);
        cmd.stdin(Stdio::null()).stdout(Stdio::null());
        cmd.stderr(std::fs::File::create(&errf).unwrap_or_else(|e| die(&format!("{}", e))));
        limit(&mut cmd, None);
        let st = cmd.status().unwrap_or_else(|e| die(&format!("spawn: {}", e)));
        let done = st.code() == Some(0) && out.exists();
        if done {
            let v: serde_json::Value = serde_json::from_slice(&std::fs::read(&out).unwrap()).unwrap();
            evaluations += v["evaluations"].as_u64().unwrap();
            distinct += v["distinct_nontrivial"].as_u64().unwrap();
            for s in v["samples"].as_array().unwrap().iter().take(2) {
                samples.push(serde_json::json!({"part": name, "case": s}));
            }
            parts_ev.insert(
                name.to_string(),
                serde_json::json!({
                    "evaluations": v["evaluations"], "nontrivial": v["nontrivial"],
                    "distinct_nontrivial": v["distinct_nontrivial"], "labels": v["labels"],
                    "rejected": v["rejected"], "wall_s": tp.elapsed().as_secs_f64(),
                }),
            );
            if let Some(f) = v.get("failure").filter(|f| !f.is_null()) {
                violations += 1;
                let msg = f["msg"].as_str().unwrap_or("").to_string();
                let path = write_replay(id, name, &f["case"], &msg, Some((&run, f["index"].as_u64().unwrap_or(0))));
                violation(id, name, &path, &msg);
            }
            continue;
        }
        // The worker found a failing case and died or did not end while shrinking it: shrink it in
        // fresh processes.
        if let Some(f) = std::fs::read(&found).ok().and_then(|b| serde_json::from_slice::<serde_json::Value>(&b).ok()) {
            let index = f["index"].as_u64().unwrap_or(0);
            let msg = f["msg"].as_str().unwrap_or("").to_string();
            let tmp = scratch.0.join("cand.json");
            let limit = Instant::now() + Duration::from_secs(SHRINK_WALL_S);
            let mut best_msg = msg.clone();
            let best = part.shrink_external(&run, index, 250, limit, &mut |c| {
                std::fs::write(&tmp, serde_json::to_vec(c).unwrap()).unwrap();
                match eval_file(id, name, &tmp, 5, &scratch.0) {
                    EvalOutcome::Fails(m) => {
                        best_msg = m;
                        true
                    }
                    _ => false,
                }
            });
            violations += 1;
            let path = write_replay(id, name, &best, &best_msg, Some((&run, index)));
            violation(id, name, &path, &best_msg);
            continue;
        }
        // The worker died or a case did not return. Find the case, in fresh processes.
        let mut suspects: Vec<u64> = Vec::new();
        let hang = st.code() == Some(77);
        if hang {
            let t = slots[run.threads as usize].load(Ordering::SeqCst);
            if t > 0 {
                suspects.push(slots[t as usize - 1].load(Ordering::SeqCst));
            }
        }
        for t in 0..run.threads as usize {
            suspects.push(slots[t].load(Ordering::SeqCst));
        }
        let mut seen = HashSet::new();
        suspects.retain(|&s| s != 0 && seen.insert(s));
        let mut confirmed = false;
        for s in suspects {
            let index = s - 1;
            let o = scratch.0.join("one.out");
            let _ = std::fs::remove_file(&o);
            let mut cmd = Command::new(me());
        cmd.env("RUST_BACKTRACE", "0");
            cmd.arg("one").arg(id).arg(name).arg(index.to_string()).arg(&o);
            let r = run_isolated(cmd, CONFIRM_CPU_S, &o, &scratch.0.join("one.err"));
            let (msg, is_hang) = match r {
                EvalOutcome::Holds | EvalOutcome::Error(_) => continue,
                EvalOutcome::Fails(m) => (m, false),
                EvalOutcome::Crash(m) => (format!("crash: {}", m), false),
                EvalOutcome::Hang => (format!("does not return (more than {} s of CPU time)", CONFIRM_CPU_S), true),
            };
            let tmp = scratch.0.join("cand.json");
            let budget = if is_hang { 14 } else { 250 };
            let limit = Instant::now() + Duration::from_secs(if is_hang { 150 } else { SHRINK_WALL_S });
            let best = part.shrink_external(&run, index, budget, limit, &mut |c| {
                std::fs::write(&tmp, serde_json::to_vec(c).unwrap()).unwrap();
                match eval_file(id, name, &tmp, HANG_CPU_S / 2, &scratch.0) {
                    EvalOutcome::Fails(_) | EvalOutcome::Crash(_) => !is_hang,
                    EvalOutcome::Hang => is_hang,
                    _ => false,
                }
            });
            violations += 1;
            confirmed = true;
            let path = write_replay(id, name, &best, &msg, Some((&run, index)));
            violation(id, name, &path, &msg);
            break;
        }
        // Damage that one case does may only show in a later one: try the cases that came before.
        if !confirmed && !hang {
            let mut seen = HashSet::new();
            'series: for back in [10u64, 100, 1000] {
                for t in 0..run.threads as usize {
                    let s = slots[t].load(Ordering::SeqCst);
                    if s == 0 || !seen.insert((back, s)) {
                        continue;
                    }
                    let last = s - 1;
                    let first = last - (last / run.threads).min(back) * run.threads;
                    let n = [first, run.threads, last];
                    let msg = match eval_series(&run, name, n, &scratch.0) {
                        EvalOutcome::Fails(m) => m,
                        EvalOutcome::Crash(m) if !m.contains("memory allocation of") => format!("crash: {}", m),
                        _ => continue,
                    };
                    let msg = format!("the cases {}, {}, ... {}, one after another: {}", first, first + run.threads, last, msg);
                    violations += 1;
                    confirmed = true;
                    let path = write_replay(id, name, &serde_json::json!({"series": n, "tier": run.tier.name()}), &msg, Some((&run, last)));
                    violation(id, name, &path, &msg);
                    break 'series;
                }
            }
        }
        if !confirmed {
            error = Some(format!("worker for part {} ended with {:?} and no single case reproduces it: {}", name, st, tail(&errf)));
            break;
        }
    }

    let wall = t0.elapsed().as_secs_f64();
    let ev = serde_json::json!({
        "property": id,
        "tier": run.tier.name(),
        "seed": run.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": distinct,
            "rule": prop.rule,
            "samples": samples,
            "parts": parts_ev,
            "saved_inputs_replayed": regress,
        },
        "assumptions": prop.assumptions,
        "wall_s": wall,
        "violations": violations,
    });
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if only_part.is_none() {
        std::fs::write(dir.join(format!("{}.json", id)), serde_json::to_vec_pretty(&ev).unwrap()).unwrap_or_else(|e| die(&format!("{}", e)));
    }
    drop(scratch);
    if violations > 0 {
        exit(1);
    }
    if let Some(e) = error {
        die(&e);
    }
    println!("{}: held on {} cases ({} distinct non-trivial) in {:.1} s", id, evaluations, distinct, wall);
    if only_part.is_some() || std::env::var_os("VP_VERBOSE").is_some() {
        println!("{}", serde_json::to_string_pretty(&parts_ev).unwrap());
    }
}

fn replay_main(file: &str) {
    let v: serde_json::Value = serde_json::from_slice(&std::fs::read(file).unwrap_or_else(|e| die(&format!("{}", e)))).unwrap_or_else(|e| die(&format!("{}", e)));
    let id = v["property"].as_str().unwrap_or_else(|| die("replay file without property"));
    let part = v["part"].as_str().unwrap_or_else(|| die("replay file without part"));
    let prop = find_prop(id);
    find_part(&prop, part);
    let scratch = Scratch::new();
    let r = if let Some(n) = v["case"]["series"].as_array() {
        let n: Vec<u64> = n.iter().map(|x| x.as_u64().unwrap_or(0)).collect();
        let tier = if v["case"]["tier"] == "thorough" { Tier::Thorough } else { Tier::Quick };
        let run = RunArgs { id: id.to_string(), seed: v["seed"].as_u64().unwrap_or(1), tier, threads: 1 };
        eval_series(&run, part, [n[0], n[1].max(1), n[2]], &scratch.0)
    } else {
        eval_file(id, part, Path::new(file), CONFIRM_CPU_S, &scratch.0)
    };
    drop(scratch);
    let msg = match r {
        EvalOutcome::Holds => {
            println!("{} [{}]: holds on this case", id, part);
            exit(0);
        }
        EvalOutcome::Fails(m) => m,
        EvalOutcome::Crash(m) => format!("crash: {}", m),
        EvalOutcome::Hang => "does not return".to_string(),
        EvalOutcome::Error(m) => die(&m),
    };
    violation(id, part, Path::new(file), &msg);
    exit(1);
}
