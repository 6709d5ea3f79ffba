//! Batches of runs in worker processes, minimisation, replay files, evidence.
use crate::common::*;
use crate::rng::{hash_str, mix};
use crate::sched::*;
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::io::{BufRead, BufReader, Read, Write};
use std::os::unix::io::FromRawFd;
use std::os::unix::process::CommandExt;
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::mpsc;
use std::time::{Duration, Instant};

#[derive(Default, Serialize, Deserialize, Clone)]
struct Agg {
    runs: u64,
    nontrivial: u64,
    ops: u64,
    checks: u64,
    steps: u64,
    switches: u64,
    preemptions: u64,
    blocks: u64,
    ticks: u64,
    spurious: u64,
    timeouts: u64,
    sim_ns: u64,
    faults: BTreeMap<String, u64>,
    fault_runs: BTreeMap<String, u64>,
    ihash: HashSet<u64>,
    states: HashSet<u64>,
    plans: HashSet<u64>,
    /// non-trivial runs: workload (sequential worlds) or workload and interleaving (concurrent worlds)
    nt: HashSet<u64>,
    edges: Vec<u32>,
    guards: u32,
    other: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    probe_runs: BTreeMap<String, u64>,
}
impl Agg {
    fn merge(&mut self, o: Agg) {
        self.runs += o.runs;
        self.nontrivial += o.nontrivial;
        self.ops += o.ops;
        self.checks += o.checks;
        self.steps += o.steps;
        self.switches += o.switches;
        self.preemptions += o.preemptions;
        self.blocks += o.blocks;
        self.ticks += o.ticks;
        self.spurious += o.spurious;
        self.timeouts += o.timeouts;
        self.sim_ns += o.sim_ns;
        for (k, v) in o.faults {
            *self.faults.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.fault_runs {
            *self.fault_runs.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.other {
            *self.other.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.probes {
            *self.probes.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.probe_runs {
            *self.probe_runs.entry(k).or_insert(0) += v;
        }
        self.ihash.extend(o.ihash);
        self.states.extend(o.states);
        self.plans.extend(o.plans);
        self.nt.extend(o.nt);
        let e: BTreeSet<u32> = self.edges.iter().copied().chain(o.edges).collect();
        self.edges = e.into_iter().collect();
        self.guards = self.guards.max(o.guards);
    }
}

#[derive(Serialize, Deserialize, Clone)]
struct Job {
    mode: String, // batch, plan, search
    prop: String,
    seed: u64,
    tier: u8,
    start: u64,
    stride: u64,
    runs: u64,
    secs: f64,
    plan: Option<Plan>,
    digests: bool,
    /// number of warm-up histories
    warm: u64,
}

static WARM: AtomicU64 = AtomicU64::new(u64::MAX);
/// warm-up histories of a worker; fewer if one of them cannot be run to its end
fn warm_runs(prop: &str) -> u64 {
    WARM.load(Ordering::SeqCst).min(if prop == "C27" { 6 } else { 40 })
}

#[derive(Serialize, Deserialize, Clone)]
struct Found {
    run: u64,
    violations: Vec<Violation>,
    plan: Plan,
    record: Vec<Step>,
    digest: u64,
}

#[derive(Serialize, Deserialize)]
enum Msg {
    Start(u64),
    Digest(u64, u64),
    Found(Found),
    /// result of a single plan
    Ran { violations: Vec<Violation>, record: Vec<Step>, digest: u64, steps: u64, sim_ns: u64 },
    Done(Agg, u64),
    /// what the worker that found a violation has done until then
    Part(Agg),
}

pub fn run_seed(seed: u64, prop: &str, run: u64) -> u64 {
    mix(mix(seed ^ hash_str(prop)).wrapping_add(run))
}

fn n_ops(p: &Plan) -> u64 {
    (p.prelude.len() + p.threads.iter().map(|t| t.len()).sum::<usize>()) as u64
}

fn relevant(v: &Violation, prop: &str) -> bool {
    v.prop == prop || v.prop == "*"
}

// ---------------------------------------------------------------- worker side

fn worker() {
    // the code under test may print: results go to a private descriptor, stdout to the bin
    let fd = unsafe { libc::dup(1) };
    unsafe {
        let n = libc::open(b"/dev/null\0".as_ptr() as *const libc::c_char, libc::O_WRONLY);
        libc::dup2(n, 1);
    }
    let mut out = unsafe { std::fs::File::from_raw_fd(fd) };
    let mut send = move |m: &Msg| {
        let mut s = serde_json::to_string(m).unwrap();
        s.push('\n');
        if out.write_all(s.as_bytes()).is_err() {
            unsafe { libc::_exit(3) };
        }
    };
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).unwrap();
    let job: Job = serde_json::from_str(&s).unwrap();
    // warm up state of the process that is initialised at its first use (gauges), so that a run does not
    // depend on the runs before it
    for seed in 0..job.warm {
        if job.mode == "warm" {
            send(&Msg::Start(seed));
        }
        let serial = warm_plan(&job.prop, seed);
        let w = crate::exec(&serial);
        if w.poisoned {
            send(&Msg::Found(Found { run: u64::MAX, violations: w.violations, plan: serial, record: w.record, digest: w.digest }));
            unsafe { libc::_exit(0) };
        }
    }
    unsafe {
        #[allow(static_mut_refs)]
        COV.fill(0);
    }
    let t0 = Instant::now();
    let mut agg = Agg { guards: unsafe { N_GUARDS }, ..Default::default() };
    match job.mode.as_str() {
        "warm" => {
            send(&Msg::Done(agg, 0));
            unsafe { libc::_exit(0) };
        }
        "plan" => {
            let r = crate::exec(job.plan.as_ref().unwrap());
            send(&Msg::Ran { violations: r.violations, record: r.record, digest: r.digest, steps: r.stats.steps, sim_ns: r.stats.sim_ns });
            unsafe { libc::_exit(0) };
        }
        "search" => {
            // other schedules of one plan
            let base = job.plan.unwrap();
            for i in 0..job.runs {
                let mut p = base.clone();
                p.sched.seed = mix(job.seed.wrapping_add(i));
                if i > 0 {
                    p.sched.policy = random_policy(&mut crate::rng::Rng::new(p.sched.seed), i);
                }
                let r = crate::exec(&p);
                if r.violations.iter().any(|v| relevant(v, &job.prop)) || r.poisoned {
                    send(&Msg::Found(Found { run: i, violations: r.violations, plan: p, record: r.record, digest: r.digest }));
                    unsafe { libc::_exit(0) };
                }
                if t0.elapsed().as_secs_f64() > job.secs {
                    break;
                }
            }
            send(&Msg::Done(agg, 0));
            unsafe { libc::_exit(0) };
        }
        _ => {}
    }
    let mut i = job.start;
    while i < job.runs {
        if t0.elapsed().as_secs_f64() > job.secs {
            break;
        }
        if agg.runs % 16 == 0 {
            breathe();
        }
        send(&Msg::Start(i));
        let plan = crate::gen(&job.prop, run_seed(job.seed, &job.prop, i), job.tier);
        let r = crate::exec(&plan);
        agg.runs += 1;
        agg.ops += n_ops(&plan);
        agg.checks += r.checks;
        agg.steps += r.stats.steps;
        agg.switches += r.stats.switches;
        agg.preemptions += r.stats.preemptions;
        agg.blocks += r.stats.blocks;
        agg.ticks += r.stats.ticks;
        agg.spurious += r.stats.spurious;
        agg.timeouts += r.stats.timeouts;
        agg.sim_ns += r.stats.sim_ns;
        for (k, v) in &r.faults {
            if *v > 0 {
                *agg.faults.entry(k.clone()).or_insert(0) += v;
                *agg.fault_runs.entry(k.clone()).or_insert(0) += 1;
            }
        }
        for (k, v) in &r.probes {
            *agg.probes.entry(k.to_string()).or_insert(0) += v;
            *agg.probe_runs.entry(k.to_string()).or_insert(0) += 1;
        }
        let ph = hash_of(&serde_json::to_string(&(&plan.cfg, &plan.prelude, &plan.threads)).unwrap());
        if agg.plans.len() < 200_000 {
            agg.plans.insert(ph);
        }
        if agg.ihash.len() < 200_000 {
            agg.ihash.insert(mix(ph ^ r.stats.ihash));
        }
        for s in r.states {
            if agg.states.len() < 200_000 {
                agg.states.insert(s);
            }
        }
        if r.nontrivial {
            agg.nontrivial += 1;
            if agg.nt.len() < 300_000 {
                agg.nt.insert(mix(ph ^ if plan.threads.len() > 1 { r.stats.ihash } else { 0 }));
            }
        }
        if job.digests {
            send(&Msg::Digest(i, r.digest));
        }
        let mut mine = false;
        for v in &r.violations {
            if relevant(v, &job.prop) {
                mine = true;
            } else {
                *agg.other.entry(format!("{}/{}", v.prop, v.kind)).or_insert(0) += 1;
                // for debugging: what a run shows about properties other than the one being checked
                if let Some(path) = std::env::var_os("LAMSIM_OTHER") {
                    use std::io::Write;
                    if let Ok(mut f) = std::fs::OpenOptions::new().create(true).append(true).open(path) {
                        let _ = writeln!(f, "run {i}: {} {}: {} {}", v.prop, v.kind, v.detail, serde_json::to_string(&plan).unwrap());
                    }
                }
            }
        }
        if (mine && !job.digests) || r.poisoned {
            send(&Msg::Part(agg));
            send(&Msg::Found(Found { run: i, violations: r.violations, plan, record: r.record, digest: r.digest }));
            unsafe { libc::_exit(0) };
        }
        i += job.stride;
    }
    unsafe {
        #[allow(static_mut_refs)]
        for (g, x) in COV.iter().enumerate() {
            if *x != 0 {
                agg.edges.push(g as u32);
            }
        }
    }
    send(&Msg::Done(agg, i));
    unsafe { libc::_exit(0) };
}

/// the kernel frees what ended threads leave behind with a delay: wait when it falls behind
fn breathe() {
    for _ in 0..40 {
        let info = std::fs::read_to_string("/proc/meminfo").unwrap_or_default();
        let kb = |k: &str| info.lines().find(|l| l.starts_with(k)).and_then(|l| l.split_whitespace().nth(1)?.parse::<u64>().ok());
        let (Some(avail), Some(total)) = (kb("MemAvailable:"), kb("MemTotal:")) else { return };
        let pct = avail * 100 / total.max(1);
        if pct > 70 {
            return;
        }
        std::thread::sleep(Duration::from_millis(if pct > 50 { 10 } else { 50 }));
        if pct > 50 {
            return;
        }
    }
}

pub fn random_policy(r: &mut crate::rng::Rng, i: u64) -> Policy {
    match i % 7 {
        6 => Policy::OpPause { pct: *r.pick(&[10, 30, 60]), len: 1 << r.range(3, 10), pause: *r.pick(&[20_000, 200_000, 100_000_000]) },
        5 => Policy::Edge { m: 1 << r.range(4, 11), n: r.range(1, 4) as u32, pause: 0 },
        0 => Policy::Random { gap: 1 << r.range(2, 9) },
        1 => Policy::Pct { d: r.range(1, 5) as u32, len: r.range(300, 6000) },
        2 => Policy::Stall { n: r.range(1, 2) as u32, len: r.range(50, 4000) },
        3 => Policy::Novel { c: r.range(4, 64) as u32 },
        _ => Policy::Random { gap: 1 << r.range(4, 12) },
    }
}

// ---------------------------------------------------------------- parent side

fn spawn(job: &Job, core: usize) -> Child {
    let exe = std::env::current_exe().unwrap();
    let mut c = Command::new(exe);
    c.arg("worker").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).env_clear();
    if let Some(path) = std::env::var_os("LAMSIM_OTHER") {
        c.env("LAMSIM_OTHER", path);
    }
    unsafe {
        c.pre_exec(move || {
            libc::personality(0x0040000);
            let mut set: libc::cpu_set_t = std::mem::zeroed();
            libc::CPU_SET(core, &mut set);
            crate::sched::raw_syscall(203, 0, std::mem::size_of::<libc::cpu_set_t>(), &set as *const _ as usize, 0, 0, 0);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let lim = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &lim);
            let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &lim);
            Ok(())
        });
    }
    let mut ch = c.spawn().expect("spawn worker");
    let mut si = ch.stdin.take().unwrap();
    let s = serde_json::to_string(job).unwrap();
    std::thread::spawn(move || {
        let _ = si.write_all(s.as_bytes());
    });
    ch
}

fn warm_plan(prop: &str, seed: u64) -> Plan {
    let mut serial = crate::gen(prop, seed, 0);
    serial.sched.policy = Policy::Serial;
    serial
}

/// one job to its end; None: the worker died or hung
fn call(job: &Job, core: usize, limit: Duration) -> Option<Vec<Msg>> {
    let (v, ok) = call_all(job, core, limit);
    ok.then_some(v)
}
/// the messages of a job, and whether it came to its end
fn call_all(job: &Job, core: usize, limit: Duration) -> (Vec<Msg>, bool) {
    let mut ch = spawn(job, core);
    let so = ch.stdout.take().unwrap();
    let (tx, rx) = mpsc::channel();
    std::thread::spawn(move || {
        for l in BufReader::new(so).lines() {
            let Ok(l) = l else { break };
            if tx.send(l).is_err() {
                break;
            }
        }
    });
    let end = Instant::now() + limit;
    let mut v = vec![];
    loop {
        let left = end.saturating_duration_since(Instant::now());
        match rx.recv_timeout(left) {
            Ok(l) => match serde_json::from_str(&l) {
                Ok(m) => v.push(m),
                Err(_) => return (v, false),
            },
            Err(mpsc::RecvTimeoutError::Disconnected) => break,
            Err(_) => {
                let _ = ch.kill();
                let _ = ch.wait();
                return (v, false);
            }
        }
    }
    let ok = ch.wait().map(|s| s.success()).unwrap_or(false);
    (v, ok)
}

fn job_plan(prop: &str, plan: &Plan) -> Job {
    Job { mode: "plan".into(), prop: prop.into(), seed: 0, tier: 0, start: 0, stride: 1, runs: 1, secs: 60.0, plan: Some(plan.clone()), digests: false, warm: warm_runs(prop) }
}

#[derive(Clone)]
pub struct Ran {
    pub violations: Vec<Violation>,
    pub record: Vec<Step>,
    pub digest: u64,
    pub steps: u64,
    pub sim_ns: u64,
}

/// executes one plan in a fresh process; a dead or hung process is a violation too
pub fn exec_fresh(prop: &str, plan: &Plan, core: usize) -> Ran {
    match call(&job_plan(prop, plan), core, Duration::from_secs(120)) {
        Some(v) => {
            for m in v {
                match m {
                    Msg::Ran { violations, record, digest, steps, sim_ns } => return Ran { violations, record, digest, steps, sim_ns },
                    Msg::Found(f) => return Ran { violations: f.violations, record: f.record, digest: f.digest, steps: 0, sim_ns: 0 },
                    _ => {}
                }
            }
            Ran { violations: vec![], record: vec![], digest: 0, steps: 0, sim_ns: 0 }
        }
        None => Ran {
            violations: vec![Violation { prop: "*".into(), kind: "died".into(), detail: "the process running the simulation died or hung".into() }],
            record: vec![],
            digest: 0,
            steps: 0,
            sim_ns: 0,
        },
    }
}

fn class(v: &[Violation], prop: &str) -> Option<(String, String)> {
    v.iter().find(|v| relevant(v, prop)).map(|v| (v.prop.clone(), v.kind.clone()))
}
fn has(v: &[Violation], c: &(String, String)) -> bool {
    v.iter().any(|x| x.prop == c.0 && x.kind == c.1)
}

/// smaller plans first: chunks of operations removed
fn candidates(p: &Plan, chunk: usize) -> Vec<Plan> {
    let mut out = vec![];
    let lists = 1 + p.threads.len();
    for l in 0..lists {
        let n = if l == 0 { p.prelude.len() } else { p.threads[l - 1].len() };
        let mut i = 0;
        while i < n {
            let mut q = p.clone();
            let v = if l == 0 { &mut q.prelude } else { &mut q.threads[l - 1] };
            v.drain(i..(i + chunk).min(n));
            out.push(q);
            i += chunk;
        }
    }
    out
}

fn minimise(prop: &str, f: &Found, cls: &(String, String), budget: Duration, workers: usize) -> (Plan, Ran) {
    let t0 = Instant::now();
    let multi = f.plan.threads.len() > 1;
    let mut best = f.plan.clone();
    if multi {
        best.sched.policy = Policy::Replay(f.record.clone());
    }
    let mut best_ran = exec_fresh(prop, &best, 0);
    if !has(&best_ran.violations, cls) {
        // replaying the decisions does not reproduce it: keep the seeded form
        best = f.plan.clone();
        best_ran = exec_fresh(prop, &best, 0);
        return (best, best_ran);
    }
    // a parallel first-success over candidates, lowest index wins
    let try_all = |cands: Vec<Plan>, deadline: Instant| -> Option<(Plan, Ran)> {
        for group in cands.chunks(workers) {
            if Instant::now() > deadline {
                return None;
            }
            let hs: Vec<_> = group
                .iter()
                .cloned()
                .enumerate()
                .map(|(i, p)| {
                    let prop = prop.to_string();
                    let cls = cls.clone();
                    std::thread::spawn(move || {
                        let r = exec_fresh(&prop, &p, i % 8);
                        if has(&r.violations, &cls) {
                            return Some((p, r));
                        }
                        if multi {
                            // same operations under other schedules
                            let mut q = p.clone();
                            q.sched.policy = Policy::Random { gap: 40 };
                            let job = Job {
                                mode: "search".into(),
                                prop: prop.clone(),
                                seed: q.sched.seed,
                                tier: 0,
                                start: 0,
                                stride: 1,
                                runs: 300,
                                secs: 3.0,
                                plan: Some(q),
                                digests: false,
                                warm: warm_runs(&prop),
                            };
                            if let Some(v) = call(&job, i % 8, Duration::from_secs(60)) {
                                for m in v {
                                    if let Msg::Found(f) = m {
                                        if has(&f.violations, &cls) {
                                            let mut p = f.plan.clone();
                                            p.sched.policy = Policy::Replay(f.record.clone());
                                            let r = exec_fresh(&prop, &p, i % 8);
                                            if has(&r.violations, &cls) {
                                                return Some((p, r));
                                            }
                                        }
                                    }
                                }
                            }
                        }
                        None
                    })
                })
                .collect();
            for h in hs {
                if let Ok(Some(x)) = h.join() {
                    return Some(x);
                }
            }
        }
        None
    };
    let deadline = t0 + budget;
    let longest = |p: &Plan| p.threads.iter().map(|t| t.len()).max().unwrap_or(0).max(p.prelude.len());
    let mut chunk = (longest(&best) / 2).max(1);
    while Instant::now() < deadline {
        match try_all(candidates(&best, chunk), deadline) {
            Some((p, r)) => {
                best = p;
                best_ran = r;
                chunk = chunk.min((longest(&best) / 2).max(1));
            }
            None if chunk > 1 => chunk /= 2,
            None => break,
        }
    }
    // fewer configured filters
    loop {
        let mut c = vec![];
        for i in 0..best.cfg.filters.len() {
            let mut q = best.clone();
            q.cfg.filters.remove(i);
            c.push(q);
        }
        if c.is_empty() || Instant::now() > deadline {
            break;
        }
        match try_all(c, deadline) {
            Some((p, r)) => {
                best = p;
                best_ran = r;
            }
            None => break,
        }
    }
    // fewer scheduling decisions
    if multi {
        let rec = |p: &Plan| if let Policy::Replay(v) = &p.sched.policy { v.clone() } else { vec![] };
        let mut chunk = (rec(&best).len() / 2).max(1);
        let try_rec = |cands: Vec<Plan>| -> Option<(Plan, Ran)> {
            for group in cands.chunks(workers) {
                let hs: Vec<_> = group
                    .iter()
                    .cloned()
                    .enumerate()
                    .map(|(i, p)| {
                        let (prop, cls) = (prop.to_string(), cls.clone());
                        std::thread::spawn(move || {
                            let r = exec_fresh(&prop, &p, i % 8);
                            has(&r.violations, &cls).then_some((p, r))
                        })
                    })
                    .collect();
                for h in hs {
                    if let Ok(Some(x)) = h.join() {
                        return Some(x);
                    }
                }
            }
            None
        };
        let deadline = deadline + Duration::from_secs(10);
        while Instant::now() < deadline {
            let v = rec(&best);
            let mut c = vec![];
            let mut i = 0;
            while i < v.len() {
                let mut w = v.clone();
                w.drain(i..(i + chunk).min(v.len()));
                let mut q = best.clone();
                q.sched.policy = Policy::Replay(w);
                c.push(q);
                i += chunk;
            }
            match try_rec(c) {
                Some((p, r)) => {
                    best = p;
                    best_ran = r;
                    chunk = chunk.min((rec(&best).len() / 2).max(1));
                }
                None if chunk > 1 => chunk /= 2,
                None => break,
            }
        }
        // store exactly the decisions that were taken
        let mut q = best.clone();
        q.sched.policy = Policy::Replay(best_ran.record.clone());
        let r = exec_fresh(prop, &q, 0);
        if has(&r.violations, cls) && r.digest == best_ran.digest {
            best = q;
            best_ran = r;
        }
    }
    (best, best_ran)
}

#[derive(Serialize, Deserialize)]
struct Replay {
    property: String,
    verif_seed: u64,
    run: u64,
    run_seed: u64,
    violation: Violation,
    digest: String,
    operations: u64,
    scheduling_decisions: usize,
    /// warm-up histories run before it
    #[serde(default = "all_warm")]
    warm: u64,
    plan: Plan,
}

fn all_warm() -> u64 {
    u64::MAX
}

struct Args(BTreeMap<String, String>, Vec<String>);
fn args() -> Args {
    let mut m = BTreeMap::new();
    let mut pos = vec![];
    let mut it = std::env::args().skip(1).peekable();
    while let Some(a) = it.next() {
        if let Some(k) = a.strip_prefix("--") {
            let v = it.next().unwrap_or_default();
            m.insert(k.to_string(), v);
        } else {
            pos.push(a);
        }
    }
    Args(m, pos)
}
impl Args {
    fn num(&self, k: &str, d: f64) -> f64 {
        self.0.get(k).and_then(|v| v.parse().ok()).unwrap_or(d)
    }
    fn s(&self, k: &str, d: &str) -> String {
        self.0.get(k).cloned().unwrap_or(d.to_string())
    }
}

pub fn main() {
    let a = args();
    match a.1.first().map(|s| s.as_str()) {
        Some("worker") => worker(),
        Some("check") => std::process::exit(check(&a)),
        Some("replay") => std::process::exit(replay(&a)),
        Some("gen") => {
            let p = crate::gen(&a.1[1], run_seed(a.num("seed", 1.0) as u64, &a.1[1], a.num("run", 0.0) as u64), a.num("tier", 0.0) as u8);
            println!("{}", serde_json::to_string_pretty(&p).unwrap());
        }
        Some("determinism") => std::process::exit(determinism(&a)),
        _ => {
            eprintln!("usage: lamsim check PROP | replay FILE | gen PROP | determinism PROP");
            std::process::exit(2);
        }
    }
}

fn determinism(a: &Args) -> i32 {
    let prop = a.1[1].clone();
    let runs = a.num("runs", 400.0) as u64;
    let seed = a.num("seed", 1.0) as u64;
    let mut maps: Vec<BTreeMap<u64, u64>> = vec![];
    for workers in [1u64, 3, 8, 5, 8, 2] {
        let mut hs = vec![];
        for w in 0..workers {
            let job = Job {
                mode: "batch".into(),
                prop: prop.clone(),
                seed,
                tier: 0,
                start: w,
                stride: workers,
                runs,
                secs: 600.0,
                plan: None,
                digests: true,
                warm: warm_runs(&prop),
            };
            let core = (w as usize + maps.len() * 3) % 8;
            hs.push(std::thread::spawn(move || call(&job, core, Duration::from_secs(900))));
        }
        let mut m = BTreeMap::new();
        for h in hs {
            for x in h.join().unwrap().unwrap_or_default() {
                if let Msg::Digest(i, d) = x {
                    m.insert(i, d);
                }
            }
        }
        maps.push(m);
    }
    let mut bad = 0;
    for m in &maps[1..] {
        for (i, d) in m {
            if maps[0].get(i).map(|x| x != d).unwrap_or(false) {
                bad += 1;
                if bad < 5 {
                    println!("run {i} differs");
                }
            }
        }
    }
    println!("{prop}: {} seeds, {} repetitions, {} differences", maps[0].len(), maps.len(), bad);
    (bad > 0) as i32
}

fn replay(a: &Args) -> i32 {
    let s = std::fs::read_to_string(&a.1[1]).expect("replay file");
    let r: Replay = serde_json::from_str(&s).expect("replay format");
    WARM.store(r.warm, Ordering::SeqCst);
    let ran = exec_fresh(&r.property, &r.plan, 0);
    for v in &ran.violations {
        println!("{} {}: {}", v.prop, v.kind, v.detail);
    }
    let same = ran.violations.iter().any(|v| v.prop == r.violation.prop && v.kind == r.violation.kind);
    println!("digest {:016x} recorded {}", ran.digest, r.digest);
    if same {
        println!("VIOLATION property={} replay={}", r.property, a.1[1]);
        return 1;
    }
    println!("not reproduced on this tree");
    0
}

fn check(a: &Args) -> i32 {
    let prop = a.1[1].clone();
    let tier = a.s("tier", "quick");
    let t = (tier == "thorough") as u8;
    let seed = a.num("seed", 1.0) as u64;
    let runs = a.num("runs", 2000.0) as u64;
    let secs = a.num("secs", 30.0);
    let workers = a.num("workers", 8.0) as usize;
    let level = a.s("level", "exploration");
    let root = a.s("root", "/verif");
    println!("lamsim: property {prop}, tier {tier}, VERIF_SEED={seed}, up to {runs} runs or {secs} s on {workers} workers");
    let t0 = Instant::now();
    let mut found: Option<Found> = None;
    // histories that cannot even be run to their end
    let job = Job { mode: "warm".into(), warm: warm_runs(&prop), ..job_plan(&prop, &warm_plan(&prop, 0)) };
    let (v, ok) = call_all(&job, 0, Duration::from_secs(120));
    let at = v.iter().filter_map(|m| if let Msg::Start(i) = m { Some(*i) } else { None }).last().unwrap_or(0);
    let stuck = v.into_iter().find_map(|m| if let Msg::Found(f) = m { Some(f) } else { None });
    if stuck.is_some() || !ok {
        WARM.store(at, Ordering::SeqCst);
        let plan = warm_plan(&prop, at);
        let r = exec_fresh(&prop, &plan, 0);
        if class(&r.violations, &prop).is_some() {
            found = Some(Found { run: at, violations: r.violations, plan, record: r.record, digest: r.digest });
        }
    }
    let runs = if found.is_some() { 0 } else { runs };
    let (tx, rx) = mpsc::channel::<(usize, Option<Msg>)>();
    let mut kids = vec![];
    for w in 0..workers {
        let job = Job {
            mode: "batch".into(),
            prop: prop.clone(),
            seed,
            tier: t,
            start: w as u64,
            stride: workers as u64,
            runs,
            secs,
            plan: None,
            digests: false,
            warm: warm_runs(&prop),
        };
        let mut ch = spawn(&job, w % 8);
        let so = ch.stdout.take().unwrap();
        let tx = tx.clone();
        std::thread::spawn(move || {
            for l in BufReader::new(so).lines() {
                let Ok(l) = l else { break };
                match serde_json::from_str(&l) {
                    Ok(m) => {
                        let _ = tx.send((w, Some(m)));
                    }
                    Err(_) => break,
                }
            }
            let _ = tx.send((w, None));
        });
        kids.push(ch);
    }
    drop(tx);
    let mut agg = Agg::default();
    let mut at = vec![None::<u64>; workers];
    let mut done = vec![false; workers];
    let mut open = workers;
    let mut died: Vec<(usize, Option<u64>)> = vec![];
    let mut grace: Option<Instant> = None;
    let mut last = vec![Instant::now(); workers];
    while open > 0 {
        match rx.recv_timeout(Duration::from_millis(500)) {
            Ok((w, m)) => {
                last[w] = Instant::now();
                match m {
                    None => {
                        open -= 1;
                        if !done[w] {
                            died.push((w, at[w]));
                            done[w] = true;
                        }
                    }
                    Some(Msg::Start(i)) => {
                        at[w] = Some(i);
                    }
                    Some(Msg::Found(f)) => {
                        done[w] = true;
                        if found.as_ref().map(|x| f.run < x.run).unwrap_or(true) {
                            found = Some(f);
                        }
                        grace.get_or_insert(Instant::now() + Duration::from_secs(8));
                    }
                    Some(Msg::Done(g, _)) => {
                        done[w] = true;
                        agg.merge(g);
                    }
                    Some(Msg::Part(g)) => agg.merge(g),
                    Some(_) => {}
                }
            }
            Err(mpsc::RecvTimeoutError::Disconnected) => break,
            Err(_) => {}
        }
        for w in 0..workers {
            if !done[w] && last[w].elapsed() > Duration::from_secs(100) {
                let _ = kids[w].kill();
                last[w] = Instant::now();
            }
        }
        if let (Some(g), Some(f)) = (grace, &found) {
            let behind = (0..workers).any(|w| !done[w] && at[w].map(|i| i < f.run).unwrap_or(true));
            if !behind || Instant::now() > g {
                for (w, k) in kids.iter_mut().enumerate() {
                    if !done[w] {
                        done[w] = true;
                        let _ = k.kill();
                    }
                }
            }
        }
    }
    for k in kids.iter_mut() {
        let _ = k.wait();
    }
    let explore_s = t0.elapsed().as_secs_f64();
    // a worker that died: the run it was in, repeated alone
    if found.is_none() {
        for (_, i) in &died {
            let Some(i) = i else { continue };
            let plan = crate::gen(&prop, run_seed(seed, &prop, *i), t);
            let r = exec_fresh(&prop, &plan, 0);
            if class(&r.violations, &prop).is_some() {
                found = Some(Found { run: *i, violations: r.violations, plan, record: r.record, digest: r.digest });
                break;
            }
        }
        if found.is_none() && !died.is_empty() {
            println!("lamsim: {} worker(s) died and the runs they were in do not fail alone", died.len());
            return 2;
        }
    }
    let mut code = 0;
    let mut violations = 0;
    let mut extra = json!({});
    if let Some(f) = found {
        violations = 1;
        code = 1;
        let cls = class(&f.violations, &prop).unwrap_or(("*".into(), "died".into()));
        let before = n_ops(&f.plan);
        let (plan, ran) = minimise(&prop, &f, &cls, Duration::from_secs_f64(a.num("minimise", 40.0)), workers);
        let v = ran
            .violations
            .iter()
            .find(|v| v.prop == cls.0 && v.kind == cls.1)
            .or(f.violations.iter().find(|v| relevant(v, &prop)))
            .cloned()
            .unwrap_or(Violation { prop: cls.0.clone(), kind: cls.1.clone(), detail: String::new() });
        let again = exec_fresh(&prop, &plan, 1);
        let same = again.digest == ran.digest && has(&again.violations, &cls);
        let rp = Replay {
            property: prop.clone(),
            verif_seed: seed,
            run: f.run,
            run_seed: run_seed(seed, &prop, f.run),
            violation: v.clone(),
            digest: format!("{:016x}", ran.digest),
            operations: n_ops(&plan),
            scheduling_decisions: match &plan.sched.policy {
                Policy::Replay(v) => v.len(),
                _ => 0,
            },
            warm: warm_runs(&prop),
            plan: plan.clone(),
        };
        let dir = format!("{root}/replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{prop}-{seed}-{}.json", f.run);
        std::fs::write(&path, serde_json::to_string_pretty(&rp).unwrap()).expect("replay file");
        println!("violation ({} {}): {}", v.prop, v.kind, v.detail);
        println!(
            "seed {seed}, run {}, minimised from {before} to {} operations, {} scheduling decisions, replayed {}",
            f.run,
            rp.operations,
            rp.scheduling_decisions,
            if same { "identically" } else { "NOT identically" }
        );
        for (i, o) in plan.prelude.iter().enumerate() {
            println!("  prelude {i}: {o:?}");
        }
        for (t, ops) in plan.threads.iter().enumerate() {
            for (i, o) in ops.iter().enumerate() {
                println!("  thread {t} op {i}: {o:?}");
            }
        }
        if let Policy::Replay(v) = &plan.sched.policy {
            for s in v.iter().take(40) {
                println!("  schedule: thread {} step {} {:?}", s.t, s.at, s.d);
            }
        }
        println!("VIOLATION property={prop} replay={path}");
        extra = json!({"violation": v.detail, "replay": path, "replayed_identically": same});
    }
    // evidence
    let hours = explore_s / 3600.0;
    let sample = {
        let p = crate::gen(&prop, run_seed(seed, &prop, 0), t);
        let mut s = serde_json::to_value(&p).unwrap();
        // keep the file small
        if serde_json::to_string(&s).unwrap().len() > 12_000 {
            s = json!({"world": p.world, "threads": p.threads.iter().map(|t| t.iter().take(20).collect::<Vec<_>>()).collect::<Vec<_>>(), "truncated": true});
        }
        json!({"run": 0, "run_seed": run_seed(seed, &prop, 0), "plan": s})
    };
    let w = crate::info(&prop);
    let ev = json!({
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": level,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violations,
        "assumptions": w.assumptions,
        "coverage": {
            "evaluations": agg.runs,
            "distinct_nontrivial": agg.nt.len(),
            "rule": w.rule,
            "samples": [sample],
            "runs_per_hour": (agg.runs as f64 / hours) as u64,
            "seeds_per_hour": (agg.runs as f64 / hours) as u64,
            "operations": agg.ops,
            "oracle_comparisons": agg.checks,
            "simulated_seconds": agg.sim_ns as f64 / 1e9,
            "scheduler_steps": agg.steps,
            "context_switches": agg.switches,
            "preemptions": agg.preemptions,
            "blocking_waits": agg.blocks,
            "clock_jumps": agg.ticks,
            "spurious_wakeups": agg.spurious,
            "timer_expiries": agg.timeouts,
            "faults_injected": agg.faults,
            "runs_with_fault": agg.fault_runs,
            "conditions_met": agg.probes,
            "runs_meeting_condition": agg.probe_runs,
            "distinct_workloads": agg.plans.len(),
            "distinct_interleavings": agg.ihash.len(),
            "distinct_interleavings_measure": "hash of the sequence of (thread left, thread entered, code edge) of every switch together with the workload",
            "distinct_states": agg.states.len(),
            "code_edges_reached": agg.edges.len(),
            "code_edges_instrumented": agg.guards,
            "real_components": w.real,
            "stubbed_components": w.stubs,
            "workers": workers,
            "other_property_observations": agg.other,
            "result": extra,
        }
    });
    let path = a.s("out", &format!("{root}/evidence/{prop}.json"));
    if let Some(d) = std::path::Path::new(&path).parent() {
        let _ = std::fs::create_dir_all(d);
    }
    std::fs::write(&path, serde_json::to_string_pretty(&ev).unwrap()).expect("evidence file");
    println!(
        "lamsim: {} runs in {:.1} s, {} operations, {} comparisons, {} steps, {} interleavings, {} states, {}/{} edges{}",
        agg.runs,
        explore_s,
        agg.ops,
        agg.checks,
        agg.steps,
        agg.ihash.len(),
        agg.states.len(),
        agg.edges.len(),
        agg.guards,
        if agg.other.is_empty() { String::new() } else { format!(", other: {:?}", agg.other) }
    );
    if code == 0 && agg.runs == 0 {
        println!("lamsim: no run completed");
        return 2;
    }
    code
}
