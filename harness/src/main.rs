//! lamsim: deterministic simulation of solana-lite-account-manager.
//!   check PROP            seeded search, evidence, minimised replay on violation
//!   exec                  run one plan (stdin) and print the result
//!   replay FILE           run a replay file in a fresh process and compare
//!   determinism PROP N    run N seeds in several processes and compare digests
mod batch;
mod common;
mod hooks;
mod model;
mod rng;
mod sched;
mod world_cstore;
mod world_demand;
mod world_dispatch;
mod world_memory;
#[cfg(feature = "snap")]
mod world_snapshot;
mod world_store;
mod world_token;

use common::*;
use sched::*;
use std::cell::RefCell;
use std::sync::{Arc, Mutex};

thread_local! { static PANIC_AT: RefCell<String> = const { RefCell::new(String::new()) }; }

/// runs `f`, turning a panic into its message
pub fn quiet_panic<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| {
        let at = PANIC_AT.with(|p| p.borrow().clone());
        format!("{} at {}", panic_text(e), at)
    })
}

fn finish(out: &mut RunResult, r: RunOut) {
    let s = &mut out.stats;
    s.steps += r.stats.steps;
    s.switches += r.stats.switches;
    s.preemptions += r.stats.preemptions;
    s.blocks += r.stats.blocks;
    s.ticks += r.stats.ticks;
    s.spurious += r.stats.spurious;
    s.timeouts += r.stats.timeouts;
    s.sim_ns += r.stats.sim_ns;
    s.ihash = rng::mix(s.ihash ^ r.stats.ihash);
    out.digest = rng::mix(out.digest ^ r.stats.steps ^ rng::mix(r.stats.ihash));
    if let Some(f) = r.failure {
        let kind = if f.starts_with("deadlock") { "deadlock" } else { "no_progress" };
        out.v("*", kind, f);
        out.poisoned = true;
    }
}

/// one simulated thread
pub fn run_seq(plan: &Plan, out: &mut RunResult, f: impl FnOnce(&mut RunResult) + Send + 'static) {
    let cell = Arc::new(Mutex::new(RunResult::default()));
    let c2 = cell.clone();
    let mut cfg = plan.sched.clone();
    cfg.policy = Policy::Serial;
    let r = run(
        cfg,
        vec![Box::new(move || {
            let mut res = RunResult::default();
            if let Err(e) = quiet_panic(|| f(&mut res)) {
                res.v("*", "panic", e);
            }
            *c2.lock().unwrap() = res;
        })],
    );
    let failed = r.failure.is_some();
    if !failed {
        let mut got = cell.lock().unwrap();
        let g = std::mem::take(&mut *got);
        out.violations.extend(g.violations);
        out.states.extend(g.states);
        out.checks += g.checks;
        out.nontrivial |= g.nontrivial;
        for (k, v) in g.faults {
            *out.faults.entry(k).or_insert(0) += v;
        }
        for (k, v) in g.probes {
            *out.probes.entry(k).or_insert(0) += v;
        }
        out.note(g.digest);
    }
    finish(out, r);
}

/// several simulated threads; a panic in one is recorded and ends only that thread
pub fn run_par(plan: &Plan, out: &mut RunResult, bodies: Vec<Box<dyn FnOnce() + Send>>) {
    if bodies.is_empty() {
        return;
    }
    let panics = Arc::new(Mutex::new(vec![]));
    let mut v: Vec<Box<dyn FnOnce() + Send>> = vec![];
    for (i, b) in bodies.into_iter().enumerate() {
        let panics = panics.clone();
        v.push(Box::new(move || {
            if let Err(e) = quiet_panic(b) {
                without_points(|| panics.lock().unwrap().push((i, e)));
            }
        }));
    }
    let r = run(plan.sched.clone(), v);
    out.record = r.record.clone();
    if r.failure.is_none() {
        for (i, e) in panics.lock().unwrap().iter() {
            out.v("*", "panic", format!("thread {i}: {e}"));
        }
    }
    finish(out, r);
}

pub fn gen(prop: &str, seed: u64, tier: u8) -> Plan {
    let mut p = match prop {
        "C29" if seed % 2 == 1 => world_token::gen(prop, seed, tier),
        "C09" | "C10" | "C29" => world_cstore::gen(prop, seed, tier),
        "C19" | "C20" | "C21" | "C22" => world_demand::gen(prop, seed, tier),
        "C23" | "C24" => world_dispatch::gen(prop, seed, tier),
        "C28" => world_memory::gen(prop, seed, tier),
        #[cfg(feature = "snap")]
        "C27" => world_snapshot::gen(prop, seed, tier),
        "C12" | "C13" | "C14" | "C15" | "C16" | "C17" | "C18" => world_token::gen(prop, seed, tier),
        _ => world_store::gen(prop, seed, tier),
    };
    p.prop = prop.into();
    p
}

pub struct Info {
    pub rule: &'static str,
    pub real: Vec<&'static str>,
    pub stubs: Vec<&'static str>,
    pub assumptions: Vec<&'static str>,
}
pub fn info(prop: &str) -> Info {
    match prop {
        "C29" => {
            let (mut i, t) = (world_cstore::info(prop), world_token::info(prop));
            i.real.extend(t.real.into_iter().filter(|x| x.contains("token")));
            i
        }
        "C09" | "C10" => world_cstore::info(prop),
        "C19" | "C20" | "C21" | "C22" => world_demand::info(prop),
        "C23" | "C24" => world_dispatch::info(prop),
        "C28" => world_memory::info(prop),
        #[cfg(feature = "snap")]
        "C27" => world_snapshot::info(prop),
        "C12" | "C13" | "C14" | "C15" | "C16" | "C17" | "C18" => world_token::info(prop),
        _ => world_store::info(prop),
    }
}

pub fn exec(plan: &Plan) -> RunResult {
    let mut out = RunResult::default();
    match plan.world.as_str() {
        "cstore" => world_cstore::exec(plan, &mut out),
        "token" | "ctoken" => world_token::exec(plan, &mut out),
        "dispatch" => world_dispatch::exec(plan, &mut out),
        "memory" => world_memory::exec(plan, &mut out),
        "demand" => world_demand::exec(plan, &mut out),
        #[cfg(feature = "snap")]
        "snapshot" => world_snapshot::exec(plan, &mut out),
        "store" => world_store::exec(plan, &mut out),
        w => panic!("unknown world {w}"),
    }
    for (k, v) in &plan.faults {
        *out.faults.entry(k.clone()).or_insert(0) += v;
    }
    out
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC_AT.with(|p| *p.borrow_mut() = at);
    }));
    batch::main();
}
