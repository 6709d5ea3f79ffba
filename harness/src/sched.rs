//! The deterministic scheduler: one simulated thread runs at a time (baton), every switch, wake-up order,
//! clock jump and spurious wake-up is a recorded decision.
use crate::rng::Rng;
use serde::{Deserialize, Serialize};
use std::cell::{Cell, UnsafeCell};
use std::sync::atomic::{AtomicU32, Ordering};

thread_local! { static CUR: Cell<usize> = const { Cell::new(0) }; } // tid+1 of the simulated thread, 0: none

pub const MAX_GUARDS: usize = 1 << 16;
pub static mut COV: [u8; MAX_GUARDS] = [0; MAX_GUARDS];
static mut VISITS: [u16; MAX_GUARDS] = [0; MAX_GUARDS];
pub static mut N_GUARDS: u32 = 0;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub enum Decision {
    /// preempt and run this thread
    Switch(u8),
    /// at a forced switch (block, finish, yield): run this thread
    Next(u8),
    /// wake this waiter first
    Wake(u8),
    /// jump the clock to the next deadline
    Tick,
    /// wake this timed or untimed waiter without cause
    Spurious(u8),
    /// this thread gets no processor for so many simulated nanoseconds
    Pause(u64),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub struct Step {
    pub t: u8,
    pub at: u64,
    pub d: Decision,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Policy {
    /// never preempt, forced switches to the lowest thread
    Serial,
    /// preempt with mean gap, uniformly chosen successor
    Random { gap: u64 },
    /// random priorities, `d` priority changes within `len` steps
    Pct { d: u32, len: u64 },
    /// stop one thread at a uniformly chosen own step, let the others run; repeated n times
    Stall { n: u32, len: u64 },
    /// stop threads at a few code edges chosen by the seed (one of `m`), up to n times per thread, for
    /// `pause` ns or until nobody else can run
    Edge { m: u64, n: u32, pause: u64 },
    /// in `pct` of the operations: stop the thread at a random point of the operation for `pause` ns
    OpPause { pct: u32, len: u64, pause: u64 },
    /// preempt at edges rarely visited so far
    Novel { c: u32 },
    /// follow a recorded trace
    Replay(Vec<Step>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SchedCfg {
    pub seed: u64,
    pub policy: Policy,
    /// per mille chance of a clock jump / spurious wake-up at a voluntary preemption
    pub tick_pm: u32,
    pub spurious_pm: u32,
    pub max_steps: u64,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum St {
    Ready,
    Blocked,
    Done,
}

struct Th {
    go: AtomicU32,
    st: St,
    steps: u64,
    addr: usize,
    bitset: u32,
    deadline: u64, // u64::MAX: none
    timed_out: bool,
    prio: u64,
    stall_at: u64,
    stalls: u32,
    trace_pos: usize,
    trace: Vec<Step>,
    op: u32,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct RunStats {
    pub steps: u64,
    pub switches: u64,
    pub preemptions: u64,
    pub blocks: u64,
    pub ticks: u64,
    pub spurious: u64,
    pub timeouts: u64,
    pub sim_ns: u64,
    pub ihash: u64,
}

pub struct Sched {
    threads: Vec<Th>,
    cur: usize,
    n_ready: usize,
    pub now: u64,
    next_deadline: u64,
    rng: Rng,
    rnd: Rng, // entropy given to the code under test
    cfg: SchedCfg,
    until_preempt: u64,
    pct_points: Vec<u64>,
    stall_left: u32,
    /// of a single thread: steps before the current operation
    op_start: u64,
    pub record: Vec<Step>,
    pub stats: RunStats,
    pub failure: Option<String>,
    waiters: Vec<usize>, // arrival order
    done: AtomicU32,
    enabled: bool,
}

struct Global(UnsafeCell<Option<Box<Sched>>>);
unsafe impl Sync for Global {}
static G: Global = Global(UnsafeCell::new(None));

#[inline]
fn sched() -> &'static mut Sched {
    unsafe { (*G.0.get()).as_mut().unwrap() }
}

#[inline]
pub fn current() -> Option<usize> {
    let c = CUR.with(|c| c.get());
    if c == 0 {
        None
    } else {
        Some(c - 1)
    }
}

pub unsafe fn raw_syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d,
        in("r8") e, in("r9") f, out("rcx") _, out("r11") _);
    r
}
fn raw_wait(a: &AtomicU32, v: u32) {
    unsafe { raw_syscall(202, a as *const _ as usize, 128, v as usize, 0, 0, 0) };
}
fn raw_wake(a: &AtomicU32) {
    unsafe { raw_syscall(202, a as *const _ as usize, 129, 1, 0, 0, 0) };
}

const NO: u64 = u64::MAX;

impl Sched {
    fn refill(&mut self) {
        self.until_preempt = match &self.cfg.policy {
            Policy::Random { gap } => {
                let g = *gap;
                self.rng.gap(g)
            }
            Policy::Serial => NO,
            Policy::Pct { .. } => match self.pct_points.pop() {
                Some(p) => p.saturating_sub(self.stats.steps).max(1),
                None => NO,
            },
            Policy::Stall { .. } | Policy::Edge { .. } | Policy::OpPause { .. } | Policy::Novel { .. } | Policy::Replay(_) => NO,
        };
    }

    fn ready(&self) -> impl Iterator<Item = usize> + '_ {
        self.threads.iter().enumerate().filter(|(_, t)| t.st == St::Ready).map(|(i, _)| i)
    }

    fn fail(&mut self, why: String) -> ! {
        if self.failure.is_none() {
            self.failure = Some(why);
        }
        // leave the simulation for good: the controller reports and the process ends
        self.done.store(2, Ordering::SeqCst);
        raw_wake(&self.done);
        loop {
            unsafe { raw_syscall(34, 0, 0, 0, 0, 0, 0) }; // pause
        }
    }

    fn rec(&mut self, me: usize, d: Decision) {
        let at = self.threads[me].steps;
        self.record.push(Step { t: me as u8, at, d });
    }

    /// the recorded decision for thread `me` at its current step, if any
    fn replayed(&mut self, me: usize, f: impl Fn(&Decision) -> bool) -> Option<Decision> {
        let t = &mut self.threads[me];
        while t.trace_pos < t.trace.len() && t.trace[t.trace_pos].at < t.steps {
            t.trace_pos += 1;
        }
        if t.trace_pos < t.trace.len() && t.trace[t.trace_pos].at == t.steps && f(&t.trace[t.trace_pos].d) {
            let d = t.trace[t.trace_pos].d;
            t.trace_pos += 1;
            return Some(d);
        }
        None
    }
    fn is_replay(&self) -> bool {
        matches!(self.cfg.policy, Policy::Replay(_))
    }

    fn expire(&mut self) {
        if self.now < self.next_deadline {
            return;
        }
        let mut nd = NO;
        for i in 0..self.threads.len() {
            let t = &mut self.threads[i];
            if t.st == St::Blocked {
                if t.deadline <= self.now {
                    t.st = St::Ready;
                    t.timed_out = true;
                    self.n_ready += 1;
                    self.stats.timeouts += 1;
                    self.waiters.retain(|w| *w != i);
                } else {
                    nd = nd.min(t.deadline);
                }
            }
        }
        self.next_deadline = nd;
    }

    /// choose the thread to run after a forced switch of `me`
    fn choose_forced(&mut self, me: usize, exclude: Option<usize>) -> usize {
        loop {
            self.expire();
            let cands: Vec<usize> = self.ready().filter(|x| Some(*x) != exclude).collect();
            if cands.is_empty() {
                if let Some(e) = exclude {
                    if self.threads[e].st == St::Ready {
                        return e;
                    }
                }
                if self.next_deadline == NO {
                    if self.threads.iter().all(|t| t.st == St::Done) {
                        return usize::MAX;
                    }
                    let who: Vec<String> = self
                        .threads
                        .iter()
                        .enumerate()
                        .filter(|(_, t)| t.st == St::Blocked)
                        .map(|(i, t)| format!("thread {} blocked in op {}", i, t.op))
                        .collect();
                    self.fail(format!("deadlock: {}", who.join(", ")));
                }
                self.now = self.now.max(self.next_deadline);
                continue;
            }
            if cands.len() == 1 {
                return cands[0];
            }
            let c = match &self.cfg.policy {
                Policy::Serial => cands[0],
                Policy::Replay(_) => match self.replayed(me, |d| matches!(d, Decision::Next(_))) {
                    Some(Decision::Next(n)) if cands.contains(&(n as usize)) => n as usize,
                    _ => cands[0],
                },
                Policy::Pct { .. } | Policy::Edge { .. } => *cands.iter().max_by_key(|i| self.threads[**i].prio).unwrap(),
                _ => {
                    let n = self.rng.idx(cands.len());
                    cands[n]
                }
            };
            if c != cands[0] {
                self.rec(me, Decision::Next(c as u8));
            }
            return c;
        }
    }

    fn switch(&mut self, me: usize, to: usize, loc: u64) {
        self.stats.switches += 1;
        self.stats.ihash = crate::rng::mix(self.stats.ihash ^ crate::rng::mix(loc ^ ((to as u64) << 56) ^ ((me as u64) << 48)));
        self.cur = to;
        let g: *const AtomicU32 = &self.threads[to].go;
        unsafe {
            (*g).store(1, Ordering::SeqCst);
            raw_wake(&*g);
        }
    }

    fn wait_turn(me: usize) {
        let g: *const AtomicU32 = &sched().threads[me].go;
        unsafe {
            while (*g).swap(0, Ordering::SeqCst) == 0 {
                raw_wait(&*g, 0);
            }
        }
    }

    fn preempt(&mut self, me: usize, loc: u64) {
        // at a voluntary preemption point that fired
        if !self.is_replay() {
            if self.cfg.tick_pm > 0 && self.next_deadline != NO && self.rng.permille(self.cfg.tick_pm) {
                self.do_tick(me);
            }
            if self.cfg.spurious_pm > 0 && !self.waiters.is_empty() && self.rng.permille(self.cfg.spurious_pm) {
                let w = self.waiters[self.rng.idx(self.waiters.len())];
                self.do_spurious(me, w);
            }
        }
        if self.n_ready <= 1 {
            return;
        }
        let others: Vec<usize> = self.ready().filter(|x| *x != me).collect();
        let to = match &self.cfg.policy {
            Policy::Pct { .. } | Policy::Edge { .. } => {
                // change point: this thread falls below all others
                let low = self.threads.iter().map(|t| t.prio).min().unwrap_or(1);
                self.threads[me].prio = low.saturating_sub(1);
                *others.iter().max_by_key(|i| self.threads[**i].prio).unwrap()
            }
            _ => {
                let n = self.rng.idx(others.len());
                others[n]
            }
        };
        self.rec(me, Decision::Switch(to as u8));
        self.stats.preemptions += 1;
        self.switch(me, to, loc);
        Self::wait_turn(me);
    }

    fn do_tick(&mut self, me: usize) {
        self.rec(me, Decision::Tick);
        self.stats.ticks += 1;
        self.now = self.now.max(self.next_deadline);
        self.expire();
    }

    fn do_spurious(&mut self, me: usize, w: usize) {
        if w < self.threads.len() && self.threads[w].st == St::Blocked && self.waiters.contains(&w) {
            self.rec(me, Decision::Spurious(w as u8));
            self.stats.spurious += 1;
            self.threads[w].st = St::Ready;
            self.threads[w].timed_out = false;
            self.n_ready += 1;
            self.waiters.retain(|x| *x != w);
        }
    }

    #[inline]
    fn step(&mut self, me: usize, loc: u64, guard: usize) {
        self.stats.steps += 1;
        self.now += 100;
        self.threads[me].steps += 1;
        if self.stats.steps - self.op_start >= self.cfg.max_steps {
            let op = self.threads[me].op;
            self.fail(format!("no progress: {} steps without completing (thread {} in op {})", self.cfg.max_steps, me, op));
        }
        if self.threads.len() == 1 {
            return;
        }
        if self.now >= self.next_deadline {
            self.expire();
        }
        match &self.cfg.policy {
            Policy::Novel { c } => {
                let v = unsafe { &mut VISITS[guard & (MAX_GUARDS - 1)] };
                *v = v.saturating_add(1);
                let (c, v) = (*c as u64, *v as u64);
                // chance c / (v * 64)
                if self.rng.below(v * 64) < c {
                    self.preempt(me, loc);
                }
            }
            Policy::Edge { m, n, pause } => {
                let (m, n, pause) = (*m, *n, *pause);
                if guard != 0 && self.threads[me].stalls < n && crate::rng::mix(guard as u64 ^ self.cfg.seed) % m == 0 && self.rng.pct(40) {
                    self.threads[me].stalls += 1;
                    if pause > 0 {
                        self.pause(me, pause, loc);
                    } else {
                        self.preempt(me, loc);
                    }
                }
            }
            Policy::OpPause { pause, .. } => {
                let pause = *pause;
                if self.threads[me].steps == self.threads[me].stall_at {
                    self.pause(me, pause, loc);
                }
            }
            Policy::Stall { .. } => {
                if self.threads[me].steps == self.threads[me].stall_at {
                    self.threads[me].prio = 0;
                    self.preempt(me, loc);
                }
            }
            Policy::Replay(_) => {
                while let Some(d) = self.replayed(me, |d| !matches!(d, Decision::Next(_) | Decision::Wake(_))) {
                    match d {
                        Decision::Tick => {
                            if self.next_deadline != NO {
                                self.do_tick(me)
                            }
                        }
                        Decision::Spurious(w) => self.do_spurious(me, w as usize),
                        Decision::Pause(ns) => self.pause(me, ns, loc),
                        Decision::Switch(to) => {
                            let to = to as usize;
                            if to != me && to < self.threads.len() && self.threads[to].st == St::Ready {
                                self.rec(me, Decision::Switch(to as u8));
                                self.stats.preemptions += 1;
                                self.switch(me, to, loc);
                                Self::wait_turn(me);
                            }
                        }
                        _ => {}
                    }
                }
            }
            _ => {
                self.until_preempt = self.until_preempt.saturating_sub(1);
                if self.until_preempt == 0 {
                    self.refill();
                    self.preempt(me, loc);
                }
            }
        }
    }

    fn pause(&mut self, me: usize, ns: u64, loc: u64) {
        self.rec(me, Decision::Pause(ns));
        self.stats.preemptions += 1;
        let deadline = self.now + ns;
        let t = &mut self.threads[me];
        t.st = St::Blocked;
        t.addr = 0;
        t.deadline = deadline;
        self.n_ready -= 1;
        self.next_deadline = self.next_deadline.min(deadline);
        self.forced(me, loc);
        let t = &mut self.threads[me];
        t.deadline = NO;
        t.timed_out = false;
    }

    /// me gives up the processor in a state already set
    fn forced(&mut self, me: usize, loc: u64) {
        let to = self.choose_forced(me, None);
        if to == me {
            return;
        }
        self.switch(me, to, loc);
        Self::wait_turn(me);
    }

    fn futex_wait(&mut self, me: usize, addr: usize, val: u32, deadline: u64, bitset: u32) -> i64 {
        self.step(me, 0x77, 0);
        if unsafe { (*(addr as *const AtomicU32)).load(Ordering::SeqCst) } != val {
            return -11; // EAGAIN
        }
        if deadline <= self.now {
            return -110;
        }
        self.stats.blocks += 1;
        let t = &mut self.threads[me];
        t.st = St::Blocked;
        t.addr = addr;
        t.bitset = bitset;
        t.deadline = deadline;
        t.timed_out = false;
        self.n_ready -= 1;
        self.waiters.push(me);
        self.next_deadline = self.next_deadline.min(deadline);
        self.forced(me, 0x78);
        let t = &mut self.threads[me];
        t.addr = 0;
        if t.timed_out {
            -110
        } else {
            0
        }
    }

    fn futex_wake(&mut self, me: usize, addr: usize, n: u32, bitset: u32) -> i64 {
        let mut woken = 0;
        while woken < n as i64 {
            let c: Vec<usize> = self
                .waiters
                .iter()
                .copied()
                .filter(|w| self.threads[*w].addr == addr && self.threads[*w].bitset & bitset != 0)
                .collect();
            if c.is_empty() {
                break;
            }
            let w = if c.len() == 1 || n as usize >= c.len() {
                c[0]
            } else if self.is_replay() {
                match self.replayed(me, |d| matches!(d, Decision::Wake(_))) {
                    Some(Decision::Wake(w)) if c.contains(&(w as usize)) => w as usize,
                    _ => c[0],
                }
            } else if self.cfg.policy == Policy::Serial {
                c[0]
            } else {
                let n = self.rng.idx(c.len());
                c[n]
            };
            if w != c[0] {
                self.rec(me, Decision::Wake(w as u8));
            }
            self.threads[w].st = St::Ready;
            self.threads[w].timed_out = false;
            self.n_ready += 1;
            self.waiters.retain(|x| *x != w);
            woken += 1;
        }
        self.step(me, 0x79, 0);
        woken
    }
}

// ---- interface for hooks ----

#[inline]
pub fn on_edge(guard: u32) {
    let c = CUR.with(|c| c.get());
    if c == 0 {
        return;
    }
    let s = sched();
    if !s.enabled {
        return;
    }
    unsafe { COV[guard as usize & (MAX_GUARDS - 1)] = 1 };
    s.step(c - 1, guard as u64, guard as usize);
}

pub fn sim_futex(op: i32, addr: usize, val: u32, timeout: *const libc::timespec, bitset: u32) -> i64 {
    let me = current().unwrap();
    let s = sched();
    let cmd = op & 127;
    match cmd {
        0 | 9 => {
            let deadline = if timeout.is_null() {
                NO
            } else {
                let ts = unsafe { &*timeout };
                let ns = (ts.tv_sec as u64).saturating_mul(1_000_000_000).saturating_add(ts.tv_nsec as u64);
                if cmd == 0 {
                    s.now.saturating_add(ns)
                } else {
                    ns.saturating_sub(EPOCH_NS)
                }
            };
            s.futex_wait(me, addr, val, deadline, if cmd == 9 { bitset } else { u32::MAX })
        }
        1 | 10 => s.futex_wake(me, addr, val, if cmd == 10 { bitset } else { u32::MAX }),
        _ => -38,
    }
}

pub const EPOCH_NS: u64 = 1_000_000_000_000;

pub fn sim_now() -> u64 {
    let s = sched();
    s.now += 20;
    s.now + EPOCH_NS
}

pub fn sim_sleep(ns: u64) {
    let me = current().unwrap();
    let s = sched();
    let t = &mut s.threads[me];
    t.st = St::Blocked;
    t.addr = 1;
    t.deadline = s.now + ns.max(1);
    let d = t.deadline;
    s.n_ready -= 1;
    s.next_deadline = s.next_deadline.min(d);
    s.stats.blocks += 1;
    s.forced(me, 0x7a);
}

pub fn sim_yield() {
    let me = current().unwrap();
    let s = sched();
    s.step(me, 0x7b, 0);
    if s.n_ready <= 1 && s.next_deadline == NO {
        return;
    }
    if let Policy::Pct { .. } = s.cfg.policy {
        let low = s.threads.iter().map(|t| t.prio).min().unwrap_or(1);
        s.threads[me].prio = low.saturating_sub(1);
    }
    let to = s.choose_forced(me, Some(me));
    if to != me {
        s.switch(me, to, 0x7b);
        Sched::wait_turn(me);
    }
}

pub fn sim_entropy(buf: &mut [u8]) {
    let s = sched();
    for c in buf.chunks_mut(8) {
        let v = s.rnd.next().to_le_bytes();
        let n = c.len();
        c.copy_from_slice(&v[..n]);
    }
}

/// an explicit scheduling point of the harness (between operations)
pub fn point(loc: u64) {
    if let Some(me) = current() {
        sched().step(me, loc, (loc & 0xfff) as usize | 0x8000);
    }
}
/// number of the operation the thread is in (for messages)
pub fn set_op(op: u32) {
    if let Some(me) = current() {
        let s = sched();
        s.threads[me].op = op;
        if s.threads.len() == 1 {
            s.op_start = s.stats.steps;
        }
        if let Policy::OpPause { pct, len, .. } = &s.cfg.policy {
            let (pct, len) = (*pct, *len);
            if s.rng.pct(pct) {
                s.threads[me].stall_at = s.threads[me].steps + 1 + s.rng.below(len);
            }
        }
    }
}
/// for looking for differences between two runs of one plan (LAMSIM_TRACE)
pub fn trace(what: &str) {
    if std::env::var_os("LAMSIM_TRACE").is_some() {
        eprintln!("trace {} {:x} {what}", sched().stats.steps, sched().stats.ihash);
    }
}
pub fn now_ns() -> u64 {
    sched().now
}
/// run `f` without preemption points (harness set-up inside a simulated thread)
pub fn without_points<R>(f: impl FnOnce() -> R) -> R {
    let s = sched();
    let old = s.enabled;
    s.enabled = false;
    let r = f();
    sched().enabled = old;
    r
}

pub struct RunOut {
    pub record: Vec<Step>,
    pub stats: RunStats,
    /// deadlock or no progress; the process must not start another run after it
    pub failure: Option<String>,
}

/// Runs the given bodies as simulated threads until all are done.
pub fn run(cfg: SchedCfg, bodies: Vec<Box<dyn FnOnce() + Send>>) -> RunOut {
    let n = bodies.len();
    let mut rng = Rng::new(cfg.seed);
    let rnd = Rng::new(crate::rng::mix(cfg.seed ^ 0xE27));
    unsafe {
        #[allow(static_mut_refs)]
        VISITS.fill(0);
    }
    let mut pct_points = vec![];
    if let Policy::Pct { d, len } = &cfg.policy {
        for _ in 0..*d {
            pct_points.push(rng.below(*len).max(1));
        }
        pct_points.sort_by(|a, b| b.cmp(a));
    }
    let mut traces: Vec<Vec<Step>> = vec![vec![]; n];
    if let Policy::Replay(t) = &cfg.policy {
        for s in t {
            if (s.t as usize) < n {
                traces[s.t as usize].push(s.clone());
            }
        }
    }
    let mut threads = vec![];
    for tr in traces {
        let stall_at = match &cfg.policy {
            Policy::Stall { n, len } if rng.below(3) < *n as u64 => rng.below(*len).max(1),
            _ => NO,
        };
        threads.push(Th {
            go: AtomicU32::new(0),
            st: St::Ready,
            steps: 0,
            addr: 0,
            bitset: 0,
            deadline: NO,
            timed_out: false,
            prio: 1_000_000 + rng.below(1_000_000),
            stall_at,
            stalls: 0,
            trace_pos: 0,
            trace: tr,
            op: 0,
        });
    }
    let first = match &cfg.policy {
        Policy::Serial | Policy::Replay(_) => 0,
        Policy::Pct { .. } | Policy::Edge { .. } => (0..n).max_by_key(|i| threads[*i].prio).unwrap(),
        _ => rng.idx(n),
    };
    let first = if let Policy::Replay(t) = &cfg.policy {
        match t.first() {
            Some(Step { at: 0, d: Decision::Next(f), t: 0 }) if (*f as usize) < n => *f as usize,
            _ => first,
        }
    } else {
        first
    };
    let mut s = Box::new(Sched {
        n_ready: n,
        threads,
        cur: first,
        now: 0,
        next_deadline: NO,
        rng,
        rnd,
        cfg,
        until_preempt: NO,
        pct_points,
        stall_left: 0,
        op_start: 0,
        record: vec![],
        stats: RunStats::default(),
        failure: None,
        waiters: vec![],
        done: AtomicU32::new(0),
        enabled: true,
    });
    s.stall_left = 0;
    s.refill();
    // a replay starts with the same thread
    s.record.push(Step { t: 0, at: 0, d: Decision::Next(first as u8) });
    unsafe { *G.0.get() = Some(s) };
    let release = std::sync::Arc::new(AtomicU32::new(0));
    let mut handles = vec![];
    for (i, body) in bodies.into_iter().enumerate() {
        let release = release.clone();
        handles.push(
            std::thread::Builder::new()
                .stack_size(2 << 20)
                .spawn(move || {
                    Sched::wait_turn(i);
                    CUR.with(|c| c.set(i + 1));
                    body();
                    CUR.with(|c| c.set(0));
                    let s = sched();
                    s.threads[i].st = St::Done;
                    s.n_ready -= 1;
                    let to = s.choose_forced(i, None);
                    if to == usize::MAX {
                        s.done.store(1, Ordering::SeqCst);
                        raw_wake(&s.done);
                    } else {
                        s.switch(i, to, 0x7c);
                    }
                    while release.load(Ordering::SeqCst) == 0 {
                        raw_wait(&release, 0);
                    }
                })
                .expect("spawn"),
        );
    }
    let s = sched();
    s.threads[first].go.store(1, Ordering::SeqCst);
    raw_wake(&s.threads[first].go);
    while s.done.load(Ordering::SeqCst) == 0 {
        raw_wait(&s.done, 0);
    }
    let failed = s.done.load(Ordering::SeqCst) == 2;
    if failed {
        let out = RunOut { record: std::mem::take(&mut s.record), stats: s.stats.clone(), failure: s.failure.clone() };
        std::mem::forget(handles);
        return out; // threads stay parked: the process ends after reporting
    }
    release.store(1, Ordering::SeqCst);
    for _ in 0..n {
        unsafe { raw_syscall(202, &*release as *const _ as usize, 129, i32::MAX as usize, 0, 0, 0) };
    }
    for h in handles {
        let _ = h.join();
    }
    let mut s = unsafe { (*G.0.get()).take().unwrap() };
    s.stats.sim_ns = s.now;
    RunOut { record: s.record, stats: s.stats, failure: s.failure }
}
