//! In-memory account store under concurrent callers: per-account linearizability (C09), progress (C10).
use crate::common::*;
use crate::model::*;
use crate::rng::{mix, Rng};
use crate::sched::*;
use crate::world_store::*;
use lite_account_manager_common::{account_data::AccountData, account_store_interface::AccountStorageInterface, slot_info::SlotInfo};
use lite_account_storage::inmemory_account_store::InmemoryAccountStore;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::sync::{Arc, Mutex};

pub fn gen(prop: &str, seed: u64, tier: u8) -> Plan {
    let mut r = Rng::new(seed);
    let r = &mut r;
    let mut faults = BTreeMap::new();
    let progress = prop == "C10";
    // snapshots, loads and filter changes
    let restore = prop == "C29";
    let n_acc = r.range(1, if progress { 4 } else { 3 }) as u8;
    let n_own = r.range(1, 2) as u8;
    let mut filters = vec![];
    for p in 0..n_own {
        filters.push(FilterSpec { accs: vec![], prog: Some(p), fl: if r.pct(20) { Some(gen_fls(r)) } else { None } });
    }
    if r.pct(15) {
        filters.push(FilterSpec { accs: vec![r.below(n_acc as u64) as u8], prog: None, fl: None });
    }
    let lag_c = r.range(0, 2) as i64;
    let p = VParams {
        n_acc,
        n_own,
        slots: r.range(2, 6),
        fork_pct: *r.pick(&[0, 20, 40]),
        skip_pct: *r.pick(&[0, 20]),
        close_pct: *r.pick(&[0, 15, 40]),
        owner_pct: *r.pick(&[0, 20, 50]),
        reopen_pct: 80,
        tx_max: r.range(1, 3),
        lag_c,
        lag_f: lag_c + r.range(0, 3) as i64,
        untracked_owner: r.pct(30),
    };
    let mut wv = 0;
    let val = validator(r, &p, 1, &mut wv, None);
    if val.forks > 0 {
        faults.insert("fork".into(), val.forks);
    }
    let net = if r.pct(40) {
        NetParams { delay_pct: 0, delay_max: 0, dup_pct: 0, drop_upd_pct: 0, drop_slot_pct: 0, fifo: true }
    } else {
        NetParams {
            delay_pct: *r.pick(&[10, 40]),
            delay_max: *r.pick(&[60, 250]),
            dup_pct: *r.pick(&[0, 10]),
            drop_upd_pct: 0,
            drop_slot_pct: *r.pick(&[0, 30]),
            fifo: r.pct(40),
        }
    };
    let mut ops = network(r, val.msgs, &net, &mut faults);
    for op in ops.iter_mut() {
        if let Op::Upd { c, .. } = op {
            if r.pct(6) {
                *c = r.range(1, 2) as u8;
            }
        }
    }
    let max = if progress { 30 } else if tier > 0 { 18 } else { 14 };
    let n_conc = r.range(3, max).min(ops.len() as u64) as usize;
    // the concurrent part: any window of the stream
    let cut = r.idx(ops.len() - n_conc + 1);
    let mut prelude: Vec<Op> = ops.drain(..cut).collect();
    ops.truncate(n_conc);
    if (progress || restore) && r.pct(50) {
        let at = if restore && !prelude.is_empty() { r.idx(prelude.len()) } else { prelude.len() };
        prelude.insert(at, Op::Snap { p: r.below(n_own as u64) as u8 });
    }
    // a restart: what was known is left in a snapshot, that is loaded while the stream goes on
    let restart = restore && r.pct(50);
    if restart {
        let p = r.below(n_own as u64) as u8;
        let at = r.idx(prelude.len() + 1);
        prelude.insert(at, Op::Crash);
        prelude.insert(at, Op::Snap { p });
        faults.insert("crash_restart".into(), 1);
    }
    let notifiers = if progress { r.range(1, 2) as usize } else { 1 };
    let others = r.range(1, 3) as usize;
    let mut threads: Vec<Vec<Op>> = vec![vec![]; notifiers + others];
    for op in ops {
        let t = if matches!(op, Op::Slot { .. }) { r.idx(notifiers) } else { notifiers + r.idx(others) };
        threads[t].push(op);
    }
    let reads = if progress { r.range(0, 8) } else { r.range(2, 9) };
    for _ in 0..reads {
        let t = notifiers + r.idx(others);
        let at = r.idx(threads[t].len() + 1);
        let op = match r.below(if progress { 10 } else { 8 }) {
            0..=3 => Op::Get { a: r.below(n_acc as u64) as u8, c: r.below(3) as u8 },
            4..=7 => Op::Gpa { p: r.below(n_own as u64) as u8, fl: if r.pct(20) { Some(gen_fls(r)) } else { None }, c: r.below(3) as u8 },
            8 => Op::Snap { p: r.below(n_own as u64) as u8 },
            _ => Op::Load { p: r.below(n_own as u64) as u8, corrupt: Corrupt::None },
        };
        threads[t].insert(at, op);
    }
    if restore {
        for _ in 0..r.range(1, 3) {
            let t = notifiers + r.idx(others);
            let at = r.idx(threads[t].len() + 1);
            let p = r.below(n_own as u64) as u8;
            threads[t].insert(at, if r.pct(if restart { 20 } else { 50 }) { Op::Snap { p } } else { Op::Load { p, corrupt: Corrupt::None } });
        }
    }
    if r.pct(if restore { 25 } else { 40 }) {
        // a dedicated reader
        let n = r.range(2, 6);
        let v = (0..n)
            .map(|_| {
                if r.pct(50) {
                    Op::Gpa { p: r.below(n_own as u64) as u8, fl: None, c: r.below(3) as u8 }
                } else {
                    Op::Get { a: r.below(n_acc as u64) as u8, c: r.below(3) as u8 }
                }
            })
            .collect();
        threads.push(v);
    }
    let mutable = r.pct(50);
    if restore && mutable {
        // what is added later was not covered before
        if n_own > 1 && r.pct(70) {
            filters.retain(|f| f.prog != Some(n_own - 1));
        }
        for _ in 0..r.range(1, 2) {
            let t = r.idx(threads.len());
            let at = r.idx(threads[t].len() + 1);
            let f = if r.pct(30) {
                FilterSpec { accs: vec![r.below(n_acc as u64) as u8], prog: None, fl: None }
            } else {
                FilterSpec { accs: vec![], prog: Some(r.below(n_own as u64 + 1) as u8), fl: if r.pct(30) { Some(gen_fls(r)) } else { None } }
            };
            threads[t].insert(at, Op::AddFilter { f });
        }
    }
    if progress && mutable && r.pct(50) {
        let t = r.idx(threads.len());
        threads[t].push(Op::AddFilter { f: FilterSpec { accs: vec![r.below(n_acc as u64) as u8], prog: None, fl: None } });
    }
    threads.retain(|t| !t.is_empty());
    for op in prelude.iter_mut().chain(threads.iter_mut().flatten()) {
        // the longest data takes more steps than a run may have
        if let Op::Upd { d, .. } = op {
            if *d < 64 && *d & 0x20 != 0 {
                *d &= 7;
            }
        }
    }
    let stretch = Stretch::gen(r);
    stretch.apply(&mut prelude);
    threads.iter_mut().for_each(|t| stretch.apply(t));
    let i = r.next();
    let policy = crate::batch::random_policy(r, i);
    Plan {
        prop: String::new(),
        world: "cstore".into(),
        cfg: Cfg { n_acc, n_own: n_own + 1, filters, mutable, ..Default::default() },
        prelude,
        threads,
        sched: SchedCfg { seed: r.next(), policy, tick_pm: 0, spurious_pm: if r.pct(30) { 100 } else { 0 }, max_steps: 4_000_000 },
        faults,
    }
}

#[derive(Clone, Debug)]
enum K {
    Upd { a: u8, k: VKey, st: St, c: u8, ret: Option<bool> },
    Read { a: u8, c: u8, got: Option<Seen> },
    Query { p: u8, fl: Option<Vec<Fl>>, c: u8, got: Vec<Seen> },
    Slot { s: u64, p: u64, c: u8 },
    Tracked { a: u8, got: bool },
    /// the accounts in a snapshot are those of a query at finalized
    Snap { p: u8, got: Vec<Seen> },
    Load { p: u8, accs: Vec<(u8, VKey, St)> },
    Filter { f: FilterSpec },
}
#[derive(Clone, Debug)]
struct Ev {
    t: usize,
    inv: u64,
    res: u64,
    k: K,
}

#[derive(Default)]
struct Hist {
    seq: u64,
    evs: Vec<Ev>,
}
struct Shared {
    store: Arc<InmemoryAccountStore>,
    mutable: Option<Arc<lite_account_manager_common::mutable_filter_store::MutableFilterStore>>,
    hist: Mutex<Hist>,
    snaps: Mutex<BTreeMap<u8, Vec<u8>>>,
}
impl Shared {
    fn tick(&self) -> u64 {
        without_points(|| {
            let mut h = self.hist.lock().unwrap();
            h.seq += 1;
            h.seq
        })
    }
    fn push(&self, t: usize, inv: u64, k: K) {
        without_points(|| {
            let mut h = self.hist.lock().unwrap();
            h.seq += 1;
            let res = h.seq;
            h.evs.push(Ev { t, inv, res, k });
        })
    }
    fn get(&self, t: usize, a: u8, c: u8) {
        let inv = self.tick();
        let got = self.store.get_account(apk(a), commitment(c)).ok().flatten();
        self.push(t, inv, K::Read { a, c, got: got.as_ref().map(seen) });
    }
    fn gpa(&self, t: usize, p: u8, fl: &Option<Vec<Fl>>, c: u8) {
        let real = fl.as_ref().map(|v| v.iter().map(|f| f.real()).collect());
        let inv = self.tick();
        if let Ok(v) = self.store.get_program_accounts(ppk(p), real, commitment(c)) {
            self.push(t, inv, K::Query { p, fl: fl.clone(), c, got: v.iter().map(seen).collect() });
        }
    }
    fn op(&self, t: usize, i: usize, op: &Op) {
        set_op(i as u32);
        match op {
            Op::Upd { a, s, w, l, o, d, z, c, .. } => {
                let st = St { lam: *l, own: *o, d: *d };
                let k = (*s, *w);
                let real: AccountData = without_points(|| account(*a, k, &st, *z));
                let inv = self.tick();
                let ret = self.store.update_account(real, commitment(*c));
                self.push(t, inv, K::Upd { a: *a, k, st, c: *c, ret: Some(ret) });
            }
            Op::Slot { s, p, c } => {
                let inv = self.tick();
                let _ = self.store.process_slot_data(SlotInfo { slot: *s, parent: *p, root: 0 }, commitment(*c));
                self.push(t, inv, K::Slot { s: *s, p: *p, c: *c });
            }
            Op::Get { a, c } => self.get(t, *a, *c),
            Op::Gpa { p, fl, c } => self.gpa(t, *p, fl, *c),
            Op::Snap { p } => {
                let inv = self.tick();
                if let Ok(b) = self.store.create_snapshot(ppk(*p)) {
                    let got = without_points(|| decoded(&b).iter().map(seen).collect());
                    self.push(t, inv, K::Snap { p: *p, got });
                    without_points(|| self.snaps.lock().unwrap().insert(*p, b));
                }
            }
            Op::Load { p, .. } => {
                let b = without_points(|| self.snaps.lock().unwrap().get(p).cloned());
                if let Some(b) = b {
                    let accs = without_points(|| decoded(&b).iter().map(|x| version_of(&seen(x))).collect());
                    let inv = self.tick();
                    let _ = self.store.load_from_snapshot(ppk(*p), b);
                    self.push(t, inv, K::Load { p: *p, accs });
                }
            }
            Op::AddFilter { f } => {
                if let Some(m) = &self.mutable {
                    let real = without_points(|| vec![f.real(&apk, &ppk)]);
                    let inv = self.tick();
                    m.add_account_filters(&real);
                    self.push(t, inv, K::Filter { f: f.clone() });
                }
            }
            _ => {}
        }
    }
}

fn decoded(b: &[u8]) -> Vec<AccountData> {
    bincode::deserialize::<Vec<AccountData>>(b).unwrap_or_default()
}
/// the model's version of what a read shows, see data_of
fn version_of(x: &Seen) -> (u8, VKey, St) {
    let d = pattern_of(&x.4, x.1 .1).unwrap_or(254);
    (x.0, x.1, St { lam: x.2, own: x.3, d })
}

pub fn exec(plan: &Plan, out: &mut RunResult) {
    let slot: Arc<Mutex<Option<Arc<Shared>>>> = Arc::new(Mutex::new(None));
    // set-up, one thread
    let (cfg, prelude, s2) = (plan.cfg.clone(), plan.prelude.clone(), slot.clone());
    crate::run_seq(plan, out, move |_| {
        let sut = new_sut(&cfg, &[]);
        let mut sh = Arc::new(Shared { store: sut.store, mutable: sut.mutable, hist: Mutex::new(Hist::default()), snaps: Mutex::new(BTreeMap::new()) });
        for (i, op) in prelude.iter().enumerate() {
            if let Op::Crash = op {
                // only the snapshots survive
                let sut = new_sut(&cfg, &[]);
                let snaps = std::mem::take(&mut *sh.snaps.lock().unwrap());
                sh = Arc::new(Shared { store: sut.store, mutable: sut.mutable, hist: Mutex::new(Hist::default()), snaps: Mutex::new(snaps) });
                continue;
            }
            sh.op(99, i, op);
        }
        *s2.lock().unwrap() = Some(sh);
    });
    let Some(sh) = slot.lock().unwrap().clone() else { return };
    if out.poisoned {
        std::mem::forget(sh);
        return;
    }
    sh.hist.lock().unwrap().evs.clear();
    let mut bodies: Vec<Box<dyn FnOnce() + Send>> = vec![];
    for (t, ops) in plan.threads.iter().cloned().enumerate() {
        let sh = sh.clone();
        bodies.push(Box::new(move || {
            for (i, op) in ops.iter().enumerate() {
                sh.op(t, i, op);
            }
        }));
    }
    crate::run_par(plan, out, bodies);
    if out.poisoned {
        std::mem::forget(sh);
        return;
    }
    // everything is quiet: what is readable now
    let (sh2, cfg2) = (sh.clone(), plan.cfg.clone());
    crate::run_seq(plan, out, move |_| {
        for a in 0..cfg2.n_acc {
            for c in [P, C, F] {
                sh2.get(98, a, c);
            }
            let inv = sh2.tick();
            let got = sh2.store.account_store_contains_key(&apk(a));
            sh2.push(98, inv, K::Tracked { a, got });
        }
        for p in 0..cfg2.n_own {
            for c in [P, C, F] {
                sh2.gpa(98, p, &None, c);
            }
        }
    });
    let evs = std::mem::take(&mut sh.hist.lock().unwrap().evs);
    for e in &evs {
        out.note(mix(e.inv ^ e.res << 20) ^ hash_of(&format!("{:?}", e.k)));
    }
    let overlaps = |f: &dyn Fn(&K, &K) -> bool| evs.iter().any(|x| evs.iter().any(|y| x.inv < y.res && y.inv < x.res && f(&x.k, &y.k)));
    let mut probes = vec![];
    if overlaps(&|x, y| matches!((x, y), (K::Upd { k, .. }, K::Slot { s, c, .. }) if k.0 == *s && *c > P)) {
        probes.push("update_overlaps_notification_of_its_slot");
    }
    if overlaps(&|x, y| matches!((x, y), (K::Upd { a, k, .. }, K::Upd { a: b, k: l, .. }) if a == b && k != l)) {
        probes.push("updates_of_one_account_overlap");
    }
    if overlaps(&|x, y| matches!((x, y), (K::Query { .. }, K::Upd { .. }))) {
        probes.push("query_overlaps_update");
    }
    if overlaps(&|x, y| matches!((x, y), (K::Query { .. } | K::Read { .. }, K::Slot { c, .. }) if *c > P)) {
        probes.push("read_overlaps_notification");
    }
    if overlaps(&|x, y| matches!((x, y), (K::Snap { .. }, K::Upd { .. }))) {
        probes.push("snapshot_overlaps_update");
    }
    if overlaps(&|x, y| matches!((x, y), (K::Snap { .. }, K::Slot { c, .. }) if *c == F)) {
        probes.push("snapshot_overlaps_finalization");
    }
    if overlaps(&|x, y| matches!((x, y), (K::Load { accs, .. }, K::Upd { a, .. }) if accs.iter().any(|x| x.0 == *a))) {
        probes.push("load_overlaps_update_of_its_account");
    }
    if overlaps(&|x, y| matches!((x, y), (K::Filter { .. }, K::Upd { .. }))) {
        probes.push("filter_change_overlaps_update");
    }
    out.nontrivial = if plan.prop == "C29" {
        probes.iter().any(|x| x.starts_with("snapshot_") || x.starts_with("load_") || x.starts_with("filter_"))
    } else {
        !probes.is_empty()
    };
    for p in probes {
        out.probe(p);
    }
    if plan.prop == "C10" || !out.violations.is_empty() {
        return;
    }
    // the store before the concurrent part, as the model sees it
    let mut model = Model::default();
    for f in &plan.cfg.filters {
        model.filters.add(f);
    }
    for op in &plan.prelude {
        match op {
            Op::Upd { a, s, w, l, o, d, c, .. } => {
                model.update(*a, (*s, *w), St { lam: *l, own: *o, d: *d }, *c);
            }
            Op::Slot { s, p, c } => {
                model.slot(*s, *p, *c);
            }
            Op::Crash => {
                model.accs.clear();
                model.slots.clear();
            }
            _ => {}
        }
    }
    for e in &evs {
        if let K::Query { got, p, .. } | K::Snap { got, p } = &e.k {
            let ids: BTreeSet<u8> = got.iter().map(|x| x.0).collect();
            if ids.len() != got.len() {
                out.v(which(plan), "twice", format!("a query or snapshot of program {p} returned an account twice"));
            }
        }
    }
    for a in 0..plan.cfg.n_acc {
        out.checks += 1;
        linearize(which(plan), &model, a, &evs, out);
    }
}

#[derive(Clone, Copy, PartialEq, Eq)]
enum Part {
    Whole,
    /// the slots of a notification take their commitment
    Status,
    /// the account follows
    Apply,
}
struct Sub<'a> {
    ev: &'a Ev,
    part: Part,
    /// index of the first half
    status: usize,
    /// what a read or query showed of this account
    shows: Option<Seen>,
}

/// runs with snapshots, loads and filter changes are judged for C29
fn which(plan: &Plan) -> &'static str {
    if plan.prop == "C29" {
        "C29"
    } else {
        "C09"
    }
}

fn linearize(prop: &str, model: &Model, a: u8, evs: &[Ev], out: &mut RunResult) {
    let mut start = model.clone();
    start.accs.retain(|x, _| *x == a);
    for s in start.slots.values_mut() {
        s.accs.retain(|x| *x == a);
    }
    let mut subs: Vec<Sub> = vec![];
    for ev in evs {
        match &ev.k {
            K::Upd { a: b, .. } if *b == a => subs.push(Sub { ev, part: Part::Whole, status: 0, shows: None }),
            K::Read { a: b, got, .. } if *b == a => subs.push(Sub { ev, part: Part::Whole, status: 0, shows: got.clone() }),
            K::Tracked { a: b, .. } if *b == a => subs.push(Sub { ev, part: Part::Whole, status: 0, shows: None }),
            K::Query { got, .. } | K::Snap { got, .. } => {
                subs.push(Sub { ev, part: Part::Whole, status: 0, shows: got.iter().find(|x| x.0 == a).cloned() })
            }
            K::Load { accs, .. } if accs.iter().any(|x| x.0 == a) => subs.push(Sub { ev, part: Part::Whole, status: 0, shows: None }),
            K::Filter { .. } => subs.push(Sub { ev, part: Part::Whole, status: 0, shows: None }),
            K::Slot { c, .. } => {
                let i = subs.len();
                subs.push(Sub { ev, part: Part::Status, status: i, shows: None });
                if *c > P {
                    subs.push(Sub { ev, part: Part::Apply, status: i, shows: None });
                }
            }
            _ => {}
        }
    }
    if subs.len() > 120 {
        out.probe("history_too_long_for_the_checker");
        return;
    }
    let mut seen_states: HashSet<u64> = HashSet::new();
    let mut budget = 60_000u32;
    let mut deepest = (0, String::new());
    let works = BTreeMap::new();
    match search(a, &subs, 0, &start, &works, &mut seen_states, &mut budget, &mut deepest) {
        Some(true) => {
            for s in seen_states.iter().take(40) {
                out.states.push(*s);
            }
        }
        None => out.probe("checker_budget_exhausted"),
        Some(false) => {
            let mut h: Vec<String> = vec![];
            let mut sorted: Vec<&Ev> = evs.iter().filter(|e| touches(&e.k, a)).collect();
            sorted.sort_by_key(|e| e.inv);
            for e in sorted {
                h.push(format!("[{}-{}] {}: {}", e.inv, e.res, who(e.t), text(&e.k, a)));
            }
            out.v(prop, "not_serializable", format!("no serial order explains what was read of account {a}; stuck at {}; history: {}", deepest.1, h.join("; ")));
        }
    }
}
fn who(t: usize) -> String {
    if t == 98 {
        "afterwards".into()
    } else {
        format!("thread {t}")
    }
}
fn touches(k: &K, a: u8) -> bool {
    match k {
        K::Upd { a: b, .. } | K::Read { a: b, .. } | K::Tracked { a: b, .. } => *b == a,
        _ => true,
    }
}
fn text(k: &K, a: u8) -> String {
    match k {
        K::Upd { k, st, c, ret, .. } => format!("update {:?} {} owner {} as {} -> {:?}", k, if st.lam == 0 { "closed" } else { "live" }, st.own, cname(*c), ret),
        K::Read { c, got, .. } => format!("read {} -> {}", cname(*c), show(got)),
        K::Query { p, fl, c, got } => {
            format!("query program {p} {fl:?} {} -> {}", cname(*c), show(&got.iter().find(|x| x.0 == a).cloned()))
        }
        K::Snap { p, got } => format!("snapshot of program {p} -> {}", show(&got.iter().find(|x| x.0 == a).cloned())),
        K::Load { p, accs } => format!("load of a snapshot of program {p} with {:?}", accs.iter().find(|x| x.0 == a)),
        K::Filter { f } => format!("filter added: {f:?}"),
        K::Slot { s, p, c } => format!("slot {s} parent {p} {}", cname(*c)),
        K::Tracked { got, .. } => format!("tracked -> {got}"),
    }
}

/// whether a read made now explains what was returned; None: not a read
fn explains(a: u8, s: &Sub, m: &Model) -> Option<bool> {
    match &s.ev.k {
        K::Read { c, .. } => Some(m.get(a, *c).map(|(k, st)| expect(a, k, &st)) == s.shows),
        K::Query { p, fl, c, .. } => {
            let want = m
                .get(a, *c)
                .filter(|(_, st)| st.own == *p)
                .map(|(k, st)| expect(a, k, &st))
                .filter(|x| fl.iter().flatten().all(|f| f.allows(&x.4)));
            Some(want == s.shows)
        }
        K::Snap { p, .. } => {
            let want = m.get(a, F).filter(|(_, st)| st.own == *p).map(|(k, st)| expect(a, k, &st));
            Some(want == s.shows)
        }
        K::Tracked { got, .. } => Some(*got == m.accs.contains_key(&a)),
        _ => None,
    }
}

#[allow(clippy::too_many_arguments)]
fn search(
    a: u8,
    subs: &[Sub],
    mask: u128,
    m: &Model,
    works: &BTreeMap<usize, Work>,
    memo: &mut HashSet<u64>,
    budget: &mut u32,
    deepest: &mut (u32, String),
) -> Option<bool> {
    let mut mask = mask;
    // reads that fit now change nothing: take them
    loop {
        let frontier = (0..subs.len()).filter(|i| mask >> i & 1 == 0).map(|i| subs[i].ev.res).min();
        let Some(f) = frontier else { return Some(true) };
        let mut took = false;
        for (i, s) in subs.iter().enumerate() {
            if mask >> i & 1 == 0 && s.ev.inv < f && explains(a, s, m) == Some(true) {
                mask |= 1 << i;
                took = true;
            }
        }
        if !took {
            break;
        }
    }
    if *budget == 0 {
        return None;
    }
    *budget -= 1;
    if !memo.insert(mix(hash_of(&(&m.accs, &m.slots, &m.filters, &m.lives, works)) ^ mix(mask as u64) ^ mix((mask >> 64) as u64 ^ 77))) {
        return Some(false);
    }
    let frontier = (0..subs.len()).filter(|i| mask >> i & 1 == 0).map(|i| subs[i].ev.res).min().unwrap();
    if mask.count_ones() >= deepest.0 {
        let stuck: Vec<String> = subs
            .iter()
            .enumerate()
            .filter(|(i, s)| mask >> i & 1 == 0 && s.ev.inv < frontier && explains(a, s, m) == Some(false))
            .map(|(_, s)| text(&s.ev.k, a))
            .collect();
        *deepest = (mask.count_ones(), stuck.join(" | "));
    }
    let mut unknown = false;
    for (i, s) in subs.iter().enumerate() {
        if mask >> i & 1 == 1 || s.ev.inv >= frontier || explains(a, s, m).is_some() {
            continue;
        }
        let mut n = m.clone();
        let mut w = works.clone();
        match (&s.ev.k, s.part) {
            (K::Upd { k, st, c, ret, .. }, _) => {
                let o = n.update(a, *k, st.clone(), *c);
                if *ret == Some(true) && o == UpdOut::Rejected {
                    continue;
                }
            }
            (K::Load { accs, .. }, _) => {
                for (_, k, st) in accs.iter().filter(|x| x.0 == a) {
                    n.update(a, *k, st.clone(), F);
                }
            }
            (K::Filter { f }, _) => n.filters.add(f),
            (K::Slot { s, p, c }, Part::Status) => {
                let work = n.slot_status(*s, *p, *c);
                if *c > P {
                    w.insert(i, work);
                }
            }
            (K::Slot { .. }, Part::Apply) => {
                if mask >> s.status & 1 == 0 {
                    continue;
                }
                let work = w.remove(&s.status).unwrap();
                n.slot_apply(&work);
            }
            _ => continue,
        }
        match search(a, subs, mask | 1 << i, &n, &w, memo, budget, deepest) {
            Some(true) => return Some(true),
            None => unknown = true,
            Some(false) => {}
        }
    }
    if unknown {
        None
    } else {
        Some(false)
    }
}

pub fn info(prop: &str) -> crate::Info {
    let mut i = crate::world_store::info("C01");
    i.rule = if prop == "C10" {
        "one run = seeded operations of 2 to 6 simulated caller threads (updates, several notifiers, reads, queries, snapshots, loads, filter changes) under one seeded schedule; non-trivial: calls that touch the same data overlapped"
    } else if prop == "C29" {
        "one run = seeded operations of 2 to 6 simulated caller threads (updaters, one notifier, readers, snapshots, loads, filter changes) under one seeded schedule; non-trivial: a snapshot, load or filter change overlapped an update or finalization"
    } else {
        "one run = seeded operations of 2 to 5 simulated caller threads (updaters, one notifier, readers) under one seeded schedule; non-trivial: calls that touch the same data overlapped"
    };
    i.assumptions = vec![
        "threads are preempted at code edges of the crates under test and at blocking system calls, not between single machine instructions; memory is sequentially consistent",
        "a notification changes the commitment of its slots at one moment and each account at a later one; reports of notifications that race with updates are not judged",
    ];
    i.stubs.push("thread scheduler (every preemption, lock hand-over and wake-up is a seeded decision)");
    i
}
