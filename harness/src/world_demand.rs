//! Accounts on demand over a simulated accounts source (C19-C22): requesters, a validator's stream and a source
//! with latency and failures run as simulated threads on simulated time.
use crate::common::*;
use crate::model::*;
use crate::rng::{mix, Rng};
use crate::sched::*;
use crate::world_store::*;
use lite_account_manager_common::{
    account_data::AccountData,
    account_filter::{AccountFilterType, AccountFilters},
    account_store_interface::{AccountLoadingError, AccountStorageInterface},
    accounts_source_interface::AccountsSourceInterface,
    mutable_filter_store::MutableFilterStore,
    simple_filter_store::SimpleFilterStore,
    slot_info::SlotInfo,
};
use lite_account_storage::inmemory_account_store::InmemoryAccountStore;
use lite_accounts_on_demand::accounts_on_demand::AccountsOnDemand;
use solana_sdk::pubkey::Pubkey;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use lite_account_storage::storage_by_program_id::StorageByProgramId;
use lite_token_account_storage::{inmemory_token_account_storage::InmemoryTokenAccountStorage, inmemory_token_storage::TokenProgramAccountsStorage};
use crate::world_token::program as spl;
use std::sync::{Arc, Mutex};
use std::time::Duration;

const LATENCIES: [u32; 9] = [0, 1, 20, 400, 2500, 7000, 9990, 11000, 26000];

pub fn gen(prop: &str, seed: u64, tier: u8) -> Plan {
    let mut r = Rng::new(seed);
    let r = &mut r;
    let mut faults = BTreeMap::new();
    let mut count = |k: &str| *faults.entry(k.to_string()).or_insert(0) += 1;
    // stream, source and pauses at the same pace, accounts appearing all the time
    let together = if r.pct(35) { Some(*r.pick(&[2u64, 20, 400])) } else { None };
    let n_acc = if together.is_some() { r.range(3, 9) } else { r.range(1, 4) } as u8;
    let n_own = r.range(1, 2) as u8;
    let lag_c = r.range(0, 2) as i64;
    let p = VParams {
        n_acc,
        n_own,
        slots: r.range(2, if tier > 0 { 12 } else { 8 }),
        fork_pct: 0,
        skip_pct: *r.pick(&[0, 20]),
        close_pct: *r.pick(&[0, 0, 15, 40]),
        owner_pct: *r.pick(&[0, 20, 50]),
        reopen_pct: 80,
        tx_max: r.range(1, 4),
        lag_c,
        lag_f: lag_c + r.range(0, 3) as i64,
        untracked_owner: r.pct(20),
    };
    let mut wv = 0;
    let val = validator(r, &p, 1, &mut wv, None);
    let mut msgs = val.msgs;
    msgs.sort_by_key(|m| m.at);
    let mut ops: Vec<Op> = msgs.into_iter().map(|m| m.op).collect();
    let cut = if r.pct(20) { ops.len() } else { r.idx(ops.len() + 1) };
    let rest = ops.split_off(cut);
    let prelude = ops;
    // the stream goes on while accounts are requested
    let mut stream = vec![];
    let pace = together.map(|t| t / 2).unwrap_or(*r.pick(&[0u64, 1, 30, 500, 4000]));
    for op in rest {
        if pace > 0 && r.pct(50) {
            stream.push(Op::Sleep { ms: r.below(pace) + 1 });
        }
        stream.push(op);
    }
    let mut threads = vec![stream];
    let pool: Vec<Option<Vec<Fl>>> = (0..r.range(1, 3))
        .map(|_| if r.pct(45) { None } else { Some(gen_fls(r)) })
        .collect();
    let requesters = r.range(1, 4);
    let gets = match prop {
        "C19" => 90,
        "C22" => 15,
        _ => 50,
    };
    let fail = match prop {
        "C20" => 45,
        "C19" | "C22" => *r.pick(&[0, 0, 20]),
        _ => *r.pick(&[0, 15]),
    };
    let slow = match prop {
        "C21" => 60,
        _ => *r.pick(&[10, 40]),
    };
    for _ in 0..requesters {
        let mut v = vec![];
        for _ in 0..r.range(1, if tier > 0 { 7 } else { 5 }) {
            if r.pct(25) {
                v.push(Op::Sleep { ms: if r.pct(50) { r.below(30) } else { r.below(15000) } });
            }
            if r.pct(70) {
                let lat = |r: &mut Rng, slow| if let Some(t) = together { r.range(t / 2, t * 2) as u32 } else if r.pct(slow) { LATENCIES[r.idx(LATENCIES.len())] } else { LATENCIES[r.idx(3)] };
                let (mut fail_sub, mut fail_snap) = (0, 0);
                if r.pct(fail) {
                    match r.below(10) {
                        0..=2 => fail_sub = 1,
                        3 => fail_sub = 2,
                        4..=6 => fail_snap = 1,
                        7 | 8 => fail_snap = 2,
                        _ => {
                            if r.pct(50) {
                                fail_sub = 3
                            } else {
                                fail_snap = 3
                            }
                        }
                    }
                }
                let (sub_ms, ms) = (if r.pct(if together.is_some() { 10 } else { 40 }) { lat(r, slow) } else { 0 }, lat(r, slow));
                match fail_sub {
                    1 => count("subscription_failure"),
                    2 => count("subscription_reply_lost"),
                    3 => count("source_panic"),
                    _ => {}
                }
                match fail_snap {
                    1 => count("load_failure"),
                    2 => count("load_failure_halfway"),
                    3 => count("source_panic"),
                    _ => {}
                }
                if sub_ms.max(ms) >= 2500 {
                    count("slow_source");
                }
                v.push(Op::Source { fail_sub, fail_snap, sub_ms, ms });
            }
            let c = r.below(3) as u8;
            v.push(if r.pct(gets) {
                Op::Get { a: r.below(n_acc as u64) as u8, c }
            } else {
                Op::Gpa { p: r.below(n_own as u64) as u8, fl: pool[r.idx(pool.len())].clone(), c }
            });
        }
        threads.push(v);
    }
    let i = r.next();
    let mut policy = crate::batch::random_policy(r, i);
    if prop == "C21" {
        // a thread that stands still in the middle of a request is no reason for an answer in time
        if let Policy::OpPause { .. } = &policy {
            policy = Policy::Random { gap: 1 << r.range(2, 9) };
        }
    } else {
        let ns = together.map(|t| t * 1_000_000).unwrap_or(*r.pick(&[200_000, 5_000_000, 300_000_000, 4_000_000_000]));
        if r.pct(if together.is_some() { 60 } else { 15 }) {
            policy = Policy::OpPause { pct: *r.pick(&[15, 40]), len: 1 << r.range(3, 9), pause: ns };
        }
        match &mut policy {
            Policy::OpPause { pause, .. } => {
                *pause = ns;
                count("thread_paused");
            }
            Policy::Edge { pause, .. } if r.pct(70) => {
                *pause = ns;
                count("thread_paused");
            }
            _ => {}
        }
    }
    let mut cfg = Cfg { n_acc, n_own: n_own + 1, ..Default::default() };
    cfg.flags.insert("archive".into(), r.pct(30) as i64);
    cfg.flags.insert("wrapped".into(), *r.pick(&[0, 0, 0, 1, 2]));
    cfg.flags.insert("late_reply".into(), r.pct(if together.is_some() { 70 } else { 30 }) as i64);
    let timing = prop == "C21" || r.pct(30);
    Plan {
        prop: String::new(),
        world: "demand".into(),
        cfg,
        prelude,
        threads,
        sched: SchedCfg {
            seed: r.next(),
            policy,
            tick_pm: if timing && r.pct(50) { *r.pick(&[20, 200]) } else { 0 },
            spurious_pm: if timing && r.pct(60) { *r.pick(&[50, 300]) } else { 0 },
            max_steps: 60_000_000,
        },
        faults,
    }
}

/// what a request or a load is about
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Key {
    Acc(u8),
    Prog(u8, BTreeSet<Fl>),
    /// several things at once
    Many(Vec<Key>),
}
impl Key {
    /// everything `o` is about is included
    fn covers(&self, o: &Key) -> bool {
        match (self, o) {
            (Key::Many(v), o) => v.iter().any(|x| x.covers(o)),
            (s, Key::Many(v)) => v.iter().all(|x| s.covers(x)),
            (Key::Acc(a), Key::Acc(b)) => a == b,
            (Key::Prog(p, f), Key::Prog(q, g)) => p == q && f.is_subset(g),
            _ => false,
        }
    }
    fn matches(&self, s: &Seen) -> bool {
        match self {
            Key::Acc(a) => *a == s.0,
            Key::Prog(p, f) => *p == s.3 && f.iter().all(|f| f.allows(&s.4)),
            Key::Many(v) => v.iter().any(|x| x.matches(s)),
        }
    }
    /// one of the parts of the other
    fn meets(&self, o: &Key) -> bool {
        self.covers(o) || o.covers(self)
    }
}

#[derive(Clone, Debug)]
struct Src {
    t: usize,
    load: bool,
    key: Key,
    start: u64,
    end: u64,
    ns0: u64,
    ns1: u64,
    ok: bool,
    /// when accounts were put into the store
    put: Option<(u64, u64, BTreeSet<u8>)>,
}

#[derive(Clone, Debug)]
struct Call {
    t: usize,
    c: u8,
    key: Key,
    inv: u64,
    res: u64,
    ns0: u64,
    ns1: u64,
    /// stream messages delivered before the call and sent before its end
    lo: usize,
    hi: usize,
    known_before: bool,
    got: Result<Vec<Seen>, String>,
}

type View = Vec<[Option<Seen>; 3]>;

struct World {
    seq: u64,
    model: Model,
    /// what is readable after each message
    views: Vec<View>,
    done: usize,
    sub_accs: BTreeSet<u8>,
    sub_progs: BTreeSet<u8>,
    /// per account all owners it had
    owners: BTreeMap<u8, BTreeSet<u8>>,
    srcs: Vec<Src>,
    calls: Vec<Call>,
    behaviour: BTreeMap<usize, (u8, u8, u32, u32)>,
    panics: Vec<String>,
    leaves: bool,
    last_slot: u64,
}

struct Shared {
    cfg: Cfg,
    w: Mutex<World>,
    stream: Mutex<()>,
    fls: Vec<(AccountFilterType, Fl)>,
    inner: Arc<InmemoryAccountStore>,
}

const PANIC: &str = "simulated panic of the source";

impl Shared {
    fn with<R>(&self, f: impl FnOnce(&mut World) -> R) -> R {
        without_points(|| {
            let mut w = self.w.lock().unwrap();
            f(&mut w)
        })
    }
    fn tick(&self) -> u64 {
        self.with(|w| {
            w.seq += 1;
            w.seq
        })
    }
    fn view(w: &World, n_acc: u8) -> View {
        (0..n_acc)
            .map(|a| {
                let f = |c| w.model.get(a, c).map(|(k, st)| expect(a, k, &st));
                [f(P), f(C), f(F)]
            })
            .collect()
    }
    /// a message of the validator; delivered if the account or its program was subscribed
    fn message(&self, store: &dyn AccountStorageInterface, op: &Op) {
        let g = self.stream.lock().unwrap_or_else(|e| e.into_inner());
        let n_acc = self.cfg.n_acc;
        match op {
            Op::Upd { a, s, w: wv, l, o, d, z, .. } => {
                let (real, deliver) = self.with(|w| {
                    let st = St { lam: *l, own: *o, d: *d };
                    w.model.update(*a, (*s, *wv), st.clone(), P);
                    // such an account may leave the store
                    let moved = w.owners.get(a).map(|x| !x.contains(o)).unwrap_or(false);
                    // also when its data do not match the filters it was loaded for any more
                    w.leaves |= *l == 0 || moved || !self.fls.is_empty();
                    w.last_slot = w.last_slot.max(*s);
                    w.owners.entry(*a).or_default().insert(*o);
                    let v = Self::view(w, n_acc);
                    w.views.push(v);
                    let deliver = w.sub_accs.contains(a) || w.owners[a].iter().any(|o| w.sub_progs.contains(o));
                    (account(*a, (*s, *wv), &st, *z), deliver)
                });
                if deliver {
                    store.update_account(real, commitment(P));
                }
            }
            Op::Slot { s, p, c } => {
                self.with(|w| {
                    w.model.slot(*s, *p, *c);
                    w.last_slot = w.last_slot.max(*s);
                    let v = Self::view(w, n_acc);
                    w.views.push(v);
                });
                store.process_slot_data(SlotInfo { slot: *s, parent: *p, root: 0 }, commitment(*c));
            }
            _ => {}
        }
        self.with(|w| {
            w.seq += 1;
            w.done += 1
        });
        drop(g);
    }
    fn behave(&self, t: usize) -> (u8, u8, u32, u32) {
        self.with(|w| w.behaviour.get(&t).copied().unwrap_or((0, 0, 0, 0)))
    }
    fn nap(ms: u32) {
        // in slices: others get to run in between
        let n = if ms > 10 { 4 } else { 1 };
        if ms > 0 {
            for i in 0..n {
                std::thread::sleep(Duration::from_micros(ms as u64 * 1000 / n));
                point(0x500 + i);
            }
        }
    }
    fn fls_of(&self, f: &Option<Vec<AccountFilterType>>) -> BTreeSet<Fl> {
        f.iter().flatten().map(|x| self.fls.iter().find(|(r, _)| r == x).map(|(_, f)| f.norm()).unwrap_or(Fl::Size(u64::MAX))).collect()
    }
    fn prog_of(p: &Pubkey) -> u8 {
        own_of(p).unwrap_or(250)
    }
}

struct Source {
    sh: Arc<Shared>,
}

impl Source {
    fn subscribe(&self, key: Key) -> anyhow::Result<()> {
        let t = me();
        let sh = &self.sh;
        let (fail, _, ms, _) = sh.behave(t);
        let i = sh.with(|w| {
            w.seq += 1;
            let s = Src { t, load: false, key: key.clone(), start: w.seq, end: u64::MAX, ns0: now_ns(), ns1: u64::MAX, ok: false, put: None };
            w.srcs.push(s);
            w.srcs.len() - 1
        });
        Shared::nap(ms);
        if fail != 1 && fail != 3 {
            let _g = sh.stream.lock().unwrap_or_else(|e| e.into_inner());
            sh.with(|w| {
                fn add(w: &mut World, k: &Key) {
                    match k {
                        Key::Acc(a) => {
                            w.sub_accs.insert(*a);
                        }
                        Key::Prog(p, _) => {
                            w.sub_progs.insert(*p);
                        }
                        Key::Many(v) => v.iter().for_each(|k| add(w, k)),
                    }
                }
                add(w, &key)
            });
        }
        sh.with(|w| {
            w.seq += 1;
            w.srcs[i].end = w.seq;
            w.srcs[i].ns1 = now_ns();
            w.srcs[i].ok = fail == 0;
        });
        match fail {
            0 => Ok(()),
            3 => panic!("{}", PANIC),
            _ => Err(anyhow::anyhow!("simulated failure")),
        }
    }
}

fn me() -> usize {
    TID.with(|t| t.get())
}
thread_local! { static TID: std::cell::Cell<usize> = const { std::cell::Cell::new(99) }; }

impl AccountsSourceInterface for Source {
    fn subscribe_accounts(&self, account: HashSet<Pubkey>) -> anyhow::Result<()> {
        let mut v: Vec<u8> = account.iter().map(|a| acc_of(a).unwrap_or(250)).collect();
        v.sort();
        let mut v: Vec<Key> = v.into_iter().map(Key::Acc).collect();
        self.subscribe(if v.len() == 1 { v.remove(0) } else { Key::Many(v) })
    }
    fn subscribe_program_accounts(&self, program_id: Pubkey, filters: Option<Vec<AccountFilterType>>) -> anyhow::Result<()> {
        let key = without_points(|| Key::Prog(Shared::prog_of(&program_id), self.sh.fls_of(&filters)));
        self.subscribe(key)
    }
    fn save_snapshot(&self, storage: Arc<dyn AccountStorageInterface>, account_filters: AccountFilters) -> anyhow::Result<()> {
        let t = me();
        let sh = &self.sh;
        let mut v = vec![];
        for f in &account_filters {
            v.extend(f.accounts.iter().map(|a| Key::Acc(acc_of(a).unwrap_or(250))));
            if let Some(p) = &f.program_id {
                v.push(Key::Prog(Shared::prog_of(p), sh.fls_of(&f.filters)));
            }
        }
        let key = if v.len() == 1 { v.remove(0) } else { Key::Many(v) };
        let (_, fail, _, ms) = sh.behave(t);
        let i = sh.with(|w| {
            w.seq += 1;
            let s = Src { t, load: true, key: key.clone(), start: w.seq, end: u64::MAX, ns0: now_ns(), ns1: u64::MAX, ok: false, put: None };
            w.srcs.push(s);
            w.srcs.len() - 1
        });
        let late = sh.cfg.flag("late_reply") == 1;
        Shared::nap(if late { ms / 2 } else { ms });
        if fail != 1 {
            let _g = sh.stream.lock().unwrap_or_else(|e| e.into_inner());
            // finalized accounts and the updates that are not final yet, per account
            let (mut accs, start) = sh.with(|w| {
                let mut accs: Vec<(u8, Option<AccountData>, Vec<AccountData>)> = vec![];
                for a in 0..sh.cfg.n_acc {
                    let Some(rec) = w.model.accs.get(&a) else { continue };
                    let f = rec.read(F).map(|(k, v)| (k, v.st.clone()));
                    let rest: Vec<(VKey, St)> =
                        rec.vers.iter().filter(|(k, _)| f.as_ref().map(|f| **k > f.0).unwrap_or(true)).map(|(k, v)| (*k, v.st.clone())).collect();
                    let live = f.clone().filter(|f| f.1.lam > 0);
                    let all: Vec<Seen> = live.iter().chain(rest.iter()).map(|(k, st)| expect(a, *k, st)).collect();
                    if !all.iter().any(|s| key.matches(s)) {
                        continue;
                    }
                    accs.push((
                        a,
                        live.map(|(k, st)| account(a, k, &st, a)),
                        rest.iter().map(|(k, st)| account(a, *k, st, a + 1)).collect(),
                    ));
                }
                w.seq += 1;
                let set = accs.iter().map(|x| x.0).collect();
                w.srcs[i].put = Some((w.seq, u64::MAX, set));
                (accs, w.seq)
            });
            if fail > 1 {
                let n = accs.len() / 2;
                accs.truncate(n);
            }
            let archive = sh.cfg.flag("archive") == 1 && fail == 0;
            let mut bytes: Vec<(Pubkey, Vec<u8>)> = vec![];
            if archive {
                without_points(|| {
                    let mut by: BTreeMap<Pubkey, Vec<AccountData>> = BTreeMap::new();
                    for (_, f, _) in &accs {
                        if let Some(f) = f {
                            by.entry(f.account.owner).or_default().push(f.clone());
                        }
                    }
                    for (p, v) in by {
                        let mut s = SimpleFilterStore::default();
                        s.add_account_filters(&vec![lite_account_manager_common::account_filter::AccountFilter {
                            accounts: vec![],
                            program_id: Some(p),
                            filters: None,
                        }]);
                        let scratch = InmemoryAccountStore::new(Arc::new(s));
                        for x in v {
                            scratch.initilize_or_update_account(x);
                        }
                        if let Ok(b) = scratch.create_snapshot(p) {
                            bytes.push((p, b));
                        }
                    }
                });
                for (p, b) in bytes {
                    let _ = storage.load_from_snapshot(p, b);
                }
            }
            for (_, f, rest) in accs {
                if !archive {
                    if let Some(f) = f {
                        storage.initilize_or_update_account(f);
                    }
                }
                for x in rest {
                    storage.update_account(x, commitment(P));
                }
            }
            sh.with(|w| {
                w.seq += 1;
                let set = w.srcs[i].put.take().unwrap().2;
                w.srcs[i].put = Some((start, w.seq, set));
            });
        }
        if late {
            Shared::nap(ms - ms / 2);
        }
        sh.with(|w| {
            w.seq += 1;
            w.srcs[i].end = w.seq;
            w.srcs[i].ns1 = now_ns();
            w.srcs[i].ok = fail == 0;
        });
        match fail {
            0 => Ok(()),
            3 => panic!("{}", PANIC),
            _ => Err(anyhow::anyhow!("simulated failure")),
        }
    }
}

fn err_name(e: &AccountLoadingError) -> String {
    format!("{e:?}")
}

fn request(sh: &Shared, d: &dyn AccountStorageInterface, t: usize, op: &Op) {
    let (key, c) = match op {
        Op::Get { a, c } => (Key::Acc(*a), *c),
        Op::Gpa { p, fl, c } => (Key::Prog(*p, fl.iter().flatten().map(|f| f.norm()).collect()), *c),
        _ => return,
    };
    let real = match op {
        Op::Gpa { fl, .. } => fl.as_ref().map(|v| v.iter().map(|f| f.real()).collect::<Vec<_>>()),
        _ => None,
    };
    let known = match op {
        Op::Get { a, c } => without_points(|| matches!(sh.inner.get_account(apk(*a), commitment(*c)), Ok(Some(_)))),
        _ => false,
    };
    let (inv, lo) = sh.with(|w| {
        w.seq += 1;
        (w.seq, w.done)
    });
    let ns0 = now_ns();
    let r = crate::quiet_panic(|| match op {
        Op::Get { a, c } => d.get_account(apk(*a), commitment(*c)).map(|x| x.into_iter().collect::<Vec<_>>()),
        Op::Gpa { p, c, .. } => d.get_program_accounts(ppk(*p), real, commitment(*c)),
        _ => unreachable!(),
    });
    let ns1 = now_ns();
    let got = match r {
        Ok(Ok(v)) => Ok(without_points(|| v.iter().map(seen).collect())),
        Ok(Err(e)) => Err(err_name(&e)),
        Err(p) if p.contains(PANIC) => Err("panic of the source".into()),
        Err(p) => {
            sh.with(|w| w.panics.push(format!("thread {t}: {p}")));
            return;
        }
    };
    sh.with(|w| {
        w.seq += 1;
        let (res, hi) = (w.seq, w.views.len() - 1);
        w.calls.push(Call { t, c, key, inv, res, ns0, ns1, lo, hi, known_before: known, got });
    });
}

fn run_op(sh: &Shared, d: &dyn AccountStorageInterface, t: usize, i: usize, op: &Op) {
    set_op(i as u32);
    match op {
        Op::Upd { .. } | Op::Slot { .. } => sh.message(d, op),
        Op::Get { .. } | Op::Gpa { .. } => request(sh, d, t, op),
        Op::Sleep { ms } => std::thread::sleep(Duration::from_millis(*ms)),
        Op::Source { fail_sub, fail_snap, sub_ms, ms } => sh.with(|w| {
            w.behaviour.insert(t, (*fail_sub, *fail_snap, *sub_ms, *ms));
        }),
        _ => {}
    }
}

const LAST: usize = 98;

pub fn exec(plan: &Plan, out: &mut RunResult) {
    let slot: Arc<Mutex<Option<(Arc<Shared>, Arc<dyn AccountStorageInterface>)>>> = Arc::new(Mutex::new(None));
    let mut queries: Vec<(u8, Option<Vec<Fl>>)> = vec![];
    for op in plan.threads.iter().flatten() {
        if let Op::Gpa { p, fl, .. } = op {
            if !queries.contains(&(*p, fl.clone())) {
                queries.push((*p, fl.clone()));
            }
        }
    }
    let fls: Vec<Fl> = queries.iter().flat_map(|q| q.1.iter().flatten().cloned()).collect();
    let (cfg, prelude, s2) = (plan.cfg.clone(), plan.prelude.clone(), slot.clone());
    crate::run_seq(plan, out, move |_| {
        let filters = Arc::new(MutableFilterStore::default());
        let inner = Arc::new(InmemoryAccountStore::new(filters.clone()));
        let mut model = Model::default();
        model.filters.pinned.extend(0..cfg.n_acc);
        let mut w = World {
            seq: 0,
            model,
            views: vec![],
            done: 0,
            sub_accs: BTreeSet::new(),
            sub_progs: BTreeSet::new(),
            owners: BTreeMap::new(),
            srcs: vec![],
            calls: vec![],
            behaviour: BTreeMap::new(),
            panics: vec![],
            leaves: false,
            last_slot: 0,
        };
        let v = Shared::view(&w, cfg.n_acc);
        w.views.push(v);
        let sh = Arc::new(Shared {
            cfg,
            w: Mutex::new(w),
            stream: Mutex::new(()),
            fls: fls.iter().flat_map(|f| [(f.real(), f.clone()), (f.norm().real(), f.clone())]).collect(),
            inner: inner.clone(),
        });
        let n_own = sh.cfg.n_own;
        let wrapped = sh.cfg.flag("wrapped");
        let mut d: Arc<dyn AccountStorageInterface> = Arc::new(AccountsOnDemand::new(Arc::new(Source { sh: sh.clone() }), filters, inner));
        // used through the dispatcher
        let token = || Arc::new(TokenProgramAccountsStorage::new(Arc::new(InmemoryTokenAccountStorage::default())));
        if wrapped == 1 {
            // as the storage of all programs without one of their own
            d = Arc::new(StorageByProgramId::new(HashMap::from([(spl(0), token() as Arc<dyn AccountStorageInterface>)]), d));
        } else if wrapped == 2 {
            // as the storage of the programs
            let m = (0..=n_own).map(|p| (ppk(p), d.clone())).collect();
            d = Arc::new(StorageByProgramId::new(m, Arc::new(InmemoryAccountStore::new(Arc::new(SimpleFilterStore::default())))));
        }
        for op in &prelude {
            sh.message(&*d, op);
        }
        *s2.lock().unwrap() = Some((sh, d));
    });
    let Some((sh, d)) = slot.lock().unwrap().clone() else { return };
    if out.poisoned {
        std::mem::forget((sh, d));
        return;
    }
    let mut bodies: Vec<Box<dyn FnOnce() + Send>> = vec![];
    for (t, ops) in plan.threads.iter().cloned().enumerate() {
        let (sh, d) = (sh.clone(), d.clone());
        bodies.push(Box::new(move || {
            TID.with(|x| x.set(t));
            for (i, op) in ops.iter().enumerate() {
                run_op(&sh, &*d, t, i, op);
            }
        }));
    }
    let before = (out.stats.ticks, out.stats.spurious, out.stats.timeouts);
    crate::run_par(plan, out, bodies);
    if out.poisoned {
        std::mem::forget((sh, d));
        return;
    }
    let (ticks, spurious) = (out.stats.ticks - before.0, out.stats.spurious - before.1);
    // the source works again: everything can be loaded, and then nothing has to be loaded again
    let marks = Arc::new(Mutex::new((0u64, 0u64, 0u64)));
    let (sh2, d2, q2, marks2) = (sh.clone(), d.clone(), queries.clone(), marks.clone());
    let run = move |_: &mut RunResult| {
        TID.with(|x| x.set(LAST));
        sh2.with(|w| w.behaviour.clear());
        let n_own = sh2.cfg.n_own;
        let ask = || {
            for c in [F, P, C] {
                for a in 0..sh2.cfg.n_acc {
                    request(&sh2, &*d2, LAST, &Op::Get { a, c });
                }
                for (p, fl) in &q2 {
                    request(&sh2, &*d2, LAST, &Op::Gpa { p: *p, fl: fl.clone(), c });
                }
            }
        };
        let m0 = sh2.tick();
        ask();
        let m1 = sh2.tick();
        ask();
        let m2 = sh2.tick();
        *marks2.lock().unwrap() = (m0, m1, m2);
        // new states of everything that is covered by now
        let s = sh2.with(|w| w.last_slot);
        let mut wv = 1_000_000;
        for a in 0..sh2.cfg.n_acc {
            wv += 1;
            sh2.message(&*d2, &Op::Upd { a, s: s + 1, w: wv, l: 5, o: a % n_own.max(1), d: a & 0x17, z: 0, c: P, init: false });
        }
        for c in [P, C, F] {
            sh2.message(&*d2, &Op::Slot { s: s + 1, p: s, c });
            ask();
        }
    };
    crate::run_seq(plan, out, run);
    if out.poisoned {
        std::mem::forget((sh, d));
        return;
    }
    let marks = *marks.lock().unwrap();
    let w = std::mem::replace(
        &mut *sh.w.lock().unwrap(),
        World {
            seq: 0,
            model: Model::default(),
            views: vec![],
            done: 0,
            sub_accs: BTreeSet::new(),
            sub_progs: BTreeSet::new(),
            owners: BTreeMap::new(),
            srcs: vec![],
            calls: vec![],
            behaviour: BTreeMap::new(),
            panics: vec![],
            leaves: false,
            last_slot: 0,
        },
    );
    judge(&w, marks, ticks, spurious, out);
}

fn secs(ns: u64) -> f64 {
    (ns as f64 / 1e6).round() / 1e3
}
fn name(k: &Key) -> String {
    match k {
        Key::Acc(a) => format!("account {a}"),
        Key::Prog(p, f) if f.is_empty() => format!("program {p}"),
        Key::Prog(p, f) => format!("program {p} {f:?}"),
        Key::Many(v) => v.iter().map(name).collect::<Vec<_>>().join(" and "),
    }
}
fn who(t: usize) -> String {
    if t == LAST {
        "afterwards".into()
    } else {
        format!("thread {t}")
    }
}

fn judge(w: &World, marks: (u64, u64, u64), ticks: u64, spurious: u64, out: &mut RunResult) {
    for p in &w.panics {
        out.v("*", "panic", p.clone());
    }
    for c in &w.calls {
        out.note(mix(c.inv ^ c.res << 20) ^ hash_of(&format!("{:?}", c.got)));
        out.states.push(hash_of(&(&c.key, c.c, format!("{:?}", c.got.as_ref().map(|v| v.len())), w.srcs.iter().filter(|s| s.start > c.inv && s.start < c.res).count())));
    }
    for s in &w.srcs {
        out.note(mix(s.start ^ s.end << 20) ^ hash_of(&s.key));
    }
    // one flight: subscription and the load that follows it
    struct Flight {
        key: Key,
        t: usize,
        start: u64,
        end: u64,
        loaded: bool,
    }
    let mut flights: Vec<Flight> = vec![];
    for s in &w.srcs {
        if !s.load {
            flights.push(Flight { key: s.key.clone(), t: s.t, start: s.start, end: s.end, loaded: false });
        } else {
            match flights.iter_mut().rev().find(|f| f.t == s.t && f.key == s.key && !f.loaded) {
                Some(f) => {
                    f.end = s.end;
                    f.loaded = s.ok;
                }
                None => flights.push(Flight { key: s.key.clone(), t: s.t, start: s.start, end: s.end, loaded: s.ok }),
            }
        }
    }
    let pid = |k: &Key| if matches!(k, Key::Acc(_)) { "C19" } else { "C22" };
    // subscribe before load
    for s in w.srcs.iter().filter(|s| s.load) {
        out.checks += 1;
        if !w.srcs.iter().any(|x| !x.load && x.ok && x.end < s.start && x.key.covers(&s.key)) {
            out.v(pid(&s.key), "loaded_unsubscribed", format!("{} was loaded before a subscription to it succeeded", name(&s.key)));
        }
    }
    for (i, f) in flights.iter().enumerate() {
        for g in &flights[i + 1..] {
            if f.key != g.key {
                continue;
            }
            out.checks += 1;
            if g.start < f.end && f.start < g.end {
                out.v(pid(&f.key), "loaded_twice", format!("{} was subscribed and loaded by {} while {} was doing it", name(&f.key), who(g.t), who(f.t)));
            } else if f.loaded && matches!(f.key, Key::Acc(_)) && g.start > f.end {
                out.v("C19", "loaded_again", format!("{} was subscribed again by {} after {} had loaded it", name(&f.key), who(g.t), who(f.t)));
            }
        }
    }
    // covered queries need no new subscription
    for s in w.srcs.iter().filter(|s| !s.load && matches!(s.key, Key::Prog(..))) {
        let Some(req) = w.calls.iter().find(|c| c.t == s.t && c.inv < s.start && s.start < c.res) else { continue };
        out.checks += 1;
        if let Some(x) = w.calls.iter().find(|x| x.got.is_ok() && x.res < req.inv && x.key.covers(&s.key)) {
            out.v("C22", "covered_subscribed", format!("{} was subscribed although {} was answered before", name(&s.key), name(&x.key)));
        }
    }
    if let Some(s) = w.srcs.iter().find(|s| s.start > marks.1 && s.start < marks.2) {
        out.v(pid(&s.key), "loaded_again", format!("{} was subscribed or loaded again after everything had been loaded", name(&s.key)));
    }
    let mut overlapped = false;
    for c in &w.calls {
        let own: Vec<&Src> = w.srcs.iter().filter(|s| s.t == c.t && s.start > c.inv && s.start < c.res).collect();
        if c.known_before && !w.leaves {
            out.checks += 1;
            if let Some(s) = own.first() {
                out.v("C19", "known_subscribed", format!("{} subscribed to {} although {} was in the store", who(c.t), name(&s.key), name(&c.key)));
            }
        }
        let around: Vec<&Src> = w.srcs.iter().filter(|s| s.start < c.res && s.end > c.inv && s.key.meets(&c.key)).collect();
        let failures = around.iter().any(|s| !s.ok);
        let earlier_failure = w.srcs.iter().any(|s| !s.ok && s.start < c.res && s.key.meets(&c.key));
        let waited = own.is_empty() && !around.is_empty();
        overlapped |= waited;
        let dur = c.ns1 - c.ns0;
        let own_ns: u64 = own.iter().map(|s| s.ns1 - s.ns0).sum();
        if waited {
            out.probe("request_overlaps_load_of_another");
        }
        if failures && waited {
            out.probe("request_overlaps_failing_load_of_another");
        }
        let what = format!("{}: request for {} at {} ({} to {} s)", who(c.t), name(&c.key), cname(c.c), secs(c.ns0), secs(c.ns1));
        if ticks == 0 {
            out.checks += 1;
            if dur > own_ns + 10_500_000_000 {
                out.v("C21", "waited_too_long", format!("{what} took {} s, {} s of it in the source", secs(dur), secs(own_ns)));
            }
        }
        match &c.got {
            Err(e) if e == "OperationTimeOut" => {
                out.checks += 1;
                out.probe("timeout_error");
                if dur < 9_990_000_000 {
                    out.v("C21", "early_timeout", format!("{what} timed out after {} s", secs(dur)));
                }
                // another request for exactly this was answered from the load before the time was over
                if let Some(x) = w.calls.iter().find(|x| {
                    x.key == c.key && x.got.is_ok() && x.t != c.t && x.ns1 + 10_000_000 < c.ns0 + 10_000_000_000 && x.inv < c.res && x.res > c.inv
                        && w.srcs.iter().any(|s| s.t == x.t && s.load && s.ok && s.start > x.inv && s.end < x.res)
                }) {
                    out.v("C21", "timeout_although_loaded", format!("{what} timed out although {} had loaded it at {} s", who(x.t), secs(x.ns1)));
                }
            }
            Err(e) => {
                out.checks += 1;
                if !failures {
                    out.v("C20", "unexpected_error", format!("{what} failed with {e} although nothing failed for it"));
                } else {
                    out.probe("error_reported");
                }
            }
            Ok(v) => {
                let mut bad = vec![];
                let ids: BTreeSet<u8> = v.iter().map(|x| x.0).collect();
                if ids.len() != v.len() {
                    bad.push("an account is listed twice".to_string());
                }
                for a in 0..w.views[0].len() as u8 {
                    out.checks += 1;
                    let got = v.iter().find(|x| x.0 == a);
                    if let Key::Acc(b) = &c.key {
                        if *b != a {
                            if got.is_some() {
                                bad.push(format!("another account {a} returned"));
                            }
                            continue;
                        }
                    }
                    let fits = |view: &View| {
                        let want = view[a as usize][c.c as usize].as_ref().filter(|s| c.key.matches(s));
                        want == got
                    };
                    let (lo, hi) = (c.lo, c.hi);
                    if w.views[lo..=hi].iter().any(fits) {
                        continue;
                    }
                    // while the account is being put into the store only a part of its states is there
                    let being_put = w.srcs.iter().any(|s| match &s.put {
                        Some((x, y, set)) => *x < c.res && *y > c.inv && set.contains(&a),
                        None => false,
                    });
                    if being_put && got.is_some() && w.views[..=hi].iter().any(|v| v[a as usize].iter().any(|s| s.as_ref() == got)) {
                        continue;
                    }
                    let want: Vec<String> = w.views[lo..=hi].iter().map(|v| show(&v[a as usize][c.c as usize].clone().filter(|s| c.key.matches(s)))).collect::<BTreeSet<_>>().into_iter().collect();
                    bad.push(format!("account {a} is {} but should be {}", show(&got.cloned()), want.join(" or ")));
                }
                if !bad.is_empty() {
                    let d = format!("{what}: {}", bad.join(", "));
                    out.v(pid(&c.key), "wrong_answer", d.clone());
                    if earlier_failure {
                        out.v("C20", "wrong_answer", d.clone());
                    }
                    if dur > 9_000_000_000 || spurious > 0 || waited {
                        out.v("C21", "wrong_answer", d);
                    }
                }
            }
        }
        // once the source works every request succeeds
        if c.inv > marks.0 && c.got.is_err() {
            out.v("C20", "failure_persists", format!("{what} failed although the source works"));
            if matches!(&c.got, Err(e) if e == "OperationTimeOut") {
                out.v("C21", "blocked_forever", format!("{what} timed out although nothing was loading"));
            }
        }
    }
    let failed = w.srcs.iter().any(|s| !s.ok);
    if failed {
        out.probe("source_failure_reached");
    }
    if spurious > 0 {
        out.probe("spurious_wakeup");
    }
    out.nontrivial = overlapped || failed;
}

pub fn info(_prop: &str) -> crate::Info {
    crate::Info {
        rule: "one run = seeded requests of 1 to 4 simulated requester threads, a validator's stream and the latencies and failures of the source under one seeded schedule on simulated time; non-trivial: a request overlapped a load of another requester or a source call failed",
        real: vec!["accounts_on_demand (AccountsOnDemand)", "common (MutableFilterStore, SimpleFilterStore, filters, codecs)", "account_storage (InmemoryAccountStore)", "std Mutex, RwLock and Condvar on the simulated futex"],
        stubs: vec!["accounts source (subscriptions, snapshots, latency, failures)", "validator and its stream", "clock", "thread scheduler (every preemption, lock hand-over, wake-up and clock jump is a seeded decision)"],
        assumptions: vec![
            "the source streams every update of a subscribed account, also when it leaves the subscribed program, and its snapshot includes the updates that are not final yet",
            "stream messages and the delivery of a snapshot do not overlap each other; requests overlap both",
            "threads are preempted at code edges of the crates under test and at blocking system calls",
        ],
    }
}
