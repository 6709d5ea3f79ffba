//! Memory held by the stores (C28): the same seeded day is lived again and again, later and later in slots; what is
//! alive at the end of each day does not grow, so neither may the memory.
use crate::common::*;
use crate::rng::Rng;
use crate::sched::*;
use crate::world_store as ws;
use crate::world_token as wt;
use lite_account_manager_common::{
    account_data::AccountData,
    account_filter::{AccountFilterType, AccountFilters},
    account_store_interface::AccountStorageInterface,
    accounts_source_interface::AccountsSourceInterface,
    mutable_filter_store::MutableFilterStore,
    slot_info::SlotInfo,
};
use lite_accounts_on_demand::accounts_on_demand::AccountsOnDemand;
use lite_token_account_storage::{
    inmemory_token_account_storage::InmemoryTokenAccountStorage, inmemory_token_storage::TokenProgramAccountsStorage,
};
use solana_sdk::pubkey::Pubkey;
use std::collections::{BTreeMap, HashSet};
use std::sync::{Arc, Mutex};

/// days of the first look and of the long one
const SHORT: u64 = 256;
const LONG: u64 = 4096;
/// the least that a leak takes each day: one index
const LEAST: i64 = 3;

pub fn gen(_prop: &str, seed: u64, tier: u8) -> Plan {
    let mut r = Rng::new(seed);
    let r = &mut r;
    let mut faults = BTreeMap::new();
    let mode = r.below(4) as i64;
    let n_acc = r.range(1, 5) as u8;
    let n_own = r.range(1, 3) as u8;
    let lag_c = r.range(0, 2) as i64;
    let net = ws::NetParams {
        delay_pct: *r.pick(&[0, 20, 50]),
        delay_max: *r.pick(&[60, 200, 500]),
        dup_pct: *r.pick(&[0, 10]),
        drop_upd_pct: *r.pick(&[0, 10]),
        drop_slot_pct: *r.pick(&[0, 0, 15]),
        fifo: r.pct(50),
    };
    let slots = r.range(1, if tier > 0 { 7 } else { 5 });
    let mut wv = 0;
    let mut cfg = Cfg { n_acc, n_own, ..Default::default() };
    let tokens = mode == 1 || mode == 3;
    let (msgs, last) = if tokens {
        let p = wt::VP {
            n_acc,
            n_mint: r.range(0, 2) as u8,
            slots,
            fork_pct: *r.pick(&[0, 30]),
            skip_pct: *r.pick(&[0, 20]),
            close_pct: *r.pick(&[0, 20, 50]),
            kind_pct: *r.pick(&[0, 0, 15]),
            bad_pct: *r.pick(&[0, 0, 10]),
            tx_max: r.range(1, 4),
            lag_c,
            lag_f: lag_c + r.range(0, 2) as i64,
        };
        let (_, msgs, _, last) = wt::validator(r, &p, &mut wv, false);
        (msgs, last)
    } else {
        let p = ws::VParams {
            n_acc,
            n_own,
            slots,
            fork_pct: *r.pick(&[0, 30]),
            skip_pct: *r.pick(&[0, 20]),
            close_pct: *r.pick(&[0, 20, 50]),
            owner_pct: *r.pick(&[0, 20, 60]),
            reopen_pct: 80,
            tx_max: r.range(1, 4),
            lag_c,
            lag_f: lag_c + r.range(0, 2) as i64,
            untracked_owner: r.pct(20),
        };
        let v = ws::validator(r, &p, 1, &mut wv, None);
        (v.msgs, v.last)
    };
    let mut ops = ws::network(r, msgs, &net, &mut faults);
    // some updates with an explicit commitment or through the initial load
    if r.pct(25) {
        let pct = *r.pick(&[20, 100]);
        for op in ops.iter_mut() {
            if let Op::Upd { c, init, .. } | Op::TUpd { c, init, .. } = op {
                if r.pct(pct) {
                    *c = r.range(1, 2) as u8;
                    *init = r.pct(30);
                }
            }
        }
        if r.pct(40) {
            ops.retain(|o| !matches!(o, Op::Slot { .. }));
        }
    }
    // questions in between
    for _ in 0..r.below(4) {
        let at = r.idx(ops.len() + 1);
        let c = r.below(3) as u8;
        let op = if tokens {
            if r.pct(50) {
                Op::TGpa { q: wt::gen_query(r, n_acc), c }
            } else {
                Op::Get { a: r.below(n_acc as u64 + 2) as u8, c }
            }
        } else if r.pct(50) {
            Op::Gpa { p: r.below(n_own as u64 + 1) as u8, fl: if r.pct(50) { Some(ws::gen_fls(r)) } else { None }, c }
        } else {
            Op::Get { a: r.below(n_acc as u64 + 2) as u8, c }
        };
        ops.insert(at, op);
    }
    if r.pct(20) {
        let at = r.idx(ops.len() + 1);
        ops.insert(at, Op::Snap { p: r.below(2) as u8 });
    }
    if mode == 2 || r.pct(20) {
        let (fail_sub, fail_snap) = *r.pick(&[(0, 0), (1, 0), (0, 1), (2, 0)]);
        if fail_sub + fail_snap > 0 {
            faults.insert("source_failure".into(), 1);
        }
        ops.insert(0, Op::Source { fail_sub, fail_snap, sub_ms: 0, ms: 0 });
    }
    if mode == 0 {
        for _ in 0..r.range(1, 2) {
            cfg.filters.push(ws::gen_spec(r, n_acc, n_own));
        }
        if r.pct(20) {
            cfg.flags.insert("except".into(), 1);
        } else {
            cfg.mutable = r.pct(40);
        }
        if cfg.mutable && r.pct(50) {
            let at = r.idx(ops.len() + 1);
            ops.insert(at, Op::AddFilter { f: cfg.filters[0].clone() });
        }
    }
    if mode == 3 {
        cfg.flags.insert("layout".into(), r.below(7) as i64);
    }
    // an address is used once or again every day
    let fresh = mode != 2 && r.pct(35);
    cfg.flags.insert("mode".into(), mode);
    cfg.flags.insert("fresh".into(), fresh as i64);
    cfg.flags.insert("close".into(), (fresh || r.pct(50)) as i64);
    cfg.flags.insert("last".into(), last as i64);
    cfg.flags.insert("wv".into(), wv as i64);
    Plan {
        prop: String::new(),
        world: "memory".into(),
        cfg,
        prelude: vec![],
        threads: vec![ops],
        sched: SchedCfg { seed: r.next(), policy: Policy::Serial, tick_pm: 0, spurious_pm: 0, max_steps: 400_000_000 },
        faults,
    }
}

struct Source {
    fail: Mutex<(u8, u8)>,
}
impl AccountsSourceInterface for Source {
    fn subscribe_accounts(&self, _a: HashSet<Pubkey>) -> anyhow::Result<()> {
        self.sub()
    }
    fn subscribe_program_accounts(&self, _p: Pubkey, _f: Option<Vec<AccountFilterType>>) -> anyhow::Result<()> {
        self.sub()
    }
    fn save_snapshot(&self, _s: Arc<dyn AccountStorageInterface>, _f: AccountFilters) -> anyhow::Result<()> {
        if self.fail.lock().unwrap().1 > 0 {
            anyhow::bail!("load failed")
        }
        Ok(())
    }
}
impl Source {
    fn sub(&self) -> anyhow::Result<()> {
        if self.fail.lock().unwrap().0 > 0 {
            anyhow::bail!("subscription failed")
        }
        Ok(())
    }
}

struct World {
    store: Arc<dyn AccountStorageInterface>,
    mutable: Option<Arc<MutableFilterStore>>,
    source: Option<Arc<Source>>,
    names: wt::Names,
    fresh: bool,
    close: bool,
    span: u64,
    wspan: u64,
    /// the accounts and what they are at the end of the day
    used: BTreeMap<u8, Op>,
    mints: Vec<u8>,
}

impl World {
    fn new(cfg: &Cfg, ops: &[Op]) -> World {
        let mode = cfg.flag("mode");
        let mut mutable = None;
        let mut source = None;
        let store: Arc<dyn AccountStorageInterface> = match mode {
            1 => Arc::new(TokenProgramAccountsStorage::new(Arc::new(InmemoryTokenAccountStorage::default()))),
            2 => {
                let m = Arc::new(MutableFilterStore::default());
                let s = Arc::new(Source { fail: Mutex::new((0, 0)) });
                source = Some(s.clone());
                let inner = Arc::new(lite_account_storage::inmemory_account_store::InmemoryAccountStore::new(m.clone()));
                Arc::new(AccountsOnDemand::new(s, m, inner))
            }
            3 => Arc::new(crate::world_dispatch::new_sut(cfg.flag("layout"))),
            _ => {
                let s = ws::new_sut(cfg, &[]);
                mutable = s.mutable;
                s.store
            }
        };
        let mut used = BTreeMap::new();
        let mut mints = vec![];
        let mut last = cfg.flag("last") as u64;
        let mut wv = cfg.flag("wv") as u64;
        for op in ops {
            match op {
                Op::Upd { a, s, w, .. } => {
                    used.insert(*a, op.clone());
                    last = last.max(*s);
                    wv = wv.max(*w);
                }
                Op::TUpd { a, s, w, k, .. } => {
                    used.insert(*a, op.clone());
                    last = last.max(*s);
                    wv = wv.max(*w);
                    if let TokKind::Mint { .. } = k {
                        mints.push(*a);
                    }
                }
                Op::Slot { s, p, .. } => last = last.max(*s).max(*p),
                _ => {}
            }
        }
        World {
            store,
            mutable,
            source,
            names: wt::Names { sim: 0 },
            fresh: cfg.flag("fresh") != 0,
            close: cfg.flag("close") != 0,
            span: last + 2,
            wspan: wv + used.len() as u64 + 1,
            used,
            mints,
        }
    }
    fn address(&self, x: &mut AccountData, a: u8, day: u64) {
        // mints are numbered for good
        if self.fresh && !self.mints.contains(&a) {
            x.pubkey = key(11, day * 64 + a as u64);
        }
    }
    fn put(&self, mut x: AccountData, a: u8, day: u64, c: u8, init: bool) {
        self.address(&mut x, a, day);
        if init {
            self.store.initilize_or_update_account(x);
        } else {
            self.store.update_account(x, commitment(c));
        }
    }
    fn slot(&self, s: u64, p: u64, c: u8) {
        self.store.process_slot_data(SlotInfo { slot: s, parent: p, root: 0 }, commitment(c));
    }
    fn day(&self, day: u64, ops: &[Op], token: bool, plain: bool) {
        let (ds, dw) = (day * self.span, day * self.wspan);
        for op in ops {
            match op {
                Op::Upd { a, s, w, l, o, d, z, c, init } => {
                    let st = crate::model::St { lam: *l, own: *o, d: *d };
                    self.put(ws::account(*a, (s + ds, w + dw), &st, *z), *a, day, *c, *init);
                }
                Op::TUpd { a, s, w, k, c, init } => {
                    self.put(wt::account(&self.names, *a, s + ds, w + dw, k), *a, day, *c, *init);
                }
                Op::Slot { s, p, c } => self.slot(s + ds, p + ds, *c),
                Op::Get { a, c } => {
                    let pk = if token { self.names.acc(*a) } else { ws::apk(*a) };
                    let _ = self.store.get_account(pk, commitment(*c));
                }
                Op::Gpa { p, fl, c } => {
                    let fl = fl.as_ref().map(|v| v.iter().map(|f| f.real()).collect());
                    let _ = self.store.get_program_accounts(ws::ppk(*p), fl, commitment(*c));
                }
                Op::TGpa { q, c } => {
                    let fl = wt::query_filters(&self.names, q).iter().map(|f| f.real()).collect();
                    let _ = self.store.get_program_accounts(wt::program(q.p), Some(fl), commitment(*c));
                }
                Op::Snap { p } => {
                    let _ = self.store.create_snapshot(if token { wt::program(*p) } else { ws::ppk(*p) });
                }
                Op::AddFilter { f } => {
                    if let Some(m) = &self.mutable {
                        m.add_account_filters(&vec![f.real(&ws::apk, &ws::ppk)]);
                    }
                }
                Op::Source { fail_sub, fail_snap, .. } => {
                    if let Some(s) = &self.source {
                        *s.fail.lock().unwrap() = (*fail_sub, *fail_snap);
                    }
                }
                _ => {}
            }
        }
        // the day ends: every account is written once more, perhaps closed, and everything becomes final
        let end = ds + self.span - 1;
        for (i, (a, op)) in self.used.iter().enumerate() {
            let w = dw + self.wspan - 1 - i as u64;
            let x = match op {
                Op::Upd { l, o, d, .. } => {
                    let st = if self.close {
                        crate::model::St { lam: 0, own: ws::SYSTEM, d: 255 }
                    } else {
                        crate::model::St { lam: *l, own: *o, d: *d }
                    };
                    ws::account(*a, (end, w), &st, 0)
                }
                Op::TUpd { k, .. } => wt::account(&self.names, *a, end, w, if self.close { &TokKind::Closed } else { k }),
                _ => continue,
            };
            self.put(x, *a, day, if plain { F } else { P }, false);
        }
        if !plain {
            for c in [P, C, F] {
                self.slot(end, end.saturating_sub(1), c);
            }
        }
    }
}

pub fn exec(plan: &Plan, out: &mut RunResult) {
    let ops = plan.threads.first().cloned().unwrap_or_default();
    let cfg = plan.cfg.clone();
    crate::run_seq(plan, out, move |res| {
        let token = matches!(cfg.flag("mode"), 1 | 3);
        // without slot notifications everything has to come with its commitment
        let plain = !ops.iter().any(|o| matches!(o, Op::Slot { .. }));
        if plain && ops.iter().any(|o| matches!(o, Op::Upd { c, init: false, .. } | Op::TUpd { c, init: false, .. } if *c < F)) {
            return;
        }
        let w = World::new(&cfg, &ops);
        let start = crate::hooks::live_bytes();
        let mut at = [0i64; 3];
        let mut live = |w: &World, from: u64, to: u64| {
            for day in from..to {
                w.day(day, &ops, token, plain);
            }
            crate::hooks::live_bytes() - start
        };
        let mut first = vec![];
        for day in 1..8 {
            first.push(live(&w, day, day + 1));
            res.states.push(hash_of(&(cfg.flag("mode"), &first)));
        }
        at[0] = live(&w, 8, SHORT / 2);
        at[1] = live(&w, SHORT / 2, SHORT);
        res.checks += 1;
        res.note((at[1] - at[0]) as u64);
        if at[1] > 0 {
            res.probe("memory_in_use");
        }
        if at[1] - at[0] >= LEAST * (SHORT / 2) as i64 {
            // a table that grew once, or something that grows for good
            res.probe("long_look");
            at[2] = live(&w, SHORT, LONG);
            let days = (LONG - SHORT) as i64;
            let more = at[2] - at[1];
            if more >= LEAST * days {
                res.v(
                    "C28",
                    "grows",
                    format!(
                        "after {SHORT} equal days {} bytes are held, after {LONG} days {} bytes: {} bytes more each day, although the same accounts are alive",
                        at[1],
                        at[2],
                        more / days
                    ),
                );
            }
        }
        if w.close {
            res.probe("everything_closed_each_day");
        }
        if w.fresh {
            res.probe("new_addresses_each_day");
        }
    });
    out.nontrivial = out.probed("memory_in_use");
}

pub fn info(_prop: &str) -> crate::Info {
    crate::Info {
        rule: "one run = one seeded history of a forking validator through a faulty network, lived 256 times (4096 times if the memory grew) in later and later slots; non-trivial: the store held memory",
        real: vec!["account_storage", "token_account_storage", "accounts_on_demand", "common filters", "global allocator (counted)"],
        stubs: vec!["validator, network, accounts source", "clock and entropy"],
        assumptions: vec![
            "memory is judged between equal days when nothing is going on; a constant overhead, growth of tables that stops, and one number for every mint ever seen are allowed",
        ],
    }
}
