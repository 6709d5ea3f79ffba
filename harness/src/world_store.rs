//! In-memory account store: sequential histories against the reference model (C01-C08, C11).
use crate::common::*;
use crate::model::*;
use crate::rng::Rng;
use crate::sched::*;
use lite_account_manager_common::{
    account_data::{Account, AccountData, CompressionMethod},
    account_filters_interface::AccountFiltersStoreInterface,
    account_store_interface::{AccountLoadingError, AccountStorageInterface},
    except_filter_store::ExceptFilterStore, mutable_filter_store::MutableFilterStore,
    simple_filter_store::SimpleFilterStore,
    slot_info::SlotInfo,
};
use lite_account_storage::inmemory_account_store::InmemoryAccountStore;
use solana_sdk::pubkey::Pubkey;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

pub const SYSTEM: u8 = 9;

pub fn apk(a: u8) -> Pubkey {
    key(1, a as u64)
}
pub fn ppk(p: u8) -> Pubkey {
    if p == SYSTEM {
        Pubkey::default()
    } else {
        key(2, p as u64)
    }
}
pub fn acc_of(pk: &Pubkey) -> Option<u8> {
    (0..32).find(|a| apk(*a) == *pk)
}
pub fn own_of(pk: &Pubkey) -> Option<u8> {
    (0..10).find(|a| ppk(*a) == *pk)
}

fn executable_of(w: u64) -> bool {
    w % 5 == 0
}
fn rent_epoch_of(w: u64) -> u64 {
    [0, u64::MAX, w][w as usize % 3]
}
/// the parts of an account that follow from its write version
fn intact(x: &AccountData) -> bool {
    x.account.executable == executable_of(x.write_version) && x.account.rent_epoch == rent_epoch_of(x.write_version)
}
pub fn account(a: u8, k: VKey, st: &St, z: u8) -> AccountData {
    let data = data_of(st.d, k.1);
    let m = match z % 3 {
        0 => CompressionMethod::None,
        1 => CompressionMethod::Lz4(1),
        _ => CompressionMethod::Zstd(1),
    };
    AccountData {
        pubkey: apk(a),
        account: Arc::new(Account {
            lamports: st.lam,
            data: lite_account_manager_common::account_data::Data::new(&data, m),
            owner: ppk(st.own),
            executable: executable_of(k.1),
            rent_epoch: rent_epoch_of(k.1),
        }),
        updated_slot: k.0,
        write_version: k.1,
    }
}

/// (account, version, lamports, owner, data) of a returned account
pub type Seen = (u8, VKey, u64, u8, Vec<u8>);
pub fn seen(x: &AccountData) -> Seen {
    (
        acc_of(&x.pubkey).unwrap_or(250),
        (x.updated_slot, x.write_version),
        x.account.lamports,
        if intact(x) { own_of(&x.account.owner).unwrap_or(250) } else { 249 },
        x.account.data.data().as_slice().to_vec(), // without spare capacity
    )
}
pub fn expect(a: u8, k: VKey, st: &St) -> Seen {
    (a, k, st.lam, st.own, data_of(st.d, k.1))
}

pub struct Sut {
    pub store: Arc<InmemoryAccountStore>,
    pub mutable: Option<Arc<MutableFilterStore>>,
}

pub fn new_sut(cfg: &Cfg, extra: &[FilterSpec]) -> Sut {
    let specs: Vec<_> = cfg.filters.iter().chain(extra.iter()).map(|f| f.real(&apk, &ppk)).collect();
    if cfg.mutable {
        let m = Arc::new(MutableFilterStore::default());
        for s in specs {
            m.add_account_filters(&vec![s]);
        }
        Sut { store: Arc::new(InmemoryAccountStore::new(m.clone())), mutable: Some(m) }
    } else if cfg.flag("except") != 0 {
        let mut s = ExceptFilterStore::default();
        s.add_account_filters(&specs);
        Sut { store: Arc::new(InmemoryAccountStore::new(Arc::new(s))), mutable: None }
    } else {
        let mut s = SimpleFilterStore::default();
        s.add_account_filters(&specs);
        let s: Arc<dyn AccountFiltersStoreInterface> = Arc::new(s);
        Sut { store: Arc::new(InmemoryAccountStore::new(s)), mutable: None }
    }
}

// ---------------------------------------------------------------- generation

fn gen_fl(r: &mut Rng) -> Fl {
    let e = if r.pct(25) { r.range(1, 2) as u8 } else { 0 };
    if r.pct(4) {
        // sizes and places of long data, and beyond any data
        return match r.below(4) {
            0 => Fl::Size(*r.pick(&[200, 1023, 4096, 70_000, 65_536, 165, 1 << 32, (1 << 32) + 12])),
            1 => Fl::Cmp(*r.pick(&[1 << 32, (1 << 32) + 1, u64::MAX, u64::MAX - 3]), vec![0; r.idx(3)], e),
            2 => Fl::Cmp(*r.pick(&[128, 198, 1000, 4090, 65_530]), vec![], e),
            _ => Fl::Cmp(10, vec![0; 2 + r.idx(2)], e),
        };
    }
    match r.below(7) {
        6 => {
            // around the ends of the data
            let n = r.below(2) as usize;
            Fl::Cmp(r.range(10, 21), vec![0; n], e)
        }
        0 => Fl::Size(12),
        1 => Fl::Size(20),
        2 | 3 => Fl::Cmp(0, vec![r.below(4) as u8], e),
        4 => Fl::Cmp(1, vec![r.below(2) as u8], e),
        _ => Fl::Cmp(0, vec![r.below(4) as u8, r.below(2) as u8], e),
    }
}
pub fn gen_fls(r: &mut Rng) -> Vec<Fl> {
    let n = if r.pct(4) { r.range(3, 6) as usize } else { 1 + r.idx(2) };
    let mut v: Vec<Fl> = (0..n).map(|_| gen_fl(r)).collect();
    v.dedup();
    v
}
pub fn gen_spec(r: &mut Rng, n_acc: u8, n_own: u8) -> FilterSpec {
    match r.below(6) {
        0 => FilterSpec { accs: vec![r.below(n_acc as u64) as u8], prog: None, fl: None },
        1 | 2 => FilterSpec { accs: vec![], prog: Some(r.below(n_own as u64) as u8), fl: Some(gen_fls(r)) },
        _ => FilterSpec { accs: vec![], prog: Some(r.below(n_own as u64) as u8), fl: None },
    }
}

#[derive(Clone)]
struct BrAcc {
    st: St,
}

/// message of the simulated validator before the network touches it
#[derive(Clone)]
pub struct Msg {
    pub at: i64,
    pub op: Op,
    /// messages of the same account keep their order when the network is per-account ordered
    pub stream: u8,
}

pub struct VParams {
    pub n_acc: u8,
    pub n_own: u8,
    pub slots: u64,
    pub fork_pct: u32,
    pub skip_pct: u32,
    pub close_pct: u32,
    pub owner_pct: u32,
    pub reopen_pct: u32,
    pub tx_max: u64,
    pub lag_c: i64,
    pub lag_f: i64,
    pub untracked_owner: bool,
}

pub struct Validator {
    pub msgs: Vec<Msg>,
    /// final chain, ascending
    pub chain: Vec<u64>,
    /// per account: states on the final chain by (slot, wv)
    pub truth: BTreeMap<u8, Vec<(VKey, St)>>,
    pub forks: u64,
    pub last: u64,
}

/// A validator that produces forked slots with account writes, confirms and roots one chain.
pub fn validator(r: &mut Rng, p: &VParams, start: u64, wv: &mut u64, init: Option<BTreeMap<u8, St>>) -> Validator {
    let mut msgs = vec![];
    let mut states: BTreeMap<u64, BTreeMap<u8, BrAcc>> = BTreeMap::new();
    let mut parent: BTreeMap<u64, u64> = BTreeMap::new();
    let mut writes: BTreeMap<u64, Vec<(u8, VKey, St)>> = BTreeMap::new();
    let root0 = start - 1;
    states.insert(root0, init.unwrap_or_default().into_iter().map(|(a, st)| (a, BrAcc { st })).collect());
    let mut head = root0;
    let mut recent = vec![root0];
    let mut slot = root0;
    let mut forks = 0;
    for _ in 0..p.slots {
        slot += 1;
        if r.pct(p.skip_pct) {
            slot += 1;
        }
        let par = if r.pct(p.fork_pct) && recent.len() > 1 {
            let lo = recent.len().saturating_sub(4);
            recent[lo + r.idx(recent.len() - lo)]
        } else {
            head
        };
        if par != head {
            forks += 1;
        }
        let mut st = states[&par].clone();
        let mut w = vec![];
        let n_tx = r.below(p.tx_max + 1);
        for _ in 0..n_tx {
            let a = r.below(p.n_acc as u64) as u8;
            *wv += 1;
            let cur = st.get(&a).cloned();
            let live = cur.as_ref().map(|x| x.st.lam > 0).unwrap_or(false);
            let new = if live && r.pct(p.close_pct) {
                St { lam: 0, own: SYSTEM, d: 255 }
            } else if live {
                let c = cur.unwrap();
                let own = if r.pct(p.owner_pct) {
                    r.below(p.n_own as u64 + p.untracked_owner as u64) as u8
                } else {
                    c.st.own
                };
                St { lam: gen_lam(r), own, d: gen_data(r) }
            } else {
                if cur.is_some() && !r.pct(p.reopen_pct) {
                    continue;
                }
                St { lam: gen_lam(r), own: r.below(p.n_own as u64) as u8, d: gen_data(r) }
            };
            let k = (slot, *wv);
            st.insert(a, BrAcc { st: new.clone() });
            w.push((a, k, new));
        }
        writes.insert(slot, w);
        states.insert(slot, st);
        parent.insert(slot, par);
        recent.push(slot);
        // the heavier branch: mostly the newest
        head = if par == head || r.pct(60) { slot } else { head };
    }
    let mut chain = vec![];
    let mut s = head;
    while s != root0 {
        chain.push(s);
        s = parent[&s];
    }
    chain.reverse();
    let onchain: BTreeSet<u64> = chain.iter().copied().collect();
    let notif_first = r.pct(30);
    for (s, w) in &writes {
        let t = *s as i64 * 100;
        for (i, (a, k, st)) in w.iter().enumerate() {
            msgs.push(Msg {
                at: t + 1 + i as i64,
                op: Op::Upd { a: *a, s: k.0, w: k.1, l: st.lam, o: st.own, d: st.d, z: r.below(3) as u8, c: P, init: false },
                stream: *a,
            });
        }
        msgs.push(Msg { at: if notif_first { t } else { t + 50 }, op: Op::Slot { s: *s, p: parent[s], c: P }, stream: 200 });
        if onchain.contains(s) {
            msgs.push(Msg { at: t + p.lag_c * 100 + 60, op: Op::Slot { s: *s, p: parent[s], c: C }, stream: 200 });
            msgs.push(Msg { at: t + p.lag_f * 100 + 70, op: Op::Slot { s: *s, p: parent[s], c: F }, stream: 200 });
        }
    }
    let mut truth: BTreeMap<u8, Vec<(VKey, St)>> = BTreeMap::new();
    for s in &chain {
        for (a, k, st) in &writes[s] {
            truth.entry(*a).or_default().push((*k, st.clone()));
        }
    }
    Validator { msgs, chain, truth, forks, last: slot }
}

pub struct NetParams {
    pub delay_pct: u32,
    pub delay_max: i64,
    pub dup_pct: u32,
    pub drop_upd_pct: u32,
    pub drop_slot_pct: u32,
    /// keep the order of messages of one stream
    pub fifo: bool,
}

/// The simulated connection: delays, reorders, duplicates and drops.
pub fn network(r: &mut Rng, msgs: Vec<Msg>, n: &NetParams, faults: &mut BTreeMap<String, u64>) -> Vec<Op> {
    let mut out: Vec<(i64, usize, Op)> = vec![];
    let mut count = |k: &str| *faults.entry(k.to_string()).or_insert(0) += 1;
    let mut last: BTreeMap<u8, i64> = BTreeMap::new();
    let mut msgs = msgs;
    msgs.sort_by_key(|m| m.at);
    for (i, m) in msgs.into_iter().enumerate() {
        let slotm = matches!(m.op, Op::Slot { .. });
        if r.pct(if slotm { n.drop_slot_pct } else { n.drop_upd_pct }) {
            count("message_loss");
            continue;
        }
        let mut at = m.at;
        if r.pct(n.delay_pct) {
            at += r.below(n.delay_max as u64 + 1) as i64;
            count("message_delay");
        }
        if n.fifo {
            let l = last.entry(m.stream).or_insert(i64::MIN);
            at = at.max(*l);
            *l = at;
        }
        if r.pct(n.dup_pct) {
            count("message_duplication");
            let d = at + r.below(n.delay_max.max(100) as u64) as i64;
            out.push((d, i, m.op.clone()));
        }
        out.push((at, i, m.op));
    }
    let order: Vec<usize> = out.iter().map(|x| x.1).collect();
    out.sort_by_key(|x| (x.0, x.1));
    let moved = out.iter().map(|x| x.1).zip(order).filter(|(a, b)| a != b).count();
    if moved > 0 {
        *faults.entry("message_reordering".to_string()).or_insert(0) += 1;
    }
    out.into_iter().map(|x| x.2).collect()
}

pub fn gen(prop: &str, seed: u64, tier: u8) -> Plan {
    let mut r = Rng::new(seed);
    let r = &mut r;
    let mut faults = BTreeMap::new();
    let n_acc = if r.pct(2) { r.range(6, 24) } else { r.range(1, 5) } as u8;
    let n_own = if r.pct(2) { r.range(4, 8) } else { r.range(1, 3) } as u8;
    let mut filters: Vec<FilterSpec> = vec![];
    if r.pct(40) && prop != "C08" {
        for p in 0..n_own {
            filters.push(FilterSpec { accs: vec![], prog: Some(p), fl: None });
        }
    } else {
        for _ in 0..r.range(1, 4) {
            filters.push(gen_spec(r, n_acc, n_own));
        }
    }
    let except = r.pct(if prop == "C08" { 20 } else { 8 });
    if except && r.pct(30) {
        filters.truncate(1);
    }
    let mutable = !except && (r.pct(50) || prop == "C08");
    let lag_c = r.range(0, 2) as i64;
    let (slots, lag_f) = (r.range(3, if tier > 0 { 20 } else { 12 }), lag_c + r.range(0, 5) as i64);
    let (slots, lag_f) = gen_length(r, slots, lag_f);
    let p = VParams {
        n_acc,
        n_own,
        slots,
        fork_pct: *r.pick(&[0, 10, 30, 50]) + if prop == "C07" { 20 } else { 0 },
        skip_pct: *r.pick(&[0, 20]),
        close_pct: *r.pick(&[0, 10, 35]),
        owner_pct: *r.pick(&[0, 15, 50]),
        reopen_pct: *r.pick(&[30, 90]),
        tx_max: if r.pct(2) { r.range(5, 16) } else { r.range(1, 4) },
        lag_c,
        lag_f,
        untracked_owner: r.pct(50),
    };
    let mut wv = 0;
    let val = validator(r, &p, 1, &mut wv, None);
    if val.forks > 0 {
        faults.insert("fork".into(), val.forks);
    }
    let calm = r.pct(25);
    let net = if calm {
        NetParams { delay_pct: 0, delay_max: 0, dup_pct: 0, drop_upd_pct: 0, drop_slot_pct: 0, fifo: true }
    } else {
        NetParams {
            delay_pct: *r.pick(&[0, 10, 40, 80]),
            delay_max: *r.pick(&[60, 250, 900]),
            dup_pct: *r.pick(&[0, 5, 25]),
            drop_upd_pct: *r.pick(&[0, 0, 10]),
            drop_slot_pct: *r.pick(&[0, 0, 10, 40]),
            fifo: r.pct(40),
        }
    };
    let msgs = val.msgs;
    let mut ops = network(r, msgs, &net, &mut faults);
    // the provider may subscribe at another commitment, or deliver some updates with an explicit one
    let explicit = *r.pick(&[0u32, 0, 5, 20]);
    for op in ops.iter_mut() {
        if let Op::Upd { c, init, .. } = op {
            if r.pct(explicit) {
                *c = r.range(1, 2) as u8;
                *init = *c == F && r.pct(50);
            }
        }
    }
    // chaos: arbitrary extra notifications and updates
    let chaos = *r.pick(&[0u64, 0, 3, 8]);
    let parents: BTreeMap<u64, u64> =
        ops.iter().filter_map(|o| if let Op::Slot { s, p, .. } = o { Some((*s, *p)) } else { None }).collect();
    for _ in 0..chaos {
        let at = r.idx(ops.len() + 1);
        if r.pct(50) && !parents.is_empty() {
            let s = *r.pick(&parents.keys().copied().collect::<Vec<_>>());
            ops.insert(at, Op::Slot { s, p: parents[&s], c: r.below(3) as u8 });
            *faults.entry("stray_notification".into()).or_insert(0) += 1;
        } else {
            wv += 1;
            let closed = r.pct(20);
            ops.insert(
                at,
                Op::Upd {
                    a: r.below(n_acc as u64) as u8,
                    s: r.range(1, val.last),
                    w: wv,
                    l: if closed { 0 } else { gen_lam(r) },
                    o: if closed { SYSTEM } else { r.below(n_own as u64 + 1) as u8 },
                    d: if closed { 255 } else { gen_data(r) },
                    z: r.below(3) as u8,
                    c: r.below(3) as u8,
                    init: false,
                },
            );
            *faults.entry("stray_update".into()).or_insert(0) += 1;
        }
    }
    if mutable {
        for _ in 0..r.below(if prop == "C08" { 5 } else { 3 }) {
            let at = r.idx(ops.len() + 1);
            ops.insert(at, Op::AddFilter { f: gen_spec(r, n_acc, n_own) });
        }
    }
    let crashy = if prop == "C11" { 100 } else { 15 };
    if r.pct(crashy) {
        for _ in 0..r.range(1, 4) {
            let at = r.idx(ops.len() + 1);
            let p = r.below(n_own as u64) as u8;
            ops.insert(at, Op::Snap { p });
        }
        for _ in 0..r.range(0, 2) {
            let at = r.idx(ops.len() + 1);
            ops.insert(at, Op::Crash);
            *faults.entry("crash_restart".into()).or_insert(0) += 1;
        }
        for _ in 0..r.range(0, 3) {
            let at = r.idx(ops.len() + 1);
            let corrupt = match r.below(8) {
                0 => Corrupt::Truncate(r.below(1000) as u32),
                1 => Corrupt::Flip(r.below(1000) as u32, 1 << r.below(8)),
                2 => Corrupt::ZeroTail(r.below(1000) as u32),
                3 => Corrupt::Garbage(r.next()),
                _ => Corrupt::None,
            };
            if corrupt != Corrupt::None {
                *faults.entry("snapshot_corruption".into()).or_insert(0) += 1;
            }
            ops.insert(at, Op::Load { p: r.below(n_own as u64) as u8, corrupt });
        }
    }
    // queries with filters at random places (all plain reads are made after every step anyway)
    for _ in 0..r.range(1, 8) {
        let at = r.idx(ops.len() + 1);
        let fl = if r.pct(30) {
            None
        } else {
            // often one of the configured ones
            let conf: Vec<Vec<Fl>> = filters.iter().filter_map(|f| f.fl.clone()).collect();
            if !conf.is_empty() && r.pct(50) {
                let mut f = r.pick(&conf).clone();
                if r.pct(30) {
                    f.push(gen_fl(r));
                }
                Some(f)
            } else {
                Some(gen_fls(r))
            }
        };
        ops.insert(at, Op::Gpa { p: r.below(n_own as u64 + 1) as u8, fl, c: r.below(3) as u8 });
    }
    Stretch::gen(r).apply(&mut ops);
    Plan {
        prop: String::new(),
        world: "store".into(),
        cfg: Cfg {
            n_acc,
            n_own: n_own + 1,
            filters,
            mutable,
            flags: BTreeMap::from([("except".to_string(), except as i64)]),
            ..Default::default()
        },
        prelude: vec![],
        threads: vec![ops],
        sched: SchedCfg { seed: r.next(), policy: Policy::Serial, tick_pm: 0, spurious_pm: 0, max_steps: 60_000_000 },
        faults,
    }
}

// ---------------------------------------------------------------- execution

struct Life {
    /// the account was closed, reopened or changed owner in this run
    cycled: bool,
    last_own: Option<(u8, bool)>,
}

pub struct Exec<'a> {
    pub cfg: &'a Cfg,
    pub sut: Sut,
    pub model: Model,
    durable: BTreeMap<u8, (Vec<u8>, Vec<(u8, VKey, St)>)>,
    extra_filters: Vec<FilterSpec>,
    pub res: RunResult,
    last_seen: BTreeMap<(u8, u8), VKey>,
    life: BTreeMap<u8, Life>,
    restarted: bool,
    after_load: bool,
    /// the model cannot follow any further
    stop: bool,
}

impl<'a> Exec<'a> {
    pub fn new(cfg: &'a Cfg) -> Self {
        let mut model = Model::default();
        for f in &cfg.filters {
            model.filters.add(f);
        }
        model.filters.except = cfg.flag("except") != 0;
        Exec {
            cfg,
            sut: new_sut(cfg, &[]),
            model,
            durable: BTreeMap::new(),
            extra_filters: vec![],
            res: RunResult::default(),
            last_seen: BTreeMap::new(),
            life: BTreeMap::new(),
            restarted: false,
            after_load: false,
            stop: false,
        }
    }

    fn note_life(&mut self, a: u8, own: u8, live: bool) {
        let l = self.life.entry(a).or_insert(Life { cycled: false, last_own: None });
        if let Some((o, lv)) = l.last_own {
            if o != own || lv != live {
                l.cycled = true;
            }
        }
        l.last_own = Some((own, live));
    }

    pub fn step(&mut self, i: usize, op: &Op) {
        set_op(i as u32);
        let mut late = None;
        let mut rooted = false;
        self.after_load = false;
        match op {
            Op::Upd { a, s, w, l, o, d, z, c, init } => {
                let st = St { lam: *l, own: *o, d: *d };
                let k = (*s, *w);
                let real = account(*a, k, &st, *z);
                let c = if *init { F } else { *c };
                let was_tracked = self.model.accs.contains_key(a);
                let out = self.model.update(*a, k, st.clone(), c);
                let ret = if *init {
                    self.sut.store.initilize_or_update_account(real);
                    None
                } else {
                    Some(self.sut.store.update_account(real, commitment(c)))
                };
                match &out {
                    UpdOut::Rejected => {
                        self.res.probe("update_outside_filters");
                        if ret == Some(true) {
                            self.res.v("C08", "admitted", format!("op {i}: an update of account {a} that no filter covers was accepted"));
                        }
                    }
                    UpdOut::Accepted { inherited, new_version, existed, evicted } => {
                        self.note_life(*a, *o, *l > 0);
                        self.res.probe("update_accepted");
                        if *inherited {
                            self.res.probe("update_after_its_slot_was_committed");
                        } else if c > P {
                            self.res.probe("update_with_explicit_commitment");
                        }
                        if *evicted {
                            self.res.probe("account_evicted_by_update");
                        }
                        if *inherited || c > P {
                            late = Some(*a);
                        }
                        if ret == Some(false) && *new_version && self.model.version(*a, P) == Some(k) {
                            self.res.v("C08", "refused", format!("op {i}: the newest update of account {a} was refused (tracked before: {was_tracked})"));
                        }
                        if *evicted || !*existed {
                            self.last_seen.retain(|x, _| x.0 != *a);
                        }
                    }
                }
                self.res.note(ret.map(|x| x as u64).unwrap_or(2));
            }
            Op::Slot { s, p, c } => {
                let before: BTreeMap<u8, bool> = self.model.accs.iter().map(|(a, _)| (*a, true)).collect();
                let n_vers = |m: &Model| m.accs.values().map(|r| r.vers.len()).sum::<usize>();
                let n0 = (self.model.accs.len(), n_vers(&self.model));
                let exp = self.model.slot(*s, *p, *c);
                if *c == F && n_vers(&self.model) < n0.1 && self.model.abandoned_last {
                    self.res.probe("abandoned_state_dropped");
                }
                if self.model.accs.len() < n0.0 {
                    self.res.probe("account_evicted_by_finalization");
                }
                if !exp.is_empty() {
                    self.res.probe("notification_changed_accounts");
                }
                if exp.iter().any(|x| x.1 .0 != *s) {
                    self.res.probe("promoted_through_ancestor");
                }
                if exp.iter().any(|x| x.2.lam == 0) {
                    self.res.probe("closure_committed");
                }
                for a in before.keys() {
                    if !self.model.accs.contains_key(a) {
                        self.last_seen.retain(|x, _| x.0 != *a);
                    }
                }
                rooted = *c == F;
                let got = self.sut.store.process_slot_data(SlotInfo { slot: *s, parent: *p, root: 0 }, commitment(*c));
                let mut got: Vec<Seen> = got.iter().map(seen).collect();
                got.sort();
                let mut want: Vec<Seen> = exp.iter().map(|(a, k, st)| expect(*a, *k, st)).collect();
                want.sort();
                self.res.checks += 1;
                if got != want {
                    let f = |v: &Vec<Seen>| v.iter().map(|x| format!("account {} version {:?}", x.0, x.1)).collect::<Vec<_>>().join(", ");
                    self.res.v("C03", "notification", format!("op {i}: notifying slot {s} (parent {p}) as {} reported [{}], expected [{}]", cname(*c), f(&got), f(&want)));
                }
                for g in &got {
                    self.res.note(hash_of(g));
                }
            }
            Op::AddFilter { f } => {
                if let Some(m) = &self.sut.mutable {
                    self.model.filters.add(f);
                    self.extra_filters.push(f.clone());
                    m.add_account_filters(&vec![f.real(&apk, &ppk)]);
                }
            }
            Op::Gpa { p, fl, c } => self.gpa(i, *p, fl, *c),
            Op::Get { .. } => {}
            Op::Snap { p } => {
                let covered = self.model.filters.must_cover(*p, &None);
                match self.sut.store.create_snapshot(ppk(*p)) {
                    Ok(b) => {
                        self.res.probe("snapshot_taken");
                        let content: Vec<(u8, VKey, St)> = self
                            .model
                            .accs
                            .keys()
                            .filter_map(|a| self.model.get(*a, F).filter(|x| x.1.own == *p).map(|(k, st)| (*a, k, st)))
                            .collect();
                        self.res.note(b.len() as u64);
                        self.durable.insert(*p, (b, content));
                    }
                    Err(e) => {
                        if covered {
                            self.res.v("C11", "snapshot_refused", format!("op {i}: snapshot of program {p} failed: {e:?}"));
                        }
                    }
                }
            }
            Op::Crash => {
                self.sut = new_sut(self.cfg, &self.extra_filters);
                self.model.accs.clear();
                self.model.slots.clear();
                self.last_seen.clear();
                self.restarted = true;
                let d = self.durable.clone();
                for (p, (b, content)) in d {
                    self.load(i, p, b, content);
                }
            }
            Op::Load { p, corrupt } => {
                let Some((b, content)) = self.durable.get(p).cloned() else { return };
                let bad = corrupt.apply(&b);
                if *corrupt == Corrupt::None || bad == b {
                    self.load(i, *p, b, content);
                } else {
                    self.load_damaged(i, *p, bad, corrupt);
                }
            }
            _ => {}
        }
        if self.stop {
            return;
        }
        self.check(i, op, late, rooted);
        self.res.states.push(hash_of(&(&self.model.accs, &self.model.slots)));
    }

    fn load(&mut self, i: usize, p: u8, b: Vec<u8>, content: Vec<(u8, VKey, St)>) {
        self.after_load = true;
        if !content.is_empty() {
            self.res.probe("snapshot_with_accounts_loaded");
        }
        match self.sut.store.load_from_snapshot(ppk(p), b) {
            Ok(()) => {}
            Err(e) => self.res.v("C11", "load_failed", format!("op {i}: loading the undamaged snapshot of program {p} failed: {e:?}")),
        }
        for (a, k, st) in content {
            let existed = self.model.accs.contains_key(&a);
            if let UpdOut::Accepted { evicted, .. } = self.model.update(a, k, st, F) {
                if evicted || !existed {
                    self.last_seen.retain(|x, _| x.0 != a);
                }
            }
        }
    }

    /// damaged bytes: an error that changes nothing, or what the bytes decode to merged like finalized updates
    fn load_damaged(&mut self, i: usize, p: u8, b: Vec<u8>, how: &Corrupt) {
        self.after_load = true;
        let decoded = decode_snapshot(&b);
        match self.sut.store.load_from_snapshot(ppk(p), b) {
            Err(_) => self.res.probe("damaged_snapshot_refused"),
            Ok(()) => match decoded {
                None => self.res.v("C11", "damage_accepted", format!("op {i}: a damaged snapshot ({how:?}) that does not decode was reported as loaded")),
                Some(list) => {
                    // accounts that are not part of the simulated world are not modelled; known ones are
                    for x in list {
                        let Some(a) = acc_of(&x.pubkey) else { continue };
                        let own = own_of(&x.account.owner);
                        let w = x.write_version;
                        let data = x.account.data.data();
                        if data.len() != x.account.data.len() {
                            self.stop = true;
                            return;
                        }
                        let d = pattern_of(&data, w).filter(|_| intact(&x));
                        match (own, d) {
                            (Some(own), Some(d)) => {
                                self.model.update(a, (x.updated_slot, w), St { lam: x.account.lamports, own, d }, F);
                            }
                            _ => {
                                // content the model cannot name: stop judging this run here
                                self.stop = true;
                                return;
                            }
                        }
                    }
                    self.last_seen.clear();
                }
            },
        }
    }

    fn gpa(&mut self, i: usize, p: u8, fl: &Option<Vec<Fl>>, c: u8) {
        let real = fl.as_ref().map(|v| v.iter().map(|f| f.real()).collect());
        let got = self.sut.store.get_program_accounts(ppk(p), real, commitment(c));
        self.res.checks += 1;
        match got {
            Err(e) => {
                self.res.note(77);
                self.res.probe("query_refused");
                if self.model.filters.must_cover(p, fl) {
                    self.res.v("C08", "query_refused", format!("op {i}: query of covered program {p} refused: {e:?}"));
                }
                if e != AccountLoadingError::ConfigDoesnotContainRequiredFilters && !self.model.filters.covers(p, fl) {
                    self.res.v("C08", "wrong_error", format!("op {i}: uncovered query of program {p} gave {e:?}"));
                }
            }
            Ok(v) => {
                if !self.model.filters.covers(p, fl) {
                    self.res.v("C08", "uncovered_query", format!("op {i}: query of program {p} with {fl:?} answered although the filters do not cover it"));
                }
                // damaged snapshots can contain accounts that are not part of the simulated world
                let mut got: Vec<Seen> = v.iter().map(seen).filter(|x| x.0 != 250).collect();
                got.sort();
                // what single reads say
                let mut reads: Vec<Seen> = vec![];
                for a in 0..self.cfg.n_acc {
                    if let Ok(Some(x)) = self.sut.store.get_account(apk(a), commitment(c)) {
                        let s = seen(&x);
                        if s.3 == p && s.2 > 0 && fl.iter().flatten().all(|f| f.allows(&s.4)) {
                            reads.push(s);
                        }
                    }
                }
                reads.sort();
                let f = |v: &Vec<Seen>| v.iter().map(|x| format!("account {} version {:?}", x.0, x.1)).collect::<Vec<_>>().join(", ");
                if got != reads {
                    self.res.v("C04", "query", format!("op {i}: query of program {p} {fl:?} at {} gave [{}], single reads give [{}]", cname(c), f(&got), f(&reads)));
                }
                let mut want: Vec<Seen> = vec![];
                for a in 0..self.cfg.n_acc {
                    if let Some((k, st)) = self.model.get(a, c) {
                        let e = expect(a, k, &st);
                        if st.own == p && fl.iter().flatten().all(|f| f.allows(&e.4)) {
                            want.push(e);
                        }
                    }
                }
                want.sort();
                if got != want {
                    let cyc = got.iter().chain(want.iter()).any(|x| self.life.get(&x.0).map(|l| l.cycled).unwrap_or(false));
                    let d = format!("op {i}: query of program {p} {fl:?} at {} gave [{}], expected [{}]", cname(c), f(&got), f(&want));
                    if cyc {
                        self.res.v("C05", "listing", d.clone());
                    }
                    if self.restarted || self.after_load {
                        self.res.v("C11", "listing", d.clone());
                    }
                    self.res.v("C01", "query", d);
                }
                if fl.is_some() && !got.is_empty() {
                    self.res.probe("filtered_query_with_results");
                }
                for g in &got {
                    self.res.note(hash_of(g));
                }
            }
        }
    }

    fn check(&mut self, i: usize, op: &Op, late: Option<u8>, rooted: bool) {
        for a in 0..self.cfg.n_acc {
            let mut vers = [None, None, None];
            for c in [P, C, F] {
                self.res.checks += 1;
                let got = match self.sut.store.get_account(apk(a), commitment(c)) {
                    Ok(x) => x.map(|x| seen(&x)),
                    Err(e) => {
                        self.res.v("C01", "read_error", format!("op {i}: reading account {a} failed: {e:?}"));
                        continue;
                    }
                };
                vers[c as usize] = got.as_ref().map(|x| x.1);
                self.res.note(hash_of(&got));
                let want = self.model.get(a, c).map(|(k, st)| expect(a, k, &st));
                if got != want {
                    let d = format!(
                        "op {i} ({}): account {a} at {}: got {}, expected {}",
                        brief(op),
                        cname(c),
                        show(&got),
                        show(&want)
                    );
                    self.res.v("C01", "read", d.clone());
                    if late == Some(a) {
                        self.res.v("C06", "late", d.clone());
                    }
                    if self.life.get(&a).map(|l| l.cycled).unwrap_or(false) {
                        self.res.v("C05", "read", d.clone());
                    }
                    if rooted && c == P {
                        self.res.v("C07", "abandoned", d.clone());
                    }
                    if self.restarted || self.after_load {
                        self.res.v("C11", "read", d.clone());
                    }
                    if got.is_some() && !self.model.accs.contains_key(&a) {
                        self.res.v("C08", "served", d.clone());
                    }
                }
                // relations that need no model: C02
                if c > P {
                    let live_gone = got.is_none()
                        && self.model.accs.get(&a).map(|r| r.read(c).map(|x| x.1.st.lam > 0).unwrap_or(false)).unwrap_or(false);
                    match (self.last_seen.get(&(a, c)), vers[c as usize]) {
                        (Some(l), Some(n)) if n < *l => {
                            self.res.v("C02", "regress", format!("op {i} ({}): account {a} at {} went from version {:?} back to {:?}", brief(op), cname(c), l, n));
                        }
                        (Some(l), None) if live_gone => {
                            self.res.v("C02", "vanished", format!("op {i} ({}): account {a} vanished at {} after version {:?}", brief(op), cname(c), l));
                        }
                        _ => {}
                    }
                    if let Some(n) = vers[c as usize] {
                        let e = self.last_seen.entry((a, c)).or_insert(n);
                        *e = (*e).max(n);
                    }
                }
            }
            for (lo, hi) in [(P, C), (C, F), (P, F)] {
                if let (Some(l), Some(h)) = (vers[lo as usize], vers[hi as usize]) {
                    if l < h {
                        self.res.v("C02", "nesting", format!("op {i} ({}): account {a}: {} version {:?} older than {} version {:?}", brief(op), cname(lo), l, cname(hi), h));
                    }
                }
            }
            let tracked = self.sut.store.account_store_contains_key(&apk(a));
            if tracked != self.model.accs.contains_key(&a) {
                self.res.v("C05", "tracked", format!("op {i} ({}): account {a} tracked: {tracked}, expected {}", brief(op), !tracked));
            }
        }
        // plain program queries
        for p in 0..self.cfg.n_own {
            if self.model.filters.must_cover(p, &None) || self.model.filters.progs.contains_key(&p) {
                let c = ((i + p as usize) % 3) as u8;
                self.gpa(i, p, &None, c);
            }
        }
    }
}

pub fn brief(op: &Op) -> String {
    match op {
        Op::Upd { a, s, w, l, o, c, .. } => format!("update account {a} slot {s} wv {w} {} owner {o} as {}", if *l == 0 { "closed" } else { "live" }, cname(*c)),
        Op::Slot { s, p, c } => format!("slot {s} parent {p} {}", cname(*c)),
        x => format!("{x:?}"),
    }
}
pub fn show(s: &Option<Seen>) -> String {
    match s {
        None => "nothing".into(),
        Some(x) => format!("version {:?} lamports {} owner {}", x.1, x.2, x.3),
    }
}

/// the snapshot format: a list of accounts, decoded without the code under test (None: refused)
pub fn decode_snapshot(b: &[u8]) -> Option<Vec<AccountData>> {
    let v = bincode::deserialize::<Vec<AccountData>>(b).ok()?;
    // account data that does not decompress cannot be served
    for x in &v {
        if !decompresses(x) {
            return None;
        }
    }
    Some(v)
}
fn decompresses(x: &AccountData) -> bool {
    let x = x.clone();
    crate::quiet_panic(move || x.account.data.data()).is_ok()
}

pub fn exec(plan: &Plan, out: &mut RunResult) {
    let ops = plan.threads.first().cloned().unwrap_or_default();
    let cfg = plan.cfg.clone();
    crate::run_seq(plan, out, move |res| {
        let mut e = Exec::new(&cfg);
        for (i, op) in ops.iter().enumerate() {
            e.step(i, op);
            if e.stop {
                break;
            }
        }
        if e.life.values().any(|l| l.cycled) {
            e.res.probe("account_closed_reopened_or_moved");
        }
        *res = std::mem::take(&mut e.res);
    });
    out.nontrivial = match plan.prop.as_str() {
        "C01" | "C02" => out.probed("update_accepted") && out.probed("notification_changed_accounts"),
        "C03" => out.probed("notification_changed_accounts"),
        "C04" => out.probed("filtered_query_with_results"),
        "C05" => out.probed("account_closed_reopened_or_moved"),
        "C06" => out.probed("update_after_its_slot_was_committed") || out.probed("update_with_explicit_commitment"),
        "C07" => out.probed("abandoned_state_dropped"),
        "C08" => out.probed("update_outside_filters") || out.probed("query_refused"),
        _ => out.probed("snapshot_with_accounts_loaded") || out.probed("damaged_snapshot_refused"),
    };
}

pub fn info(prop: &str) -> crate::Info {
    crate::Info {
        rule: match prop {
            "C01" | "C02" => "one run = one seeded history of a simulated forking validator seen through a faulty network; non-trivial: an update was accepted and a notification changed a visible version",
            "C03" => "one run = one seeded validator history; non-trivial: a notification changed at least one account",
            "C04" => "one run = one seeded validator history with queries after every step; non-trivial: a query with data filters returned accounts",
            "C05" => "one run = one seeded validator history; non-trivial: an account was closed, re-created or moved to another owner",
            "C06" => "one run = one seeded validator history; non-trivial: an update arrived after its slot was confirmed or finalized or carried an explicit commitment",
            "C07" => "one run = one seeded validator history with forks; non-trivial: the finalization of a rival slot dropped a state",
            "C08" => "one run = one seeded validator history with filters changing at run time; non-trivial: an update or query outside the filters was made",
            _ => "one run = one seeded validator history with snapshots, crashes, restarts and damaged snapshot bytes; non-trivial: a snapshot with accounts was loaded or a damaged one refused",
        },
        real: vec![
            "lite-account-storage: InmemoryAccountStore, AccountDataByCommitment",
            "lite-account-manager-common: filters, SimpleFilterStore, MutableFilterStore, ExceptFilterStore, account data compression",
            "dashmap, bincode, lz4, zstd",
        ],
        stubs: vec![
            "validator (seeded fork, skip and transaction generator)",
            "geyser/gRPC connection (in-process network that delays, reorders, duplicates and drops)",
            "durable snapshot storage (in memory, with truncation, bit flips and lost tails)",
            "operating system: futex, clock, entropy and processor count answered by the simulator",
        ],
        assumptions: vec![
            "one caller at a time: concurrency of these calls is explored under C09 and C10",
            "the reference model in harness/src/model.rs states the intended semantics",
        ],
    }
}
