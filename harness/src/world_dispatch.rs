//! Stores of several programs behind one dispatcher: exact behaviour over a linear chain (C23) and the whole
//! pipeline under forks, message faults, disconnections and crashes (C24).
use crate::common::*;
use crate::rng::{mix, Rng};
use crate::sched::*;
use crate::world_store::{network, Msg, NetParams};
use crate::world_token::*;
use lite_account_manager_common::{
    account_filter::AccountFilter, account_filters_interface::AccountFiltersStoreInterface,
    account_store_interface::AccountStorageInterface, except_filter_store::ExceptFilterStore, simple_filter_store::SimpleFilterStore, slot_info::SlotInfo,
};
use lite_account_storage::{inmemory_account_store::InmemoryAccountStore, storage_by_program_id::StorageByProgramId};
use lite_token_account_storage::{
    inmemory_token_account_storage::InmemoryTokenAccountStorage, inmemory_token_storage::TokenProgramAccountsStorage,
};
use solana_sdk::pubkey::Pubkey;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::Arc;

type Ver = (u64, u64);
type Store = Arc<dyn AccountStorageInterface>;
type Truth = BTreeMap<u8, Vec<(Ver, TokKind)>>;

// ---------------------------------------------------------------- system under test

fn memory(progs: &[u8]) -> Store {
    let mut s = SimpleFilterStore::default();
    let specs: Vec<AccountFilter> =
        progs.iter().map(|p| AccountFilter { accounts: vec![], program_id: Some(program(*p)), filters: None }).collect();
    s.add_account_filters(&specs);
    let s: Arc<dyn AccountFiltersStoreInterface> = Arc::new(s);
    Arc::new(InmemoryAccountStore::new(s))
}
/// keeps all programs but these
fn memory_except(progs: &[u8]) -> Store {
    let mut s = ExceptFilterStore::default();
    let specs: Vec<AccountFilter> =
        progs.iter().map(|p| AccountFilter { accounts: vec![], program_id: Some(program(*p)), filters: None }).collect();
    s.add_account_filters(&specs);
    let s: Arc<dyn AccountFiltersStoreInterface> = Arc::new(s);
    Arc::new(InmemoryAccountStore::new(s))
}
/// layouts: how the programs 2, 3 and 4 are spread over account stores
pub fn new_sut(layout: i64) -> StorageByProgramId {
    let token: Store = Arc::new(TokenProgramAccountsStorage::new(Arc::new(InmemoryTokenAccountStorage::default())));
    let mut m: HashMap<Pubkey, Store> = HashMap::from([(program(0), token.clone()), (program(1), token)]);
    let default = match layout {
        0 => {
            m.insert(program(2), memory(&[2]));
            memory(&[3])
        }
        1 => {
            m.insert(program(2), memory(&[2]));
            m.insert(program(3), memory(&[3]));
            memory(&[4])
        }
        2 => {
            let s = memory(&[2, 3]);
            m.insert(program(2), s.clone());
            m.insert(program(3), s);
            memory(&[4])
        }
        3 => {
            let s = memory(&[2, 3]);
            m.insert(program(2), s.clone());
            s
        }
        4 => memory(&[2, 3]),
        // the default storage keeps all the other programs
        5 => {
            m.insert(program(2), memory(&[2]));
            memory_except(&[0, 1, 2])
        }
        // or would keep all, but is only asked for those without a storage of their own
        _ => {
            m.insert(program(2), memory(&[2]));
            memory_except(&[])
        }
    };
    StorageByProgramId::new(m, default)
}
fn covered(layout: i64) -> u8 {
    match layout {
        0 | 3 | 4 => 4,
        _ => 5,
    }
}
fn prog_of_kind(k: &TokKind) -> Option<u8> {
    match k {
        TokKind::Acc { p, .. } | TokKind::Mint { p, .. } | TokKind::Multi { p, .. } | TokKind::Bad { p, .. } => Some(*p),
        TokKind::Other { v } => Some(2 + v % 3),
        TokKind::Closed => None,
    }
}

// ---------------------------------------------------------------- generation

struct HP {
    n_acc: u8,
    n_mint: u8,
    slots: u64,
    fork_pct: u32,
    skip_pct: u32,
    close_pct: u32,
    move_pct: u32,
    tx_max: u64,
    lag_c: i64,
    lag_f: i64,
    initial_pct: u32,
}
struct History {
    root: u64,
    init: Vec<Op>,
    msgs: Vec<Msg>,
    chain: Vec<(u64, u64)>,
    truth: Truth,
    forks: u64,
}
fn fresh(r: &mut Rng, n_mint: u8, n_acc: u8, home: u8) -> TokKind {
    if home >= 3 {
        return TokKind::Other { v: (home - 3) + 3 * r.below(8) as u8 };
    }
    let p = r.below(2) as u8;
    kind_of(r, home, p, n_mint, n_acc)
}
fn history(r: &mut Rng, h: &HP) -> History {
    // 0 mint, 1 multisig, 2 token account, 3.. other programs
    let mut home = |r: &mut Rng| match r.below(10) {
        0 => 0,
        1 => 1,
        2..=4 => 2,
        x => 3 + (x % 3) as u8,
    };
    let root = r.range(0, 2);
    let mut wv = 0;
    let mut init = vec![];
    let mut truth: Truth = BTreeMap::new();
    let mut states: BTreeMap<u64, BTreeMap<u8, TokKind>> = BTreeMap::new();
    let mut st0 = BTreeMap::new();
    for a in 0..h.n_acc {
        if r.pct(h.initial_pct) {
            wv += 1;
            let ho = home(r);
            let k = fresh(r, h.n_mint, h.n_acc, ho);
            init.push(Op::TUpd { a, s: root, w: wv, k: k.clone(), c: F, init: true });
            truth.entry(a).or_default().push(((root, wv), k.clone()));
            st0.insert(a, k);
        }
    }
    states.insert(root, st0);
    let mut parent: BTreeMap<u64, u64> = BTreeMap::new();
    let mut writes: BTreeMap<u64, Vec<(u8, u64, TokKind)>> = BTreeMap::new();
    let (mut head, mut slot, mut forks) = (root, root, 0);
    let mut recent = vec![root];
    for _ in 0..h.slots {
        slot += 1 + r.pct(h.skip_pct) as u64;
        let par = if r.pct(h.fork_pct) && recent.len() > 1 {
            let lo = recent.len().saturating_sub(4);
            recent[lo + r.idx(recent.len() - lo)]
        } else {
            head
        };
        forks += (par != head) as u64;
        let mut st = states[&par].clone();
        let mut w = vec![];
        for _ in 0..r.below(h.tx_max + 1) {
            let a = r.below(h.n_acc as u64) as u8;
            wv += 1;
            let cur = st.get(&a).filter(|k| !matches!(k, TokKind::Closed));
            let k = match cur {
                Some(_) if r.pct(h.close_pct) => TokKind::Closed,
                Some(k) if !r.pct(h.move_pct) => match k {
                    TokKind::Other { v } => TokKind::Other { v: v % 3 + 3 * r.below(8) as u8 },
                    TokKind::Acc { p, m, .. } => TokKind::Acc { p: *p, m: *m, o: r.below(4) as u8, v: r.below(64) as u8 },
                    TokKind::Mint { p, .. } => TokKind::Mint { p: *p, v: r.below(64) as u8 },
                    _ => TokKind::Multi { p: r.below(2) as u8, v: r.below(64) as u8 },
                },
                _ => {
                    let ho = home(r);
                    fresh(r, h.n_mint, h.n_acc, ho)
                }
            };
            st.insert(a, k.clone());
            w.push((a, wv, k));
        }
        writes.insert(slot, w);
        states.insert(slot, st);
        parent.insert(slot, par);
        recent.push(slot);
        head = if par == head || r.pct(60) { slot } else { head };
    }
    let mut chain = vec![];
    let mut s = head;
    while s != root {
        chain.push((s, parent[&s]));
        s = parent[&s];
    }
    chain.reverse();
    for (s, _) in &chain {
        for (a, w, k) in &writes[s] {
            truth.entry(*a).or_default().push(((*s, *w), k.clone()));
        }
    }
    let onchain: BTreeSet<u64> = chain.iter().map(|x| x.0).collect();
    let notif_first = r.pct(50);
    let mut msgs = vec![];
    for (s, w) in &writes {
        let t = *s as i64 * 100;
        for (i, (a, v, k)) in w.iter().enumerate() {
            msgs.push(Msg { at: t + 1 + i as i64, op: Op::TUpd { a: *a, s: *s, w: *v, k: k.clone(), c: P, init: false }, stream: *a });
        }
        msgs.push(Msg { at: if notif_first { t } else { t + 50 }, op: Op::Slot { s: *s, p: parent[s], c: P }, stream: 200 });
        if onchain.contains(s) {
            msgs.push(Msg { at: t + h.lag_c * 100 + 60, op: Op::Slot { s: *s, p: parent[s], c: C }, stream: 200 });
            msgs.push(Msg { at: t + h.lag_f * 100 + 70, op: Op::Slot { s: *s, p: parent[s], c: F }, stream: 200 });
        }
    }
    History { root, init, msgs, chain, truth, forks }
}
fn slot_of(op: &Op) -> u64 {
    match op {
        Op::TUpd { s, .. } | Op::Slot { s, .. } => *s,
        _ => 0,
    }
}
fn final_slot(op: &Op) -> Option<u64> {
    match op {
        Op::Slot { s, c: F, .. } => Some(*s),
        _ => None,
    }
}

pub fn gen(prop: &str, seed: u64, tier: u8) -> Plan {
    let mut r = Rng::new(seed);
    let r = &mut r;
    let mut faults: BTreeMap<String, u64> = BTreeMap::new();
    let whole = prop == "C24";
    let layout = r.below(7) as i64;
    let n_acc = r.range(1, 6) as u8;
    let lag_c = r.range(0, 2) as i64;
    let (slots, lag_f) = (r.range(3, if tier > 0 { 20 } else { 12 }), lag_c + r.range(0, 4) as i64);
    let (slots, lag_f) = gen_length(r, slots, lag_f);
    let hp = HP {
        n_acc,
        n_mint: r.range(1, 2) as u8,
        slots,
        fork_pct: if whole { *r.pick(&[0, 10, 30, 50]) } else { 0 },
        skip_pct: *r.pick(&[0, 20]),
        close_pct: *r.pick(&[0, 10, 30]),
        move_pct: *r.pick(&[5, 30, 60]),
        tx_max: r.range(1, 4),
        lag_c,
        lag_f,
        initial_pct: *r.pick(&[0, 60, 100]),
    };
    let h = history(r, &hp);
    if h.forks > 0 {
        faults.insert("fork".into(), h.forks);
    }
    let mut cfg = Cfg { n_acc, ..Default::default() };
    cfg.flags.insert("layout".into(), layout);
    cfg.flags.insert("sim".into(), if r.pct(20) { r.range(1, 4) as i64 } else { 0 });
    for (a, v) in &h.truth {
        cfg.truth.insert(*a, v.iter().map(|x| x.0).collect());
    }
    cfg.truth.insert(255, h.chain.clone());
    let mut net = if r.pct(20) {
        NetParams { delay_pct: 0, delay_max: 0, dup_pct: 0, drop_upd_pct: 0, drop_slot_pct: 0, fifo: true }
    } else {
        NetParams {
            delay_pct: *r.pick(&[0, 10, 40, 80]),
            delay_max: *r.pick(&[60, 250, 900]),
            dup_pct: *r.pick(&[0, 5, 25]),
            drop_upd_pct: 0,
            drop_slot_pct: 0,
            fifo: true,
        }
    };
    let mut ops = h.init.clone();
    if !whole {
        net.drop_slot_pct = *r.pick(&[0, 0, 5]);
        net.drop_upd_pct = *r.pick(&[0, 0, 10]);
        let mut sent = network(r, h.msgs, &net, &mut faults);
        for _ in 0..*r.pick(&[0u64, 0, 1, 3]) {
            let at = r.idx(sent.len() + 1);
            sent.insert(at, Op::Snap { p: 0 });
        }
        if r.pct(30) {
            let at = r.idx(sent.len() + 1);
            sent.insert(at, Op::Crash);
            *faults.entry("crash_restart".into()).or_insert(0) += 1;
        }
        let again = *r.pick(&[0u32, 10, 40]);
        let (mut fin, mut snap, mut past) = (0, None, ops.clone());
        for op in sent {
            match &op {
                Op::Snap { .. } => {
                    snap = Some(fin);
                    ops.push(op);
                }
                Op::Crash => {
                    ops.push(op);
                    past.retain(|x| snap.map(|f| slot_of(x) > f).unwrap_or(true));
                    fin = snap.unwrap_or(0);
                    ops.extend(past.iter().cloned());
                }
                _ => {
                    fin = fin.max(final_slot(&op).unwrap_or(0));
                    past.push(op.clone());
                    ops.push(op);
                }
            }
            // an account is loaded again (a new client asked for it)
            if r.pct(again) {
                let a = r.below(n_acc as u64) as u8;
                if let Some((v, k)) = h.truth.get(&a).and_then(|x| x.iter().rev().find(|y| y.0 .0 <= fin)) {
                    ops.push(Op::TUpd { a, s: v.0, w: v.1, k: k.clone(), c: F, init: true });
                }
            }
        }
    } else {
        net.fifo = r.pct(60);
        net.drop_upd_pct = *r.pick(&[0, 0, 5, 20]);
        net.drop_slot_pct = *r.pick(&[0, 0, 10, 30]);
        // the last slots reach the store without faults
        let last = h.chain.last().map(|x| x.0).unwrap_or(h.root);
        let quiet = last.saturating_sub(r.range(0, 4));
        let (noisy, tail): (Vec<Msg>, Vec<Msg>) = h.msgs.into_iter().partition(|m| slot_of(&m.op) <= quiet);
        let clean = NetParams { delay_pct: 0, delay_max: 0, dup_pct: 0, drop_upd_pct: 0, drop_slot_pct: 0, fifo: true };
        let sent = network(r, noisy, &net, &mut faults);
        let tail = network(r, tail, &clean, &mut faults);
        let resync = |r: &mut Rng, known: &[Op], ops: &mut Vec<Op>| {
            let root = known.iter().filter_map(final_slot).max().unwrap_or(h.root);
            let mut v = vec![];
            for a in 0..n_acc {
                if let Some((ver, k)) = h.truth.get(&a).and_then(|x| x.iter().rev().find(|y| y.0 .0 <= root)) {
                    let init = prog_of_kind(k).map(|p| p < covered(layout)).unwrap_or(false);
                    v.push(Op::TUpd { a, s: ver.0, w: ver.1, k: k.clone(), c: F, init });
                }
            }
            for i in 0..v.len() {
                let j = r.idx(v.len());
                v.swap(i, j);
            }
            ops.extend(v);
            if let Some((s, p)) = h.chain.iter().find(|x| x.0 == root) {
                if r.pct(50) {
                    ops.push(Op::Slot { s: *s, p: *p, c: C });
                }
                ops.push(Op::Slot { s: *s, p: *p, c: F });
            }
            let mut again: Vec<Op> = known.iter().filter(|x| slot_of(x) > root).cloned().collect();
            again.sort_by_key(|x| (slot_of(x), if let Op::TUpd { w, .. } = x { *w } else { u64::MAX }));
            again.dedup();
            ops.extend(again);
        };
        let mut at = 0;
        let windows = *r.pick(&[0u64, 1, 1, 2, 3]);
        let mut cuts: Vec<usize> = (0..windows * 2).map(|_| r.idx(sent.len() + 1)).collect();
        cuts.sort();
        let snaps = r.pct(50);
        for w in cuts.chunks(2) {
            let (lo, hi) = (w[0], w[1]);
            for op in &sent[at..lo] {
                ops.push(op.clone());
                if snaps && r.pct(8) {
                    ops.push(Op::Snap { p: 0 });
                }
            }
            if r.pct(40) {
                ops.push(Op::Crash);
                *faults.entry("crash_restart".into()).or_insert(0) += 1;
            }
            *faults.entry("disconnection".into()).or_insert(0) += 1;
            *faults.entry("message_loss".into()).or_insert(0) += (hi - lo) as u64;
            resync(r, &sent[..hi], &mut ops);
            at = hi;
        }
        ops.extend(sent[at..].iter().cloned());
        if r.pct(90) {
            resync(r, &sent, &mut ops);
        }
        ops.extend(tail);
    }
    for _ in 0..r.range(0, 5) {
        let at = r.idx(ops.len() + 1);
        ops.insert(at, Op::TGpa { q: gen_query(r, n_acc), c: if whole { F } else { r.below(3) as u8 } });
    }
    if !whole {
        Stretch::gen(r).apply(&mut ops);
    }
    Plan {
        prop: String::new(),
        world: "dispatch".into(),
        cfg,
        prelude: vec![],
        threads: vec![ops],
        sched: SchedCfg { seed: r.next(), policy: Policy::Serial, tick_pm: 0, spurious_pm: 0, max_steps: 60_000_000 },
        faults,
    }
}

// ---------------------------------------------------------------- execution

struct Base {
    n: Names,
    n_acc: u8,
    layout: i64,
    store: StorageByProgramId,
    durable: BTreeMap<u8, Vec<u8>>,
    parents: BTreeMap<u64, u64>,
    res: RunResult,
}
impl Base {
    fn view(&self, a: u8, w: u64, k: &TokKind) -> (Option<Shown>, bool) {
        match prog_of_kind(k) {
            None => (None, false),
            // an account that went to a program nobody asked for may leave the store
            Some(p) => (Some(expected(&self.n, a, w, k)), p >= covered(self.layout)),
        }
    }
    fn get(&mut self, i: usize, a: u8, c: u8, prop: &str) -> Option<Shown> {
        self.res.checks += 1;
        match self.store.get_account(self.n.acc(a), commitment(c)) {
            Ok(x) => {
                let g = x.as_ref().map(|x| shown(&self.n, x));
                self.res.note(hash_of(&g));
                if g.as_ref().map(|x| x.0 != a).unwrap_or(false) {
                    self.res.v(prop, "wrong_account", format!("op {i}: reading account {a} returned another one"));
                }
                g
            }
            Err(e) => {
                self.res.v(prop, "read_error", format!("op {i}: reading account {a} at {} failed: {e:?}", cname(c)));
                None
            }
        }
    }
    /// programs and filters of all the queries to make after op `i`
    fn queries(&self, i: usize) -> Vec<(u8, Option<Vec<Fl>>)> {
        let mut v: Vec<(u8, Option<Vec<Fl>>)> = (2..covered(self.layout)).map(|p| (p, None)).collect();
        let x = i as u8;
        let p = x & 1;
        for q in [
            TokQuery { p, owner: Some(x / 2 % 4), mint: None, kind: p, extra: vec![] },
            TokQuery { p: 1 - p, owner: None, mint: Some(x % self.n_acc), kind: 0, extra: vec![] },
            TokQuery { p: x / 2 & 1, owner: None, mint: None, kind: 3, extra: vec![] },
        ] {
            v.push((q.p, Some(query_filters(&self.n, &q))));
        }
        v
    }
    fn query(&mut self, i: usize, p: u8, fl: &Option<Vec<Fl>>, c: u8, prop: &str, must: bool) -> Option<BTreeMap<u8, Shown>> {
        self.res.checks += 1;
        let real = fl.as_ref().map(|v| v.iter().map(|f| f.real()).collect());
        match self.store.get_program_accounts(program(p), real, commitment(c)) {
            Ok(v) => {
                let mut m = BTreeMap::new();
                for x in &v {
                    let s = shown(&self.n, x);
                    if m.insert(s.0, s).is_some() {
                        self.res.v(prop, "query_twice", format!("op {i}: query of program {p} at {} returned an account twice", cname(c)));
                    }
                }
                self.res.note(hash_of(&m));
                Some(m)
            }
            Err(_) if !must => None,
            Err(e) => {
                self.res.v(prop, "query_refused", format!("op {i}: query of program {p} {fl:?} at {} refused: {e:?}", cname(c)));
                None
            }
        }
    }
    fn notify(&mut self, i: usize, s: u64, p: u64, c: u8, prop: &str) -> BTreeMap<u8, Shown> {
        let got = self.store.process_slot_data(SlotInfo { slot: s, parent: p, root: 0 }, commitment(c));
        let mut m = BTreeMap::new();
        for x in &got {
            let y = shown(&self.n, x);
            if m.insert(y.0, y).is_some() {
                self.res.v(prop, "reported_twice", format!("op {i}: slot {s} {}: an account is reported twice", cname(c)));
            }
        }
        self.res.note(hash_of(&m));
        m
    }
    fn linked(&self, from: u64, fin: u64) -> BTreeSet<u64> {
        let mut v = BTreeSet::new();
        let mut s = from;
        while s > fin && v.insert(s) {
            match self.parents.get(&s) {
                Some(p) if *p < s => s = *p,
                _ => break,
            }
        }
        v
    }
    fn snapshot(&mut self, i: usize, prop: &str) -> bool {
        let mut m = BTreeMap::new();
        for p in 0..covered(self.layout) {
            match self.store.create_snapshot(program(p)) {
                Ok(b) => {
                    m.insert(p, b);
                }
                Err(e) => {
                    self.res.v(prop, "snapshot_failed", format!("op {i}: snapshot of program {p} failed: {e:?}"));
                    return false;
                }
            }
        }
        self.durable = m;
        true
    }
    fn restart(&mut self, i: usize, prop: &str) {
        self.store = new_sut(self.layout);
        self.parents.clear();
        for (p, b) in self.durable.clone() {
            if let Err(e) = self.store.load_from_snapshot(program(p), b) {
                self.res.v(prop, "load_failed", format!("op {i}: loading the snapshot of program {p} failed: {e:?}"));
            }
        }
    }
}
fn f(x: &Option<Shown>) -> String {
    x.as_ref().map(brief_shown).unwrap_or("nothing".into())
}
/// closed, or with a program nobody asked for
fn gone_for(layout: i64, k: &TokKind) -> bool {
    prog_of_kind(k).map(|p| p >= covered(layout)).unwrap_or(true)
}
fn closure(s: &Shown) -> bool {
    s.2 == 0 && s.3.is_empty()
}
fn fits(s: &Shown, p: u8, fl: &Option<Vec<Fl>>) -> bool {
    s.1 == p && fl.as_ref().map(|v| v.iter().all(|f| f.allows(&s.3))).unwrap_or(true)
}

pub fn exec(plan: &Plan, out: &mut RunResult) {
    let ops = plan.threads.first().cloned().unwrap_or_default();
    let cfg = plan.cfg.clone();
    let prop = plan.prop.clone();
    crate::run_seq(plan, out, move |res| {
        let b = Base {
            n: Names { sim: cfg.flag("sim") },
            n_acc: cfg.n_acc,
            layout: cfg.flag("layout"),
            store: new_sut(cfg.flag("layout")),
            durable: BTreeMap::new(),
            parents: BTreeMap::new(),
            res: RunResult::default(),
        };
        *res = if prop == "C24" { whole(b, &cfg, &ops) } else { linear(b, &ops) };
    });
    out.nontrivial = match plan.prop.as_str() {
        "C24" => out.probed("finalized_on_a_forked_chain") || out.probed("recovered"),
        _ => out.probed("moved_between_stores"),
    };
}

// ---------------------------------------------------------------- C23: exact reference over a linear chain

#[derive(Clone)]
struct V {
    v: Ver,
    k: TokKind,
    fin: bool,
}
#[derive(Clone, Default)]
struct Lin {
    vers: BTreeMap<u8, Vec<V>>,
    conf: u64,
    fin: u64,
}
impl Lin {
    fn bound(&self, c: u8) -> u64 {
        match c {
            P => u64::MAX,
            C => self.conf.max(self.fin),
            _ => self.fin,
        }
    }
    fn at(&self, a: u8, c: u8) -> Option<&V> {
        self.vers.get(&a)?.iter().rev().find(|x| x.fin || x.v.0 <= self.bound(c))
    }
}

fn linear(mut b: Base, ops: &[Op]) -> RunResult {
    const ID: &str = "C23";
    let mut m = Lin::default();
    let mut saved = Lin::default();
    // repeated updates of them may be the first ones a store gets to see
    let mut reloaded = BTreeSet::new();
    'ops: for (i, op) in ops.iter().enumerate() {
        set_op(i as u32);
        match op {
            Op::TUpd { a, s, w, k, init, .. } => {
                let newest = m.vers.get(a).and_then(|x| x.last()).map(|x| x.v);
                let real = account(&b.n, *a, *s, *w, k);
                if *init {
                    let current = m.at(*a, F).map(|x| x.v);
                    // only accounts somebody asked for are loaded
                    if gone_for(b.layout, k) {
                        continue;
                    }
                    if !(current == Some((*s, *w)) || newest.is_none() && m.fin == 0 && m.conf == 0) {
                        continue;
                    }
                    b.store.initilize_or_update_account(real);
                    if current.is_some() {
                        reloaded.insert(*a);
                        b.res.probe("loaded_again");
                    } else {
                        m.vers.entry(*a).or_default().push(V { v: (*s, *w), k: k.clone(), fin: true });
                    }
                } else {
                    let new = newest.map(|x| (*s, *w) > x).unwrap_or(true);
                    let foreign = prog_of_kind(k).map(|p| p >= covered(b.layout)).unwrap_or(false);
                    if *s <= m.fin || !new && (newest != Some((*s, *w)) || foreign || reloaded.contains(a)) {
                        continue;
                    }
                    if *s <= m.conf && !b.linked(m.conf, m.fin).contains(s) {
                        b.res.probe("not_judged_missing_link");
                        break 'ops;
                    }
                    let before = m.at(*a, P).and_then(|x| prog_of_kind(&x.k));
                    let ret = b.store.update_account(real, commitment(P));
                    let p = prog_of_kind(k);
                    if let (Some(x), Some(y)) = (before, p) {
                        if new && x != y && (x > 1 || y > 1) {
                            b.res.probe("moved_between_stores");
                        }
                    }
                    if new {
                        m.vers.entry(*a).or_default().push(V { v: (*s, *w), k: k.clone(), fin: false });
                    }
                    let wanted = new && p.map(|p| p < covered(b.layout)).unwrap_or(false);
                    if wanted && !ret {
                        b.res.v(ID, "accepted", format!("op {i} ({}): returned {ret}", brief(op)));
                    }
                }
            }
            Op::Slot { s, p, c } => {
                if *p < *s {
                    b.parents.insert(*s, *p);
                }
                let before: Vec<Option<Ver>> = (0..b.n_acc).map(|a| m.at(a, *c).map(|x| x.v)).collect();
                let advance = *c != P && *s > m.bound(*c);
                if advance {
                    let linked = b.linked(*s, m.fin);
                    if m.vers.values().flatten().any(|x| x.v.0 > m.fin && x.v.0 <= *s && !x.fin && !linked.contains(&x.v.0)) {
                        b.res.probe("not_judged_missing_link");
                        break 'ops;
                    }
                    if *c == C {
                        m.conf = *s;
                    } else {
                        m.fin = *s;
                    }
                }
                let got = b.notify(i, *s, *p, *c, ID);
                for (a, g) in &got {
                    let now = if *c == P { None } else { m.at(*a, *c) };
                    if advance {
                        let want = now.map(|x| b.view(*a, x.v.1, &x.k).0);
                        let closed = now.map(|x| gone_for(b.layout, &x.k)).unwrap_or(false) && closure(g);
                        if !closed && want != Some(Some(g.clone())) {
                            b.res.v(
                                ID,
                                "report",
                                format!("op {i} ({}): account {a} reported as {}, expected {}", brief(op), brief_shown(g), f(&want.flatten())),
                            );
                        }
                    }
                }
                if advance {
                    for a in 0..b.n_acc {
                        let Some(now) = m.at(a, *c) else { continue };
                        let Some(p) = prog_of_kind(&now.k) else { continue };
                        let changed = before[a as usize] != Some(now.v);
                        // token stores report the accounts of the confirmed slot only
                        let reportable = p < covered(b.layout) && (p > 1 || *c == F || now.v.0 == *s);
                        if changed && reportable && !got.contains_key(&a) {
                            let d = format!("op {i} ({}): account {a} changed to {:?} {:?} but is not reported", brief(op), now.v, now.k);
                            b.res.v(ID, "not_reported", d);
                        }
                        if changed {
                            b.res.probe("slot_moved_accounts");
                        }
                    }
                }
            }
            Op::TGpa { q, c } => {
                let fl = Some(query_filters(&b.n, q));
                lin_query(&mut b, &m, i, q.p, &fl, *c, must_answer(q));
            }
            Op::Snap { .. } => {
                if b.snapshot(i, ID) {
                    saved = Lin { vers: BTreeMap::new(), conf: m.fin, fin: m.fin };
                    for a in 0..b.n_acc {
                        if let Some(x) = m.at(a, F) {
                            if prog_of_kind(&x.k).map(|p| p < covered(b.layout)).unwrap_or(false) {
                                saved.vers.insert(a, vec![V { v: x.v, k: x.k.clone(), fin: true }]);
                            }
                        }
                    }
                }
            }
            Op::Crash => {
                b.restart(i, ID);
                m = saved.clone();
                b.res.probe("restarted");
            }
            _ => {}
        }
        for a in 0..b.n_acc {
            for c in [P, C, F] {
                let got = b.get(i, a, c, ID);
                let (want, optional) = m.at(a, c).map(|x| b.view(a, x.v.1, &x.k)).unwrap_or((None, false));
                if got != want && !(optional && got.is_none()) {
                    b.res.v(
                        ID,
                        "read",
                        format!("op {i} ({}): account {a} at {}: got {}, expected {}", brief(op), cname(c), f(&got), f(&want)),
                    );
                }
            }
        }
        for (p, fl) in b.queries(i) {
            lin_query(&mut b, &m, i, p, &fl, (i % 3) as u8, true);
        }
        for (p, fl) in useless(i) {
            lin_query(&mut b, &m, i, p, &fl, (i / 2 % 3) as u8, false);
        }
        let x = covered(b.layout);
        if x < 5 && b.store.get_program_accounts(program(x), None, commitment((i % 3) as u8)).is_ok() {
            b.res.v(ID, "unusable_query", format!("op {i}: query of program {x}, which nobody keeps, was answered"));
        }
        let mut h = hash_of(&(m.conf, m.fin));
        for (a, v) in &m.vers {
            for x in v {
                h = mix(h ^ hash_of(&(a, x.v.0, &x.k)));
            }
        }
        b.res.states.push(h);
    }
    b.res
}
/// token queries that may be refused, but not answered with a part of the accounts
fn useless(i: usize) -> [(u8, Option<Vec<Fl>>); 1] {
    let p = (i & 1) as u8;
    [match i / 2 % 4 {
        0 => (p, None),
        1 => (p, Some(vec![])),
        2 => (p, Some(vec![Fl::Cmp(64, vec![i as u8], 0)])),
        _ => (p, Some(vec![Fl::Size(165)])),
    }]
}
fn lin_query(b: &mut Base, m: &Lin, i: usize, p: u8, fl: &Option<Vec<Fl>>, c: u8, must: bool) {
    let Some(got) = b.query(i, p, fl, c, "C23", must) else { return };
    let mut want = BTreeMap::new();
    for a in 0..b.n_acc {
        if let Some(s) = m.at(a, c).and_then(|x| b.view(a, x.v.1, &x.k).0) {
            if fits(&s, p, fl) {
                want.insert(a, s);
            }
        }
    }
    if got != want {
        let show = |m: &BTreeMap<u8, Shown>| m.values().map(brief_shown).collect::<Vec<_>>().join(", ");
        b.res.v("C23", "query", format!("op {i}: query of program {p} {fl:?} at {}: got [{}], expected [{}]", cname(c), show(&got), show(&want)));
    }
}

// ---------------------------------------------------------------- C24: forks, message faults, disconnections, crashes

#[derive(Clone, Default)]
struct Acc {
    /// the finalized version the store has to show
    cur: Option<Ver>,
    /// a message it depends on was lost or late: only states of the final chain are required
    doubt: bool,
    /// version -> when it was delivered
    delivered: BTreeMap<Ver, u64>,
    /// when the last update of an already finalized slot arrived
    late: u64,
}

fn whole(mut b: Base, cfg: &Cfg, ops: &[Op]) -> RunResult {
    const ID: &str = "C24";
    let mut kinds: BTreeMap<(u8, Ver), TokKind> = BTreeMap::new();
    for op in ops {
        if let Op::TUpd { a, s, w, k, .. } = op {
            kinds.insert((*a, (*s, *w)), k.clone());
        }
    }
    let chain: Vec<Vec<Ver>> = (0..b.n_acc).map(|a| cfg.truth.get(&a).cloned().unwrap_or_default()).collect();
    let on_chain: BTreeMap<u64, u64> = cfg.truth.get(&255).cloned().unwrap_or_default().into_iter().collect();
    // states by account: of the final chain, of any slot
    let mut finals: Vec<Vec<(Ver, Shown)>> = vec![vec![]; b.n_acc as usize];
    let mut all: Vec<Vec<Shown>> = vec![vec![]; b.n_acc as usize];
    let mut closes = vec![false; b.n_acc as usize];
    for ((a, v), k) in &kinds {
        closes[*a as usize] |= gone_for(b.layout, k) && chain[*a as usize].contains(v);
        let s = expected(&b.n, *a, v.1, k);
        if chain[*a as usize].contains(v) {
            finals[*a as usize].push((*v, s.clone()));
        }
        all[*a as usize].push(s);
    }
    let mut accs: Vec<Acc> = vec![Acc::default(); b.n_acc as usize];
    let mut saved = (accs.clone(), 0);
    let mut fin = 0u64;
    let mut seq = 0u64;
    let mut behind = false;
    // newest slot a confirmed or finalized notification was for
    let mut newest_notified: Option<u64> = None;
    for (i, op) in ops.iter().enumerate() {
        set_op(i as u32);
        seq += 1;
        match op {
            Op::TUpd { a, s, w, k, c, init } => {
                let v = (*s, *w);
                let real = account(&b.n, *a, *s, *w, k);
                if *init {
                    b.store.initilize_or_update_account(real);
                } else {
                    b.store.update_account(real, commitment(*c));
                }
                let x = &mut accs[*a as usize];
                if *init || *c == F {
                    let newest = chain[*a as usize].iter().rev().find(|y| y.0 <= fin.max(*s)).copied();
                    if newest.map(|n| v >= n).unwrap_or(true) {
                        if x.doubt {
                            b.res.probe("recovered");
                        }
                        x.cur = Some(v);
                        x.doubt = false;
                    }
                } else if *s <= fin {
                    x.doubt = true;
                    x.late = seq;
                    x.delivered.insert(v, seq);
                    b.res.probe("update_of_a_finalized_slot");
                } else {
                    let overtaken = x.delivered.keys().next_back().map(|y| *y > v).unwrap_or(false);
                    let stayed = !x.doubt && x.cur.and_then(|v| kinds.get(&(*a, v))).map(|c| prog_of_kind(c) == prog_of_kind(k)).unwrap_or(true);
                    if overtaken && (!x.delivered.contains_key(&v) || gone_for(b.layout, k) || !stayed) {
                        // overtaken by a newer update: a store may know the account only from the older one
                        x.doubt = true;
                        x.late = seq;
                        b.res.probe("update_overtaken");
                    }
                    x.delivered.insert(v, seq);
                }
            }
            Op::Slot { s, p, c } => {
                if *p < *s {
                    b.parents.insert(*s, *p);
                }
                if *c == F && *s > fin {
                    let linked = b.linked(*s, fin);
                    for a in 0..b.n_acc as usize {
                        let x = &mut accs[a];
                        let newest = chain[a].iter().rev().find(|y| y.0 <= *s).copied();
                        let Some(n) = newest else { continue };
                        if x.cur >= Some(n) {
                            continue;
                        }
                        if linked.contains(&n.0) && x.delivered.get(&n).map(|t| *t > x.late).unwrap_or(false) {
                            if x.doubt {
                                b.res.probe("recovered");
                            }
                            x.cur = Some(n);
                            x.doubt = false;
                            if (fin + 1..*s).any(|y| b.parents.contains_key(&y) && !on_chain.contains_key(&y)) {
                                b.res.probe("finalized_on_a_forked_chain");
                            }
                        } else {
                            x.doubt = true;
                            b.res.probe("final_state_not_received");
                        }
                    }
                    fin = *s;
                }
                let got = b.notify(i, *s, *p, *c, ID);
                if *c != P {
                    // overtaken by a notification of a later slot: the links between the two may be missing
                    let stale = newest_notified.map(|x| x > *s).unwrap_or(false);
                    newest_notified = newest_notified.max(Some(*s));
                    for (a, g) in &got {
                        let known = *a < b.n_acc && finals[*a as usize].iter().any(|x| x.1 == *g);
                        let gone = *a < b.n_acc
                            && closure(g)
                            && (closes[*a as usize] || accs[*a as usize].doubt || (stale && b.get(i, *a, *c, ID).is_none()));
                        if !known && !gone {
                            b.res.v(
                                ID,
                                "reported_off_chain",
                                format!("op {i} ({}): account {a} reported as {}, which no {} slot holds", brief(op), brief_shown(g), cname(*c)),
                            );
                        }
                    }
                }
            }
            Op::TGpa { q, .. } => {
                let fl = Some(query_filters(&b.n, q));
                fin_query(&mut b, &accs, &kinds, &finals, i, q.p, &fl, must_answer(q));
            }
            Op::Snap { .. } => {
                if b.snapshot(i, ID) {
                    let mut s = accs.clone();
                    for x in s.iter_mut() {
                        x.delivered.clear();
                        x.late = 0;
                    }
                    saved = (s, fin);
                }
            }
            Op::Crash => {
                b.restart(i, ID);
                accs = saved.0.clone();
                fin = saved.1;
                b.res.probe("restarted");
            }
            _ => {}
        }
        for a in 0..b.n_acc {
            let x = accs[a as usize].clone();
            let (want, optional) = match x.cur {
                Some(v) => kinds.get(&(a, v)).map(|k| b.view(a, v.1, k)).unwrap_or((None, false)),
                None => (None, false),
            };
            for c in [F, C, P] {
                let got = b.get(i, a, c, ID);
                let of = |v: Option<&Shown>| v.is_some();
                let wrong = match (&got, c) {
                    (None, _) => None,
                    (Some(g), P) => (!of(all[a as usize].iter().find(|x| *x == g))).then_some("never_existed"),
                    (Some(g), _) => (!finals[a as usize].iter().any(|x| x.1 == *g)).then_some("off_chain"),
                };
                if let Some(kind) = wrong {
                    let d = format!("op {i} ({}): account {a} at {}: got {}, which is no state of the final chain", brief(op), cname(c), f(&got));
                    b.res.v(ID, kind, d);
                    continue;
                }
                if x.doubt {
                    behind = true;
                    continue;
                }
                // nothing newer than the finalized state is known: all commitments agree
                let settled = x.delivered.keys().all(|v| Some(*v) <= x.cur);
                if (c == F || settled) && got != want && !(optional && got.is_none()) {
                    b.res.v(
                        ID,
                        "state",
                        format!("op {i} ({}): account {a} at {}: got {}, expected {}", brief(op), cname(c), f(&got), f(&want)),
                    );
                }
                // a confirmed state is not older than the finalized one
                if let (Some(g), C, Some(cur)) = (&got, c, x.cur) {
                    if !finals[a as usize].iter().any(|x| x.1 == *g && x.0 >= cur) {
                        let d = format!("op {i} ({}): account {a} at {}: got {}, older than the finalized version {cur:?}", brief(op), cname(c), f(&got));
                        b.res.v(ID, "older_than_finalized", d);
                    }
                }
            }
        }
        for (p, fl) in b.queries(i) {
            fin_query(&mut b, &accs, &kinds, &finals, i, p, &fl, true);
        }
        for (p, fl) in useless(i) {
            fin_query(&mut b, &accs, &kinds, &finals, i, p, &fl, false);
        }
        let mut h = hash_of(&fin);
        for x in &accs {
            h = mix(h ^ hash_of(&(x.cur, x.doubt, x.delivered.len())));
        }
        b.res.states.push(h);
    }
    if !behind {
        b.res.probe("never_behind");
    }
    if accs.iter().all(|x| !x.doubt) {
        b.res.probe("converged");
    }
    b.res
}
fn fin_query(
    b: &mut Base,
    accs: &[Acc],
    kinds: &BTreeMap<(u8, Ver), TokKind>,
    finals: &[Vec<(Ver, Shown)>],
    i: usize,
    p: u8,
    fl: &Option<Vec<Fl>>,
    must: bool,
) {
    let Some(got) = b.query(i, p, fl, F, "C24", must) else { return };
    for (a, s) in &got {
        if !fits(s, p, fl) || !finals.get(*a as usize).map(|v| v.iter().any(|x| x.1 == *s)).unwrap_or(false) {
            b.res.v("C24", "query_off_chain", format!("op {i}: query of program {p} {fl:?} at finalized returned {}", brief_shown(s)));
        }
    }
    for a in 0..b.n_acc {
        let x = &accs[a as usize];
        if x.doubt {
            continue;
        }
        let want = x.cur.and_then(|v| kinds.get(&(a, v)).and_then(|k| b.view(a, v.1, k).0)).filter(|s| fits(s, p, fl));
        if got.get(&a) != want.as_ref() {
            let g = got.get(&a).cloned();
            b.res.v("C24", "query", format!("op {i}: query of program {p} {fl:?} at finalized: account {a}: got {}, expected {}", f(&g), f(&want)));
        }
    }
}

pub fn info(prop: &str) -> crate::Info {
    crate::Info {
        rule: match prop {
            "C24" => "one run = one seeded history of a forking validator seen through a faulty network with disconnections, crashes and recovery from snapshots; non-trivial: an account was finalized while a fork was abandoned, or recovered after messages were lost",
            _ => "one run = one seeded linear history over several stores behind the dispatcher; non-trivial: an account moved to a program that another store keeps",
        },
        real: vec![
            "lite-account-storage: StorageByProgramId, InmemoryAccountStore, AccountDataByCommitment",
            "lite-token-account-storage: TokenProgramAccountsStorage, InmemoryTokenAccountStorage, codecs",
            "lite-account-manager-common: filters, account data compression",
        ],
        stubs: vec![
            "validator (seeded fork, skip, transaction and owner change generator)",
            "geyser/gRPC connection (in-process network that delays, reorders, duplicates and drops; disconnections)",
            "finalized account source used after a reconnection (states of the validator at a finalized slot)",
            "durable snapshot storage (in memory)",
            "operating system: futex, clock, entropy and processor count answered by the simulator",
        ],
        assumptions: vec![
            "one caller at a time: concurrency of the stores is explored under C09, C10 and C17; reads that overlap an owner change through the dispatcher are not judged",
            "an account whose latest final update was lost, unlinked or overtaken by a late message is only required to show states of the final chain until a newer state is finalized or loaded",
        ],
    }
}
