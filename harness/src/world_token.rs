//! Token account store: sequential histories (C12-C16, C18) and concurrent callers (C17).
use crate::common::*;
use crate::rng::{mix, Rng};
use crate::sched::*;
use crate::world_store::{network, Msg, NetParams};
use lite_account_manager_common::{
    account_data::{Account, AccountData, CompressionMethod, Data},
    account_filter::AccountFilterType,
    account_store_interface::AccountStorageInterface,
    slot_info::SlotInfo,
};
use lite_token_account_storage::{
    inmemory_token_account_storage::InmemoryTokenAccountStorage, inmemory_token_storage::TokenProgramAccountsStorage,
};
use solana_sdk::{program_option::COption, program_pack::Pack, pubkey::Pubkey};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::sync::{Arc, Mutex};

// ---------------------------------------------------------------- names and bytes

/// addresses of the simulated world; `sim` makes them share leading bytes
#[derive(Clone, Copy, Debug)]
pub struct Names {
    pub sim: i64,
}
impl Names {
    fn shape(&self, k: Pubkey, kind: u8) -> Pubkey {
        let mut b = k.to_bytes();
        let n = match self.sim {
            0 => 0,
            1 => 4,
            2 => 8,
            3 => 31,
            _ => 16,
        };
        for x in b[..n].iter_mut() {
            // everything shares the same leading bytes, sim 4: one prefix for each kind of address
            *x = 7 + if self.sim == 4 { kind } else { 0 };
        }
        if n == 31 {
            b[31] = b[31].wrapping_mul(2).wrapping_add(kind & 1);
        }
        Pubkey::new_from_array(b)
    }
    pub fn acc(&self, a: u8) -> Pubkey {
        if self.sim == 3 {
            let mut b = [7u8; 32];
            b[31] = a + 1;
            return Pubkey::new_from_array(b);
        }
        self.shape(key(3, a as u64), 0)
    }
    /// the last owner is also an account (as a multisig would be)
    pub fn owner(&self, o: u8) -> Pubkey {
        if o == 3 {
            return self.acc(0);
        }
        if self.sim == 3 {
            let mut b = [7u8; 32];
            b[31] = 100 + o;
            return Pubkey::new_from_array(b);
        }
        self.shape(key(4, o as u64), 1)
    }
    pub fn index(&self, pk: &Pubkey) -> u8 {
        (0..20).find(|a| self.acc(*a) == *pk).unwrap_or(250)
    }
}
pub fn program(p: u8) -> Pubkey {
    match p {
        0 => spl_token::id(),
        1 => spl_token_2022::id(),
        _ => key(5, p as u64),
    }
}

fn coption<T>(b: bool, t: T) -> COption<T> {
    if b {
        COption::Some(t)
    } else {
        COption::None
    }
}
fn is_token(k: &TokKind) -> bool {
    matches!(k, TokKind::Acc { .. })
}
pub fn gone(k: &TokKind) -> bool {
    matches!(k, TokKind::Closed | TokKind::Other { .. })
}
/// lamports, owning program and data of a state; write version `w` makes every version distinct
pub fn content(n: &Names, k: &TokKind, w: u64) -> (u64, Pubkey, Vec<u8>) {
    let salt = hash_of(k) ^ crate::rng::mix(w);
    // now and then the smallest or the largest value of a field
    let edge = |field: u64, x: u64| match crate::rng::mix(salt ^ field) % 12 {
        0 => 0,
        1 => u64::MAX,
        _ => x,
    };
    // and the address of all zeroes (the system program)
    let zero = |field: u64, x: Pubkey| match crate::rng::mix(salt ^ field << 8) % 12 {
        0 => Pubkey::default(),
        _ => x,
    };
    let extension = |ty: u8, v: u8| {
        let mut e = vec![ty];
        e.extend((0..(v as usize % 5) * 9).map(|i| (w as usize * 7 + i) as u8));
        e
    };
    match k {
        TokKind::Acc { p, m, o, v } => {
            let a = spl_token::state::Account {
                mint: n.acc(*m),
                owner: n.owner(*o),
                amount: edge(1, w.wrapping_mul(0x9e37_79b9)),
                delegate: coption(v & 1 != 0, zero(1, key(6, *v as u64))),
                delegated_amount: if v & 1 != 0 { edge(2, w + 5) } else { 0 },
                state: match v >> 3 & 3 {
                    0 => spl_token::state::AccountState::Uninitialized,
                    1 => spl_token::state::AccountState::Frozen,
                    _ => spl_token::state::AccountState::Initialized,
                },
                is_native: coption(v & 2 != 0, edge(3, w + 9)),
                close_authority: coption(v & 4 != 0, zero(2, key(7, *v as u64))),
            };
            let mut d = vec![0; 165];
            a.pack_into_slice(&mut d);
            if *p == 1 && v & 32 != 0 {
                d.extend(extension(2, *v));
            }
            (2_039_280 + w, program(*p), d)
        }
        TokKind::Mint { p, v } => {
            let m = spl_token::state::Mint {
                mint_authority: coption(v & 1 != 0, zero(1, key(6, *v as u64))),
                supply: edge(1, w.wrapping_mul(0x1_0000_0001)),
                decimals: *v,
                is_initialized: v & 4 == 0,
                freeze_authority: coption(v & 2 != 0, zero(2, key(7, *v as u64))),
            };
            let ext = *p == 1 && v & 32 != 0;
            let mut d = vec![0; 82];
            m.pack_into_slice(&mut d);
            if ext {
                d.resize(165, 0);
                d.extend(extension(1, *v));
            }
            (1_000_000 + w, program(*p), d)
        }
        TokKind::Multi { p, v } => {
            let mut signers = [Pubkey::default(); 11];
            for i in 0..(v % 12) as usize {
                signers[i] = zero(i as u64, key(8, (*v as u64) << 8 | i as u64));
            }
            let m = spl_token::state::Multisig { m: v % 5, n: v % 12, is_initialized: v & 16 == 0, signers };
            let mut d = vec![0; 355];
            m.pack_into_slice(&mut d);
            (3_000_000 + w, program(*p), d)
        }
        TokKind::Closed => (0, Pubkey::default(), vec![]),
        TokKind::Other { v } => (5 + w, program(2 + v % 3), vec![*v; (*v as usize % 4) * 60]),
        TokKind::Bad { p, n: len, v } => {
            let mut r = Rng::new((*len as u64) << 8 | *v as u64);
            let mut d: Vec<u8> = (0..*len).map(|_| r.next() as u8).collect();
            // make sure it is not a valid layout by accident
            match d.len() {
                82 => d[0] = 9,
                165 => d[108] = 7,
                355 => d[2] = 5,
                l if l > 165 && *p == 1 => {
                    d[165] = *r.pick(&[0, 1, 2, 3, 255]);
                    d[0] = 77;
                    d[108] = 9;
                }
                _ => {}
            }
            (1_000 + w, program(*p), d)
        }
    }
}

/// (account, program, lamports (0 for token accounts), data)
pub type Shown = (u8, u8, u64, Vec<u8>);
pub fn prog_of(pk: &Pubkey) -> u8 {
    (0..6).find(|p| program(*p) == *pk).unwrap_or(250)
}
pub fn shown(n: &Names, x: &AccountData) -> Shown {
    let data = x.account.data.data();
    let token = data.len() == 165 || data.get(165) == Some(&2) && data.len() != 355;
    // nothing is executable here, and the rent epoch is always the same
    let intact = !x.account.executable && x.account.rent_epoch == u64::MAX;
    (n.index(&x.pubkey), if intact { prog_of(&x.account.owner) } else { 249 }, if token { 0 } else { x.account.lamports }, data)
}
pub fn expected(n: &Names, a: u8, w: u64, k: &TokKind) -> Shown {
    let (lam, prog, data) = content(n, k, w);
    (a, prog_of(&prog), if is_token(k) { 0 } else { lam }, data)
}
pub fn account(n: &Names, a: u8, s: u64, w: u64, k: &TokKind) -> AccountData {
    let (lamports, owner, data) = content(n, k, w);
    let m = match w % 4 {
        0 => CompressionMethod::Lz4(1),
        1 => CompressionMethod::Zstd(1),
        _ => CompressionMethod::None,
    };
    AccountData {
        pubkey: n.acc(a),
        account: Arc::new(Account { lamports, data: Data::new(&data, m), owner, executable: false, rent_epoch: u64::MAX }),
        updated_slot: s,
        write_version: w,
    }
}

// ---------------------------------------------------------------- reference model

type Ver = (u64, u64);
#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct TSlot {
    pub accs: BTreeMap<u8, (u64, TokKind)>,
    pub parent: Option<u64>,
}
#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct TModel {
    pub slots: BTreeMap<u64, TSlot>,
    pub confirmed: u64,
    pub finalized: u64,
    pub fin: BTreeMap<u8, (Ver, TokKind)>,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum TOut {
    Bad,
    Unknown,
    Stale,
    Applied,
}
impl TModel {
    fn set_fin(&mut self, a: u8, v: Ver, k: &TokKind) -> bool {
        if self.fin.get(&a).map(|x| x.0 >= v).unwrap_or(false) {
            return false;
        }
        if gone(k) {
            self.fin.remove(&a).is_some()
        } else {
            self.fin.insert(a, (v, k.clone()));
            true
        }
    }
    pub fn update(&mut self, a: u8, v: Ver, k: &TokKind, c: u8) -> TOut {
        if matches!(k, TokKind::Bad { .. }) {
            return TOut::Bad;
        }
        if gone(k) && !self.fin.contains_key(&a) && !self.slots.values().any(|s| s.accs.contains_key(&a)) {
            return TOut::Unknown;
        }
        if c == F {
            let mut changed = false;
            if gone(k) {
                for (s, x) in self.slots.range_mut(..=v.0) {
                    if x.accs.get(&a).map(|y| (*s, y.0) <= v).unwrap_or(false) {
                        x.accs.remove(&a);
                        changed = true;
                    }
                }
            }
            if self.set_fin(a, v, k) || changed {
                TOut::Applied
            } else {
                TOut::Stale
            }
        } else {
            if v.0 <= self.finalized {
                return TOut::Stale;
            }
            let e = self.slots.entry(v.0).or_default();
            if e.accs.get(&a).map(|x| x.0 >= v.1).unwrap_or(false) {
                return TOut::Stale;
            }
            e.accs.insert(a, (v.1, k.clone()));
            TOut::Applied
        }
    }
    /// what the notification reports
    pub fn slot(&mut self, s: u64, p: u64, c: u8) -> BTreeMap<u8, (Ver, TokKind)> {
        let mut rep = BTreeMap::new();
        if s > self.finalized && p < s {
            self.slots.entry(s).or_default().parent = Some(p);
        }
        if c == C {
            self.confirmed = self.confirmed.max(s);
            if let Some(x) = self.slots.get(&s) {
                for (a, (w, k)) in &x.accs {
                    if !gone(k) {
                        rep.insert(*a, ((s, *w), k.clone()));
                    }
                }
            }
        } else if c == F && s > self.finalized {
            self.finalized = s;
            let mut newest: BTreeMap<u8, (Ver, TokKind)> = BTreeMap::new();
            let mut cur = Some(s);
            while let Some(x) = cur.and_then(|x| self.slots.remove(&x).map(|y| (x, y))) {
                for (a, (w, k)) in x.1.accs {
                    newest.entry(a).or_insert(((x.0, w), k));
                }
                cur = x.1.parent;
            }
            self.slots.retain(|x, _| *x > s);
            for (a, (v, k)) in newest {
                if self.set_fin(a, v, &k) && !gone(&k) {
                    rep.insert(a, (v, k));
                }
            }
        }
        rep
    }
    fn pending(&self, a: u8, c: u8) -> Option<(Ver, TokKind)> {
        if c == P {
            for (s, x) in self.slots.iter().rev() {
                if *s <= self.confirmed {
                    break;
                }
                if let Some((w, k)) = x.accs.get(&a) {
                    return Some(((*s, *w), k.clone()));
                }
            }
        }
        let mut cur = Some(self.confirmed);
        while let Some((s, x)) = cur.and_then(|s| self.slots.get(&s).map(|x| (s, x))) {
            if let Some((w, k)) = x.accs.get(&a) {
                return Some(((s, *w), k.clone()));
            }
            cur = x.parent;
        }
        None
    }
    /// state and whether it is a pending one
    pub fn read(&self, a: u8, c: u8) -> Option<(Ver, TokKind, bool)> {
        let f = self.fin.get(&a);
        let p = if c == F { None } else { self.pending(a, c) };
        match (p, f) {
            (Some((v, k)), f) if f.map(|f| v > f.0).unwrap_or(true) => (!gone(&k)).then_some((v, k, true)),
            (_, Some((v, k))) => Some((*v, k.clone(), false)),
            _ => None,
        }
    }
}

// ---------------------------------------------------------------- queries

/// the data filters of a query in the order the caller gives them
pub fn query_filters(n: &Names, q: &TokQuery) -> Vec<Fl> {
    let mut v = vec![];
    match q.kind {
        0 => v.push(Fl::Size(165)),
        1 => v.push(Fl::Cmp(165, vec![2], 0)),
        2 => {
            v.push(Fl::Cmp(165, vec![2], 0));
            v.push(Fl::Size(165))
        }
        _ => v.push(Fl::Size(82)),
    }
    if let Some(o) = q.owner {
        v.push(Fl::Cmp(32, n.owner(o).to_bytes().to_vec(), 0));
    }
    if let Some(m) = q.mint {
        v.push(Fl::Cmp(0, n.acc(m).to_bytes().to_vec(), 0));
    }
    // callers order their filters as they like
    if (q.owner.unwrap_or(0) + q.mint.unwrap_or(0)) % 2 == 1 {
        v.reverse();
    }
    v.extend(q.extra.iter().cloned());
    v
}
pub fn must_answer(q: &TokQuery) -> bool {
    // a second test of the byte that tells the kind may contradict the first
    let plain = !q.extra.iter().any(|f| matches!(f, Fl::Size(_) | Fl::Cmp(165, ..)));
    q.p <= 1
        && plain
        && match q.kind {
            0 => q.owner.is_some() || q.mint.is_some(),
            1 | 2 => q.p == 1 && (q.owner.is_some() || q.mint.is_some()),
            _ => q.owner.is_none() && q.mint.is_none(),
        }
}
fn must_refuse(q: &TokQuery) -> bool {
    q.p > 1
        || q.kind != 3
            && q.owner.is_none()
            && q.mint.is_none()
            && !q.extra.iter().any(|f| match f {
                Fl::Size(n) => *n == 82,
                Fl::Cmp(o, b, _) => (*o == 0 || *o == 32) && b.len() == 32,
            })
}

// ---------------------------------------------------------------- generation

pub struct VP {
    pub n_acc: u8,
    pub n_mint: u8,
    pub slots: u64,
    pub fork_pct: u32,
    pub skip_pct: u32,
    pub close_pct: u32,
    pub kind_pct: u32,
    pub bad_pct: u32,
    pub tx_max: u64,
    pub lag_c: i64,
    pub lag_f: i64,
}
pub fn kind_of(r: &mut Rng, role: u8, p: u8, n_mint: u8, n_acc: u8) -> TokKind {
    match role {
        0 => TokKind::Mint { p, v: r.below(64) as u8 },
        1 => TokKind::Multi { p, v: r.below(64) as u8 },
        _ => {
            let m = if r.pct(6) { r.below(n_acc as u64 + 2) as u8 } else { r.below(n_mint.max(1) as u64) as u8 };
            TokKind::Acc { p, m, o: r.below(4) as u8, v: r.below(64) as u8 }
        }
    }
}
fn bad(r: &mut Rng) -> TokKind {
    let n = match r.below(10) {
        0 => 0,
        1 => 1,
        2 | 3 => 82,
        4 | 5 => 165,
        6 => 355,
        7 => 166,
        8 => r.range(166, 400) as u16,
        _ => r.range(2, 164) as u16,
    };
    // other sizes than these are never a known layout of program 0
    TokKind::Bad { p: r.below(2) as u8, n, v: r.below(200) as u8 }
}
pub fn role_of(r: &mut Rng, a: u8, n_mint: u8) -> u8 {
    if a < n_mint {
        0
    } else if r.pct(12) {
        1
    } else {
        2
    }
}
pub fn validator(r: &mut Rng, p: &VP, wv: &mut u64, initial: bool) -> (Vec<Op>, Vec<Msg>, u64, u64) {
    let roles: Vec<u8> = (0..p.n_acc).map(|a| role_of(r, a, p.n_mint)).collect();
    let progs: Vec<u8> = (0..p.n_acc).map(|_| r.pct(50) as u8).collect();
    let mut init = vec![];
    let root0 = r.range(0, 2);
    let mut states: BTreeMap<u64, BTreeMap<u8, TokKind>> = BTreeMap::new();
    let mut st0 = BTreeMap::new();
    if initial {
        for a in 0..p.n_acc {
            if r.pct(70) {
                *wv += 1;
                let k = kind_of(r, roles[a as usize], progs[a as usize], p.n_mint, p.n_acc);
                init.push(Op::TUpd { a, s: root0, w: *wv, k: k.clone(), c: F, init: true });
                st0.insert(a, k);
            }
        }
        // token accounts before their mints as well
        let n = init.len();
        if n > 1 && r.pct(50) {
            for i in 0..n {
                let j = r.idx(n);
                init.swap(i, j);
            }
        }
    }
    states.insert(root0, st0);
    let mut parent: BTreeMap<u64, u64> = BTreeMap::new();
    let mut writes: BTreeMap<u64, Vec<(u8, u64, TokKind)>> = BTreeMap::new();
    let (mut head, mut slot, mut forks) = (root0, root0, 0);
    let mut recent = vec![root0];
    for _ in 0..p.slots {
        slot += 1 + r.pct(p.skip_pct) as u64;
        let par = if r.pct(p.fork_pct) && recent.len() > 1 {
            let lo = recent.len().saturating_sub(4);
            recent[lo + r.idx(recent.len() - lo)]
        } else {
            head
        };
        forks += (par != head) as u64;
        let mut st = states[&par].clone();
        let mut w = vec![];
        for _ in 0..r.below(p.tx_max + 1) {
            let a = r.below(p.n_acc as u64) as u8;
            *wv += 1;
            if r.pct(p.bad_pct) {
                w.push((a, *wv, bad(r)));
                continue;
            }
            let live = st.get(&a).map(|k| !gone(k)).unwrap_or(false);
            let k = if live && r.pct(p.close_pct) {
                if r.pct(60) {
                    TokKind::Closed
                } else {
                    TokKind::Other { v: r.below(8) as u8 }
                }
            } else if r.pct(p.kind_pct) {
                let role = r.below(3) as u8;
                let prog = r.below(2) as u8;
                kind_of(r, role, prog, p.n_mint, p.n_acc)
            } else {
                let mut k = kind_of(r, roles[a as usize], progs[a as usize], p.n_mint, p.n_acc);
                // mostly a token account keeps its mint, and often its owner
                if let (TokKind::Acc { m, o, .. }, Some(TokKind::Acc { m: m0, o: o0, .. })) = (&mut k, st.get(&a)) {
                    if r.pct(80) {
                        *m = *m0;
                    }
                    if r.pct(50) {
                        *o = *o0;
                    }
                }
                k
            };
            st.insert(a, k.clone());
            w.push((a, *wv, k));
        }
        writes.insert(slot, w);
        states.insert(slot, st);
        parent.insert(slot, par);
        recent.push(slot);
        head = if par == head || r.pct(60) { slot } else { head };
    }
    let mut onchain = BTreeSet::new();
    let mut s = head;
    while s != root0 {
        onchain.insert(s);
        s = parent[&s];
    }
    let notif_first = r.pct(50);
    let mut msgs = vec![];
    for (s, w) in &writes {
        let t = *s as i64 * 100;
        for (i, (a, v, k)) in w.iter().enumerate() {
            msgs.push(Msg { at: t + 1 + i as i64, op: Op::TUpd { a: *a, s: *s, w: *v, k: k.clone(), c: P, init: false }, stream: *a });
        }
        msgs.push(Msg { at: if notif_first { t } else { t + 50 }, op: Op::Slot { s: *s, p: parent[s], c: P }, stream: 200 });
        if onchain.contains(s) {
            msgs.push(Msg { at: t + p.lag_c * 100 + 60, op: Op::Slot { s: *s, p: parent[s], c: C }, stream: 200 });
            msgs.push(Msg { at: t + p.lag_f * 100 + 70, op: Op::Slot { s: *s, p: parent[s], c: F }, stream: 200 });
        }
    }
    (init, msgs, forks, slot)
}
fn gen_extra(r: &mut Rng) -> Vec<Fl> {
    let mut v = vec![];
    if r.pct(25) {
        v.push(match r.below(7) {
            // state byte of token accounts, decimals of mints
            0 | 1 => Fl::Cmp(108, vec![r.below(3) as u8], r.below(3) as u8),
            2 => Fl::Cmp(44, vec![r.below(64) as u8], r.below(3) as u8),
            3 => Fl::Size(*r.pick(&[82, 165, 170, 355])),
            4 => Fl::Cmp(72, vec![r.below(2) as u8], 0),
            5 => Fl::Cmp(r.below(400), vec![0; 1 + r.idx(3)], r.below(3) as u8),
            _ => Fl::Cmp(*r.pick(&[0, 32]), vec![7; 4], 0),
        });
    }
    v
}
pub fn gen_query(r: &mut Rng, n_acc: u8) -> TokQuery {
    let p = if r.pct(4) { 2 } else { r.below(2) as u8 };
    let kind = match r.below(8) {
        0..=3 => p.min(1) * r.below(2) as u8,
        4 => r.below(3) as u8,
        _ => 3,
    };
    let plain = kind == 3 && r.pct(85);
    TokQuery {
        p,
        owner: (!plain && r.pct(65)).then(|| r.below(5) as u8),
        mint: (!plain && r.pct(45)).then(|| r.below(n_acc as u64 + 2) as u8),
        kind,
        extra: gen_extra(r),
    }
}

pub fn gen(prop: &str, seed: u64, tier: u8) -> Plan {
    let mut r = Rng::new(seed);
    let r = &mut r;
    let mut faults: BTreeMap<String, u64> = BTreeMap::new();
    let restore = prop == "C29";
    let conc = prop == "C17" || restore;
    let n_acc = if !conc && r.pct(2) { r.range(8, 18) } else { r.range(2, if conc { 4 } else { 7 }) } as u8;
    let n_mint = r.range(1, 2.min(n_acc as u64 - 1)) as u8;
    let sim = if prop == "C15" {
        r.range(1, 4) as i64
    } else if r.pct(25) {
        r.range(1, 4) as i64
    } else {
        0
    };
    let lag_c = r.range(0, 2) as i64;
    let (mut slots, mut lag_f) = (if conc { r.range(2, 6) } else { r.range(3, if tier > 0 { 20 } else { 12 }) }, lag_c + r.range(0, 5) as i64);
    if !conc {
        (slots, lag_f) = gen_length(r, slots, lag_f);
    }
    let vp = VP {
        n_acc,
        n_mint,
        slots,
        fork_pct: *r.pick(&[0, 10, 30, 50]),
        skip_pct: *r.pick(&[0, 20]),
        close_pct: *r.pick(&[0, 10, 35]),
        kind_pct: *r.pick(&[0, 0, 10, 40]),
        bad_pct: if prop == "C18" { *r.pick(&[10, 30]) } else { *r.pick(&[0, 0, 0, 5]) },
        tx_max: if !conc && r.pct(2) { r.range(5, 16) } else { r.range(1, 4) },
        lag_c,
        lag_f,
    };
    let mut wv = 0;
    let initial = r.pct(60);
    let (init, msgs, forks, last) = validator(r, &vp, &mut wv, initial);
    if forks > 0 {
        faults.insert("fork".into(), forks);
    }
    let net = if r.pct(25) {
        NetParams { delay_pct: 0, delay_max: 0, dup_pct: 0, drop_upd_pct: 0, drop_slot_pct: 0, fifo: true }
    } else {
        NetParams {
            delay_pct: *r.pick(&[0, 10, 40, 80]),
            delay_max: *r.pick(&[60, 250, 900]),
            dup_pct: *r.pick(&[0, 5, 25]),
            drop_upd_pct: *r.pick(&[0, 0, 10]),
            drop_slot_pct: *r.pick(&[0, 0, 10, 40]),
            fifo: r.pct(40),
        }
    };
    let mut ops = network(r, msgs, &net, &mut faults);
    let explicit = *r.pick(&[0u32, 0, 5, 20]);
    for op in ops.iter_mut() {
        if let Op::TUpd { c, init, .. } = op {
            if r.pct(explicit) {
                *c = r.range(1, 2) as u8;
                *init = *c == F && r.pct(50);
            }
        }
    }
    let parents: BTreeMap<u64, u64> =
        ops.iter().filter_map(|o| if let Op::Slot { s, p, .. } = o { Some((*s, *p)) } else { None }).collect();
    for _ in 0..*r.pick(&[0u64, 0, 3, 8]) {
        let at = r.idx(ops.len() + 1);
        if r.pct(50) && !parents.is_empty() {
            let s = *r.pick(&parents.keys().copied().collect::<Vec<_>>());
            ops.insert(at, Op::Slot { s, p: parents[&s], c: r.below(3) as u8 });
            *faults.entry("stray_notification".into()).or_insert(0) += 1;
        } else {
            wv += 1;
            let k = if r.pct(20) {
                TokKind::Closed
            } else {
                let role = r.below(3) as u8;
                let prog = r.below(2) as u8;
                kind_of(r, role, prog, n_mint, n_acc)
            };
            ops.insert(at, Op::TUpd { a: r.below(n_acc as u64) as u8, s: r.range(0, last), w: wv, k, c: r.below(3) as u8, init: false });
            *faults.entry("stray_update".into()).or_insert(0) += 1;
        }
    }
    let bads = ops.iter().filter(|o| matches!(o, Op::TUpd { k: TokKind::Bad { .. }, .. })).count() as u64;
    if bads > 0 {
        faults.insert("malformed_account".into(), bads);
    }
    let cfg = Cfg { n_acc, flags: BTreeMap::from([("sim".to_string(), sim)]), ..Default::default() };
    if conc {
        let max = if tier > 0 { 16 } else { 12 };
        let n_conc = (r.range(3, max) as usize).min(ops.len());
        let cut = r.idx(ops.len() - n_conc + 1);
        let mut prelude = init;
        prelude.extend(ops.drain(..cut));
        ops.truncate(n_conc);
        if restore {
            // what was known is left in snapshots; after a restart they are loaded while the stream goes on
            let mut at = r.idx(prelude.len() + 1);
            for p in 0..2 {
                if r.pct(80) {
                    prelude.insert(at, Op::Snap { p });
                    at += 1;
                }
            }
            if r.pct(60) {
                prelude.insert(at, Op::Crash);
                faults.insert("crash_restart".into(), 1);
            }
        }
        let notifiers = r.range(1, 2) as usize;
        let others = r.range(1, 3) as usize;
        let mut threads: Vec<Vec<Op>> = vec![vec![]; notifiers + others];
        if restore {
            for _ in 0..r.range(1, 3) {
                let t = notifiers + r.idx(others);
                threads[t].push(Op::Load { p: r.below(2) as u8, corrupt: Corrupt::None });
            }
        }
        for op in ops {
            let t = if matches!(op, Op::Slot { .. }) { r.idx(notifiers) } else { notifiers + r.idx(others) };
            threads[t].push(op);
        }
        let read = |r: &mut Rng| match r.below(12) {
            0..=4 => Op::Get { a: r.below(n_acc as u64) as u8, c: r.below(3) as u8 },
            5..=10 => Op::TGpa { q: gen_query(r, n_acc), c: r.below(3) as u8 },
            _ => Op::Snap { p: r.below(2) as u8 },
        };
        for t in threads.iter_mut().skip(notifiers) {
            if restore && t.len() > 1 && matches!(t[0], Op::Load { .. }) && r.pct(60) {
                let op = t.remove(0);
                let at = r.idx(t.len() + 1);
                t.insert(at, op);
            }
        }
        for _ in 0..r.range(2, 8) {
            let t = notifiers + r.idx(others);
            let at = r.idx(threads[t].len() + 1);
            let op = read(r);
            threads[t].insert(at, op);
        }
        if r.pct(40) {
            let n = r.range(2, 6);
            threads.push((0..n).map(|_| read(r)).collect());
        }
        threads.retain(|t| !t.is_empty());
        let i = r.next();
        let policy = crate::batch::random_policy(r, i);
        let stretch = Stretch::gen(r);
        stretch.apply(&mut prelude);
        threads.iter_mut().for_each(|t| stretch.apply(t));
        return Plan {
            prop: String::new(),
            world: "ctoken".into(),
            cfg,
            prelude,
            threads,
            sched: SchedCfg { seed: r.next(), policy, tick_pm: 0, spurious_pm: if r.pct(30) { 100 } else { 0 }, max_steps: 4_000_000 },
            faults,
        };
    }
    let mut all = init;
    all.extend(ops);
    let mut ops = all;
    let crashy = if prop == "C16" { 100 } else { 15 };
    if r.pct(crashy) {
        for _ in 0..r.range(1, 4) {
            let at = r.idx(ops.len() + 1);
            ops.insert(at, Op::Snap { p: r.below(2) as u8 });
        }
        for _ in 0..r.range(0, 2) {
            let at = r.idx(ops.len() + 1);
            ops.insert(at, Op::Crash);
            *faults.entry("crash_restart".into()).or_insert(0) += 1;
            // snapshots are loaded at once, later or in several steps
            let mut at = at + 1;
            for p in 0..2 {
                if r.pct(85) {
                    at = (at + if r.pct(50) { 0 } else { r.idx(4) }).min(ops.len());
                    ops.insert(at, Op::Load { p: if r.pct(80) { p } else { 1 - p }, corrupt: Corrupt::None });
                    at += 1;
                }
            }
        }
        for _ in 0..r.range(0, 3) {
            let at = r.idx(ops.len() + 1);
            let corrupt = match r.below(8) {
                0 => Corrupt::Truncate(r.below(1000) as u32),
                1 => Corrupt::Flip(r.below(1000) as u32, 1 << r.below(8)),
                2 => Corrupt::ZeroTail(r.below(1000) as u32),
                3 => Corrupt::Garbage(r.next()),
                _ => Corrupt::None,
            };
            if corrupt != Corrupt::None {
                *faults.entry("snapshot_corruption".into()).or_insert(0) += 1;
            }
            ops.insert(at, Op::Load { p: r.below(2) as u8, corrupt });
        }
    }
    for _ in 0..r.range(1, if prop == "C14" { 12 } else { 6 }) {
        let at = r.idx(ops.len() + 1);
        ops.insert(at, Op::TGpa { q: gen_query(r, n_acc), c: r.below(3) as u8 });
    }
    Stretch::gen(r).apply(&mut ops);
    Plan {
        prop: String::new(),
        world: "token".into(),
        cfg,
        prelude: vec![],
        threads: vec![ops],
        sched: SchedCfg { seed: r.next(), policy: Policy::Serial, tick_pm: 0, spurious_pm: 0, max_steps: 60_000_000 },
        faults,
    }
}

// ---------------------------------------------------------------- sequential execution

fn new_store() -> Arc<TokenProgramAccountsStorage> {
    Arc::new(TokenProgramAccountsStorage::new(Arc::new(InmemoryTokenAccountStorage::default())))
}

type Durable = (Vec<u8>, Vec<(u8, Ver, TokKind)>);

struct Exec {
    n: Names,
    n_acc: u8,
    store: Arc<TokenProgramAccountsStorage>,
    model: TModel,
    durable: BTreeMap<u8, Durable>,
    res: RunResult,
    /// a snapshot was loaded or the store restarted
    restored: bool,
    /// a damaged snapshot was accepted: only panics are judged from here on
    blind: bool,
    /// a malformed update was refused
    malformed: bool,
}

impl Exec {
    fn tell(&mut self, props: &[&str], kind: &str, d: String) {
        let mut all: BTreeSet<&str> = props.iter().copied().collect();
        if self.n.sim > 0 {
            all.insert("C15");
        }
        if self.restored {
            all.insert("C16");
        }
        if self.malformed {
            all.insert("C18");
        }
        for p in all {
            self.res.v(p, kind, d.clone());
        }
    }
    fn names(&self, v: &[Shown]) -> String {
        v.iter().map(brief_shown).collect::<Vec<_>>().join(", ")
    }
    fn step(&mut self, i: usize, op: &Op) {
        set_op(i as u32);
        trace(&format!("{op:?}"));
        match op {
            Op::TUpd { a, s, w, k, c, init } => {
                let real = account(&self.n, *a, *s, *w, k);
                let c = if *init { F } else { *c };
                let before = self.model.fin.get(a).map(|x| std::mem::discriminant(&x.1));
                let out = self.model.update(*a, (*s, *w), k, c);
                let ret = if *init {
                    self.store.initilize_or_update_account(real);
                    None
                } else {
                    Some(self.store.update_account(real, commitment(c)))
                };
                match out {
                    TOut::Bad => {
                        self.res.probe("malformed_update");
                        self.malformed = true;
                    }
                    TOut::Unknown => self.res.probe("closure_of_unknown_account"),
                    TOut::Stale => self.res.probe("late_or_repeated_update"),
                    TOut::Applied => {
                        self.res.probe("update_applied");
                        if before.map(|b| b != std::mem::discriminant(k)).unwrap_or(false) {
                            self.res.probe("account_changed_kind");
                        }
                    }
                }
                if let Some(ret) = ret {
                    self.res.note(ret as u64);
                    if ret != (out == TOut::Applied) && !self.blind {
                        let d = format!("op {i} ({}): returned {ret}, expected {out:?}", brief(op));
                        match out {
                            TOut::Bad => self.tell(&["C18"], "malformed_accepted", d),
                            _ => self.tell(&["C12", "C13"], "accepted", d),
                        }
                    }
                }
            }
            Op::Slot { s, p, c } => {
                let want = self.model.slot(*s, *p, *c);
                let got = self.store.process_slot_data(SlotInfo { slot: *s, parent: *p, root: 0 }, commitment(*c));
                let mut w: Vec<(Shown, Ver)> = want.iter().map(|(a, (v, k))| (expected(&self.n, *a, v.1, k), *v)).collect();
                let mut g: Vec<(Shown, Ver)> = got.iter().map(|x| (shown(&self.n, x), (x.updated_slot, x.write_version))).collect();
                w.sort();
                g.sort();
                self.res.note(hash_of(&g));
                self.res.checks += 1;
                if *c == F && !w.is_empty() {
                    self.res.probe("finalization_moved_accounts");
                }
                if *c == F {
                    self.res.probe("finalization");
                }
                if w != g && !self.blind {
                    let f = |v: &Vec<(Shown, Ver)>| v.iter().map(|x| format!("{} {:?}", brief_shown(&x.0), x.1)).collect::<Vec<_>>().join(", ");
                    let d = format!("op {i} ({}): reported [{}], expected [{}]", brief(op), f(&g), f(&w));
                    self.tell(&["C13"], "report", d);
                }
            }
            Op::TGpa { q, c } => self.query(i, q, *c),
            Op::Snap { p } => match self.store.create_snapshot(program(*p)) {
                // what an accepted damaged snapshot made of the store is not known
                Ok(_) if self.blind => {}
                Ok(b) => {
                    let content = self
                        .model
                        .fin
                        .iter()
                        .filter(|(_, (_, k))| prog_of(&content(&self.n, k, 0).1) == *p)
                        .map(|(a, (v, k))| (*a, *v, k.clone()))
                        .collect::<Vec<_>>();
                    // is of no use to the other program
                    if !content.is_empty() {
                        self.res.probe("snapshot_offered_to_the_other_program");
                        if self.store.load_from_snapshot(program(1 - *p), b.clone()).is_ok() {
                            let d = format!("op {i}: the snapshot of program {p} ({} accounts) was loaded for the other program", content.len());
                            self.res.v("C16", "foreign_snapshot", d);
                        }
                    }
                    self.durable.insert(*p, (b, content));
                }
                Err(e) => self.res.v("C16", "snapshot_failed", format!("op {i}: creating a snapshot failed: {e:?}")),
            },
            Op::Crash => {
                self.store = new_store();
                self.model = TModel::default();
                self.restored = true;
                self.blind = false;
            }
            Op::Load { p, corrupt } => {
                let Some((b, content)) = self.durable.get(p).cloned() else { return };
                let bytes = corrupt.apply(&b);
                let damaged = bytes != b;
                let r = self.store.load_from_snapshot(program(*p), bytes);
                self.restored = true;
                match (r, damaged) {
                    (Ok(()), false) => {
                        if !content.is_empty() {
                            self.res.probe("snapshot_with_accounts_loaded");
                        }
                        for (a, v, k) in content {
                            self.model.set_fin(a, v, &k);
                        }
                    }
                    (Err(e), false) if !self.blind => {
                        self.res.v("C16", "load_failed", format!("op {i}: loading the undamaged snapshot of program {p} failed: {e:?}"))
                    }
                    (Err(_), _) => self.res.probe("damaged_snapshot_refused"),
                    (Ok(()), true) => {
                        self.res.probe("damaged_snapshot_accepted");
                        self.blind = true;
                    }
                }
            }
            _ => {}
        }
        self.check(i, op);
        self.res.states.push(hash_of(&self.model));
    }

    fn query(&mut self, i: usize, q: &TokQuery, c: u8) {
        let fl = query_filters(&self.n, q);
        let real: Vec<AccountFilterType> = fl.iter().map(|f| f.real()).collect();
        // without any filter as well
        let real = if q.kind != 3 && q.owner.is_none() && q.mint.is_none() && q.extra.is_empty() && q.kind == 0 { None } else { Some(real) };
        let got = self.store.get_program_accounts(program(q.p), real, commitment(c));
        self.res.checks += 1;
        if self.blind {
            return;
        }
        match got {
            Err(e) => {
                self.res.probe("query_refused");
                self.res.note(3);
                if must_answer(q) {
                    self.tell(&["C14"], "query_refused", format!("op {i}: query {q:?} refused: {e:?}"));
                }
            }
            Ok(v) => {
                if must_refuse(q) {
                    self.tell(&["C14"], "unusable_query", format!("op {i}: query {q:?} has no usable filter but was answered"));
                    return;
                }
                let mut got: Vec<Shown> = v.iter().map(|x| shown(&self.n, x)).collect();
                got.sort();
                self.res.note(hash_of(&got));
                let matches = |s: &Shown| s.1 == q.p && fl.iter().all(|f| f.allows(&s.3));
                let mut want = vec![];
                let mut reads = vec![];
                for a in 0..self.n_acc {
                    if let Some((v, k, _)) = self.model.read(a, c) {
                        let s = expected(&self.n, a, v.1, &k);
                        if matches(&s) {
                            want.push(s);
                        }
                    }
                    if let Ok(Some(x)) = self.store.get_account(self.n.acc(a), commitment(c)) {
                        let s = shown(&self.n, &x);
                        if matches(&s) {
                            reads.push(s);
                        }
                    }
                }
                want.sort();
                reads.sort();
                if !want.is_empty() {
                    self.res.probe("query_with_results");
                    if want.len() > 1 {
                        self.res.probe("query_with_several_results");
                    }
                }
                if got != want || got != reads {
                    let d = format!(
                        "op {i}: query {q:?} at {}: got [{}], expected [{}], single reads give [{}]",
                        cname(c),
                        self.names(&got),
                        self.names(&want),
                        self.names(&reads)
                    );
                    self.tell(&["C14"], "query", d);
                }
            }
        }
    }

    fn check(&mut self, i: usize, op: &Op) {
        let notification = matches!(op, Op::Slot { .. });
        for a in 0..self.n_acc {
            let mut levels = vec![];
            for c in [P, C, F] {
                self.res.checks += 1;
                let got = match self.store.get_account(self.n.acc(a), commitment(c)) {
                    Ok(x) => x,
                    Err(e) => {
                        self.tell(&["C12"], "read_error", format!("op {i}: reading account {a} failed: {e:?}"));
                        continue;
                    }
                };
                if self.blind {
                    continue;
                }
                let want = self.model.read(a, c);
                let g = got.as_ref().map(|x| shown(&self.n, x));
                self.res.note(hash_of(&g));
                let w = want.as_ref().map(|(v, k, _)| expected(&self.n, a, v.1, k));
                let mut wrong = g != w;
                let mut versions = String::new();
                if let (Some(x), Some((v, _, true))) = (&got, &want) {
                    if (x.updated_slot, x.write_version) != *v {
                        wrong = true;
                        versions = format!(" (versions {:?} and {:?})", (x.updated_slot, x.write_version), v);
                    }
                }
                levels.push(w.clone());
                if wrong {
                    let f = |x: &Option<Shown>| x.as_ref().map(brief_shown).unwrap_or("nothing".into());
                    let d = format!("op {i} ({}): account {a} at {}: got {}, expected {}{versions}", brief(op), cname(c), f(&g), f(&w));
                    let mut props = vec!["C12"];
                    if notification || c == F {
                        props.push("C13");
                    }
                    if matches!(op, Op::TUpd { k: TokKind::Bad { .. }, .. }) {
                        props.push("C18");
                    }
                    self.tell(&props, "read", d);
                }
            }
            if levels.len() == 3 && levels[0] != levels[1] && levels[1] != levels[2] {
                self.res.probe("all_three_commitments_differ");
            }
        }
        // a rotating set of plain queries
        let x = (i % 240) as u8;
        let p = x & 1;
        let c = x % 3;
        self.query(i, &TokQuery { p, owner: Some(x / 2 % 4), mint: None, kind: if p == 1 { x / 4 & 1 } else { 0 }, extra: vec![] }, c);
        self.query(i, &TokQuery { p: 1 - p, owner: None, mint: Some(x % self.n_acc), kind: if p == 0 { x / 4 & 1 } else { 0 }, extra: vec![] }, c);
        self.query(i, &TokQuery { p: x / 2 & 1, owner: None, mint: None, kind: 3, extra: vec![] }, (x + 1) % 3);
        if i % 4 == 0 {
            self.query(i, &TokQuery { p, owner: Some(x / 3 % 4), mint: Some(x / 4 % self.n_acc), kind: p, extra: vec![] }, c);
        }
    }
}

pub fn brief(op: &Op) -> String {
    match op {
        Op::TUpd { a, s, w, k, c, .. } => format!("update account {a} slot {s} wv {w} {k:?} as {}", cname(*c)),
        Op::Slot { s, p, c } => format!("slot {s} parent {p} {}", cname(*c)),
        x => format!("{x:?}"),
    }
}
pub fn brief_shown(x: &Shown) -> String {
    let kind = match x.3.len() {
        82 => "mint",
        355 => "multisig",
        _ if x.1 > 1 => "account",
        _ if x.2 == 0 => "token account",
        _ => "mint",
    };
    format!("{kind} {} of program {} ({} bytes, digest {:04x})", x.0, x.1, x.3.len(), hash_of(&x.3) & 0xffff)
}

pub fn exec(plan: &Plan, out: &mut RunResult) {
    if plan.world == "ctoken" {
        return exec_conc(plan, out);
    }
    let ops = plan.threads.first().cloned().unwrap_or_default();
    let cfg = plan.cfg.clone();
    crate::run_seq(plan, out, move |res| {
        let mut e = Exec {
            n: Names { sim: cfg.flag("sim") },
            n_acc: cfg.n_acc,
            store: new_store(),
            model: TModel::default(),
            durable: BTreeMap::new(),
            res: RunResult::default(),
            restored: false,
            blind: false,
            malformed: false,
        };
        for (i, op) in ops.iter().enumerate() {
            e.step(i, op);
        }
        if e.n.sim > 0 && e.model.fin.len() + e.model.slots.len() > 2 {
            e.res.probe("similar_addresses");
        }
        *res = std::mem::take(&mut e.res);
    });
    out.nontrivial = match plan.prop.as_str() {
        "C12" => out.probed("all_three_commitments_differ"),
        "C13" => out.probed("finalization_moved_accounts"),
        "C14" => out.probed("query_with_results"),
        "C15" => out.probed("similar_addresses"),
        "C16" => out.probed("snapshot_with_accounts_loaded") || out.probed("damaged_snapshot_refused"),
        _ => out.probed("malformed_update") || out.probed("account_changed_kind"),
    };
}

// ---------------------------------------------------------------- concurrent execution

#[derive(Clone, Debug)]
enum K {
    Upd { a: u8, v: Ver, k: TokKind, c: u8, ret: Option<bool> },
    Read { a: u8, c: u8, got: Option<Shown> },
    Query { q: TokQuery, fl: Vec<Fl>, c: u8, got: Vec<Shown> },
    Slot { s: u64, p: u64, c: u8, got: Vec<(Shown, Ver)> },
    /// accounts a snapshot restores
    Snap { p: u8, got: Vec<Shown> },
    /// the snapshot taken before is loaded
    Load { p: u8, ok: bool },
}
#[derive(Clone, Debug)]
struct Ev {
    t: usize,
    inv: u64,
    res: u64,
    k: K,
}
#[derive(Default)]
struct Hist {
    seq: u64,
    evs: Vec<Ev>,
    /// bytes of the snapshots and the place of their event
    snaps: Vec<(usize, u8, Vec<u8>)>,
}
struct Shared {
    n: Names,
    store: Arc<TokenProgramAccountsStorage>,
    hist: Mutex<Hist>,
    durable: Mutex<BTreeMap<u8, Vec<u8>>>,
}
impl Shared {
    fn tick(&self) -> u64 {
        without_points(|| {
            let mut h = self.hist.lock().unwrap();
            h.seq += 1;
            h.seq
        })
    }
    fn push(&self, t: usize, inv: u64, k: impl FnOnce() -> K) {
        without_points(|| {
            let k = k();
            let mut h = self.hist.lock().unwrap();
            h.seq += 1;
            let res = h.seq;
            h.evs.push(Ev { t, inv, res, k });
        })
    }
    fn op(&self, t: usize, i: usize, op: &Op) {
        set_op(i as u32);
        match op {
            Op::TUpd { a, s, w, k, c, init } => {
                let real = without_points(|| account(&self.n, *a, *s, *w, k));
                let inv = self.tick();
                let ret = if *init {
                    self.store.initilize_or_update_account(real);
                    None
                } else {
                    Some(self.store.update_account(real, commitment(*c)))
                };
                let c = if *init { F } else { *c };
                self.push(t, inv, || K::Upd { a: *a, v: (*s, *w), k: k.clone(), c, ret });
            }
            Op::Slot { s, p, c } => {
                let inv = self.tick();
                let got = self.store.process_slot_data(SlotInfo { slot: *s, parent: *p, root: 0 }, commitment(*c));
                self.push(t, inv, || K::Slot {
                    s: *s,
                    p: *p,
                    c: *c,
                    got: got.iter().map(|x| (shown(&self.n, x), (x.updated_slot, x.write_version))).collect(),
                });
            }
            Op::Get { a, c } => {
                let inv = self.tick();
                let got = self.store.get_account(self.n.acc(*a), commitment(*c)).ok().flatten();
                self.push(t, inv, || K::Read { a: *a, c: *c, got: got.as_ref().map(|x| shown(&self.n, x)) });
            }
            Op::TGpa { q, c } => {
                let (fl, real) = without_points(|| {
                    let fl = query_filters(&self.n, q);
                    let real: Vec<AccountFilterType> = fl.iter().map(|f| f.real()).collect();
                    (fl, real)
                });
                let inv = self.tick();
                let got = self.store.get_program_accounts(program(q.p), Some(real), commitment(*c));
                if let Ok(v) = got {
                    self.push(t, inv, || K::Query { q: q.clone(), fl, c: *c, got: v.iter().map(|x| shown(&self.n, x)).collect() });
                }
            }
            Op::Snap { p } => {
                let inv = self.tick();
                if let Ok(b) = self.store.create_snapshot(program(*p)) {
                    self.push(t, inv, || K::Snap { p: *p, got: vec![] });
                    without_points(|| {
                        if t == 99 {
                            self.durable.lock().unwrap().insert(*p, b.clone());
                        }
                        let mut h = self.hist.lock().unwrap();
                        let at = h.evs.len() - 1;
                        h.snaps.push((at, *p, b));
                    });
                }
            }
            Op::Load { p, .. } => {
                let b = without_points(|| self.durable.lock().unwrap().get(p).cloned());
                if let Some(b) = b {
                    let inv = self.tick();
                    let ok = self.store.load_from_snapshot(program(*p), b).is_ok();
                    self.push(t, inv, || K::Load { p: *p, ok });
                }
            }
            _ => {}
        }
    }
}

fn exec_conc(plan: &Plan, out: &mut RunResult) {
    let slot: Arc<Mutex<Option<Arc<Shared>>>> = Arc::new(Mutex::new(None));
    let (cfg, prelude, s2) = (plan.cfg.clone(), plan.prelude.clone(), slot.clone());
    crate::run_seq(plan, out, move |_| {
        let new = |durable| Arc::new(Shared { n: Names { sim: cfg.flag("sim") }, store: new_store(), hist: Mutex::new(Hist::default()), durable: Mutex::new(durable) });
        let mut sh = new(BTreeMap::new());
        for (i, op) in prelude.iter().enumerate() {
            if let Op::Crash = op {
                // only the snapshots survive
                let durable = std::mem::take(&mut *sh.durable.lock().unwrap());
                sh = new(durable);
                continue;
            }
            sh.op(99, i, op);
        }
        *s2.lock().unwrap() = Some(sh);
    });
    let Some(sh) = slot.lock().unwrap().clone() else { return };
    if out.poisoned {
        std::mem::forget(sh);
        return;
    }
    {
        let mut h = sh.hist.lock().unwrap();
        h.evs.clear();
        h.snaps.clear();
    }
    let mut bodies: Vec<Box<dyn FnOnce() + Send>> = vec![];
    for (t, ops) in plan.threads.iter().cloned().enumerate() {
        let sh = sh.clone();
        bodies.push(Box::new(move || {
            for (i, op) in ops.iter().enumerate() {
                sh.op(t, i, op);
            }
        }));
    }
    crate::run_par(plan, out, bodies);
    if out.poisoned {
        std::mem::forget(sh);
        return;
    }
    let (sh2, cfg2) = (sh.clone(), plan.cfg.clone());
    crate::run_seq(plan, out, move |_| {
        // what the snapshots restore
        let snaps = without_points(|| std::mem::take(&mut sh2.hist.lock().unwrap().snaps));
        for (at, p, b) in snaps {
            let fresh = new_store();
            let mut v = vec![];
            if fresh.load_from_snapshot(program(p), b).is_ok() {
                for a in 0..cfg2.n_acc {
                    if let Ok(Some(x)) = fresh.get_account(sh2.n.acc(a), commitment(F)) {
                        v.push(shown(&sh2.n, &x));
                    }
                }
            } else {
                v.push((251, 251, 0, vec![]));
            }
            if let K::Snap { got, .. } = &mut sh2.hist.lock().unwrap().evs[at].k {
                *got = v;
            }
        }
        for a in 0..cfg2.n_acc {
            for c in [P, C, F] {
                sh2.op(98, 0, &Op::Get { a, c });
            }
        }
        for c in [P, C, F] {
            for p in 0..2 {
                for o in 0..4 {
                    sh2.op(98, 0, &Op::TGpa { q: TokQuery { p, owner: Some(o), mint: None, kind: p, extra: vec![] }, c });
                }
                for m in 0..2 {
                    sh2.op(98, 0, &Op::TGpa { q: TokQuery { p, owner: None, mint: Some(m), kind: 0, extra: vec![] }, c });
                }
                sh2.op(98, 0, &Op::TGpa { q: TokQuery { p, owner: None, mint: None, kind: 3, extra: vec![] }, c });
            }
        }
    });
    let evs = std::mem::take(&mut sh.hist.lock().unwrap().evs);
    for e in &evs {
        out.note(mix(e.inv ^ e.res << 20) ^ hash_of(&format!("{:?}", e.k)));
    }
    let overlaps = |f: &dyn Fn(&K, &K) -> bool| evs.iter().any(|x| evs.iter().any(|y| x.inv < y.res && y.inv < x.res && f(&x.k, &y.k)));
    let mut probes = vec![];
    if overlaps(&|x, y| matches!((x, y), (K::Upd { v, .. }, K::Slot { s, c, .. }) if v.0 <= *s && *c == F)) {
        probes.push("update_overlaps_finalization");
    }
    if overlaps(&|x, y| matches!((x, y), (K::Upd { a, v, .. }, K::Upd { a: b, v: l, .. }) if a == b && v != l)) {
        probes.push("updates_of_one_account_overlap");
    }
    if overlaps(&|x, y| matches!((x, y), (K::Query { .. }, K::Upd { .. }))) {
        probes.push("query_overlaps_update");
    }
    if overlaps(&|x, y| matches!((x, y), (K::Query { .. } | K::Read { .. } | K::Snap { .. }, K::Slot { c, .. }) if *c == F)) {
        probes.push("read_overlaps_finalization");
    }
    if overlaps(&|x, y| matches!((x, y), (K::Load { .. }, K::Upd { .. }))) {
        probes.push("load_overlaps_update");
    }
    if overlaps(&|x, y| matches!((x, y), (K::Load { .. }, K::Slot { c, .. }) if *c == F)) {
        probes.push("load_overlaps_finalization");
    }
    if overlaps(&|x, y| matches!((x, y), (K::Load { .. }, K::Load { .. }))) {
        probes.push("loads_overlap");
    }
    if overlaps(&|x, y| matches!((x, y), (K::Load { .. }, K::Query { .. } | K::Snap { .. }))) {
        probes.push("load_overlaps_query");
    }
    let which = if plan.prop == "C29" { "C29" } else { "C17" };
    out.nontrivial = if which == "C29" { probes.iter().any(|x| x.starts_with("load")) } else { !probes.is_empty() };
    for p in probes {
        out.probe(p);
    }
    if !out.violations.is_empty() {
        return;
    }
    let n = sh.n;
    let mut model = TModel::default();
    let mut durable: Known = BTreeMap::new();
    for op in &plan.prelude {
        match op {
            Op::TUpd { a, s, w, k, c, init } => {
                model.update(*a, (*s, *w), k, if *init { F } else { *c });
            }
            Op::Slot { s, p, c } => {
                model.slot(*s, *p, *c);
            }
            Op::Snap { p } => {
                durable.insert(*p, model.fin.iter().filter(|(_, (_, k))| prog_of(&content(&n, k, 0).1) == *p).map(|(a, (v, k))| (*a, (*v, k.clone()))).collect());
            }
            Op::Crash => model = TModel::default(),
            _ => {}
        }
    }
    for e in &evs {
        if let K::Query { got, q, c, .. } = &e.k {
            let ids: BTreeSet<u8> = got.iter().map(|x| x.0).collect();
            if ids.len() != got.len() {
                out.v(which, "twice", format!("query {q:?} at {} returned an account twice", cname(*c)));
            }
        }
    }
    for a in 0..plan.cfg.n_acc {
        out.checks += 1;
        linearize(which, &n, &model, &durable, a, &evs, out);
    }
}

/// what the snapshots taken before contain
type Known = BTreeMap<u8, BTreeMap<u8, (Ver, TokKind)>>;

fn linearize(prop: &str, n: &Names, model: &TModel, durable: &Known, a: u8, evs: &[Ev], out: &mut RunResult) {
    let mut start = model.clone();
    start.fin.retain(|x, _| *x == a);
    for s in start.slots.values_mut() {
        s.accs.retain(|x, _| *x == a);
    }
    let subs: Vec<&Ev> = evs
        .iter()
        .filter(|e| match &e.k {
            K::Upd { a: b, .. } | K::Read { a: b, .. } => *b == a,
            K::Load { p, ok } => !ok || durable.get(p).map(|x| x.contains_key(&a)).unwrap_or(false),
            _ => true,
        })
        .collect();
    if subs.len() > 128 {
        out.probe("history_too_long_for_the_checker");
        return;
    }
    let mut memo = HashSet::new();
    let mut budget = 60_000u32;
    let mut deepest = (0, String::new());
    match search(n, durable, a, &subs, 0, &start, &mut memo, &mut budget, &mut deepest) {
        Some(true) => out.states.extend(memo.iter().take(40)),
        None => out.probe("checker_budget_exhausted"),
        Some(false) => {
            let mut sorted = subs.clone();
            sorted.sort_by_key(|e| e.inv);
            let h: Vec<String> = sorted
                .iter()
                .filter(|e| e.t != 98 || matches!(e.k, K::Read { .. }))
                .map(|e| format!("[{}-{}] thread {}: {}", e.inv, e.res, e.t, text(&e.k, a)))
                .collect();
            out.v(prop, "not_serializable", format!("no serial order explains what was seen of account {a}; stuck at {}; history: {}", deepest.1, h.join("; ")));
        }
    }
}
fn text(k: &K, a: u8) -> String {
    let f = |v: &[Shown]| v.iter().find(|x| x.0 == a).map(brief_shown).unwrap_or("nothing".into());
    match k {
        K::Upd { v, k, c, ret, .. } => format!("update {v:?} {k:?} as {} -> {ret:?}", cname(*c)),
        K::Read { c, got, .. } => format!("read {} -> {}", cname(*c), got.as_ref().map(brief_shown).unwrap_or("nothing".into())),
        K::Query { q, c, got, .. } => format!("{q:?} {} -> {}", cname(*c), f(got)),
        K::Slot { s, p, c, got } => {
            format!("slot {s} parent {p} {} -> {}", cname(*c), got.iter().find(|x| x.0 .0 == a).map(|x| brief_shown(&x.0)).unwrap_or("nothing".into()))
        }
        K::Snap { p, got } => format!("snapshot of program {p} -> {}", f(got)),
        K::Load { p, ok } => format!("load of the snapshot of program {p} -> {}", if *ok { "done" } else { "refused" }),
    }
}
fn explains(n: &Names, a: u8, e: &Ev, m: &TModel) -> Option<bool> {
    let at = |c: u8| m.read(a, c).map(|(v, k, _)| expected(n, a, v.1, &k));
    let of = |v: &[Shown]| v.iter().find(|x| x.0 == a).cloned();
    match &e.k {
        K::Read { c, got, .. } => Some(at(*c) == *got),
        K::Query { q, fl, c, got } => Some(at(*c).filter(|s| s.1 == q.p && fl.iter().all(|f| f.allows(&s.3))) == of(got)),
        K::Snap { p, got } => Some(!got.iter().any(|x| x.0 == 251) && at(F).filter(|s| s.1 == *p) == of(got)),
        _ => None,
    }
}
#[allow(clippy::too_many_arguments)]
fn search(
    n: &Names,
    durable: &Known,
    a: u8,
    subs: &[&Ev],
    mask: u128,
    m: &TModel,
    memo: &mut HashSet<u64>,
    budget: &mut u32,
    deepest: &mut (u32, String),
) -> Option<bool> {
    let mut mask = mask;
    loop {
        let Some(f) = (0..subs.len()).filter(|i| mask >> i & 1 == 0).map(|i| subs[i].res).min() else { return Some(true) };
        let mut took = false;
        for (i, e) in subs.iter().enumerate() {
            if mask >> i & 1 == 0 && e.inv < f && explains(n, a, e, m) == Some(true) {
                mask |= 1 << i;
                took = true;
            }
        }
        if !took {
            break;
        }
    }
    if *budget == 0 {
        return None;
    }
    *budget -= 1;
    if !memo.insert(mix(hash_of(m) ^ mix(mask as u64) ^ mix((mask >> 64) as u64 ^ 77))) {
        return Some(false);
    }
    let frontier = (0..subs.len()).filter(|i| mask >> i & 1 == 0).map(|i| subs[i].res).min().unwrap();
    if mask.count_ones() >= deepest.0 {
        let stuck: Vec<String> = subs
            .iter()
            .enumerate()
            .filter(|(i, e)| mask >> i & 1 == 0 && e.inv < frontier && explains(n, a, e, m) == Some(false))
            .map(|(_, e)| text(&e.k, a))
            .collect();
        *deepest = (mask.count_ones(), stuck.join(" | "));
    }
    let mut unknown = false;
    for (i, e) in subs.iter().enumerate() {
        if mask >> i & 1 == 1 || e.inv >= frontier {
            continue;
        }
        let mut next = m.clone();
        match &e.k {
            K::Upd { v, k, c, ret, .. } => {
                let o = next.update(a, *v, k, *c);
                if ret.map(|x| x != (o == TOut::Applied)).unwrap_or(false) {
                    continue;
                }
            }
            K::Slot { s, p, c, got } => {
                let want = next.slot(*s, *p, *c).get(&a).map(|(v, k)| (expected(n, a, v.1, k), *v));
                if want != got.iter().find(|x| x.0 .0 == a).cloned() {
                    continue;
                }
            }
            K::Load { p, ok: true } => {
                let (v, k) = &durable[p][&a];
                next.set_fin(a, *v, k);
            }
            _ => continue,
        }
        match search(n, durable, a, subs, mask | 1 << i, &next, memo, budget, deepest) {
            Some(true) => return Some(true),
            None => unknown = true,
            Some(false) => {}
        }
    }
    if unknown {
        None
    } else {
        Some(false)
    }
}

pub fn info(prop: &str) -> crate::Info {
    let mut stubs = vec![
        "validator (seeded fork, skip and token transaction generator)",
        "geyser/gRPC connection (in-process network that delays, reorders, duplicates and drops)",
        "durable snapshot storage (in memory, with truncation, bit flips and lost tails)",
        "operating system: futex, clock, entropy and processor count answered by the simulator",
    ];
    let mut assumptions = vec!["the reference model in harness/src/world_token.rs states the intended semantics"];
    if prop == "C17" {
        stubs.push("thread scheduler (every preemption, lock hand-over and wake-up is a seeded decision)");
        assumptions.push("threads are preempted at code edges of the crates under test and at blocking system calls, not between single machine instructions; memory is sequentially consistent");
        assumptions.push("histories are checked account by account");
    } else {
        assumptions.push("one caller at a time: concurrency of these calls is explored under C17");
    }
    assumptions.push("account data is delivered in canonical form (fields that an unset option makes meaningless are zero); lamports of token accounts and the version a finalized read reports are not compared");
    crate::Info {
        rule: match prop {
            "C12" => "one run = one seeded token validator history seen through a faulty network; non-trivial: an account had three different states at the three commitments",
            "C13" => "one run = one seeded token validator history; non-trivial: a finalization moved pending states of accounts",
            "C14" => "one run = one seeded token validator history with queries after every step; non-trivial: a query returned accounts",
            "C15" => "one run = one seeded token validator history over addresses that share 4, 8, 16 or 31 leading bytes; non-trivial: at least three slots and finalized accounts remained at the end",
            "C16" => "one run = one seeded token validator history with snapshots, crashes, restarts, warm loads and damaged snapshot bytes; non-trivial: a snapshot with accounts was loaded or a damaged one refused",
            "C17" => "one run = seeded operations of 2 to 6 simulated caller threads (updates, notifications, reads, queries, snapshots) under one seeded schedule; non-trivial: calls that touch the same data overlapped",
            _ => "one run = one seeded token validator history with malformed accounts and changes of kind; non-trivial: a malformed update was made or an account changed its kind",
        },
        real: vec![
            "lite-token-account-storage: TokenProgramAccountsStorage, InmemoryTokenAccountStorage, token account codecs, query filters",
            "lite-account-manager-common: filters, account data compression",
            "spl-token and spl-token-2022 layouts, dashmap, bincode, lz4, zstd",
        ],
        stubs,
        assumptions,
    }
}
