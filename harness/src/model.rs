//! Executable reference model of the in-memory account store (one sequential call at a time).
use crate::common::*;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct St {
    pub lam: u64,
    pub own: u8,
    pub d: u8,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Ver {
    pub st: St,
    pub level: u8,
}
pub type VKey = (u64, u64); // (slot, write version)

#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Rec {
    pub vers: BTreeMap<VKey, Ver>,
}
impl Rec {
    pub fn read(&self, c: u8) -> Option<(VKey, &Ver)> {
        self.vers.iter().rev().find(|(_, v)| v.level >= c).map(|(k, v)| (*k, v))
    }
    /// forget what can never be read again: all but the newest write of each slot and the confirmed and
    /// finalized versions; `gone`: also the writes of these slots
    fn prune(&mut self, gone: &BTreeSet<u64>) {
        let keep = [self.read(C).map(|x| x.0), self.read(F).map(|x| x.0)];
        let mut newest: BTreeMap<u64, u64> = BTreeMap::new();
        for k in self.vers.keys() {
            newest.insert(k.0, k.1);
        }
        self.vers.retain(|k, _| keep.contains(&Some(*k)) || (newest[&k.0] == k.1 && !gone.contains(&k.0)));
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct SlotSt {
    pub level: u8,
    pub parent: Option<u64>,
    /// accounts with updates below finalized in this slot, known to the slot's status
    pub accs: BTreeSet<u8>,
}

/// what the filters cover, evaluated independently of the code under test
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Filters {
    pub pinned: BTreeSet<u8>,
    /// program -> None: everything; Some: list of alternatives
    pub progs: BTreeMap<u8, Option<Vec<Vec<Fl>>>>,
    /// everything but what the filters cover is admitted
    pub except: bool,
}
impl Filters {
    pub fn add(&mut self, f: &FilterSpec) {
        self.pinned.extend(f.accs.iter().copied());
        if let Some(p) = f.prog {
            match &f.fl {
                None => {
                    self.progs.insert(p, None);
                }
                Some(fl) => {
                    if let Some(v) = self.progs.entry(p).or_insert_with(|| Some(vec![])) {
                        v.push(fl.clone());
                    }
                }
            }
        }
    }
    pub fn sat(&self, a: u8, st: &St, data: &[u8]) -> bool {
        self.matches(a, st, data) != self.except
    }
    fn matches(&self, a: u8, st: &St, data: &[u8]) -> bool {
        if self.pinned.contains(&a) {
            return true;
        }
        match self.progs.get(&st.own) {
            None => false,
            Some(None) => true,
            Some(Some(alts)) => alts.iter().any(|fl| fl.iter().all(|f| f.allows(data))),
        }
    }
    /// whether every account the query can match is admitted (semantically)
    pub fn covers(&self, p: u8, q: &Option<Vec<Fl>>) -> bool {
        let q: Vec<&Fl> = q.iter().flatten().collect();
        match (self.progs.get(&p), self.except) {
            (None, e) => e,
            (Some(None), e) => !e || contradictory(&q),
            (Some(Some(alts)), false) => contradictory(&q) || alts.iter().any(|s| s.iter().all(|f| implied(f, &q))),
            (Some(Some(alts)), true) => alts.iter().all(|s| contradictory(&q.iter().copied().chain(s.iter()).collect::<Vec<_>>())),
        }
    }
    /// queries that have to be answered: the whole program is covered or the query repeats a configured filter,
    /// in whatever order and encoding, perhaps narrowed by more filters
    pub fn must_cover(&self, p: u8, q: &Option<Vec<Fl>>) -> bool {
        match (self.progs.get(&p), self.except) {
            (None, e) => e,
            (Some(None), e) => !e,
            (Some(_), true) => false,
            (Some(Some(alts)), false) => {
                let q: BTreeSet<Fl> = q.iter().flatten().map(|f| f.norm()).collect();
                alts.iter().any(|s| s.iter().all(|f| q.contains(&f.norm())))
            }
        }
    }
}

/// bytes and size the filters demand together; None: no data can satisfy them all
fn demanded(q: &[&Fl]) -> Option<(BTreeMap<u64, u8>, Option<u64>, u64)> {
    let (mut bytes, mut size, mut min) = (BTreeMap::new(), None, 0);
    for f in q {
        match f {
            Fl::Size(n) => {
                if size.is_some_and(|x| x != *n) {
                    return None;
                }
                size = Some(*n);
            }
            Fl::Cmp(o, b, _) => {
                min = min.max(o.checked_add(b.len() as u64)?);
                for (i, x) in b.iter().enumerate() {
                    if bytes.insert(o + i as u64, *x).is_some_and(|y| y != *x) {
                        return None;
                    }
                }
            }
        }
    }
    if size.is_some_and(|n| n < min) {
        return None;
    }
    Some((bytes, size, min))
}
fn contradictory(q: &[&Fl]) -> bool {
    demanded(q).is_none()
}
/// whether all data that satisfies the query satisfies the filter
fn implied(f: &Fl, q: &[&Fl]) -> bool {
    let Some((bytes, size, min)) = demanded(q) else { return true };
    match f {
        Fl::Size(n) => size == Some(*n),
        Fl::Cmp(o, b, _) => {
            o.checked_add(b.len() as u64).is_some_and(|n| size.unwrap_or(min) >= n) && b.iter().enumerate().all(|(i, x)| bytes.get(&(o + i as u64)) == Some(x))
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Model {
    pub accs: BTreeMap<u8, Rec>,
    pub slots: BTreeMap<u64, SlotSt>,
    pub filters: Filters,
    /// the last finalization dropped states of abandoned slots
    pub abandoned_last: bool,
    /// how often each account left: what it did before does not concern the account that comes back
    pub lives: BTreeMap<u8, u32>,
}

pub fn data_of(d: u8, w: u64) -> Vec<u8> {
    // byte 0: class 0..3, byte 1: sub class 0..1, then the version, length 12 or 20 (or empty)
    if d == 255 {
        return vec![];
    }
    let n = match d & 0x38 {
        0 => 12,
        0x10 => 20,
        0x08 => [200, 1023, 4096, 10_241, 70_000, 65_536, 165, 300][d as usize & 7],
        _ => 1 << 20,
    };
    let mut v = vec![0u8; n];
    // incompressible, so that what a size limit cuts off shows
    if n > 20 {
        let mut x = w;
        for b in v[10..].chunks_mut(8) {
            x = crate::rng::mix(x);
            b.copy_from_slice(&x.to_le_bytes()[..b.len()]);
        }
    }
    v[0] = d & 3;
    v[1] = (d >> 2) & 1;
    v[2..10].copy_from_slice(&w.to_le_bytes());
    v
}

/// the pattern of some data
pub fn pattern_of(data: &[u8], w: u64) -> Option<u8> {
    let tail = match data.len() {
        0 => return Some(255),
        12 => 0,
        20 => 0x10,
        x if x == 1 << 20 => 0x20,
        _ => 0x08,
    };
    (0..8).map(|d| d | tail).find(|d| data_of(*d, w) == data)
}

/// what a slot notification has still to do with the accounts
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Work {
    pub c: u8,
    /// slots that reached the commitment, with the accounts registered in them
    pub raised: BTreeMap<u64, BTreeSet<u8>>,
    /// per account the abandoned slots it has unfinalized updates in
    pub gone: BTreeMap<u8, BTreeSet<u64>>,
    /// the lives of the accounts it speaks of
    pub lives: BTreeMap<u8, u32>,
}

#[derive(Debug, Clone, PartialEq)]
pub enum UpdOut {
    Rejected,
    /// accepted; inherited: its slot's commitment raised it above the delivered one
    Accepted { new_version: bool, inherited: bool, evicted: bool, existed: bool },
}

impl Model {
    fn sat(&self, a: u8, k: VKey, st: &St) -> bool {
        self.filters.sat(a, st, &data_of(st.d, k.1))
    }

    fn left(&mut self, a: u8) {
        for s in self.slots.values_mut() {
            s.accs.remove(&a);
        }
        *self.lives.entry(a).or_default() += 1;
    }

    /// removes the account if its finalized state is irrelevant and nothing newer and relevant is pending
    fn maybe_evict(&mut self, a: u8) -> bool {
        let Some(r) = self.accs.get(&a) else { return false };
        let Some((k, v)) = r.read(F) else { return false };
        if v.st.lam != 0 && self.sat(a, k, &v.st) {
            return false;
        }
        let pending = r.vers.range((std::ops::Bound::Excluded(k), std::ops::Bound::Unbounded)).any(|(k, v)| v.st.lam != 0 && self.sat(a, *k, &v.st));
        if !pending {
            self.accs.remove(&a);
            self.left(a);
            return true;
        }
        false
    }

    pub fn update(&mut self, a: u8, k: VKey, st: St, c: u8) -> UpdOut {
        let existed = self.accs.contains_key(&a);
        if !existed && !self.sat(a, k, &st) {
            return UpdOut::Rejected;
        }
        let sl = self.slots.get(&k.0).map(|s| s.level).unwrap_or(P);
        // nothing is known of the account and it does not exist any more
        if !existed && st.lam == 0 && c.max(sl) == F {
            return UpdOut::Rejected;
        }
        let slot = self.slots.entry(k.0).or_default();
        if c < F {
            slot.accs.insert(a);
        }
        let level = c.max(sl);
        let rec = self.accs.entry(a).or_default();
        let before = rec.read(F).map(|x| x.0);
        let mut new_version = false;
        match rec.vers.get_mut(&k) {
            Some(v) => v.level = v.level.max(level),
            None => {
                rec.vers.insert(k, Ver { st, level });
                new_version = true;
            }
        }
        rec.prune(&BTreeSet::new());
        let after = rec.read(F).map(|x| x.0);
        if existed && level == F && before != after {
            // what is older than a finalized state is forgotten
            rec.vers.retain(|x, _| x.0 >= k.0);
        }
        let evicted = existed && before != after && self.maybe_evict(a);
        UpdOut::Accepted { new_version, inherited: sl > c, evicted, existed }
    }

    /// returns the accounts whose visible version at `c` changed: (account, version key, state)
    pub fn slot(&mut self, slot: u64, parent: u64, c: u8) -> Vec<(u8, VKey, St)> {
        let w = self.slot_status(slot, parent, c);
        self.slot_apply(&w)
    }

    /// first half of a notification: the slots take their commitment
    pub fn slot_status(&mut self, slot: u64, parent: u64, c: u8) -> Work {
        let mut work = Work { c, raised: BTreeMap::new(), gone: BTreeMap::new(), lives: self.lives.clone() };
        let mut chain = vec![];
        let mut lowest = slot;
        let mut cur = Some((slot, Some(parent)));
        while let Some((s, hint)) = cur {
            cur = None;
            let first = hint.is_some();
            let st = self.slots.entry(s).or_default();
            let learned = first && st.parent != hint;
            if first {
                st.parent = hint;
            }
            if c == P {
                break;
            }
            chain.push(s);
            let done = st.level >= c;
            if !done {
                st.level = c;
                work.raised.insert(s, st.accs.clone());
            }
            if let Some(p) = st.parent {
                lowest = lowest.min(p);
                if (!done || learned) && p < s {
                    cur = Some((p, None));
                }
            }
            lowest = lowest.min(s);
        }
        if c == F {
            let old: Vec<u64> = self.slots.range(..slot).map(|(s, _)| *s).collect();
            for s in old {
                let st = self.slots.remove(&s).unwrap();
                if st.level == P && s > lowest && !chain.contains(&s) {
                    for a in st.accs {
                        work.gone.entry(a).or_default().insert(s);
                    }
                }
            }
        }
        work
    }

    /// second half: the accounts follow
    pub fn slot_apply(&mut self, w: &Work) -> Vec<(u8, VKey, St)> {
        let c = w.c;
        self.abandoned_last = false;
        let before: BTreeMap<u8, Option<VKey>> = self.accs.iter().map(|(a, r)| (*a, r.read(c).map(|x| x.0))).collect();
        for (a, r) in self.accs.iter_mut() {
            if self.lives.get(a) != w.lives.get(a) {
                continue;
            }
            for (k, v) in r.vers.iter_mut() {
                if w.raised.get(&k.0).map(|x| x.contains(a)).unwrap_or(false) {
                    v.level = v.level.max(c);
                }
            }
            r.prune(&BTreeSet::new());
        }
        let mut out = vec![];
        if c >= C {
            for (a, r) in &self.accs {
                if let Some((k, v)) = r.read(c) {
                    if before[a] != Some(k) {
                        out.push((*a, k, v.st.clone()));
                    }
                }
            }
        }
        if c == F {
            let mut touched: BTreeSet<u8> = out.iter().map(|x| x.0).collect();
            if !w.gone.is_empty() {
                for (a, r) in self.accs.iter_mut() {
                    if self.lives.get(a) != w.lives.get(a) {
                        continue;
                    }
                    let Some(gone) = w.gone.get(a) else { continue };
                    let n = r.vers.len();
                    r.prune(gone);
                    if r.vers.len() != n {
                        self.abandoned_last = true;
                        touched.insert(*a);
                    }
                }
                let empty: Vec<u8> = self.accs.iter().filter(|(_, r)| r.vers.is_empty()).map(|(a, _)| *a).collect();
                for a in empty {
                    self.accs.remove(&a);
                    self.left(a);
                }
            }
            // what is older than a finalized slot with an update is forgotten
            for (a, r) in self.accs.iter_mut() {
                if self.lives.get(a) != w.lives.get(a) {
                    continue;
                }
                if let Some(s) = w.raised.iter().rev().find(|x| x.1.contains(a)).map(|x| *x.0) {
                    let keep = [r.read(C).map(|x| x.0), r.read(F).map(|x| x.0)];
                    let newest = r.vers.keys().next_back().copied();
                    r.vers.retain(|k, _| k.0 >= s || keep.contains(&Some(*k)) || Some(*k) == newest);
                }
            }
            for a in touched {
                self.maybe_evict(a);
            }
        }
        out
    }

    /// visible live state
    pub fn get(&self, a: u8, c: u8) -> Option<(VKey, St)> {
        let (k, v) = self.accs.get(&a)?.read(c)?;
        (v.st.lam != 0).then(|| (k, v.st.clone()))
    }
    pub fn version(&self, a: u8, c: u8) -> Option<VKey> {
        Some(self.accs.get(&a)?.read(c)?.0)
    }
}
