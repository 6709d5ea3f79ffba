//! Plans (explicit, serializable executions), violations and shared helpers.
use crate::sched::{RunStats, SchedCfg, Step};
use lite_account_manager_common::account_filter::{AccountFilter, AccountFilterType, MemcmpFilter, MemcmpFilterData};
use lite_account_manager_common::commitment::Commitment;
use serde::{Deserialize, Serialize};
use solana_sdk::pubkey::Pubkey;
use std::collections::BTreeMap;

pub const P: u8 = 0;
pub const C: u8 = 1;
pub const F: u8 = 2;

pub fn commitment(c: u8) -> Commitment {
    match c {
        0 => Commitment::Processed,
        1 => Commitment::Confirmed,
        _ => Commitment::Finalized,
    }
}
pub fn cname(c: u8) -> &'static str {
    ["processed", "confirmed", "finalized"][c as usize]
}

/// deterministic 32 byte address
pub fn key(kind: u8, i: u64) -> Pubkey {
    let mut b = [0u8; 32];
    for k in 0..4 {
        let v = crate::rng::mix(crate::rng::mix(i.wrapping_add((kind as u64) << 32)).wrapping_add(k as u64));
        b[k * 8..k * 8 + 8].copy_from_slice(&v.to_le_bytes());
    }
    Pubkey::new_from_array(b)
}

/// what a data filter of a query or a configuration looks like (encoded compactly)
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Fl {
    Size(u64),
    /// offset, bytes, encoding 0 bytes 1 base58 2 base64
    Cmp(u64, Vec<u8>, u8),
}
impl Fl {
    pub fn real(&self) -> AccountFilterType {
        match self {
            Fl::Size(n) => AccountFilterType::Datasize(*n),
            Fl::Cmp(o, b, e) => AccountFilterType::Memcmp(MemcmpFilter {
                offset: *o,
                data: match e {
                    0 => MemcmpFilterData::Bytes(b.clone()),
                    1 => MemcmpFilterData::Base58(b58(b)),
                    _ => MemcmpFilterData::Base64(b64(b)),
                },
            }),
        }
    }
    pub fn allows(&self, data: &[u8]) -> bool {
        match self {
            Fl::Size(n) => data.len() as u64 == *n,
            Fl::Cmp(o, b, _) => {
                let o = *o as usize;
                o <= data.len() && data.len() - o >= b.len() && data[o..o + b.len()] == b[..]
            }
        }
    }
    /// the same filter whatever its encoding
    pub fn norm(&self) -> Fl {
        match self {
            Fl::Cmp(o, b, _) => Fl::Cmp(*o, b.clone(), 0),
            x => x.clone(),
        }
    }
}
pub fn b64(b: &[u8]) -> String {
    const T: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut s = String::new();
    for c in b.chunks(3) {
        let v = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            if i <= c.len() {
                s.push(T[(v >> (18 - 6 * i)) as usize & 63] as char);
            } else {
                s.push('=');
            }
        }
    }
    s
}
pub fn b58(b: &[u8]) -> String {
    const T: &[u8] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
    let mut d: Vec<u8> = vec![];
    for x in b {
        let mut carry = *x as u32;
        for v in d.iter_mut() {
            carry += (*v as u32) << 8;
            *v = (carry % 58) as u8;
            carry /= 58;
        }
        while carry > 0 {
            d.push((carry % 58) as u8);
            carry /= 58;
        }
    }
    let mut s = String::new();
    for x in b {
        if *x == 0 {
            s.push('1');
        } else {
            break;
        }
    }
    for v in d.iter().rev() {
        s.push(T[*v as usize] as char);
    }
    s
}

/// one configured filter: pinned accounts and/or a program with optional data filters
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct FilterSpec {
    pub accs: Vec<u8>,
    pub prog: Option<u8>,
    pub fl: Option<Vec<Fl>>,
}
impl FilterSpec {
    pub fn real(&self, acc: &dyn Fn(u8) -> Pubkey, prog: &dyn Fn(u8) -> Pubkey) -> AccountFilter {
        AccountFilter {
            accounts: self.accs.iter().map(|a| acc(*a)).collect(),
            program_id: self.prog.map(|p| prog(p)),
            filters: self.fl.as_ref().map(|v| v.iter().map(|f| f.real()).collect()),
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    /// account update: account, slot, write version, lamports, owner, data pattern, compression, commitment, via init
    Upd { a: u8, s: u64, w: u64, l: u64, o: u8, d: u8, z: u8, c: u8, init: bool },
    /// slot notification
    Slot { s: u64, p: u64, c: u8 },
    Get { a: u8, c: u8 },
    Gpa { p: u8, fl: Option<Vec<Fl>>, c: u8 },
    AddFilter { f: FilterSpec },
    /// take a snapshot of program p into durable storage
    Snap { p: u8 },
    /// crash: everything in memory is lost; restart loads the durable snapshots
    Crash,
    /// load the durable snapshot of p into the running store; corrupt: how the bytes were damaged
    Load { p: u8, corrupt: Corrupt },
    /// a token account: see world_token
    TUpd { a: u8, s: u64, w: u64, k: TokKind, c: u8, init: bool },
    TGpa { q: TokQuery, c: u8 },
    /// let simulated time pass
    Sleep { ms: u64 },
    /// on-demand: set the source's behaviour from now on
    Source { fail_sub: u8, fail_snap: u8, sub_ms: u32, ms: u32 },
    /// validator snapshot: an append vec with its accounts; padded: its length includes the alignment; the file has
    /// `extra` more bytes
    SVec { s: u64, id: u64, accs: Vec<SAcc>, padded: bool, extra: u16 },
    /// validator snapshot: an irrelevant file in the archive (or directory)
    SStray { k: u8, at: u8 },
    SFault { f: SnapFault },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct SAcc {
    pub k: u8,
    pub l: u64,
    pub o: u8,
    pub n: u16,
    pub x: bool,
    pub w: u64,
    pub e: u64,
}

/// what goes wrong with a validator snapshot; positions in per mille, `v` and `a` index append vecs and accounts
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum SnapFault {
    Chunks { seed: u64 },
    Interrupted { n: u32 },
    ReadError { pm: u32 },
    Cut { pm: u32 },
    TarCut { pm: u32, block: bool },
    Flip { pm: u32, mask: u8 },
    Missing { v: u8 },
    Short { v: u8, pm: u32 },
    DataLen { v: u8, a: u8, n: u64 },
    ExecByte { v: u8, a: u8, b: u8 },
    Length { v: u8, d: i32 },
    Twice { v: u8 },
    Unknown,
    NoManifest,
    ManifestCut { pm: u32 },
    ManifestLate,
    NoStatusCache,
    OpenError { n: u32 },
    DirError { n: u32 },
    MapError { n: u32 },
    FileReadError { n: u32 },
    ConsumerError { n: u32 },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Corrupt {
    None,
    Truncate(u32),
    /// per mille position, xor mask
    Flip(u32, u8),
    /// tail lost and replaced by zeros from this per mille position
    ZeroTail(u32),
    Garbage(u64),
}
impl Corrupt {
    pub fn apply(&self, b: &[u8]) -> Vec<u8> {
        let mut v = b.to_vec();
        let at = |pm: u32| (b.len() as u64 * pm as u64 / 1000) as usize;
        match self {
            Corrupt::None => {}
            Corrupt::Truncate(pm) => v.truncate(at(*pm)),
            Corrupt::Flip(pm, m) => {
                let i = at(*pm);
                if i < v.len() {
                    v[i] ^= *m
                }
            }
            Corrupt::ZeroTail(pm) => {
                for x in v[at(*pm)..].iter_mut() {
                    *x = 0
                }
            }
            Corrupt::Garbage(seed) => {
                let mut r = crate::rng::Rng::new(*seed);
                let n = r.idx(80);
                v = (0..n).map(|_| r.next() as u8).collect();
            }
        }
        v
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum TokKind {
    /// token account: program, mint, owner, variant of the other fields
    Acc { p: u8, m: u8, o: u8, v: u8 },
    Mint { p: u8, v: u8 },
    Multi { p: u8, v: u8 },
    Closed,
    /// owned by another program
    Other { v: u8 },
    /// undecodable bytes of length n (seeded), owned by token program p
    Bad { p: u8, n: u16, v: u8 },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct TokQuery {
    pub p: u8,
    pub owner: Option<u8>,
    pub mint: Option<u8>,
    /// 0: size 165, 1: account type byte (token 2022), 2: both, 3: mints by size 82
    pub kind: u8,
    /// further byte filters
    pub extra: Vec<Fl>,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
pub struct Cfg {
    pub n_acc: u8,
    pub n_own: u8,
    pub filters: Vec<FilterSpec>,
    pub mutable: bool,
    /// world-specific switches
    pub flags: BTreeMap<String, i64>,
    /// for the end-to-end world: per account index the states on the final chain
    #[serde(default)]
    pub truth: BTreeMap<u8, Vec<(u64, u64)>>,
}
impl Cfg {
    pub fn flag(&self, k: &str) -> i64 {
        self.flags.get(k).copied().unwrap_or(0)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Plan {
    #[serde(default)]
    pub prop: String,
    pub world: String,
    pub cfg: Cfg,
    pub prelude: Vec<Op>,
    pub threads: Vec<Vec<Op>>,
    pub sched: SchedCfg,
    /// faults the generator put into this plan (kind -> count)
    #[serde(default)]
    pub faults: BTreeMap<String, u64>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Violation {
    pub prop: String,
    pub kind: String,
    pub detail: String,
}

#[derive(Default)]
pub struct RunResult {
    pub violations: Vec<Violation>,
    pub stats: RunStats,
    pub record: Vec<Step>,
    /// hashes of the states the run went through
    pub states: Vec<u64>,
    pub checks: u64,
    /// something that makes the run count as exercising the property
    pub nontrivial: bool,
    /// the process cannot start another run
    pub poisoned: bool,
    pub faults: BTreeMap<String, u64>,
    /// how often conditions of interest were met
    pub probes: BTreeMap<&'static str, u64>,
    /// digest of everything observed (for the determinism self-test)
    pub digest: u64,
}

impl RunResult {
    pub fn v(&mut self, prop: &str, kind: &str, detail: String) {
        if self.violations.len() < 200 {
            self.violations.push(Violation { prop: prop.into(), kind: kind.into(), detail });
        }
    }
    pub fn probe(&mut self, k: &'static str) {
        *self.probes.entry(k).or_insert(0) += 1;
    }
    pub fn probed(&self, k: &str) -> bool {
        self.probes.get(k).map(|x| *x > 0).unwrap_or(false)
    }
    pub fn note(&mut self, x: u64) {
        self.digest = crate::rng::mix(self.digest ^ x);
    }
}

pub fn hash_of<T: std::hash::Hash>(t: &T) -> u64 {
    // not the randomly keyed default hasher
    struct H(u64);
    impl std::hash::Hasher for H {
        fn finish(&self) -> u64 {
            crate::rng::mix(self.0)
        }
        fn write(&mut self, b: &[u8]) {
            for x in b {
                self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3).rotate_left(23);
            }
        }
    }
    let mut h = H(0xcbf29ce484222325);
    t.hash(&mut h);
    std::hash::Hasher::finish(&h)
}

pub fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

/// lamports: now and then a value that does not fit half of the type
pub fn gen_lam(r: &mut crate::rng::Rng) -> u64 {
    if r.pct(3) {
        *r.pick(&[u64::MAX, 1 << 32, (1 << 32) + 1, 1 << 63])
    } else {
        r.range(1, 1000)
    }
}
/// contents of an account, see data_of; long data is rare
pub fn gen_data(r: &mut crate::rng::Rng) -> u8 {
    match r.below(4000) {
        0 => 0x20 | r.below(8) as u8,
        1..=120 => 0x08 | r.below(8) as u8,
        _ => r.below(32) as u8 & 0x17,
    }
}
/// how many slots a history has and how long it takes until they are finalized; long ones are rare
pub fn gen_length(r: &mut crate::rng::Rng, slots: u64, lag_f: i64) -> (u64, i64) {
    let n = match r.below(400) {
        0 => r.range(150, 320),
        1..=7 => r.range(36, 90),
        _ => return (slots, lag_f),
    };
    let lag = match r.below(3) {
        0 => lag_f,
        1 => lag_f.max(n as i64 / 2),
        _ => lag_f.max(n as i64 + 2),
    };
    (n, lag)
}
/// Moves the slots and write versions of a history up and apart, keeping their order: to where the values do not fit
/// half of their type, and with long gaps.
pub struct Stretch {
    base: u64,
    wbase: u64,
    gaps: Vec<(u64, u64)>,
}
impl Stretch {
    pub fn gen(r: &mut crate::rng::Rng) -> Stretch {
        let mut s = Stretch { base: 0, wbase: 0, gaps: vec![] };
        if r.pct(40) {
            s.base = *r.pick(&[0u64, 0, 31, 250_000_000, (1 << 32) - 4, 1 << 40]);
            s.wbase = *r.pick(&[0u64, 0, (1 << 32) - 4, 1 << 41]);
            for _ in 0..r.below(3) {
                s.gaps.push((r.below(14), *r.pick(&[20, 70, 150, 600, 9_000, 432_000])));
            }
        }
        s
    }
    pub fn slot(&self, s: u64) -> u64 {
        self.base + s + self.gaps.iter().filter(|g| g.0 < s).map(|g| g.1).sum::<u64>()
    }
    pub fn apply(&self, ops: &mut [Op]) {
        for op in ops.iter_mut() {
            match op {
                Op::Upd { s, w, .. } | Op::TUpd { s, w, .. } => {
                    *s = self.slot(*s);
                    *w += self.wbase;
                }
                Op::Slot { s, p, .. } => {
                    *s = self.slot(*s);
                    *p = self.slot(*p);
                }
                _ => {}
            }
        }
    }
}
