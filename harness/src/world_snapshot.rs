//! The validator snapshot loader over a simulated disk: archives that are read in pieces, cut, damaged or incomplete,
//! and unpacked directories on which calls fail.
use crate::common::*;
use crate::hooks::disk;
use crate::rng::{mix, Rng};
use crate::sched::*;
use lite_account_snapshot_under_test::snapshot_utils::{
    append_vec::AppendVec,
    append_vec_iter,
    archived::ArchiveSnapshotExtractor,
    parallel::{par_iter_append_vecs, AppendVecConsumer},
    unpacked::UnpackedSnapshotExtractor,
    ReadProgressTracking, SnapshotExtractor, SnapshotResult,
};
use solana_sdk::{account::ReadableAccount, hash::Hash, pubkey::Pubkey};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::io::Read;
use std::path::Path;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

/// slot, key, write version, lamports, rent epoch, owner, executable, data
type Got = (u64, Pubkey, u64, u64, u64, Pubkey, bool, Vec<u8>);

fn key(k: u8) -> Pubkey {
    Pubkey::new_from_array([k.wrapping_add(1); 32])
}
fn owner(o: u8) -> Pubkey {
    Pubkey::new_from_array([o | 0x80; 32])
}
fn data(a: &SAcc) -> Vec<u8> {
    (0..a.n).map(|i| mix(a.w ^ (i as u64) << 32 ^ a.k as u64) as u8).collect()
}

/// the bytes of an append vec, and how many of them are used
fn vec_bytes(accs: &[SAcc], padded: bool) -> (Vec<u8>, usize) {
    let mut b = vec![];
    let mut used = 0;
    for a in accs {
        b.extend(a.w.to_le_bytes());
        b.extend((a.n as u64).to_le_bytes());
        b.extend(key(a.k).to_bytes());
        b.extend(a.l.to_le_bytes());
        b.extend(a.e.to_le_bytes());
        b.extend(owner(a.o).to_bytes());
        b.push(a.x as u8);
        b.extend([0u8; 7]);
        b.extend([7u8; 32]);
        b.extend(data(a));
        used = b.len();
        while b.len() % 8 != 0 {
            b.push(0);
        }
    }
    let n = if padded { b.len() } else { used };
    b.truncate(n);
    (b, n)
}

/// what the first `len` bytes of an append vec hold; None: they are not a sequence of whole accounts
fn parse(b: &[u8], len: usize, slot: u64) -> Option<Vec<Got>> {
    let b = b.get(..len)?;
    let u = |i: usize| u64::from_le_bytes(b[i..i + 8].try_into().unwrap());
    let pk = |i: usize| Pubkey::new_from_array(b[i..i + 32].try_into().unwrap());
    let mut i = 0;
    let mut out = vec![];
    while i < len {
        if i + 136 > len || u(i + 8) > (len - i - 136) as u64 || b[i + 96] > 1 {
            return None;
        }
        let n = u(i + 8) as usize;
        out.push((slot, pk(i + 16), u(i), u(i + 48), u(i + 56), pk(i + 64), b[i + 96] != 0, b[i + 136..i + 136 + n].to_vec()));
        i += (136 + n + 7) / 8 * 8;
    }
    Some(out)
}

fn tar_entry(out: &mut Vec<u8>, name: &str, content: &[u8]) {
    let mut h = [0u8; 512];
    h[..name.len()].copy_from_slice(name.as_bytes());
    h[100..108].copy_from_slice(b"0000644\0");
    h[124..136].copy_from_slice(format!("{:011o}\0", content.len()).as_bytes());
    h[136..148].copy_from_slice(b"00000000000\0");
    h[148..156].copy_from_slice(b"        ");
    h[156] = if name.ends_with('/') { b'5' } else { b'0' };
    h[257..265].copy_from_slice(b"ustar\x0000");
    let sum: u64 = h.iter().map(|x| *x as u64).sum();
    h[148..156].copy_from_slice(format!("{sum:06o}\0 ").as_bytes());
    out.extend(h);
    out.extend(content);
    while out.len() % 512 != 0 {
        out.push(0);
    }
}

fn stray_name(k: u8) -> &'static str {
    match k % 8 {
        0 => "version",
        1 => "snapshots/status_cache",
        2 => "accounts/",
        3 => "accounts/abc.def",
        4 => "accounts/7",
        5 => "snapshots/foo/foo",
        6 => "snapshots/5/",
        _ => "accounts/5.5.5",
    }
}

const SLOT: u64 = 90;

/// the manifest: bank fields, then the append vecs by slot with their lengths
fn manifest(vecs: &BTreeMap<u64, Vec<(usize, usize)>>) -> Vec<u8> {
    use solana_accounts_db::{accounts_db::BankHashStats, blockhash_queue::BlockhashQueue, rent_collector::RentCollector};
    use solana_runtime::{epoch_stakes::EpochStakes, stakes::Stakes};
    use solana_sdk::stake::state::Delegation;
    let h = Hash::default();
    let bank1 = (
        BlockhashQueue { max_age: 300, last_hash: Some(h), ..Default::default() },
        BTreeMap::from([(SLOT - 1, 1usize)]),
        h,
        h,
        SLOT - 1,
        solana_sdk::hard_forks::HardForks::default(),
        (11u64, 12u64, 13u64, 14u64, 15u64, Some(16u64), 64u64, 400_000_000u128),
        1_600_000_000i64,
        78_892_314.9f64,
        1234u64,
        SLOT,
    );
    let bank2 = (
        3u64,
        SLOT,
        key(200),
        5u64,
        solana_sdk::fee_calculator::FeeCalculator::default(),
        solana_sdk::fee_calculator::FeeRateGovernor::default(),
        6u64,
        RentCollector::default(),
        solana_sdk::epoch_schedule::EpochSchedule::default(),
        solana_sdk::inflation::Inflation::default(),
        Stakes::<Delegation>::default(),
    );
    let bank3 = (
        (HashSet::<Pubkey>::new(), HashSet::<Pubkey>::new(), HashMap::<Pubkey, u64>::new()),
        BTreeMap::from([(3u64, EpochStakes::default())]),
        false,
    );
    let fields = (vecs, 77u64, SLOT, (h, h, BankHashStats::default()), vec![SLOT - 1, SLOT], vec![(SLOT - 1, h)]);
    bincode::serialize(&(bank1, bank2, bank3, fields)).unwrap()
}

/// reads from memory in pieces, with errors
struct Disk {
    data: Vec<u8>,
    at: usize,
    chunks: Option<Rng>,
    interrupts: Vec<u32>,
    fail: Option<usize>,
    calls: u32,
    hits: Arc<Mutex<BTreeMap<&'static str, u64>>>,
}
impl Disk {
    fn hit(&self, k: &'static str) {
        *self.hits.lock().unwrap().entry(k).or_insert(0) += 1;
    }
}
impl Read for Disk {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.calls += 1;
        if self.interrupts.contains(&self.calls) {
            self.hit("interrupted_read");
            return Err(std::io::Error::from(std::io::ErrorKind::Interrupted));
        }
        let mut n = b.len().min(self.data.len() - self.at);
        if let Some(r) = &mut self.chunks {
            let m = *r.pick(&[1u64, 7, 100, 5000]);
            let k = r.range(1, m) as usize;
            if k < n {
                n = k;
                self.hit("short_read");
            }
        }
        if let Some(f) = self.fail {
            if self.at >= f {
                self.hit("read_error");
                return Err(std::io::Error::from_raw_os_error(libc::EIO));
            }
            n = n.min(f - self.at);
        }
        b[..n].copy_from_slice(&self.data[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}

struct NoTracking;
impl ReadProgressTracking for NoTracking {
    fn new_read_progress_tracker(&self, _: &Path, rd: Box<dyn Read>, _: u64) -> SnapshotResult<Box<dyn Read>> {
        Ok(rd)
    }
}

// ---------------------------------------------------------------- generation

fn gen_fault(r: &mut Rng, unpacked: bool, n: u64) -> SnapFault {
    let pm = r.below(1001) as u32;
    let v = r.below(n.max(1)) as u8;
    let a = r.below(4) as u8;
    if unpacked {
        match r.below(13) {
            0 => SnapFault::Missing { v },
            1 => SnapFault::Short { v, pm },
            2 => SnapFault::DataLen { v, a, n: *r.pick(&[1, 8, 136, 1000, u64::MAX, u64::MAX - 130, 1 << 40]) },
            3 => SnapFault::ExecByte { v, a, b: r.range(2, 255) as u8 },
            4 => SnapFault::Length { v, d: *r.pick(&[-400, -136, -9, -1, 1, 8, 136, 5000, 1 << 30]) },
            5 => SnapFault::Unknown,
            6 => SnapFault::NoManifest,
            7 => SnapFault::ManifestCut { pm },
            8 => SnapFault::NoStatusCache,
            9 => SnapFault::OpenError { n: r.below(n + 2) as u32 },
            10 => SnapFault::DirError { n: r.below(n + 8) as u32 },
            11 => SnapFault::MapError { n: r.below(n + 1) as u32 },
            _ => SnapFault::FileReadError { n: r.below(3) as u32 },
        }
    } else {
        match r.below(16) {
            0 => SnapFault::Interrupted { n: r.range(1, 40) as u32 },
            1 => SnapFault::ReadError { pm },
            2 => SnapFault::Cut { pm },
            3 | 4 => SnapFault::TarCut { pm, block: r.pct(60) },
            5 => SnapFault::Flip { pm, mask: 1 << r.below(8) },
            6 => SnapFault::Missing { v },
            7 => SnapFault::Short { v, pm },
            8 => SnapFault::DataLen { v, a, n: *r.pick(&[1, 8, 136, 1000, u64::MAX, u64::MAX - 130, 1 << 40]) },
            9 => SnapFault::ExecByte { v, a, b: r.range(2, 255) as u8 },
            10 => SnapFault::Length { v, d: *r.pick(&[-400, -136, -9, -1, 1, 8, 136, 5000, 1 << 30]) },
            11 => SnapFault::Twice { v },
            12 => SnapFault::Unknown,
            13 => SnapFault::NoManifest,
            14 => SnapFault::ManifestCut { pm },
            _ => SnapFault::ManifestLate,
        }
    }
}

fn fault_name(f: &SnapFault) -> &'static str {
    match f {
        SnapFault::Chunks { .. } => "short_reads",
        SnapFault::Interrupted { .. } => "interrupted_read",
        SnapFault::ReadError { .. } => "read_error",
        SnapFault::Cut { .. } => "archive_truncated",
        SnapFault::TarCut { .. } => "tar_truncated",
        SnapFault::Flip { .. } => "bit_flip",
        SnapFault::Missing { .. } => "append_vec_lost",
        SnapFault::Short { .. } => "append_vec_torn",
        SnapFault::DataLen { .. } => "account_length_corrupt",
        SnapFault::ExecByte { .. } => "executable_flag_corrupt",
        SnapFault::Length { .. } => "manifest_length_wrong",
        SnapFault::Twice { .. } => "append_vec_twice",
        SnapFault::Unknown => "unknown_append_vec",
        SnapFault::NoManifest => "manifest_lost",
        SnapFault::ManifestCut { .. } => "manifest_truncated",
        SnapFault::ManifestLate => "manifest_after_append_vecs",
        SnapFault::NoStatusCache => "status_cache_lost",
        SnapFault::OpenError { .. } => "open_error",
        SnapFault::DirError { .. } => "directory_read_error",
        SnapFault::MapError { .. } => "mmap_error",
        SnapFault::FileReadError { .. } => "file_read_error",
        SnapFault::ConsumerError { .. } => "consumer_error",
    }
}

pub fn gen(_prop: &str, seed: u64, tier: u8) -> Plan {
    let mut r = Rng::new(seed);
    let r = &mut r;
    let unpacked = r.pct(25);
    let par = if r.pct(25) { r.range(1, 4) as i64 } else { 0 };
    let mut ops = vec![];
    let mut ids = BTreeSet::new();
    let mut w = 0;
    let n_vec = r.range(0, if tier > 0 { 10 } else { 6 });
    for _ in 0..n_vec {
        // several append vecs of one slot are possible
        let s = r.range(80, SLOT);
        let id = r.range(1, 12);
        if !ids.insert((s, id)) {
            continue;
        }
        let least = if r.pct(10) { 0 } else { 1 };
        let accs = (0..r.range(least, 6))
            .map(|_| {
                w += 1;
                SAcc {
                    k: r.below(6) as u8,
                    l: if r.pct(10) { 0 } else { r.range(1, 1000) },
                    o: r.below(3) as u8,
                    n: *r.pick(&[0, 1, 7, 8, 9, 82, 165, 500, 4000, 9000]),
                    x: r.pct(20),
                    w,
                    e: r.below(500),
                }
            })
            .collect::<Vec<_>>();
        let extra = if accs.is_empty() && unpacked { 16 } else { *r.pick(&[0, 0, 1, 511, 512, 4096]) };
        ops.push(Op::SVec { s, id, accs, padded: r.pct(40), extra });
    }
    let n = ids.len() as u64;
    for _ in 0..r.below(4) {
        ops.push(Op::SStray { k: r.below(8) as u8, at: r.below(n + 2) as u8 });
    }
    let mut faults = BTreeMap::new();
    if !unpacked && r.pct(60) {
        ops.push(Op::SFault { f: SnapFault::Chunks { seed: r.next() } });
    }
    if r.pct(70) {
        for _ in 0..(if r.pct(80) { 1 } else { 2 }) {
            ops.push(Op::SFault { f: gen_fault(r, unpacked, n) });
        }
    }
    if par > 0 && r.pct(15) {
        ops.push(Op::SFault { f: SnapFault::ConsumerError { n: r.below(n + 1) as u32 } });
    }
    for o in &ops {
        if let Op::SFault { f } = o {
            *faults.entry(fault_name(f).to_string()).or_insert(0) += 1;
        }
    }
    Plan {
        prop: String::new(),
        world: "snapshot".into(),
        cfg: Cfg {
            flags: BTreeMap::from([("unpacked".to_string(), unpacked as i64), ("par".to_string(), par)]),
            ..Default::default()
        },
        prelude: vec![],
        threads: vec![ops],
        sched: SchedCfg { seed: r.next(), policy: Policy::Serial, tick_pm: 0, spurious_pm: 0, max_steps: 60_000_000 },
        faults,
    }
}

// ---------------------------------------------------------------- execution

struct VecSpec {
    slot: u64,
    id: u64,
    /// what is in the archive, None: lost
    file: Option<Vec<u8>>,
    len: usize,
}

fn read_vec(v: &AppendVec, res: &mut RunResult) -> Vec<Got> {
    let mut out = vec![];
    for (i, h) in append_vec_iter(v).enumerate() {
        if i > 100_000 {
            res.v("C27", "endless", "an append vec does not end".into());
            break;
        }
        let Some(x) = h.access() else {
            res.v("C27", "access", "an account that was announced cannot be accessed".into());
            continue;
        };
        let c = x.clone_account();
        if c.lamports() != x.account_meta.lamports || c.owner() != &x.account_meta.owner || c.data() != x.data
            || c.executable() != x.account_meta.executable || c.rent_epoch() != x.account_meta.rent_epoch
        {
            res.v("C27", "clone", format!("the copy of account {} differs from what is stored", x.meta.pubkey));
        }
        out.push((
            v.slot(),
            x.meta.pubkey,
            x.meta.write_version_obsolete,
            x.account_meta.lamports,
            x.account_meta.rent_epoch,
            x.account_meta.owner,
            x.account_meta.executable,
            x.data.to_vec(),
        ));
    }
    out
}

struct Consumer {
    rng: Rng,
    got: Arc<Mutex<Vec<Vec<Got>>>>,
    found: Arc<Mutex<RunResult>>,
    fail: Option<u64>,
    seen: Arc<AtomicU64>,
}
#[async_trait::async_trait]
impl AppendVecConsumer for Consumer {
    async fn on_append_vec(&mut self, v: AppendVec) -> anyhow::Result<()> {
        let k = self.seen.fetch_add(1, SeqCst);
        for _ in 0..self.rng.below(4) {
            tokio::task::yield_now().await;
        }
        if self.fail == Some(k) {
            anyhow::bail!("consumer failed");
        }
        let g = read_vec(&v, &mut self.found.lock().unwrap());
        for _ in 0..self.rng.below(3) {
            tokio::task::yield_now().await;
        }
        self.got.lock().unwrap().push(g);
        Ok(())
    }
}


struct Outcome {
    vecs: Vec<Vec<Got>>,
    errors: Vec<String>,
    consumer_failed: bool,
}

fn deliver<X: SnapshotExtractor>(x: &mut X, par: i64, fail: Option<u64>, seed: u64, limit: usize, res: &mut RunResult) -> Outcome {
    let mut o = Outcome { vecs: vec![], errors: vec![], consumer_failed: false };
    if par == 0 {
        for v in x.iter() {
            match v {
                Ok(v) => o.vecs.push(read_vec(&v, res)),
                Err(e) => o.errors.push(e.to_string()),
            }
            if o.vecs.len() + o.errors.len() > limit {
                res.v("C27", "endless", "the snapshot does not end".into());
                break;
            }
        }
        return o;
    }
    let got = Arc::new(Mutex::new(vec![]));
    let found = Arc::new(Mutex::new(RunResult::default()));
    let seen = Arc::new(AtomicU64::new(0));
    let made = AtomicU64::new(0);
    let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
    let r = rt.block_on(par_iter_append_vecs(
        x.iter(),
        || {
            let k = made.fetch_add(1, SeqCst);
            Consumer { rng: Rng::new(seed ^ mix(k)), got: got.clone(), found: found.clone(), fail, seen: seen.clone() }
        },
        par as usize,
    ));
    drop(rt);
    o.vecs = std::mem::take(&mut *got.lock().unwrap());
    if let Err(e) = r {
        o.errors.push(e.to_string());
    }
    o.consumer_failed = fail.is_some_and(|k| k < seen.load(SeqCst));
    if made.load(SeqCst) > par as u64 {
        res.v("C27", "consumers", format!("{} consumers were created, {par} are allowed", made.load(SeqCst)));
    }
    if o.vecs.len() > 1 {
        res.probe("append_vecs_consumed_in_parallel");
    }
    res.violations.extend(std::mem::take(&mut found.lock().unwrap().violations));
    o
}

fn scratch() -> String {
    format!("/dev/shm/lamsnap-{}", std::process::id())
}

fn run(cfg: &Cfg, ops: &[Op], seed: u64, res: &mut RunResult) {
    let faults: Vec<&SnapFault> = ops.iter().filter_map(|o| if let Op::SFault { f } = o { Some(f) } else { None }).collect();
    let mut vecs: Vec<VecSpec> = vec![];
    for o in ops {
        if let Op::SVec { s, id, accs, padded, extra } = o {
            let (mut b, len) = vec_bytes(accs, *padded);
            b.resize(b.len() + *extra as usize, 0);
            vecs.push(VecSpec { slot: *s, id: *id, file: Some(b), len });
        }
    }
    let n = vecs.len();
    let unpacked = cfg.flag("unpacked") != 0;
    // damage done to the files and the manifest's lengths
    let mut manifest_bytes = None;
    let mut flipped = false;
    let mut order: Vec<usize> = (0..n).collect();
    let offset = |b: &[u8], a: u8| {
        let mut i = 0usize;
        for _ in 0..a {
            let next = b.get(i + 8..i + 16).map(|x| u64::from_le_bytes(x.try_into().unwrap()));
            match next.and_then(|d| i.checked_add(136 + (d.min(1 << 40) as usize + 7) / 8 * 8)) {
                Some(k) if k + 136 <= b.len() => i = k,
                _ => break,
            }
        }
        (i + 136 <= b.len()).then_some(i)
    };
    for f in &faults {
        match f {
            SnapFault::Missing { v } if n > 0 => vecs[*v as usize % n].file = None,
            SnapFault::Short { v, pm } if n > 0 => {
                if let Some(b) = &mut vecs[*v as usize % n].file {
                    b.truncate(b.len() * *pm as usize / 1000);
                }
            }
            SnapFault::DataLen { v, a, n: l } if n > 0 => {
                if let Some(b) = &mut vecs[*v as usize % n].file {
                    if let Some(i) = offset(b, *a) {
                        b[i + 8..i + 16].copy_from_slice(&l.to_le_bytes());
                    }
                }
            }
            SnapFault::ExecByte { v, a, b: x } if n > 0 => {
                if let Some(b) = &mut vecs[*v as usize % n].file {
                    if let Some(i) = offset(b, *a) {
                        b[i + 96] = *x;
                    }
                }
            }
            SnapFault::Length { v, d } if n > 0 => {
                let l = &mut vecs[*v as usize % n].len;
                *l = (*l as i64 + *d as i64).max(0) as usize;
            }
            SnapFault::Twice { v } if n > 0 => order.push(*v as usize % n),
            _ => {}
        }
    }
    let has = |k: &str| faults.iter().any(|f| fault_name(f) == k);
    let mut by_slot: BTreeMap<u64, Vec<(usize, usize)>> = BTreeMap::new();
    for v in &vecs {
        by_slot.entry(v.slot).or_default().push((v.id as usize, v.len));
    }
    if !has("manifest_lost") {
        let mut m = manifest(&by_slot);
        for f in &faults {
            if let SnapFault::ManifestCut { pm } = f {
                m.truncate(m.len() * *pm as usize / 1000);
            }
        }
        manifest_bytes = Some(m);
    }
    // what an intact reading gives
    let mut want: Option<Vec<Vec<Got>>> = Some(vec![]);
    let mut possible: BTreeSet<Got> = BTreeSet::new();
    for v in &vecs {
        match v.file.as_ref().and_then(|b| parse(b, v.len, v.slot)) {
            Some(l) => {
                possible.extend(l.iter().cloned());
                if let Some(w) = &mut want {
                    w.push(l);
                }
            }
            None => {
                want = None;
                // the leading whole accounts of a damaged file are still stored accounts
                if let Some(b) = &v.file {
                    for k in (0..=v.len.min(b.len())).rev() {
                        if let Some(l) = parse(b, k, v.slot) {
                            possible.extend(l);
                            break;
                        }
                    }
                }
            }
        }
    }
    let strays: Vec<(u8, u8)> = ops.iter().filter_map(|o| if let Op::SStray { k, at } = o { Some((*k, *at)) } else { None }).collect();
    let fail = faults.iter().find_map(|f| if let SnapFault::ConsumerError { n } = f { Some(*n as u64) } else { None });
    let unknown = vec_bytes(&[SAcc { k: 77, l: 5, o: 1, n: 30, x: false, w: 9999, e: 0 }], false).0;
    let par = cfg.flag("par");
    let limit = 2 * n + strays.len() + 10;
    let mut out = Outcome { vecs: vec![], errors: vec![], consumer_failed: false };
    if unpacked {
        let root = scratch();
        let _ = std::fs::remove_dir_all(&root);
        let w = |name: &str, b: &[u8]| {
            let p = format!("{root}/{name}");
            std::fs::create_dir_all(Path::new(&p).parent().unwrap()).unwrap();
            if name.ends_with('/') {
                std::fs::create_dir_all(&p).unwrap();
            } else {
                std::fs::write(&p, b).unwrap();
            }
        };
        w("accounts/", &[]);
        w("snapshots/", &[]);
        if !has("status_cache_lost") {
            w("snapshots/status_cache", &[1, 2, 3]);
        }
        for (k, _) in &strays {
            // another numbered directory below snapshots would be a second snapshot
            if *k % 8 != 1 && *k % 8 != 6 {
                w(stray_name(*k), b"stray");
            }
        }
        if let Some(m) = &manifest_bytes {
            w(&format!("snapshots/{SLOT}/{SLOT}"), m);
        }
        for v in &vecs {
            if let Some(b) = &v.file {
                w(&format!("accounts/{}.{}", v.slot, v.id), b);
            }
        }
        if has("unknown_append_vec") {
            w("accounts/99.77", &unknown);
        }
        disk::HIT.store(0, SeqCst);
        for f in &faults {
            match f {
                SnapFault::OpenError { n } => disk::OPEN.store(*n as i64, SeqCst),
                SnapFault::DirError { n } => disk::DIR.store(*n as i64, SeqCst),
                SnapFault::MapError { n } => disk::MAP.store(*n as i64, SeqCst),
                SnapFault::FileReadError { n } => disk::READ.store(*n as i64, SeqCst),
                _ => {}
            }
        }
        let r = crate::quiet_panic(|| match UnpackedSnapshotExtractor::open(Path::new(&root), Box::new(NoTracking)) {
            Err(e) => Outcome { vecs: vec![], errors: vec![e.to_string()], consumer_failed: false },
            Ok(mut x) => {
                res.probe("unpacked_manifest_read");
                deliver(&mut x, par, fail, seed, limit, res)
            }
        });
        disk::disarm();
        if disk::HIT.load(SeqCst) > 0 {
            res.probe("disk_call_failed");
        }
        let _ = std::fs::remove_dir_all(&root);
        match r {
            Ok(o) => out = o,
            Err(e) => res.v("C27", "panic", format!("loading the unpacked snapshot panicked: {e}")),
        }
    } else {
        let late = has("manifest_after_append_vecs");
        let mut tar = vec![];
        let put_strays = |tar: &mut Vec<u8>, at: u8| {
            for (k, a) in &strays {
                if *a == at {
                    tar_entry(tar, stray_name(*k), if stray_name(*k).ends_with('/') { &[] } else { b"stray" });
                }
            }
        };
        put_strays(&mut tar, 0);
        if let (Some(m), false) = (&manifest_bytes, late) {
            tar_entry(&mut tar, &format!("snapshots/{SLOT}/{SLOT}"), m);
        }
        for (i, k) in order.iter().enumerate() {
            put_strays(&mut tar, i as u8 + 1);
            let v = &vecs[*k];
            if let Some(b) = &v.file {
                tar_entry(&mut tar, &format!("accounts/{}.{}", v.slot, v.id), b);
            }
            if late && i == 0 {
                if let Some(m) = &manifest_bytes {
                    tar_entry(&mut tar, &format!("snapshots/{SLOT}/{SLOT}"), m);
                }
            }
        }
        if has("unknown_append_vec") {
            tar_entry(&mut tar, "accounts/99.77", &unknown);
        }
        tar.extend([0u8; 1024]);
        for f in &faults {
            if let SnapFault::TarCut { pm, block } = f {
                let mut k = tar.len() * *pm as usize / 1000;
                if *block {
                    k = k / 512 * 512;
                }
                tar.truncate(k);
            }
        }
        let mut z = zstd::stream::encode_all(&tar[..], 1).unwrap();
        let full = z.len();
        let mut d = Disk { data: vec![], at: 0, chunks: None, interrupts: vec![], fail: None, calls: 0, hits: Arc::new(Mutex::new(BTreeMap::new())) };
        for f in &faults {
            match f {
                SnapFault::Chunks { seed } => d.chunks = Some(Rng::new(*seed)),
                SnapFault::Interrupted { n } => d.interrupts.push(*n),
                SnapFault::ReadError { pm } => d.fail = Some(full * *pm as usize / 1000),
                SnapFault::Cut { pm } => z.truncate(full * *pm as usize / 1000),
                SnapFault::Flip { pm, mask } => {
                    let k = full * *pm as usize / 1000;
                    if k < z.len() {
                        z[k] ^= mask;
                        flipped = true;
                    }
                }
                _ => {}
            }
        }
        d.data = z;
        let hits = d.hits.clone();
        let r = crate::quiet_panic(|| match ArchiveSnapshotExtractor::from_reader(d) {
            Err(e) => Outcome { vecs: vec![], errors: vec![e.to_string()], consumer_failed: false },
            Ok(mut x) => {
                res.probe("archive_manifest_read");
                deliver(&mut x, par, fail, seed, limit, res)
            }
        });
        for (k, v) in hits.lock().unwrap().iter() {
            *res.probes.entry(k).or_insert(0) += v;
        }
        match r {
            Ok(o) => out = o,
            Err(e) => res.v("C27", "panic", format!("loading the archive panicked: {e}")),
        }
    }
    judge(n, &faults, want, possible, flipped, &vecs, out, res);
}

#[allow(clippy::too_many_arguments)]
fn judge(
    n: usize,
    faults: &[&SnapFault],
    want: Option<Vec<Vec<Got>>>,
    possible: BTreeSet<Got>,
    flipped: bool,
    vecs: &[VecSpec],
    out: Outcome,
    res: &mut RunResult,
) {
    let show = |g: &Got| format!("account {} of slot {} with write version {}", g.1, g.0, g.2);
    let mut got = out.vecs.clone();
    got.sort();
    for v in &got {
        for g in v {
            res.note(hash_of(g));
        }
        res.note(v.len() as u64);
    }
    res.note(out.errors.len() as u64);
    res.checks += 1 + got.len() as u64;
    res.states.push(hash_of(&(&got, &out.errors)));
    if !res.violations.is_empty() || flipped {
        // what a flipped bit turns the content into cannot be known: only that loading ends without a panic
        return;
    }
    for g in got.iter().flatten() {
        if !possible.contains(g) {
            res.v("C27", "bogus", format!("{} was delivered, but the snapshot does not contain it", show(g)));
            return;
        }
    }
    let harmless = faults.iter().all(|f| matches!(f, SnapFault::Chunks { .. } | SnapFault::ConsumerError { .. }));
    if out.consumer_failed && out.errors.is_empty() {
        res.v("C27", "consumer", "a consumer failed, but loading was reported as complete".into());
    }
    if !out.errors.is_empty() {
        res.probe("clean_error");
        if harmless && !out.consumer_failed {
            res.v("C27", "refused", format!("an undamaged snapshot was refused: {}", out.errors.join(", ")));
        }
        return;
    }
    match want {
        None => {
            let bad: Vec<String> = vecs
                .iter()
                .filter(|v| v.file.as_ref().and_then(|b| parse(b, v.len, v.slot)).is_none())
                .map(|v| format!("{}.{}", v.slot, v.id))
                .collect();
            let d: usize = got.iter().map(|v| v.len()).sum();
            res.v("C27", "silent_loss", format!("append vec {} is lost or damaged, but loading ended without an error after {d} accounts", bad.join(", ")));
        }
        Some(w) => {
            let twice = faults.iter().any(|f| matches!(f, SnapFault::Twice { .. }));
            let mut w = w;
            w.sort();
            if twice {
                got.dedup();
                w.dedup();
            }
            if got != w {
                let missing: Vec<String> = w.iter().flatten().filter(|g| !got.iter().flatten().any(|x| x == *g)).map(show).collect();
                res.v(
                    "C27",
                    "incomplete",
                    format!("loading ended without an error with {} of {} append vecs, missing: [{}]", got.len(), w.len(), missing.join(", ")),
                );
            } else if n > 0 {
                res.probe("complete_snapshot_loaded");
                if !harmless {
                    res.probe("complete_in_spite_of_a_fault");
                }
            }
        }
    }
}

pub fn exec(plan: &Plan, out: &mut RunResult) {
    let ops = plan.threads.first().cloned().unwrap_or_default();
    let cfg = plan.cfg.clone();
    let seed = plan.sched.seed;
    crate::run_seq(plan, out, move |res| run(&cfg, &ops, seed, res));
    out.nontrivial = out.probed("complete_snapshot_loaded") || out.probed("clean_error");
}

pub fn info(_prop: &str) -> crate::Info {
    crate::Info {
        rule: "one run = one seeded validator snapshot (archive or directory) read over a simulated disk, with a seeded fault or none; non-trivial: it was loaded completely or refused with an error",
        real: vec![
            "simulate_from_snapshot/src/snapshot_utils: archive and directory extractors, append vecs, manifest types, parallel consumer",
            "zstd, bincode, memmap2, tokio (current-thread runtime), tmpfs",
        ],
        stubs: vec![
            "tar, solana-accounts-db and solana-runtime (not available offline): stand-ins in harness/stubs with the interface, layout and error behaviour the loader relies on",
            "disk: archives are read from memory in seeded pieces with errors; directory, open, read and mmap calls of the loader can fail",
        ],
        assumptions: vec![
            "simulate_from_snapshot/src/main.rs, which feeds the accounts into the token store, is not run: its RPC server and network client cannot be built offline",
            "a flipped bit in the compressed archive can change content undetectably (no checksum): after it only termination without a panic is demanded",
        ],
    }
}
