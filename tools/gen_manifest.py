#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of claimed properties below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
STORE = "Real InmemoryAccountStore, filter store and codecs; stream, faults and restarts simulated. "
CSTORE = "Real InmemoryAccountStore and dashmap/std locks on real threads that the simulator schedules one at a time at every lock, atomic and channel operation. "
TOKEN = "Real TokenProgramAccountsStorage, parsing, encoding and locks; stream, faults and restarts simulated. "
CTOKEN = "Real TokenProgramAccountsStorage with dashmap/std locks on real threads that the simulator schedules one at a time at every lock, atomic and channel operation. "
CLAIMED = {
 **{c: ("deterministic simulation with fault injection: seeded histories of a faulty update/slot stream with restarts, checked step by step against a reference model", STORE) for c in ("C01","C02","C03","C04","C05","C06","C07","C08","C11")},
 "C09": ("deterministic simulation of concurrent writers, notifications and readers on controlled threads: seeded schedules, histories checked for linearizability against the reference model", CSTORE),
 "C10": ("deterministic simulation of concurrent writers, notifications, readers and snapshots on controlled threads: seeded schedules, every run must finish (deadlock, livelock and panic detection)", CSTORE),
}
CLAIMED.update({c: ("deterministic simulation with fault injection: seeded token histories of a faulty update/slot stream with malformed accounts, colliding addresses and restarts, checked step by step against a reference model", TOKEN) for c in ("C12","C13","C14","C15","C16","C18")})
CLAIMED["C17"] = ("deterministic simulation of concurrent token updates, notifications, reads, queries and snapshots on controlled threads: seeded schedules, histories checked for per-account linearizability, every run must finish", CTOKEN)
CLAIMED.update({c: ("deterministic simulation with fault injection: requester threads, a validator stream and a failing, slow source on controlled threads and simulated time, seeded schedules, results judged over the recorded history", "Real AccountsOnDemand, MutableFilterStore, InmemoryAccountStore and std locks and condition variables on real threads that the simulator schedules; the accounts source and the clock are simulated. ") for c in ("C19","C20","C21","C22")})
CLAIMED["C23"] = ("deterministic simulation with fault injection: seeded histories of updates, owner moves across stores and notifications through the dispatcher with its real stores, checked against a reference model", "Real StorageByProgramId over real account and token stores; stream and faults simulated. ")
CLAIMED["C24"] = ("deterministic simulation with fault injection: a forking validator, an unreliable connection, disconnects, crashes and restarts from snapshots against dispatcher and stores; finalized reads judged against the validator, convergence within bounded slots once faults stop", "Real StorageByProgramId, account and token stores and snapshots; validator, connection, durable storage and restarts simulated. ")
CLAIMED["C27"] = ("deterministic simulation with fault injection: seeded validator snapshots read through simulated files with short reads, I/O errors, truncation, damage and missing files, and parallel consumers under a seeded scheduler, checked against what was written", "Real snapshot_utils sources of simulate_from_snapshot (append vec reader, archive and directory walk, parallel consumption) compiled against stand-ins for the tar, solana-accounts-db and solana-runtime crates, which are not available offline. ")
CLAIMED["C28"] = ("deterministic simulation with fault injection: a seeded day of faulty updates, notifications, closures, forks, snapshots and on-demand requests lived again hundreds to thousands of times, memory measured by a counting allocator after each day", "Real account store, token store and on-demand layer; stream, source, faults and clock simulated. ")
CLAIMED["C29"] = ("deterministic simulation of snapshots, loads and filter changes taken concurrently with writers, notifications and readers on controlled threads: seeded schedules, snapshot contents and reads checked for linearizability against the reference model", "Real InmemoryAccountStore, TokenProgramAccountsStorage, MutableFilterStore and locks on real threads that the simulator schedules one at a time at every lock, atomic and channel operation. ")
NA = {
 "C25": "Pure function of its input: no schedule, clock, I/O fault or interleaving for a simulation to decide.",
 "C26": "Pure function of its input: no schedule, clock, I/O fault or interleaving for a simulation to decide.",
}
checks = []
for p in props:
    if p["id"] in CLAIMED:
        tech, note = CLAIMED[p["id"]]
        checks.append(dict(property=p["id"], quick_cmd=f"./check.sh {p['id']}", thorough_cmd=f"VERIF_TIER=thorough ./check.sh {p['id']}",
            evidence_file=f"evidence/{p['id']}.json", technique=tech, level="exploration",
            level_note=note + "Seeded sampling of schedules and fault sequences, not enumeration: a quiet run is evidence, not proof. Trusts the reference model and the simulator core."))
m = dict(version=1, setup_cmd="./build.sh", checks=checks,
    not_applicable=[dict(property=p["id"], reason=NA.get(p["id"], "Not yet covered by a simulated world.")) for p in props if p["id"] not in CLAIMED])
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
