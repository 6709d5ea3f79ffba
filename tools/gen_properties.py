#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the one source of the property texts)."""
import json, os
A = "account_storage/src/inmemory_account_store.rs"
V = "account_storage/src/account_data_by_commitment.rs"
D = "account_storage/src/storage_by_program_id.rs"
T = "token_account_storage/src/inmemory_token_storage.rs"
TA = "token_account_storage/src/inmemory_token_account_storage.rs"
TU = "token_account_storage/src/token_program_utils.rs"
TY = "token_account_storage/src/account_types.rs"
O = "accounts_on_demand/src/accounts_on_demand.rs"
F = "common/src/simple_filter_store.rs"
M = "common/src/mutable_filter_store.rs"
S = "simulate_from_snapshot/src/snapshot_utils"
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), obs=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(obs), hook_needed=hook)))

H, SC, I, C, FS, CP = "histories", "schedules", "inputs", "configurations", "fault_sequences", "crash_points"
prop("C01", "Reads return the newest version that has reached the asked commitment",
 "For every history of account updates and slot notifications (late, reordered or duplicated, on competing forks), reading an account at processed, confirmed or finalized returns, among the versions the store accepted and that reached at least that commitment, the one with the highest (slot, write version), or nothing when that version is closed (zero lamports) or no such version exists. A version has the higher of the commitment it was delivered with and the one its slot has reached; notifying a slot as confirmed or finalized also gives that commitment to every ancestor reachable over the parent links known by then, down to the newest finalized slot (notifications about slots below it may change nothing). A slot never loses a commitment it has reached, whatever order the notifications arrive in.",
 [H, FS], "every history of updates, slot notifications, forks, duplicates, reorderings and delays over a small pool of accounts and slots",
 "The unit tests play a few linear, in-order histories; forks, out-of-order notifications, several versions per slot and late deliveries combine into histories none of them contains.",
 [A, V], [("slot status map and ancestor walk", A+": process_slot_data"), ("promotion of a version", V+": promote_slot_commitment"), ("insertion with commitment", V+": update")],
 [("slots_status", "commitment, parent and touched accounts per slot", A), ("processed_accounts/confirmed_account/finalized_account", "versions of one account", V)],
 ["get_account at the three commitments after every step"])
prop("C02", "Reads never go back in time and commitments stay nested",
 "As long as an account stays in the store, a read at confirmed or finalized never returns an older (slot, write version) than an earlier read at the same commitment did, and an account that is not closed does not vanish from a commitment it reached. At any moment the finalized version of an account is not newer than its confirmed version, and the confirmed one not newer than the processed one.",
 [H, FS], "every history of updates and notifications, including delayed and duplicated ones and late lower-commitment notifications of already rooted slots",
 "Monotonicity is a relation between all pairs of reads in a history; the tests compare single reads to a constant.",
 [A, V], [("version comparison on promotion", V), ("commitment of a slot only rises", A+": process_slot_data")], [], ["get_account at the three commitments before and after every step"])
prop("C03", "A slot notification reports exactly the accounts it changed",
 "Processing a confirmed or finalized slot notification returns each account whose version visible at that commitment changed because of it, exactly once and with the new version (closures included), and no other account; accounts promoted through an ancestor are reported too. A processed notification, a repeated notification and one for a slot whose commitment was already reached report nothing.",
 [H, FS], "every history of updates and (repeated, reordered, skipped) slot notifications over forks",
 "Missing or repeated notifications depend on which ancestors were notified before and which updates came between; the tests look at a handful of linear cases.",
 [A, V], [("accounts touched per slot, newest slot wins", A+": process_slot_data"), ("promotion reports a change only", V+": promote_slot_commitment")], [], ["return value of process_slot_data"])
prop("C04", "Program queries agree with single reads and the filters",
 "A program query at a commitment returns exactly the accounts that a single-account read at the same commitment shows as live, owned by that program and passing every data filter of the query: each once, with the same version and the same data bytes, in whatever compression they are stored.",
 [H, I], "every history, every program, commitment and combination of size and byte filters, every compression mode",
 "The index a query uses is maintained incrementally by every update, promotion, owner change and removal; the tests query after a few fixed steps.",
 [A, V, F], [("index by owner", A+": add_account_owner / update_owner_delete_if_necessary"), ("filter evaluation", V+": get_account_data_filtered")],
 [("accounts_by_owner", "candidate accounts per program", A)], ["get_program_accounts against get_account for the whole account pool"])
prop("C05", "Closing, re-creating and re-assigning accounts is tracked per commitment",
 "When an account is closed, re-created or moves to another owning program (and back), each commitment keeps showing the state it has reached until the change reaches it: the account is listed under the owner it has at that commitment and under no other, and a pending newer life of an account survives when an older closure becomes final. Once a closure, or a move out of everything the filters cover, is final and nothing newer and relevant is pending, the account is no longer served and no longer counted as tracked; a later re-creation is served again.",
 [H, FS], "every history of creations, closures, re-creations and owner changes interleaved with slot notifications on forks",
 "Every interleaving of the life cycle with the three commitments matters; the tests cover single transitions in order.",
 [A, V], [("owner index change and eviction on finalization", A+": update_owner_delete_if_necessary"), ("removal of an account", V+": delete")], [], ["get_account, get_program_accounts, account_store_contains_key"])
prop("C06", "Updates that arrive late take the commitment their slot already has",
 "An account update delivered after its slot was confirmed or finalized is visible at that commitment as soon as it is accepted, for new accounts as well as known ones and even when the slot's status was only learned as an ancestor of a notified slot. An update delivered with an explicit higher commitment is never recorded at a lower one, and it never changes the commitment of other updates of its slot.",
 [H, FS], "every reordering of account updates and slot notifications",
 "The tests deliver updates before the notifications of their slot.",
 [A, V], [("commitment looked up from the slot status", A+": maybe_update_slot_status")], [], ["get_account right after update_account"])
prop("C07", "State of abandoned forks stops being served once a rival slot is final",
 "When a slot becomes final and the known chain of its ancestors shows that an unconfirmed slot is not on it, the account versions of that abandoned slot are no longer returned at any commitment, and the account shows its newest version from elsewhere. Versions on the final chain, on not yet decided newer slots and confirmed ones are kept.",
 [H, FS], "every fork shape, every order of finalization and every set of accounts touched on both branches",
 "No test has two competing branches that touch the same account and then roots one of them.",
 [A, V], [("clean-up of slots below the root", A+": process_slot_data")], [], ["get_account at processed after finalization"])
prop("C08", "Only accounts covered by the filters are admitted, and coverage is respected",
 "An account that no configured filter covers is never admitted to the store, whatever the commitment and order of its updates, while updates of tracked accounts, including closures and owner changes, are always accepted. A program query that the configured filters do not fully cover is refused rather than answered incompletely, also when the store is configured with exceptions, and one that repeats a configured filter, in any order and encoding and perhaps narrowed by further filters, is answered. Filters added while the system runs apply to every update accepted from then on, and they never stop coverage that existed before.",
 [H, C, I], "every filter configuration (pinned accounts, whole programs, data filters, several filters per program, added at any moment) and every history",
 "Tests use one or two static filter sets; the admission decision also depends on what is tracked at that moment.",
 [A, F, M], [("admission test", A+": update_account"), ("filter stores", F), ("query coverage test", A+": get_program_accounts")], [], ["update_account result, get_account, get_program_accounts error"])
prop("C09", "Concurrent updates, promotions and reads behave as some serial order",
 "With updates, reads and program queries running in parallel with each other and with a stream of slot notifications, the calls on each account take effect as if executed one at a time in an order consistent with real time: no update is lost, no promotion misses an update that completed before it, an update racing with the notification of its slot ends up promoted, and no reader sees a version regress. A program query never misses an account that qualified for its whole duration and never returns one twice.",
 [SC, H], "every interleaving of a few concurrent callers at basic-block granularity",
 "The tests are single-threaded.",
 [A, V], [("per-account lock, slot status lock and pubkey map shard lock", A)], [], ["history of calls and results, checked for per-account linearizability against the sequential reference model"])
prop("C10", "Concurrent callers of the account store always make progress",
 "No combination of concurrent updates, slot notifications, reads, program queries and snapshots on the account store can block forever, livelock or panic: every call returns within a bounded number of scheduler steps.",
 [SC], "every interleaving of concurrent callers, every set of accounts touched, closures and owner changes included",
 "A deadlock needs two calls stopped at particular points; the tests are single-threaded.",
 [A], [("lock order between the pubkey map, the account list, the account and the slot status", A)], [], ["the simulator: no runnable thread, or the step bound exceeded"])
prop("C11", "A snapshot restores the finalized accounts and never harms newer state",
 "Restarting from a snapshot yields, at every commitment, exactly the program's live finalized accounts at the time it was taken. Loading one into a store that already holds data behaves like finalized updates: newer versions stay, older ones are replaced, loading twice changes nothing, and the stream of later updates continues from there. A truncated or corrupted snapshot gives an error or decodes to something, but never panics and never makes an existing account regress.",
 [CP, H, FS, I], "every crash point in a history, every later history, every truncation and byte corruption",
 "No test restarts in the middle of a history with updates in flight, merges into a warm store or corrupts the bytes.",
 [A], [("create_snapshot / load_from_snapshot", A)], [], ["get_account and get_program_accounts after restart"])
prop("C12", "Token accounts are read at the commitment asked for, along the right fork",
 "For every token account, mint and multisig of both token programs, a finalized read returns the newest finalized state, a confirmed read the newest state on the chain that leads to the confirmed slot, and a processed read the newest state received above the confirmed slot, else the confirmed one; byte for byte the account data delivered (bytes the layout gives no meaning, such as the value of an unset option, read as zero, and the lamports of token accounts are not kept). An update for a slot at or below the finalized one does not change what is read unless it carries a newer finalized state. Closing an account or moving it out of the token programs makes it absent at exactly the commitments that saw it.",
 [H, FS], "every history of creates, changes, closures and re-creations of token accounts, mints and multisigs over forks with delayed and repeated notifications",
 "The tests follow short linear histories of a few accounts.",
 [T, TU], [("processed accounts per slot with parent links", T+": ProcessedAccountStore"), ("fallback to finalized", T+": get_account")],
 [("processed_slot_accounts", "unfinalized updates per slot", T), ("confirmed_slot/finalized_slot", "newest notified slots", T)], ["get_account at three commitments"])
prop("C13", "Finalizing a token slot moves exactly its chain's updates and reports them",
 "When a slot is finalized, for every account updated on the chain from it down to the previous final slot the newest update becomes the finalized state and is reported once, updates of abandoned slots are discarded, and updates of higher slots stay pending. A confirmed notification reports exactly the updates of that slot, closures are not reported, and finalized state never goes back to an older slot because of late, repeated or out-of-order updates or notifications. Late updates for slots at or below the finalized one are refused; the chain of a slot goes as far as the parents delivered for it.",
 [H, FS], "every fork shape and order of notifications",
 "Tests finalize linear chains once.",
 [T], [("walk over parent links", T+": finalize"), ("moving into the main store", T+": add_account_finalized")], [], ["process_slot_data result, get_account"])
prop("C14", "Token queries by owner, mint or kind return exactly the matching accounts",
 "A token program query by owner, by mint, by both or for all mints returns, for the asked program and commitment, exactly the accounts whose state at that commitment matches every filter of the query, each once, with the state a single-account read returns; also after transfers of ownership, closures, re-creations and changes of kind. A query without a usable filter is refused, and a query for an unknown owner or mint gives an empty result.",
 [H, I], "every history and every owner, mint, program, commitment and filter combination",
 "Tests query after bulk loading; changes of owner or mint, closures and pending changes are not queried.",
 [T, TA, TU], [("owner and mint index", T+": add_account_finalized"), ("filter extraction", TU+": get_spl_token_owner_mint_filter")], [], ["get_program_accounts"])
prop("C15", "Token accounts with similar addresses do not affect each other",
 "Accounts, owners or mints whose addresses share leading bytes are completely independent: creating, changing, closing or querying one never changes what is returned for another.",
 [H, I], "every pool of addresses sharing prefixes of any length, every history",
 "Random addresses in tests never collide on the shortened keys.",
 [TA, T], [("lookup by shortened address with full comparison", TA)], [], ["get_account, get_program_accounts"])
prop("C16", "A token snapshot restores the finalized token state in any store",
 "A token snapshot loaded into an empty store, or into one that already knows other mints in another order, restores every finalized token account, mint and multisig of that program byte for byte, with each token account attached to its own mint, and all queries by owner and mint work on the result. Loading twice or into a warm store adds no duplicates and breaks no existing account; a snapshot that does not decode, or that belongs to another program, is refused with an error and changes nothing, and no snapshot bytes make the store panic.",
 [CP, H, FS, I], "every crash point, every load order of several snapshots, every state of the target store, every truncation and byte corruption",
 "The tests do not load snapshots.",
 [T, TA], [("mint index remapping", T+": load_from_snapshot")], [], ["get_account and get_program_accounts after loading"])
prop("C17", "The token store is safe under concurrent updates, finalization and reads",
 "With token updates, slot notifications, reads, queries and snapshots running in parallel, no call panics or blocks forever, a reader never sees an account's confirmed or finalized state go back or disappear while it is being finalized, and no account is lost from or duplicated in query results. After all calls complete, the state equals that of some serial order of them.",
 [SC, H], "every interleaving of a few concurrent callers at basic-block granularity",
 "The tests are single-threaded.",
 [T, TA], [("sharded maps plus list lock", TA), ("processed store lock", T)], [], ["history of calls and results"])
prop("C18", "No account data from the chain can crash or poison the token store",
 "Whatever bytes, sizes, owners and order of arrival an account update has (malformed or unknown layouts, token accounts before or after their mint, closed mints, changes between mint, token account and multisig), processing it and any later read, query, notification or snapshot never panics. An update that cannot be interpreted is refused and changes nothing, and all other accounts stay readable.",
 [I, H, FS], "every malformed account payload at every point of every history",
 "Tests use well-formed accounts whose mint was loaded first.",
 [TU, T], [("decoding", TU+": get_token_program_account_type"), ("mint lookup", TU+": token_account_to_solana_account")], [], ["no panic, get_account of the other accounts"])
prop("C19", "On-demand reads load each account once and return what was loaded",
 "When several callers ask for an account that is not loaded yet, exactly one subscription and one load is issued for it, and every caller that succeeds gets the loaded account (or absence, if it does not exist) as of a load that completed. Subscription happens before the load, an account that is known is served without another subscription, and a request for an account already found absent issues no new subscription.",
 [SC, FS], "every interleaving of callers, every latency and outcome of the source",
 "There is no test of the on-demand component.",
 [O, M], [("in-loading map with condition variable", O+": get_account")], [("accounts_in_loading", "accounts being loaded", O)], ["calls recorded by a simulated source, results of get_account"])
prop("C20", "A failed on-demand load is reported and does not block later requests",
 "If subscribing or loading fails for an account or a program query, the requester gets an error, callers waiting for the same load get an error or retry it rather than an empty or partial answer, and the next request for it tries again and succeeds once the source works. A failure never leaves coverage registered that was not loaded.",
 [FS, SC], "every sequence of subscription and load failures, every interleaving of callers",
 "There is no test of the on-demand component and its failures.",
 [O], [("error returns between registering and clearing the in-loading entry", O)], [], ["results of get_account and get_program_accounts while and after the source fails"])
prop("C21", "On-demand waiting is bounded and a timeout is an error",
 "A caller that waits for another caller's load returns within ten seconds; if the load has not completed by then it gets a timeout error, not an absent account or partial list, and if it completed it gets the loaded data even when wake-ups are spurious or late. No call blocks forever or panics.",
 [SC, FS], "every load duration around the time limit, spurious wake-up and interleaving, in simulated time",
 "There is no test of the on-demand component; real time and spurious wake-ups cannot be produced by a test.",
 [O], [("timed wait on the condition variable", O)], [], ["simulated duration and result of waiting calls"])
prop("C22", "On-demand program queries are complete",
 "A successful on-demand program query returns every matching account of a load that completed after the subscription, for the first requester, for requests waiting for it and for concurrent requests with equal, narrower or wider filters. Equal concurrent queries share one subscription and one load. Once a program is covered, further covered queries are answered without a new subscription.",
 [SC, FS, C], "every interleaving of overlapping program queries with the load",
 "There is no test of the on-demand component.",
 [O, M, F], [("in-loading map and filter registration", O+": get_program_accounts")], [], ["results of get_program_accounts during and after loading"])
prop("C23", "Dispatching by program loses and hides nothing",
 "With program-specific stores in front of a default store, every account is readable at every commitment as if there were one store: reads find an account whichever store holds it, an owner change moves it between stores at each commitment in turn, queries go to the store of the program, and each slot notification is given to each store once and reports each changed account once, with its new state. (Updates of one account reach the dispatcher in order around an owner change.)",
 [H, C], "every history of updates, owner changes across stores, closures and notifications, every set of registered stores",
 "There is no test of the dispatching store.",
 [D], [("dispatch map", D)], [], ["get_account, get_program_accounts, process_slot_data"])
prop("C24", "The stores converge to the validator's state once faults stop",
 "For a validator stream consumed over an unreliable connection (delay up to the finalization of the slot, duplication, reordering between accounts and of updates that do not move an account between stores, disconnects followed by a finalized snapshot) with restarts of the consumer, every finalized read is some state that the account had on the validator's final chain, never an invented or abandoned one. Once faults stop and the pending messages are delivered, the finalized state of every covered account equals the validator's within a bounded number of further slots.",
 [H, FS, CP], "every validator history with forks, every fault sequence and crash point",
 "Tests feed hand-written in-order updates and never restart or disconnect.",
 [A, V, T, TA, D], [("snapshot plus stream merge", A+": load_from_snapshot / update_account"), ("same for tokens", T)], [], ["finalized reads of all accounts against the simulated validator"])
prop("C25", "Compact token encoding and account compression are lossless",
 "Encoding and decoding a token account, or compressing and decompressing account data with any method, gives back the same value for every input.",
 [I], "every token account value and every byte string", "Inputs are sampled.",
 [TY, "common/src/account_data.rs"], [("to_bytes / from_bytes", TY)])
prop("C26", "Filter configuration parsing and evaluation follow the RPC semantics",
 "Reading a filter configuration and writing it back gives the same filters, and a data filter accepts exactly the byte strings the Solana RPC definition of it accepts, for every encoding and offset.",
 [I], "every filter and byte string", "Inputs are sampled.",
 ["common/src/account_filter.rs"], [("bytes_match, serde implementation", "common/src/account_filter.rs")])
prop("C27", "Loading a validator snapshot yields every account or a clean error",
 "Reading a validator snapshot, from an archive or from an unpacked directory, delivers every account of every append vec that the manifest lists, each once and with its address, owner, lamports, data, executable flag, rent epoch, write version and the slot of its append vec, whatever sizes the reads of the underlying file have and in whatever order the files come; consumers running in parallel get every append vec once, and no more of them run at a time than asked for. If the snapshot is truncated, damaged or incomplete, a file cannot be read or a consumer fails, the result is an error: never a crash, never a silently shorter or different list of accounts.",
 [I, FS, SC], "every snapshot layout, every truncation, damage, missing or repeated file, read size, I/O error and order of consumers", "There is no test of the snapshot loader.",
 [S+"/append_vec.rs", S+"/archived.rs", S+"/unpacked.rs", S+"/mod.rs"], [("append vec reader", S+"/append_vec.rs"), ("archive walk", S+"/archived.rs"), ("directory walk", S+"/unpacked.rs")], [], ["accounts of append_vec_iter and results of the iterator against the snapshot that was written"])
prop("C28", "What the stores keep stops growing when the live state does",
 "A store keeps memory for the accounts it holds, the versions that are still pending, a bounded number of recent slots, and constants per program and mint ever seen. A consumer that lives the same day of updates, closures and re-creations, owner changes, forks, late and lost messages, snapshots and on-demand reads again and again, each time at later slots and with an equal live state at the end, does not keep more memory after every day: closed accounts, abandoned forks, settled slots, superseded versions, finished loads and repeated registrations are given back.",
 [H, FS, C], "every day of updates, notifications, closures, owner changes, forks, faults and on-demand requests whose final state equals its first, lived any number of times",
 "A leak is a trend over thousands of slots; unit tests live a few slots and never measure memory.",
 [A, T, TA, O, M, F], [("removal from the account map and arena", A), ("slot status pruning", A+": process_slot_data"), ("token account bucket and index reuse", TA), ("registered filters and in-loading entries", M)],
 [("slots_status", "status of recent slots", A), ("token account indexes", "location of each account", T)], ["bytes alive in the process after each day"])
prop("C29", "Snapshots, loads and filter changes are consistent while the store is in use",
 "While updates, notifications and reads go on in other threads, a snapshot contains, for every account, a finalized state the account had between the start and the end of taking it (each account once, none missing that was finalized throughout, none half updated), loading a snapshot merges it as if each account were loaded at one instant, and changing the set of followed accounts affects each update entirely or not at all. Reading at the same time sees no intermediate state.",
 [SC, H], "every interleaving of snapshot creation, snapshot loading and filter registration with updates, notifications, reads and queries",
 "Tests take and load snapshots on idle stores; a torn snapshot needs a particular interleaving.",
 [A, T, TA, M], [("snapshot walk over the live store", A+": create_snapshot"), ("merge of a loaded snapshot", A+": load_from_snapshot"), ("same for tokens", T)], [], ["contents of concurrently taken snapshots, reads during and after loads and filter changes"])
path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(path, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
