#!/usr/bin/env python3
"""Writes MANIFEST.json (kept in step with properties.jsonl by hand-written notes below)."""
import json,os
here=os.path.dirname(os.path.abspath(__file__))
COMMON=("Seeded search, not exhaustive: a clean batch is evidence, not proof. Real code: all of raw-btree (both builds: "
"overflow/debug assertions on, and off); simulated: the node storage (or the real BoxStorage over the simulated allocator), items, "
"comparison functions, visitors, writers and threads. Trusts the reference model (a sorted vector) and the simulator. ")
TECH="deterministic simulation with fault injection: "
checks=[
("C01","seeded histories of keyed calls with comparator panics and refused allocations, refinement against a sorted-vector model","Up to a few hundred calls and ~1,000 items per run."),
("C02","comparator panic injected at every/any invocation inside keyed calls, state snapshot compared before and after","Panic positions sampled over all invocations a call makes."),
("C03","storage allocation refused at any node request inside insertions and clones, snapshot compared and the call retried","Refusals are panics of Storage::allocate_node; exhaustion of the global allocator aborts the process in Rust and is outside."),
("C04","structural walker run after every completed or aborted call of faulted histories","The walker reads the tree through its public node API, so the links it checks are those users see."),
("C05","life-cycle ledger of every item over faulted histories","Each item has an identity; a read, compare or drop of a dead one stops the run with a violation."),
("C06","simulated storages with adversarial identifier policies and moving nodes, ledger of active identifiers; BoxStorage over a guarded simulated allocator","Undefined behaviour that touches neither ledger, canary nor unmapped page is not seen (see C19)."),
("C07","seeded interleavings of front/back steps of several live, copied and abandoned iterators against a deque model","Includes iterators abandoned by a panicking consumer."),
("C08","address-based edits and navigation interleaved with refused allocations, against a positional model","Only addresses the documentation calls valid are used."),
("C09","clone trees with item-copy panics and refused allocations, interleaved histories on the copies against one model each","Copies made by an aborted clone may be leaked (documented)."),
("C10","item destructor panics injected during clear, drop and abandoned owning iterators, ledger of destroyed items","One destructor panic at a time: a second one while unwinding aborts the process by language rule."),
("C11","simulated writers with short, interrupted and failing writes, output parsed and compared with the tree","Items' Display may also panic or fail."),
("C12","cooperative scheduler over real threads: every comparison, storage access and item copy is a scheduling point chosen by the seed","Interleavings at those points only; data races on plain memory between two points are not observed (the storage seam covers every node access)."),
("C13","comparison functions answering arbitrarily, contradictorily or changing their mind, under call-work bounds and conservation checks","Work bound and structure checked, order is not (by definition)."),
("C14","visitors that panic at any node, read-only and mutable visits recorded and compared with a walk","Visitors do not call back into the tree (the borrow checker forbids it for mutable visits)."),
("C15","per-call counters of comparisons and storage accesses over faulted histories against logarithmic bounds","Node accesses are counted at the Storage seam; bounds have slack, so a constant-factor slowdown passes."),
("C16","seeded histories of trees of the crate's own key/value items with panicking key comparisons and copies and refused nodes, against a map model; every comparison operator on items met on the way","The comparisons are pure: seeds sample keys and values, the faults concern the maps built on them."),
("C17","seeded walks of cursors over nodes of trees with faulted histories, against integer positions","Offset's operations are pure: seeds sample positions (around the node, and far beyond it), no fault can hit them directly."),
("C20","callbacks (comparison, copy, destructor, visitor, writer, storage) that make calls of their own on the same and on other trees, nested up to three deep and sometimes aborted, and threads interleaved by the seeded scheduler on trees of their own; every call against its own model","Nesting depth three; threads are interleaved at the seams only."),
("C21","corruption of node items and links injected at seeded positions of copies of trees with faulted histories, verdict of the crate's validator compared with the simulator's walker","Runs with debug assertions only (the validator exists nowhere else); damage is made through the public node API and leaves every identifier valid; the root's own maximum is outside the statement."),
("C22","seeded histories of edits of stand-alone nodes with comparison panics, refinement against sequences, life-cycle ledger of items","Calls are made within their documented preconditions; children are identifiers of live nodes of the storage under test."),
]
m={"version":1,"setup_cmd":"./run.sh build","checks":[
 {"property":p,"quick_cmd":f"./run.sh check {p}","thorough_cmd":f"VERIF_TIER=thorough ./run.sh check {p}",
  "technique":TECH+t,"level":"exploration","level_note":COMMON+n} for p,t,n in checks],
 "not_applicable":[
 {"property":"C18","reason":"Send/Sync bounds are decided by the compiler at type-checking time; no execution, simulated or not, can observe them."},
 {"property":"C19","reason":"The aliasing rules concern the abstract machine, not observable behaviour: a native simulated run behaves identically whether or not they are respected; deciding it needs an interpreter such as Miri (runtime monitoring)."}],
 "notes":"One simulator (sim/, crate btsim) serves every check; run.sh rebuilds it from /repo's working tree each time. Replay a violation with ./run.sh replay FILE. ./run.sh selftest proves determinism. No hooks in /repo: Storage, the comparison functions, the item type, visitors and writers are existing seams."}
json.dump(m,open(os.path.join(here,"MANIFEST.json"),"w"),indent=1); open(os.path.join(here,"MANIFEST.json"),"a").write("\n")
