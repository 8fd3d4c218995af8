#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TV = "TLA+ trace validation: all schedules (bounded preemptions) of client programs on the real %s, every distinct history checked by TLC against %s"
SQ = "TLA+ state graph replay: TLC enumerates every transition of SeqContainer.tla; walks that cover every transition in every overload and configuration run on the real %s"
SQN = "bounded: contents up to 4-5 elements, capacities 0-4; element types int, 1 byte, large, non-trivial"
TECH = {
 "C01": ("model_checking", TV % ("stack", "AbsContainer.tla")),
 "C02": ("model_checking", TV % ("queue", "AbsContainer.tla")),
 "C03": ("model_checking", TV % ("spsc_queue", "SpscAbs.tla")),
 "C04": ("model_checking", TV % ("stack bulk operations", "AbsContainer.tla")),
 "C05": ("model_checking", TV % ("free lists, stack and queue (with up to 2^16 recycles of a node inside one operation)", "FreeListAbs.tla and AbsContainer.tla")),
 "C06": ("model_checking", TV % ("containers", "AbsContainer.tla in its strict form (pool of exactly the capacity) and SpscAbs.tla")),
 "C07": ("model_checking", TV % ("containers with an accounting allocator", "MemDiscipline.tla composed with AbsContainer.tla and SpscAbs.tla")),
 "C08": ("model_checking", TV % ("containers with tracked elements", "Lifetime.tla (one life per element, typed memory)")),
 "C09": ("model_checking", TV % ("containers under a C++ memory model with stale loads", "MemoryModel.tla (views and happens-before clocks)")),
 "C10": ("model_checking", TV % ("containers, with one thread stopped at every point or forced into lock step", "TraceProgress.tla (bounded solo completion, system-wide progress)")),
 "C11": ("model_checking", SQ % "stack", SQN),
 "C12": ("model_checking", SQ % "queue", SQN),
 "C13": ("model_checking", SQ % "spsc_queue", SQN),
 "C16": ("model_checking", TV % ("containers, observers included", "AbsContainer.tla and SpscAbs.tla")),
 "C14": ("fault_enumeration", "TLA+ trace validation with an injected failure at every element copy and every allocation, in all bounded schedules of client programs on the real containers, against AbsContainer.tla and SpscAbs.tla (Throw transitions), MemDiscipline.tla and Lifetime.tla"),
 "C15": ("model_checking", "TLA+ state graph replay: walks over MappedContainer.tla (SeqContainer.tla plus the choice of the mapping of each step) on real containers placed in memory mapped several times at different addresses", SQN),
 "C17": ("model_checking", "TLA+ state graph and trace validation: TaggedHandle.tla and TagCircle.tla enumerate handles, tags and compare-and-swap outcomes; every transition runs on the real tagged_ptr (both layouts) and tagged_index", "bounded: sampled address and tag values at every bit boundary; all 2^16 tags walked in one run"),
 "C19": ("model_checking", TV % ("containers with every memory access of the compiled code recorded", "Storage.tla (own object, live blocks, lent buffers, living elements)"),
         "bounded: small client programs, all overloads; element layouts 8/4, 2/1, 128/128 (size/alignment); objects and blocks at minimal alignment; accesses of code inlined or compiled from the headers plus memcpy/memmove/memset"),
 "C20": ("model_checking", "TLA+ trace validation and state graph replay: all bounded schedules of client programs over two real containers, projected on each of them (Locality.tla) and checked against AbsContainer.tla and SpscAbs.tla; transition tours of SeveralContainers.tla (use, renew, move, nested calls) on the real containers", "bounded: two containers of one type, client programs of 2-3 threads, small capacities"),
 "C18": ("model_checking", "TLA+ trace validation: fill/drain/reserve runs of real containers over all sizes of interest up to 65536 nodes, checked by TLC against TraceSizes.tla", "bounded: sizes at and around every limit, exhaustively for small ones"),
}
NOTE = "bounded: small client programs (2-3 threads), bounded preemptions; sequentially consistent interleavings of the real code's atomic operations"
NA = {}
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "hooks": {"guard": "BOOST_LOCKFREE_VERIF_HOOKS",
               "enable": "g++ -DBOOST_LOCKFREE_VERIF_HOOKS -I/verif/harness/include -I/repo/include",
               "source_commits": ["b41b084ba020f10a07d4ceb79ccae1ef437dc61d"]},
     "checks": [], "not_applicable": []}
for i in ids:
    if i in TECH:
        lvl, tech = TECH[i][:2]
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                            "level": lvl, "technique": tech, "level_note": TECH[i][2] if len(TECH[i]) > 2 else NOTE})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
