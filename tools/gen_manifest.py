#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MC = "model_checking"
BASE = ("Trusts the harness's reference model, its comparison code and the Rust toolchain. Nothing is claimed beyond the "
        "stated bounds. No hooks: the public API of the crate in /repo is driven directly.")
C = {
    "C01": (MC, "explicit-state model checking of the implementation (BFS over operation histories, lockstep with a reference model)",
            "All reachable states of worlds with up to 3 entities, 3 indexes, 2 versions and 3 components under several group "
            "layouts, and bounded-depth exploration beyond; every transition replays its history on a fresh real World and compares "
            "return values and all views with the model."),
    "C02": (MC, "explicit-state model checking of the implementation (BFS over operation histories, lockstep with a reference model)",
            "All reachable states of worlds without components with up to 4 entities, 4 indexes and 4 versions under creation, bulk creation, deferred creation, destruction, clear and reset; in each of them further rounds of creation must give new handles."),
    "C04": (MC, "explicit-state model checking of the implementation (BFS over operation histories, lockstep with a reference model)",
            "All reachable states of small worlds under several layouts; in every one about a thousand query types (every combination of get/include/exclude over four components and their optional and mutable forms) are iterated, folded and looked up and compared with the model."),
    "C05": (MC, "explicit-state model checking of the implementation (BFS over operation histories, lockstep with a reference model)",
            "All reachable states of small worlds whose alphabet includes set_layout; each history is also run without any layout, and handles, results and query contents must agree."),
    "C06": (MC, "explicit-state model checking of the implementation (BFS over operation histories, lockstep with a reference model)",
            "All reachable states of small worlds under grouped layouts; every grouped query must be dense and sliceable and its slices aligned with iteration and the model."),
    "C07": (MC, "explicit-state model checking of the implementation (exhaustive enumeration of group additions in lockstep with a reference model of layouts)",
            "All sequences of group additions over all subsets of four components up to a bounded length, with accept/refuse decided by the model; every resulting layout is installed in a world and observed by grouped queries."),
    "C08": (MC, "explicit-state model checking of the implementation (BFS over operation histories with an allocation and value ledger)",
            "All reachable states of small worlds in lockstep with a ledger of values and allocations, plus every sequence of up to five of sixteen operations on eighteen shapes of components (size, alignment, drop glue)."),
    "C09": ("fault_enumeration", "exhaustive fault enumeration over all reachable states of the implementation (a panic at every destructor call)",
            "In every reachable state of small worlds, every operation is run with a panic injected at every destructor call; conservation of values, memory safety (guarded allocator) and the state of the world are compared with the model afterwards."),
    "C10": ("fault_enumeration", "exhaustive fault enumeration over all reachable states of the implementation (every misuse, a panic at every callback)",
            "In every reachable state of small worlds, every misuse (unregistered types, conflicting borrows, missing components) and a panic at every call of the caller's iterators and callbacks; conservation of values and the state of the world are compared with the model afterwards."),
    "C14": (MC, "explicit-state model checking of the implementation (BFS over operation histories, lockstep with a reference model)",
            "All reachable states of small worlds; every query is consumed in every combination of 12 consumption modes split at every point and compared with plain iteration."),
    "C15": (MC, "explicit-state model checking of the implementation (BFS over operation histories, lockstep with a reference model)",
            "All reachable states of small worlds; in each, every view operation over every tracked handle, and a write through each of three routes to each component value, checked against the model."),
    "C19": (MC, "explicit-state model checking of the implementation (BFS over operation histories, lockstep with a reference model)",
            "From every reachable state of small worlds, clear and reset followed by all continuations of up to three operations, in lockstep with a new world."),
    "C16": (MC, "explicit-state model checking of the implementation (exhaustive enumeration of registration and builder histories in lockstep with a reference model)",
            "All sequences of builder calls and of registrations mixed with other operations up to a bounded length, on one and two worlds from the same builder, compared with a model of registered types and groups."),
    "C17": (MC, "explicit-state model checking of the implementation (BFS over operation histories, lockstep with a reference map)",
            "All reachable states of sparse vectors over small sets of entities, including ones at capacity boundaries, under every public operation, compared with a map after every step."),
    "C18": (MC, "explicit-state model checking of the implementation (exhaustive enumeration of operation sequences for every tuple arity and position)",
            "Every arity from 1 to 16, every position in it, several orders of the same components; operation sequences over each tuple operation compared with a per-component model."),
    "C20": ("exploration", "exhaustive enumeration of all pairs and triples of boundary entities and of all 2^32-1 versions",
            "Equality, hash and order on all pairs and triples of entities with boundary indexes and versions; the successor of every version. These are pure functions of their arguments, so the states enumerated are the arguments themselves."),
    "C03": ("exploration", "stateless model checking of the implementation under a controlled scheduler (all schedules and weak-memory outcomes of the atomic operations, DFS with state pruning)",
            "Every short history on a real World, then every program of deferred creations spread over up to three threads under every schedule of their atomic operations (stale reads and spurious compare-exchange failures included), then short suffixes, in lockstep with a model."),
    "C11": ("exploration", "stateless model checking of the implementation (all steal decisions and split trees of the real rayon over a stub scheduler, within a bound on steals)",
            "Real rayon iterators over a stub rayon-core whose join lets the explorer choose thread count and steals: every query shape, consumer, small world and layout, under every choice of steals within the bound."),
    "C12": ("exploration", "stateless model checking of the implementation under a controlled scheduler (all schedules of threads that borrow and release, DFS with state pruning)",
            "Every sequential program of borrows, releases and queries up to a bounded length, and every schedule of pairs and triples of threads that borrow, access and release, with race detection on component data."),
    "C21": (MC, "explicit-state model checking of the implementation (exhaustive enumeration of short operation sequences at every population size, in lockstep with a reference map)",
            "Populations of every size up to 260 and around every power of two up to 2^17, under several layouts, ways of creation and patterns of components, each followed by every sequence of up to two operations at first, last and boundary positions; sparse indexes, recycled entities, batches and numbers of component types likewise."),
    "C22": (MC, "explicit-state model checking of the implementation (BFS over operation histories, and exhaustive enumeration of the interleavings of the operations of two worlds)",
            "All histories to a depth are run alone, twice beside a third world, and on another thread, and must show the same world; all pairs of histories of up to 3 operations on two worlds, in every way of taking turns, must show what each shows alone."),
    "C23": (MC, "explicit-state model checking of the implementation (walks that cover every operation in every state of small worlds, executed in an interpreter that reports undefined behaviour)",
            "All reachable states of worlds of 2 or 3 entities, every operation in each with a panic at every destructor call, and all forms of access in each state, run in Miri (Tree Borrows); larger populations to a bound."),
    "C24": (MC, "explicit-state model checking of the implementation (exhaustive enumeration of repeated histories, with an allocation ledger, and of the schedules of concurrent creations)",
            "Every body of up to 4 operations (3 from a larger alphabet), closed in 3 ways, under 3 layouts and several populations, repeated 128 to 70 000 times on a real World; every handle issued is checked against the indexes waiting for reuse, and memory may not grow between the second quarter and the second half of the rounds. Threads that create entities at the same time, under all schedules after every short history, must use waiting indexes first as well."),
    "C13": (MC, "explicit-state model checking of the implementation (exhaustive exploration by forking of all continuations of states at the index and version limits, in lockstep with a reference model)",
            "The limits are reached by about 2^32 real operations; from there, all sequences of up to 4 of about 14 operations (3 for entities at the last indexes)."),
}
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in C:
        level, tech, note = C[i]
        checks.append({"property": i, "quick_cmd": f"./run.sh {i}", "thorough_cmd": f"./run.sh {i} --thorough",
                       "technique": tech, "level": level, "level_note": note + " " + BASE})
    else:
        na.append({"property": i, "reason": "The check for this property is still being built; model checking applies (see DESIGN.md)."})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "hooks": {"guard": "none", "enable": "No hooks were added to /repo; the checks use only its public API.", "source_commits": []}}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
