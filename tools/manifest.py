#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the table below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MC = "model_checking"
BFS = "explicit-state model checking of the real code: all operation histories up to a bound, states deduplicated by canonical heap graph, each step judged against a reference model"
ENUM = "exhaustive enumeration of bounded histories of the real code (explicit-state, deduplicated up to isomorphism), every observation compared with a reference model"
TRUST = " Trusts the instrumented pointer kind to behave as ArcTK; histories are replayed on RcK, ArcK and ArcTK."
CHECKS = {
    "C01": (MC, "explicit-state model checking of the real code: all histories of several coexisting versions, deduplicated by canonical heap graph, each step judged against a reference model",
            "Exhaustive within the printed bounds (most configurations close under all operations)." + TRUST),
    "C02": (MC, BFS, "List and Stack up to the printed lengths, all histories; longer ones along structured histories." + TRUST),
    "C03": (MC, BFS, "Queues up to the printed lengths, all histories; every word of operations up to a bound." + TRUST),
    "C04": (MC, BFS, "Several branching factors; all histories up to the printed lengths and every length up to a larger bound with every index." + TRUST),
    "C05": (MC, BFS, "Every multiset of hashes from a palette that reaches each kind of place in a trie, several degrees." + TRUST),
    "C06": (MC, BFS, "All tree shapes reachable up to the printed number of entries, and longer structured histories." + TRUST),
    "C07": (MC, ENUM, "Every tree shape up to a bound, every pair of bounds of every kind, every interleaving of front and back steps."),
    "C08": (MC, ENUM, "Every ordered pair of set states up to a bound, independently built, cloned or sharing parts."),
    "C09": (MC, ENUM, "Every shape up to a bound and every program of iterator calls up to a bound, against a reference sequence."),
    "C10": (MC, ENUM, "Every ordered pair of states up to a bound, across histories, configurations and pointer kinds."),
    "C11": (MC, BFS, "All histories of several coexisting versions; every element instance and node accounted for after every step." + TRUST),
    "C12": (MC, ENUM, "Work counted as node, reference-count, comparison and hash operations against explicit limits derived from the documented complexity."),
    "C13": (MC, ENUM, "Every tree shape up to a bound plus long structured histories; every present key and every gap looked up."),
    "C14": (MC, "stateless model checking of the real code: every schedule of two or three threads up to a preemption bound under a controlled scheduler, each judged in every thread and afterwards",
            "Sequentially consistent executions; scheduling points at every reference-count operation on shared nodes (and at reads and callbacks in some suites); small programs on small structures. On the shipping pointer kind, a switch after every machine instruction (1 preemption, 2 for small programs)."),
    "C15": (MC, "explicit-state model checking of all histories of several versions and all schedules of racing teardowns, with call-stack use measured in each",
            "Growth is judged between small and large structures and by nesting of node releases; within the printed bounds."),
    "C16": ("fault_enumeration", "exhaustive fault injection over explicit-state model checking: from every reachable state, every operation is run once for every call into user code, which panics there",
            "One panic per operation; states within the printed bounds; requires panic=unwind."),
    "C17": ("fault_enumeration", "exhaustive enumeration of contents, histories, declared lengths and points of failure of a serializer and a deserializer under full control, judged against a reference model",
            "Every sequence of items up to the printed length; the formats are a recording serializer, a scripted deserializer and serde_json."),
    "C18": ("exploration", "exhaustive enumeration of sources (item sequences, ways of declaring their size, fusing) and of the structures extended, each result compared with adding items one at a time",
            "Every sequence of items up to the printed length, a palette of valid size hints."),
    "C19": (MC, "stateless model checking of the real code: rayon's splitter is replaced by an oracle; every division of the work, order of the halves and moment of stopping is executed",
            "Every trie over a palette of hashes up to the printed size; the producer reads an immutable map, so that other workers act on it only through the consumer's answers, which are enumerated. Real thread pools are used for conformance only."),
    "C20": ("exploration", "exhaustive enumeration of all configurations (256 bit counts, 256 degrees, pointer kinds, hash builders), each driven through every word of operations up to a bound and through growth past every power of its degree",
            "Element counts up to the printed bounds; 64-bit usize."),
    "C21": (MC, "explicit-state model checking: every in-place transition of every reachable set of versions is executed again in its persistent form and the results compared", "Within the printed bounds." + TRUST),
}
NA = {
    "C22": "Auto traits are decided by the compiler for all programs at once; there is no execution, state or schedule to explore, so model checking cannot address it.",
}
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        lvl, tech, note = CHECKS[i]
        checks.append({"property": i, "quick_cmd": f"VERIF_TIER=quick ./check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
                       "technique": tech, "level": lvl, "level_note": note})
    else:
        na.append({"property": i, "reason": NA.get(i, "The check is not built yet.")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the pointer kind, the element types and the hash builder are type parameters, and the checks instantiate them with instrumented ones."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
