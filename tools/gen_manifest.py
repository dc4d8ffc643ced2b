#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the worlds that exist."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from worlds import WORLDS
TECH = {
 "C01": "deterministic simulation: seeded save/restart/load generations over simulated streams and files (short transfers, EINTR), checked against an independent tree model and parser",
 "C02": "deterministic simulation: seeded crash points, full disks and failing sinks during a save; prefix and reload oracle",
 "C03": "deterministic simulation: seeded storage damage to saved texts; independent reference parser as oracle; sanitizers",
 "C04": "deterministic simulation: seeded failures of opening, positioning, measuring and reading a source; only what the complete content denotes is accepted",
 "C05": "deterministic simulation: seeded memory placement (guard pages, neighbours), containers and acceleration paths; all must agree with the reference parser",
 "C06": "deterministic simulation: seeded allocation failures at every/any index inside operations; state, leak, exception and retry oracles",
 "C07": "deterministic simulation: seeded operation histories with failing operations; refinement against a plain tree model",
 "C08": "deterministic simulation: seeded copy/move/alias/convert histories with injected failures; ownership model as oracle",
 "C09": "deterministic simulation: seeded preemptive scheduling of reader threads at basic-block granularity; solo-run oracle and race detection",
 "C10": "deterministic simulation: seeded preemptive scheduling of threads with own documents and injected failures; solo-run oracle and race detection",
 "C11": "deterministic simulation: seeded failures of user conversion hooks inside nested conversions; exception, leak and state oracles",
 "C12": "deterministic simulation: seeded histories of updates, saves, crashes and restarts of a typed application on a simulated disk",
 "C13": "deterministic simulation: seeded C/C++ locale changes between and inside operations; classic-locale run as oracle",
 "C14": "deterministic simulation: seeded peers of other versions and damaged messages; independent conformance model as oracle",
 "C15": "deterministic simulation: enums drawn from a seed; seeded peers and damaged messages, overwritten memory, crashes and restarts; the list of enumerators as oracle, for two compilers",
 "C17": "deterministic simulation: structs drawn from a seed; seeded peers and damaged messages, crashes and restarts on a simulated disk; the field list as oracle",
 "C16": "deterministic simulation: the simulator grants each operation a stack of exactly the stated size; seeded documents, stream errors and failing allocations; overflow and result oracles",
 "C19": "deterministic simulation: simulated step clock (every basic block, bytes moved, allocations) over seeded growing inputs with split transfers, device errors and failing allocations; growth oracle over three sizes",
 "C20": "deterministic simulation: operations of other seeded programs run at drawn calls of the application's stream buffers, hooks, iterators, containers, copies and comparisons, nested, with failing hooks, allocations and devices; results checked against the model",
 "C21": "deterministic simulation: one process per run; a seed draws programs, the moment of each (static construction, main, threads, thread_local destructors, atexit, static destruction, unloading) and their order; results checked against the model",
 "C22": "deterministic simulation: seeded histories with references, iterators and views taken at any time and used later, failing allocations; addresses and contents checked after every operation against a model of object identity",
}
NA = {
 "C18": "packaging, compiler and option combinations are build-time facts, not behaviour of a simulated execution",
}
NOTE = ("Sampled executions only (no proof). Every run is a pure function of its seed; violations are reproduced in two fresh processes, minimised and "
        "re-verified from the replay file before they are reported. Trusts the reference model in sim/, libstdc++ and the sanitizers.")
m = {"version": 1, "setup_cmd": "true",
     "hooks": {"guard": "none (no hooks were added to /repo)", "enable": "every seam lies outside the library (allocator, streams, system calls, compiler instrumentation)", "source_commits": []},
     "checks": [], "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "notes": "See DESIGN.md. check.py builds the world of one property from /repo's working tree into /verif/build and searches it."}
for p in sorted(TECH):
    if p in WORLDS:
        m["checks"].append({"property": p, "quick_cmd": "python3 check.py %s quick" % p, "thorough_cmd": "python3 check.py %s thorough" % p,
                            "technique": TECH[p], "level": "exploration", "level_note": NOTE})
    else:
        m["not_applicable"].append({"property": p, "reason": "check under construction"})
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
