#!/usr/bin/env python3
"""Writes MANIFEST.json (run by hand after adding a check)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
TMPL = "property-based testing: generated templates and data against an independent reference interpreter"
RACE = "randomized concurrent programs under the race detector"
T = {
 "C01": TMPL, "C02": TMPL, "C03": TMPL, "C04": TMPL, "C05": TMPL, "C06": TMPL, "C07": TMPL,
 "C08": "property-based testing: generated load histories against a bracket-balance oracle and before/after renders",
 "C09": "property-based testing: generated render histories, repeat-equality, data snapshots and the reference interpreter",
 "C10": "stateful property-based testing: histories of clone/add/edit/load against a tree model and before/after renders",
 "C11": RACE + ", outputs compared with sequential renders",
 "C12": "stateful property-based testing of data sets against a tree model",
 "C13": "property-based testing of typed reads against a conversion table",
 "C14": "property-based testing: generated nested maps, then modifications of both sides, against a tree model",
 "C15": "stateful property-based testing of collections against a deque model",
 "C16": "property-based testing of collection lookups against a last-record-wins model",
 "C17": "stateful property-based testing: clones then modifications of both sides, against deep-copied tree models",
 "C18": "differential property-based testing: plain against thread safe types call by call",
 "C19": RACE + ", histories checked for linearizability (porcupine), short duels compared with all interleavings",
 "C20": "fault-injecting property-based testing: panics injected into user code, model plus deadlock detection",
 "C21": "property-based testing of printed forms: histories with equal content, and a model printer",
 "C22": "stateful property-based testing of the cache against a map/recency model",
 "C23": "stateful property-based testing of the cache under a controlled clock (testing/synctest) against an age model",
 "C24": "stateful property-based testing of the limited cache against a recency-list model",
 "C25": RACE + ", linearizability (porcupine), forced overlaps in validators, quiescent-state invariants, short duels compared with all interleavings",
 "C26": "stateful property-based testing of language tables against a map model",
 "C27": "property-based testing/fuzzing of the flat language loader against an independent line parser",
 "C28": "property-based testing of the XML loader: documents written from a model, corrupted ones rejected",
 "C29": "property-based round-trip testing of exported XML",
 "C30": "differential property-based testing: file against string loading, unreadable paths",
 "C31": RACE + ", histories checked for linearizability (porcupine), short duels compared with all interleavings",
 "C32": RACE + ", every rendered value checked against the values its place had during the render",
 "C33": "property-based testing of printed templates: elements, equal sources, clones, repeated prints",
 "C34": "property-based testing of operation histories with changing settings against a cache model, fake clock",
 "C35": "property-based testing of twin objects: operations on one, observation of all",
 "C36": "property-based testing of repeated programs, memory in use after garbage collection compared",
}
NOTE = ("Search over generated cases, not a proof: the property held on every case generated (counts in the evidence file). "
        "Trusted: the oracle of the harness, the Go toolchain, rapid%s.")
DONE = open(os.path.join(HERE, "harness", "DONE")).read().split()
m = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": [], "not_applicable": []}
for p in sorted(T):
    if p not in DONE:
        m["not_applicable"].append({"property": p, "reason": "the check is not built yet"})
        continue
    extra = ""
    if p in ("C11", "C19", "C25", "C31", "C32"):
        extra = "; schedules are sampled, with the race detector on"
    if p in ("C19", "C25", "C31"):
        extra += ", and porcupine's linearizability checker"
    m["checks"].append({"property": p, "quick_cmd": "python3 run.py " + p, "thorough_cmd": "python3 run.py " + p + " --tier thorough",
                        "technique": T[p], "level": "exploration", "level_note": NOTE % extra})
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
