#!/usr/bin/env python3
# MANIFEST.json from checks.json and properties.jsonl
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
cs = json.load(open(V + "/checks.json")); ps = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
T = {"fnmc": "explicit-state model checking of the real multi-threaded code under a controlled scheduler (fnmc)",
     "seqx": "exhaustive enumeration of operation/environment sequences on the real code against a reference model (seqx)"}
N = {"fnmc": "All interleavings of the listed small drivers within the stated preemption bound (none where unbounded), over an operating-system model (files, sockets, shared memory, time); sequentially consistent atomics (TSO store buffers where stated), data races checked by vector clocks.",
     "seqx": "Every sequence over the listed alphabet up to the listed length, run on the real code built with ASan/UBSan; values outside the alphabet are not covered."}
m = dict(version=1, setup_cmd="true", checks=[], not_applicable=[])
for p in ps:
    if p not in cs: m["not_applicable"].append(dict(property=p, reason="check not built yet")); continue
    c = cs[p]; es = sorted(set(e for e, _ in c["parts"]))
    m["checks"].append(dict(property=p, quick_cmd="python3 run_check.py " + p, thorough_cmd="VERIF_TIER=thorough python3 run_check.py " + p,
        evidence_file="evidence/%s.json" % p, technique=" + ".join(T[e] for e in es), level="model_checking", level_note=" ".join(N[e] for e in es)))
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks", len(m["not_applicable"]), "not claimed")
