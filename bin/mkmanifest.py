#!/usr/bin/env python3
"""writes MANIFEST.json from the list of claimed properties"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEQ = "TLA+ / TLC: exhaustive sequential model MCSeq, trace validation of recorded sessions (TraceSeq), replay of TLC behaviours on the code"
SEQN = ("TLC explores the sequential algorithm exhaustively for small constants; thousands of random sessions on the real code are "
        "recorded through the public API and every step is checked by TLC against the relation of the specification; behaviours "
        "generated by TLC are stepped through the code with forced levels. Trusts TLC, the recording harness, and bounds of the sampling.")
CONC = "TLA+ / TLC: model of the lock-level interleavings (HnswConc), trace validation of executions under a controlled scheduler (TraceConc)"
CONCN = ("TLC explores all interleavings of 2-3 threads, one action per critical section; the real code runs under a controlled scheduler "
         "(parking_lot replaced by a stand-in through cargo patch), with random, priority and exhaustive two-preemption schedules; each "
         "recorded state is checked by TLC. Data races outside parking_lot locks are not covered.")
IO = "TLA+ / TLC: specification of the file format and of dump/reload (HnswFormat, HnswDump), traces of real dumps, files and reloads validated by TLC"
IOC = "TLC decides each recorded dump/reload step against the specification; "
ALL = {
    "P01": (SEQ, SEQN), "P02": (SEQ, SEQN), "P03": (SEQ, SEQN), "P04": (SEQ, SEQN), "P05": (SEQ, SEQN), "P06": (SEQ, SEQN),
    "P07": ("TLA+ / TLC: model of the request/answer channel (HnswPar), trace validation of parallel searches (TracePar)",
            "All interleavings of workers in the model; recorded parallel searches with perturbed timing in pools of 1..16 threads, each "
            "answer compared by TLC with the sequential one and with the specification. Real rayon schedules are sampled."),
    "P08": (CONC, CONCN), "P09": (CONC, CONCN), "P10": (CONC, CONCN), "P11": (CONC, CONCN),
}
import sys
sys.path.insert(0, os.path.join(ROOT, "bin"))
try:
    from manifest_more import MORE
    ALL.update(MORE)
except ImportError:
    pass
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in ALL:
        t, n = ALL[i][:2]
        checks.append({"property": i, "quick_cmd": "python3 bin/check.py " + i,
                       "thorough_cmd": "VERIF_TIER=thorough python3 bin/check.py " + i,
                       "evidence_file": "evidence/%s.json" % i, "technique": t, "level": "model_checking", "level_note": n})
    else:
        na.append({"property": i, "reason": "machinery not built yet"})
m = {"version": 1, "setup_cmd": "bash bin/setup.sh", "checks": checks, "not_applicable": na,
     "notes": "TLA+ specifications in spec/, harness crate in harness/ (no hooks in /repo: the locks are observed through a stand-in of parking_lot)."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
