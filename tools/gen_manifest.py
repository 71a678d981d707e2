#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json (python3 tools/gen_manifest.py)."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
SEQ = "explicit enumeration of all operation sequences up to a depth bound on the real code, against a reference model"
BFS = "explicit-state search over the real code's operations with canonical state hashing, against a reference model"
INP = "bounded exhaustive enumeration of inputs on the real code, against an independent reference"
SCH = "stateless exploration of all thread schedules of the instrumented real code under a controlled scheduler"
T = {
 "C01": BFS, "C02": BFS, "C03": BFS, "C04": BFS, "C05": SCH, "C06": SCH,
 "C07": SEQ, "C08": SEQ, "C09": SEQ, "C10": SEQ,
 "C11": INP, "C12": INP, "C13": INP, "C14": INP, "C15": INP, "C16": INP, "C17": INP, "C18": INP, "C19": INP, "C20": INP,
 "C21": SEQ, "C22": INP, "C23": INP + "; every placement of short reads up to a deviation bound", "C24": INP, "C25": INP,
 "C26": SEQ, "C27": SEQ, "C28": SEQ, "C29": "enumeration of every answer of the random source, real code",
 "C30": "enumeration of all prefix-and-cycle (lasso) operation histories on the real code, the cycle unrolled to a bound",
 "C32": SEQ,
 "C31": SCH + "; every sequence of jobs up to a length bound",
}
common = "Every behaviour within the bounds listed in evidence/%s.json was executed on the code as it is in /repo and compared with the oracle on each step; nothing is sampled. Trusted: the Go toolchain, the reference model in mc/, and the small-scope assumption for what lies beyond the bounds."
note = {
 "C05": " Schedules: one thread runs at a time (sequential consistency), switches at every statement and every atomic operation.",
 "C06": " Schedules: as C05; the pool is replaced by one whose answer (any pooled object, or a new one) is a choice of the explorer.",
 "C13": " Two known findings (length fields of 1 and 2 bytes for H.264) are listed in known_findings.txt.",
 "C31": " Schedules: as C05, in every package; pools hand out the object freed last.",
 "C29": " The random source is replaced by enumeration of its answers.",
}
from itertools import count
checks = []
for i in range(1, 33):
    k = "C%02d" % i
    if k not in T: continue
    checks.append(dict(property=k, quick_cmd="./check.sh " + k, thorough_cmd="VERIF_TIER=thorough ./check.sh " + k,
        evidence_file="evidence/%s.json" % k, technique=T[k], level="model_checking", level_note=common % k + note.get(k, "")))
m = dict(version=1, setup_cmd="./setup.sh",
    hooks=dict(guard="none (no hooks are committed in /repo)", enable="C05, C06, C29 and C31 build /repo's working tree through 'go build -overlay': mc/cmd/instr writes copies of the current sources in which sync, sync/atomic and math/rand are stand-ins and every statement is a scheduling point", source_commits=[]),
    checks=checks, not_applicable=[],
    notes="One binary per check, rebuilt from /repo on every run; see DESIGN.md.")
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
