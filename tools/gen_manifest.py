#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json (run: python3 tools/gen_manifest.py)."""
import json, os, re
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
have = set()
for f in os.listdir(os.path.join(root, "harness", "checks")):
    have |= set(re.findall(r'All\["(C\d\d)"\]', open(os.path.join(root, "harness", "checks", f)).read()))
TECH = {
 "C05": "runtime monitoring: online checker of findings against executions of the scanned programs over boundary values",
 "C06": "runtime monitoring: findings compared with the panics observed when the scanned programs are executed",
 "C14": "runtime monitoring: differential oracle (comments ignored vs. honoured) with an independent reference model of suppression",
 "C15": "runtime monitoring: conservation checker over tracked and untracked scans of the same program",
 "C17": "runtime monitoring: Go race detector plus output-equality monitor over varied concurrency, order and injected scheduling noise",
 "C34": "runtime monitoring: file-system snapshots, system-call traces and a recording stand-in service around real runs",
 "C36": "runtime monitoring: metamorphic oracle over scans of programs and of equivalent rewritings of them",
 "C37": "runtime monitoring: differential oracle over scans of the same program under pairs of configurations",
 "C39": "runtime monitoring: call recorder inside registered rules and analyzers, compared with an independent walk of the sources",
 "C40": "runtime monitoring: black-box runs of the command against a stand-in service, written files parsed and compared",
 "C41": "runtime monitoring: black-box runs of the command, listings compared with an independent parse and type check",
 "C42": "runtime monitoring: a probing rule records the helpers' answers during scans, compared with go/types and go/constant",
 "C43": "runtime monitoring: offline checker of the recorded log against the trace specification of a scan",
 "C44": "runtime monitoring: crash oracle and differential oracle (wrong values present vs. absent) over scans under malformed configurations and options",
 "C20": "runtime monitoring: crash and error oracle over mutated, ill-typed and hostile sources with sentinel packages",
}
DEF = "runtime monitoring: independent oracle over recorded findings of real scans of generated programs"
OUT = "runtime monitoring: reports parsed with independent parsers and compared with the recorded findings"
for k in ("C24", "C25", "C26", "C31"): TECH[k] = OUT
checks = []
na = []
for p in props:
    i = p["id"]
    if i in have:
        checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
          "technique": TECH.get(i, DEF), "level": "exploration",
          "level_note": "Decided on the executions observed (counts in the evidence file): the real scanner runs on generated workloads and an oracle that shares no code with it judges each run. Says nothing about programs outside the generators described in DESIGN.md; trusts the Go toolchain, go/types and go/packages."})
    else:
        na.append({"property": i, "reason": "no check built yet"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks: the monitors attach through gosec's exported API, its command line and the reports it writes, so /repo carries only fix commits."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
print(len(checks), "claimed", len(na), "not")
