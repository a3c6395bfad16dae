#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of claimed checks."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COMMON = ("Exploration: holds on the executions observed, whose number and diversity the evidence file reports. "
          "Trusts the independent zserio reference model in harness/zs (written from the zserio 2.x specification) and the Go toolchain. ")
T = {
 "C01": ("online oracle over the runtime codecs: differential against a bit-exact reference, exhaustive for narrow types", ""),
 "C02": ("trace monitor over the bit stream: recorded operation logs against a list-of-bits model", ""),
 "C03": ("round-trip oracle on generated code under schema- and value-generating workloads", ""),
 "C04": ("interposed bit-stream monitor comparing every encoding with a reference encoder, at many bit positions", ""),
 "C05": ("interposed bit-stream monitor against a reference delta-packing codec, adversarial sequences", ""),
 "C06": ("conservation monitor: announced bit size against bits the interposed writer sees", ""),
 "C07": ("fault injection at every writer operation and sink byte, and unrepresentable values; error oracle", ""),
 "C08": ("fault injection at every reader operation and source byte, every truncation; error oracle", ""),
 "C09": ("hostile-input workload under panic, progress and allocation monitors", ""),
 "C10": ("Go race detector and result oracle over concurrent workloads in fresh processes", ""),
 "C11": ("purity monitors: snapshots, repeated and interleaved operations, dirty targets, fragmented delivery, aliasing probes", ""),
 "C12": ("interposed monitors over parameterised types: presence, selector and parameter oracle", ""),
 "C13": ("differential oracle: generated and evaluated expressions against an exact expression model", ""),
 "C14": ("model oracle over the enum and bitmask API and SQL conversion", ""),
 "C15": ("replayed generator runs with permuted inputs; byte comparison of the output trees", ""),
 "C16": ("generator runs on generated and hand-written schemas; Go compiler and symbol oracle", ""),
 "C17": ("generator runs on invalid schemas; exit, message and side-effect monitor", ""),
 "C18": ("file-system effect monitor around generator runs, with injected faults", ""),
 "C19": ("metamorphic runs of equivalent schemas, compared with each other and the reference", ""),
 "C20": ("state monitor: default loading against schema initialisers on dirty objects", ""),
}
claimed = [l.split('"')[1] for l in open(os.path.join(here, "harness/cmd/driver/plans.go")) if l.startswith('\t"C')]
NA = json.load(open(os.path.join(here, "tools", "na.json"))) if os.path.exists(os.path.join(here, "tools", "na.json")) else {}
checks = []
for i in sorted(claimed):
    t, n = T[i]
    checks.append({"property": i, "quick_cmd": f"bash run.sh {i} quick", "thorough_cmd": f"bash run.sh {i} thorough",
                   "evidence_file": f"evidence/{i}.json", "technique": "runtime monitoring: " + t, "level": "exploration" if i not in ("C07", "C08") else "fault_enumeration",
                   "level_note": COMMON + n})
na = [{"property": i, "reason": NA.get(i, "check under construction")} for i in sorted(T) if i not in claimed]
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the runtime's Reader and Writer interfaces and the command line are the interposition points. All changes in /repo are fix: commits."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
