#!/usr/bin/env python3
"""seedcheck.py [--run] [--all-checks] ID...: validates planted bugs (applies to /repo, undone afterwards).
Not part of any check."""
import json, os, subprocess, sys, re
V = "/verif"
BASE = "189af38"
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
def passed(out):
    o = json.load(open(out)); return set(o.get("passed", o.get("tests", o)))
def original(patch):
    """lines the patch removes or edits that are not of the original repository; hunks that only add are judged by context"""
    bad = []
    cur = None
    for l in open(patch):
        if l.startswith("--- a/"): cur = l[6:].strip()
        m = re.match(r"@@ -(\d+)(?:,(\d+))? ", l)
        if m: ln = int(m.group(1)); continue
        if cur is None or l.startswith(("---", "+++", "diff", "index")): continue
        if l.startswith("-"):
            b = sh(f"git -C /repo blame -l -s -L {ln},{ln} HEAD -- {cur}").stdout
            if not b.startswith("^") and not b.startswith(sh(f"git -C /repo rev-parse {BASE}").stdout.strip()[:39]):
                bad.append((cur, ln, l.strip()))
            ln += 1
        elif l.startswith(" "): ln += 1
    return bad
run = "--run" in sys.argv
ids = [a for a in sys.argv[1:] if not a.startswith("--")] or sorted(os.listdir(V + "/seeded"))
assert sh("git -C /repo status --porcelain").stdout == "", "repo dirty"
base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
for i in ids:
    d = f"{V}/seeded/{i}"
    meta = json.load(open(d + "/meta.json"))
    res = [i, meta["property"]]
    r = sh(f"git -C /repo apply --check {d}/patch.diff")
    if r.returncode: print(i, "DOES NOT APPLY", r.stderr[:300]); continue
    bad = original(d + "/patch.diff")
    if bad: res.append(f"non-original lines {bad}")
    if "--fast" not in sys.argv:
        sh("bash /opt/vp/build.sh")
        r = sh(f"bash {d}/demo.sh", cwd="/repo")
        res.append("demo-clean=%d" % r.returncode)
        if r.returncode: print(r.stdout[-800:], r.stderr[-800:])
    sh(f"git -C /repo apply {d}/patch.diff")
    try:
        if "--fast" not in sys.argv:
            b = sh("bash /opt/vp/build.sh")
            res.append("build=%d" % b.returncode)
            if b.returncode: print(b.stderr[-1500:])
            sh("bash /opt/vp/test.sh /tmp/sc.json")
            miss = base - passed("/tmp/sc.json")
            res.append("tests-missing=%d" % len(miss))
            if miss: print(sorted(miss)[:8])
            r = sh(f"bash {d}/demo.sh", cwd="/repo")
            res.append("demo-patched=%d" % r.returncode)
            if "-v" in sys.argv or r.returncode == 0: print(r.stdout[-600:], r.stderr[-600:])
        if run:
            r = sh(f"bash {V}/run.sh {meta['property']} quick", cwd=V, env={**os.environ, "VERIF_SEED": "1", "VERIF_TIER": "quick"})
            res.append(f"check exit={r.returncode} viol={r.stdout.count('VIOLATION')}")
            print("\n".join(r.stdout.splitlines()[:3]), r.stderr[-300:])
    finally:
        sh("git -C /repo checkout -- .")
    print(*res, flush=True)
