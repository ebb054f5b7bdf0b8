#!/usr/bin/env python3
"""trybug.py [--fast] ID...: applies each planted bug to /repo, builds, runs the stable tests and the demo,
runs the property's check, and reverts. --fast: only the check."""
import json, os, subprocess, sys, time
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
fast = "--fast" in sys.argv
ids = [a for a in sys.argv[1:] if not a.startswith("--")]
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
if sh("git -C /repo status --porcelain --untracked-files=no").stdout: sys.exit("/repo is dirty")
for i in ids:
    d = "/verif/seeded/" + i
    m = json.load(open(d + "/meta.json"))
    out = []
    if not fast:
        sh("bash /opt/vp/build.sh")
        r = sh("bash %s/demo.sh" % d, cwd="/repo")
        out.append("demo-clean=%d" % r.returncode)
        if r.returncode: print(r.stdout.decode(errors="replace")[-1500:])
    try:
        r = sh("git -C /repo apply %s/patch.diff" % d)
        if r.returncode: print(i, "DOES NOT APPLY", r.stdout.decode()); continue
        if not fast:
            r = sh("bash /opt/vp/test.sh /tmp/trybug.json")
            try: missing = stable - set(json.load(open("/tmp/trybug.json"))["passed"])
            except Exception: missing = ["?"]
            out.append("missing-tests=%d" % len(missing))
            if missing: print(sorted(missing)[:5], r.stdout.decode(errors="replace")[-600:])
            r = sh("bash %s/demo.sh" % d, cwd="/repo")
            out.append("demo-bug=%d" % r.returncode)
        t = time.time()
        r = sh("cd /verif && VERIF_SEED=1 VERIF_TIER=quick python3 check.py %s" % m["property"])
        last = [l for l in r.stdout.decode(errors="replace").split("\n") if l]
        ok = r.returncode == 1 and any(l.startswith("VIOLATION property=%s " % m["property"]) for l in last)
        out.append("check=%s rc=%d %.0fs" % ("CAUGHT" if ok else "MISSED", r.returncode, time.time() - t))
        out.append(" | ".join(x[:160] for x in last[-2:-1]))
    finally:
        sh("git -C /repo checkout -- .")
    print(i, m["property"], *out, flush=True)
if not fast: sh("bash /opt/vp/build.sh")
