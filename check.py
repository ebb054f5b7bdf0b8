#!/usr/bin/env python3
"""Runs the simulation check of one property.

  check.py C01 [--tier quick|thorough] [--runs N]

exit 0  the property held in every simulated run
exit 1  VIOLATION property=<id> replay=<path> (reproduced in a fresh process)
exit 2  the check itself failed (build error, a run that does not replay)
"""
import json, os, re, shutil, struct, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
import build as B
import props as P

WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))


def load_known():
    """known_findings.txt: 'known: property=<id> class=<c> match=<text> -- <what fails>'."""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) class=(\S+) match=(.*?) -- (.*)$", line.strip())
            if m:
                out.append(m.groups())
    return out


def is_known(known, prop, cls, msg):
    for k in known:
        if k[0] == prop and k[1] == cls and k[2] in msg:
            return k
    return None


class Worker:
    def __init__(self, exe, prop, seed, w, start, count, scratch, limit, extra):
        self.w, self.start, self.count = w, start, count
        self.out = os.path.join(scratch, "w%d_%d.json" % (w, start))
        self.prog = os.path.join(scratch, "w%d.prog" % w)
        self.err = open(os.path.join(scratch, "w%d.err" % w), "wb")
        self.p = subprocess.Popen([exe, "--prop", prop, "--seed", str(seed), "--start", str(start), "--stride", str(WORKERS),
                                   "--count", str(count), "--limit", str(limit), "--progress", self.prog, "--out", self.out] + extra,
                                  stdout=subprocess.PIPE, stderr=self.err)

    def finish(self):
        out, _ = self.p.communicate()
        self.err.close()
        rc = self.p.returncode
        res = dict(rc=rc, text=out.decode(errors="replace"))
        if rc in (0, 1, 5, 6) and os.path.exists(self.out):
            with open(self.out) as f:
                res["stats"] = json.load(f)
            res["bad_run"] = res["stats"]["bad_run"]
        else:
            with open(self.prog, "rb") as f:
                res["bad_run"] = struct.unpack("<Q", f.read(8))[0]
            res["crashed"] = True
        return res


def main():
    prop = sys.argv[1]
    a = sys.argv[2:]
    tier = a[a.index("--tier") + 1] if "--tier" in a else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cfg = P.PROPS[prop]
    runs = int(a[a.index("--runs") + 1]) if "--runs" in a else cfg[tier]
    limit = cfg["limit"] if tier == "quick" else cfg.get("thorough_limit", 1200)
    t0 = time.time()
    try:
        exe = B.build(prop, cfg["variant"])
    except B.BuildError as e:
        print("BUILD-ERROR\n%s" % e)
        return 2
    t_build = time.time() - t0
    scratch = os.path.join(B.BUILD, "run", "%s.%d" % (prop, os.getpid()))
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)
    replays = os.path.join(VERIF, "replays")
    os.makedirs(replays, exist_ok=True)
    known = load_known()
    extra = ["--thorough"] if tier == "thorough" else []
    extra += ["--twice", str(cfg.get("twice", 16)), "--cpu-budget", str(cfg.get("cpu_budget", 20))]
    stats, hashes, nthashes, states, samples = {}, set(), set(), set(), []
    faults, probes = {}, {}
    violation, known_hits, errors = None, {}, []

    def absorb(w, res):
        st = res.get("stats")
        if not st:
            return
        for k in ("runs", "draws", "steps", "sim_us", "nontrivial", "doubled"):
            stats[k] = stats.get(k, 0) + st[k]
        stats["truncated"] = stats.get("truncated", 0) + st["truncated"]
        for src, dst in ((st["faults"], faults), (st["probes"], probes)):
            for k, v in src.items():
                dst[k] = dst.get(k, 0) + v
        samples.extend(st["samples"])
        if st["error"]:
            errors.append((w, st["error"]))
        for suffix, dst in ((".h", hashes), (".n", nthashes), (".s", states)):
            with open(w.out + suffix, "rb") as f:
                b = f.read()
            dst.update(struct.unpack("<%dQ" % (len(b) // 8), b))

    t1 = time.time()
    per = (runs + WORKERS - 1) // WORKERS
    ws = [Worker(exe, prop, seed, w, w, per, scratch, limit, extra) for w in range(WORKERS)]
    loose = None
    todo = list(ws)
    while todo:
        w = todo.pop(0)
        res = w.finish()
        absorb(w, res)
        if res["rc"] == 0:
            continue
        if res["rc"] == 2 or res["bad_run"] == 2**64 - 1:
            print("CHECK-ERROR worker %d ended with %d: %s" % (w.w, res["rc"], res["text"]))
            with open(w.err.name, "rb") as f:
                print(f.read()[-2000:].decode(errors="replace"))
            return 2
        # A violation: shrink it in fresh processes and replay the result.
        rfile = os.path.join(replays, "%s-%s-%d.json" % (prop, tier, res["bad_run"]))
        base = [exe, "--prop", prop, "--seed", str(seed), "--out", rfile, "--cpu-budget", str(cfg.get("cpu_budget", 20)),
                "--budget", str(cfg.get("shrink_budget", 30))] + (["--thorough"] if tier == "thorough" else [])
        r = subprocess.run(base + ["--shrink", "--run", str(res["bad_run"])], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if r.returncode == 4:
            # Needs a history: earlier runs of this worker in the same process.
            idx = (res["bad_run"] - w.start) // WORKERS
            n = 1
            while True:
                lo = max(0, idx - n)
                seq = [w.start + k * WORKERS for k in range(lo, idx + 1)]
                if res["rc"] == 6:
                    seq.append(res["bad_run"])
                r = subprocess.run(base + ["--seq", ",".join(map(str, seq))], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
                if r.returncode == 1 or lo == 0 or n > 100000:
                    break
                n *= 8
        def unsteady(why):
            # The run failed, against the real code, but the code does not do
            # the same thing again (it read memory it never set, say).  Another
            # failing run that replays is preferred.
            with open(rfile, "w") as f:
                json.dump({"property": prop, "seed": seed, "run": res["bad_run"], "note": "failed, does not fail the same way again: " + why,
                           "command": "%s --prop %s --seed %d --show --run %d" % (exe, prop, seed, res["bad_run"]), "text": res["text"]}, f)
            return ("unsteady", ("run %d failed (%s) but not the same way again (%s)" % (res["bad_run"], res["text"].strip()[:300], why)).replace("\n", " "), rfile)
        if r.returncode != 1:
            loose = loose or unsteady("%d %s" % (r.returncode, r.stderr.decode(errors="replace")[-300:]))
            continue
        cls, msg = (r.stdout.decode(errors="replace").split("\n") + ["", ""])[:2]
        rr = subprocess.run([exe, "--replay", rfile, "--quiet"], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if rr.returncode != 1:
            loose = loose or unsteady("the replay ended with %d" % rr.returncode)
            continue
        k = is_known(known, prop, cls, msg)
        if k:
            known_hits[k] = known_hits.get(k, 0) + 1
            done = (res["bad_run"] - w.w) // WORKERS + 1
            if done < per and known_hits[k] < 400:
                todo.append(Worker(exe, prop, seed, w.w, w.w + done * WORKERS, per - done, scratch, limit, extra))
            continue
        violation = (cls, msg, rfile)
        for o in todo:
            o.p.kill()
            o.p.wait()
        break
    violation = violation or loose
    # Runs whose in-process repetition differed: are they exact in fresh processes?
    fresh = 0
    for w, lst in errors:
        for run in lst.split(",")[:4]:
            hs = set()
            for _ in range(3):
                r = subprocess.run([exe, "--prop", prop, "--seed", str(seed), "--show", "--run", run] + extra, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
                hs.add(r.stdout[-200:])
            fresh += 1
            if len(hs) != 1 and not violation:
                print("CHECK-ERROR run %s is not deterministic" % run)
                return 2
    wall = time.time() - t1
    sys.path.insert(0, os.path.join(VERIF, "tools"))
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": cfg.get("level", "exploration"),
        "coverage": {
            "evaluations": stats.get("runs", 0),
            "distinct_nontrivial": len(nthashes),
            "rule": cfg.get("rule", ""),
            "samples": [s for s in samples if len(s) > 20][:6] or samples[:3],
            "simulated_runs_per_hour": int(stats.get("runs", 0) / wall * 3600) if wall > 0 else 0,
            "simulated_time_s": round(stats.get("sim_us", 0) / 1e6, 3),
            "choice_points": stats.get("draws", 0),
            "simulated_steps": stats.get("steps", 0),
            "faults_injected": faults,
            "rare_conditions_hit": probes,
            "distinct_histories": len(hashes),
            "distinct_states": len(states),
            "state_measure": cfg.get("state_measure", ""),
            "runs_repeated_and_compared": stats.get("doubled", 0),
            "in_process_repeats_that_differed": sum(len(l.split(",")) for _, l in errors),
            "workers_stopped_by_time_limit": stats.get("truncated", 0),
            "workers": WORKERS,
            "real_components": cfg.get("real", []),
            "stub_components": cfg.get("stub", []),
            "known_findings_hit": {k[3]: v for k, v in known_hits.items()},
        },
        "assumptions": cfg.get("assumptions", []),
        "wall_s": round(time.time() - t0, 3),
        "violations": 1 if violation else 0,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", prop + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.rename(tmp, os.path.join(VERIF, "evidence", prop + ".json"))
    shutil.rmtree(scratch, ignore_errors=True)
    for k in known_hits:
        print("KNOWN-FINDING: property=%s %s" % (prop, k[3]))
    print("%s: %d runs, %d distinct histories, %d states, faults %s, build %.1fs, run %.1fs" % (
        prop, stats.get("runs", 0), len(hashes), len(states), json.dumps(faults), t_build, wall))
    if violation:
        cls, msg, rfile = violation
        print("%s: %s" % (cls, msg))
        print("VIOLATION property=%s replay=%s" % (prop, rfile))
        return 1
    B.prune()
    return 0


if __name__ == "__main__":
    sys.exit(main())
