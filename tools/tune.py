#!/usr/bin/env python3
"""Measures every family's ladder on the current tree and writes lib/tune.json:
tune.py SECONDS [KEY PREFIX ...]: families not tuned yet (not with -) and those with such keys.
key -> [[seconds, paths, [covers]], ...] up to the last rung that is worth running."""
import concurrent.futures as cf, json, os, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib"))
import build, engine, jobs
pool = engine.Pool()
LIMIT = float(sys.argv[1]) if len(sys.argv) > 1 else 60
only = sys.argv[2:]
OUT = os.path.join(jobs.VERIF, "lib/tune.json")
b = build.build_all()
T = tempfile.mkdtemp(prefix="tune")  # so that the tree can be rebuilt meanwhile
SX, BC = shutil.copy(b["sx"], T), shutil.copy(b["dev"][0], T)
old = json.load(open(OUT)) if os.path.exists(OUT) else {}


def tune(f):
    rows = []
    last = 0.5
    prev = None
    for params in f.ladder:
        est = last if prev is None else last * max(1.3, last / prev)
        if est > LIMIT * 1.5:
            break
        o = tempfile.mktemp()
        _, text = pool.run(SX, BC, ["--entry", f.entry, "--param", ",".join(map(str, params)), "--max-steps", str(f.steps(params)), "--max-secs", str(LIMIT), "--max-traces", "0", "--out", o], LIMIT + 200)
        if not os.path.exists(o):
            return f.key, "failed: " + text[-300:]
        j = json.load(open(o))
        os.remove(o)
        if j["violations"]:
            return f.key, "violation %s %s" % (params, j["violations"][0])
        if not j["complete"]:
            if not any(w in (j["error"] or "") for w in ("time", "answered unknown")):
                return f.key, "error %s %s" % (params, j["error"])
            break
        rows.append([round(j["seconds"], 2), j["paths"], sorted(map(int, j["covers"]))])
        prev, last = max(last, 1.0) if prev is None else last, max(j["seconds"], 0.5)
    return f.key, rows


fams = {k: f for k, f in jobs.all_families().items() if ("-" not in only and k not in old) or any(k.startswith(o) for o in only)}
bad = 0
with cf.ThreadPoolExecutor(8) as ex:
    for k, rows in ex.map(tune, fams.values()):
        if isinstance(rows, str) or not rows:
            bad += 1
            print(k, rows, flush=True)
        else:
            old[k] = rows
            with open(OUT + ".new", "w") as o:
                json.dump({k: old[k] for k in sorted(old)}, o, separators=(",", ":"))
            os.replace(OUT + ".new", OUT)
pool.drop()
shutil.rmtree(T)
print(len(fams), "tuned,", bad, "bad")
