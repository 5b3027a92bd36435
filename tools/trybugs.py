#!/usr/bin/env python3
"""trybugs.py [ids]: runs each seeded change's own check (and with --all every check) against it, in /repo, and undoes it.
Prints which are caught."""
import json, os, subprocess, sys, time
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
args = [a for a in sys.argv[1:] if not a.startswith("-")]
ids = args or sorted(os.listdir(V + "/seeded"))
allp = "--all" in sys.argv


def git(*a):
    subprocess.run(["git", "-C", "/repo"] + list(a), check=True)


for i in ids:
    meta = json.load(open("%s/seeded/%s/meta.json" % (V, i)))
    props = ["C%02d" % k for k in range(1, 28)] if allp else [meta["property"]]
    assert not subprocess.check_output(["git", "-C", "/repo", "status", "--porcelain"])
    git("apply", "%s/seeded/%s/patch.diff" % (os.path.abspath(V), i))
    try:
        caught = []
        for p in props:
            t = time.time()
            r = subprocess.run([sys.executable, "check.py", p], cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            last = r.stdout.strip().split("\n")
            print("%-34s %s exit %d %4.0f s | %s" % (i, p, r.returncode, time.time() - t, " / ".join(l.strip()[:150] for l in last[-4:-1]) if r.returncode == 1 else r.stdout[-300:].replace("\n", " / ")), flush=True)
            if r.returncode == 1:
                caught.append(p)
        if allp:
            print("== %s (%s) caught by %s" % (i, meta["property"], " ".join(caught)), flush=True)
    finally:
        git("checkout", "-q", "--", ".")
