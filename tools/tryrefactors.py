#!/usr/bin/env python3
"""tryrefactors.py [-p C01,C02] patches...: applies the given behaviour-preserving patches (of tools/refactorings) together to /repo,
runs the checks, which must stay quiet, and undoes them."""
import os, subprocess, sys, time
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
D = os.path.join(V, "tools/refactorings")
args = sys.argv[1:]
props = ["C%02d" % k for k in range(1, 28)]
if args and args[0] == "-p":
    props, args = args[1].split(","), args[2:]
names = args or sorted(f[:-5] for f in os.listdir(D))
assert not subprocess.check_output(["git", "-C", "/repo", "status", "--porcelain"])
try:
    for n in names:
        subprocess.run(["git", "-C", "/repo", "apply", os.path.join(os.path.abspath(D), n + ".diff")], check=True)
    for p in props:
        t = time.time()
        r = subprocess.run([sys.executable, "check.py", p], cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        print("%s exit %d %4.0f s | %s" % (p, r.returncode, time.time() - t, r.stdout.strip()[-200 if r.returncode == 0 else -1500:].replace("\n", " / ")), flush=True)
finally:
    subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."], check=True)
