#!/usr/bin/env python3
"""trymutants.py DIR [ids]: which check notices each surviving mutant of DIR (see mutate.py); applied in /repo and undone."""
import os, subprocess, sys, time
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
D = os.path.abspath(sys.argv[1])
FIRST = {"buffer.rs": [1, 2, 4], "impls.rs": [12, 10, 9, 11], "vec.rs": [17], "lib.rs": [19], "tag.rs": [5, 6], "one_of.rs": [7, 6], "many.rs": [7, 6, 12], "text/mod.rs": [8], "fn_impl.rs": [14, 13, 15, 18, 16],
         "attr.rs": [14, 15, 16], "enum_impl": [15, 13], "struct_impl": [14]}
done = set(l[:3] for l in open(D + "/results")) if os.path.exists(D + "/results") else set()
for n in [a for a in sys.argv[2:] if a[0] != "-"] or sorted(f[:3] for f in os.listdir(D) if f.endswith(".diff")):
    if n in done and not sys.argv[2:]:
        continue
    diff = open("%s/%s.diff" % (D, n)).read()
    what = " ".join(l for l in diff.split("\n") if l[:1] in "+-" and l[:3] not in ("+++", "---"))
    what = diff.split("\n")[0].split(" b/")[1] + " " + " ".join(what.split())[:200]
    order = []
    for k, v in FIRST.items():
        if k in what.split(" ")[0]:
            order += v
    order += [i for i in ([22, 3] if not "--all" in sys.argv else range(1, 28)) if i not in order]
    assert not subprocess.check_output(["git", "-C", "/repo", "status", "--porcelain"])
    subprocess.run(["git", "-C", "/repo", "apply", "%s/%s.diff" % (D, n)], check=True)
    res = "MISSED"
    try:
        for i in order:
            p = "C%02d" % i
            r = subprocess.run([sys.executable, "check.py", p], cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode == 1:
                res = "caught by " + p + " | " + " / ".join(x.strip()[:100] for x in r.stdout.strip().split("\n")[-4:-2])
                break
            if r.returncode != 0:
                res = "MISSED (undecided %s: %s)" % (p, r.stdout[-200:].replace("\n", " / "))
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."], check=True)
    line = "%s %s | %s" % (n, res, what)
    print(line, flush=True)
    open(D + "/results", "a").write(line + "\n")
