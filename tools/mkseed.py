#!/usr/bin/env python3
"""mkseed.py SPECS.py [ids]: makes /verif/seeded/<id>/ from specs, each tried in a scratch copy of /repo (never /repo itself):
the change must apply, build, pass the stable tests, and its demo must pass without it and fail with it."""
import json, os, runpy, shutil, subprocess, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
WT = "/tmp/wt"
DEMO = '''#!/bin/bash
# builds demo.rs (beside this file) against the nommy of the current directory and runs it
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
. /opt/vp/env.sh
w=$(mktemp -d)
trap 'find "$w" -delete' EXIT
mkdir "$w/src"
cp "$here/demo.rs" "$w/src/main.rs"
cat > "$w/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[dependencies]
nommy = { path = "$repo/nommy" }
[workspace]
X
cd "$w" || exit 2
export CARGO_TARGET_DIR="$w/target"
cargo build --offline -q || exit 2
timeout 60 "$w/target/debug/demo"
'''


def sh(cmd, cwd=WT, timeout=600):
    p = subprocess.run(cmd, shell=True, executable="/bin/bash", cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode(errors="replace")


ENV = "R=$PWD; . /opt/vp/env.sh; cd $R; "
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def tests():
    rc, out = sh(ENV + "cargo test --workspace --no-fail-fast --offline -- --test-threads 8 2>&1", timeout=300)
    bad = [l for l in out.split("\n") if "FAILED" in l or "error" in l]
    import re
    passed = sum(int(x) for x in re.findall(r"(\d+) passed", out))
    return rc == 0, passed, bad, out


specs = runpy.run_path(sys.argv[1])["SPECS"]
want = sys.argv[2:]
for s in specs:
    if want and s["id"] not in want:
        continue
    sh("git checkout -q -- . && git reset -q --hard %s" % subprocess.check_output("git -C /repo rev-parse HEAD", shell=True, text=True).strip())
    ok = True
    for f, old, new in s["edits"]:
        p = os.path.join(WT, f)
        t = open(p).read()
        n = s.get("count", {}).get(f, 1)
        if t.count(old) != n:
            print(s["id"], "edit matches", t.count(old), "times in", f)
            ok = False
            break
        open(p, "w").write(t.replace(old, new))
    if not ok:
        continue
    good, passed, bad, out = tests()
    if not good:
        print(s["id"], "TESTS FAIL:", passed, bad[:4])
        if "error" in " ".join(bad):
            print(out[-1500:])
        continue
    d = os.path.join(V, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(sh("git diff")[1])
    open(d + "/demo.rs", "w").write(s["demo"].strip() + "\n")
    open(d + "/demo.sh", "w").write(DEMO)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    r1, o1 = sh("bash %s/demo.sh" % d)
    sh("git checkout -q -- .")
    r0, o0 = sh("bash %s/demo.sh" % d)
    verdict = "ok" if r0 == 0 and r1 not in (0, 2) else "BAD DEMO (clean %d, patched %d)" % (r0, r1)
    print(s["id"], s["property"], "tests %d" % passed, verdict, "|", " ".join(o1.split())[-160:])
    if verdict != "ok":
        print(o0[-1500:], o1[-800:])
sh("git checkout -q -- .")
