#!/usr/bin/env python3
"""check.py <property id> : decides one property on /repo's current tree. See DESIGN.md.
Exit 0: held on everything explored. 1: violated (a VIOLATION line is printed). 2: the check could not decide."""
import concurrent.futures as cf, hashlib, json, os, random, re, resource, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "lib"))
import build, engine, jobs  # noqa: E402

CORES = os.cpu_count() or 4
TIERS = {  # cpu seconds to spend (as tuned), wall seconds before deep rungs are given up, and in all
    "quick": dict(budget=200.0, deep_until=300.0, stop=600.0, traces=12),
    "thorough": dict(budget=8 * 900.0, deep_until=3000.0, stop=7200.0, traces=48),
}


class Run:
    """one execution of the engine on one harness with one set of bounds"""
    pool = engine.Pool()

    def __init__(self, fam, rung, tuned):
        self.fam, self.rung, self.params = fam, rung, fam.ladder[rung]
        self.tuned = tuned
        self.j = None
        self.why = None

    def go(self, sx, bc, cap, solver=None, traces=24, fix=None):
        if Run.pool.stopped.is_set():
            self.why = "cancelled"
            return self
        fd, out = tempfile.mkstemp(suffix=".json", dir=build.B)
        os.close(fd)
        args = ["--entry", self.fam.entry, "--param", ",".join(map(str, self.params)),
                "--max-steps", str(self.fam.steps(self.params)), "--max-secs", "%.1f" % cap, "--max-traces", str(traces), "--out", out]
        if solver:
            args += ["--solver", solver]
        if fix:
            args += ["--fix", ";".join("%s:%s" % (",".join(map(str, raw)), ",".join(map(str, vals))) for raw, vals in fix.items())]
        status, text = Run.pool.run(sx, bc, args, cap + 120)
        try:
            self.j = json.load(open(out))
        except ValueError:
            self.why = "engine ended with %s: %s" % (status, text[-400:].strip())
        finally:
            os.remove(out)
        return self

    @property
    def complete(self):
        return bool(self.j and self.j["complete"])

    @property
    def violations(self):
        return self.j["violations"] if self.j else []

    def error(self):
        return self.why or (self.j and self.j["error"])

    def bound(self):
        return self.fam.bound(self.params)


def vline(fam, params, inputs):
    return "%s|%s|%s" % (fam.entry, ",".join(map(str, params)), ",".join(map(str, inputs)))


def native(runner, lines, timeout=30, valgrind=False, mem=3 << 30):
    """-> (return code or None on a timeout, output)"""
    with tempfile.NamedTemporaryFile("w", suffix=".txt", dir=build.B, delete=False) as f:
        f.write("\n".join(lines) + "\n")
    cmd = [runner, f.name]
    if valgrind:
        cmd = ["valgrind", "-q", "--error-exitcode=99", "--leak-check=no"] + cmd

    def lim():
        if not valgrind:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, preexec_fn=lim, cwd=build.B)
        return p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired as x:
        return None, (x.stdout or b"").decode(errors="replace")
    finally:
        os.remove(f.name)


def reproduces(runner, line):
    """does the real code fail on these inputs? -> (True/False, how)"""
    rc, text = native(runner, [line], timeout=20)
    if rc is None:
        return True, "does not return within 20 s"
    m = re.search(r"^0 (.*?)\|", text, re.M)
    status = m.group(1) if m else ""
    if status.startswith(("short", "range", "assume")):
        return False, "the replay took another path: " + status
    if status.startswith(("assert", "panic")):
        return True, status
    if rc < 0 or rc in (134, 139):
        return True, "killed by signal %d" % -rc
    if rc == 0 and status == "ok":
        rc, text = native(runner, [line], timeout=120, valgrind=True)
        if rc == 99:
            return True, "valgrind: " + " ".join(re.sub(r"==\d+==", "", text).split())[:300]
    return False, "the replay ended with %s %s" % (rc, status or text[-200:])


def demangle(n):
    m = re.match(r"_ZN(.*)17h[0-9a-f]{16}E", n)
    if not m:
        return n
    s, parts = m.group(1), []
    while s:
        k = re.match(r"\d+", s)
        if not k:
            break
        n = int(k.group(0))
        s = s[len(k.group(0)):]
        parts.append(s[:n])
        s = s[n:]
    r = "::".join(parts)
    for a, b in (("$LT$", "<"), ("$GT$", ">"), ("$u20$", " "), ("$RF$", "&"), ("$C$", ","), ("$u7b$", "{"), ("$u7d$", "}"), ("$u5b$", "["),
                 ("$u5d$", "]"), ("$u3b$", ";"), ("$u27$", "'"), ("$BP$", "*"), ("$LP$", "("), ("$RP$", ")"), ("$u22$", '"'), ("..", "::")):
        r = r.replace(a, b)
    return re.sub(r"^_<", "<", r)


def known(pid):
    """findings recorded for this property: (entry, message) -> text"""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    for l in open(p) if os.path.exists(p) else []:
        m = re.match(r"finding: property=(\S+) entry=(\S+) input=(\S+) (.*)", l)
        if m and m.group(1) == pid:
            out.append((m.group(2), m.group(3), m.group(4).strip()))
    return out


def choose(fams, tune, budget):
    """the highest rungs that fit the budget together, as tuned"""
    def pick(f, x):
        rows = tune[f.key]
        i = max([0] + [i for i, r in enumerate(rows) if r[0] <= x])
        return min(i, len(f.ladder) - 1)

    lo, hi = 0.5, 400.0
    for _ in range(24):
        mid = (lo + hi) / 2
        if sum(tune[f.key][pick(f, mid)][0] for f in fams) <= budget:
            lo = mid
        else:
            hi = mid
    return {f.key: pick(f, lo) for f in fams}


def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    T = TIERS[tier]
    rnd = random.Random(seed)
    fams = jobs.PROPS[pid]
    tune = json.load(open(os.path.join(VERIF, "lib/tune.json")))
    profiles = ("dev", "release") if tier == "thorough" else ("dev",)
    b = build.build_all(profiles)
    sx, (bc, runner) = b["sx"], b["dev"]
    print("%s %s: built in %.0f s" % (pid, tier, b["seconds"]), flush=True)
    findings = known(pid)
    texts_lock = threading.Lock()
    found, seen_findings, odd = [], [], []
    done = {}  # (key, profile) -> Run
    notes = []
    given_up = set()

    def judge(r, runner, profile):
        """replay this run's violations on the real code"""
        for v in r.violations:
            line = vline(r.fam, r.params, v["in"])
            if r.j["patterns"]:  # needs a build with the tags and sets of the counterexample
                with texts_lock:
                    if found:
                        return
                    runner = build.build_with_texts({bytes(raw): v["in"][i:i + n] for raw, i, n in r.j["patterns"]}, profile)
            k = [f for f in findings if f[0] == r.fam.entry and f[1] == ",".join(map(str, v["in"]))]
            ok, how = reproduces(runner, line)
            if not ok and r.j["patterns"]:
                # code that looks at a constant at compile time cannot be run with symbolic constants
                notes.append("%s is not decided: %s %r does not reproduce (%s): %s" % (r.fam.key, v["kind"], v["msg"], how, line))
                given_up.add((r.fam.key, profile))
            elif not ok:
                odd.append("%s: %s %r does not reproduce (%s): %s" % (r.fam.key, v["kind"], v["msg"], how, line))
            elif k:
                seen_findings.append(k[0])
            else:
                found.append((r, v, how, line, profile, runner))
                return

    slow = []  # families whose chosen rung took far longer than tuned: the code has become costly to execute

    def ladder(f, top, profile, sx, bc, runner):
        """from the chosen rung down until one completes"""
        if len(slow) >= 8:
            top = top // 2
        rungs = [top] + [i for i in sorted({top // 2, min(2, top), 0}, reverse=True) if i < top]
        for n, i in enumerate(rungs):
            left = T["stop"] - (time.time() - t0)
            if Run.pool.stopped.is_set() or left < 5:
                return
            if n == 0 and i > 0:
                if time.time() - t0 > T["deep_until"]:
                    continue
                cap = min(4 * rows_secs(f, i) + 15, T["deep_until"] + 60 - (time.time() - t0))
            else:  # the last one gets all the time there is
                cap = min(left, 240) if n + 1 == len(rungs) else min(left, 8 * rows_secs(f, i) + 30)
            r = Run(f, i, None)
            r.go(sx, bc, max(cap, 5))
            if r.violations:
                judge(r, runner, profile)
                if found:
                    done[f.key, profile] = r
                    Run.pool.stop()
                    return
                if odd or (f.key, profile) in given_up:
                    return
            if r.complete or (r.j and r.violations and not odd):
                done[f.key, profile] = r
                return
            if not Run.pool.stopped.is_set():
                notes.append("%s at %s: %s; a smaller bound was tried" % (f.key, r.params, r.error()))
                if n == 0:
                    slow.append(f.key)
                if "time" not in str(r.error()) and n + 1 < len(rungs):
                    continue

    def rows_secs(f, i):
        rows = tune[f.key]
        return rows[min(i, len(rows) - 1)][0] * (2.5 ** max(0, i - len(rows) + 1))

    def sweep(fs, tops, profile, bc, runner):
        fs = sorted(fs, key=lambda f: -rows_secs(f, tops[f.key]))
        with cf.ThreadPoolExecutor(CORES) as ex:
            list(ex.map(lambda f: ladder(f, tops[f.key], profile, sx, bc, runner), fs))

    tops = choose([f for f in fams if not f.key.endswith(".reps")], tune, T["budget"] * (0.5 if tier == "thorough" else 1))
    tops.update(choose([f for f in fams if f.key.endswith(".reps")], tune, 300 if tier == "quick" else 1000))
    if tier == "thorough":  # one rung beyond what was tuned, where there is time
        for f in fams:
            if tops[f.key] == len(tune[f.key]) - 1 and tops[f.key] + 1 < len(f.ladder) and rows_secs(f, tops[f.key]) < 40:
                tops[f.key] += 1
    sweep(fams, tops, "dev", bc, runner)
    cross = []
    if tier == "thorough" and not found and not odd:
        small = choose(fams, tune, T["budget"] * 0.1)
        sweep(fams, small, "release", *b["release"])
        if not found and not odd:
            def again(fs):
                f, solver = fs
                base = Run(f, max(0, min(2, len(tune[f.key]) - 1)), None).go(sx, bc, 600)
                other = Run(f, base.rung, None).go(sx, bc, 600, solver=solver)
                return f.key, solver, base, other
            some = rnd.sample(fams, min(len(fams), 24))
            with cf.ThreadPoolExecutor(CORES) as ex:
                for k, s, x, y in ex.map(again, [(f, s) for f in some for s in ("z3-new -in", "cvc5 --lang smt2 --incremental --produce-models")]):
                    same = x.complete and y.complete and x.j["paths"] == y.j["paths"] and x.j["covers"] == y.j["covers"]
                    cross.append(same)
                    if not same:
                        notes.append("solver cross-check: %s with %s: %s" % (k, s, y.error() or "differs"))

    Run.pool.drop()
    # ---- every family must have an answer
    unexplored = []
    if not found:
        for p in profiles:
            for f in fams:
                if (f.key, p) not in done and (f.key, p) not in given_up and not odd:
                    unexplored.append("%s (%s): no bound could be completed: %s" % (f.key, p, [n for n in notes if n.startswith(f.key)][-1:]))
        # code that became too costly for a few harnesses is decided by the others, and the evidence says so
        if 4 * len(unexplored) > len(profiles) * len(fams):
            odd += unexplored
        if cross and not all(cross):
            odd.append("two solvers disagree: " + str([n for n in notes if n.startswith("solver")][:2]))
    # ---- vacuity: what these bounds reach must be reached
    if not found and not odd:
        for (k, p), r in done.items():
            rows = tune[k]
            want = rows[min(r.rung, len(rows) - 1)][2]
            miss = [c for c in want if str(c) not in r.j["covers"]]
            if miss:
                odd.append("%s (%s): vacuous, covers %s are not reached" % (k, p, miss))
    # ---- the encoding against the real code: replay sampled paths and compare what they observe
    validated, samples = 0, []
    if not found and not odd:
        batch = []
        for (k, p), r in done.items():
            if r.j["patterns"]:
                continue  # below
            ts = [t for t in r.j["traces"] if not t["panics"]]
            rnd.shuffle(ts)
            batch += [(r, p, t) for t in ts[:T["traces"]]]
        runners = {p: b[p][1] for p in profiles}
        sym = [r for (k, p), r in done.items() if p == "dev" and r.j["patterns"]]
        if tier == "thorough" and sym:
            # where tags and sets are symbolic: one build with texts drawn at random, and paths of the encoding with these texts
            texts = {}
            for raw, (name, is_str) in build.pattern_table().items():
                alike = {1: "ab ,", 2: "\u00e9\u00ea", 3: "\u20ac\u20ad", 4: "\U0001f600\U0001f601"}
                texts[raw] = [ord(rnd.choice(alike[len(c.encode())])) for c in raw.decode()] if is_str else [rnd.choice(b"ab\xe9\xff") for _ in raw]
            runners["texts"] = build.build_with_texts(texts, "dev")
            with cf.ThreadPoolExecutor(CORES) as ex:
                for r in ex.map(lambda r: Run(r.fam, min(r.rung, 3), None).go(sx, bc, 300, fix=texts, traces=T["traces"]), sym):
                    if not r.complete:
                        notes.append("no validation with drawn texts of %s: %s" % (r.fam.key, r.error()))
                        continue
                    batch += [(r, "texts", t) for t in r.j["traces"] if not t["panics"]]
        for p in runners:
            mine = [(r, t) for r, q, t in batch if q == p]
            rc, text = native(runners[p], [vline(r.fam, r.params, t["in"]) for r, t in mine], timeout=240)
            got = {}
            for l in text.split("\n"):
                m = re.match(r"(\d+) (.*?)\|(.*)$", l)
                if m:
                    got[int(m.group(1))] = (m.group(2), m.group(3))
            for i, (r, t) in enumerate(mine):
                st, obs = got.get(i, ("nothing", ""))
                obs = [int(x) for x in obs.split(",") if x]
                agree = st == "ok" and len(obs) == len(t["obs"]) and all(x is None or x == y for x, y in zip(t["obs"], obs))
                if not agree:
                    odd.append("the real code disagrees with the encoding on %s: %s %s, expected %s" % (vline(r.fam, r.params, t["in"]), st, obs, t["obs"]))
                    break
                validated += 1
        if batch:
            for r, p, t in rnd.sample(batch, min(6, len(batch))):
                samples.append({"harness": r.fam.entry, "bounds": r.params, "input": t["in"], "observed": t["obs"][:24]})

    # ---- evidence
    runs = [r for r in done.values() if r.j]
    tot = lambda key: sum(r.j[key] for r in runs)
    fns, stubs = {}, {}
    for r in runs:
        for n, v, a in r.j["functions"]:
            d = demangle(n)
            x = fns.setdefault(d, [0, a])
            x[0] = max(x[0], v)
        for s, n in r.j["stubs"].items():
            stubs[s] = stubs.get(s, 0) + n
    own = sorted(n for n in fns if re.search(r"\bnommy::|as nommy::", n))
    gen_ = sorted(n for n in own if "vph::" in n)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot("paths"), "transitions": tot("instructions"), "traces_validated_against_impl": validated, "samples": samples,
            "states_are": "feasible symbolic paths explored to their end; transitions are LLVM instructions executed symbolically",
            "harness_runs": len(runs), "assertions_checked": tot("asserts"), "branch_forks": tot("forks"), "longest_path_instructions": max([r.j["longest_path"] for r in runs] or [0]),
            "solver_queries": tot("queries"), "solver_sat": tot("sat"), "solver_unsat": tot("unsat"), "queries_answered_from_cache": tot("cached"),
            "solver_seconds": round(tot("solver_seconds"), 2), "engine_seconds": round(tot("seconds"), 2),
            "bounds": {"%s [%s]" % (r.fam.key, p): r.bound() for (k, p), r in sorted(done.items())},
            "covers_reached": {"%s [%s]" % (k, p): r.j["covers"] for (k, p), r in sorted(done.items())},
            "functions_encoded": len(fns), "nommy_functions_encoded": [n for n in own if n not in gen_], "derived_functions_encoded": gen_[:400],
            "stubs_used": stubs, "solver_cross_checks": len(cross), "build_seconds": round(b["seconds"], 1),
            "harnesses_with_symbolic_tags_and_sets": sorted({r.fam.key for r in runs if r.j["patterns"]}),
            "not_decided_with_symbolic_tags_and_sets": sorted("%s [%s]" % x for x in given_up),
            "not_explored": unexplored, "notes": notes[:50],
        },
        "assumptions": [
            "bounded: nothing is claimed beyond the bounds listed per harness run",
            "rustc's translation to LLVM IR (nightly-2021-08-29, dev profile%s) is what users run; the bitcode is that of the pinned toolchain" % ("" if tier == "quick" else " and a release profile without debug assertions"),
            "alloc::fmt::format is stubbed on error paths (except in C25 and C26), <char as Pattern>::is_contained_in is encoded as a disjunction over the set",
            "allocation does not fail; panic = abort",
        ],
        "wall_s": round(time.time() - t0, 1), "violations": len(found),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)

    for e, i, text in sorted(set(seen_findings)):
        print("KNOWN-FINDING: property=%s %s (%s on %s)" % (pid, text, e, i))
    if found:
        r, v, how, line, profile, runner = found[0]
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%s.txt" % (pid, hashlib.sha1(line.encode()).hexdigest()[:10]))
        with open(path, "w") as f:
            f.write("# property %s, harness %s, bounds %s, %s profile\n# %s: %s\n# the real code: %s\n# replay: %s %s\n%s\n"
                    % (pid, r.fam.entry, r.bound(), profile, v["kind"], v["msg"], how, runner, path, line))
        print("%s: %s: %s\n  input: %s\n  replayed: %s" % (r.fam.key, v["kind"], v["msg"], line, how))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if odd:
        for o in odd[:10]:
            print("UNDECIDED " + o)
        return 2
    for u in unexplored:
        print("NOT EXPLORED " + u)
    print("%s holds: %d runs, %d paths, %d instructions, %d queries, %d traces validated, %.0f s"
          % (pid, len(runs), tot("paths"), tot("instructions"), tot("queries"), validated, time.time() - t0))
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except build.BuildError as x:
        print("UNDECIDED: the build failed\n%s" % x)
        sys.exit(2)
