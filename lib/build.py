"""Builds what a check needs from /repo's current working tree, under /verif/build."""
import fcntl, glob, hashlib, os, re, shutil, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = os.path.join(VERIF, "build")
REPO_TOOLCHAIN = "nightly-2021-08-29-x86_64-unknown-linux-gnu"
LLVM = "/usr/lib/llvm-18/bin"
TARGET = "x86_64-unknown-linux-gnu"


class BuildError(Exception):
    pass


def run(cmd, env=None, cwd=None, timeout=600):
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    out = p.stdout.decode(errors="replace")
    if p.returncode:
        raise BuildError("%s\nfailed (%d):\n%s" % (" ".join(cmd[:8]), p.returncode, out[-6000:]))
    return out


def cargo_env(toolchain):
    home = os.path.join(B, "cargo-home")
    os.makedirs(home, exist_ok=True)
    with open(os.path.join(home, "config.toml"), "w") as f:
        f.write('[source.crates-io]\nreplace-with = "vendored-sources"\n'
                '[source.vendored-sources]\ndirectory = "/opt/vp/vendor"\n[net]\noffline = true\n')
    e = {k: os.environ[k] for k in ("HOME", "TERM", "LANG") if k in os.environ}
    e.setdefault("HOME", "/root")
    e.update(PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
             RUSTUP_HOME="/root/.rustup", CARGO_HOME=home, RUSTUP_TOOLCHAIN=toolchain,
             CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0")
    return e


def build_sx():
    e = cargo_env("stable")
    e["CARGO_TARGET_DIR"] = os.path.join(B, "sx")
    run(["cargo", "build", "--release", "--offline"], env=e, cwd=os.path.join(VERIF, "sx"))
    return os.path.join(B, "sx/release/sx")


def build_std():
    """core, alloc and std of the pinned toolchain, as the bitcode embedded in its rlibs"""
    d = os.path.join(B, "std")
    done = os.path.join(d, "done")
    if os.path.exists(done):
        return d
    os.makedirs(d, exist_ok=True)
    lib = "/root/.rustup/toolchains/%s/lib/rustlib/%s/lib" % (REPO_TOOLCHAIN, TARGET)
    for c in ("core", "alloc", "std"):
        rlib, = glob.glob("%s/lib%s-*.rlib" % (lib, c))
        w = os.path.join(d, c)
        os.makedirs(w, exist_ok=True)
        run(["ar", "x", rlib], cwd=w)
        parts = []
        for o in sorted(glob.glob(w + "/*.o")):
            bc = o[:-2] + ".bc"
            run(["objcopy", "-O", "binary", "--only-section=.llvmbc", "--set-section-flags", ".llvmbc=alloc", o, bc])
            if os.path.getsize(bc):
                parts.append(bc)
        run([LLVM + "/llvm-link"] + parts + ["-o", os.path.join(d, c + ".bc")])
    open(done, "w").close()
    return d


def build_bitcode(profile):
    """the harness crate, nommy and its dependencies, as LLVM bitcode, from source"""
    e = cargo_env(REPO_TOOLCHAIN)
    td = os.path.join(B, "bc")
    e["CARGO_TARGET_DIR"] = td
    e["RUSTFLAGS"] = "--emit=llvm-bc -Ccodegen-units=1"
    run(["cargo", "build", "--lib", "--offline", "--locked", "--target", TARGET] + (["--release"] if profile == "release" else []),
        env=e, cwd=os.path.join(VERIF, "harness"))
    return os.path.join(td, TARGET, "release" if profile == "release" else "debug", "deps")


def link(profile, deps, std):
    # cargo may leave stale files of earlier builds: take the newest of each crate
    newest = {}
    for f in glob.glob(deps + "/*.bc"):
        c = re.sub(r"-[0-9a-f]{16}\.bc$", "", os.path.basename(f))
        if c not in newest or os.path.getmtime(f) > os.path.getmtime(newest[c]):
            newest[c] = f
    whole = os.path.join(B, "all-%s.bc" % profile)
    out = os.path.join(B, "m-%s.bc" % profile)
    run([LLVM + "/llvm-link"] + sorted(newest.values()) + [os.path.join(std, c + ".bc") for c in ("core", "alloc", "std")] + ["-o", whole])
    syms = run([LLVM + "/llvm-nm", "--defined-only", newest["vph"]]).split("\n")
    api = sorted({s.split()[-1] for s in syms if s.split() and re.match(r"(h_|vp_format)", s.split()[-1])})
    run([LLVM + "/opt", "-passes=internalize,globaldce,function(sroa,simplifycfg)",
         "-internalize-public-api-list=" + ",".join(api), whole, "-o", out])
    os.remove(whole)
    return out


def build_native(profile):
    e = cargo_env(REPO_TOOLCHAIN)
    td = os.path.join(B, "native")
    e["CARGO_TARGET_DIR"] = td
    run(["cargo", "build", "--bin", "vprun", "--offline", "--locked"] + (["--release"] if profile == "release" else []),
        env=e, cwd=os.path.join(VERIF, "harness"))
    return os.path.join(td, "release" if profile == "release" else "debug", "vprun")


PATS = os.path.join(VERIF, "harness/src/pats.rs")


def pattern_table():
    """the texts of pats.rs: content -> (name, whether it is a str)"""
    out = {}
    for name, t, lit in re.findall(r'pub const (\w+): &(str|\[u8\]) = b?"(.*)";', open(PATS).read()):
        if t == "str":
            raw = re.sub(r"\\u\{([0-9a-f]+)\}", lambda m: chr(int(m.group(1), 16)), lit).encode()
        else:
            raw = bytes(int(x, 16) for x in re.findall(r"\\x(..)", lit))
        assert raw not in out
        out[raw] = (name, t == "str")
    return out


def build_with_texts(texts, profile):
    """a native runner in which these texts (content as in pats.rs -> values) take the place of those of pats.rs"""
    d = os.path.join(B, "texts")
    if os.path.exists(d + "/src"):
        shutil.rmtree(d + "/src")
    shutil.copytree(os.path.join(VERIF, "harness"), d, dirs_exist_ok=True, ignore=shutil.ignore_patterns("target"))
    src = open(PATS).read()
    table = pattern_table()
    for raw, vals in texts.items():
        name, is_str = table[bytes(raw)]
        lit = "".join("\\u{%x}" % v for v in vals) if is_str else "".join("\\x%02x" % v for v in vals)
        src, n = re.subn(r'(pub const %s: .* = b?)".*";' % name, lambda m: m.group(1) + '"' + lit + '";', src)
        assert n == 1
    with open(d + "/src/pats.rs", "w") as f:
        f.write(src)
    e = cargo_env(REPO_TOOLCHAIN)
    e["CARGO_TARGET_DIR"] = os.path.join(B, "texts-target")
    run(["cargo", "build", "--bin", "vprun", "--offline", "--locked"] + (["--release"] if profile == "release" else []), env=e, cwd=d)
    out = os.path.join(B, "texts-run-" + hashlib.sha256(src.encode()).hexdigest()[:10])
    shutil.copy(os.path.join(B, "texts-target", "release" if profile == "release" else "debug", "vprun"), out)
    return out


def fingerprint():
    """of every source the bitcode depends on: cargo looks at modification times only"""
    h = hashlib.sha256()
    fs = []
    for top in ("/repo", os.path.join(VERIF, "harness"), os.path.join(VERIF, "sx")):
        for d, ds, names in os.walk(top):
            ds[:] = sorted(x for x in ds if x not in (".git", "target", "build", "evidence"))
            fs += [os.path.join(d, n) for n in names if n.endswith((".rs", ".toml", ".lock"))]
    for f in sorted(fs):
        with open(f, "rb") as x:
            h.update(f.encode() + b"\0" + x.read() + b"\0")
    return h.hexdigest()


def build_all(profiles=("dev",)):
    """-> {sx, profile: (bitcode, native runner)}"""
    os.makedirs(B, exist_ok=True)
    lock = open(os.path.join(B, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    stamp, now = os.path.join(B, "sources"), fingerprint()
    was = open(stamp).read() if os.path.exists(stamp) else ""
    if was != now:
        for d in ("bc", "native", "sx", "texts", "texts-target"):
            if os.path.exists(os.path.join(B, d)):
                shutil.rmtree(os.path.join(B, d))
        with open(stamp, "w") as f:
            f.write(now)
    res, errs = {}, []

    def go(key, f, *a):
        try:
            res[key] = f(*a)
        except Exception as x:
            errs.append(x)

    t0 = time.time()
    ts = [threading.Thread(target=go, args=a) for a in [("sx", build_sx), ("std", build_std)]]

    def bcs():  # one cargo at a time per target dir
        for p in profiles:
            go(("bc", p), build_bitcode, p)

    def natives():
        for p in profiles:
            go(("native", p), build_native, p)
    ts += [threading.Thread(target=bcs), threading.Thread(target=natives)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errs:
        raise errs[0]
    out = {"sx": res["sx"]}
    for p in profiles:
        out[p] = (link(p, res["bc", p], res["std"]), res["native", p])
    out["seconds"] = time.time() - t0
    fcntl.flock(lock, fcntl.LOCK_UN)
    return out


if __name__ == "__main__":
    try:
        print(build_all(sys.argv[1:] or ("dev",)))
    except BuildError as x:
        print(x)
        sys.exit(2)
