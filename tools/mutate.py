#!/usr/bin/env python3
"""mutate.py DIR: small systematic changes of nommy's sources, one each; DIR/NNN.diff for those that build and pass the
stable tests (tried in a scratch copy of /repo). trymutants.py then says which checks notice them."""
import json, os, re, shutil, subprocess, sys
OUT, WT = sys.argv[1], "/tmp/mut"
part = sys.argv[2] if len(sys.argv) > 2 else "0/1"
k, n = map(int, part.split("/"))
WT += str(k)
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
FILES = ["nommy/src/" + f for f in ("buffer.rs", "impls.rs", "vec.rs", "lib.rs", "text/tag.rs", "text/one_of.rs", "text/many.rs", "text/mod.rs", "bytes/tag.rs", "bytes/one_of.rs", "bytes/many.rs")] \
    + ["nommy-derive/src/" + f for f in ("fn_impl.rs", "attr.rs", "ty.rs", "parsers.rs", "enum_impl/mod.rs", "enum_impl/named.rs", "enum_impl/unnamed.rs", "enum_impl/unit.rs", "struct_impl/mod.rs", "struct_impl/named.rs", "struct_impl/unnamed.rs", "struct_impl/unit.rs")]
OPS = [(r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"==", "!="), (r"!=", "=="), (r" < ", " <= "), (r" <= ", " < "), (r" >= ", " > "), (r"&&", "||"), (r"\|\|(?! ?\{)", "&&"),
       (r"if !", "if "), (r"while !", "while "), (r"(?<![\w.])0(?![\w.])", "1"), (r"(?<![\w.])1(?![\w.])", "0"), (r"(?<![\w.])1(?![\w.])", "2"), (r" \+ ", " - "), (r" - ", " + "), (r"\+=", "="), (r"\+=", "-="),
       (r"is_some", "is_none"), (r"is_none", "is_some"), (r"&mut cursor\b", "input"), (r"\(input\)", "(&mut input.cursor())"), (r"input\.next\(\)", "input.cursor().next()"),
       (r"seperated_by_trailing::", "seperated_by_maybe_trailing::"), (r"seperated_by_maybe_trailing::", "seperated_by_trailing::"), (r"parse_vec_seperated_by::", "parse_vec_seperated_by_maybe_trailing::"),
       (r"usize::MAX", "255"), (r"\bbreak\b", "return Ok(output)"), (r"return Ok\(vec!\[\]\)", "return Err(eyre::eyre!(\"nothing\"))"), (r"\.push_back\(", ".push_front("), (r"pop_front", "pop_back"),
       (r"'\\n'", "'\\\\r'"), (r"' '", "'\\\\u{a0}'"), (r"'\\t'", "'\\\\u{b}'"), (r"\"prefix\"", "\"suffix\""), (r"\"suffix\"", "\"prefix\""), (r"\.chars\(\)\.count\(\)", ".len()"), (r"peek\(", "parse_("),
       (r"rotate_left", "rotate_right"), (r"truncate\(len - n\)", "truncate(n)"), (r"\.extend\(", ".eq_("), (r"wrap_err\(#error\)\?", "?"), (r"attrs\.prefix", "attrs.suffix"), (r"attrs\.suffix", "attrs.prefix"),
       (r"\.clone\(\)\)", ".clone()).skip_"), (r"attrs\.ignore", "attrs.ignore[..1.min(attrs.ignore.len())]"), (r"\.take\(", ".skip("), (r"Some\(true\)", "Some(_)"), (r"#max, input", "usize::MAX, input"), (r"self\.index", "self.base"), (r"self\.base \+ ", ""), (r" \+ i\b", "")]


def sh(cmd, cwd, timeout=400):
    p = subprocess.Popen(cmd, shell=True, executable="/bin/bash", cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode(errors="replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return -1, "timeout"


def mutants():
    for f in FILES:
        lines = open("/repo/" + f).read().split("\n")
        for i, l in enumerate(lines):
            s = l.strip()
            if s.startswith(("#[cfg(test)]",)):
                break
            if not s or s.startswith(("//", "use ", "#[", "mod ", "pub use", "#![")):
                continue
            seen = set()
            for a, b in OPS:
                for m in re.finditer(a, l):
                    new = l[:m.start()] + re.sub(a, b, m.group(0)) + l[m.end():]
                    if new != l and new not in seen:
                        seen.add(new)
                        yield f, i, lines[:i] + [new] + lines[i + 1:]
            if s.endswith(";") and not s.startswith(("let ", "return", "type ")):
                yield f, i, lines[:i] + [""] + lines[i + 1:]


if os.path.exists(WT):
    shutil.rmtree(WT)
shutil.copytree("/repo", WT, symlinks=True)
os.makedirs(OUT, exist_ok=True)
ENV = "R=$PWD; . /opt/vp/env.sh; cd $R; export CARGO_TARGET_DIR=%s/target; " % WT
ms = list(mutants())
print(len(ms), "mutants", flush=True)
for j, (f, i, lines) in enumerate(ms):
    if j % n != k:
        continue
    with open(WT + "/" + f, "w") as o:
        o.write("\n".join(lines))
    rc, out = sh(ENV + "cargo build --offline --workspace -q 2>&1", WT)
    what = "%03d %s:%d %s" % (j, f, i + 1, lines[i].strip()[:100])
    if rc:
        st = "does not build"
    else:
        rc, out = sh(ENV + "timeout 120 cargo test --offline --workspace --lib 2>&1 && timeout 200 cargo test --offline --workspace 2>&1", WT)
        ok = rc == 0
        st = "LIVES" if ok else "killed by the tests"
        if ok:
            d = subprocess.run(["git", "diff"], cwd=WT, stdout=subprocess.PIPE).stdout
            open("%s/%03d.diff" % (OUT, j), "wb").write(d)
    print(st, "|", what, flush=True)
    subprocess.run(["git", "checkout", "-q", "--", "."], cwd=WT, check=True)
shutil.rmtree(WT)
