#!/usr/bin/env python3
"""Writes harness/src/gen.rs: derived types that combine the attributes in many ways, each with its
grammar. The output is committed; rerun after editing this file."""
import os, random

R = random.Random(20)
LEAVES = [  # attributes, type, grammar
    ("", 'Tag<"a">', 'Lit("a")'),
    ("", 'Tag<"ab">', 'Lit("ab")'),
    ('parser = OneOf<"ab">', "char", 'One("ab")'),
    ('parser = AnyOf1<"ab">', "String", 'Any1("ab")'),
    ("", 'Option<Tag<"x">>', 'Opt(&Lit("x"))'),
    ("", 'Vec<Tag<"a">>', 'Many(&Lit("a"))'),
    ("", 'Vec1<Tag<"b">>', 'Many1(&Lit("b"))'),
    ("", '[OneOf<"ab">; 2]', 'Rep(2, &One("ab"))'),
    ("", 'Box<Tag<"b">>', 'Lit("b")'),
    ('parser = WhileNot1<",;)x ">', "String", 'Not1(",;)x ")'),
]
LISTS = [("", "None"), (', seperated_by = Tag<",">', "Some(Lit(\",\")), No"), (', seperated_by = Tag<",">, trailing = "no"', "Some(Lit(\",\")), No"),
         (', seperated_by = Tag<",">, trailing = "yes"', "Some(Lit(\",\")), Yes"), (', seperated_by = Tag<",">, trailing = "maybe"', "Some(Lit(\",\")), Maybe")]
FIX = [None, ('Tag<"(">', 'Lit("(")'), ('Tag<",">', 'Lit(",")'), ('Option<Tag<"x">>', 'Opt(&Lit("x"))'), ('OneOf<"(a">', 'One("(a")'), ('Tag<";">', 'Lit(";")')]
IGN = [('Tag<" ">', 'Lit(" ")'), ('Tag<"x">', 'Lit("x")'), ('Tag<" -">', 'Lit(" -")'), ('Vec1<Tag<"_">>', 'Many1(&Lit("_"))'), ("WhiteSpace", "Ws")]


def opt(g):
    return "None" if g is None else "Some(&%s)" % g[1]


def field(k, named, lists_ok):
    attrs = []
    pre = R.choice([None, None] + FIX)
    suf = R.choice([None, None] + FIX)
    if pre:
        attrs.append("prefix = " + pre[0])
    if suf:
        attrs.append("suffix = " + suf[0])
    if R.random() < 0.3:
        a, l = R.choice(LISTS) if lists_ok else LISTS[0]
        attrs.append('inner_parser = OneOf<"ab">' + a)
        ty, g = "Vec<char>", 'One("ab")'
        if l == "None":
            l = "Some(L { sep: None, trail: No })"
        else:
            t = l.split()[-1]
            l = 'Some(L { sep: Some(&Lit(",")), trail: %s })' % t
    else:
        a, ty, g = R.choice(LEAVES)
        if a:
            attrs.append(a)
        l = "None"
    R.shuffle(attrs)
    at = "#[nommy(%s)] " % ", ".join(attrs) if attrs else ""
    if len(attrs) > 1 and R.random() < 0.3:
        at = "#[nommy(%s)] #[nommy(%s)] " % (attrs[0], ", ".join(attrs[1:]))
    return at + ("f%d: " % k if named else "") + ty, "F { pre: %s, p: &%s, suf: %s, list: %s }" % (opt(pre), g, opt(suf), l)


def attrs_of(ign, pre, suf, pt):
    a = ["ignore = " + i[0] for i in ign]
    if pre:
        a.insert(R.randint(0, len(a)), "prefix = " + pre[0])
    if suf:
        a.insert(R.randint(0, len(a)), "suffix = " + suf[0])
    if pt:
        a.insert(R.randint(0, len(a)), "parse_type = char")
    return "#[nommy(%s)]\n" % ", ".join(a) if a else ""


def body(shape, n, lists_ok):
    fs = [field(k, shape == "named", lists_ok) for k in range(n)]
    if shape == "unit":
        return "", "", []
    pub = ""
    ds = ", ".join(d for d, _ in fs)
    return ("{ %s }" if shape == "named" else "(%s)") % ds, pub, [g for _, g in fs]


info = {}  # name -> (kind, is it nullable, field names, which fields can fail with a cause, field prefix/suffix)
out = ["//! Generated by tools/gen.py: do not edit.", "#![allow(clippy::all)]", "use crate::conf::{conf, Log};", "use crate::h_err::why;",
       "use crate::spec::G::*;", "use crate::spec::Trail::*;", "use crate::spec::*;", "use nommy::{text::*, Parse, Vec1};", ""]
table = []
for i in range(28):
    pt = R.random() < 0.7
    ign = R.sample(IGN, R.choice([0, 1, 1, 2]))
    pre, suf = R.choice([None] + FIX), R.choice([None] + FIX)
    shape = R.choice(["named", "named", "tuple", "tuple", "unit"]) if i < 24 else ["named", "tuple"][i % 2]
    n = 0 if shape == "unit" else R.choice([1, 2, 2, 3]) if i < 26 else 5
    if shape == "unit" and not pre:
        pre = FIX[1]
    b, _, gs = body(shape, n, pt)
    name = "G%02d" % i
    out.append("#[derive(Parse)]\n%spub struct %s %s%s" % (attrs_of(ign, pre, suf, pt), name, b, "" if shape == "named" else ";"))
    acc = "".join(" self.%s.log(o);" % ("f%d" % k if shape == "named" else k) for k in range(n))
    out.append("impl Log for %s { fn log(self, o: &mut Vec<u32>) { o.push(M_SEQ);%s o.push(M_END) } }" % (name, acc))
    out.append("static %s_G: G = Seq(&S { ign: &[%s], pre: %s, fields: &[%s], suf: %s });" %
               (name, ", ".join("&" + g[1] for g in ign), opt(pre), ", ".join(gs), opt(suf)))
    table.append(("h_gen_s%02d" % i, "conf::<%s, char>(&%s_G)" % (name, name)))
    info[name] = ("struct", pre, suf, ["f%d" % k if shape == "named" else "elem%d" % k for k in range(n)], gs, {})
for i in range(16):
    pt = R.random() < 0.7
    ign = R.sample(IGN, R.choice([0, 1, 1]))
    pre, suf = R.choice([None, None] + FIX), R.choice([None, None] + FIX)
    name = "E%02d" % i
    vs, ss, ls = [], [], []
    for v in range(R.choice([2, 3, 3])):
        shape = R.choice(["named", "tuple", "tuple", "unit"])
        n = 0 if shape == "unit" else R.choice([1, 1, 2])
        vi = R.sample([x for x in IGN if x not in ign], R.choice([0, 0, 1]))
        vp, vx = R.choice([None, None] + FIX), R.choice([None, None] + FIX)
        if shape == "unit" and not vp:
            vp = R.choice(FIX[1:3])
        b, _, gs = body(shape, n, pt)
        vs.append("    %sV%d%s" % (attrs_of(vi, vp, vx, False).replace("\n", " "), v, (" " if shape == "named" else "") + b))
        ss.append("&S { ign: &[%s], pre: %s, fields: &[%s], suf: %s }" % (", ".join("&" + g[1] for g in vi + ign), opt(vp), ", ".join(gs), opt(vx)))
        names = ["f%d" % k for k in range(n)]
        pat = {"named": " { %s }" % ", ".join(names), "tuple": "(%s)" % ", ".join(names), "unit": ""}[shape]
        ls.append("            %s::V%d%s => { o.push(M_VAR + %d);%s }" % (name, v, pat, v, "".join(" %s.log(o);" % x for x in names)))
    out.append("#[derive(Parse)]\n%spub enum %s {\n%s,\n}" % (attrs_of(ign, pre, suf, pt), name, ",\n".join(vs)))
    out.append("impl Log for %s {\n    fn log(self, o: &mut Vec<u32>) {\n        match self {\n%s\n        }\n        o.push(M_END)\n    }\n}" % (name, "\n".join(ls)))
    out.append("static %s_G: G = Alt(&A { ign: &[%s], pre: %s, vars: &[\n    %s,\n], suf: %s });" %
               (name, ", ".join("&" + g[1] for g in ign), opt(pre), ",\n    ".join(ss), opt(suf)))
    table.append(("h_gen_e%02d" % i, "conf::<%s, char>(&%s_G)" % (name, name)))
    info[name] = ("enum", pre, suf, None, ss, {})


def nullable(g):
    return "Opt(" in g or "Many(" in g or "list: Some" in g or g == "None"


def empty(name):
    """may it match nothing?"""
    k, pre, suf, names, gs, inner = info[name]
    fix = (pre is None or nullable(pre[1])) and (suf is None or nullable(suf[1]))
    if not fix:
        return False
    if k == "enum":
        return True  # to be safe
    for g in gs:
        parts = g[4:].split(", p: ")
        if not nullable(parts[0].replace("pre: ", "")):
            return False
        if not nullable(parts[1].split(", suf: ")[0]) and "list: Some" not in g:
            return False
    return True


# derived types made of derived types
R = random.Random(7)
for i in range(24):
    pt = True
    ign = R.sample(IGN, R.choice([0, 1, 1]))
    pre, suf = R.choice([None] + FIX), R.choice([None] + FIX)
    name = "N%02d" % i
    n = R.choice([1, 2, 2])
    named = R.random() < 0.5
    ds, gs, inner = [], [], {}
    base = sorted(x for x in info if x[0] in "GE" and (i >= 16 or x[0] == "G")) if i < 20 else sorted(x for x in info if x[0] == "N")
    for k in range(n):
        t = R.choice(base)
        w = R.choice(["%s", "%s", "Box<%s>", "[%s; 2]", "Option<%s>", "Vec<%s>", "Vec1<%s>", "list"])
        if empty(t) and ("Option" in w or "Vec" in w or w == "list"):
            w = "%s"
        fp, fs = R.choice([None, None] + FIX), R.choice([None, None] + FIX)
        at = (["prefix = " + fp[0]] if fp else []) + (["suffix = " + fs[0]] if fs else [])
        g = {"%s": "%s_G", "Box<%s>": "%s_G", "[%s; 2]": "Rep(2, &%s_G)", "Option<%s>": "Opt(&%s_G)", "Vec<%s>": "Many(&%s_G)", "Vec1<%s>": "Many1(&%s_G)", "list": "%s_G"}[w] % t
        l = "None"
        if w == "list":
            a, l = R.choice(LISTS)
            l = "Some(L { sep: None, trail: No })" if l == "None" else 'Some(L { sep: Some(&Lit(",")), trail: %s })' % l.split()[-1]
            at.append("inner_parser = %s%s" % (t, a))
            w = "Vec<%s>"
        elif w not in ("Option<%s>", "Vec<%s>"):
            inner[k] = t
        ds.append(("#[nommy(%s)] " % ", ".join(at) if at else "") + ("f%d: " % k if named else "") + w % t)
        gs.append("F { pre: %s, p: &%s, suf: %s, list: %s }" % (opt(fp), g, opt(fs), l))
    out.append("#[derive(Parse)]\n%spub struct %s %s" % (attrs_of(ign, pre, suf, True), name, "{ %s }" % ", ".join(ds) if named else "(%s);" % ", ".join(ds)))
    acc = "".join(" self.%s.log(o);" % ("f%d" % k if named else k) for k in range(n))
    out.append("impl Log for %s { fn log(self, o: &mut Vec<u32>) { o.push(M_SEQ);%s o.push(M_END) } }" % (name, acc))
    out.append("static %s_G: G = Seq(&S { ign: &[%s], pre: %s, fields: &[%s], suf: %s });" % (name, ", ".join("&" + x[1] for x in ign), opt(pre), ", ".join(gs), opt(suf)))
    table.append(("h_gen_n%02d" % i, "conf::<%s, char>(&%s_G)" % (name, name)))
    info[name] = ("struct", pre, suf, ["f%d" % k if named else "elem%d" % k for k in range(n)], gs, inner)

# types whose parts coincide: a prefix that is also the field before it, its suffix, what is ignored ...
R = random.Random(11)
TINY = [('Tag<"a">', 'Lit("a")'), ('Tag<",">', 'Lit(",")'), ('OneOf<"a,">', 'One("a,")'), ('Option<Tag<"a">>', 'Opt(&Lit("a"))'),
        ('Tag<"aa">', 'Lit("aa")'), ('Vec1<Tag<"a">>', 'Many1(&Lit("a"))'), ('Box<Tag<",">>', 'Lit(",")')]


def emit_struct(name, named, ign, pre, suf, fs):
    """fs: (attributes, type, grammar, prefix, suffix)"""
    n = len(fs)
    ds, gs = [], []
    for k, (a, ty, g, fp, fx) in enumerate(fs):
        at = (["prefix = " + fp[0]] if fp else []) + (["suffix = " + fx[0]] if fx else []) + ([a] if a else [])
        ds.append(("#[nommy(%s)] " % ", ".join(at) if at else "") + ("f%d: " % k if named else "") + ty)
        gs.append("F { pre: %s, p: &%s, suf: %s, list: None }" % (opt(fp), g, opt(fx)))
    out.append("#[derive(Parse)]\n%spub struct %s %s" % (attrs_of(ign, pre, suf, R.random() < 0.5), name, "{ %s }" % ", ".join(ds) if named else "(%s);" % ", ".join(ds)))
    acc = "".join(" self.%s.log(o);" % ("f%d" % k if named else k) for k in range(n))
    out.append("impl Log for %s { fn log(self, o: &mut Vec<u32>) { o.push(M_SEQ);%s o.push(M_END) } }" % (name, acc))
    out.append("static %s_G: G = Seq(&S { ign: &[%s], pre: %s, fields: &[%s], suf: %s });" % (name, ", ".join("&" + x[1] for x in ign), opt(pre), ", ".join(gs), opt(suf)))
    table.append(("h_gen_%s%s" % (name[0].lower(), name[1:]), "conf::<%s, char>(&%s_G)" % (name, name)))
    info[name] = ("struct", pre, suf, ["f%d" % k if named else "elem%d" % k for k in range(n)], gs, {})


def emit_enum(name, ign, pre, suf, variants):
    """variants: (ignore, prefix, suffix, fields as above)"""
    vs, ss, ls = [], [], []
    for v, (vi, vp, vx, fs) in enumerate(variants):
        gs = ["F { pre: %s, p: &%s, suf: %s, list: None }" % (opt(fp), g, opt(fx)) for a, ty, g, fp, fx in fs]
        at = [(["prefix = " + fp[0]] if fp else []) + (["suffix = " + fx[0]] if fx else []) + ([a] if a else []) for a, ty, g, fp, fx in fs]
        ds = [("#[nommy(%s)] " % ", ".join(x) if x else "") + f[1] for x, f in zip(at, fs)]
        vs.append("    %sV%d%s" % (attrs_of(vi, vp, vx, False).replace("\n", " "), v, "(%s)" % ", ".join(ds) if fs else ""))
        ss.append("&S { ign: &[%s], pre: %s, fields: &[%s], suf: %s }" % (", ".join("&" + g[1] for g in vi + ign), opt(vp), ", ".join(gs), opt(vx)))
        names = ["f%d" % k for k in range(len(fs))]
        ls.append("            %s::V%d%s => { o.push(M_VAR + %d);%s }" % (name, v, "(%s)" % ", ".join(names) if fs else "", v, "".join(" %s.log(o);" % x for x in names)))
    out.append("#[derive(Parse)]\n%spub enum %s {\n%s,\n}" % (attrs_of(ign, pre, suf, R.random() < 0.5), name, ",\n".join(vs)))
    out.append("impl Log for %s {\n    fn log(self, o: &mut Vec<u32>) {\n        match self {\n%s\n        }\n        o.push(M_END)\n    }\n}" % (name, "\n".join(ls)))
    out.append("static %s_G: G = Alt(&A { ign: &[%s], pre: %s, vars: &[\n    %s,\n], suf: %s });" %
               (name, ", ".join("&" + g[1] for g in ign), opt(pre), ",\n    ".join(ss), opt(suf)))
    table.append(("h_gen_%s%s" % (name[0].lower(), name[1:]), "conf::<%s, char>(&%s_G)" % (name, name)))
    info[name] = ("enum", pre, suf, None, ss, {})


for i in range(36):
    pool = R.sample(TINY, R.choice([1, 2, 2]))
    solid = [x for x in pool if "Option" not in x[0]]
    fix = lambda: R.choice([None, None] + pool + pool)
    leaf = lambda: (lambda x: ("", x[0], x[1], fix(), fix()))(R.choice(pool))
    ign = R.choice([[], [], [IGN[0]], [IGN[0], IGN[0]], [R.choice(solid)] if solid else []])
    if i < 24:
        emit_struct("C%02d" % i, R.random() < 0.5, ign, fix(), fix(), [leaf() for _ in range(R.choice([1, 2, 2, 3]))])
    else:
        emit_enum("C%02d" % i, ign, fix(), fix(), [(R.choice([[], [], [R.choice(solid)] if solid else []]), fix(), fix(), [leaf() for _ in range(R.choice([1, 1, 2]))]) for _ in range(R.choice([2, 3, 4]))])
# many parts
LET = "abcdefghijklm"
tag = lambda c: ('Tag<"%s">' % c, 'Lit("%s")' % c)
fld = lambda c, p=None, x=None, t=None: ("",) + (t or tag(c)) + (p, x)
emit_struct("W00", False, [], None, None, [fld(c) for c in LET])
emit_struct("W01", True, [IGN[0]], tag("<"), tag(">"), [fld(c, tag(str(i % 10)) if i % 2 else None, tag(";") if i % 3 else None) for i, c in enumerate(LET)])
emit_struct("W02", True, [], None, None, [("parser = OneOf<\"ab\">", "char", 'One("ab")', None, None) for c in LET])
emit_struct("W03", False, [tag(c) for c in "123456"] + [tag("- ")], None, None, [fld("a"), fld("b")])
emit_struct("W04", False, [], None, None, [fld("a", tag("="), tag("=")) for _ in range(5)])
emit_enum("W05", [], None, None, [([], None, None, [fld(c)]) for c in LET])
emit_enum("W06", [IGN[0]], tag("("), tag(")"), [([], tag(c), tag(";") if i % 2 else None, [fld("a")] if i % 3 else []) for i, c in enumerate(LET)])
emit_enum("W07", [], None, None, [([], None, tag(c), [fld("", t=('[Tag<"a">; %d]' % (i % 3 + 1), 'Rep(%d, &Lit("a"))' % (i % 3 + 1)))]) for i, c in enumerate("bcdefghij")])
emit_enum("W08", [tag("1"), tag("2")], None, None, [([tag("3"), tag(str(i + 4))], None, None, [fld("a"), fld(c)]) for i, c in enumerate("abcde")])


def arms(name, path):
    k, pre, suf, names, gs, inner = info[name]
    a = []
    if pre:
        a.append((path + "01", "failed to parse prefix for %s `%s`" % (k, name)))
    if suf:
        a.append((path + "02", "failed to parse suffix for %s `%s`" % (k, name)))
    if k == "enum":
        return a + [(path + "03", "no variants of %s could be parsed" % name)]
    for i, (f, g) in enumerate(zip(names, gs)):
        if not g.startswith("F { pre: None"):
            a.append((path + "%d0" % (i + 1), "failed to parse prefix for field `%s`" % f))
        if ", suf: None, list" not in g:
            a.append((path + "%d2" % (i + 1), "failed to parse suffix for field `%s`" % f))
        a.append((path + "%d1" % (i + 1), "failed to parse field `%s`" % f))
        if i in inner:
            a += arms(inner[i], path + "%d1" % (i + 1))
    return a


for name in sorted(info):
    h = "h_why_" + {"G": "s", "E": "e"}.get(name[0], name[0].lower()) + name[1:]
    table.append((h, "why::<%s, char>(&%s_G, Kind::Chars, |p| match p {\n%s\n        _ => \"?\",\n    })" % (name, name, "\n".join("        %s => \"%s\"," % (x[0].lstrip("0"), x[1]) for x in arms(name, "")))))
out.append("crate::harnesses! {")
out += ["    %s => %s;" % t for t in table]
out.append("}")
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "../harness/src/gen.rs")
open(p, "w").write("\n".join(out) + "\n")
