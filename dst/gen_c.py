"""Generator of pairs of small C projects whose true differences are known.

A project is a list of functions spread over .c files and headers.  The second
version is the first one plus a set of mutations, each of which is either a
real behavioural difference of one function (kind "diff") or a pure layout
change (kind "same").  Expected verdicts follow from the call graph.
"""


class Fun:
    def __init__(self, name, file, line_ops, calls, static=False, void=False):
        self.name = name
        self.file = file
        self.ops = line_ops      # list of statement descriptors
        self.calls = calls       # list of callee names
        self.static = static
        self.void = void


class Project:
    """files: list of names; funs: ordered dict name->Fun; version text via render."""

    def __init__(self):
        self.files = []
        self.headers = []
        self.funs = {}
        self.macros = {}      # name -> value
        self.structs = {}     # name -> list of fields
        self.globs = {}       # name -> file
        self.mut = {}         # fun -> mutation kind (v2)
        self.pad = {}         # fun -> number of blank/comment lines in v2
        self.macro_mut = {}   # macro -> new value
        self.struct_mut = set()


def gen_project(r, nfuns=None, nfiles=None, headers=True, features=True, recursion=True):
    p = Project()
    nfiles = nfiles or r.randint(1, 3)
    nfuns = nfuns or r.randint(3, 9)
    p.files = ["m%d.c" % i for i in range(nfiles)]
    p.headers = ["h%d.h" % i for i in range(r.randint(0, 2))] if headers else []
    if features:
        for i in range(r.randint(0, 2)):
            p.macros["MAC%d" % i] = r.randint(1, 50)
        for i in range(r.randint(0, 2)):
            p.structs["st%d" % i] = ["a", "b"][:r.randint(1, 2)]
        for i in range(r.randint(0, 2)):
            p.globs["gv%d" % i] = r.choice(p.files)
    names = ["f%02d" % i for i in range(nfuns)]
    r.shuffle(names)
    for i, n in enumerate(names):
        places = p.files + p.headers
        f = r.choice(places)
        static = f.endswith(".h") or r.random() < 0.15
        ncalls = r.choice([0, 1, 1, 2, 2, 3])
        later = names[i + 1:]
        calls = []
        for _ in range(ncalls):
            if later:
                calls.append(r.choice(later))
        if recursion and r.random() < 0.12:
            calls.append(r.choice(names))
        ops = []
        for _ in range(r.randint(1, 4)):
            k = r.choice(["add", "mul", "xor", "if", "loop", "glob", "mac", "st"])
            if k == "glob" and not p.globs:
                k = "add"
            if k == "mac" and not p.macros:
                k = "mul"
            if k == "st" and not p.structs:
                k = "xor"
            ops.append((k, r.randint(1, 99),
                        r.choice(sorted(p.globs)) if k == "glob" else
                        r.choice(sorted(p.macros)) if k == "mac" else
                        r.choice(sorted(p.structs)) if k == "st" else None))
        p.funs[n] = Fun(n, f, ops, calls, static)
    # static functions are callable only from their own file (or via header)
    for f in p.funs.values():
        f.calls = [c for c in f.calls
                   if _visible(p, f, p.funs[c])]
    # prune: header functions may call only header functions or externals
    return p


def _visible(p, caller, callee):
    if callee.file.endswith(".h"):
        # headers include nothing: a header function sees functions of the same header
        return caller.file == callee.file or not caller.file.endswith(".h")
    if callee.static:
        return caller.file == callee.file
    return True


def mutate(p, r, ndiff=None):
    names = sorted(p.funs)
    k = r.randint(0, max(1, len(names) // 3)) if ndiff is None else ndiff
    for n in r.sample(names, min(k, len(names))):
        p.mut[n] = r.choice(["const", "op", "extra", "branch", "asm"] if True else [])
        if p.mut[n] == "asm":
            p.mut[n] = "const"
    for n in names:
        if r.random() < 0.3:
            p.pad[n] = r.randint(1, 4)
    for m in sorted(p.macros):
        if r.random() < 0.3:
            p.macro_mut[m] = p.macros[m] + 1
    for s in sorted(p.structs):
        if r.random() < 0.15:
            p.struct_mut.add(s)


def render_fun(p, f, ver):
    out = []
    if ver == 2 and p.pad.get(f.name):
        out += ["/* padding %d */" % i for i in range(p.pad[f.name])]
    mut = p.mut.get(f.name) if ver == 2 else None
    st = "static " if f.static else ""
    if f.static and f.file.endswith(".h"):
        st = "static inline __attribute__((noinline)) "
    out.append("%sint %s(int x)" % (st, f.name))
    out.append("{")
    out.append("\tint y = x;")
    for i, (k, c, o) in enumerate(f.ops):
        if mut == "const" and i == 0:
            c = c + 1
        if k == "add":
            out.append("\ty = y + %d;" % c if not (mut == "op" and i == 0)
                       else "\ty = y - %d;" % c)
        elif k == "mul":
            out.append("\ty = y * %d;" % (c + 2))
        elif k == "xor":
            out.append("\ty = y ^ %d;" % c)
        elif k == "if":
            out.append("\tif (y > %d)" % c)
            out.append("\t\ty = y - 1;")
        elif k == "loop":
            out.append("\tfor (int i = 0; i < x; i++)")
            out.append("\t\ty += i * %d;" % c)
        elif k == "glob":
            out.append("\ty = y + %s + %d;" % (o, c))
            out.append("\t%s = y;" % o)
        elif k == "mac":
            out.append("\ty = y + %s * %d;" % (o, c))
        elif k == "st":
            out.append("\tstruct %s s%d = { .a = y };" % (o, i))
            out.append("\ty = use_%s(&s%d) + %d;" % (o, i, c))
    if mut == "op" and f.ops[0][0] != "add":
        out.append("\ty = y - 7;")
    if mut == "extra":
        out.append("\ty = y + ext_new(y);")
    if mut == "branch":
        out.append("\tif (y == 3)")
        out.append("\t\treturn 5;")
    for c in f.calls:
        out.append("\ty += %s(y);" % c)
    out.append("\treturn y;")
    out.append("}")
    return out


def render(p, ver):
    """file name -> text"""
    res = {}
    common = ["#ifndef COMMON_H", "#define COMMON_H"]
    for m, v in sorted(p.macros.items()):
        common.append("#define %s %d" % (m, p.macro_mut.get(m, v) if ver == 2 else v))
    for s, fs in sorted(p.structs.items()):
        common.append("struct %s {" % s)
        for x in fs:
            common.append("\tint %s;" % x)
        if ver == 2 and s in p.struct_mut:
            common.append("\tlong added;")
        common.append("};")
        common.append("int use_%s(struct %s *);" % (s, s))
    for g in sorted(p.globs):
        common.append("extern int %s;" % g)
    common.append("int ext_new(int);")
    for f in p.funs.values():
        if not f.static:
            common.append("int %s(int);" % f.name)
    common.append("#endif")
    res["common.h"] = "\n".join(common) + "\n"
    for h in p.headers:
        body = ["#ifndef G_%s" % h[:-2], "#define G_%s" % h[:-2], '#include "common.h"']
        fs = [f for f in p.funs.values() if f.file == h]
        for f in fs:
            body.append("static inline int %s(int);" % f.name)
        for f in fs:
            body += render_fun(p, f, ver)
        body.append("#endif")
        res[h] = "\n".join(body) + "\n"
    for c in p.files:
        body = ['#include "common.h"'] + ['#include "%s"' % h for h in p.headers]
        for g, gf in sorted(p.globs.items()):
            if gf == c:
                body.append("int %s;" % g)
        fs = [f for f in p.funs.values() if f.file == c]
        for f in fs:
            if f.static:
                body.append("static int %s(int);" % f.name)
        for f in fs:
            body += render_fun(p, f, ver)
        # keep static functions alive
        keep = [f.name for f in fs if f.static] + \
            [f.name for f in p.funs.values() if f.file in p.headers]
        if keep:
            body.append("void *keep_%s[] = { %s };" % (c[:-2], ", ".join(keep)))
        res[c] = "\n".join(body) + "\n"
    return res
