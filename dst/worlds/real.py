"""World of real comparisons: two versions of a generated C program compiled by
clang, compared by the real engine, with known differences."""
import os
import re
import subprocess

import yaml

from ..core import R
from . import proj, snips
from .proj import put

LLVM = "/usr/lib/llvm-16/bin/"
PASSES = ("function(lowerswitch,mem2reg,loop-simplify,simplifycfg,gvn,dce),constmerge,"
          "function(mergereturn,simplifycfg)")


class Fun:
    def __init__(self, key, name, file, static):
        self.key, self.name, self.file, self.static = key, name, file, static
        self.ops = []            # (kind, number, name)
        self.calls = []          # keys
        self.mut = None
        self.layout = None
        self.other = None        # (old callee, new callee)
        self.moved = None        # file of the new version
        self.void = None         # the version that returns nothing
        self.wrap = False        # calls are spread over two lines
        self.snip = None         # number of the operation that changes


OPS = ["add", "mul", "xor", "if", "loop", "glob", "mac", "ctx", "st", "arr", "cmp", "str", "ext", "switch",
       "ptr", "nmac", "fmac", "snip", "snip", "snip"]
MUTS = ["const", "op", "extra", "branch", "drop", "pred", "order", "snip", "snip", "snip", "snip"]
RELOC = ["rv0", "rv1", "rv2"]
LAYOUTS = ["split", "split", "callee", "pad", "rename", "brace", "comment", "decl"]


class Program:
    """Functions may share their name if they are static in different files;
    functions of headers may depend on macros the including file defines."""

    def __init__(self, g, clash=True, nodebug=False):
        self.g = g
        # versions without debug information (functions then have no file: modules do not call each other)
        self.nodebug = g.weighted([((), 8), ((0, 1), 1), ((0,), 1), ((1,), 1)]) if nodebug else ()
        self.files = ["m%d.c" % i for i in range(1 + g.choose(3))]
        self.headers = ["h%d.h" % i for i in range(g.choose(3))]
        self.macros = {"MAC%d" % i: (3 + g.choose(40), g.chance(30)) for i in range(g.choose(3))}
        # macros that use other macros
        base = sorted(self.macros)
        self.nested = {n: g.choice(base) for n in ("NMAC0", "NMAC1", "FMAC0") if base and g.chance(60)}
        if "NMAC0" in self.nested and g.chance(40):
            self.nested["NMAC2"] = "NMAC0"
        # macros with a value of their own in each file
        self.ctx = {f: (5 + 50 * i + g.choose(40), g.chance(25)) for i, f in enumerate(self.files)}
        self.structs = {"st%d" % i: g.chance(25) for i in range(g.choose(3))}
        self.globs = ["gv%d" % i for i in range(g.choose(3))]
        self.funs = {}
        self.twins = []          # functions whose name is the beginning of another's
        n = 0
        for f in self.files + self.headers:
            for _ in range(1 + g.choose(4 if f.endswith(".c") else 2)):
                st = f.endswith(".h") or g.chance(25)
                name = "%s%d" % ("f" if f.endswith(".c") else "hf", n)
                if g.chance(15) and any(x.file.endswith(".c") for x in self.funs.values()):
                    # the name of another function is its beginning
                    base = g.choice([x for x in self.funs.values() if x.file.endswith(".c")])
                    name = base.name + "_x%d" % n
                    self.twins.append((base.key, name + "@" + f))
                if clash and st and f.endswith(".c") and g.chance(50):
                    o = [x for x in self.funs.values() if x.static and x.file.endswith(".c") and
                         x.file != f]
                    o = [x for x in o if not any(y.name == x.name and y.file == f
                                                 for y in self.funs.values())]
                    if o:
                        name = g.choice(o).name
                n += 1
                key = name + "@" + f
                self.funs[key] = Fun(key, name, f, st)
        keys = list(self.funs)
        for i, k in enumerate(keys):
            fn = self.funs[k]
            vis = [c for c in keys if self.visible(fn, self.funs[c])]
            for _ in range(g.weighted([(0, 3), (1, 4), (2, 3), (3, 1)])):
                c = g.choice(vis) if vis else None
                if c and (c != k or g.chance(20)):
                    fn.calls.append(c)
            for _ in range(1 + g.choose(4)):
                op = g.choice(OPS)
                arg = None
                pool = {"glob": self.globs, "mac": sorted(self.macros), "st": sorted(self.structs),
                        "nmac": [x for x in sorted(self.nested) if x[0] == "N"],
                        "fmac": [x for x in sorted(self.nested) if x[0] == "F"]}.get(op)
                if pool is not None:
                    if not pool:
                        op = "add"
                    else:
                        arg = g.choice(pool)
                if op == "snip":
                    arg = g.choose(len(snips.LIST))
                fn.ops.append((op, 1 + g.choose(90), arg))
            if g.chance(22):
                self.mutate(fn)
            if g.chance(30):
                fn.layout = g.choice(LAYOUTS)
        twins = set()
        for a, b in self.twins:
            # a function calls both, of which one returns nothing and the other one changes
            c = [k for k in keys if k not in (a, b) and all(
                self.visible(self.funs[k], self.funs[x]) for x in (a, b))] if b in self.funs else []
            if c and g.chance(60):
                fn = self.funs[g.choice(c)]
                fn.calls += [x for x in (a, b) if x not in fn.calls]
                twins.add(a)
                if not self.funs[b].mut:
                    self.mutate(self.funs[b])
        for fn in self.funs.values():
            if not fn.static and len(self.files) > 1 and g.chance(8) and not self.nodebug and \
                    not any(self.funs[c].static and self.funs[c].file.endswith(".c") for c in fn.calls):
                fn.moved = g.choice([x for x in self.files if x != fn.file])
        for k, fn in self.funs.items():
            if fn.layout == "callee":
                # the new version calls another function
                o = [c for c in fn.calls if c != k]
                n = [c for c in keys if c != k and c not in o and self.visible(fn, self.funs[c])]
                if o and n and fn.file.endswith(".c") and not fn.moved:
                    fn.other = (g.choice(o), g.choice(n))
                else:
                    fn.layout = None
            if fn.layout == "split" and (fn.moved or fn.file.endswith(".h")):
                fn.layout = None
        # functions whose result nobody uses
        self.ignored = {k for k in self.funs if g.chance(20 if k not in twins else 80)}
        for k, fn in self.funs.items():
            if k in self.ignored and g.chance(40 if k not in twins else 80) and not fn.moved and fn.layout != "split" and \
                    sum(x.name == fn.name for x in self.funs.values()) == 1:
                fn.void = g.choose(2)
            fn.wrap = g.chance(20)
        self.order = {(f, v): g.chance(15) for f in self.files + self.headers for v in (0, 1)}
        self.o0 = g.chance(30)
        self.decls = {o for fn in self.funs.values() for k, c, o in fn.ops if k == "snip" and
                      snips.LIST[o].decls and g.chance(40)}
        self.off, self.on = set(), set()     # patterns that are not as by default

    def mutate(self, fn):
        g = self.g
        fn.mut = g.choice(MUTS)
        if fn.mut == "snip":
            # the new version of one piece of code
            fn.mut, fn.snip = None, len(fn.ops)
            fn.ops.append(("snip", 1 + g.choose(90), g.choose(len(snips.LIST))))
        if fn.mut != "order":
            return
        # loads and stores of the same variable change their order
        use = ["use_int(%s);", "{y} += %s;", "ext_fun(%s, 1);"]
        v = list(RELOC)
        g.shuffle(v)
        stores = ["%s = %d;" % (x, 1 + g.choose(50)) for x in v[:1 + g.choose(3)]]
        u = stores[g.choose(len(stores))].split()[0]
        if g.chance(30):
            two = [g.choice(use) % u, "use_reg(%s);" % u]
            ab = [two, [stores[0].replace(v[0], u)] + two[::-1]]
        else:
            a = [g.choice(use) % u]
            ab = [a + stores, stores + a]
        fn.order = ab[::-1] if g.chance(40) else ab

    def decl_changed(self, o):
        """Do the declarations of a piece of code change?"""
        return o in self.decls or any(fn.snip is not None and fn.ops[fn.snip][2] == o for fn in self.funs.values())

    def visible(self, a, b):
        if b.file.endswith(".h"):
            return a.file == b.file or a.file.endswith(".c")
        if self.nodebug:
            return a.file == b.file
        if a.file.endswith(".h"):
            return not b.static
        return not b.static or a.file == b.file

    def file_of(self, fn, v):
        return fn.moved if v and fn.moved else fn.file

    # -- text
    def calls_of(self, fn, v):
        if v and fn.other:
            return [fn.other[1] if c == fn.other[0] else c for c in fn.calls]
        return fn.calls

    def body(self, fn, v, part=False):
        mut = fn.mut if v else None
        lay = fn.layout if v else None
        y = "res" if lay == "rename" else "y"
        ops = list(fn.ops)
        out = []
        if part:
            # the helper with the first operations
            ops, mut = ops[:1], mut if mut in ("drop", "const") else None
        elif lay == "split":
            out.append("\tint y = %s_part(x);" % fn.name)
            ops = ops[1:]
            mut = None if mut in ("drop", "const") else mut
        if lay == "split" and not part:
            pass
        elif lay == "decl":
            out += ["\tint %s;" % y, "\t%s = x;" % y]
        else:
            out.append("\tint %s = x;" % y)
        if mut == "drop":
            out.append("\t%s = %s + 3;" % (y, y))
        for i, op in enumerate(ops):
            k, c, o = op
            if mut == "const" and i == 0:
                out.append("\t%s = %s ^ %d;" % (y, y, 1000 + c))
            if lay == "comment":
                out.append("\t/* step %d */" % i)
            if k == "snip":
                new = v and fn.snip is not None and fn.ops[fn.snip] is op
                s = [x.format(y=y, c=c, n="%d_" % i) for x in snips.LIST[o].code[1 if new else 0]]
                out += ["\t" + x if x else "" for x in s]
                continue
            s = {
                "add": ["{y} = {y} + {c};"],
                "mul": ["{y} = {y} * {c2};"],
                "xor": ["{y} = {y} ^ {c};"],
                "if": ["if ({y} > {c})", "\t{y} = {y} - 1;"],
                "loop": ["for (int i = 0; i < x; i++)", "\t{y} += i * {c};"],
                "glob": ["{y} = {y} + {o} + {c};", "{o} = {y};"],
                "mac": ["{y} = {y} * 3 + {o} * {y};"],
                "nmac": ["{y} = {y} * 3 + {o} * {y};"],
                "fmac": ["{y} = {o}({y}) + {c};"],
                "ctx": ["{y} = {y} * 5 + CTX * {y};"],
                "st": ["struct {o} s%d = {{ .a = {y} }};" % i, "{y} = use_{o}(&s%d) + {c};" % i],
                "arr": ["int t%d[4] = {{ {y}, x, {c}, 0 }};" % i, "{y} = use_arr(t%d);" % i],
                "cmp": ["{y} = x == {c} ? {y} : {y} + 2;"],
                "str": ["use_str(\"text %d\");" % c, "{y}++;"],
                "ext": ["{y} += ext_fun({y},", "               {c});"] if fn.wrap else ["{y} += ext_fun({y}, {c});"],
                "switch": ["switch ({y}) {{", "case 1: {y} = {c}; break;", "case 7: {y} -= 2; break;",
                           "default: {y} ^= 1;", "}}"],
                "ptr": ["{y} += call_it(ext_cb, {y});"],
            }[k]
            s = [x.format(y=y, c=c, c2=c + 2, o=o) for x in s]
            if lay == "brace" and k == "if":
                s = [s[0] + " {", s[1], "}"]
            out += ["\t" + x for x in s]
        if mut == "op":
            out.append("\t%s = %s - 77;" % (y, y))
        if mut == "extra":
            out.append("\t%s += ext_new(%s);" % (y, y))
        if mut == "branch":
            out += ["\tif (x == 12345)", "\t\treturn ext_fun(5, x);"]
        if fn.mut == "pred" and not part:
            out += ["\tif (x %s 11)" % (">=" if mut else "<"), "\t\t%s += ext_fun(x, 0);" % y]
        if fn.mut == "order" and not part:
            out += ["\t" + x.format(y=y) for x in fn.order[1 if mut else 0]]
        if part:
            return out + ["\treturn y;"]
        for c in self.calls_of(fn, v):
            out.append("\t%s%s(%s" % ("" if c in self.ignored else y + " += ", self.funs[c].name, y))
            if fn.wrap:
                out.append("\t     - 1);")
            else:
                out[-1] += ");"
        if fn.void == v:
            return [re.sub(r"return (.*);", r"{ \1; return; }", x) for x in out]
        out.append("\treturn %s;" % y)
        return out

    def function(self, fn, v):
        out = [""]
        if v and fn.layout == "split":
            out += ["static int %s_part(int x)" % fn.name, "{"] + self.body(fn, v, True) + ["}", ""]
        if v and fn.layout == "pad":
            out += ["", "/* moved */", ""]
        st = ""
        if fn.static:
            st = "static inline __attribute__((noinline)) " if fn.file.endswith(".h") else "static "
        typ = self.type_of(fn, v)
        if v and fn.layout == "brace":
            out.append("%s%s %s(int x) {" % (st, typ, fn.name))
        else:
            out += ["%s%s %s(int x)" % (st, typ, fn.name), "{"]
        return out + self.body(fn, v) + ["}"]

    def type_of(self, fn, v):
        return "void" if fn.void == v else "int"

    def texts(self, v):
        res = {}
        t = ["#ifndef COMMON_H", "#define COMMON_H"]
        for m, (val, ch) in self.macros.items():
            t.append("#define %s %d" % (m, val + (1 if ch and v else 0)))
        for m, b in self.nested.items():
            t.append("#define %s" % (m + (" (%s + 1)" if m[0] == "N" else "(a) ((a) * %s)") % b))
        for s, ch in self.structs.items():
            t += ["struct %s {" % s, "\tint a;"] + (["\tlong added;"] if ch and v else []) + ["};"]
            t.append("int use_%s(struct %s *);" % (s, s))
        t += ["extern int %s;" % x for x in self.globs]
        t += ["extern volatile int %s;" % x for x in RELOC] + ["void use_int(int);", "void use_reg(int);"]
        t += ["int ext_new(int);", "int ext_fun(int, int);", "int ext_cb(int);",
              "int call_it(int (*)(int), int);", "int use_arr(int *);", "void use_str(const char *);"]
        if any(k == "snip" for fn in self.funs.values() for k, c, o in fn.ops):
            t += snips.DECLS
            for o in sorted({o for fn in self.funs.values() for k, c, o in fn.ops if k == "snip"}):
                if snips.LIST[o].decls:
                    t += snips.LIST[o].decls[1 if v and self.decl_changed(o) else 0]
        t += ["%s %s(int);" % (self.type_of(f, v), f.name) for f in self.funs.values() if not f.static]
        res["common.h"] = "\n".join(t + ["#endif"]) + "\n"
        for h in self.headers:
            fs = [f for f in self.funs.values() if f.file == h]
            t = ["#ifndef G_%s" % h[:-2], "#define G_%s" % h[:-2], '#include "common.h"']
            t += ["static inline %s %s(int);" % (self.type_of(f, v), f.name) for f in fs]
            for f in fs[::-1] if self.order[(h, v)] else fs:
                t += self.function(f, v)
            res[h] = "\n".join(t + ["#endif"]) + "\n"
        for c in self.files:
            val, ch = self.ctx[c]
            t = ["#define CTX %d" % (val + (1 if ch and v else 0)), '#include "common.h"']
            t += ['#include "%s"' % h for h in self.headers]
            if c == self.files[0]:
                t += ["int %s;" % x for x in self.globs]
            fs = [f for f in self.funs.values() if self.file_of(f, v) == c]
            t += ["static %s %s(int);" % (self.type_of(f, v), f.name) for f in fs if f.static]
            for f in fs[::-1] if self.order[(c, v)] else fs:
                t += self.function(f, v)
            keep = [f.name for f in fs if f.static] + [f.name for f in self.funs.values()
                                                      if f.file in self.headers]
            if keep:
                t.append("void *keep_%s[] = { %s };" % (c[:-2], ", ".join(sorted(set(keep)))))
            res[c] = "\n".join(t) + "\n"
        return res

    # -- the known answer
    def base(self, name):
        while name in self.nested:
            name = self.nested[name]
        return name

    def differs(self, fn, mod):
        """True, False or None (not known) for the code of fn in module mod."""
        if fn.void is not None:
            return None         # code that computes the result may be removed
        if fn.mut:
            return True
        opt = 1 if self.o0 else 0
        off = self.off - {"numerical-macros"}
        res = set()
        for i, (k, c, o) in enumerate(fn.ops):
            if k in ("mac", "nmac", "fmac") and self.macros[self.base(o)][1] or k == "ctx" and self.ctx[mod][1]:
                # the pattern for numerical macros may make it equal
                res.add(True if "numerical-macros" in self.off else None)
            if k == "st" and self.structs[o]:
                res.add(None)
            if k == "snip":
                s = snips.LIST[o]
                d = s.differs[opt] if i == fn.snip else s.same[opt] if s.decls and self.decl_changed(o) else False
                if i == fn.snip and s.off in self.off:
                    d = True
                elif i == fn.snip and d is False and off:
                    d = None
                if d is True and self.on or d is False and s.decls and (off or self.nodebug):
                    d = None
                if s.name == "line" and (self.nodebug or "kernel-prints" in self.off):
                    d = None         # macros are found by debug information
                res.add(d)
        if "unused-return-types" in off and any(self.funs[c].void is not None for c in fn.calls):
            res.add(None)
        if True in res:
            return True
        if fn.layout == "split" or fn.other or None in res:
            return None
        return False

    def answer(self, key, mod=None):
        """({functions that differ}, {not known}) reachable in its module;
        None if a function was moved to another file."""
        mod = mod or self.funs[key].file
        yes = self.closure(key, mod, False)
        allf = self.closure(key, mod, True)
        if yes is None or allf is None:
            return None
        return yes[0], (allf[0] | allf[1] | yes[1]) - yes[0]

    def closure(self, key, mod, alle):
        yes, maybe, seen, todo = set(), set(), set(), [key]
        while todo:
            k = todo.pop()
            fn = self.funs[k]
            if k in seen or (fn.file.endswith(".c") and mod not in (fn.file, fn.moved)):
                continue
            seen.add(k)
            if fn.moved:
                return None
            d = self.differs(fn, mod)
            if d:
                yes.add(fn.name)
            elif d is None:
                maybe.add(fn.name)
            if alle:
                todo += fn.calls + list(fn.other or ())
            else:
                # callees of one version only are not compared
                todo += [c for c in fn.calls if not fn.other or c != fn.other[0]]
            if fn.layout == "split":
                maybe.add(fn.name + "_part")
        return yes, maybe


def compile_all(root, prog, debug=True):
    ps = []
    env = {"PATH": "/usr/bin:/bin", "LANG": "C"}
    for c in prog.files:
        opt = ["-O0", "-Xclang", "-disable-O0-optnone"] if prog.o0 else \
            ["-O1", "-Xclang", "-disable-llvm-passes"]
        a = R.Popen([LLVM + "clang", "-S", "-emit-llvm"] + opt + (["-g", "-fdebug-macro"] if debug else []) + ["-w",
                    os.path.join(root, c), "-o", "-"], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                    stdin=subprocess.DEVNULL, env=env, cwd=root)
        b = R.Popen([LLVM + "opt", "-S", "-passes=" + PASSES, "-", "-o", os.path.join(root, c[:-2] + ".ll")],
                    stdin=a.stdout, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=root) \
            if not prog.o0 else None
        ps.append((c, a, b))
    for c, a, b in ps:
        if b is None:
            out, err = a.communicate()
            with open(os.path.join(root, c[:-2] + ".ll"), "wb") as f:
                f.write(out)
        else:
            a.stdout.close()
            _, e2 = b.communicate()
            err = a.stderr.read() + e2
            a.stderr.close()
        if a.wait() or (b is not None and b.returncode):
            raise RuntimeError("cannot compile %s: %s" % (c, err.decode()[-800:]))


def shuffled(text, env):
    """An answer of the engine with its results in another order (they come in
    the order of addresses)."""
    a = text.find("function-results:\n")
    if a < 0:
        return text
    a += len("function-results:\n")
    b = min(x for x in (text.find("\n" + m, a) for m in ("missing-defs", "...", "---")) if x >= 0) + 1
    parts = re.split(r"(?m)^(?=  - result:)", text[a:b])
    assert parts[0] == "", text
    parts = sorted(parts[1:])
    env.shuffle(parts)
    return text[:a] + "".join(parts) + text[b:]


class World(proj.World):
    def __init__(self, run, ctx, clash=True, nodebug=False):
        proj.World.__init__(self, run)
        sim = self.sim
        self.ctx = ctx
        self.prog = Program(self.g, clash, nodebug)
        self.roots = [self.root + "/old", self.root + "/new"]
        self.exe = os.path.join(ctx["build"], "diffkemp/simpll/diffkemp-simpll")
        sim.real_programs .add("diff")
        for v, r in enumerate(self.roots):
            for n, t in self.prog.texts(v).items():
                put(r + "/" + n, t)
            act, sim.active = sim.active, False
            try:
                compile_all(r, self.prog, v not in self.prog.nodebug)
            finally:
                sim.active = act
            self.stamp(r)

    def make_list(self, groups):
        """[(group, key)]; self.vars: the variable it is compared for."""
        g, out = self.g, []
        for gr in groups:
            names = set()
            for k, fn in self.prog.funs.items():
                if fn.file.endswith(".h") or fn.name in names or not g.chance(85 if not fn.static else 40):
                    continue
                names.add(fn.name)
                out.append((gr, k))
        g.shuffle(out)
        self.vars = {x: g.choice(self.prog.globs) if x[0] and self.prog.globs and g.chance(60) else None
                     for x in out}
        return out

    def snapshot(self, v, lst):
        root = self.roots[v]
        import datetime
        groups = {}
        for gr, k in lst:
            fn = self.prog.funs[k]
            groups.setdefault(gr, []).append({"name": fn.name, "llvm": self.prog.file_of(fn, v)[:-2] + ".ll",
                                              "glob_var": self.vars[(gr, k)], "tag": None})
        put(root + "/snapshot.yaml", yaml.dump([{
            "diffkemp_version": "0.5.0", "llvm_version": 16,
            "created_time": datetime.datetime.fromtimestamp(int(self.sim.clock), datetime.timezone.utc),
            "list_kind": "function" if None in groups else "sysctl",
            "list": groups[None] if None in groups else [
                {"sysctl": gr, "functions": fs} for gr, fs in groups.items()],
            "llvm_source_finder": {"kind": "single_llvm_file"}}]))

    # -- the engine behind a seam: it fails where told to, and lists its results in any order
    def seam(self, fault):
        """fault: {function: "empty"|"raise"|"garbage"}; returns the set of functions it failed on."""
        ffi, sim, env, failed = self.ctx["ffi"], self.sim, self.run.s.env, set()

        def library(name, real_fun, a):
            fun = ffi.string(a[4]).decode()
            k = fault.get(fun)
            sim.step("engine")
            if k:
                sim.count_fault("engine-" + k)
                failed.add(fun)
                if name == "runSimpLL" and k == "raise":
                    os._exit(1)
                if k == "raise":
                    raise ffi.error("failure")
                ffi.buffer(a[7])[0:4] = b"\0\0\0\0" if k == "empty" else b"}{:\0"
                return None
            self.run.checkpoint("the comparison of " + fun)
            real_fun(*a)
            text = ffi.string(a[7])
            buf = shuffled(text.decode("utf-8", "surrogateescape"), env).encode("utf-8", "surrogateescape")
            assert len(buf) == len(text)
            ffi.buffer(a[7])[0:len(buf)] = buf
            return None

        def binary(s, call):
            fun = call.argv[call.argv.index("--fun") + 1]
            k = fault.get(fun)
            if k:
                sim.count_fault("engine-" + k)
                failed.add(fun)
                call.stdout = b"}{:" if k == "garbage" else b""
                return -9 if k == "raise" else 0
            out, call.stderr, rc = self.real(call.argv)
            call.stdout = shuffled(out.decode(), env).encode()
            return rc
        self.ctx["lib"].__dict__["fault"] = library
        sim.programs[self.exe] = sim.programs["diffkemp-simpll"] = binary
        return failed

    # -- the engine on its own: one process per function, nothing before it
    def alone(self, key, vers, args, var=None):
        fn = self.prog.funs[key]
        ll = [os.path.join(self.roots[v], self.prog.file_of(fn, v)[:-2] + ".ll") for v in vers]
        out, err, rc = self.real([self.exe] + ll + ["--print-callstacks", "--fun", fn.name] + args +
                                 (["--var", var] if var else []))
        if rc:
            return None
        return self.reach(yaml.safe_load(out.decode()), fn.name)

    def real(self, argv):
        act, self.sim.active = self.sim.active, False
        try:
            p = R.Popen(argv, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            out, err = p.communicate()
            return out, err, p.returncode
        finally:
            self.sim.active = act

    @staticmethod
    def reach(y, start):
        """{differing function: [differing objects]} reachable on both sides."""
        res = {}
        for r in (y or {}).get("function-results") or []:
            res[r["first"]["function"]] = r
        def strong(n):
            """The result of a function or, if there is none, of its variant that returns nothing."""
            r = res.get(n)
            return res.get(n + ".void") if r is None else r
        seen = []
        for side in ("first", "second"):
            vis, rep, todo = set(), {start}, [start]
            home = strong(start)[side].get("file") if strong(start) else None
            while todo:
                n = todo.pop()
                r = strong(n)
                if n in vis or r is None:
                    continue
                f = r[side].get("file") or ""
                if n != start and f.endswith(".c") and f != home:
                    continue
                vis.add(n)
                # calls of variants that are equal, and the calls of the other version they belong to
                weak = {c["function"] for s in ("first", "second") for c in r[s].get("calls") or []
                        if c["function"].endswith(".void") and
                        res.get(c["function"], {}).get("result") == "equal"}
                for c in r[side].get("calls") or []:
                    m = re.sub(r"\.void$", "", c["function"])
                    todo.append(m)
                    if not (c.get("weak") or m + ".void" in weak):
                        rep.add(m)
            seen.append(vis & rep)
        return {n: sorted(o["name"] for o in strong(n).get("differing-objects") or [])
                for n in seen[0] & seen[1] if strong(n)["result"] == "not-equal"}
