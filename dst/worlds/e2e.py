"""Two versions of a project that are built into snapshots by diffkemp and then
compared by it; which functions differ is known from the project."""
import os
import re

import yaml

from .. import core
from ..core import R, Violation
from . import cmp, proj, report
from .proj import get, mk, put


class Project(proj.World):
    """units[v], terms[v][function]: version v of the project."""

    def __init__(self, run, ctx, kind, sub="w"):
        proj.World.__init__(self, run, sub)
        self.kind = kind
        self.kernel = kind == "kernel"
        self.srcs = [self.root + "/src-old", self.root + "/src-new"]
        self.snaps = [self.root + "/old", self.root + "/new"]
        self.engine = cmp.Engine(run, self, ctx)
        self.engine.inline = True
        self.late_fault = {}        # function -> (number of the call, kind)
        self.ncalls = {}
        self.engine.use_fault = self.engine_fault
        self.sim.real_programs.add("diff")
        self.sim.programs["llvm-link"] = self.p_link
        self.sim.programs["opt"] = self.p_opt2
        self.links = []             # (inputs, how it ended)
        self.link_fault = {}        # file name of a linked module -> kind
        self.opt_fault = {}         # number of the call of opt on a linked module -> kind
        self.opt_calls = 0
        self.program()

    def use(self, v):
        self.v = v
        self.src, self.snap, self.units = self.srcs[v], self.snaps[v], self.unitsv[v]

    # -- generation ------------------------------------------------------------
    def program(self):
        g = self.g
        dirs = ["", "kernel", "mm"] if self.kernel else ["", "lib", "src/core"]
        if g.chance(10):
            dirs[2] = g.choice(["un-linked", "mm-linked/src", "k.ll"])
        paths = []
        for i in range(2 + g.choose(3)):
            base = "u%d.c" % i
            if i and g.chance(20):
                base = "u0.c"
            elif g.chance(12):
                base = g.choice(["u%d-linked.c", "u%d-simpl.c", "-u%d.c", "u%d.ll.c"]) % i
            p = os.path.join(g.choice(dirs), base)
            paths.append(p if p not in paths else os.path.join(g.choice(dirs), "u%d.c" % i))
        hdrs = ["include/h%d.h" % i for i in range(g.choose(2))]
        self.incs = {p: [h for h in hdrs if g.chance(60)] + (
            ["include/linux/compiler-gcc.h"] if self.kernel and g.chance(40) else []) for p in paths}
        # version 0: name -> [file, static, [terms]]
        old, n = {}, 0
        for p in paths + hdrs:
            for _ in range(1 + g.choose(3)):
                old["%s_%d" % ("hf" if p in hdrs else "fn", n)] = [
                    p, p in hdrs or bool(n) and g.chance(12), [("n", 10 * n + 1 + i) for i in range(1 + g.choose(2))]]
                n += 1
        names = sorted(old)
        for f in names:
            for _ in range(g.choose(3)):
                c = g.choice(names)
                # no recursion: only functions with a larger number are called
                if int(c.split("_")[1]) > int(f.split("_")[1]) and self.callable(old, f, c):
                    old[f][2].insert(g.choose(len(old[f][2]) + 1), ("call", c))
        new = {f: [p, st, list(ts)] for f, (p, st, ts) in old.items()}
        self.changed = {}
        for f in names:
            k = g.weighted([("same", 5), ("body", 2), ("inline", 4), ("outline", 3), ("move", 1)])
            if k == "body":
                i = g.choose(len(new[f][2]))
                if new[f][2][i][0] == "n":
                    new[f][2][i] = ("n", new[f][2][i][1] + 5000)
            elif k in ("inline", "outline"):
                # a call in one version is the callee's code in the other one
                a, b = (old, new) if k == "inline" else (new, old)
                at = [i for i, t in enumerate(a[f][2]) if t[0] == "call" and
                      all(x[0] == "n" or self.callable(a, f, x[1]) for x in a[t[1]][2])]
                if at and old[f][2] == new[f][2]:
                    i = g.choice(at)
                    b[f][2][i:i + 1] = a[a[f][2][i][1]][2]
                else:
                    k = "same"
            elif k == "move" and not new[f][1] and new[f][0] in paths:
                p = g.choice(paths)
                if all(self.callable(new, None, t[1], p) for t in new[f][2] if t[0] == "call"):
                    new[f][0] = p
            self.changed[f] = k
        for i in range(g.choose(3)):
            # a call is moved to a new function in one version (often of a
            # function that is defined in none of them)
            a, b = (old, new) if g.chance(50) else (new, old)
            f = g.choice(names)
            p = g.choice(paths)
            c = "ext_%d" % i if g.chance(65) else g.choice(names)
            if c in a and (int(c.split("_")[1]) <= int(f.split("_")[1]) or not all(
                    self.callable(x, None, c, q) for x in (a, b) for q in (x[f][0], p))):
                c = "ext_%d" % i
            h = "fn_%d" % (90 + i)
            b[h] = [p, False, [("call", c)]]
            at = g.choose(len(b[f][2]) + 1)
            if a[f][2] == b[f][2]:
                a[f][2].insert(at, ("call", c))
                b[f][2].insert(at, ("call", h))
                self.changed[f] += "+wrap"
        self.funs = [old, new]
        self.unitsv = []
        for v in (0, 1):
            us = []
            for p in paths:
                u = proj.Unit(p)
                u.incs = list(self.incs[p])
                for f, (file, st, ts) in sorted(self.funs[v].items()):
                    if file == p:
                        u.funs.append([f, st, ts, 0])
                us.append(u)
            self.unitsv.append(us)
        self.hdrs = hdrs

    def callable(self, funs, f, c, file=None):
        file = file or funs[f][0]
        cf, st, _ = funs[c]
        if cf.endswith(".h"):
            return cf == file or (file.endswith(".c") and cf in self.incs[file])
        return not st or cf == file

    def text(self, v, p):
        out = ["/* %s */" % p] + ['#include "%s"' % h for h in self.incs.get(p, [])]
        fs = [(f, x) for f, x in sorted(self.funs[v].items()) if x[0] == p]
        for f, (_, st, ts) in fs:
            out.append("%sint %s(int x) { return %s; }" % (
                ("static inline " if p.endswith(".h") else "static ") if st else "", f,
                " + ".join(["x"] + [str(t[1]) if t[0] == "n" else t[1] + "(x)" for t in ts])))
        return "\n".join(out) + "\n"

    def write_sources(self):
        for v in (0, 1):
            for p in [u.path for u in self.unitsv[v]] + self.hdrs:
                put("%s/%s" % (self.srcs[v], p), self.text(v, p))
            if self.kernel:
                put(self.srcs[v] + "/Makefile", "# kernel\n")
                put(self.srcs[v] + "/include/linux/compiler-gcc.h", proj.HDR_GCC)
            self.stamp(self.srcs[v])

    def build(self, v, symbols, name):
        self.use(v)
        put(self.root + "/symbols%d" % v, "".join(s + "\n" for s in symbols))
        argv = (["build-kernel", self.src, self.snap, self.root + "/symbols%d" % v] if self.kernel else
                ["build", self.src, self.snap, self.root + "/symbols%d" % v, "--no-native-cc-wrapper"])
        return self.cli(argv, name)

    def engine_fault(self, f):
        n = self.ncalls[f] = self.ncalls.get(f, -1) + 1
        k = self.late_fault.get(f)
        if k and n >= k[0]:
            self.sim.count_fault("engine-" + k[1])
            return k[1]
        return None

    # -- tools of the comparison --------------------------------------------------
    def p_link(self, sim, call):
        argv = call.argv[1:]
        out = argv[argv.index("-o") + 1]
        ins = [a for i, a in enumerate(argv) if not a.startswith("-") and argv[i - 1] != "-o"]
        kind = None
        for x in ins[1:]:
            k = self.link_fault.get(os.path.basename(x))
            if k:
                kind = k
                sim.count_fault("llvm-link-" + k)
        texts = []
        for x in ins:
            if not os.path.exists(x):
                self.links.append((ins, "missing"))
                return 1
            texts.append(self.rd(x))
        self.links.append((ins, kind or "done"))
        if kind == "error":
            return 1
        text = link(texts)
        if text is None:
            self.links[-1] = (ins, "clash")
            return 1
        self.out_file(out, text, kind)
        return -9 if kind == "killed" else 0

    def p_opt2(self, sim, call):
        passes = [a for a in call.argv if a.startswith("-passes=")]
        if passes != ["-passes=module(constmerge)"]:
            return proj.World.p_opt(self, sim, call)
        n = self.opt_calls
        self.opt_calls += 1
        k = self.opt_fault.get(n)
        f = call.argv[1]
        if not os.path.exists(f):
            return 1
        if k:
            sim.count_fault("opt-" + k)
        if k == "error":
            return 1
        self.out_file(call.argv[call.argv.index("-o") + 1], self.rd(f), k)
        return -9 if k == "killed" else 0

    # -- what is right -------------------------------------------------------------
    def module(self, v, units):
        """The definitions and declarations in these units of version v."""
        defs, decl = {}, {}
        files = set(units)
        for u in units:
            files |= set(self.incs[u])
        for f, (p, st, ts) in self.funs[v].items():
            if p not in files or (st and p not in units and not p.endswith(".h")):
                continue
            x = cmp.IRFun(f, st)
            x.file = p
            x.items = [("stmt", "; term %d" % t[1]) if t[0] == "n" else ("call", t[1], 0) for t in ts]
            defs[f] = x
            for t in ts:
                if t[0] == "call":
                    decl[t[1]] = cmp.IRFun(t[1], False)
        return defs, {k: d for k, d in decl.items() if k not in defs}

    def answer(self, f, linkable):
        """(differing functions reported for f, units that had to be linked,
        functions compared) when the units in linkable[v] can be linked."""
        units = [{self.funs[0][f][0]}, {self.funs[1][f][0]}]
        needed = [set(), set()]
        while True:
            ms = [self.module(v, units[v]) for v in (0, 1)]
            y = yaml.safe_load(self.engine.compare(ms[0], ms[1], f, f))
            more = False
            for m in y.get("missing-defs", []):
                for v, k in ((0, "first"), (1, "second")):
                    d = self.funs[v].get(m.get(k))
                    if d is None or d[0].endswith(".h") or d[1] or m[k] in ms[v][0]:
                        continue
                    needed[v].add(d[0])
                    if d[0] in linkable[v] and d[0] not in units[v]:
                        units[v].add(d[0])
                        more = True
            if not more:
                break
        return self.differing(f, y), needed, {r["first"]["function"] for r in y["function-results"]}

    def possible(self, f):
        """All sets of differing functions that can be reported for f, whatever
        could be linked."""
        out = []
        subs = []
        for v in (0, 1):
            own = self.funs[v][f][0]
            rest = [u.path for u in self.unitsv[v] if u.path != own]
            subs.append([{own} | {p for k, p in enumerate(rest) if m >> k & 1} for m in range(1 << len(rest))])
        for a in subs[0]:
            for b in subs[1]:
                y = yaml.safe_load(self.engine.compare(self.module(0, a), self.module(1, b), f, f))
                d = self.differing(f, y)
                if d not in out:
                    out.append(d)
        return out

    @staticmethod
    def differing(f, y):
        """Functions reported as differing for f from the answer of the engine."""
        res = {r["first"]["function"]: r for r in y["function-results"]}
        reach = []
        for side in ("first", "second"):
            seen, todo = {f}, [f]
            while todo:
                r = res[todo.pop()]
                for c in r[side].get("calls", []):
                    n = c["function"]
                    if n in seen or n not in res:
                        continue
                    file = res[n][side]["file"]
                    if file.endswith(".c") and file != res[f][side]["file"]:
                        continue
                    seen.add(n)
                    todo.append(n)
            reach.append(seen)
        return {n for n in reach[0] & reach[1] if res[n]["result"] == "not-equal"}


def link(texts):
    """llvm-link of toy IR; None if a symbol is defined twice."""
    defs, out, files = {}, [], []
    names = set()
    decl = {}
    blocks = []
    for i, t in enumerate(texts):
        if cmp.parse_ir(t) is None:
            return None
        ren = {}
        found = re.findall(r"^define (internal|dso_local) i32 @([\w.]+)\(", t, re.M)
        for kind, n in found:
            if n in defs:
                if kind == "internal":
                    k = i
                    while "%s.%d" % (n, k) in defs or "%s.%d" % (n, k) in ren.values():
                        k += 1
                    ren[n] = "%s.%d" % (n, k)
                elif defs[n] == "dso_local":
                    return None
                else:
                    return None          # would rename the first one; not generated
        for kind, n in found:
            defs[ren.get(n, n)] = kind
        if ren:
            t = re.sub(r"@([\w.]+)", lambda m: "@" + ren.get(m.group(1), m.group(1)), t)
        blocks += re.findall(r"^define .*?^}\n", t, re.M | re.S)
        for m in re.finditer(r"^declare i32 @([\w.]+)\(i32\).*\n", t, re.M):
            decl[m.group(1)] = m.group(0)
        files += [x for x in re.findall(r"!DIFile\(.*\)", t)]
    head = texts[0].split("\n")[0]
    out = [head + "\n"] + blocks + [d for n, d in sorted(decl.items()) if n not in defs]
    out += ["!%d = %s\n" % (k + 1, x) for k, x in enumerate(files)]
    return "".join(out)
