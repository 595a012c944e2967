"""Sysctl flavour of the kernel world: tables of sysctl options, their proc
handlers and the users of their data variables; the answers the SimpLL library
gives about them are read from the toy IR."""
import os
import re

from ..core import Violation
from . import proj


class Lib:
    """The part of the SimpLL library that sysctl snapshots use."""

    def __init__(self, ctx):
        self.ffi, self.lib = ctx["ffi"], ctx["lib"]
        self.keep = []
        self.lib.impl.update({n: getattr(self, n) for n in dir(self)
                              if n[0] != "_" and callable(getattr(self, n))})

    def _obj(self, x):
        h = self.ffi.new_handle(x)
        self.keep += [x, h]
        return h

    def _str(self, s):
        b = self.ffi.new("char[]", s.encode())
        self.keep.append(b)
        return b

    def _arr(self, names):
        ffi = self.ffi
        a = ffi.new("void *[]", max(1, len(names)))
        for i, n in enumerate(names):
            a[i] = ffi.cast("void *", self._str(n))
        r = ffi.new("struct ptr_array *")
        self.keep += [a, r]
        r.arr, r.len = a, len(names)
        return r[0]

    def loadModule(self, path):
        path = self.ffi.string(path).decode()
        try:
            with open(path) as f:
                text = f.read()
        except FileNotFoundError:
            return self.ffi.NULL
        return self._obj({"path": path, "text": text})

    def getSysctlTable(self, mod, table):
        m = self.ffi.from_handle(mod)
        name = self.ffi.string(table).decode().split(".")[0]
        rows = [t.split() for t in re.findall(r"^; T (.*)$", m["text"], re.M)]
        return self._obj([r[1:] for r in rows if r[0] == name])

    def _find(self, name, table):
        name = self.ffi.string(name).decode().split(".")[-1]
        for r in self.ffi.from_handle(table):
            if r[0] == name:
                return r
        return None

    def parseSysctls(self, pattern, table):
        pattern = self.ffi.string(pattern).decode()
        head, dot, last = pattern.rpartition(".")
        out = []
        for r in self.ffi.from_handle(table):
            if last == "*" or last == r[0] or \
                    (last[0] == "{" and r[0] in last[1:-1].split("|")):
                out.append(head + dot + r[0])
        return self._arr(out)

    def getProcFun(self, name, table):
        r = self._find(name, table)
        return self.ffi.NULL if r is None or r[2] == "-" else self._obj(r[2])

    def getFunctionName(self, fun):
        return self._str(self.ffi.from_handle(fun))

    def _param(self, name):
        r = self.ffi.new("struct kernel_param *")
        self.keep.append(r)
        r.name = self.ffi.NULL if name in (None, "-") else self._str(name)
        return r[0]

    def getData(self, name, table):
        r = self._find(name, table)
        return self._param(r and r[1])

    def getChild(self, name, table):
        r = self._find(name, table)
        return self._param(r and r[3])

    def getFunctionsUsingParamC(self, param, idx, n, mod):
        param = self.ffi.string(param).decode()
        text = self.ffi.from_handle(mod)["text"]
        out = []
        for m in re.finditer(r"^define [^@]*@(\w+)\(.*?^}", text, re.M | re.S):
            if re.search(r"\b%s\b" % param, m.group(0)):
                out.append(m.group(1))
        return self._arr(out)


def prepare(run, w, shared=False):
    """Generate the kernel; returns (expected entries, tags, patterns, tables)."""
    g, f = run.s.gen, run.s.fault
    Lib(run.ctx)
    w.generate_units(2 + g.choose(4), True, shared)
    fns = [x[0] for u in w.units for x in u.funs]
    unit_of = {x[0]: u for u in w.units for x in u.funs}
    # data variables, used in several units
    datas = ["gv_d%d" % i for i in range(1 + g.choose(4))]
    for d in datas:
        g.choice(w.units).globs.append(d)
        for _ in range(g.choose(4)):
            n = g.choice(fns)
            uses = unit_of[n].uses.setdefault(n, [])
            if d not in uses:
                uses.append(d)
    # tables
    tables = {}
    tunits = {"sysctl_base_table": "kernel/sysctl.c", "kern_table": "kernel/sysctl.c",
              "vm_table": "kernel/sysctl.c" if g.chance(50) else "mm/vmtable.c",
              "net_core_table": "net/core.c", "ipv4_table": "net/ipv4.c",
              "sub_table": "kernel/sub.c"}

    def rows(t, prefix):
        out = []
        for i in range(g.choose(4)):
            out.append(["%s%d" % (prefix, i), g.choice(datas) if g.chance(80) else "-",
                        g.choice(fns + ["proc_missing"]) if g.chance(80) else "-", "-"])
        tables[t] = out
    rows("kern_table", "k")
    rows("vm_table", "v")
    rows("net_core_table", "c")
    rows("ipv4_table", "i")
    rows("sub_table", "s")
    tables["sysctl_base_table"] = [["kernel", "-", "-", "kern_table"], ["vm", "-", "-", "vm_table"]]
    if g.chance(50):
        tables["kern_table"].append(["sub", "-", "-", "sub_table"])
    for t, path in tunits.items():
        u = next((x for x in w.units if x.path == path), None)
        if u is None:
            u = proj.Unit(path)
            u.funs.append(["fn_t_" + re.sub(r"\W", "_", path), False, [], 1])
            w.units.append(u)
        u.extra.append("int %s = 1;" % t)
        for r in tables[t]:
            u.extra.append("/*T %s %s*/" % (t, " ".join(r)))
    w.write_all()
    w.orig_sources = proj.tree(w.src)
    for u in w.units:
        if f.chance(22):
            t, k = f.choice([("clang", "error"), ("make", "error"), ("clang", "killed"),
                             ("make", "no-gcc"), ("opt", "error"), ("opt", "late-error"),
                             ("opt", "killed")])
            w.fault[(t, u.path)] = k
    for n in datas + ["proc_missing"]:
        if f.chance(8):
            w.fault[("cscope-query", n)] = "error"
    # what is asked for
    where = {"kernel.": "kern_table", "vm.": "vm_table", "net.core.": "net_core_table",
             "net.ipv4.": "ipv4_table", "kernel.sub.": "sub_table"}
    asked, plan = [], []
    for _ in range(1 + g.choose(4)):
        pre = g.choice(sorted(where))
        t = where[pre]
        names = [r[0] for r in tables[t]]
        k = g.choose(5)
        if k == 0 and names:
            pat = g.choice(names)
        elif k == 1:
            pat = "*"
        elif k == 2 and names:
            pat = "{%s}" % "|".join([n for n in names if g.chance(60)] or names[:1])
        elif k == 3:
            pat = "nonexistent"
        else:
            pat = names[-1] if names else "none"
        asked.append(pre + pat)
        plan.append((pre, t, pat))
    for x in ("sunrpc.debug", "net.unix.max", "abi.x"):
        if g.chance(15):
            asked.insert(g.choose(len(asked) + 1), x)
    text = "".join(a + "\n" for a in asked)
    proj.put(w.root + "/symbols", text)
    # expected groups
    cq = {n for (t, n) in w.fault if t == "cscope-query"}

    def good(path):
        return not proj.unit_bad(w, path)
    expect, tags = {}, {}
    for pre, t, pat in plan:
        if not good(tunits[t]):
            continue
        if t in ("kern_table", "vm_table", "sub_table") and not good(tunits["sysctl_base_table"]):
            continue
        if t == "sub_table" and (not good(tunits["kern_table"]) or
                                 not any(r[0] == "sub" for r in tables["kern_table"])):
            continue
        for r in tables[t]:
            if not (pat == "*" or pat == r[0] or (pat[0] == "{" and r[0] in pat[1:-1].split("|"))):
                continue
            grp = pre + r[0]
            if r[2] in unit_of and good(unit_of[r[2]].path):
                expect[(grp, r[2])] = unit_of[r[2]].path
                tags[(grp, r[2])] = (None, "proc handler function")
            if r[1] == "-" or r[1] in cq:
                continue
            for n in fns:
                u = unit_of[n]
                if n != r[2] and good(u.path) and r[1] in (u.globs[:1] + u.uses.get(n, [])):
                    expect[(grp, n)] = u.path
                    tags[(grp, n)] = (r[1], 'using data variable "%s"' % r[1])
    return expect, tags, asked, tables


def build(w):
    return w.cli(["build-kernel", "--sysctl", w.src, w.snap, w.root + "/symbols"])


def scenario(run, w, pid):
    sim = w.sim
    expect, tags, asked, tables = prepare(run, w)
    sim.shuffle_dirs = run.s.env.chance(50)
    p = build(w)
    got = proj.snapshot_map(w.snap)
    run.count("sysctl")
    run.sample = {"asked": asked, "faults": {str(k): v for k, v in w.fault.items()}, "result": got,
                  "tables": tables}
    run.state(("sysctl", sorted(got or [], key=str), sorted(map(str, w.fault.items()))))
    run.nontrivial = bool(expect)
    if got is None or p.rc != 0:
        raise Violation(pid + "/sysctl-failed", "the sysctl snapshot was not built: rc %s %s\nasked %s "
                        "faults %s" % (p.rc, p.stderr()[-400:], asked, w.fault))
    seen = {}
    for grp, n, llvm in got:
        if (grp, n) in seen:
            raise Violation(pid + "/sysctl-duplicate", "%s %s is in the snapshot twice" % (grp, n))
        seen[(grp, n)] = llvm and os.path.normpath(llvm)[:-3] + ".c"
    if seen != expect:
        raise Violation(pid + "/sysctl-groups", "sysctl snapshot has %s\nbut should have %s\nasked %s faults "
                        "%s" % (sorted(seen.items()), sorted(expect.items()), asked, w.fault))
    y = proj.load_yaml(w.snap + "/snapshot.yaml")[0]
    for grp in y["list"]:
        for fn in grp.get("functions", ()):
            if (fn["glob_var"], fn["tag"]) != tags[(grp["sysctl"], fn["name"])]:
                raise Violation(pid + "/sysctl-tag", "%s %s: %s, %s" % (
                    grp["sysctl"], fn["name"], fn["glob_var"], fn["tag"]))
    proj.check_content(w, got, pid)
    run.count("symbols", len(got))
