"""C13: comparing with respect to a variable compares the code that depends on it."""
import datetime
import os

import yaml

from ..core import Violation
from ..worlds import proj, real, report, slices
from ..worlds.proj import put
from . import c07

ID = "C13"
RULE = ("a run counts if at least one function changed in code that depends on its variable and one in other code; "
        "distinct by trace digest")
STATES = "distinct (mode, failures, verdict vector) tuples"
REAL = ["SimpLL (the slicer and the engine, built from the working tree)", "diffkemp/cli.py, diffkemp.py compare*",
        "diffkemp/snapshot.py", "diffkemp/llvm_ir", "diffkemp/semdiff", "diffkemp/syndiff", "diffkemp/simpll", "diff",
        "clang and opt 16 (they compile the inputs)"]
STUB = []
ASSUMPTIONS = ["one C file of two to six functions; values go through local scalars, parameters and results of calls "
               "(not through memory that is not the variable)",
               "code behind a loop or jump that the variable controls, and code that other values used by dependent "
               "code come from, is only required to be compared where it is certain",
               "a variable that is written is not read in the same function"]
RUNS = {"quick": (1500, 45), "thorough": (60000, 700)}
ENGINE = "real"
setup = c07.setup


class World(real.World):
    def __init__(self, run, ctx):
        proj.World.__init__(self, run)
        self.ctx = ctx
        self.unit = slices.Unit(self.g, 2 + self.g.choose(5))
        self.roots = [self.root + "/old", self.root + "/new"]
        self.exe = os.path.join(ctx["build"], "diffkemp/simpll/diffkemp-simpll")
        self.sim.real_programs.add("diff")

    files, o0 = ["a.c"], False

    def build(self):
        for v, r in enumerate(self.roots):
            put(r + "/a.c", self.unit.text(v))
            act, self.sim.active = self.sim.active, False
            try:
                real.compile_all(r, self)
            finally:
                self.sim.active = act
            self.stamp(r)

    def snapshot(self, groups):
        for r in self.roots:
            put(r + "/snapshot.yaml", yaml.dump([{
                "diffkemp_version": "0.5.0", "llvm_version": 16,
                "created_time": datetime.datetime.fromtimestamp(int(self.sim.clock), datetime.timezone.utc),
                "list_kind": "sysctl",
                "list": [{"sysctl": gr, "functions": [{"name": fn, "llvm": "a.ll", "glob_var": var, "tag": None}
                                                      for fn, var in fs]} for gr, fs in groups.items()],
                "llvm_source_finder": {"kind": "single_llvm_file"}}]))


def scenario(run):
    g, f = run.s.gen, run.s.fault
    w = World(run, run.ctx)
    u = w.unit
    # what is compared for which variable, and what changes
    groups, known = {}, {}
    for fn in u.funs:
        reads = sorted({x for n in fn.nodes for x in n.reads})
        for var in g.sample(reads, 1 + g.choose(2)):
            a = fn.analyse(var)
            gr = "kernel." + var
            groups.setdefault(gr, []).append((fn.name, var))
            known[(gr, fn.name)] = a
    helpers = {h[0]: h[1] for h in u.helpers}
    for fn in u.funs:
        mine = [a for (gr, n), a in sorted(known.items()) if n == fn.name]
        if not mine:
            continue
        a = g.choice(mine)
        kind = g.weighted([("yes", 4), ("no", 5), ("any", 1), ("same", 1)])
        spots = sorted(s for s in a if isinstance(s, int) and (kind == "any" or a[s] == kind))
        if spots:
            u.changed |= set(g.sample(spots, 1 + g.choose(4)))
    if helpers and g.chance(20):
        u.changed.add(helpers[g.choice(sorted(helpers))])
    if not groups:
        return
    w.build()
    w.snapshot(groups)
    mode = g.weighted([("ffi", 4), ("binary", 2), ("modules", 3)])
    roots = w.roots if g.chance(70) else w.roots[::-1]
    fault = {}
    for fn in u.funs:
        if f.chance(8):
            fault[fn.name] = f.choice(["empty", "raise", "garbage"])
    w.seam(fault)
    p = w.cli(["compare"] + roots + c07.MODES[mode] + ["--report-stat", "--show-errors", "--stdout"], "first")
    p_out = p.stdout()
    if p.rc != 0:
        raise Violation(ID + "/crash", "the comparison failed: rc %s %s" % (p.rc, p.stderr()[-700:]))
    try:
        rep = report.parse_stdout(p_out, roots[0], roots[1], set(groups))
    except report.Bad as e:
        raise Violation(ID + "/output", "%s\n%s" % (e, p_out[-900:]))
    kinds, wanted = [], set()
    for gr, fs in sorted(groups.items()):
        for name, var in fs:
            got = rep.funs.pop((gr, name), "equal")
            kind = got if isinstance(got, str) else "not-equal"
            kinds.append(kind)
            what = "%s with respect to %s (%s)" % (name, var, mode)
            if name in fault:
                if kind not in ("error", "unknown"):
                    raise Violation(ID + "/failed", "the comparison of %s failed (%s) and reads as %s" % (
                        what, fault[name], kind))
                continue
            if kind not in ("equal", "not-equal"):
                raise Violation(ID + "/lost", "%s: %s" % (what, kind))
            # what changed in the function and in the functions that it calls
            said = {}
            for s, r in known[(gr, name)].items():
                if isinstance(s, int):
                    if s in u.changed:
                        said[2 * s + 1] = r
                elif helpers[s] in u.changed:
                    said[s] = "yes" if "yes" in r else "maybe" if "maybe" in r else "no"
            if "yes" in said.values():
                wanted.add("not-equal")
                if kind == "equal":
                    raise Violation(ID + "/missed", "%s is equal, but code that depends on the variable changed "
                                    "(constants %s)\n%s" % (what, said, fun_text(u, name)))
            elif "maybe" not in said.values():
                if said:
                    wanted.add("equal")
                if kind != "equal":
                    raise Violation(ID + "/invented", "%s differs, but nothing that depends on the variable changed "
                                    "(only constants %s)\n%s" % (what, sorted(map(str, said)), fun_text(u, name)))
            else:
                run.count("undecided")
    if rep.funs:
        raise Violation(ID + "/invented", "reports of functions that are not listed: %s" % rep.funs)
    run.sample = {"mode": mode, "groups": groups, "kinds": kinds, "fault": fault, "changed": sorted(u.changed)}
    run.state((mode, sorted(fault.items()), kinds))
    run.count(mode)
    run.count("functions", len(kinds))
    run.nontrivial = len(wanted) == 2


def fun_text(u, name):
    t = u.text(0)
    a = t.index("int %s(int i)" % name)
    return t[a:t.index("\n}\n", a) + 3]
