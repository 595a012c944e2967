"""C07: the verdict of a function does not depend on what else is compared."""
import difflib
import os
import sys

from .. import core
from ..core import Violation
from ..worlds import real, report
from ..worlds.proj import put

ID = "C07"
RULE = ("a run counts if at least three functions were compared, one of which is equal and one differs; distinct "
        "by trace digest")
STATES = "distinct (mode, failures, verdict vector) tuples"
REAL = ["SimpLL (the engine, built from the working tree; in-process, as a program, on cached modules)",
        "diffkemp/cli.py, diffkemp.py compare*", "diffkemp/snapshot.py, config.py", "diffkemp/llvm_ir",
        "diffkemp/semdiff", "diffkemp/syndiff", "diffkemp/simpll", "diff", "clang and opt 16 (they compile the inputs)"]
STUB = []
ASSUMPTIONS = ["programs have one to three C files and up to two headers, with integer arithmetic, branches, loops, "
               "switches, globals, macros, structs, arrays, strings and calls, and about 80 pieces of code with known "
               "answers (dst/worlds/snips.py)",
               "whether the code that uses a changed struct differs, and a changed macro with the pattern for "
               "numerical macros on, is taken from the engine alone, not from the generator",
               "definitions of other modules are not linked (that is C12)"]
RUNS = {"quick": (1500, 50), "thorough": (60000, 800)}
ENGINE = "real"
MODES = {"ffi": [], "binary": ["--disable-simpll-ffi"], "modules": ["--enable-module-cache"]}


class Lib:
    """The real library, with failures."""

    def __init__(self, lib, ffi):
        self.__dict__.update(lib=lib, ffi=ffi, fault=None)

    def __getattr__(self, name):
        f = getattr(self.lib, name)
        if name in ("parseAndRunSimpLL", "runSimpLL") and self.fault is not None:
            return lambda *a: self.fault(name, f, a)
        return f


def setup(ctx, tier):
    m = sys.modules["diffkemp.simpll._simpll"]
    ctx["lib"] = m.lib = Lib(m.lib, m.ffi)
    ctx["ffi"] = m.ffi
    import diffkemp.cli          # noqa: F401
    import diffkemp.simpll.simpll as s
    assert isinstance(s.lib, Lib)
    import pkg_resources
    pkg_resources.require("diffkemp")
    from diffkemp.llvm_ir.llvm_module import LlvmModule
    from diffkemp.semdiff.caching import ComparisonGraph
    core.stable_hash(LlvmModule)
    core.stable_hash(ComparisonGraph.Vertex)


def scenario(run):
    g, f = run.s.gen, run.s.fault
    w = real.World(run, run.ctx, nodebug=True)
    prog = w.prog
    groups = g.weighted([((None,), 3), (("kernel.a", "net.b"), 1)])
    lst = w.make_list(groups)
    for v in (0, 1):
        w.snapshot(v, lst)
    mode = g.weighted([("ffi", 4), ("binary", 2), ("modules", 3)])
    argv = MODES[mode]
    nomac = g.chance(50)
    if nomac:
        argv = argv + ["--disable-pattern", "numerical-macros"]
    argv = argv + ["--report-stat", "--show-errors", "--stdout"]
    how = g.weighted([("forward", 5), ("backward", 1), ("self", 1)])
    vers = {"forward": [0, 1], "backward": [1, 0], "self": [g.choose(2)] * 2}[how]
    roots = [w.roots[v] for v in vers]
    from diffkemp.config import BuiltinPatterns
    pats = dict(BuiltinPatterns().settings)
    if nomac:
        prog.off.add("numerical-macros")
    if g.chance(30):
        # other patterns
        for p in sorted(pats):
            if pats[p] and p != "numerical-macros" and g.chance(20):
                prog.off.add(p)
                argv = argv + ["--disable-pattern", BuiltinPatterns.CLI_NAMES.get(p, p)]
            elif p == "type-casts" and g.chance(20):
                prog.on.add(p)
                argv = argv + ["--enable-pattern", p]
    for p in pats:
        pats[p] = p in prog.on or pats[p] and p not in prog.off
    args = ["--%s=%s" % kv for kv in pats.items()]
    # what fails
    fault = {}
    for fn in prog.funs.values():
        if f.chance(12):
            fault[fn.name] = f.choice(["empty", "raise", "garbage"])
    w.seam(fault)
    p = w.cli(["compare"] + roots + argv, "first")
    p_out = p.stdout()
    if p.rc != 0:
        raise Violation(ID + "/crash", "the comparison failed: rc %s %s" % (p.rc, p.stderr()[-700:]))
    try:
        rep = report.parse_stdout(p_out, roots[0], roots[1], set(groups))
    except report.Bad as e:
        raise Violation(ID + "/output", "%s\n%s" % (e, p_out[-900:]))
    kinds = []
    for gr, key in lst:
        fn = prog.funs[key]
        got = rep.funs.pop((gr, fn.name), "equal")
        if isinstance(got, str):
            kind, diffs = got, set()
        else:
            kind, diffs = "not-equal", {e.name for e in got.entries}
        kinds.append(kind)
        what = "%s of %s (%s, %s)" % (fn.name, fn.file, mode, how)
        if fn.name in fault and how == "self" and kind == "equal":
            pass        # known from the comparison of a caller in the same file
        elif fn.name in fault:
            if kind not in ("error", "unknown"):
                raise Violation(ID + "/failed", "the comparison of %s failed (%s) and reads as %s" % (
                    what, fault[fn.name], kind))
            continue
        if kind not in ("equal", "not-equal"):
            raise Violation(ID + "/lost", "%s: %s" % (what, kind))
        alone = w.alone(key, vers, args, w.vars[(gr, key)])
        if alone is None:
            raise Violation(ID + "/engine", "the engine fails on %s" % what)
        want = {n for n, o in alone.items()} | {o for x in alone.values() for o in x}
        # functions whose only difference is in objects they use are shown as these objects
        opt = {n for n, o in alone.items() if o}
        if not (want - opt <= diffs <= want):
            raise Violation(ID + "/history", "%s: on its own, %s differ; with others, %s differ\n%s" % (
                what, sorted(want), sorted(diffs), p_out[:3000]))
        known = prog.answer(key) if how != "self" else (set(), set())
        if known is None:
            continue        # the code was moved to another file
        yes, maybe = known
        names = set(alone)
        if w.vars[(gr, key)]:
            continue        # what does not depend on the variable is not compared
        if yes and not names:
            raise Violation(ID + "/missed", "%s is equal, but %s changed" % (what, sorted(yes)))
        if names - yes - maybe:
            raise Violation(ID + "/invented", "%s: %s differ, but only %s changed" % (
                what, sorted(names), sorted(yes | maybe)))
    if rep.funs:
        raise Violation(ID + "/invented", "reports of functions that are not listed: %s" % rep.funs)
    if not fault and g.chance(60):
        # the other ways to run the engine give the same output
        other = g.choice([m for m in MODES if m != mode])
        q = w.cli(["compare"] + roots + MODES[other] + argv[len(MODES[mode]):], "second")
        if (q.rc, q.stdout()) != (p.rc, p_out):
            raise Violation(ID + "/modes", "the outputs in the modes %s and %s differ:\n%s" % (
                mode, other, "\n".join(difflib.unified_diff(p_out.split("\n"), q.stdout().split("\n"),
                                                           mode, other, lineterm=""))[:3000]))
        run.count("modes")
    run.sample = {"argv": argv, "list": lst, "kinds": kinds, "fault": fault}
    run.state((mode, how, sorted(fault.items()), kinds))
    run.count(mode)
    if prog.nodebug:
        run.count("no debug information")
    run.count("functions", len(kinds))
    run.nontrivial = len(kinds) > 2 and "equal" in kinds and "not-equal" in kinds
