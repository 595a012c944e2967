"""C17: an interrupt stops diffkemp promptly and never reads as success."""
import os

from ..core import Violation
from ..worlds import cmp, e2e, proj
from . import c03, c12

ID = "C17"
RULE = "a run counts if the interrupt hit the command before it ended; distinct by trace digest"
STATES = "distinct (command, operation interrupted, what followed) vectors"
REAL = c12.REAL
STUB = c12.STUB
ASSUMPTIONS = c12.ASSUMPTIONS + [
    "an interrupt arrives between two operations of diffkemp or in the middle of a tool it runs, and at the "
    "children forked by it too; kernel headers may be restored after it"]
RUNS = {"quick": (3000, 45), "thorough": (90000, 700)}
ENGINE = None


def setup(ctx, tier):
    c03.setup(ctx, tier)
    c12.setup(ctx, tier)


RESTORE = {"sed"}


def scenario(run):
    g, f = run.s.gen, run.s.fault
    kind = g.weighted([("compare", 6), ("pair", 3), ("build", 5)])
    engine = None
    if kind == "build":
        w = proj.World(run)
        sc = proj.Scene(run, w, [("make", 4), ("kernel", 5), ("single", 1), ("llvm", 1)])
        what = sc.kind
        for u in w.units:
            if f.chance(12):
                t, k = f.choice([("clang", "error"), ("clang", "killed"), ("opt", "error"), ("make", "error")]
                                if sc.kind == "kernel" else [("clang", "error"), ("gcc", "error")])
                w.fault[(t, u.path)] = k

        def go(name):
            if name != "first":
                sc.put_back()
                proj.rmtree(w.snap)
            return sc.build(name)
    else:
        mode = g.weighted([("ffi", 4), ("binary", 3), ("modules", 4)])
        opts = {"ffi": [], "binary": ["--disable-simpll-ffi"], "modules": ["--enable-module-cache"]}[mode]
        opts = opts + ["--report-stat"]
        what = kind + "-" + mode
        if kind == "compare":
            w, symbols = c12.prepare(run)
            what = w.kind + "-" + what
            for u in w.unitsv[0]:
                if f.chance(15):
                    w.link_fault[os.path.basename(u.path)[:-2] + ".ll"] = f.choice(["error", "killed"])
            args = lambda: ["compare", w.snaps[0], w.snaps[1]]      # noqa: E731
        else:
            w = cmp.Pair(run, run.ctx, groups=g.chance(35))
            names = sorted(w.prog.funs)
            for n in names:
                if f.chance(10):
                    w.engine.fault[n] = f.choice(["empty", "garbage", "incomplete"])
            args = lambda: ["compare", w.old, w.new]                # noqa: E731
        engine = w.engine
        out = g.choice([["--stdout"], ["-o", "out"], []])

        def go(name):
            for d in ("out", "diff-old-new"):
                proj.rmtree(w.root + "/" + d)
            return w.cli(args() + opts + out, name)
    sim = w.sim
    ops = []

    def record(sim, p, op, path):
        ops.append((p.steps, op))
    sim.fault_hook = record
    base = go("first")
    sim.fault_hook = None
    nsteps = base.steps
    at = 1 + f.choose(nsteps + 2)
    if f.chance(35):
        # close to the start of some program or comparison
        marks = [i for i, op in ops if op.startswith(("exec", "engine", "fork", "waitpid"))]
        if marks:
            at = max(1, f.choice(marks) - 1 + f.choose(4))
    state = {"done": None, "after": [], "calls": None}

    def hook(sim, p, op, path):
        if p.name.split("/")[0] != "faulty" and not sim.in_tool:
            return None
        if state["done"]:
            state["after"].append(op)
            return None
        if p.steps < at or op == "close":
            return None
        state["done"] = op + (" in a tool" if sim.in_tool else "")
        if engine:
            state["calls"] = len(engine.calls)
        return ("interrupt",)
    sim.fault_hook = sim.child_hook = hook
    sim.children_log.clear()
    p = go("faulty")
    sim.fault_hook = sim.child_hook = None
    hit = state["done"]
    started = [op for op in state["after"] if op.startswith("exec:") and op[5:] not in RESTORE]
    run.sample = {"command": what, "at": at, "hit": hit, "rc": p.rc, "after": state["after"][:20],
                  "children": len(sim.children_log)}
    run.state((what, hit, p.rc, started))
    run.nontrivial = bool(hit) or any(c["how"] == "escaped" for c in sim.children_log)
    run.count("%s-%s" % (what, "hit" if hit else "missed"))
    for c in sim.children_log:
        if c["how"] == "escaped":
            raise Violation(ID + "/child", "the process forked for a comparison went on as if it was the parent "
                            "for %d steps, printing %r" % (c["steps"], c["out"][-300:]))
    if not hit:
        return
    if p.rc == 0:
        raise Violation(ID + "/swallowed", "%s was interrupted at step %d (%s) but ends with success; it went on "
                        "with %s" % (what, at, hit, state["after"][:30]))
    if started:
        raise Violation(ID + "/not-stopped", "%s was interrupted at step %d (%s) but goes on and starts %s" % (
            what, at, hit, started[:10]))
    if engine and len(engine.calls) > state["calls"] + (1 if hit.startswith("engine") else 0):
        raise Violation(ID + "/not-stopped", "%s was interrupted at step %d (%s) but compares %s" % (
            what, at, hit, [c[0] for c in engine.calls[state["calls"]:]]))
