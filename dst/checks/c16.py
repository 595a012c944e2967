"""C16: comparing changes neither the snapshots nor the sources they were made
from, whatever happens while it runs."""
import os
import re

from ..core import R, Violation
from ..worlds import e2e, proj
from . import c12

ID = "C16"
RULE = ("a run counts if some comparison was disturbed or linked a definition; distinct by trace digest")
STATES = "distinct (kind, disturbance, point, exit code) vectors"
REAL = c12.REAL
STUB = c12.STUB
ASSUMPTIONS = c12.ASSUMPTIONS + [
    "cscope databases and IR of kernel sources compiled on demand are caches, which may be added",
    "after a kill or an interrupt, temporary files may remain"]
RUNS = {"quick": (1200, 45), "thorough": (60000, 700)}
ENGINE = None
setup = c12.setup

CACHE = re.compile(r"(^|/)cscope\.(files|out|in\.out|po\.out)(\.tmp)?$")
ADJUSTED = "include/linux/compiler-gcc.h"


def trees(w):
    """{place: {file: contents}} of everything a comparison must preserve."""
    return {n: proj.tree(d) for n, d in (("old", w.snaps[0]), ("new", w.snaps[1]),
                                         ("src-old", w.srcs[0]), ("src-new", w.srcs[1])) if os.path.isdir(d)}


def check_trees(w, before, when, crashed=False, interrupted=False, failed=False):
    now = trees(w)
    for place, files in before.items():
        for n in sorted(set(files) | set(now.get(place, {}))):
            a, b = files.get(n), now.get(place, {}).get(n)
            if a == b:
                continue
            if w.kernel and n == ADJUSTED and (crashed or w.header_left and failed):
                w.header_left = True
                continue
            if a is None and (crashed or interrupted and n.endswith("-linked.ll")):
                before[place][n] = b
                continue
            if a is None:
                if CACHE.search(n):
                    continue
                if w.kernel and n.endswith((".ll", ".ll.tmp")) and place.startswith("src"):
                    continue
            if CACHE.search(n):
                continue
            what = "added" if a is None else "removed" if b is None else "changed"
            raise Violation(ID + "/" + what, "%s/%s was %s by a comparison that %s" % (place, n, what, when))


def disturb(run, w, name, nsteps, kinds):
    """A disturbance at a random point of the comparison `name`."""
    f, sim = run.s.fault, w.sim
    kind = f.weighted(kinds)
    at = 1 + f.choose(nsteps + 2)
    arg, frac = f.choose(8), f.choose(10) / 10.0
    state = {"kind": kind, "done": None, "at": at, "execs": 0}

    def hook(sim, p, op, path):
        if p.name != name:
            return None
        if state["done"]:
            if op.startswith("exec"):
                state["execs"] += 1
            return None
        if p.steps < at:
            return None
        if kind == "errno":
            if sim.in_tool or op not in sim.ERRNO_OK or path is None:
                return None
            state["done"] = op
            return ("errno", arg, frac)
        if kind == "interrupt" and (op == "close" or sim.in_tool):
            return None
        state["done"] = op
        return ("torn", frac) if kind == "crash" and op == "write" else (kind,)
    if kind != "none":
        sim.fault_hook = hook
    return state


def scenario(run):
    g, f = run.s.gen, run.s.fault
    w, symbols = c12.prepare(run, g.weighted([("make", 4), ("kernel", 6)]))
    sim = w.sim
    dmg = c12.damage(run, w) if f.chance(20) else []
    opts = ["--disable-simpll-ffi"] if g.chance(25) else ["--enable-module-cache"] if g.chance(15) else []
    before = trees(w)
    w.header_left = False
    p = c12.compare(w, opts, "first")
    if p.rc != 0:
        raise Violation(ID + "/crash", "the comparison failed: rc %s %s" % (p.rc, p.stderr()[-700:]))
    check_trees(w, before, "ended")
    want = p.stdout()
    log = []
    for i in range(1 + f.choose(3)):
        name = "again%d" % i
        if f.chance(25):
            for u in w.unitsv[0]:
                if f.chance(40):
                    w.link_fault[os.path.basename(u.path)[:-2] + ".ll"] = f.choice(["error", "killed"])
        st = disturb(run, w, name, p.steps, [("crash", 4), ("interrupt", 3), ("errno", 3), ("none", 1)])
        out = "out%d" % i if f.chance(30) else None
        q = c12.compare(w, opts, name, out)
        sim.fault_hook = None
        sim.advance(2.0)
        log.append((st["kind"], st["done"], q.rc, bool(w.link_fault)))
        w.link_fault = {}
        when = "was %s at step %d (%s), rc %s" % (st["kind"], st["at"], st["done"], q.rc)
        check_trees(w, before, when, st["kind"] == "crash" and bool(st["done"]),
                    st["kind"] == "interrupt" and bool(st["done"]) or st["done"] == "unlink", q.rc != 0)
        if q.rc == 0:
            w.header_left = False
        run.count("%s-%s" % (st["kind"], "hit" if st["done"] else "missed"))
    q = c12.compare(w, opts, "last")
    run.sample = {"kind": w.kind, "opts": opts, "damage": dmg, "log": log, "links": len(w.links), "rc": q.rc}
    run.state((w.kind, log))
    run.nontrivial = bool(w.links) or any(x[1] for x in log)
    if q.rc != 0:
        raise Violation(ID + "/later", "a comparison after %s failed: rc %s %s" % (log, q.rc, q.stderr()[-700:]))
    check_trees(w, before, "ended, after %s" % log)
    if q.stdout() != want:
        raise Violation(ID + "/result", "after %s the same comparison gives\n%s\ninstead of\n%s" % (
            log, q.stdout()[-900:], want[-900:]))
