"""C06: what earlier builds left behind never shows in a later snapshot."""
import os
import re

from ..core import R, Violation
from ..worlds import proj
from . import c03, c04

ID = "C06"
RULE = ("a run counts if at least one earlier build was hit by a fault and the sources were edited before "
        "the last one; distinct by trace digest")
STATES = "distinct (kind of build, sequence of faults and outcomes) vectors"
REAL = c04.REAL
STUB = c04.STUB
ASSUMPTIONS = c04.ASSUMPTIONS + ["edits give sources newer times than anything built before",
                                 "edits add and remove no files and no functions (the cscope database is kept)"]
RUNS = {"quick": (2200, 40), "thorough": (60000, 700)}
ENGINE = None
setup = c03.setup


def edit(run, w, sc):
    """The user changes some sources; returns what."""
    g = run.s.gen
    done = []
    w.sim.advance(1.0 + g.choose(3))
    if sc.kind == "make" and g.chance(30):
        if len(w.units) > 1 and g.chance(60):
            u = w.units.pop(g.choose(len(w.units)))
            R.unlink("%s/%s" % (w.src, u.path))
            done.append((u.path, "removed"))
        else:
            u = proj.Unit("%sn%d.c" % (g.choice(["", "lib/"]), len(w.units)))
            if not any(x.path == u.path for x in w.units):
                old = sorted(n for n in sc.names if n not in w.functions())
                u.funs.append([old[0] if old else "fn_n%d" % len(w.units), False, [], 7])
                if u.funs[0][0] not in w.functions():
                    w.units.append(u)
                    w.write_unit(u)
                    R.utime("%s/%s" % (w.src, u.path), ns=(int(w.sim.clock * 1e9),) * 2)
                    done.append((u.path, "added"))
    for u in w.units:
        if not g.chance(45):
            continue
        k = g.weighted([("body", 5), ("call", 2), ("error", 2), ("touch", 1)])
        if k == "body":
            for fn in u.funs:
                if g.chance(60):
                    fn[3] += 1 + g.choose(5)
        elif k == "call":
            fn = g.choice(u.funs)
            if fn[2] and g.chance(50):
                fn[2].pop()
            else:
                c = g.choice(sorted(w.functions()))
                if c != fn[0] and c not in fn[2] and not c.startswith("hf_"):
                    fn[2].append(c)
        elif k == "error":
            u.extra = [] if u.extra else ["#error not now"]
        done.append((u.path, k))
        w.write_unit(u)
        R.utime("%s/%s" % (w.src, u.path), ns=(int(w.sim.clock * 1e9),) * 2)
    for h in sorted(w.headers):
        if "hf_" in w.headers[h] and g.chance(25):
            w.headers[h] = re.sub(r"x \+ (\d+)", lambda m: "x + %d" % (int(m.group(1)) + 1 + g.choose(4)),
                                  w.headers[h])
            proj.put("%s/%s" % (w.src, h), w.headers[h])
            R.utime("%s/%s" % (w.src, h), ns=(int(w.sim.clock * 1e9),) * 2)
            done.append((h, "header"))
    w.sim.advance(1.0 + g.choose(3))
    return done


def faults(run, w, sc):
    f = run.s.fault
    w.fault = {}
    for u in w.units:
        if f.chance(20):
            t, k = f.choice([("clang", "error"), ("clang", "killed"), ("opt", "error"), ("opt", "killed"),
                             ("opt", "late-error"), ("make", "error"), ("make", "killed")]
                            if sc.kind == "kernel" else [("clang", "error"), ("clang", "killed"),
                                                         ("gcc", "error")])
            w.fault[(t, u.path)] = k
    if sc.kind == "kernel" and f.chance(8):
        w.fault[("cscope", "build")] = f.choice(["error", "killed"])


def block(text, name):
    m = re.search(r"^define [^@]*@%s\(.*?^}" % re.escape(name), text, re.M | re.S)
    return re.sub(r"; at .*/", "; at ", m.group(0)) if m else None


def check_current(w, sc, snap, what):
    """The modules a successful build mapped its symbols to are those of the
    current sources."""
    got = proj.snapshot_map(snap)
    if got is None:
        raise Violation(ID + "/no-snapshot", "%s succeeded without a snapshot" % what)
    for _, n, llvm in got:
        if llvm is None:
            continue
        u = w.unit(llvm[:-3] + ".c")
        now = proj.toy_ir(u.path, w.src, w.rd, {"I": ["include"]})
        if now is None:
            raise Violation(ID + "/stale", "%s maps %s to %s, although %s cannot be compiled any more" % (
                what, n, llvm, u.path))
        text = proj.get(snap + "/" + llvm).decode("utf-8", "replace")
        if block(text, n) != block(now, n):
            raise Violation(ID + "/stale", "%s: %s in %s is %r, the source has %r" % (
                what, n, llvm, block(text, n), block(now, n)))
        if sc.kind == "kernel" and proj.MARK not in text:
            raise Violation(ID + "/incomplete-ir", "%s: %s was not optimised" % (what, llvm))


def scenario(run):
    g, f = run.s.gen, run.s.fault
    w = proj.World(run)
    sim = w.sim
    sc = proj.Scene(run, w, [("make", 3), ("kernel", 6), ("single", 1)])
    sim.shuffle_dirs = run.s.env.chance(30)
    if sc.kind == "make" and g.chance(30):
        sc.argv.remove(sc.symfile)        # all functions of the build
    nsteps = 600
    log, hits, edits = [], 0, 0
    for i in range(1 + g.choose(3)):
        if i or g.chance(30):
            edits += len(edit(run, w, sc))
        if sc.kind == "kernel" and g.chance(30):
            sim.advance(2.0)
            w.build_objects()
        faults(run, w, sc)
        kind = f.weighted([("none", 4), ("crash", 3), ("torn", 2), ("errno", 3), ("interrupt", 2)])
        at = 1 + f.choose(nsteps)
        arg, frac = f.choose(8), f.choose(10) / 10.0
        state = {"done": False}
        name = "run%d" % i

        def hook(sim, p, op, path):
            if state["done"] or p.name != name or p.steps < at:
                return None
            if kind == "errno":
                if sim.in_tool or op not in sim.ERRNO_OK or path is None:
                    return None
                state["done"] = True
                return ("errno", arg, frac)
            if kind == "torn":
                if op != "write":
                    return None
                state["done"] = True
                return ("torn", frac)
            state["done"] = True
            return (kind,)
        if kind != "none":
            sim.fault_hook = hook
        snap = g.choice([w.snap, w.snap, w.root + "/other"])
        p = sc.build(name, snap)
        sim.fault_hook = None
        nsteps = max(60, p.steps)
        hit = kind if state["done"] else None
        hits += bool(hit) or bool(w.fault)
        log.append((hit, sorted(w.fault.items()), p.rc))
        if p.rc == 0 and not p.crashed:
            check_current(w, sc, snap, "build %d" % i)
    w.fault = {}
    if g.chance(70):
        edits += len(edit(run, w, sc))
    sim.advance(5.0)
    p = sc.build("last")
    last = proj.snap_state(w.snap)
    if p.rc == 0:
        check_current(w, sc, w.snap, "the last build")
    # the same sources in a fresh tree
    files = {}
    for q in list(sc.files) + ["%s/%s" % (w.src, u.path) for u in w.units]:
        if os.path.exists(q):
            files[q] = (proj.get(q), R.stat(q).st_mtime_ns)
    sc.put_back(files)
    proj.rmtree(w.snap)
    proj.rmtree(w.root + "/other")
    q = sc.build("fresh")
    fresh = proj.snap_state(w.snap)
    run.sample = {"argv": sc.argv, "log": log, "edits": edits, "rc": [p.rc, q.rc]}
    run.state((sc.kind, [(a, tuple(b), c) for a, b, c in log], p.rc))
    run.nontrivial = bool(hits) and bool(edits)
    run.count("kind-" + sc.kind)
    if (p.rc == 0) != (q.rc == 0):
        raise Violation(ID + "/history", "after %s the build ends with %s, in a fresh tree with %s: %s" % (
            log, p.rc, q.rc, (p.stderr() + q.stderr())[-500:]))
    if q.rc == 0 and last != fresh:
        raise Violation(ID + "/history", "after %s the snapshot differs from that of a fresh tree: %s" % (
            log, proj.diff_states(last, fresh)))
