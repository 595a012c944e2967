"""C12: missing definitions are linked from the snapshots and their unchanged
sources; what cannot be linked costs nothing else."""
import datetime
import os

from ..core import R, Violation
from ..worlds import e2e, proj, report
from . import c09

ID = "C12"
RULE = ("a run counts if some function needs a definition from another module; distinct by trace digest")
STATES = "distinct (kind, damage, faults, verdicts) vectors"
REAL = c09.REAL + ["diffkemp/diffkemp.py build*", "diffkemp/llvm_ir/*", "diffkemp/building/cc_wrapper.py"]
STUB = c09.STUB + ["make, gcc, clang, opt, llvm-link, cscope"]
ASSUMPTIONS = c09.ASSUMPTIONS
RUNS = {"quick": (1500, 45), "thorough": (60000, 700)}
ENGINE = None
setup = c09.setup


def prepare(run, kind=None):
    """A project with both snapshots; returns (world, symbols)."""
    g = run.s.gen
    kind = kind or g.weighted([("make", 6), ("kernel", 4)])
    w = e2e.Project(run, run.ctx, kind)
    w.write_sources()
    names = [f for f in sorted(w.funs[0]) if f in w.funs[1] and not w.funs[0][f][1]]
    symbols = [f for f in names if g.chance(70)] or names[:1]
    for v in (0, 1):
        w.sim.advance(3.0)
        p = w.build(v, symbols, "build%d" % v)
        if p.rc != 0:
            raise Violation(ID + "/build", "building failed: %s" % p.stderr()[-500:])
    w.sim.advance(3.0)
    return w, symbols


def recorded(w, v):
    """Units of version v that have IR made before the snapshot."""
    created = created_time(w, v)
    out = set()
    for u in w.unitsv[v]:
        for d in (w.srcs[v], w.snaps[v]):
            p = "%s/%s.ll" % (d, u.path[:-2])
            if os.path.exists(p) and R.stat(p).st_mtime_ns / 1e9 <= created:
                out.add(u.path)
    return out


def created_time(w, v):
    y = proj.load_yaml(w.snaps[v] + "/snapshot.yaml")
    t = y[0]["created_time"]
    return t.replace(tzinfo=datetime.timezone.utc).timestamp()


def damage(run, w):
    """What happens to the sources after the snapshots were made."""
    f = run.s.fault
    done = []
    for v in (0, 1):
        k = f.weighted([("none", 6), ("rebuilt", 2), ("gone", 2), ("tree", 1)])
        if k == "tree":
            proj.rmtree(w.srcs[v])
            done.append((v, k))
        elif k in ("rebuilt", "gone"):
            for u in w.unitsv[v]:
                p = "%s/%s.ll" % (w.srcs[v], u.path[:-2])
                if os.path.exists(p) and f.chance(50):
                    if k == "gone":
                        R.unlink(p)
                    else:
                        t = proj.get(p).decode().replace("; term ", "; term 9")
                        proj.put(p, t)
                        # some time later, or right after the snapshot was made
                        at = created_time(w, v) + f.choice([0, 0, 0.001, 0.2])
                        if at == created_time(w, v):
                            at = w.sim.clock
                        R.utime(p, ns=(int(at * 1e9),) * 2)
                    done.append((v, k, u.path))
    for x in done:
        w.sim.count_fault("source-" + x[1])
    return done


def compare(w, opts=(), name="compare", out=None):
    return w.cli(["compare", w.snaps[0], w.snaps[1]] + list(opts) + (
        ["--stdout"] if out is None else ["-o", out]), name)


def reported(ID, w, p, symbols):
    """{function: set of functions reported as differing, or a kind}."""
    try:
        r = report.parse_stdout(p.stdout(), w.snaps[0], w.snaps[1], {None})
    except report.Bad as e:
        raise Violation(ID + "/output", "%s\n%s" % (e, p.stdout()[-900:]))
    out = {}
    for s in symbols:
        x = r.funs.get((None, s))
        out[s] = set() if x is None else x if isinstance(x, str) else {e.name for e in x.entries}
    return out


def scenario(run):
    g, f = run.s.gen, run.s.fault
    w, symbols = prepare(run)
    sim = w.sim
    dmg = damage(run, w) if f.chance(45) else []
    faults = {}
    if f.chance(35):
        for u in w.unitsv[0]:
            if f.chance(40):
                w.link_fault[os.path.basename(u.path)[:-2] + ".ll"] = f.choice(["error", "killed"])
        for i in range(6):
            if f.chance(15):
                w.opt_fault[i] = f.choice(["error", "killed"])
    if f.chance(5):
        del sim.programs["llvm-link"]
        sim.count_fault("no-llvm-link")
    opts = ["--disable-simpll-ffi"] if g.chance(25) else ["--enable-module-cache"] if g.chance(20) else []
    for s in symbols:
        if f.chance(8) and "--enable-module-cache" not in opts:
            w.late_fault[s] = (f.choice([0, 1, 1, 1, 2]), f.choice(["empty", "garbage", "incomplete"]))
    p = compare(w, opts)
    failed = {s for s in symbols if s in w.late_fault and w.ncalls.get(s, -1) >= w.late_fault[s][0]}
    tools = bool(w.link_fault or w.opt_fault or "llvm-link" not in sim.programs)
    got = None
    created = [created_time(w, v) for v in (0, 1)]
    linkable = [recorded(w, v) for v in (0, 1)]
    exp = {s: w.answer(s, linkable) for s in symbols}
    run.sample = {"kind": w.kind, "opts": opts, "damage": dmg, "link faults": w.link_fault,
                  "changes": w.changed, "links": [k for _, k in w.links], "rc": p.rc}
    run.nontrivial = any(any(a[1]) for a in exp.values())
    run.count("linked", sum(k == "done" for _, k in w.links))
    run.count("kind-" + w.kind)
    if p.rc != 0:
        raise Violation(ID + "/crash", "the comparison failed: rc %s %s" % (p.rc, p.stderr()[-700:]))
    got = reported(ID, w, p, symbols)
    run.state((w.kind, dmg, sorted(w.link_fault.items()), sorted((s, sorted(x)) for s, x in got.items())))
    for ins, how in w.links:
        for x in ins[1:]:
            v = 0 if x.startswith((w.srcs[0] + "/", w.snaps[0] + "/")) else 1
            x = os.path.join(w.root, x)
            if how == "done" and R.stat(x).st_mtime_ns / 1e9 > created[v]:
                raise Violation(ID + "/newer", "%s was linked, although it is newer than the snapshot" % x)
    for s, (differ, needs, _) in exp.items():
        if s in failed:
            if got[s] != "error":
                raise Violation(ID + "/failed", "%s is reported as %s, but its comparison failed" % (s, got[s]))
            continue
        if isinstance(got[s], str):
            raise Violation(ID + "/verdict", "%s is reported as %s" % (s, got[s]))
        if not tools:
            run.count("exact")
            if any(needs):
                run.count("exact-linked")
            if got[s] != differ:
                raise Violation(ID + "/verdict", "%s: reported differences %s, expected %s; it needs %s and %s "
                                "can be linked (links %s)" % (s, sorted(got[s]), sorted(differ), needs,
                                                              linkable, w.links))
            continue
        # Tools failed: what was linked is one of the sets of units.
        possible = w.possible(s)
        if got[s] not in possible:
            raise Violation(ID + "/bounds", "%s: reported differences %s, possible are %s (links %s)" % (
                s, sorted(got[s]), [sorted(x) for x in possible], w.links))
