"""C15: comparisons that run at the same time do not disturb each other."""
import os
import re

from ..core import R, Violation
from ..worlds import cmp, proj
from . import c03, c09, c12

ID = "C15"
RULE = ("a run counts if at least two comparisons with differences ran and their steps were interleaved; "
        "distinct by trace digest")
STATES = "distinct (jobs, outcomes, order of the last steps) vectors"
REAL = c09.REAL + c12.REAL[-3:]
STUB = c12.STUB
ASSUMPTIONS = c09.ASSUMPTIONS + [
    "processes are switched between system calls, programs that they run and comparisons of the engine",
    "not of kernel snapshots: their comparison prepares the headers of the kernel, which they share"]
RUNS = {"quick": (2500, 45), "thorough": (90000, 700)}
ENGINE = None


def setup(ctx, tier):
    c03.setup(ctx, tier)
    c12.setup(ctx, tier)


class Job:
    pass


def make_jobs(run, w, snaps, groups):
    g = run.s.gen
    jobs = []
    outs = ["out", g.choice(["out", "sub/out", "diff-old-new", "out2"])]
    for i in range(2 + g.choose(3)):
        j = Job()
        j.mode = g.weighted([("default", 6), ("dir", 3), ("stdout", 2)])
        j.dir = g.choice(outs) if j.mode == "dir" else None
        o = []
        for flag, pct in (("--report-stat", 50), ("--no-show-diff", 15), ("--show-errors", 20),
                          ("--full-diff", 10), ("--disable-simpll-ffi", 20)):
            if g.chance(pct):
                o.append(flag)
        if g.chance(20) and "--disable-simpll-ffi" not in o:
            o.append("--enable-module-cache")
        if g.chance(20):
            o += ["--regex-filter", g.choice(c09.PATTERNS)]
        j.snaps = g.weighted([(snaps, 8), (snaps[::-1], 1), ([snaps[0]] * 2, 1)])
        if g.chance(30):
            j.snaps = [os.path.relpath(s, w.root) for s in j.snaps]
        j.cwd = g.weighted([(w.root, 9), (w.root + "/other", 1)])
        if not os.path.isabs(j.snaps[0]):
            j.cwd = w.root
        if jobs and g.chance(25):
            # the very same comparison
            k = g.choice(jobs)
            j.mode, j.dir, o, j.snaps, j.cwd = k.mode, k.dir, k.opts, k.snaps, k.cwd
        j.opts = o
        j.argv = ["compare"] + j.snaps + o + ({"stdout": ["--stdout"], "dir": ["-o", j.dir]}.get(j.mode, []))
        jobs.append(j)
    return jobs


STORED = re.compile(r"^Differences stored in (.*)/$", re.M)


def outcome(w, p, cwd):
    """(standard output without the name of the directory, directory)."""
    out = p.stdout()
    m = STORED.findall(out)
    return STORED.sub("Differences stored in DIR/", out), [os.path.normpath(os.path.join(cwd, d)) for d in m]


def content(d):
    t = proj.tree(d)
    for r, ds, _ in os.walk(d):
        for x in ds:
            t[os.path.relpath(os.path.join(r, x), d) + "/"] = b""
    return t


def state_of(w):
    t = proj.tree(w.root, skip=("tmp",))
    for r, ds, _ in os.walk(w.root):
        for x in ds:
            p = os.path.relpath(os.path.join(r, x), w.root)
            if p != "tmp" and not p.startswith("tmp/"):
                t[p + "/"] = b""
    return t


def scenario(run):
    g, f = run.s.gen, run.s.fault
    if g.chance(30):
        w, _ = c12.prepare(run, "make")
        snaps, kind, groups = w.snaps, "project", False
        for u in w.unitsv[0]:
            if f.chance(10):
                w.link_fault[os.path.basename(u.path)[:-2] + ".ll"] = "error"
    else:
        groups = g.chance(30)
        w = cmp.Pair(run, run.ctx, groups=groups)
        snaps, kind = [w.old, w.new], "pair"
        for n in sorted(w.prog.funs):
            if f.chance(5):
                w.engine.fault[n] = f.choice(["empty", "garbage"])
    w.engine.honour_cache = True
    sim = w.sim
    proj.mk(w.root + "/other/sub")
    proj.mk(w.root + "/sub")
    jobs = make_jobs(run, w, snaps, groups)
    # what each of them says and stores alone
    for j in jobs:
        before = set(state_of(w))
        p = w.cli(j.argv, "alone", j.cwd)
        if p.rc != 0:
            raise Violation(ID + "/crash", "%s failed alone: %s" % (j.argv, p.stderr()[-500:]))
        j.ref, ds = outcome(w, p, j.cwd)
        j.steps = p.steps
        j.files = content(ds[0]) if ds else None
        for d in {os.path.join(w.root, x) for x in set(state_of(w)) - before if x.endswith("/")}:
            proj.rmtree(d[:-1])
    # what was there before
    there = []
    for name in ("diff-old-new", "diff-old-new-0", "out", "diff-old-new-1"):
        if g.chance(12):
            if g.chance(60):
                proj.put("%s/%s/%s" % (w.root, name, g.choice(["notes", "diffkemp-out.yaml", "f_0.diff"])), "mine\n")
            elif name != "out":
                proj.put("%s/%s" % (w.root, name), "mine\n")
            else:
                continue
            there.append(name)
    before = state_of(w)
    sim.switch_pct = run.s.env.choice([3, 10, 30, 60])
    plan = None
    if f.chance(30):
        plan = (f.choose(len(jobs)), 1 + f.choose(max(j.steps for j in jobs) + 2),
                f.weighted([("crash", 3), ("errno", 2), ("interrupt", 1)]), f.choose(8))
    hit = []
    for i, j in enumerate(jobs):
        j.proc = w.cli(j.argv, "job%d" % i, j.cwd, spawn=True)

    def hook(sim, p, op, path):
        if hit or plan is None or p is not jobs[plan[0]].proc or p.steps < plan[1]:
            return None
        if plan[2] == "errno" and (sim.in_tool or op not in sim.ERRNO_OK or path is None):
            return None
        if op == "close" and plan[2] == "interrupt":
            return None
        hit.append(path or op)
        return ("crash", "self") if plan[2] == "crash" else (plan[2], plan[3], 0.5) if plan[2] == "errno" else (
            plan[2],)
    sim.fault_hook = hook
    mark = len(sim.log)
    sim.run_threads()
    sim.fault_hook = None
    order = [e[0] for e in sim.log[mark:]]
    switches = sum(a != b for a, b in zip(order, order[1:]))
    run.count("switches", switches)
    run.nontrivial = switches > len(jobs) and sum(j.files is not None for j in jobs) > 1
    run.sample = {"kind": kind, "jobs": [j.argv[3:] for j in jobs], "there": there, "fault": plan,
                  "rc": [j.proc.rc for j in jobs], "switches": switches}
    judge(run, w, jobs, there, before, jobs[plan[0]] if hit else None,
          bool(hit) and "-linked" in hit[0])
    run.state(([j.argv[3:] for j in jobs], [j.proc.rc for j in jobs], plan and plan[:3], order[-40:]))
    # and once more: the earlier ones do not matter
    if g.chance(50):
        k = g.choice([j for j in jobs])
        if k.mode != "dir":
            before = state_of(w)
            k.proc = w.cli(k.argv, "again", k.cwd)
            judge(run, w, [k], [], before, None)


def judge(run, w, jobs, there, before, faulty, unlinked=False):
    """unlinked: the fault only costs the faulty comparison some definitions
    that it would have linked."""
    own = {}
    for i, j in enumerate(jobs):
        p = j.proc
        where = "%s (one of %d comparisons)" % (" ".join(j.argv), len(jobs))
        out, ds = outcome(w, p, j.cwd)
        if j is faulty and p.rc != 0:
            continue
        if p.rc != 0:
            rival = [k for k in jobs if k is not j and k.files is not None]
            target = j.mode == "dir" and os.path.normpath(os.path.join(j.cwd, j.dir))
            rel = target and os.path.relpath(target, w.root)
            if target and (rel in before or rel + "/" in before):
                continue             # it existed
            if target and rival and (target + "/").startswith(w.root) and os.path.isdir(target) and \
                    "output directory exists" in p.stderr():
                continue             # somebody else has made it
            raise Violation(ID + "/crash", "%s fails: rc %s %s" % (where, p.rc, p.stderr()[-600:]))
        vague = unlinked and j is faulty
        if out != j.ref and not vague:
            raise Violation(ID + "/output", "%s prints\n%s\ninstead of\n%s" % (where, out[-900:], j.ref[-900:]))
        if j.files is None and not ds or not ds and vague:
            continue
        d = ds[0]
        rel = os.path.relpath(d, w.root)
        if rel in before or rel + "/" in before:
            raise Violation(ID + "/existing", "%s stores in %s, which existed" % (where, rel))
        if d in own:
            raise Violation(ID + "/shared", "%s stores in %s, as does %s" % (where, rel, own[d].argv))
        own[d] = j
        if not os.path.isdir(d):
            raise Violation(ID + "/lost", "%s: there is no directory %s" % (where, rel))
        got = content(d)
        if got != j.files and not vague:
            bad = sorted(k for k in set(got) | set(j.files) if got.get(k) != j.files.get(k))
            raise Violation(ID + "/stored", "%s stores other results than alone: %s\n%s\ninstead of\n%s" % (
                where, bad[:6], got.get(bad[0], b"")[-1500:].decode("latin-1"),
                j.files.get(bad[0], b"")[-1500:].decode("latin-1")))
    # the ones with the same directory: exactly one may have it
    for j in jobs:
        if j.mode != "dir" or j.files is None or j.proc.rc == 0 or j is faulty:
            continue
        target = os.path.normpath(os.path.join(j.cwd, j.dir))
        rel = os.path.relpath(target, w.root)
        if rel in before or rel + "/" in before:
            continue
        if target not in own and (faulty is None or faulty.proc.rc == 0 and not unlinked):
            raise Violation(ID + "/lost", "no comparison has the directory %s" % rel)
    after = state_of(w)
    for k, b in before.items():
        if after.get(k) != b:
            raise Violation(ID + "/changed", "%s is %s" % (k, "changed" if k in after else "gone"))
    allowed = list(own)
    if faulty is None:
        for k in sorted(set(after) - set(before)):
            p = os.path.join(w.root, k.rstrip("/"))
            if not any(p == d or p.startswith(d + "/") for d in allowed):
                raise Violation(ID + "/left", "%s is left" % k)
