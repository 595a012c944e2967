"""C08: a failure of the engine or of a source costs only the function it
concerns, which is reported as failed and never as equal."""
import os

import yaml

from ..core import Violation
from ..worlds import cmp, report
from ..worlds.proj import get
from . import c09

ID = "C08"
RULE = ("a run counts if the comparison of at least one function failed and another one did not; "
        "distinct by trace digest")
STATES = "distinct (mode, kind of failure per function, verdicts) vectors"
REAL = c09.REAL
STUB = c09.STUB
ASSUMPTIONS = c09.ASSUMPTIONS + ["a segmentation fault inside the engine loaded into Python is not survivable; "
                                 "it is only injected where the engine runs as a separate process"]
RUNS = {"quick": (2000, 45), "thorough": (80000, 700)}
ENGINE = None
setup = c09.setup

FFI_FAULTS = ["empty", "garbage", "other", "noresults", "incomplete"]
BIN_FAULTS = ["empty", "garbage", "other", "noresults", "incomplete", "error", "killed"]


def scenario(run):
    g, f = run.s.gen, run.s.fault
    groups = g.chance(25)
    w = cmp.Pair(run, run.ctx, groups=groups)
    sim = w.sim
    sim.shuffle_dirs = run.s.env.chance(50)
    w.engine.honour_cache = g.chance(40)
    if g.chance(4) and w.list:
        w.engine.big = {g.choice(w.list)[1]}
    mode = g.weighted([("ffi", 4), ("binary", 4), ("modules", 3)])
    opts = ["--report-stat", "--show-errors"]
    if mode == "binary":
        opts.append("--disable-simpll-ffi")
    elif mode == "modules":
        opts.append("--enable-module-cache")
    full = g.chance(10)
    if full:
        opts.append("--full-diff")
    failed = {}
    exp = w.expected()
    names = sorted({n for fs in exp.values() for n, a in fs.items() if a is not None})
    for n in names:
        if f.chance(25):
            failed[n] = f.choice(BIN_FAULTS if mode == "binary" else FFI_FAULTS)
            if mode == "modules" and not groups and f.chance(40):
                failed[n] = "killed"
    missing = mode == "binary" and f.chance(4)
    if missing:
        del sim.programs["diffkemp-simpll"]
        sim.count_fault("missing-simpll")
        failed = {n: "missing" for n in names}
    w.engine.fault = dict(failed)
    # modules that vanished or were damaged after the snapshot was made
    for v, root in ((0, w.old), (1, w.new)):
        for src in w.prog.files:
            if f.chance(4):
                k = f.choice(["gone", "cut", "empty"])
                damage(root + "/" + src[:-2] + ".ll", k)
                sim.count_fault("module-" + k)
                for n in names:
                    if w.prog.funs[n].file == src:
                        failed.setdefault(n, "module-" + k)
    # sources that vanished or cannot be read
    lost = []
    for v, root in ((0, w.old), (1, w.new)):
        for src in w.prog.files + w.prog.headers:
            if f.chance(6):
                k = f.choice(["gone", "binary", "short"])
                damage_source(root + "/" + src, k)
                sim.count_fault("source-" + k)
                lost.append((v, src))
    out = g.choice([None, "out"])
    p, argv = c09.compare(w, opts, "first", out)
    for n, m, k in w.engine.calls:
        if k == "killed" and m == "ffi":
            # a module that is not cached is compared in this process, which would not survive
            failed.pop(n, None)
    orc = report.Oracle(w, full=full, failed=failed, lost=lost)
    orc.arg_old, orc.arg_new = w.old, w.new
    kinds = [orc.want_of(k)[0] for k in orc.exp]
    run.sample = {"argv": argv, "rc": p.rc, "failed": failed, "lost": lost}
    run.state((mode, sorted(failed.items()), lost, kinds))
    run.count(mode)
    run.nontrivial = bool(failed) and any(k in ("equal", "not-equal") for k in kinds)
    if p.rc != 0:
        raise Violation(ID + "/crash", "failures %s %s ended the whole comparison: rc %s %s" % (
            failed, lost, p.rc, p.stderr()[-600:]))
    try:
        r = report.parse_stdout(p.stdout(), w.old, w.new, {k[0] for k in orc.exp})
    except report.Bad as e:
        raise Violation(ID + "/output", "%s\n%s" % (e, p.stdout()[-900:]))
    files = orc.check_report(ID, r, w.root + "/out", out is None)
    orc.check_stats(ID, r, True)
    if out and os.path.isdir(w.root + "/out"):
        if not os.path.isfile(w.root + "/out/diffkemp-out.yaml"):
            raise Violation(ID + "/yaml", "no diffkemp-out.yaml")
        orc.check_yaml(ID, yaml.safe_load(get(w.root + "/out/diffkemp-out.yaml")), w.old, w.new)
    for n, mode_, k in w.engine.calls:
        if mode != mode_ and not (mode == "modules" and mode_ == "ffi"):
            raise Violation(ID + "/mode", "%s was compared through %s" % (n, mode_))


def damage(path, k):
    if k == "gone":
        os.remove(path)
        return
    data = get(path)
    with open(path, "wb") as fl:
        fl.write(data[:len(data) * 2 // 3] if k == "cut" else b"")


def damage_source(path, k):
    if k == "gone":
        os.remove(path)
        return
    data = get(path)
    with open(path, "wb") as fl:
        fl.write(b"\xff\xfe\xc0\n" + data if k == "binary" else b"")
