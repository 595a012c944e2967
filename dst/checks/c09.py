"""C09: the outputs of a comparison agree with the verdicts and with each
other: nothing is lost, invented or misplaced."""
import os

import yaml

from .. import core
from ..core import Violation
from ..worlds import cmp, report
from ..worlds.proj import get

ID = "C09"
RULE = ("a run counts if at least two functions were compared and at least one differed; distinct by "
        "trace digest")
STATES = "distinct (options, verdict vector) pairs"
REAL = ["diffkemp/cli.py, diffkemp.py compare*, print_syntax_diff", "diffkemp/snapshot.py, config.py",
        "diffkemp/semdiff/function_diff.py, caching.py, result.py", "diffkemp/syndiff", "diffkemp/output.py",
        "diffkemp/simpll/simpll.py", "diff"]
STUB = ["SimpLL engine (toy IR compared by a model that answers in the real format)", "llvm-config, opt"]
ASSUMPTIONS = ["the answers of the stand-in have the shape of SimpLL's answers"]
RUNS = {"quick": (1500, 45), "thorough": (60000, 700)}
ENGINE = None


def setup(ctx, tier):
    import diffkemp.cli          # noqa: F401
    import pkg_resources
    pkg_resources.require("diffkemp")
    from diffkemp.llvm_ir.llvm_module import LlvmModule
    from diffkemp.semdiff.caching import ComparisonGraph
    core.stable_hash(LlvmModule)
    core.stable_hash(ComparisonGraph.Vertex)


PATTERNS = ["note", r"return x \+ 10[01]", "long b", "x = x", r"\(x\) \+ 8", "zzz_nothing", "^!", "int f_",
            "struct"]


def options(g):
    """Options that change what is reported, not what is found."""
    o = []
    for flag, pct in (("--report-stat", 70), ("--extended-stat", 30), ("--show-errors", 50),
                      ("--no-show-diff", 20), ("--disable-simpll-ffi", 25)):
        if g.chance(pct):
            o.append(flag)
    return o


def compare(w, opts, name, outdir, old=None, new=None, cwd=None):
    argv = w.argv(opts + (["--stdout"] if outdir is None else ["-o", outdir] if outdir else []), old, new)
    return w.cli(argv, name, cwd), argv


def scenario(run):
    g = run.s.gen
    groups = g.chance(35)
    w = cmp.Pair(run, run.ctx, groups=groups)
    sim = w.sim
    sim.shuffle_dirs = run.s.env.chance(50)
    w.engine.honour_cache = g.chance(50)
    if g.chance(4) and w.list:
        w.engine.big = {g.choice(w.list)[1]}
    opts = options(g)
    full = g.chance(20)
    if full:
        opts.append("--full-diff")
    mode = g.weighted([("stdout", 3), ("dir", 3), ("default", 3)])
    rel = g.chance(50)
    old, new = ("old", "new") if rel else (w.old, w.new)
    if rel and g.chance(30):
        old += "/"
    only = None
    if not groups and g.chance(10):
        both = sorted(n for _, n, wh, _ in w.list if "absent" not in wh)
        if both:
            only = g.choice(both)
            opts += ["-f", only]
    outdir = {"stdout": None, "dir": "out", "default": ""}[mode]
    rdir = w.root + "/" + ("out" if mode == "dir" else "diff-old-new")
    p, argv = compare(w, opts, "first", outdir, old, new)
    orc = report.Oracle(w, full=full, show="--no-show-diff" not in opts, only=only)
    orc.arg_old, orc.arg_new = old, new
    run.sample = {"argv": argv, "rc": p.rc, "list": w.list, "expected": {
        str(k): v if isinstance(v, str) else sorted(v) for k, v in orc.exp.items()}}
    kinds = [orc.want_of(k)[0] for k in orc.exp]
    run.state((sorted(opts), mode, groups, kinds))
    run.nontrivial = len(kinds) > 1 and "not-equal" in kinds
    run.count("functions", len(kinds))
    if p.rc != 0:
        raise Violation(ID + "/crash", "the comparison failed: rc %s %s" % (p.rc, p.stderr()[-700:]))
    files = check(run, w, orc, p, opts, mode, rdir, old, new, full)
    if g.chance(40):
        return faulty(run, w, orc, opts, mode, old, new, full, p.steps)
    if "--no-show-diff" in opts or full or not files or not g.chance(60):
        return
    # with a regex, exactly the functions with a matching diff remain
    rx = g.choice(PATTERNS)
    orc2 = report.Oracle(w, only=only)
    orc2.arg_old, orc2.arg_new = old, new
    import re
    for k, f in files.items():
        if not any(re.search(rx, "\n".join(e.diff) + "\n") for e in f.entries):
            orc2.exp[k] = "equal"
    q, argv = compare(w, opts + ["--regex-filter", rx], "filtered",
                      None if mode == "stdout" else "out2", old, new)
    if q.rc != 0:
        raise Violation(ID + "/filter-crash", "the comparison with --regex-filter failed: %s" %
                        q.stderr()[-700:])
    check(run, w, orc2, q, opts, "stdout" if mode == "stdout" else "dir", w.root + "/out2", old, new,
          False, True)
    run.count("filtered")


def faulty(run, w, orc, opts, mode, old, new, full, nsteps):
    """An I/O error or an interrupt at any point: no incomplete report is
    presented as complete."""
    f, sim = run.s.fault, w.sim
    kind = f.weighted([("errno", 4), ("interrupt", 1)])
    at = 1 + f.choose(nsteps + 2)
    if f.chance(50):
        at = max(1, nsteps - f.choose(40))
    arg, frac = f.choose(8), f.choose(10) / 10.0
    state = {"done": None}

    def hook(sim, p, op, path):
        if state["done"] or p.name != "faulty" or p.steps < at:
            return None
        if kind == "errno":
            if sim.in_tool or op not in sim.ERRNO_OK or path is None:
                return None
            state["done"] = op
            return ("errno", arg, frac)
        if op == "close" or sim.in_tool:
            return None
        state["done"] = op
        return (kind,)
    sim.fault_hook = hook
    q, argv = compare(w, opts, "faulty", None if mode == "stdout" else "outf", old, new)
    sim.fault_hook = None
    run.count("faulty-" + ("hit" if state["done"] else "missed"))
    run.state(("faulty", kind, state["done"], q.rc))
    if q.rc == 0:
        if state["done"] and kind == "interrupt":
            raise Violation(ID + "/interrupt", "an interrupt at step %d (%s) is not noticed" % (
                at, state["done"]))
        check(run, w, orc, q, opts, "stdout" if mode == "stdout" else "dir", w.root + "/outf", old, new, full)
    elif not state["done"]:
        raise Violation(ID + "/crash", "the comparison failed: " + q.stderr()[-500:])


def check(run, w, orc, p, opts, mode, rdir, old, new, full, filtered=False):
    try:
        r = report.parse_stdout(p.stdout(), old, new, {k[0] for k in orc.exp})
    except report.Bad as e:
        raise Violation(ID + "/output", "%s\n%s" % (e, p.stdout()[-900:]))
    files = orc.check_report(ID, r, rdir, mode == "stdout")
    if "--report-stat" in opts or "--extended-stat" in opts:
        orc.check_stats(ID, r, "--show-errors" in opts)
    elif r.stats is not None:
        raise Violation(ID + "/stats", "statistics were not asked for")
    if "--extended-stat" in opts and not full and not filtered:
        orc.check_object_stats(ID, r)
    if mode == "stdout":
        if os.path.exists(w.root + "/diff-old-new"):
            raise Violation(ID + "/output-dir", "an output directory is made with --stdout")
        return files
    if not full and os.path.isdir(rdir) != bool(files):
        raise Violation(ID + "/output-dir", "the output directory is %s, there are %d differences" % (
            "made" if os.path.isdir(rdir) else "not made", len(files)))
    if (r.stored is not None) != os.path.isdir(rdir) or r.stored and os.path.normpath(
            os.path.join(w.root, r.stored)) != rdir:
        raise Violation(ID + "/output-dir", "the output directory is said to be %s" % r.stored)
    if os.path.isdir(rdir):
        if not os.path.isfile(rdir + "/diffkemp-out.yaml"):
            raise Violation(ID + "/yaml", "no diffkemp-out.yaml in the output directory")
        orc.check_yaml(ID, yaml.safe_load(get(rdir + "/diffkemp-out.yaml")), w.old, w.new)
    return files
