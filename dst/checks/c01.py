"""C01: the compiler wrapper's database under parallel builds and kills."""
import collections
import os

from ..core import R, Violation
from ..worlds import cc

ID = "C01"
RULE = ("a run counts if at least two wrapper processes were interleaved with at least one "
        "pre-emptive switch, or a fault was injected; distinct by trace digest")
STATES = "distinct (order of database appends, set of killed/failed jobs) pairs"
REAL = ["diffkemp/building/cc_wrapper.py (one instance per simulated process)",
        "diffkemp/llvm_ir/wrapper_build_finder.py", "diffkemp/utils.py:get_functions_from_llvm"]
STUB = ["gcc, clang, llvm-link (file-level models)", "make -jN (job graph run by the scheduler)",
        "SimpLL engine (not used)"]
ASSUMPTIONS = ["one O_APPEND write() is atomic, as on Linux local file systems",
               "the RPython-compiled wrapper behaves as the Python source"]
RUNS = {"quick": (2600, 35), "thorough": (60000, 600)}
ENGINE = None


def setup(ctx, tier):
    cc.wrapper_code()
    import diffkemp.llvm_ir.wrapper_build_finder  # noqa: F401


def scenario(run):
    w = cc.World(run)
    sim = w.sim
    g, f = run.s.gen, run.s.fault
    w.generate(2 + g.choose(9))
    slots = 1 + g.choose(4)
    sim.switch_pct = run.s.env.choice([0, 3, 10, 30])
    for j in w.jobs:
        if f.chance(6):
            w.tool_fault[(j.jid, "gcc")] = f.choice(["error", "killed"])
        elif f.chance(12):
            w.tool_fault[(j.jid, "ir")] = f.choice(["error", "killed", "partial"])
    kills = {}
    if f.chance(35):
        for _ in range(1 + f.choose(2)):
            kills[f.choose(len(w.jobs))] = 1 + f.choose(45)

    def hook(sim, p, op, path):
        jid = getattr(p, "job", None)
        if jid is not None and kills.get(jid.jid) == p.steps:
            return ("crash", "self")
    if kills:
        sim.fault_hook = hook
    w.make(w.jobs, slots)
    sim.fault_hook = None

    # what the database has to say
    sure, maybe = collections.Counter(), collections.Counter()
    for j in w.jobs:
        if j.skipped or j.irkind is None:
            continue
        for ir in j.ir:
            if ir in j.produced:
                line = "%s:%s" % (j.irkind, ir)
                if j.proc.crashed:
                    maybe[line] += 1
                else:
                    sure[line] += 1
            elif not j.proc.crashed and j.rc == 0 and not (
                    (j.jid, "ir") in w.tool_fault or j.kind in ("link", "hybrid")):
                raise Violation("C01/no-ir", "the wrapper made no IR %s for: %s" % (
                    sim.norm(ir), j.argv))
    data = w.db_lines()
    run.state((data.replace(sim.root.encode(), b""), sorted(kills), sorted(w.tool_fault)))
    run.count("jobs", len(w.jobs))
    run.count("db_lines", data.count(b"\n"))
    run.nontrivial = len(w.jobs) > 1 and (sim.switch_pct > 0 and slots > 1
                                          or bool(sim.faults_done))
    run.sample = {"jobs": [[os.path.relpath(j.cwd, sim.root)] + [sim.norm(a) for a in j.argv]
                           for j in w.jobs], "slots": slots,
                  "switch_pct": sim.switch_pct, "kills": kills,
                  "tool_faults": {str(k): v for k, v in w.tool_fault.items()}}
    text = data.decode("utf-8", "replace")
    if text and not text.endswith("\n"):
        raise Violation("C01/torn-line", "the database ends in a partial line: %r" % text[-80:])
    got = collections.Counter()
    for raw in text.split("\n")[:-1]:
        # a recorded path may be spelled with ./ or ..
        got[raw[:2] + os.path.normpath(raw[2:])] += 1
    for line, n in got.items():
        if n > sure[line] + maybe[line]:
            raise Violation("C01/foreign-line", "the database has %d x %r, expected %d%s; all: %s" % (
                n, sim.norm(line), sure[line], " or more" if maybe[line] else "",
                sim.norm(text)))
    for line, n in sure.items():
        if got[line] < n:
            raise Violation("C01/lost-line", "IR was produced but is not recorded: %r; "
                            "database: %r" % (sim.norm(line), sim.norm(text)))
    # and the reader of the database
    if not os.path.exists(w.db):
        return
    from diffkemp.llvm_ir.wrapper_build_finder import WrapperBuildFinder
    p = sim.new_proc("reader", w.src)
    box = []

    def read():
        box.append(WrapperBuildFinder(w.src, w.db))
    sim.run_main(p, read)
    if not box:
        raise Violation("C01/reader", "the database cannot be read: %r" % (p.exc,))
    irs = {}
    for line in sure:
        if line.startswith("o:"):
            for fn in fns(line[2:]):
                irs.setdefault(fn, set()).add(line[2:])
    for fn, where in sorted(irs.items()):
        r = box[0].find_llvm_with_symbol_def(fn)
        if r is None or os.path.normpath(r) not in where:
            raise Violation("C01/reader-lost", "function %s is in %s, the finder says %s" % (
                fn, sorted(map(sim.norm, where)), r and sim.norm(r)))
    run.count("functions_found", len(irs))


def fns(path):
    import re
    with R.bopen(path) as f:
        return re.findall(r"define i32 @(\w+)\(", f.read())
