"""C02: the compiler wrapper is transparent for the native build."""
import os

from ..core import R, Violation
from ..worlds import cc

ID = "C02"
RULE = ("a run counts if the IR side of at least one job failed, was missing or was interleaved "
        "with another job; distinct by trace digest")
STATES = "distinct (job kinds, fault per job, exit code per job) vectors"
REAL = ["diffkemp/building/cc_wrapper.py (one instance per simulated process)"]
STUB = ["gcc, clang, llvm-link (file-level models)", "make -jN (job graph run by the scheduler)"]
ASSUMPTIONS = ["the database is on a writable file system with free space",
               "the RPython-compiled wrapper behaves as the Python source"]
RUNS = {"quick": (2600, 35), "thorough": (60000, 600)}
ENGINE = None

setup = None
FLAGS = ["-O2", "-Wall", "-fno-strict-aliasing", "-std=gnu11", "-DX=10"]


def setup(ctx, tier):      # noqa: F811
    cc.wrapper_code()


def meaning(argv):
    """The options that give a source its meaning."""
    res = []
    for i, a in enumerate(argv):
        if a.startswith(("-D", "-U", "-I", "-O", "-f", "-std")):
            res += [a] + (argv[i + 1:i + 2] if a in ("-D", "-I") else [])
    return res


def scenario(run):
    w = cc.World(run)
    sim = w.sim
    g, f = run.s.gen, run.s.fault
    w.generate(2 + g.choose(7))
    slots = 1 + g.choose(3)
    sim.switch_pct = run.s.env.choice([0, 3, 10, 30])
    w.drop = g.sample(FLAGS, g.choose(3))
    w.append = g.choice([[], ["-O1"], ["-O1", "-Xclang", "-disable-llvm-passes"]])
    missing = f.weighted([(None, 6), ("clang", 1), ("llvm-link", 1), ("both", 1)])
    if missing in ("clang", "both"):
        del sim.programs["clang"]
        sim.count_fault("missing-clang")
    if missing in ("llvm-link", "both"):
        del sim.programs["llvm-link"]
        sim.count_fault("missing-llvm-link")
    for j in w.jobs:
        if f.chance(15):
            w.tool_fault[(j.jid, "gcc")] = f.choice(["error", "killed"])
        if f.chance(30):
            w.tool_fault[(j.jid, "ir")] = f.choice(["error", "killed", "partial"])
    if f.chance(4):
        del sim.programs["gcc"]
        sim.count_fault("missing-gcc")
    w.make(w.jobs, slots)
    env = w.environ()
    run.state([(j.kind, w.tool_fault.get((j.jid, "gcc")), w.tool_fault.get((j.jid, "ir")), j.rc)
               for j in w.jobs])
    run.count("jobs", len(w.jobs))
    run.nontrivial = bool(sim.faults_done) or (slots > 1 and sim.switch_pct > 0)
    run.sample = {"jobs": [[os.path.relpath(j.cwd, sim.root)] + [sim.norm(a) for a in j.argv]
                           for j in w.jobs], "slots": slots, "missing": missing,
                  "tool_faults": {str(k): v for k, v in w.tool_fault.items()}}
    nogcc = "gcc" not in sim.programs
    for j in w.jobs:
        if j.skipped:
            continue
        want = ["gcc"] + j.argv
        if nogcc:
            if j.rc == 0:
                raise Violation("C02/exit-code", "gcc does not exist, the wrapper returned 0")
            continue
        if len(j.gcc) != 1:
            raise Violation("C02/gcc-runs", "gcc ran %d times for %s" % (len(j.gcc), j.argv))
        argv, cwd, e = j.gcc[0]
        if argv != want:
            raise Violation("C02/argv", "gcc was given %s instead of %s" % (argv, want))
        if os.path.normpath(cwd) != j.cwd:
            raise Violation("C02/cwd", "gcc ran in %s instead of %s" % (cwd, j.cwd))
        ee = {k.encode(): v.encode() for k, v in e.items()}
        if ee != env:
            diff = sorted(k for k in set(ee) | set(env) if ee.get(k) != env.get(k))
            raise Violation("C02/env", "gcc was given a changed environment: %s" % diff)
        if j.order and j.order[0] != "gcc":
            raise Violation("C02/order", "the IR tool ran before gcc for %s" % j.argv)
        failed = (j.jid, "gcc") in w.tool_fault
        if failed and j.rc == 0:
            raise Violation("C02/masked-failure", "gcc failed, the wrapper returned 0: %s" % j.argv)
        if not failed and j.rc != 0:
            raise Violation("C02/broken-build", "gcc succeeded, the wrapper returned %s for %s "
                            "(IR tool fault %s, missing %s): %s" % (
                                j.rc, j.argv, w.tool_fault.get((j.jid, "ir")), missing,
                                j.proc.stderr()[-300:]))
        if not failed:
            for i, n in enumerate(j.native):
                try:
                    with R.bopen(n, "rb") as fh:
                        got = fh.read()
                except OSError as ex:
                    got = repr(ex).encode()
                if got != b"NATIVE %d %d\n" % (j.jid, i):
                    raise Violation("C02/native-output", "the native output %s of %s was altered: %r"
                                    % (sim.norm(n), j.argv, got[:60]))
        if j.kind == "query" and not failed and j.proc.stdout() != "gcc says %d\n" % j.jid:
            raise Violation("C02/query-output", "%s printed %r instead of the native compiler's "
                            "output" % (j.argv, j.proc.stdout()[-200:]))
        for prog, av, _ in j.irtool:
            for d in w.drop:
                if d in av[1:] and d not in w.append:
                    raise Violation("C02/drop", "dropped option %s was given to %s" % (d, prog))
            if prog == "clang":
                # everything else that matters for the meaning of the source is kept, in its order
                mean = meaning([a for a in j.argv if a not in w.drop])
                rest = meaning(av[1:])
                if mean != [a for a in rest if a in mean]:
                    raise Violation("C02/options", "%s is compiled with %s, not with %s" % (j.argv, av, mean))
                k = len(w.append)
                if k and not any(av[i:i + k] == w.append for i in range(len(av))):
                    raise Violation("C02/append", "options %s are not in %s" % (w.append, av))
