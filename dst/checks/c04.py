"""C04: whatever happens while a snapshot is being made, the output directory
never holds an incomplete snapshot that can be loaded, and a re-run recovers."""
from ..core import Violation
from ..worlds import proj

ID = "C04"
RULE = ("a run counts if a crash, torn write, I/O error or interrupt was injected into the build; "
        "distinct by trace digest")
STATES = "distinct (kind of build, fault, step of the fault, outcome) vectors"
REAL = ["diffkemp/cli.py", "diffkemp/diffkemp.py build*, llvm_to_snapshot, generate_from_*",
        "diffkemp/snapshot.py", "diffkemp/llvm_ir/*", "diffkemp/building/cc_wrapper.py", "sed", "shutil"]
STUB = ["make, gcc, clang, opt, llvm-link, llvm-config, cscope (file-level models)"]
ASSUMPTIONS = ["a crash is the death of the process and its tools: what was written survives "
               "(no power loss)", "rename() is atomic"]
RUNS = {"quick": (2600, 40), "thorough": (80000, 700)}
ENGINE = None


def healed(state):
    """A snapshot whose compiler headers were left adjusted: the next use of
    the snapshot reverts that (C05), so it does not make it incomplete."""
    if state is None:
        return None
    out = dict(state)
    for h in ("include/linux/compiler-gcc.h", "include/linux/compiler_types.h"):
        if h in out:
            t = out[h].replace(b'asm ("goto(" #x ")")', b"asm goto(x)")
            out[h] = b"".join(x for x in t.splitlines(True)
                              if b"#undef CONFIG_CC_HAS_ASM_INLINE // DiffKemp generated" not in x)
    return out


def setup(ctx, tier):
    from . import c03
    c03.setup(ctx, tier)


def scenario(run):
    g, f = run.s.gen, run.s.fault
    w = proj.World(run)
    sim = w.sim
    sc = proj.Scene(run, w, [("make", 4), ("kernel", 4), ("single", 1), ("llvm", 1)])
    # what a clean build makes
    base = sc.build("base")
    if base.rc != 0:
        raise AssertionError("clean build failed: " + base.stderr()[-600:])
    clean = proj.snap_state(w.snap)
    nsteps = base.steps
    # what is in the directory before: nothing, or a complete snapshot of a
    # different state of the sources
    old = None
    sc.put_back()
    proj.rmtree(w.snap)
    if g.chance(60):
        for u in w.units:
            for fn in u.funs:
                fn[3] += 7
        w.write_all()
        if sc.kind == "llvm":
            u = w.units[0]
            proj.put(w.src + "/" + u.path[:-2] + ".ll",
                     proj.toy_ir(u.path, w.src, w.rd, {"D": [], "I": []}))
        q = sc.build("older")
        if q.rc != 0:
            raise AssertionError("older build failed: " + q.stderr()[-600:])
        old = proj.snap_state(w.snap)
        sc.put_back()
    sim.shuffle_dirs = run.s.env.chance(30)
    kind = f.weighted([("none", 1), ("crash", 5), ("torn", 3), ("errno", 4), ("interrupt", 4)])
    # late steps, where the snapshot directory is written, are more interesting
    back = f.choose(2)
    at = 1 + f.choose(nsteps + 5) if not back else max(1, nsteps - f.choose(60))
    arg = f.choose(8)
    frac = f.choose(10) / 10.0
    state = {"done": False}

    def hook(sim, p, op, path):
        if state["done"] or p.name != "faulty" or p.steps < at:
            return None
        if kind == "errno":
            if sim.in_tool or op not in sim.ERRNO_OK or path is None:
                return None
            state["done"] = True
            return ("errno", arg, frac)
        if kind == "torn":
            if op != "write":
                return None
            state["done"] = True
            return ("torn", frac)
        state["done"] = True
        return (kind,)
    if kind != "none":
        sim.fault_hook = hook
    p = sc.build("faulty")
    sim.fault_hook = None
    now = healed(proj.snap_state(w.snap))
    hit = state["done"]
    outcome = "none" if now is None else "no-yaml" if "snapshot.yaml" not in now else \
        "new" if now == clean else "old" if now == old else "other"
    run.count("outcome-" + outcome)
    run.state((sc.kind, kind if hit else None, at if hit else None, outcome, old is not None))
    run.nontrivial = hit
    run.sample = {"argv": sc.argv, "fault": [kind, at, arg, frac], "hit": hit, "rc": p.rc,
                  "outcome": outcome, "steps": nsteps, "had_old": old is not None}
    loadable = proj.snapshot_map(w.snap) is not None
    if loadable and outcome == "other":
        raise Violation(ID + "/partial", "after %s at step %d of %d (%s) the directory holds a snapshot "
                        "that can be loaded but is neither the previous nor a complete one: %s" % (
                            kind, at, nsteps, sc.kind, proj.diff_states(now, clean)))
    if p.rc == 0 and not p.crashed and outcome != "new":
        raise Violation(ID + "/false-success", "diffkemp reported success after %s, but the snapshot is "
                        "not complete: %s" % (kind, proj.diff_states(now or {}, clean)))
    if outcome == "new" and not hit and p.rc != 0:
        raise Violation(ID + "/rc", "diffkemp failed without a fault: " + p.stderr()[-300:])
    # re-run
    sim.advance(f.choose(3) * 3600.0)
    q = sc.build("again")
    if q.rc != 0:
        raise Violation(ID + "/no-recovery", "after %s at step %d of %d (%s), the build fails: %s" % (
            kind, at, nsteps, sc.kind, q.stderr()[-400:]))
    again = proj.snap_state(w.snap)
    if again != clean:
        raise Violation(ID + "/recovery-differs", "after %s at step %d of %d (%s), the next build makes a "
                        "different snapshot: %s" % (kind, at, nsteps, sc.kind,
                                                    proj.diff_states(again, clean)))
