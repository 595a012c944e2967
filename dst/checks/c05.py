"""C05: making a snapshot leaves the sources as they were."""
import os

from ..core import R, Violation
from ..worlds import proj
from . import c03, c04

ID = "C05"
RULE = ("a run counts if a fault was injected into a build that had something to restore; distinct by "
        "trace digest")
STATES = "distinct (kind of build, fault, step of the fault, state of the sources) vectors"
REAL = c04.REAL
STUB = c04.STUB
ASSUMPTIONS = c04.ASSUMPTIONS + ["files that make clean removes by itself (objects, IR) are not sources"]
RUNS = {"quick": (2600, 40), "thorough": (80000, 700)}
ENGINE = None
setup = c03.setup

GOTO = "#define asm_volatile_goto(x...)\tdo { asm goto(x); asm (\"\"); } while (0)\n"
INLINE = "#ifdef CONFIG_CC_HAS_ASM_INLINE\n#define asm_inline asm __inline\n#else\n#define asm_inline asm\n#endif\n"
HEADERS = ["#define two(x...) do { asm goto(x); asm goto(x); } while (0)\n" + GOTO,
           INLINE + INLINE.replace("inline asm", "inline2 asm"), GOTO, INLINE, GOTO + INLINE, INLINE + "\n" + GOTO + INLINE, "/* asm goto(x) */\n" + GOTO,
           "/* nothing */\n", "", "#ifdef CONFIG_CC_HAS_ASM_INLINE", "\t" + INLINE.replace("\n", "\r\n"),
           "/* caf\xe9 */\n" + GOTO, "#undef CONFIG_CC_HAS_ASM_INLINE\n" + INLINE]


class Watch:
    """Records, step by step, how the sources differ from the original."""

    def __init__(self, files):
        self.files = {p: d for p, (d, _) in files.items()}
        self.seq = []

    def state(self):
        return tuple(sorted(p for p, d in self.files.items() if read(p) != d))

    def digest(self):
        return tuple((p, read(p)) for p in sorted(self.files) if read(p) != self.files[p])

    def hook(self, sim, p, op, path):
        self.seq.append((p.steps, self.digest()))
        return None

    def restore_start(self):
        """The step at which the longest lasting changed state ends."""
        best, cur, start = (0, None), None, 0
        for step, d in self.seq + [(None, ())]:
            if d != cur:
                if cur:
                    end = step if step is not None else self.seq[-1][0]
                    best = max(best, (end - start, end))
                cur, start = d, step
        return best[1]


def read(p):
    if not os.path.lexists(p):
        return None
    with R.bopen(p, "rb") as f:
        return f.read()


def prepare(run, w, sc):
    g = run.s.gen
    if sc.kind == "kernel":
        for h in ("compiler-gcc.h", "compiler_types.h"):
            p = w.src + "/include/linux/" + h
            if os.path.exists(p) and g.chance(70):
                with R.bopen(p, "wb") as f:
                    f.write(g.choice(HEADERS).encode("latin-1"))
    elif sc.kind == "make":
        if g.chance(75):
            proj.put(w.src + "/config.log", "This file\n  $ ./configure --prefix=/usr\n")
            w.clean_removes_config = g.chance(70)
            if g.chance(20):
                w.fault[("make-clean", None)] = "error"
        if g.chance(30):
            proj.put(w.src + "/README", "read me\n")
        if g.chance(25) and "--no-native-cc-wrapper" in sc.argv and g.chance(50):
            sc.argv.append("--no-reconfigure")
    w.stamp(w.root + "/src")
    sc.files = sc.keep()


def extra(w, watch):
    base = w.root + "/src"
    out = set()
    for r, ds, fs in os.walk(base):
        for f in fs:
            p = os.path.join(r, f)
            if p not in watch.files:
                out.add(os.path.relpath(p, base))
    return out


def outside(w):
    """Files outside the sources and the snapshot."""
    return {k: v for k, v in proj.tree(w.root).items() if k.split("/")[0] not in ("src", "snap", "tmp")}


def scenario(run):
    g, f = run.s.gen, run.s.fault
    w = proj.World(run)
    sim = w.sim
    sc = proj.Scene(run, w, [("make", 4), ("kernel", 6), ("single", 1), ("llvm", 1)])
    prepare(run, w, sc)
    out0 = outside(w)
    # tools that fail on some units
    for u in w.units:
        if f.chance(12):
            t, k = f.choice([("clang", "error"), ("clang", "killed"), ("opt", "error"), ("make", "error")]
                            if sc.kind == "kernel" else [("clang", "error"), ("gcc", "error")])
            w.fault[(t, u.path)] = k
    watch = Watch(sc.files)
    sim.fault_hook = watch.hook
    base = sc.build("base")
    sim.fault_hook = None
    nsteps, restoring = base.steps, watch.restore_start()

    def check(p, what, now=True):
        d = watch.state()
        run.state((sc.kind, what, d))
        if d and now:
            raise Violation(ID + "/sources", "after %s of %s (rc %s) the sources are changed: %s\n%s" % (
                what, sc.kind, p.rc, [os.path.relpath(x, w.root) for x in d], p.stderr()[-300:]))
        o = outside(w)
        if o != out0 and now:
            raise Violation(ID + "/outside", "after %s files outside the sources and the snapshot are "
                            "changed: %s" % (what, proj.diff_states(o, out0)))
        return d
    check(base, "a build")
    left = extra(w, watch)
    sc.put_back()
    proj.rmtree(w.snap)
    kind = f.weighted([("errno", 3), ("interrupt", 4), ("crash", 4), ("torn", 1), ("no-tool", 1)])
    at = 1 + f.choose(nsteps + 2)
    if restoring and f.chance(40):
        at = max(1, restoring - 20 + f.choose(40))
    arg, frac = f.choose(8), f.choose(10) / 10.0
    state = {"done": False}

    def hook(sim, p, op, path):
        if state["done"] or p.name != "faulty" or p.steps < at:
            return None
        if kind == "errno":
            if sim.in_tool or op not in sim.ERRNO_OK or path is None:
                return None
            state["done"] = p.steps
            return ("errno", arg, frac)
        if kind == "torn":
            if op != "write":
                return None
            state["done"] = p.steps
            return ("torn", frac)
        state["done"] = p.steps
        return (kind,)
    gone = None
    if kind == "no-tool":
        name = f.choice({"kernel": ["clang", "opt", "cscope", "make", "llvm-config"],
                         "make": ["make", "clang", "llvm-link"]}.get(sc.kind, ["clang", "llvm-config"]))
        gone = (name, sim.programs.pop(name))
        state["done"] = True
        sim.count_fault("no-" + name)
    else:
        sim.fault_hook = hook
    p = sc.build("faulty")
    sim.fault_hook = None
    if gone:
        sim.programs[gone[0]] = gone[1]
    hit = state["done"]
    run.nontrivial = bool(hit) and (bool(restoring) or sc.kind == "make" or bool(w.fault))
    run.sample = {"argv": sc.argv, "fault": [kind, at, arg, frac], "hit": hit, "rc": p.rc,
                  "restoring": restoring, "steps": nsteps}
    run.count("kind-" + sc.kind)
    # a fault in the middle of the restoration may cut it off
    cut = not gone and restoring and hit and hit >= restoring - 8
    if kind in ("crash", "torn") and hit or cut:
        check(p, kind, now=False)
    else:
        check(p, kind)
        if not hit and left != extra(w, watch):
            raise Violation(ID + "/leftovers", "other files are left than after the same build: %s" %
                            sorted(left ^ extra(w, watch)))
        if g.chance(50):
            return
    # the next run, which completes, restores everything
    sim.advance(60.0)
    q = sc.build("again")
    check(q, "%s at step %s and a complete build" % (kind, hit))
    if extra(w, watch) - left:
        raise Violation(ID + "/leftovers", "after %s at step %s and a complete build of %s, files are left: "
                        "%s" % (kind, hit, sc.kind, sorted(extra(w, watch) - left)))
