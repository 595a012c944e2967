"""C19: a sysctl option stands for its handler and the functions that use its data."""
import os
import re

from .. import core
from ..core import Violation
from ..worlds import ksys, proj
from ..worlds.proj import put

ID = "C19"
RULE = ("a run counts if at least two functions were expected in the snapshot, one of them because of the data of an "
        "option; distinct by trace digest")
STATES = "distinct (asked options, faults, snapshot) triples"
REAL = ["SimpLL's library (sysctl tables, users of variables), built from the working tree", "diffkemp/cli.py",
        "diffkemp/diffkemp.py build_kernel_to_snapshot, generate_from_sysctl_list", "diffkemp/snapshot.py",
        "diffkemp/llvm_ir/kernel_source_tree.py, kernel_llvm_source_builder.py, llvm_sysctl_module.py, llvm_module.py",
        "clang and opt 16 (they compile the kernel)", "sed"]
STUB = ["make and cscope (their answers are known from the generator)"]
ASSUMPTIONS = ["kernels of four to eight C files with the tables that diffkemp knows; no static variable or function "
               "shares its name with another one",
               "functions that use the data only by pointers obtained elsewhere are not counted as using it"]
RUNS = {"quick": (2000, 45), "thorough": (60000, 700)}
ENGINE = "real"


def setup(ctx, tier):
    import diffkemp.cli          # noqa: F401
    import pkg_resources
    pkg_resources.require("diffkemp")
    from diffkemp.llvm_ir.llvm_module import LlvmModule
    core.stable_hash(LlvmModule)


def scenario(run):
    g, f = run.s.gen, run.s.fault
    w = ksys.World(run)
    sim = w.sim
    asked, plan = [], []
    for _ in range(1 + g.choose(5)):
        pre = g.choice(sorted(w.where))
        names = [r[0] for r in w.entries[w.where[pre][-1]]]
        k = g.choose(6)
        if k == 0 or not names:
            pat = g.choice(["nonexistent", "*", "{a|b}"])
        elif k == 1:
            pat = "{%s}" % "|".join([n for n in names if g.chance(60)] or names[:1])
        elif k == 2:
            pat = g.choice(names)
        else:
            pat = "*"
        asked.append(pre + pat)
        plan.append((pre, pat))
    for u in w.units:
        if f.chance(10):
            t, k = f.choice([("clang", "error"), ("make", "error"), ("clang", "killed"), ("opt", "error"),
                             ("opt", "late-error"), ("opt", "killed"), ("make", "no-gcc")])
            w.fault[(t, u.path)] = k
    syms = [v.name for v in w.vars] + [x.name for x in w.funs] + list(w.entries)
    for n in syms:
        if f.chance(1):
            w.fault[("cscope-query", n)] = "error"
    cq = {n for (t, n) in w.fault if t == "cscope-query"}
    put(w.root + "/symbols", proj.symbol_text(g, asked))
    sim.shuffle_dirs = run.s.env.chance(50)
    run.checkpoint("making the snapshot of %s" % asked)
    p = w.cli(["build-kernel", "--sysctl", w.src, w.snap, w.root + "/symbols"])
    got = proj.snapshot_map(w.snap)
    must, may = w.expected(plan, cq)
    where = "asked %s, faults %s" % (asked, w.fault)
    if got is None or p.rc != 0:
        raise Violation(ID + "/failed", "the snapshot was not made: rc %s %s\n%s" % (p.rc, p.stderr()[-800:], where))
    y = proj.load_yaml(w.snap + "/snapshot.yaml")[0]
    meta = {(gr["sysctl"], fn["name"]): (fn["glob_var"], fn["tag"]) for gr in y["list"]
            for fn in gr.get("functions", ())}
    seen = set()
    for grp, n, llvm in got:
        if (grp, n) in seen:
            raise Violation(ID + "/duplicate", "%s %s is in the snapshot twice; %s" % (grp, n, where))
        seen.add((grp, n))
        want = must.get((grp, n)) or may.get((grp, n))
        if want is None:
            raise Violation(ID + "/foreign", "%s: %s is neither the handler nor does it use the data (%s); %s" % (
                grp, n, meta[(grp, n)], where))
        have = (llvm and os.path.normpath(llvm)[:-3] + ".c",) + meta[(grp, n)]
        if have != want:
            raise Violation(ID + "/mapping", "%s %s: %s, should be %s; %s" % (grp, n, have, want, where))
        text = proj.get(os.path.join(w.snap, llvm)).decode("utf-8", "replace")
        if not re.search(r"^define [^@]*@%s\(" % n, text, re.M):
            raise Violation(ID + "/not-defined", "%s does not define %s" % (llvm, n))
    for key in sorted(must):
        if key not in seen:
            raise Violation(ID + "/missing", "%s: %s of %s is missing (%s); %s\nhas %s" % (
                key + (must[key][0], must[key][2], where, sorted(seen))))
    run.sample = {"asked": asked, "faults": {str(k): v for k, v in w.fault.items()}, "snapshot": got}
    run.state((asked, sorted(map(str, w.fault.items())), sorted(got, key=str)))
    run.count("functions", len(seen))
    run.count("options", len({grp for grp, _ in seen}))
    run.count("elements", len([1 for k in must if must[k][1]]))
    run.count("undecided", len([k for k in seen if k not in must]))
    run.nontrivial = len(must) > 1 and any(x[1] for x in must.values())
