"""C11: every option of a comparison reaches the engine, with the documented
meaning and in the same way in all modes of running it, and the modes give the
same results."""
import os
import re

from ..core import R, Violation
from ..worlds import cmp, proj, report
from ..worlds.proj import get, put
from . import c09

ID = "C11"
RULE = ("a run counts if the engine compared at least one function in each of the three modes; distinct by "
        "trace digest")
STATES = "distinct (options, configurations given to the engine) vectors"
REAL = c09.REAL + ["diffkemp/semdiff/custom_pattern_config.py", "diffkemp/simpll/library.py SimpLLModule"]
STUB = c09.STUB
ASSUMPTIONS = c09.ASSUMPTIONS + ["the options of the SimpLL binary and the fields of its FFI configuration of the "
                                 "same name have the same meaning"]
RUNS = {"quick": (1200, 45), "thorough": (40000, 700)}
ENGINE = None
setup = c09.setup

PATTERNS = ["struct-alignment", "function-splits", "unused-returns", "kernel-prints", "dead-code",
            "numerical-macros", "relocations", "type-casts", "control-flow-only", "inverse-conditions",
            "reordered-bin-ops", "group-vars"]
# the name that the engine uses
ENGINE_NAME = {"unused-returns": "unused-return-types"}
OFF = ("type-casts", "control-flow-only")
MODES = [("ffi", []), ("binary", ["--disable-simpll-ffi"]), ("modules", ["--enable-module-cache"])]


def pattern_options(g):
    """(arguments, what they mean)."""
    args, on, off = [], set(), set()
    for _ in range(g.weighted([(0, 3), (1, 3), (2, 3), (4, 2)])):
        k = g.weighted([("enable", 4), ("disable", 5), ("all", 1), ("none", 1)])
        if k in ("enable", "disable"):
            p = g.choice(PATTERNS)
            (on if k == "enable" else off).add(p)
            args += ["--%s-pattern" % k, p] if g.chance(60) else ["--%s-pattern=%s" % (k, p)]
        else:
            args.append("--enable-all-patterns" if k == "all" else "--disable-all-patterns")
            (on if k == "all" else off).add("all")
    want = {}
    for p in PATTERNS:
        v = p not in OFF
        if "all" in on:
            v = True
        if "all" in off:
            v = False
        if p in on:
            v = True
        if p in off:
            v = False
        want[p] = v
    if want["control-flow-only"]:
        want["type-casts"] = True
    return args, {ENGINE_NAME.get(k, k): int(v) for k, v in want.items()}


def pattern_file(path, name, good=True):
    put(path, "; ModuleID = '%s'\ndefine i32 @diffkemp.old.%s(i32 %%0) {\n}\n!1 = !{}\n" % (name, name)
        if good else "this is no LLVM IR\n")


def custom(g, f, w, sim):
    """(arguments, path given to the engine, it must be refused)."""
    k = g.weighted([(None, 5), ("ll", 3), ("yaml", 4)])
    if k is None:
        return [], "", False
    d = g.choice(["", "pat/", "my patterns/"])
    opt = g.choice(["--custom-patterns", "-p"])
    os.makedirs(os.path.join(w.root, d), exist_ok=True)
    bad = f.weighted([(None, 8), ("invalid", 1), ("kind", 1), ("missing", 1)])
    fails = False
    if k == "ll":
        p = d + g.choice(["p.ll", "p.LL", "pat.tern.ll"])
        if bad == "invalid":
            sim.count_fault("invalid-pattern")
            fails = True
        if bad == "missing":
            fails = True
            sim.count_fault("missing-pattern")
        else:
            pattern_file(os.path.join(w.root, p), "p", bad != "invalid")
        return [opt, p], p, fails
    names = []
    for i in range(g.choose(4)):
        n = d + "q%d.ll" % i
        pattern_file(os.path.join(w.root, n), "q%d" % i)
        names.append(n)
    policy = g.choice([None, "ERROR", "WARN"])
    if bad is not None and names:
        i = f.choose(len(names))
        sim.count_fault(bad + "-pattern")
        if bad == "invalid":
            pattern_file(os.path.join(w.root, names[i]), "q", False)
        elif bad == "kind":
            names[i] = names[i][:-3] + ".txt"
            put(os.path.join(w.root, names[i]), "x\n")
        else:
            R.unlink(os.path.join(w.root, names[i]))
        fails = bad == "missing" or policy != "WARN"
    p = d + g.choice(["conf.yaml", "conf.yml", "conf", "patterns.conf", "l"])
    text = "# patterns\n" + ("on_parse_failure: %s\n" % policy if policy else "")
    text += "patterns:%s\n" % (" []" if not names else "")
    for n in names:
        text += "  - %s\n" % n
    put(os.path.join(w.root, p), text)
    return [opt, p], p, fails


def prints(text, conf_cmd=True):
    """What the command said, without what may differ between modes."""
    out = []
    for ln in text.split("\n"):
        if ln.startswith("Elapsed time"):
            continue
        if conf_cmd and re.match(r"^\S*diffkemp-simpll .*--print-callstacks", ln):
            continue
        out.append(ln)
    return "\n".join(out)


def tree(d):
    res = {}
    for base, dirs, files in os.walk(d):
        for n in files:
            p = os.path.join(base, n)
            res[os.path.relpath(p, d)] = get(p)
    return res


def scenario(run):
    g, f = run.s.gen, run.s.fault
    groups = g.chance(45)
    w = cmp.Pair(run, run.ctx, groups=groups)
    sim = w.sim
    sim.shuffle_dirs = run.s.env.chance(50)
    pargs, want_pats = pattern_options(g)
    cargs, cpath, refused = custom(g, f, w, sim)
    front, opts = [], []
    verb, debug = g.weighted([(0, 6), (1, 2), (2, 1)]), g.weighted([(0, 7), (1, 1), (2, 1)])
    if verb:
        front += g.choice([["-v"] * verb, ["-" + "v" * verb], ["--verbose"] * verb])
    if debug:
        front += g.choice([["-d"] * debug, ["-" + "d" * debug], ["--debug"] * debug])
    verb = 1 + debug if verb or debug else 0
    want = {"patterns": want_pats, "custom": cpath, "callstacks": 1, "verbosity": verb}
    for key, flag, pct in (("ir", "--output-llvm-ir", 35), ("asm", "--print-asm-diffs", 40),
                           ("ext", "--extended-stat", 40)):
        want[key] = int(g.chance(pct))
        if want[key]:
            opts.append(flag)
    for flag, pct in (("--report-stat", 50), ("--show-errors", 50), ("--full-diff", 10), ("--no-show-diff", 10)):
        if g.chance(pct):
            opts.append(flag)
    opts = g.choice([opts + pargs + cargs, cargs + opts + pargs, pargs + cargs + opts])
    failed = {}
    exp = w.expected()
    for n in sorted({n for fs in exp.values() for n, a in fs.items() if a is not None}):
        if f.chance(8):
            failed[n] = f.choice(["empty", "garbage", "incomplete"])
    w.engine.fault = dict(failed)
    w.engine.honour_cache = g.chance(50)
    if g.chance(4) and w.list:
        w.engine.big = {g.choice(w.list)[1]}
    if want["ir"] and f.chance(25):
        # the tool that tidies up the simplified modules fails for one of them
        bad, kind = f.choice(w.prog.files)[:-2], f.choice(["error", "killed", "missing"])
        side = f.choice(["old", "new"])
        if kind == "missing" and cpath:
            kind = "error"
        tool = sim.programs["opt"]
        if kind == "missing":
            del sim.programs["opt"]
        else:
            def p_opt(sim, call):
                if any(os.path.join(w.root, a).startswith("%s/%s/%s-" % (w.root, side, bad)) for a in call.argv):
                    return 1 if kind == "error" else -9
                return tool(sim, call)
            sim.programs["opt"] = p_opt
        sim.count_fault("opt-" + kind)
        for n, fn in w.prog.funs.items():
            if kind == "missing" or fn.file[:-2] == bad:
                failed.setdefault(n, "opt-" + kind)
    rel = g.chance(50)
    old, new = ("old", "new") if rel else (w.old, w.new)
    todir = g.chance(60)
    before = [tree(w.old), tree(w.new)]
    order = list(MODES)
    g.shuffle(order)
    got = {}
    for mode, flags in order:
        w.engine.confs.clear()
        w.engine.calls.clear()
        sim.children_log.clear()
        o = opts + flags
        if g.chance(50):
            o = flags + opts
        argv = front + ["compare", old, new] + o + (["-o", "out"] if todir else ["--stdout"])
        p = w.cli(argv, mode)
        confs = [c for c in w.engine.confs if c[0] != "preprocess"]
        confs += [c["extra"] for c in sim.children_log if c.get("extra")]
        pre = [c[2] for c in w.engine.confs if c[0] == "preprocess"]
        after = [tree(w.old), tree(w.new)]
        extra = [{n: b for n, b in a.items() if n not in x} for a, x in zip(after, before)]
        for a, x, d in zip(after, before, extra):
            if {n: b for n, b in a.items() if n not in d} != x:
                raise Violation(ID + "/snapshot", "files of the snapshot were changed in mode %s" % mode)
        for root, d in ((w.old, extra[0]), (w.new, extra[1])):
            for n in d:
                R.unlink(os.path.join(root, n))
        res = tree(w.root + "/out")
        if os.path.isdir(w.root + "/out"):
            proj.rmtree(w.root + "/out")
        got[mode] = {"p": p, "confs": confs, "pre": pre, "ir": extra, "res": res,
                     "said": prints(p.stdout())}
    run.state((sorted(opts), want["patterns"], groups, verb, sorted(failed.items())))
    run.sample = {"argv": argv, "want": want, "rc": {m: x["p"].rc for m, x in got.items()},
                  "calls": {m: [(c[0], c[1]) for c in x["confs"]] for m, x in got.items()}}
    for mode, x in got.items():
        run.count(mode, len(x["confs"]))
    # refused patterns
    rcs = {m: x["p"].rc for m, x in got.items()}
    if refused:
        if 0 in rcs.values():
            raise Violation(ID + "/patterns-refused", "custom patterns %s that cannot be used are accepted: %s" % (
                cargs, rcs))
        if any(x["confs"] for x in got.values()):
            raise Violation(ID + "/patterns-refused", "functions are compared in spite of wrong custom patterns")
        return
    for m, x in got.items():
        if x["p"].rc != 0:
            raise Violation(ID + "/crash", "the comparison failed in mode %s: rc %s %s" % (
                m, x["p"].rc, x["p"].stderr()[-700:]))
    run.nontrivial = all(x["confs"] for x in got.values())
    # what the engine was asked for
    vars_ = {}
    for gr, fs in exp.items():
        for n, a in fs.items():
            if a is not None:
                vars_.setdefault(n, []).append(w.vars[(gr, n)] or "")
    for m, x in got.items():
        seen = {}
        for mode, n, c in x["confs"]:
            if mode != m and not (m == "modules" and mode == "ffi"):
                raise Violation(ID + "/mode", "%s was compared through %s in mode %s" % (n, mode, m))
            seen.setdefault(n, []).append(c["var"])
            for k, v in want.items():
                if k == "patterns":
                    bad = {q: c[k].get(q) for q in v if c[k].get(q) != v[q]}
                    if bad or set(c[k]) != set(v):
                        raise Violation(ID + "/option-patterns", "with %s, %s is compared in mode %s with patterns "
                                        "%s instead of %s" % (pargs, n, m, bad, {q: v[q] for q in bad}))
                elif k == "custom" and v:
                    if not c[k] or os.path.join(w.root, c[k]) != os.path.join(w.root, v):
                        raise Violation(ID + "/option-custom", "%s is compared in mode %s with the custom patterns %r "
                                        "instead of %r" % (n, m, c[k], v))
                elif c[k] != v:
                    raise Violation(ID + "/option-" + k, "%s is compared in mode %s with %s = %r instead of %r" % (
                        n, m, k, c[k], v))
        if {n: sorted(v) for n, v in seen.items()} != {n: sorted(v) for n, v in vars_.items()}:
            raise Violation(ID + "/functions", "functions and variables given to the engine in mode %s: %s instead "
                            "of %s" % (m, seen, vars_))
        for c in x["pre"]:
            b = {q: v for q, v in c.items()}
            camel = {re.sub(r"(?<!^)([A-Z])", r"-\1", q).lower(): v for q, v in b.items()}
            if camel != want["patterns"]:
                raise Violation(ID + "/option-preprocess", "modules are preprocessed with %s instead of %s" % (
                    camel, want["patterns"]))
    # the output of the simplified modules
    irs, must = [set(), set()], [set(), set()]
    if want["ir"]:
        for gr, fs in exp.items():
            for n, a in fs.items():
                if a is not None:
                    ll = w.prog.funs[n].file[:-2] + "-%s.ll" % (w.vars[(gr, n)] or "simpl")
                    for v in (0, 1):
                        irs[v].add(ll)
                        if n not in failed:
                            must[v].add(ll)
    for m, x in got.items():
        for v in (0, 1):
            if not must[v] <= set(x["ir"][v]) <= irs[v]:
                raise Violation(ID + "/llvm-ir", "simplified modules %s are made in mode %s instead of %s" % (
                    sorted(x["ir"][v]), m, sorted(irs[v])))
    # the modes agree
    a = got["ffi"]
    for m in ("binary", "modules"):
        b = got[m]
        if a["said"] != b["said"]:
            raise Violation(ID + "/modes-output", "mode %s says\n%s\ninstead of\n%s" % (
                m, b["said"][-600:], a["said"][-600:]))
        if a["res"] != b["res"]:
            raise Violation(ID + "/modes-results", "results of mode %s differ in %s" % (
                m, sorted(n for n in set(a["res"]) | set(b["res"]) if a["res"].get(n) != b["res"].get(n))))
        if a["ir"] != b["ir"]:
            raise Violation(ID + "/modes-llvm-ir", "simplified modules of mode %s differ in %s" % (
                m, [sorted(n for n in p if p[n] != q.get(n)) for p, q in zip(a["ir"], b["ir"])]))
    # and are right
    orc = report.Oracle(w, full="--full-diff" in opts, show="--no-show-diff" not in opts, failed=failed)
    kinds = {k: orc.want_of(k)[0] for k in orc.exp}
    if verb:
        return
    try:
        said = "\n".join(ln for ln in a["p"].stdout().split("\n") if "pattern file" not in ln)
        r = report.parse_stdout(said, old, new, {k[0] for k in orc.exp})
    except report.Bad as e:
        raise Violation(ID + "/output", str(e))
    for k, kind in kinds.items():
        if kind in ("unknown", "error") and r.funs.get(k) != kind:
            raise Violation(ID + "/verdict", "%s is %s, reported: %s" % (k, kind, r.funs.get(k)))
    names = {k for k, v in r.funs.items() if not isinstance(v, str)}
    if todir:
        names = {(None if "/" not in n else n.split("/")[0], n.split("/")[-1][:-5]) for n in a["res"]
                 if n.endswith(".diff")}
    if "--full-diff" not in opts and names != {k for k, v in kinds.items() if v == "not-equal"}:
        raise Violation(ID + "/verdict", "%s are reported as not equal instead of %s" % (
            sorted(names, key=str), sorted((k for k, v in kinds.items() if v == "not-equal"), key=str)))
