"""C03: a snapshot holds every requested symbol exactly once, mapped right,
and a failing tool affects only the symbols of its own unit."""
import os

from .. import core
from ..core import Violation
from ..worlds import proj, sysctl

ID = "C03"
RULE = ("a run counts if the snapshot was generated with at least two symbols, and either a tool "
        "fault was injected or symbols of different kinds were asked for; distinct by trace digest")
STATES = "distinct (kind, symbol -> mapping, faults) vectors"
REAL = ["diffkemp/cli.py", "diffkemp/diffkemp.py build*, llvm_to_snapshot, generate_from_*",
        "diffkemp/snapshot.py", "diffkemp/llvm_ir/*", "diffkemp/building/cc_wrapper.py", "sed"]
STUB = ["make, gcc, clang, opt, llvm-link, llvm-config, cscope (file-level models)",
        "SimpLL engine (sysctl tables answered from the toy IR)"]
ASSUMPTIONS = ["toy C and toy IR have the shape of the real ones (define/declare/DIFile lines)"]
RUNS = {"quick": (2200, 40), "thorough": (60000, 700)}
ENGINE = None
OLD = [(None, "old_fn", "old/file.ll")]


def setup(ctx, tier):
    import diffkemp.cli          # noqa: F401
    import pkg_resources
    pkg_resources.require("diffkemp")
    from ..worlds import cc
    cc.wrapper_code()
    from diffkemp.llvm_ir.llvm_module import LlvmModule
    core.stable_hash(LlvmModule)


def scenario(run):
    g, f = run.s.gen, run.s.fault
    kind = g.weighted([("make", 3), ("kernel", 4), ("single", 1), ("llvm", 1), ("sysctl", 3)])
    w = proj.World(run)
    sim = w.sim
    if kind == "sysctl":
        return sysctl.scenario(run, w, ID)
    w.generate(1 + g.choose(5) if kind not in ("single",) else 1, kernel=kind == "kernel",
               shared_static=True)
    if kind in ("single", "llvm"):
        w.units = w.units[:1]
    if kind == "single":
        w.units[0].incs = []
        w.write_unit(w.units[0])
    if g.chance(20):
        w.outside_headers()
        for u in w.units:
            w.write_unit(u)
    w.orig_sources = proj.tree(w.src)
    rel = g.chance(50)
    cwd = w.root

    def arg(p):
        return os.path.relpath(p, cwd) if rel else p
    defs = w.functions()
    names = []
    for n in sorted(defs):
        if not n.startswith(("hf_", "of_")) and g.chance(80):
            names.append(n)
    extra = []
    for u in w.units:
        for v in u.globs:
            if g.chance(50):
                extra.append(v)
    if g.chance(50):
        extra.append("undefined_fn")
    if g.chance(20):
        extra.append("__tracepoint_undefined")
    names += extra
    if names and g.chance(30):
        names.append(g.choice(names))
    g.shuffle(names)
    # faults
    aborts = False
    if kind == "kernel":
        for u in w.units:
            if f.chance(30):
                t, k = f.choice([("clang", "error"), ("make", "error"), ("clang", "killed"),
                                 ("make", "no-gcc"), ("opt", "error"), ("opt", "late-error"),
                                 ("opt", "killed"), ("make", "killed")])
                w.fault[(t, u.path)] = k
        for n in names:
            if f.chance(4):
                w.fault[("cscope-query", n)] = "error"
    elif kind == "make":
        for u in w.units:
            if f.chance(25):
                w.fault[("clang", u.path)] = f.choice(["error", "killed"])
            elif f.chance(4):
                w.fault[("gcc", u.path)] = f.choice(["error", "killed"])
                aborts = True
        if f.chance(10):
            w.fault[("make-clean", None)] = "error"
        w.link = g.chance(50)
        w.noout = {u.path for u in w.units if g.chance(15)}
    elif kind == "single":
        if f.chance(15):
            w.fault[("clang", w.units[0].path)] = "error"
            aborts = True
    if g.chance(30):
        # a previous snapshot is in the output directory
        proj.put(w.snap + "/snapshot.yaml", "- {list_kind: function, list: "
                 "[{name: old_fn, llvm: old/file.ll}]}\n")
        proj.put(w.snap + "/old/file.ll", "; old\n")
    text = proj.symbol_text(g, names)
    symfile = w.root + "/symbols"
    proj.put(symfile, text)
    symbols = proj.valid_symbols(text)
    nolist = False
    if kind == "make":
        nolist = g.chance(25)
        argv = ["build", arg(w.src), arg(w.snap)] + ([] if nolist else [arg(symfile)]) + \
            ["--no-native-cc-wrapper"]
    elif kind == "single":
        nolist = g.chance(25)
        argv = ["build", arg(os.path.join(w.src, w.units[0].path)), arg(w.snap)] + (
            [] if nolist else [arg(symfile)])
        # the source directory of a single file is the file's directory
        w.src = os.path.dirname(os.path.join(w.src, w.units[0].path))
        w.units[0].path = os.path.basename(w.units[0].path)
        for fk in list(w.fault):
            w.fault[(fk[0], w.units[0].path)] = w.fault.pop(fk)
        w.fix_single()
        defs = w.functions()
    elif kind == "llvm":
        u = w.units[0]
        ir = proj.toy_ir(u.path, w.src, w.rd, {"D": [], "I": []})
        proj.put(os.path.join(w.src, u.path[:-2] + ".ll"), ir)
        argv = ["llvm-to-snapshot", arg(w.src), u.path[:-2] + ".ll", arg(w.snap), arg(symfile)]
    else:
        argv = ["build-kernel", arg(w.src), arg(w.snap), arg(symfile)] + (
            ["--no-source-dir"] if g.chance(20) else [])
    sim.shuffle_dirs = run.s.env.chance(50)
    p = w.cli(argv)
    got = proj.snapshot_map(w.snap)
    run.sample = {"argv": argv, "symbols": symbols, "faults": {str(k): v for k, v in w.fault.items()},
                  "units": [[u.path, [x[0] for x in u.funs]] for u in w.units], "rc": p.rc,
                  "result": got}
    run.state((kind, got, sorted(map(str, w.fault.items()))))
    run.count(kind)
    run.nontrivial = len(symbols) > 1 and (bool(sim.faults_done) or bool(extra))
    if aborts or (kind in ("kernel", "llvm") and not symbols):
        if got not in (None, OLD) and aborts:
            raise Violation(ID + "/failed-build", "the native build failed, yet a snapshot was made: %s"
                            % got)
        if aborts and p.rc == 0:
            raise Violation(ID + "/failed-build-rc", "the native build failed, diffkemp returned 0")
        return
    if got in (None, OLD) and kind == "make" and p.rc != 0 and all(proj.unit_bad(w, u.path) for u in w.units):
        return                    # nothing was compiled
    if got is None:
        raise Violation(ID + "/no-snapshot", "no snapshot was generated for %s: rc %s %s\nfaults %s" % (
            argv, p.rc, p.stderr()[-500:], w.fault))
    if p.rc != 0:
        raise Violation(ID + "/rc", "diffkemp failed: %s" % p.stderr()[-500:])
    allow = {}
    if nolist:
        symbols = [n for n in defs if any(not proj.unit_bad(w, u) for u in defs[n])]
        # definitions from headers are in the IR of every includer
    if kind == "kernel":
        cq = {n for (t, n) in w.fault if t == "cscope-query"}
        for s in symbols:
            ok = {u for u in defs.get(s, ()) if not proj.unit_bad(w, u)}
            allow[s] = ok or {None}
            if s in cq:
                allow[s] = ok | {None}
    elif kind == "make":
        for s in symbols:
            ok = {u for u in defs.get(s, ()) if not proj.unit_bad(w, u)}
            allow[s] = ok or {None}
    else:
        for s in symbols:
            allow[s] = {u for u in defs.get(s, ())} or {None}
    proj.check_entries(w, got, symbols, allow, ID)
    proj.check_content(w, got, ID)
    run.count("symbols", len(symbols))
    # the snapshot can be loaded and gives the same mapping
    box = []

    def load():
        from diffkemp.snapshot import Snapshot
        s = Snapshot.load_from_dir(arg(w.snap))
        box.append({n: (d.mod.llvm if d.mod else None, d.mod.has_function(n) if d.mod else None)
                    for n, d in s.fun_groups[None].functions.items()} if s.fun_groups else {})
        s.finalize()
    q = sim.new_proc("load", cwd)
    sim.run_main(q, load)
    if q.rc != 0 or not box:
        raise Violation(ID + "/load", "the snapshot cannot be loaded: %s" % q.stderr()[-400:])
    for _, n, llvm in got:
        m = box[0].get(n)
        if m is None or (m[0] is None) != (llvm is None):
            raise Violation(ID + "/load-mapping", "%s: stored %s, loaded %s" % (n, llvm, m))
        if m[0] and os.path.normpath(os.path.join(cwd, m[0])) != os.path.normpath(
                os.path.join(w.snap, llvm)):
            raise Violation(ID + "/load-path", "%s: stored %s, loaded %s" % (n, llvm, m[0]))
        if m[0] and not m[1]:
            raise Violation(ID + "/load-def", "%s: %s does not define it" % (n, m[0]))
