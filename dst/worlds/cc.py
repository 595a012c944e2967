"""World of the compiler wrapper: a parallel make whose every compiler call is
a simulated process running the real cc_wrapper.py as its main program, with
simulated gcc, clang and llvm-link."""
import os
import re

from .. import core
from ..core import R, Violation

WRAPPER = None


def wrapper_code():
    global WRAPPER
    if WRAPPER is None:
        import diffkemp.building.cc_wrapper as m
        path = os.path.abspath(m.__file__)
        with R.bopen(path) as f:
            WRAPPER = (path, compile(f.read(), path, "exec"))
    return WRAPPER


def env_names():
    import diffkemp.building.cc_wrapper as m
    return m.wrapper_env_vars


class Job:
    def __init__(self, jid, kind, argv, cwd, deps, native, ir, irkind, srcs):
        self.jid = jid
        self.kind = kind          # compile / link / ldr / conftest / pp / cl
        self.argv = argv          # without the program name
        self.cwd = cwd
        self.deps = deps
        self.native = native      # native outputs (absolute)
        self.ir = ir              # IR files to be produced (absolute)
        self.irkind = irkind      # 'o' / 'f' / None: not recorded
        self.srcs = srcs
        self.proc = None
        self.skipped = False
        self.gcc = []             # ExecCalls
        self.irtool = []
        self.order = []
        self.produced = []        # IR files produced by an IR tool of this job


DIRS = ["", "lib", "src", "src/core", "a b", "v1:2", "\u017elu"]


class World:
    def __init__(self, run, sub="w"):
        self.run = run
        self.g = run.s.gen
        self.sim = run.sim(sub)
        self.root = self.sim.root
        self.src = self.root + "/proj"
        self.tmp = self.root + "/tmp"
        self.db = self.tmp + "/diffkemp-wdb"
        self.jobs = []
        self.objs = []            # (abs path of .o, job)
        self.clang = "clang"
        self.link = "llvm-link"
        self.files = {}
        self.append = []
        self.drop = []
        self.tool_fault = {}      # (job id, "gcc"|"ir") -> kind
        self.sim.programs["gcc"] = self.gcc
        self.sim.programs["clang"] = self.ir_tool
        self.sim.programs["llvm-link"] = self.ir_tool

    # -- generation ------------------------------------------------------
    def write(self, path, text):
        R_mk(os.path.dirname(path))
        with R.bopen(path, "w") as f:
            f.write(text)

    def rel(self, path, cwd):
        """A way a makefile may spell a path."""
        k = self.g.choose(4)
        if k == 0 or k == 1:
            return os.path.relpath(path, cwd)
        if k == 2:
            return path
        return os.path.join(".", os.path.relpath(path, cwd))

    def generate(self, njobs):
        g = self.g
        ndirs = 1 + g.choose(3)
        dirs = [self.src]
        for _ in range(ndirs):
            dirs.append(os.path.normpath(os.path.join(self.src, g.choice(DIRS))))
        for d in dirs:
            R_mk(d)
        ntu = max(1, njobs - njobs // 3)
        for i in range(ntu):
            d = g.choice(dirs)
            ext = g.weighted([(".o", 8), (".lo", 1), (".ko", 1)])
            name = "f%d" % i
            src = os.path.join(d, name + ".c")
            self.write(src, "int fn_%d(void) { return %d; }\n" % (i, i))
            cwd = g.choice([d, self.src])
            mode = g.weighted([("o", 8), ("noout", 2), ("multi", 1), ("joined", 1)])
            pre = []
            for _ in range(g.weighted([(0, 6), (1, 3), (3, 1)])):
                pre += g.choice([["-O2"], ["-Wall"], ["-DX=1"], ["-DX=10"], ["-Iinclude"], ["-fno-strict"], ["-g"],
                                 ["-UX"], ["-D", "Y=2"], ["-I", "include"], ["-std=gnu11"], ["-fno-strict-aliasing"]])
            if mode == "joined":
                out = os.path.join(g.choice(dirs), name + ext)
                argv = pre + ["-c", "-o" + self.rel(out, cwd), self.rel(src, cwd)]
                native, ir = [out], [os.path.splitext(out)[0] + ".ll"]
                kind = "compile"
            elif mode == "o":
                out = os.path.join(g.choice(dirs), name + ext)
                o = ["-o", self.rel(out, cwd)]
                s = [self.rel(src, cwd)]
                argv = g.choice([["-c"] + o + s, o + ["-c"] + s, ["-c"] + s + o, s + ["-c"] + o])
                k = g.choose(len(argv) + 1)
                if k == 0 or argv[k - 1] != "-o":
                    argv = argv[:k] + pre + argv[k:]
                else:
                    argv = pre + argv
                native, ir = [out], [os.path.splitext(out)[0] + ".ll"]
                kind = "compile"
            else:
                srcs = [src]
                if mode == "multi":
                    src2 = os.path.join(d, name + "x.c")
                    self.write(src2, "int fn_%dx(void) { return %d; }\n" % (i, i))
                    srcs.append(src2)
                argv = pre + ["-c"] + [self.rel(s, cwd) for s in srcs]
                bases = [os.path.join(cwd, os.path.basename(s)[:-2]) for s in srcs]
                native = [b + ".o" for b in bases]
                ir = [b + ".ll" for b in bases]
                out = native[0]
                kind = "compile"
            if g.chance(25):
                # dependency files generated by the native compiler
                dep = os.path.splitext(native[0])[0] + ".d"
                k = g.choose(4) if mode != "multi" else 1
                if k == 0:
                    argv = [g.choice(["-MD", "-MMD"])] + argv
                elif k == 1:
                    dep = os.path.join(cwd, "." + name + ".dep")
                    argv = argv + ["-MD", "-MF", self.rel(dep, cwd)]
                elif k == 2:
                    dep = os.path.join(cwd, "." + name + ".Tpo")
                    argv = ["-MT", name + ".o", "-MMD", "-MP", "-MF" + self.rel(dep, cwd)] + argv
                else:
                    dep = os.path.join(cwd, "." + name + ".o.d")
                    argv = ["-Wp,-MD," + self.rel(dep, cwd)] + argv
                native.append(dep)
            j = Job(i, kind, argv, cwd, [], native, ir, "o" if kind == "compile" else None,
                    [src])
            self.jobs.append(j)
            for n in native:
                if n.endswith((".o", ".lo", ".ko")):
                    self.objs.append((n, j))
        rest = njobs - ntu
        for k in range(rest):
            jid = ntu + k
            cwd = self.src
            kind = g.weighted([("link", 5), ("conftest", 1), ("ldr", 1), ("pp", 1),
                               ("cl", 1), ("hybrid", 1), ("query", 1)])
            if kind == "link":
                objs = g.sample(self.objs, 1 + g.choose(len(self.objs)))
                out = os.path.join(self.src, "prog%d" % jid)
                argv = [self.rel(o, cwd) for o, _ in objs]
                if g.chance(50):
                    argv = argv + ["-o", self.rel(out, cwd)]
                else:
                    argv = ["-o", self.rel(out, cwd)] + argv
                if g.chance(40):
                    argv.append(g.choice(["-lm", "-L.", "-pthread"]))
                j = Job(jid, "link", argv, cwd, sorted({jb.jid for _, jb in objs}), [out],
                        [out + ".llw"], "f", [o for o, _ in objs])
            elif kind == "ldr":
                objs = g.sample(self.objs, 1 + g.choose(len(self.objs)))
                out = os.path.join(self.src, "part%d.o" % jid)
                j = Job(jid, "ldr", ["-r", "-o", self.rel(out, cwd)] + [self.rel(o, cwd) for o, _ in objs],
                        cwd, sorted({jb.jid for _, jb in objs}), [out], [], None, [])
            elif kind == "conftest" and not os.path.exists(self.src + "/conftest.c"):
                self.write(self.src + "/conftest.c", "int main(void) { return 0; }\n")
                if g.chance(50):
                    argv, native = ["-c", "conftest.c"], [self.src + "/conftest.o"]
                else:
                    argv, native = ["-o", "conftest", "conftest.c"], [self.src + "/conftest"]
                j = Job(jid, "conftest", argv, cwd, [], native, [], None, [])
            elif kind == "query":
                src = os.path.join(self.src, "q%d.c" % jid)
                self.write(src, "int fn_%d(void) { return 0; }\n" % jid)
                argv = g.choice([["-dumpmachine"], ["-v"], ["-print-file-name=include"],
                                 ["--version"], ["-M", self.rel(src, cwd)],
                                 ["-MM", "-Iinclude", self.rel(src, cwd)],
                                 ["-E", "-P", self.rel(src, cwd)]])
                j = Job(jid, "query", argv, cwd, [], [], [], None, [])
            elif kind == "pp":
                src = os.path.join(self.src, "g%d.c" % jid)
                self.write(src, "int fn_%d(void) { return 0; }\n" % jid)
                out = os.path.join(self.src, "g%d.%s" % (jid, g.choice(["i", "s", "out"])))
                flag = {"i": "-E", "s": "-S", "out": "-E"}[out.rsplit(".", 1)[1]]
                j = Job(jid, "pp", [flag, "-c", self.rel(src, cwd), "-o", self.rel(out, cwd)],
                        cwd, [], [out], [], None, [])
            elif kind in ("cl", "conftest"):
                src = os.path.join(self.src, "g%d.c" % jid)
                self.write(src, "int fn_%d(void) { return 0; }\n" % jid)
                out = os.path.join(self.src, "tool%d" % jid)
                j = Job(jid, "cl", ["-O2", self.rel(src, cwd), "-o", self.rel(out, cwd)], cwd, [],
                        [out], [out + ".llw"], "o", [src])
            else:
                src = os.path.join(self.src, "g%d.c" % jid)
                self.write(src, "int fn_%d(void) { return 0; }\n" % jid)
                out = os.path.join(self.src, "hyb%d" % jid)
                o, jb = g.choice(self.objs)
                j = Job(jid, "hybrid", [self.rel(src, cwd), self.rel(o, cwd), "-o", self.rel(out, cwd)],
                        cwd, [jb.jid], [out], [out + ".llw"], "o", [src])
            self.jobs.append(j)

    # -- the simulated tools ------------------------------------------------
    def job_of(self, call):
        return call.proc.job

    def gcc(self, sim, call):
        job = self.job_of(call)
        job.order.append("gcc")
        job.gcc.append((list(call.argv), call.cwd, dict(call.env)))
        fault = self.tool_fault.get((job.jid, "gcc"))
        if fault:
            sim.count_fault("gcc-" + str(fault))
            return -9 if fault == "killed" else 1
        if job.kind == "query":
            call.stdout = ("gcc says %d\n" % job.jid).encode()
        for i, n in enumerate(job.native):
            with open(n, "wb") as f:
                f.write(("NATIVE %d %d\n" % (job.jid, i)).encode())
        call.duration = 0.1
        return 0

    def ir_tool(self, sim, call):
        """clang (to IR) and llvm-link, as far as the wrapper uses them."""
        job = self.job_of(call)
        prog = call.prog
        job.order.append("ir")
        job.irtool.append((prog, list(call.argv), call.cwd))
        fault = self.tool_fault.get((job.jid, "ir"))
        argv = call.argv[1:]
        if prog == "clang" and job.kind == "query":
            call.stdout = b"clang says\n"
        out = None
        ins = []
        deps = [x for x in argv if x in ("-MD", "-MMD") or x.startswith("-Wp,-MD,")]
        i = 0
        comp = "-c" in argv
        while i < len(argv):
            a = argv[i]
            if a == "-o":
                out = argv[i + 1] if i + 1 < len(argv) else None
                i += 2
                continue
            if a in ("-MF", "-MT", "-MQ"):
                if a == "-MF" and i + 1 < len(argv):
                    deps.append("," + argv[i + 1])
                i += 2
                continue
            if a in ("-D", "-I"):
                i += 2
                continue
            if a.startswith("-o"):
                out = a[2:]
            elif a.startswith("-MF"):
                deps.append("," + a[3:])
            elif a and not a.startswith("-"):   # clang ignores empty arguments
                ins.append(a)
            i += 1
        if not ins or (out is None and "-o" in argv):
            return 1
        for x in ins:
            if not os.path.exists(x):
                call.stderr = ("no such file: %s\n" % x).encode()
                return 1
        if prog == "clang":
            if "-S" not in argv or "-emit-llvm" not in argv:
                # produces a native object: overwrites what gcc made
                outs = [out or os.path.basename(ins[0])[:-2] + ".o"]
            elif out is not None:
                if len([x for x in ins if x.endswith(".c")]) > 1:
                    return 1
                outs = [out]
            else:
                outs = [os.path.basename(x).rsplit(".", 1)[0] + ".ll" for x in ins]
        else:
            if out is None:
                outs = []
            else:
                outs = [out]
        if fault:
            sim.count_fault("irtool-" + str(fault))
            if fault == "partial" and outs:
                with open(outs[0], "wb") as f:
                    f.write(b"; trunc")
                return -11
            return -9 if fault == "killed" else 1
        text = []
        for x in ins:
            with open(x, "rb") as f:
                text.append(f.read().decode("utf-8", "replace"))
        if prog == "clang":
            text = [re.sub(r"int (\w+)\(void\) \{ return (\d+); \}",
                           r"define i32 @\1() {\n  ret i32 \2\n}", t) for t in text]
        if prog == "clang" and deps and outs:
            d = [x.rsplit(",", 1)[1] for x in deps if "," in x]
            with open(d[-1] if d else os.path.splitext(outs[0])[0] + ".d", "wb") as f:
                f.write(b"deps of the IR")
        for k, o in enumerate(outs):
            body = text[k] if len(outs) > 1 else "".join(text)
            with open(o, "wb") as f:
                f.write(("; IR by %s\n" % prog + body).encode())
            job.produced.append(os.path.normpath(os.path.join(call.cwd, o)))
        call.duration = 0.1
        return 0

    # -- running ----------------------------------------------------------
    def environ(self):
        n = env_names()
        e = {k.encode(): v.encode() for k, v in {
            "PATH": "/usr/bin", "HOME": self.root, "LANG": "C",
            n["db_filename"]: self.db, n["clang"]: self.clang,
            n["clang_append"]: ",".join(self.append), n["clang_drop"]: ",".join(self.drop),
            n["llvm_link"]: self.link}.items()}
        return e

    def make(self, jobs, slots):
        """All of jobs, at most `slots` at a time, as make -jN would."""
        sim = self.sim
        path, code = wrapper_code()
        running = set()
        by = {j.jid: j for j in jobs}
        procs = []
        for j in jobs:
            p = sim.new_proc("j%d" % j.jid, j.cwd, self.environ())
            p.job = j
            j.proc = p
            j.finished = False

            def ready(j=j):
                return len(running) < slots and all(
                    by[d].finished for d in j.deps if d in by)
            p.blocked = ready

            def body(j=j, p=p):
                p.blocked = None
                running.add(j.jid)
                try:
                    if any(by[d].rc != 0 for d in j.deps if d in by):
                        j.skipped = True
                        return
                    g = {"__name__": "__main__", "__file__": path, "__builtins__": __builtins__}
                    exec(code, g)
                finally:
                    if sim.child_mode is None:
                        running.discard(j.jid)

            def whole(body=body, j=j, p=p):
                j.rc = 1
                try:
                    body()
                    j.rc = 2 if j.skipped else 0
                except SystemExit as e:
                    c = e.code
                    j.rc = 0 if c is None else c if isinstance(c, int) else 1
                    raise
                finally:
                    j.finished = True
            sim.spawn(p, whole, [path] + list(j.argv))
            procs.append(p)
        sim.run_threads(procs)
        for j in jobs:
            if j.proc.crashed:
                j.rc = -9
        return procs

    def db_lines(self):
        if not os.path.exists(self.db):
            return b""
        with R.bopen(self.db, "rb") as f:
            return f.read()


def R_mk(d):
    os.makedirs(d, exist_ok=True)
