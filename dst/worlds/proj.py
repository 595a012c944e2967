"""World of snapshot generation: toy C projects and kernel trees, with
simulated make, gcc, clang, opt, llvm-link, llvm-config and cscope."""
import json
import os
import re

from .. import core
from ..core import R, Violation
from . import cc

MARK = "; opt "


def mk(d):
    os.makedirs(d, exist_ok=True)


def put(path, text):
    mk(os.path.dirname(path))
    with R.bopen(path, "w") as f:
        f.write(text)


def get(path):
    with R.bopen(path, "rb") as f:
        return f.read()


def tree(root, skip=()):
    """{relative path: bytes} of all files below root."""
    out = {}
    for d, ds, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            rel = os.path.relpath(p, root)
            if any(rel == s or rel.startswith(s + "/") for s in skip):
                continue
            if os.path.islink(p):
                out[rel] = ("link:" + R.readlink(p)).encode()
            else:
                out[rel] = get(p)
    return out


HDR_GCC = """#ifndef CGCC
#define CGCC
#define asm_volatile_goto(x...)\tdo { asm goto(x); asm (""); } while (0)
#ifdef CONFIG_CC_HAS_ASM_INLINE
#define asm_inline asm __inline
#endif
#endif
"""
HDR_TYPES = """#ifndef CTYPES
#ifdef CONFIG_CC_HAS_ASM_INLINE
#define asm_inline2 asm __inline
#else
#define asm_inline2 asm
#endif
#define asm_goto_output(x...) asm goto(x)
#define CTYPES
#endif
"""


class Unit:
    def __init__(self, path):
        self.path = path            # relative, .c
        self.funs = []              # (name, static, callees, version)
        self.globs = []
        self.incs = []
        self.extra = []
        self.uses = {}              # function -> global variables it uses

    def text(self):
        out = ["/* %s */" % self.path]
        for h in self.incs:
            out.append('#include "%s"' % h)
        for gname in self.globs:
            out.append("int %s = 1;" % gname)
        for name, static, callees, ver in self.funs:
            body = " + ".join(["x", str(ver)] + ["%s(x)" % c for c in callees] + list(self.globs[:1]) +
                              self.uses.get(name, []))
            out.append("%sint %s(int x) { return %s; }" % ("static " if static else "", name, body))
        out += self.extra
        return "\n".join(out) + "\n"


FN = re.compile(r"^(static )?(?:inline )?int (\w+)\(int x\) \{ return (.*); \}$", re.M)
GV = re.compile(r"^int (\w+) = (\d+);$", re.M)
INC = re.compile(r'^#include "([^"]+)"', re.M)


def toy_ir(src_arg, cwd, rd, flags):
    """IR text the toy clang makes of a toy C file; rd reads a file."""
    text = rd(os.path.join(cwd, src_arg))
    if "#error" in text:
        return None
    incs, bodies, files = [], [text], [os.path.normpath(os.path.join(cwd, src_arg))]
    for h in INC.findall(text):
        for base in [cwd] + [os.path.join(cwd, i) for i in flags.get("I", [])] + \
                [os.path.dirname(os.path.join(cwd, src_arg))]:
            p = os.path.normpath(os.path.join(base, h))
            if os.path.exists(p):
                incs.append(os.path.relpath(p, cwd) if p.startswith(cwd + "/") else p)
                bodies.append(rd(p))
                files.append(p)
                break
        else:
            return None
    out = ["; ModuleID = '%s'" % src_arg, 'source_filename = "%s"' % src_arg,
           "; flags %s" % " ".join(flags.get("D", [])),
           '@.str.f = private constant [8 x i8] c"%s/x\\00"' % cwd]
    decl, defd = [], set()
    for b, file in reversed(list(zip(bodies, files))):
        for name, val in GV.findall(b):
            out.append("@%s = dso_local global i32 %s, align 4" % (name, val))
        for m in FN.finditer(b):
            st, name, body = m.groups()
            if name in defd:
                continue
            line = b.count("\n", 0, m.start()) + 1
            defd.add(name)
            out.append("define %s i32 @%s(i32 %%0) #0 !dbg !9 {" %
                       ("internal" if st else "dso_local", name))
            out.append("  ; at %s:%d" % (file, line))
            for c in body.split(" + "):
                if c.endswith("(x)"):
                    out.append("  %%c = call i32 @%s(i32 %%0) ; line %d" % (c[:-3], line))
                    decl.append(c[:-3])
                elif c != "x":
                    out.append("  ; term %s" % c)
            out.append("}")
    for b in bodies:
        out += ["; T " + t for t in re.findall(r"^/\*T (.*)\*/$", b, re.M)]
    for c in sorted(set(decl) - defd):
        out.append("declare i32 @%s(i32)" % c)
    for i, p in enumerate([src_arg] + incs):
        if os.path.isabs(p):
            out.append('!%d = !DIFile(filename: "%s", directory: "%s")' % (i + 1, p, cwd))
        else:
            out.append('!%d = !DIFile(filename: "%s", directory: "%s")' % (i + 1, p, cwd))
    return "\n".join(out) + "\n"


class World:
    """One project directory with its simulated tool chain."""

    def __init__(self, run, sub="w", sim=None, **kw):
        self.run = run
        self.g = run.s.gen
        if sub == "w" and self.g.chance(15):
            # the project may be anywhere
            sub = self.g.choice(["tmp/w", "w-tmp", "scripts/w", "Documentation/w", "a b", "k+[1]", "\u017elu\u0165"])
        self.sim = sim or run.sim(sub, **kw)
        self.root = self.sim.root
        self.src = self.root + "/src"
        self.snap = self.root + "/snap"
        self.units = []
        self.headers = {}
        self.outside = {}
        self.fault = {}          # (tool, unit path) -> kind
        self.tool_log = []
        self.llvm_version = "16.0.6"
        s = self.sim
        for name in ("make", "gcc", "clang", "opt", "llvm-link", "llvm-config", "cscope", "sh"):
            s.programs[name] = getattr(self, "p_" + name.replace("-", "_"))
        s.real_programs.add("sed")

    # -- generation --------------------------------------------------------
    def generate(self, nunits, kernel=False, shared_static=True):
        self.generate_units(nunits, kernel, shared_static)
        self.write_all()

    def generate_units(self, nunits, kernel=False, shared_static=True):
        g = self.g
        self.kernel = kernel
        dirs = ["", "kernel", "mm", "drivers/net"] if kernel else ["", "lib", "src/core"]
        nh = g.choose(3)
        names = []
        for i in range(nh):
            h = "include/h%d.h" % i
            self.headers[h] = "static inline int hf_%d(int x) { return x + %d; }\n" % (i, i)
        for i in range(nunits):
            d = g.choice(dirs)
            base = "u%d.c" % i
            if i and g.chance(30):
                # the base name of another unit, in another directory
                base = os.path.basename(g.choice(self.units).path)
                free = [x for x in dirs if not any(u.path == os.path.join(x, base) for u in self.units)]
                if free:
                    d = g.choice(free)
                else:
                    base = "u%d.c" % i
            elif g.chance(15):
                base = g.choice(["u%d-x.c", "u%d.y.c", "u%d_c.c"]) % i
            u = Unit(os.path.join(d, base))
            for k in range(1 + g.choose(3)):
                n = "fn_%d_%d" % (i, k)
                if names and g.chance(20):
                    # a name that contains another name
                    n = g.choice(["%s_x", "x_%s", "_%s", "%s1"]) % g.choice(names)
                    if n in names:
                        n = "fn_%d_%d" % (i, k)
                u.funs.append([n, False, [], 1])
                names.append(n)
            if g.chance(30):
                u.globs.append("gv_%d" % i)
            if shared_static and g.chance(15):
                u.funs.append(["shared_helper", True, [], i])
            for h in self.headers:
                if g.chance(40):
                    u.incs.append(h)
            self.units.append(u)
        for u in self.units:
            for f in u.funs:
                for _ in range(g.choose(3)):
                    c = g.choice(names)
                    if c != f[0] and c not in f[2]:
                        f[2].append(c)
        if kernel:
            which = g.weighted([(3, 5), (1, 3), (2, 2)])
            if which & 1:
                self.headers["include/linux/compiler-gcc.h"] = HDR_GCC
            if which & 2:
                self.headers["include/linux/compiler_types.h"] = HDR_TYPES
            for u in self.units:
                if g.chance(50):
                    u.incs.append(sorted(h for h in self.headers if "compiler" in h)[0])

    def write_all(self):
        kernel = self.kernel
        mk(self.src)
        for u in self.units:
            self.write_unit(u)
        for h, t in self.headers.items():
            put(os.path.join(self.src, h), t)
        if kernel:
            put(self.src + "/Makefile", "# kernel\n")
            put(self.src + "/Documentation/d.c", "int fn_doc(int x) { return x; }\n")
            put(self.src + "/scripts/s.c", "int fn_scr(int x) { return x; }\n")
        self.stamp(self.src)

    def write_unit(self, u):
        put(os.path.join(self.src, u.path), u.text())

    def outside_headers(self):
        """Headers next to the source tree, with similar paths."""
        g = self.g
        out = [self.root + x for x in ("/src-common/o.h", "/src2/o.h", "/src.old/include/o.h",
                                       "/m" + self.src + "/o.h", "/osrc/o.h")]
        self.outside = {}
        for i, p in enumerate(out):
            if not g.chance(30):
                continue
            self.outside[p] = "static inline int of_%d(int x) { return x + %d; }\n" % (i, i)
            put(p, self.outside[p])
            for u in self.units:
                if g.chance(50):
                    u.incs.append(p)

    def stamp(self, d, t=None):
        """Give every file below d the simulated time (or t)."""
        t = self.sim.clock if t is None else t
        for r, ds, fs in os.walk(d):
            for f in fs:
                R.utime(os.path.join(r, f), ns=(int(t * 1e9),) * 2)

    def functions(self):
        """name -> set of unit paths defining it."""
        out = {}
        for u in self.units:
            for f in u.funs:
                out.setdefault(f[0], set()).add(u.path)
            for h in u.incs:
                for _, n, _ in FN.findall(self.headers.get(h) or self.outside[h]):
                    out.setdefault(n, set()).add(u.path)
        return out

    def fix_single(self):
        """After src became the directory of the only unit."""
        base = self.root + "/src"
        sub = os.path.relpath(self.src, base)
        self.orig_sources = {os.path.relpath(os.path.join(base, k), self.src): v
                             for k, v in self.orig_sources.items()}
        self.sub = sub

    def unit(self, path):
        path = os.path.normpath(path)
        best = None
        for u in self.units:
            if path == u.path:
                return u
            if path.endswith("/" + u.path) and (best is None or len(u.path) > len(best.path)):
                best = u
        return best

    # -- tools ----------------------------------------------------------------
    def use_fault(self, tool, unit):
        k = self.fault.get((tool, unit))
        if k:
            self.sim.count_fault("%s-%s" % (tool, k))
        return k

    @staticmethod
    def rd(p):
        with open(p, "rb") as f:
            return f.read().decode("utf-8", "replace")

    def out_file(self, path, text, kind):
        """Write a tool's output; killed: only a part of it."""
        if kind == "killed":
            text = text[:max(1, len(text) // 2)]
        data = text.encode()
        with open(path, "wb") as f:
            n = max(1, len(data) // 2)
            f.write(data[:n])
            f.flush()
            f.write(data[n:])

    def p_llvm_config(self, sim, call):
        call.stdout = (self.llvm_version + "\n").encode()
        return 0

    def p_clang(self, sim, call):
        argv = call.argv[1:]
        src = out = None
        flags = {"I": [], "D": []}
        i = 0
        while i < len(argv):
            a = argv[i]
            if a == "-o":
                out = argv[i + 1]
                i += 1
            elif a.startswith("-I"):
                flags["I"].append(a[2:])
            elif a.startswith("-D"):
                flags["D"].append(a)
            elif a.endswith(".c"):
                src = a
            i += 1
        if src is None or "-S" not in argv or "-emit-llvm" not in argv:
            return 1
        out = out or os.path.basename(src)[:-2] + ".ll"
        u = self.unit(os.path.join(call.cwd, src))
        k = self.use_fault("clang", u.path if u else None)
        self.tool_log.append(("clang", u.path if u else src))
        if not os.path.exists(src):
            return 1
        text = toy_ir(src, call.cwd, self.rd, flags)
        if text is None or k == "error":
            return 1
        self.out_file(out, text, k)
        return -9 if k == "killed" else 0

    def p_opt(self, sim, call):
        argv = call.argv[1:]
        f = argv[0]
        passes = [a for a in argv if a.startswith("-passes=")] or ["-passes=none"]
        out = argv[argv.index("-o") + 1] if "-o" in argv else None
        if not os.path.exists(f):
            return 1
        text = self.rd(f)
        u = self.unit_of_ir(text)
        self.tool_log.append(("opt", u))
        if "define" not in text and "global" not in text or "!1 = " not in text:
            return 1                      # not valid IR
        k = self.use_fault("opt", u)
        if k == "error":
            return 1
        line = MARK + passes[0][8:]
        if line not in text.split("\n"):
            text = text.rstrip("\n") + "\n" + line + "\n"
        if out is None:
            return 0
        if k == "late-error":
            os.remove(out)
            return 1
        self.out_file(out, text, k)
        return -9 if k == "killed" else 0

    def unit_of_ir(self, text):
        m = re.search(r'^!1 = !DIFile\(filename: "(.*)", directory: "(.*)"\)$', text, re.M)
        u = self.unit(os.path.join(m.group(2), m.group(1))) if m else None
        return u.path if u else None

    def p_llvm_link(self, sim, call):
        argv = call.argv[1:]
        out = argv[argv.index("-o") + 1] if "-o" in argv else None
        ins = [a for i, a in enumerate(argv) if not a.startswith("-") and argv[i - 1] != "-o"]
        text = ""
        for x in ins:
            if not os.path.exists(x):
                return 1
            text += self.rd(x)
        k = self.use_fault("llvm-link", None)
        if k == "error":
            return 1
        if out:
            self.out_file(out, text, k)
        return -9 if k == "killed" else 0

    def p_sh(self, sim, call):
        return 0

    def p_gcc(self, sim, call):
        argv = call.argv[1:]
        out = argv[argv.index("-o") + 1] if "-o" in argv else \
            os.path.basename(argv[-1])[:-2] + ".o"
        u = self.unit(os.path.join(call.cwd, argv[-1])) if argv[-1].endswith(".c") else None
        k = self.use_fault("gcc", u.path if u else None)
        if k:
            return -9 if k == "killed" else 1
        if u is not None and "#error" in self.rd(argv[-1]):
            return 1
        self.out_file(out, "NATIVE\n", None)
        return 0

    # -- kernel make, and make of a wrapped project --------------------------------
    def p_make(self, sim, call):
        if "--just-print" in call.argv:
            return self.kbuild(sim, call)
        return self.wrapped_make(sim, call)

    def kbuild(self, sim, call):
        call.duration = 0.5
        m = [a for a in call.argv if a.startswith("M=")]
        if m:
            return self.kbuild_module(sim, call, m[0][2:])
        obj = [a for a in call.argv[1:] if a.endswith(".o")][0]
        path = obj[:-2] + ".c"
        u = self.unit(path)
        k = self.use_fault("make", u.path if u else None)
        self.tool_log.append(("make", path))
        if u is None and not os.path.exists(path):
            return 2
        if k == "error":
            return 2
        if k == "killed":
            call.stdout = b"set -e; echo"
            return -15
        lines = ["make -f ./scripts/Makefile.build obj=%s" % os.path.dirname(path),
                 "gcc -Wp,-MD,scripts/.x.d -O2 -o scripts/mod/empty.o scripts/mod/empty.c"]
        done = os.path.exists(obj) and (not os.path.exists(path) or R.stat(obj).st_mtime_ns >=
                                        R.stat(path).st_mtime_ns)
        if k != "no-gcc" and not done:
            lines.append("set -e; echo '  CC  %s';   gcc -Wp,-MD,%s.d -nostdinc -Iinclude -D__KERNEL__ "
                         "-Wall -O2 -m64 -fno-pie -DKBUILD_MODNAME='\"x\"' -D\"DEBUG_HASH=12\" -c -o %s %s; "
                         "scripts/fixdep" % (obj, obj, obj, path))
        else:
            lines = ["make: '%s' is up to date." % obj]
        lines.append("make[1]: Nothing to be done")
        call.stdout = ("\n".join(lines) + "\n").encode()
        return 0

    def kbuild_module(self, sim, call, mdir):
        mod = [a for a in call.argv if a.endswith(".ko")][0][:-3]
        units = self.kmods.get((mdir, mod))
        if units is None:
            return 2
        lines = []
        for p in units:
            o = p[:-2] + ".o"
            lines.append("  gcc -Wp,-MD,%s.d -Iinclude -D__KERNEL__ -Wall -c -o %s %s" % (o, o, p))
        lines.append("  ld -r -o %s/%s.o %s" % (mdir, mod, " ".join(p[:-2] + ".o" for p in units)))
        lines.append("  gcc -c -o %s/%s.mod.o %s/%s.mod.c" % (mdir, mod, mdir, mod))
        lines.append("  ld -r -o %s/%s.ko %s/%s.o %s/%s.mod.o" % ((mdir, mod) * 3))
        call.stdout = ("\n".join(lines) + "\n").encode()
        return 0

    def wrapped_make(self, sim, call):
        """make -C DIR CC="wrapper" [clean | targets]: runs the real wrapper."""
        argv = call.argv[1:]
        d = argv[argv.index("-C") + 1]
        d = os.path.join(call.cwd, d)
        if "clean" in argv:
            k = self.use_fault("make-clean", None)
            for u in self.units:
                for ext in (".o", ".ll"):
                    p = os.path.join(d, u.path[:-2] + ext)
                    if os.path.exists(p):
                        os.remove(p)
            if self.clean_removes_config and os.path.exists(d + "/config.log"):
                os.remove(d + "/config.log")
            return 2 if k else 0
        ccs = [a for a in argv if a.startswith("CC=")]
        wrapper = ccs[-1][3:].strip('"')
        k = self.use_fault("make", None)
        path, code = cc.wrapper_code()
        assert os.path.basename(wrapper) in ("cc_wrapper.py", "diffkemp-cc-wrapper.py"), wrapper
        p = sim.current
        for u in self.units:
            o = u.path[:-2] + ".o"
            a = [wrapper, "-Iinclude", "-c", "-o", o, u.path]
            if u.path in self.noout:
                # compiled without an output name, from within its directory
                cwd = os.path.join(d, os.path.dirname(u.path))
                a = [wrapper, "-I" + os.path.relpath(d, cwd), "-c", os.path.basename(u.path)]
                o = None
            else:
                cwd = d
            r = self.run_wrapper(sim, p, path, code, a, cwd, call.env)
            if r != 0 and "-k" not in argv:
                return 2
        objs = [u.path[:-2] + ".o" for u in self.units if u.path not in self.noout]
        if self.link and objs:
            self.run_wrapper(sim, p, path, code, [wrapper, "-o", "prog"] + objs, d, call.env)
        return 2 if k else 0

    clean_removes_config = False
    noout = ()
    link = False
    kmods = {}

    def run_wrapper(self, sim, p, path, code, argv, cwd, env):
        """Run the wrapper's main program inside the current process's thread."""
        import sys
        wd, av, ev = R.getcwd(), sys.argv, dict(os.environ._data)
        sim.step("exec:cc-wrapper")
        R.chdir(cwd)
        sys.argv = list(argv)
        os.environ._data.clear()
        os.environ._data.update({k.encode(): v.encode() for k, v in env.items()})
        try:
            exec(code, {"__name__": "__main__", "__file__": path, "__builtins__": __builtins__})
            return 0
        except SystemExit as e:
            return 0 if e.code is None else e.code if isinstance(e.code, int) else 1
        except (core.SimCrash, KeyboardInterrupt, core.StepLimit):
            raise
        except Exception:
            if sim.child_mode is not None:
                core._child_report(sim, ("exit", 1))
            return 1
        finally:
            if sim.child_mode is None:
                R.chdir(wd)
                sys.argv = av
                os.environ._data.clear()
                os.environ._data.update(ev)

    # -- cscope --------------------------------------------------------------------
    def p_cscope(self, sim, call):
        argv = call.argv[1:]
        self.tool_log.append(("cscope", " ".join(argv)))
        if "-b" in argv:
            k = self.use_fault("cscope", "build")
            lst = argv[argv.index("-i") + 1] if "-i" in argv else "cscope.files"
            if k == "error" or not os.path.exists(lst):
                return 1
            entries = []
            for rel in self.rd(lst).split("\n"):
                if not rel or not os.path.exists(rel):
                    continue
                t = self.rd(rel)
                scope = "<global>"
                for n, line in enumerate(t.split("\n"), 1):
                    m = FN.match(line)
                    gm = GV.match(line)
                    if m:
                        entries.append(["1", m.group(2), rel, m.group(2), n, line])
                        for c in re.findall(r"(\w+)\(x\)|(gv_\w+)", m.group(3)):
                            entries.append(["0", c[0] or c[1], rel, m.group(2), n, line])
                    elif gm:
                        entries.append(["1", gm.group(1), rel, gm.group(1), n, line])
                        entries.append(["0", gm.group(1), rel, scope, n, line])
            self.out_file("cscope.out", json.dumps(entries) + "\nEND\n", k)
            return -9 if k == "killed" else 0
        if "-L" not in argv:
            return 1
        if not os.path.exists("cscope.out"):
            return 1
        t = self.rd("cscope.out")
        if not t.endswith("END\n"):
            return 1
        kind = [a for a in argv if a in ("-0", "-1")][0][1]
        sym = argv[-1]
        if self.use_fault("cscope-query", sym):
            return 1
        out = ["%s %s %d %s" % (e[2], e[3], e[4], e[5])
               for e in json.loads(t[:-4]) if e[0] == kind and e[1] == sym]
        call.stdout = "".join(x + "\n" for x in out).encode()
        return 0

    # -- running diffkemp ---------------------------------------------------------
    def cli(self, argv, name="dk", cwd=None, spawn=False):
        """Run `diffkemp ARGV` as a simulated process; returns the process.
        With spawn it only starts to run when all spawned ones do."""
        import diffkemp.cli as c
        sim = self.sim
        p = sim.new_proc(name, cwd or self.root, {
            k.encode(): v.encode() for k, v in {
                "PATH": "/usr/bin", "HOME": self.root, "LANG": "C.UTF-8",
                "SIMPLL_BUILD_DIR": os.environ.get("SIMPLL_BUILD_DIR", "/nonexistent")}.items()})
        p.argv = ["diffkemp"] + list(argv)

        def body():
            import sys
            sys.argv = p.argv
            c.run_from_cli()
        if spawn:
            sim.spawn(p, body, p.argv)
        else:
            sim.run_main(p, body)
        return p

    def build_objects(self):
        """The user builds the kernel itself."""
        for u in self.units:
            if "#error" not in u.text() and self.g.chance(70):
                o = "%s/%s.o" % (self.src, u.path[:-2])
                put(o, "NATIVE\n")
                R.utime(o, ns=(int(self.sim.clock * 1e9),) * 2)

    def sources(self):
        """Everything in the source tree that a user wrote."""
        out = {}
        for u in self.units:
            out[u.path] = get(os.path.join(self.src, u.path)) if os.path.exists(
                os.path.join(self.src, u.path)) else None
        for h in self.headers:
            p = os.path.join(self.src, h)
            out[h] = get(p) if os.path.exists(p) else None
        for f in ("Makefile", "config.log"):
            p = os.path.join(self.src, f)
            if os.path.exists(p):
                out[f] = get(p)
        return out


class Scene:
    """A build of some kind in a world: what is asked for, and how."""

    def __init__(self, run, w, kinds, symbols=True, nofault=True):
        g = run.s.gen
        self.run, self.w = run, w
        self.kind = kind = g.weighted(kinds)
        w.generate_units(1 + g.choose(4) if kind not in ("single", "llvm") else 1,
                         kind == "kernel")
        if kind == "single":
            w.units[0].incs = []
        w.write_all()
        self.snap = w.snap
        defs = w.functions()
        names = [n for n in sorted(defs) if not n.startswith("hf_") and g.chance(80)]
        if g.chance(40):
            names.append("undefined_fn")
        if not names:
            names = ["undefined_fn"]
        g.shuffle(names)
        self.names = names
        self.symfile = w.root + "/symbols"
        put(self.symfile, "".join(n + "\n" for n in names))
        if kind == "make":
            w.link = g.chance(40)
            w.noout = {u.path for u in w.units if g.chance(15)}
            self.argv = ["build", w.src, "SNAP", self.symfile, "--no-native-cc-wrapper"]
        elif kind == "single":
            self.argv = ["build", os.path.join(w.src, w.units[0].path), "SNAP", self.symfile]
            w.src = os.path.dirname(os.path.join(w.src, w.units[0].path))
            w.units[0].path = os.path.basename(w.units[0].path)
        elif kind == "llvm":
            u = w.units[0]
            put(os.path.join(w.src, u.path[:-2] + ".ll"),
                toy_ir(u.path, w.src, w.rd, {"D": [], "I": []}))
            self.argv = ["llvm-to-snapshot", w.src, u.path[:-2] + ".ll", "SNAP", self.symfile]
        else:
            self.argv = ["build-kernel", w.src, "SNAP", self.symfile] + (
                ["--no-source-dir"] if g.chance(20) else [])
        w.stamp(w.src)
        self.files = self.keep()

    def keep(self):
        """The source tree with its times, to be put back later."""
        out = {}
        base = self.w.root + "/src"
        for r, ds, fs in os.walk(base):
            for f in fs:
                p = os.path.join(r, f)
                out[p] = (get(p), R.stat(p).st_mtime_ns)
        return out

    def put_back(self, files=None):
        files = self.files if files is None else files
        base = self.w.root + "/src"
        rmtree(base)
        for p, (data, t) in files.items():
            mk(os.path.dirname(p))
            with R.bopen(p, "wb") as f:
                f.write(data)
            R.utime(p, ns=(t, t))

    def build(self, name="dk", snap=None):
        snap = snap or self.snap
        return self.w.cli([snap if a == "SNAP" else a for a in self.argv], name)


def rmtree(d):
    for r, ds, fs in os.walk(d, topdown=False):
        for f in fs:
            R.unlink(os.path.join(r, f))
        for x in ds:
            p = os.path.join(r, x)
            R.unlink(p) if os.path.islink(p) else R.rmdir(p)
    if os.path.isdir(d):
        R.rmdir(d)


def snap_state(snap):
    """Files of a snapshot, without the time it was made."""
    if not os.path.isdir(snap):
        return None
    t = tree(snap)
    if "snapshot.yaml" in t:
        t["snapshot.yaml"] = re.sub(rb"created_time: .*", b"", t["snapshot.yaml"])
    return t


def diff_states(a, b):
    out = []
    for k in sorted(set(a) | set(b)):
        if k not in a:
            out.append("extra " + k)
        elif k not in b:
            out.append("missing " + k)
        elif a[k] != b[k]:
            out.append("changed " + k)
    return out


def load_yaml(path):
    import yaml
    with R.bopen(path) as f:
        return yaml.safe_load(f.read())


def snapshot_map(snap):
    """[(group, name, llvm)] of a snapshot directory, or None if unloadable."""
    import yaml
    p = os.path.join(snap, "snapshot.yaml")
    if not os.path.exists(p):
        return None
    try:
        y = load_yaml(p)
        y = y[0]
        out = []
        if y["list_kind"] == "function":
            groups = [y["list"]]
        else:
            groups = y["list"]
        for g in groups:
            if "sysctl" in g:
                gn, fs = g["sysctl"], g["functions"]
            else:
                gn, fs = None, g
            for f in fs:
                out.append((gn, f["name"], f["llvm"]))
        return out
    except (yaml.YAMLError, KeyError, TypeError, IndexError):
        return None


# -- reference and checks shared by the snapshot properties ---------------------

def valid_symbols(text):
    out = []
    for line in text.split("\n"):
        x = line.strip()
        if x and (x[0].isalpha() or x[0] == "_") and x not in out:
            out.append(x)
    return out


def symbol_text(g, names):
    """A symbol list file naming `names`, with the clutter such files have."""
    lines = []
    for n in names:
        k = g.choose(12)
        if k == 1:
            lines.append("")
        elif k == 2:
            lines.append("# " + n)
        elif k == 3:
            lines.append("0x12 " + n)
        elif k == 4:
            lines.append(n)
        lines.append({5: "  " + n, 6: n + " \t"}.get(k, n))
    return "\n".join(lines) + ("\n" if g.chance(80) else "")


def unit_bad(w, path):
    """The unit cannot be turned into IR under the injected tool faults."""
    return any(p == path for (t, p) in w.fault if t in ("make", "clang", "opt", "gcc")) or \
        any(u.path == path and "#error" in u.text() for u in w.units)


def check_entries(w, got, symbols, allow, pid):
    """got: [(group, name, llvm)]; allow: symbol -> set of unit paths, plus
    None when absence is right (a set holding only None: must be absent)."""
    names = [n for _, n, _ in got]
    for s in symbols:
        c = names.count(s)
        if c != 1:
            raise Violation(pid + "/conservation", "symbol %s is %d times in the snapshot %s" % (
                s, c, got))
    for n in names:
        if n not in symbols:
            raise Violation(pid + "/foreign", "snapshot has %s, which was not asked for" % n)
    for _, n, llvm in got:
        unit = None if llvm is None else os.path.normpath(llvm)[:-3] + ".c"
        if unit not in allow[n]:
            raise Violation(pid + "/mapping", "symbol %s is mapped to %s, expected one of %s; faults %s"
                            % (n, llvm, sorted(map(str, allow[n])), w.fault))


def check_content(w, got, pid, snap=None):
    """Every referenced module is in the snapshot, defines its function, is a
    relocated copy of the built IR, and its sources came along."""
    snap = snap or w.snap
    for _, n, llvm in got:
        if llvm is None:
            continue
        p = os.path.normpath(os.path.join(snap, llvm))
        if not p.startswith(snap + "/"):
            raise Violation(pid + "/outside", "%s is mapped to %s outside the snapshot" % (n, llvm))
        if not os.path.exists(p):
            raise Violation(pid + "/missing-file", "%s is mapped to %s, which is not in the snapshot"
                            % (n, llvm))
        text = get(p).decode("utf-8", "replace")
        if not re.search(r"^define [^@]*@%s\(" % re.escape(n), text, re.M):
            raise Violation(pid + "/not-defined", "%s does not define %s:\n%s" % (llvm, n, text[-500:]))
        orig_path = os.path.join(w.src, llvm)
        if os.path.exists(orig_path):
            orig = get(orig_path).decode("utf-8", "replace").split("\n")
            new = text.split("\n")
            if len(orig) != len(new):
                raise Violation(pid + "/content", "%s differs from the IR that was built: %d and %d lines"
                                % (llvm, len(new), len(orig)))
            for a, b in zip(orig, new):
                want = a if "constant" in a else re.sub(
                    r'(?<![^"\s])' + re.escape(w.src) + r'(?![^/"])', lambda _: snap, a)
                if b != want:
                    raise Violation(pid + "/content", "%s: line %r should be %r" % (llvm, b, want))
        for name, d in re.findall(r'DIFile\(filename: "([^"]*)", directory: "([^"]*)"\)', text):
            f = os.path.normpath(os.path.join(d, name))
            if f in w.outside:
                continue
            if not f.startswith(snap + "/"):
                raise Violation(pid + "/debug-info", "%s refers to %s outside the snapshot"
                                % (llvm, f))
            rel = os.path.relpath(f, snap)
            if not os.path.exists(f):
                raise Violation(pid + "/no-source", "source %s of %s is not in the snapshot" % (
                    rel, llvm))
            if get(f) != w.orig_sources.get(rel, get(f)):
                raise Violation(pid + "/source-content", "source %s in the snapshot differs from the "
                                "original" % rel)
