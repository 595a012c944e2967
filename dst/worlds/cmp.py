"""World of comparisons: pairs of toy snapshots with a known answer, and a toy
SimpLL engine that compares toy IR and answers in the format of the real one."""
import os
import re

from .. import core
from ..core import R
from . import proj
from .proj import get, mk, put

# -- toy IR ------------------------------------------------------------------

DEF = re.compile(r"^define (internal|dso_local) i32 @([\w.]+)\(i32 %0\) .*\{$")


class IRFun:
    def __init__(self, name, static):
        self.name, self.static = name, static
        self.file, self.line, self.items = "", 0, []
        self.lines = 1


def parse_ir(text):
    """(functions, declarations) of toy IR; None if it is not valid IR."""
    lines = text.split("\n")
    if not text.startswith("; ModuleID") or not text.endswith("\n"):
        return None
    funs, decls, cur = {}, {}, None
    for ln in lines:
        m = DEF.match(ln)
        if m:
            if cur is not None or m.group(2) in funs:
                return None
            cur = IRFun(m.group(2), m.group(1) == "internal")
            continue
        if cur is None:
            m = re.match(r"^declare i32 @([\w.]+)\(i32\)(?: ; at (.*):(\d+))?$", ln)
            if m:
                d = IRFun(m.group(1), False)
                d.file, d.line = m.group(2) or "", int(m.group(3) or 0)
                decls[d.name] = d
            continue
        if ln == "}":
            funs[cur.name] = cur
            cur = None
            continue
        m = re.match(r"^  ; at (.*):(\d+)$", ln)
        if m:
            cur.file, cur.line = m.group(1), int(m.group(2))
            continue
        m = re.match(r"^  %c = call i32 @([\w.]+)\(i32 %0\)(?: ; line (\d+))?$", ln)
        if m:
            cur.items.append(("call", m.group(1), int(m.group(2) or 0)))
            continue
        m = re.match(r"^  ; (type|macro) (\w+) (.*):(\d+) line (\d+) = (.*)$", ln)
        if m:
            cur.items.append((m.group(1), m.group(2), m.group(3), int(m.group(4)), int(m.group(5)),
                              m.group(6)))
            continue
        if ln.strip():
            cur.items.append(("stmt", ln.strip()))
    if cur is not None or "!1 = " not in text:
        return None
    return funs, decls


def plain(name):
    """The name without the number that the linker added."""
    return re.sub(r"\.\d+$", "", name)


def item_key(it):
    """What makes two instructions the same."""
    if it[0] == "call":
        return ("call", plain(it[1]))
    if it[0] in ("type", "macro"):
        return (it[0], it[1], it[5])
    return it


class Crash(Exception):
    """The engine died."""


class Engine:
    """The toy SimpLL; one instance serves the FFI and the binary."""

    def __init__(self, run, w, ctx):
        self.run, self.w, self.sim = run, w, w.sim
        self.ffi, self.lib = ctx["ffi"], ctx["lib"]
        self.calls = []            # (function, mode, outcome)
        self.fault = {}            # function -> kind
        self.confs = []            # configuration the engine was given
        self.honour_cache = False
        self.keep = []
        self.handles = {}
        L = self.lib.impl
        L["parseAndRunSimpLL"] = self.ffi_parse_and_run
        L["runSimpLL"] = self.ffi_run
        L["loadModule"] = self.load_module
        L["freeModule"] = lambda m: None
        L["preprocessModuleC"] = self.preprocess
        L["shutdownSimpLL"] = lambda: None
        self.sim.programs["diffkemp-simpll"] = self.binary

    inline = False
    big = frozenset()          # functions whose answer is larger than a pipe

    # the comparison itself
    def load(self, path):
        try:
            tool, self.sim.in_tool = self.sim.in_tool, True
            with open(path, "rb") as f:
                return parse_ir(f.read().decode("utf-8", "replace"))
        except OSError:
            return None
        finally:
            self.sim.in_tool = tool

    def cached(self, cache_dir):
        pairs = set()
        if self.honour_cache and cache_dir and os.path.isdir(cache_dir):
            for n in sorted(os.listdir(cache_dir)):
                with open(os.path.join(cache_dir, n)) as f:
                    pairs |= {tuple(x.rstrip("\n").split(":", 1)) for x in f if ":" in x}
        return pairs

    def compare(self, ml, mr, fl, fr, cache_dir=None, ext=False, var=""):
        """Returns the output text; raises Crash as the real one would."""
        if ml is None or mr is None:
            return None
        (dl, cl), (dr, cr) = ml, mr
        if (fl not in dl and fl not in cl) or (fr not in dr and fr not in cr):
            return None
        done, todo, out, missing = set(), [(fl, fr)], [], []
        cache = self.cached(cache_dir)
        while todo:
            a, b = todo.pop(0)
            if (a, b) in done:
                continue
            done.add((a, b))
            x, y = dl.get(a) or cl.get(a), dr.get(b) or cr.get(b)
            if x is None or y is None:
                continue
            r = {"x": x, "y": y, "calls": ([], []), "objs": [], "eq": 0}
            out.append(r)
            if (a, b) in cache and (a, b) != (fl, fr):
                r["kind"] = "unknown"
                continue
            if a not in dl or b not in dr:
                r["kind"] = "assumed-equal"
                if (a in dl) != (b in dr):
                    missing.append({"first": a} if a not in dl else {"second": b})
                elif a != b:
                    missing.append({"first": a, "second": b})
                continue
            r["kind"] = "equal"
            xi, yi = list(x.items), list(y.items)
            if var and (a, b) == (fl, fr):
                # slicing: what does not depend on the variable is removed
                xi = [it for it in xi if not str(it[1]).endswith(" indep")]
                yi = [it for it in yi if not str(it[1]).endswith(" indep")]
            i, budget = 0, 12
            while i < max(len(xi), len(yi)):
                p = xi[i] if i < len(xi) else None
                q = yi[i] if i < len(yi) else None
                if p is None or q is None or item_key(p) != item_key(q):
                    if self.inline and budget:
                        # try to inline the differing calls
                        budget -= 1
                        cp = p[1] if p and p[0] == "call" else None
                        cq = q[1] if q and q[0] == "call" else None
                        if cp and cp not in dl or cq and cq not in dr:
                            missing.append({k: n for k, n in (("first", cp), ("second", cq)) if n})
                        if cp and cp in dl or cq and cq in dr:
                            if cp and cp in dl:
                                xi[i:i + 1] = dl[cp].items
                            if cq and cq in dr:
                                yi[i:i + 1] = dr[cq].items
                            continue
                    r["kind"] = "not-equal"
                    if p and q and p[0] == q[0] and p[0] in ("type", "macro") and p[1] == q[1]:
                        r["objs"].append((p, q))
                        i += 1
                        continue
                    break
                i += 1
                r["eq"] += 1
                if p[0] == "call":
                    r["calls"][0].append((p[1], x.file, p[2]))
                    r["calls"][1].append((q[1], y.file, q[2]))
                    todo.append((p[1], q[1]))
        return self.yaml(out, missing, ext)

    def yaml(self, out, missing, ext):
        t = ["---"]
        if out:
            t.append("function-results:")
        for r in out:
            t.append("  - result:          %s" % r["kind"])
            for side, name in ((0, "first"), (1, "second")):
                fn = r["x"] if side == 0 else r["y"]
                t += ["    %s:" % name, "      function:        %s" % plain(fn.name),
                      "      file:            '%s'" % fn.file, "      line:            %d" % fn.line]
                if r["kind"] in ("equal", "not-equal"):
                    t += ["      stats:", "        inst-cnt:        %d" % len(fn.items),
                          "        inst-equal-cnt:  %d" % r["eq"], "        lines-cnt:       %d" % fn.lines]
                else:
                    t.append("      stats:           {}")
                if r["calls"][side]:
                    t.append("      calls:")
                    for c, f, n in r["calls"][side]:
                        t += ["        - function:        %s" % plain(c), "          file:            '%s'" % f,
                              "          line:            %d" % n, "          weak:            false"]
            if r["objs"]:
                t.append("    differing-objects:")
                for p, q in r["objs"]:
                    t += ["      - name:            %s" % p[1],
                          "        function:        %s" % r["x"].name]
                    for side, it, nm in ((0, p, "stack-first"), (1, q, "stack-second")):
                        fn = r["x"] if side == 0 else r["y"]
                        t += ["        %s:" % nm,
                              "          - function:        '%s (%s)'" % (it[1], it[0]),
                              "            file:            '%s'" % fn.file,
                              "            line:            %d" % it[4],
                              "            weak:            false"]
                    if p[0] == "macro":
                        t += ["        body-first:      '%s'" % p[5].replace("'", "''"),
                              "        body-second:     '%s'" % q[5].replace("'", "''")]
                    else:
                        t += ["        file-first:      '%s'" % p[2], "        file-second:     '%s'" % q[2],
                              "        line-first:      %d" % p[3], "        line-second:     %d" % q[3]]
        if missing:
            t.append("missing-defs:")
            for m in missing:
                for i, (k, v) in enumerate(sorted(m.items())):
                    t.append("  %s %s: %s" % ("-" if i == 0 else " ", k, v))
        if out and self.big and out[0]["x"].name in self.big:
            t.append("# " + 70000 * "x")
        t.append("...")
        return "\n".join(t) + "\n"

    # faults of the engine
    def spoil(self, text, kind):
        if kind == "empty":
            return ""
        if kind == "garbage":
            return "}}{{ \x01 not: [yaml\n"
        if kind == "truncated":
            return text[:len(text) * 2 // 3]
        if kind == "other":
            return "--- 42\n...\n"
        if kind == "noresults":
            return "---\n...\n"
        if kind == "incomplete":
            return text.replace("    second:\n", "    secnd:\n", 1)
        return text

    def write_ir(self, src, dst):
        """--output-llvm-ir"""
        if src != dst and os.path.exists(src):
            with open(src, "rb") as f:
                data = f.read()
            with open(dst, "wb") as f:
                f.write(data)

    # the three ways to run it
    def ffi_conf(self, c):
        st = self.ffi.string
        pats = {n: int(getattr(c.BuiltinPatterns, n)) for n, _ in
                self.ffi.typeof("struct builtin_patterns").fields}
        return {"cache": st(c.CacheDir).decode(), "custom": st(c.CustomPatterns).decode(),
                "patterns": {re.sub(r"(?<!^)([A-Z])", r"-\1", k).lower(): v for k, v in pats.items()},
                "ir": int(c.OutputLlvmIR), "asm": int(c.PrintAsmDiffs), "ext": int(c.ExtendedStat),
                "callstacks": int(c.PrintCallStacks), "verbosity": int(c.Verbosity),
                "var": st(c.Variable).decode()}

    def ffi_parse_and_run(self, l, r, lo, ro, fl, fr, conf, out, *more):
        st = self.ffi.string
        lp, rp = st(l).decode(), st(r).decode()
        return self.ffi_common(self.load(lp), self.load(rp), (lp, rp), lo, ro, fl, fr, conf, out, "ffi", more)

    def ffi_run(self, l, r, lo, ro, fl, fr, conf, out, *more):
        a, b = self.ffi.from_handle(l), self.ffi.from_handle(r)
        return self.ffi_common(a[1], b[1], (a[0], b[0]), lo, ro, fl, fr, conf, out, "modules", more)

    def ffi_common(self, ml, mr, paths, lo, ro, fl, fr, conf, out, mode, more):
        self.sim.step("engine")
        st = self.ffi.string
        f1, f2 = st(fl).decode(), st(fr).decode()
        c = self.ffi_conf(conf)
        self.confs.append((mode, f1, c))
        if self.sim.child_mode is not None:
            self.sim.child_extra = (mode, f1, c)
        kind = self.use_fault(f1)
        if kind == "killed" and self.sim.child_mode is not None:
            os.kill(core.R.getpid(), 11)
        text = self.compare(ml, mr, f1, f2, c["cache"], c["ext"], c["var"])
        self.calls.append((f1, mode, kind if text is not None else "no-module"))
        if kind == "raise":
            raise RuntimeError("engine failure")
        if c["ir"] and kind != "empty":
            self.write_ir(paths[0], st(lo).decode())
            self.write_ir(paths[1], st(ro).decode())
        text = self.spoil(text, kind) if text is not None else ""
        data = text.encode() + b"\0"
        buf = self.ffi.buffer(out)
        assert len(data) < len(buf), "output buffer"
        buf[0:len(data)] = data

    def use_fault(self, f):
        k = self.fault.get(f)
        if k:
            self.sim.count_fault("engine-" + k)
        return k

    def load_module(self, path):
        p = self.ffi.string(path).decode()
        m = self.load(p)
        if m is None:
            return self.ffi.NULL
        h = self.ffi.new_handle((p, m))
        self.keep.append(h)
        return h

    def preprocess(self, mod, patterns):
        n = [f[0] for f in self.ffi.typeof("struct builtin_patterns").fields]
        self.confs.append(("preprocess", None, {k: int(getattr(patterns, k)) for k in n}))

    def binary(self, sim, call):
        a = call.argv[1:]
        pos = [x for i, x in enumerate(a) if not x.startswith("-") and a[i - 1] not in (
            "--fun", "--var", "--suffix", "--cache-dir", "--custom-pattern-config", "--verbosity")]

        def opt(n, d=""):
            return a[a.index(n) + 1] if n in a else d
        f = opt("--fun").split(",")
        f1, f2 = f[0], f[-1]
        pats = {x[2:].split("=")[0]: int(x.split("=")[1] == "True") for x in a if "=" in x and x[:2] == "--"}
        c = {"cache": opt("--cache-dir"), "custom": opt("--custom-pattern-config"), "patterns": pats,
             "ir": int("--output-llvm-ir" in a), "asm": int("--print-asm-diffs" in a),
             "ext": int("--extended-stat" in a), "callstacks": int("--print-callstacks" in a),
             "verbosity": int(opt("--verbosity", "0")), "var": opt("--var")}
        self.confs.append(("binary", f1, c))
        kind = self.use_fault(f1)
        text = self.compare(self.load(pos[0]), self.load(pos[1]), f1, f2, c["cache"], c["ext"], c["var"])
        self.calls.append((f1, "binary", kind if text is not None else "no-module"))
        if text is None:
            return -11
        if kind == "error":
            call.stdout = text[:len(text) // 3].encode()
            return 1
        if kind in ("killed", "raise"):
            call.stdout = text[:len(text) // 2].encode()
            return -9
        if c["ir"] and kind != "empty":
            for p in pos:
                n, e = os.path.splitext(p)
                self.write_ir(p, n + ("-" + opt("--suffix") if opt("--suffix") else "") + e)
        call.stdout = self.spoil(text, kind).encode()
        return 0


# -- pairs of snapshots with a known answer -----------------------------------

# lines that are easily mistaken for something else
ODD = [("    static const int t[] = {", "    1, 2, 3,", "    4", "    };"),
       ("/*", " ** 7 **", " * 1 - 2", " */"), ("", "   ", ""),
       ("out:",), ("    /* *** 1,2 *** */",), ("    12", "    ;"), ("--- 3 ---;",), ("*** 1,2 ****;",),
       ("    /* \u017elu\u0165 */",), ("@@ -1 +1 @@;",)]

class Fun:
    def __init__(self, name, file, static=False):
        self.name, self.file, self.static = name, file, static
        self.calls = []          # names; the same in both versions
        self.uses = []           # ("type"|"macro", name)
        self.diff = None         # None, "body", "call" (an extra call in the new version)
        self.extra = None        # callee of the extra call
        self.note = [0, 0]       # text-only difference
        self.odd = [(), ()]      # unusual lines of source
        self.gone = None         # version in which it does not exist
        self.dep = True          # what it returns depends on the variables


class Program:
    """Two versions of a small C program."""

    def __init__(self, g, size=1.0, groups=False):
        self.g = g
        nfiles = 1 + g.choose(3)
        dirs = ["", "lib", "src/core"]
        self.files = []
        for i in range(nfiles):
            base = "m%d.c" % i
            if i and g.chance(20):
                base = "m0.c"
            d = g.choice(dirs)
            p = os.path.join(d, base)
            if p in self.files:
                p = os.path.join(d, "m%d.c" % i)
            self.files.append(p)
        self.headers = ["include/h%d.h" % i for i in range(g.choose(3))]
        self.incs = {f: [h for h in self.headers if g.chance(65)] for f in self.files}
        self.types = {}              # name -> (header, [version text, version text])
        self.macros = {}
        for h in self.headers:
            for k in range(g.choose(2)):
                n = "st_%d_%d" % (len(self.types), k)
                self.types[n] = (h, g.chance(50))
            for k in range(g.choose(2)):
                n = "MAC_%d_%d" % (len(self.macros), k)
                self.macros[n] = (h, g.chance(50))
        self.funs = {}
        n = 0
        for f in self.files + self.headers:
            for k in range(1 + g.choose(3 if f.endswith(".c") else 2)):
                name = "%s%d" % ("f_" if f.endswith(".c") else "hf_", n)
                if self.funs and g.chance(12):
                    o = g.choice(sorted(self.funs))
                    name = g.choice(["%s_x", "x_%s", "__%s"]) % o
                    if name in self.funs:
                        name = "f_%d" % n
                n += 1
                self.funs[name] = Fun(name, f, f.endswith(".h") or g.chance(15))
        names = sorted(self.funs)
        for fn in self.funs.values():
            for _ in range(g.choose(4)):
                c = g.choice(names)
                if self.visible(fn, c) and c != fn.name:
                    fn.calls.append(c)
            vis = [fn.file] if fn.file.endswith(".h") else self.incs[fn.file]
            for n, (h, _) in list(self.types.items()) + list(self.macros.items()):
                if h in vis and g.chance(30):
                    fn.uses.append(("type" if n in self.types else "macro", n))
        for fn in self.funs.values():
            k = g.weighted([(None, 6), ("body", 3), ("call", 1)])
            fn.diff = k
            if k == "call":
                fn.extra = g.choice(names)
                if not self.visible(fn, fn.extra) or fn.extra == fn.name:
                    fn.diff, fn.extra = "body", None
            if g.chance(20):
                fn.note = [0, 1 + g.choose(5)]
            fn.dep = not groups or g.chance(60)
            if g.chance(12):
                fn.odd = [g.choice(ODD)] * 2
                if g.chance(40):
                    fn.odd[1] = g.choice(ODD)
        self.pad = {(f, v): g.choose(4) for f in self.files + self.headers for v in (0, 1)}
        self.gap = {(n, v): g.choose(3) for n in self.funs for v in (0, 1)}
        for n in names:
            if g.chance(6) and not self.funs[n].static:
                self.funs[n].gone = g.choose(2)
        self.same = False

    def visible(self, fn, c):
        """A call from fn to c makes sense (statics only within a file)."""
        t = self.funs[c]
        if t.file.endswith(".h"):
            if fn.file.endswith(".h"):
                return t.file == fn.file
            return t.file in self.incs[fn.file]
        if fn.file.endswith(".h"):
            return not t.static
        return not t.static or t.file == fn.file

    def changed(self, n):
        """The type or macro differs between the versions."""
        h, c = self.types.get(n) or self.macros[n]
        return c

    # rendering
    def render_file(self, f, v):
        """(text, {function: (line, {call index: line}, {use: line}, end)}, {type: line})"""
        out = ["/* %s */" % f] + [""] * self.pad[(f, v)]
        pos, tpos = {}, {}
        if f.endswith(".c"):
            for h in self.incs[f]:
                out.append('#include "%s"' % h)
        for n, (h, c) in self.macros.items():
            if h == f:
                out.append("#define %s(x) %s" % (n, self.macro_body(n, v)))
                tpos[n] = len(out)
        for n, (h, c) in self.types.items():
            if h == f:
                out.append("struct %s {" % n)
                tpos[n] = len(out)
                out += ["\tint a;", "\t%s b;" % ("long" if c and v else "int"), "};"]
        for fn in self.funs.values():
            if fn.file != f or fn.gone == v:
                continue
            out += [""] * (1 + self.gap[(fn.name, v)])
            out.append("%sint %s(int x)" % ("static " if fn.static else "", fn.name))
            line = len(out)
            out.append("{")
            cl, ul = [], []
            if fn.note[v]:
                out.append("\t/* note %d */" % fn.note[v])
            for c in fn.calls:
                out.append("\tx = x + %s(x);" % c)
                cl.append(len(out))
            for k, n in fn.uses:
                out.append("\tx = x + %s;" % ("%s(x)" % n if k == "macro" else "sizeof(struct %s)" % n))
                ul.append(len(out))
            if fn.diff == "call" and v:
                out.append("\tx = x - %s(x);" % fn.extra)
                cl.append(len(out))
            out += fn.odd[v]
            out.append("\treturn x + %d;" % self.ver(fn, v))
            out.append("}")
            pos[fn.name] = (line, cl, ul, len(out))
        return "\n".join(out) + "\n", pos, tpos

    def ver(self, fn, v):
        return 100 + (v if fn.diff == "body" else 0)

    def macro_body(self, n, v):
        return "((x) + %d)" % (7 + (v if self.macros[n][1] else 0))

    def type_hash(self, n, v):
        return "long" if self.types[n][1] and v else "int"

    def defined(self, f, v):
        """Functions defined in the module of C file f."""
        vis = [f] + self.incs[f]
        return [fn for fn in self.funs.values() if fn.file in vis and fn.gone != v]

    def render(self, root, v):
        """Write version v to directory root; returns positions."""
        pos, tpos = {}, {}
        texts = {}
        for f in self.files + self.headers:
            t, p, tp = self.render_file(f, v)
            texts[f] = t
            pos.update(p)
            tpos.update(tp)
        for f, t in texts.items():
            put(os.path.join(root, f), t)
        for f in self.files:
            put(os.path.join(root, f[:-2] + ".ll"), self.module(f, v, root, pos, tpos))
        return pos, tpos

    def module(self, f, v, root, pos, tpos):
        out = ["; ModuleID = '%s'" % f, 'source_filename = "%s"' % f]
        decl, defd = set(), set()
        for fn in self.defined(f, v):
            defd.add(fn.name)
            line, cl, ul, end = pos[fn.name]
            out.append("define %s i32 @%s(i32 %%0) #0 !dbg !9 {" % ("internal" if fn.static else "dso_local",
                                                                  fn.name))
            out.append("  ; at %s:%d" % (os.path.join(root, fn.file), line))
            for c, n in zip(fn.calls, cl):
                out.append("  %%c = call i32 @%s(i32 %%0) ; line %d" % (c, n))
                decl.add(c)
            for (k, n), ln in zip(fn.uses, ul):
                h = (self.types.get(n) or self.macros[n])[0]
                out.append("  ; %s %s %s:%d line %d = %s" % (
                    k, n, os.path.join(root, h), tpos[n], ln,
                    self.macro_body(n, v) if k == "macro" else self.type_hash(n, v)))
            if fn.diff == "call" and v:
                out.append("  %%c = call i32 @%s(i32 %%0) ; line %d" % (fn.extra, cl[-1]))
                decl.add(fn.extra)
            out.append("  ; ret %d%s" % (self.ver(fn, v), "" if fn.dep else " indep"))
            out.append("}")
        for c in sorted(decl - defd):
            out.append("declare i32 @%s(i32) ; at %s:1" % (c, os.path.join(root, f)))
        for i, p in enumerate([f] + self.incs[f]):
            out.append('!%d = !DIFile(filename: "%s", directory: "%s")' % (i + 1, p, root))
        return "\n".join(out) + "\n"

    # the known answer
    def own_diffs(self, fn, sliced=False):
        """(function differs, [names of differing types and macros])."""
        objs = []
        for k, n in fn.uses:
            if self.changed(n):
                objs.append(n)
        diff = fn.diff and not (sliced and fn.diff == "body" and not fn.dep)
        return bool(diff or objs), objs

    def answer(self, name, file=None, var=None):
        """{differing function: [differing objects]} reachable from `name`."""
        f = file or self.funs[name].file
        defs = {v: {x.name for x in self.defined(f, v)} for v in (0, 1)}
        out, seen, todo = {}, set(), [name]
        while todo:
            n = todo.pop()
            if n in seen or n not in defs[0] or n not in defs[1]:
                continue
            seen.add(n)
            fn = self.funs[n]
            d, objs = self.own_diffs(fn, var is not None and n == name)
            if d:
                out[n] = objs
            todo += fn.calls
        return out


class Pair(proj.World):
    """Old and new snapshot of a Program, and diffkemp compare on them."""

    def __init__(self, run, ctx, program=None, sub="w", groups=False, names=("old", "new"), write=True):
        proj.World.__init__(self, run, sub)
        self.prog = program or Program(self.g, groups=groups)
        self.old, self.new = self.root + "/" + names[0], self.root + "/" + names[1]
        self.engine = Engine(run, self, ctx)
        self.sim.real_programs.add("diff")
        self.groups = groups
        self.pos = [None, None]
        self.list = None
        if write:
            self.make_list()
            self.write()

    def make_list(self):
        """What the snapshots list: [(group, name, [file or None] * 2, tag)]."""
        g, p = self.g, self.prog
        out = []
        for fn in p.funs.values():
            if fn.static and not (fn.file.endswith(".c") and g.chance(40)):
                continue
            if not g.chance(85):
                continue
            groups = [None]
            if self.groups:
                groups = [x for x in ("kernel.a", "net.b", "vm.c") if g.chance(45)]
            for gr in groups:
                where = []
                for v in (0, 1):
                    where.append("absent" if g.chance(5) or (fn.gone == v and g.chance(50)) else
                                 None if fn.gone == v or g.chance(7) else fn.file)
                out.append((gr, fn.name, where, None if gr is None else "using data variable \"v\""))
        g.shuffle(out)
        self.list = out
        self.vars = {(gr, n): g.choice(["v", "v", "w", None]) if gr else None for gr, n, _, _ in out}

    def snapshot_yaml(self, v, root):
        groups = {}
        for gr, n, where, tag in self.list:
            if where[v] == "absent":
                continue
            groups.setdefault(gr, []).append((n, where[v], tag))
        import yaml
        fl = {gr: [{"name": n, "llvm": f[:-2] + ".ll" if f else None, "glob_var": self.vars[(gr, n)],
                    "tag": tag}
                   for n, f, tag in fs] for gr, fs in groups.items()}
        if self.groups:
            lst = [{"sysctl": gr, "functions": fs} for gr, fs in fl.items()]
        else:
            lst = fl.get(None, [])
        import datetime
        return yaml.dump([{"diffkemp_version": "0.5.0", "llvm_version": 16,
                           "created_time": datetime.datetime.fromtimestamp(
                               int(self.sim.clock), datetime.timezone.utc),
                           "list_kind": "sysctl" if self.groups else "function", "list": lst,
                           "llvm_source_finder": {"kind": "single_llvm_file"}}])

    def write(self):
        for v, root in ((0, self.old), (1, self.new)):
            a, b = self.prog.render(root, v)
            self.pos[v] = dict(a, **b)
            put(root + "/snapshot.yaml", self.snapshot_yaml(v, root))
            self.stamp(root)

    def expected(self):
        """{group: {name: None (unknown) or answer}} of functions in both."""
        out = {}
        for gr, n, where, tag in self.list:
            if "absent" in where:
                continue
            r = None
            if None not in where:
                r = self.prog.answer(n, var=self.vars[(gr, n)])
            out.setdefault(gr, {})[n] = r
        return out

    def argv(self, extra=(), old=None, new=None):
        return ["compare", old or self.old, new or self.new] + list(extra)
