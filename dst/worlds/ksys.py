"""Kernels with sysctl tables in real C: they are compiled by clang and opt and
read by SimpLL; what make and cscope say is known from the generator."""
import json
import os
import re
import subprocess

from ..core import R
from . import proj
from .proj import put
from .real import LLVM

CTL = """#ifndef SYSCTL_H
#define SYSCTL_H
#define NULL ((void *)0)
struct ctl_table;
typedef int proc_handler(struct ctl_table *, int);
struct ctl_table {
	const char *procname;
	void *data;
	int maxlen;
	unsigned short mode;
	struct ctl_table *child;
	proc_handler *proc_handler;
	void *extra1;
};
struct pair { int x, y; };
struct cfg { int a; int b; long c; int d[3]; char s[8]; struct pair in; struct pair l[2]; };
extern void ext(void *);
"""
# types: name -> ("s", size) | ("a", count, type) | ("r", [(field, type)])
INT, LONG, CHAR = ("s", 4), ("s", 8), ("s", 1)
PAIR = ("r", (("x", INT), ("y", INT)))
CFG = ("r", (("a", INT), ("b", INT), ("c", LONG), ("d", ("a", 3, INT)), ("s", ("a", 8, CHAR)), ("in", PAIR),
             ("l", ("a", 2, PAIR))))
TYPES = {"int": (INT, "int %s"), "long": (LONG, "long %s"), "arr": (("a", 5, INT), "int %s[5]"),
         "cfg": (CFG, "struct cfg %s"), "pairs": (("a", 3, PAIR), "struct pair %s[3]"),
         "cfgs": (("a", 2, CFG), "struct cfg %s[2]"), "str": (("a", 12, CHAR), "char %s[12]")}


def size(t):
    if t[0] == "s":
        return t[1], t[1]
    if t[0] == "a":
        s, al = size(t[2])
        return s * t[1], al
    off, al = 0, 1
    for _, x in t[1]:
        s, a = size(x)
        off, al = (off + a - 1) // a * a + s, max(al, a)
    return (off + al - 1) // al * al, al


def at(t, path):
    """(offset, type) of a place; unknown indices count as 0."""
    off = 0
    for p in path:
        if t[0] == "a":
            t = t[2]
            off += (p or 0) * size(t)[0]
        else:
            for n, x in t[1]:
                s, a = size(x)
                off = (off + a - 1) // a * a
                if n == p:
                    t = x
                    break
                off += s
    return off, t


def biggest(t, off):
    """The biggest part that starts at the given offset."""
    base = 0
    while base != off:
        if t[0] == "a":
            s = size(t[2])[0]
            base += (off - base) // s * s
            t = t[2]
        elif t[0] == "r":
            o = base
            for n, x in t[1]:
                s, a = size(x)
                o = (o + a - 1) // a * a
                if o <= off < o + s:
                    break
                o += s
            base, t = o, x
        else:
            return off, off + 1
    return off, off + size(t)[0]


def paths(t):
    out = [()]
    if t[0] == "a":
        for i in range(t[1]):
            out += [(i,) + p for p in paths(t[2])]
    elif t[0] == "r":
        for n, x in t[1]:
            out += [(n,) + p for p in paths(x)]
    return out


def expr(name, path):
    return name + "".join("[i]" if p is None else "[%d]" % p if isinstance(p, int) else "." + p for p in path)


class Var:
    def __init__(self, name, kind, unit, static):
        self.name, self.kind, self.unit, self.static = name, kind, unit, static
        self.type, self.decl = TYPES[kind]

    def relation(self, access, elem):
        """Does code that accesses one place use the other: yes, maybe, no."""
        for a, e in zip(access, elem):
            if a is not None and a != e:
                break
        else:
            return "yes"
        eo, ao = at(self.type, elem)[0], at(self.type, access)[0]
        if eo == 0 or ao == 0 or None in access:
            return "maybe"
        (e0, e1), (a0, a1) = biggest(self.type, eo), biggest(self.type, ao)
        return "maybe" if e0 < a1 and a0 < e1 else "no"


class Fun:
    def __init__(self, name, unit, static, handler=False):
        self.name, self.unit, self.static, self.handler = name, unit, static, handler
        self.uses = []           # (variable, path, kind of access)

    def lines(self):
        head = "%sint %s(%s)" % ("static " if self.static else "", self.name,
                                 "struct ctl_table *t, int i" if self.handler else "int i, void *p")
        b = ["\tint r = i;"]
        for n, (v, path, how) in enumerate(self.uses):
            e = expr(v.name, path[:-1] if how == "ptr" else path)
            b.append({"read": "\tr += %s;", "write": "\t%s = i;", "inc": "\t%s += i;", "pass": "\text(&%s);",
                      "int": "\tr += (int)((long)&%s + i);", "cmp": "\tr += (void *)&%s == (void *)(long)i;",
                      "if": "\tif (%s > i)\n\t\tr = r * 3;", "decay": "\text(%s);",
                      "ptr": "\t{ int *q = %s; q[i] = 3; }", "bytes": "\t*((char *)&%s + 1) = i;"}[how] % e)
        b.append("\treturn r;")
        return [head + "\n{"] + b + ["}"]


def access(g, v):
    """A random use of a variable."""
    p = list(g.choice(paths(v.type)))
    for k, x in enumerate(p):
        if isinstance(x, int) and g.chance(20):
            p[k] = None
            break
    p = tuple(p)
    t = at(v.type, p)[1]
    if t[0] == "s":
        kinds = ["read", "read", "write", "inc", "if", "pass", "int", "cmp"] + (["bytes"] if t[1] > 1 else [])
    else:
        kinds = ["pass", "int", "cmp"]
        if t[0] == "a":
            kinds.append("decay")
            if t[2] == INT and None not in p:
                return p + (None,), "ptr"
    return p, g.choice(kinds)


class World(proj.World):
    def __init__(self, run):
        proj.World.__init__(self, run)
        self.kernel = True
        g = self.g
        self.files = ["kernel/sysctl.c", "net/core/sysctl_net_core.c", "net/ipv4/sysctl_net_ipv4.c",
                      "net/ipv4/devinet.c"]
        self.files += [["mm/vm.c", "drivers/a/b.c", "fs/fs.c", "arch/x86/x.c"][i] for i in range(g.choose(5))]
        self.vars, self.funs, self.entries = [], [], {}
        for i in range(2 + g.choose(5)):
            self.vars.append(Var("gv_d%d" % i + g.choice(["", "", "_x"]), g.choice(sorted(TYPES)), g.choice(self.files),
                                 g.chance(30)))
        n = 0
        for f in self.files:
            for _ in range(1 + g.choose(3)):
                fn = Fun("%s%d" % (g.choice(["fn_", "sys_", "x_"]), n), f, g.chance(20), g.chance(35))
                n += 1
                vis = [v for v in self.vars if v.unit == f or not v.static]
                for _ in range(g.weighted([(0, 2), (1, 4), (2, 3), (3, 1)])):
                    if vis:
                        v = g.choice(vis)
                        fn.uses.append((v,) + access(g, v))
                self.funs.append(fn)
        # the tables
        self.table("sysctl_base_table", "kernel/sysctl.c", [])
        roots = {"kernel": "kern_table", "vm": "vm_table", "fs": "fs_table", "debug": "debug_table"}
        self.where = {}          # prefix -> tables on the way
        for d, t in roots.items():
            if d != "kernel" and g.chance(30):
                continue
            home = "kernel/sysctl.c" if g.chance(60) else g.choice(self.files)
            self.table(t, home, self.rows(d[0], home))
            self.entries["sysctl_base_table"].append([d, None, (), None, t])
            self.where[d + "."] = ["sysctl_base_table", t]
        for d in sorted(self.where):
            if g.chance(40):
                t = "sub_%stable" % d[:2].strip(".")
                home = g.choice(self.files)
                self.table(t, home, self.rows("s", home))
                self.entries[self.where[d][-1]].append(["sub", None, (), None, t])
                self.where[d + "sub."] = self.where[d] + [t]
        g.shuffle(self.entries["sysctl_base_table"])
        for t, home, d in (("net_core_table", self.files[1], "net.core."), ("ipv4_table", self.files[2], "net.ipv4."),
                           ("devinet_sysctl", self.files[3], "net.ipv4.conf.all.")):
            self.table(t, home, self.rows(d[4], home))
            self.where[d] = [t]
        if g.chance(30):
            self.where["net.ipv4.conf.eth0."] = ["devinet_sysctl"]
        self.write()
        sim = self.sim
        sim.programs["clang"] = self.p_clang2
        sim.programs["opt"] = self.p_opt2

    def table(self, name, unit, rows):
        self.homes = getattr(self, "homes", {})
        self.homes[name] = unit
        self.entries[name] = rows

    def rows(self, prefix, home):
        """[name, variable, place, handler, child]"""
        g, out = self.g, []
        hs = [f for f in self.funs if f.handler and (f.unit == home or not f.static)]
        for i in range(g.choose(5)):
            name = "%s%d" % (prefix, i)
            if out and g.chance(20):
                name = out[-1][0] + g.choice(["_x", "-y", "0"])
            vs = [v for v in self.vars if v.unit == home or not v.static]
            v = g.choice(vs) if vs and g.chance(85) else None
            path = g.choice([p for p in paths(v.type) if p or g.chance(30)] or [()]) if v else ()
            h = g.choice(hs).name if hs and g.chance(75) else "proc_missing" if g.chance(30) else None
            out.append([name, v, path, h, None])
        return out

    def write(self):
        g = self.g
        self.facts = {}          # file -> [(definition, symbol, scope, line, text)]
        self.headers["include/sysctl.h"] = CTL + "".join(
            "extern %s;\n" % (v.decl % v.name) for v in self.vars if not v.static) + "".join(
            "extern int %s(%s);\n" % (f.name, "struct ctl_table *, int" if f.handler else "int, void *")
            for f in self.funs if not f.static) + "extern int proc_missing(struct ctl_table *, int);\n" + \
            "".join("extern struct ctl_table %s[];\n" % t for t in self.entries if t != "devinet_sysctl") + "#endif\n"
        put(self.src + "/Makefile", "# kernel\n")
        for h, t in self.headers.items():
            put(os.path.join(self.src, h), t)
        for path in self.files:
            u = proj.Unit(path)
            self.units.append(u)
            lines, facts = ['#include "../%sinclude/sysctl.h"' % ("../" * (path.count("/") - 1))], []

            def add(text, *fs):
                n = sum(x.count("\n") + 1 for x in lines) + 1
                facts.extend([d, s, sc, n, text.split("\n")[0].strip()] for d, s, sc in fs)
                lines.append(text)
            parts = []
            for v in self.vars:
                if v.unit == path:
                    add(("static " if v.static else "") + v.decl % v.name + (" = %d" % g.choose(3) if v.type[0] == "s"
                                                                           else "") + ";",
                        ("1", v.name, v.name), ("0", v.name, "<global>"))
            parts += [f for f in self.funs if f.unit == path]
            parts += [t for t in self.entries if self.homes[t] == path]
            for f in [f for f in self.funs if f.unit == path and f.static]:
                lines.append("static int %s(%s);" % (f.name, "struct ctl_table *, int" if f.handler else
                                                     "int, void *"))
            g.shuffle(parts)
            for x in parts:
                if isinstance(x, str):
                    self.table_text(x, add)
                    continue
                for k, t in enumerate(x.lines()):
                    if k == 0:
                        add(t, ("1", x.name, x.name))
                    elif 2 <= k < 2 + len(x.uses):
                        add(t, ("0", x.uses[k - 2][0].name, x.name))
                    else:
                        add(t)
            # static functions that nothing uses would not be compiled
            for f in self.funs:
                if f.static and f.unit == path:
                    add("void *keep_%s = %s;" % (f.name, f.name), ("0", f.name, "<global>"))
            self.facts[path] = facts
            put(os.path.join(self.src, path), "\n".join(lines) + "\n")
        self.stamp(self.src)
        self.orig_sources = proj.tree(self.src)

    def table_text(self, t, add):
        g = self.g
        dev = t == "devinet_sysctl"
        if dev:
            add("static struct devinet_sysctl_table {\n\tvoid *header;\n\tstruct ctl_table devinet_vars[%d];\n"
                "} devinet_sysctl = {\n\t.devinet_vars = {" % (len(self.entries[t]) + 2),
                ("1", t, t), ("0", t, "<global>"))
            if not self.entries[t]:
                add('\t{ .mode = 1 },')
        else:
            add("struct ctl_table %s[] = {" % t, ("1", t, t), ("0", t, "<global>"))
        for name, v, path, h, child in self.entries[t]:
            fs = []
            parts = ['.procname = "%s"' % name]
            if v:
                e = expr(v.name, path)
                last = at(v.type, path)[1]
                e = e if last[0] == "a" and g.chance(50) else "&" + e
                if path and isinstance(path[-1], int) and g.chance(30):
                    e = "%s + %d" % (expr(v.name, path[:-1]), path[-1])
                parts += [".data = " + e, ".maxlen = sizeof(int)"]
                fs.append(("0", v.name, "<global>"))
            if h:
                parts.append(".proc_handler = " + ("(proc_handler *)" if g.chance(20) else "") + h)
                fs.append(("0", h, "<global>"))
            if child:
                parts.append(".child = " + child)
                fs.append(("0", child, "<global>"))
            if g.chance(60):
                parts.append(".mode = 0644")
            if g.chance(15):
                parts.append(".extra1 = (void *)%d" % g.choose(3))
            g.shuffle(parts)
            add("\t{ %s }," % ", ".join(parts), *fs)
            if g.chance(10):
                # an entry without a name
                add("\t{ .mode = 0444 },")
        if dev:
            add("\t}\n};")
            add("void *get_devinet(void)\n{\n\treturn &devinet_sysctl;\n}", ("1", "get_devinet", "get_devinet"))
        else:
            if g.chance(70):
                add("\t{ }")
            elif not self.entries[t]:
                add("\t{ .mode = 3 }")
            add("};")

    # -- the tools
    def run_tool(self, argv, cwd):
        sim = self.sim
        act, sim.active = sim.active, False
        try:
            p = R.Popen(argv, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd,
                        env={"PATH": "/usr/bin:/bin", "LANG": "C"})
            out, err = p.communicate()
            return p.returncode, out.decode("utf-8", "surrogateescape"), err.decode("utf-8", "replace")
        finally:
            sim.active = act

    def p_clang2(self, sim, call):
        argv, out, src = [LLVM + "clang"], None, None
        it = iter(call.argv[1:])
        for a in it:
            if a == "-o":
                out = next(it)
                continue
            if a.startswith("-Wp,"):
                continue
            if a.endswith(".c"):
                src = a
            argv.append(a)
        u = self.unit(os.path.join(call.cwd, src)) if src else None
        k = self.use_fault("clang", u.path if u else None)
        self.tool_log.append(("clang", u.path if u else src))
        if k == "error" or src is None or "-emit-llvm" not in argv:
            return 1
        rc, text, err = self.run_tool(argv + ["-w", "-o", "-"], call.cwd)
        if rc:
            raise RuntimeError("clang fails: %s\n%s" % (argv, err[-2000:]))
        self.out_file(out, text, k)
        return -9 if k == "killed" else 0

    def p_opt2(self, sim, call):
        argv = call.argv[1:]
        f = argv[0]
        if not os.path.exists(f):
            return 1
        u = self.unit(re.sub(r"\.ll(\.\w+)?$", ".c", os.path.normpath(os.path.join(call.cwd, f))))
        self.tool_log.append(("opt", u.path if u else f))
        k = self.use_fault("opt", u.path if u else None)
        if k == "error":
            return 1
        out = argv[argv.index("-o") + 1]
        rc, text, err = self.run_tool([LLVM + "opt", f, "-S", "-o", "-"] + [a for a in argv if a.startswith("-pa")],
                                      call.cwd)
        if rc:
            return 1              # a part of a file
        if k == "late-error":
            os.remove(out)
            return 1
        self.out_file(out, text, k)
        return -9 if k == "killed" else 0

    def p_cscope(self, sim, call):
        argv = call.argv[1:]
        if "-b" not in argv:
            return proj.World.p_cscope(self, sim, call)
        k = self.use_fault("cscope", "build")
        lst = argv[argv.index("-i") + 1]
        if k == "error" or not os.path.exists(lst):
            return 1
        rows = []
        for rel in self.rd(lst).split("\n"):
            for d, s, sc, n, text in self.facts.get(rel, ()):
                rows.append([d, s, rel, sc, n, text])
        self.out_file("cscope.out", json.dumps(rows) + "\nEND\n", k)
        return -9 if k == "killed" else 0

    # -- what is right
    def good(self, path):
        return not proj.unit_bad(self, path)

    def expected(self, plan, cq):
        """{(group, function): (unit, variable, tag)} that must, and may, be in the snapshot."""
        must, may = {}, {}
        funs = {f.name: f for f in self.funs}
        for pre, pat in plan:
            way = self.where[pre]
            if not all(self.good(self.homes[t]) for t in way) or any(t in cq for t in way):
                continue
            for name, v, path, h, child in self.entries[way[-1]]:
                if not (pat == "*" or pat == name or (pat[0] == "{" and name in pat[1:-1].split("|"))):
                    continue
                grp = pre + name
                hf = funs.get(h)
                if hf and self.good(hf.unit) and h not in cq:
                    must[(grp, h)] = (hf.unit, None, "proc handler function")
                elif hf and self.good(hf.unit):
                    may[(grp, h)] = (hf.unit, None, "proc handler function")
                if v is None or v.name in cq:
                    continue
                for f in self.funs:
                    rel = {v.relation(p, path) for x, p, _ in f.uses if x is v}
                    if f.name == h or not self.good(f.unit):
                        continue
                    val = (f.unit, v.name, 'using data variable "%s"' % v.name)
                    if "yes" in rel:
                        must[(grp, f.name)] = val
                    elif "maybe" in rel:
                        may[(grp, f.name)] = val
        return must, may
