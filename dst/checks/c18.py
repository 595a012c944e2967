"""C18: what a report says about the code - call stacks, diffs, definitions -
is what the sources of the two versions say."""
import os
import re

import yaml

from ..core import Violation
from ..worlds import real, report
from ..worlds.proj import get
from . import c07

ID = "C18"
RULE = "a run counts if at least two differences were reported; distinct by trace digest"
STATES = "distinct (mode, options, reported objects) vectors"
REAL = c07.REAL
STUB = c07.STUB
ASSUMPTIONS = ["programs have one to three C files and up to two headers; one statement and one call on a line; "
               "functions start at column 0 and end with a brace of their own",
               "definitions of other modules are not linked (that is C12)"]
RUNS = {"quick": (1500, 50), "thorough": (60000, 800)}
ENGINE = "real"
setup = c07.setup

HEAD = re.compile(r"^(?:static )?(?:inline __attribute__\(\(noinline\)\) )?(?:int|void) (\w+)\(int x\)(?: \{)?$")


class Source:
    """Where things are in the files of one version."""

    def __init__(self, prog, root, v):
        self.prog, self.root, self.v = prog, root, v
        self.lines, self.funs, self.types = {}, {}, {}
        for f in prog.texts(v):
            ls = get(root + "/" + f).decode().split("\n")
            self.lines[f] = ls
            i = 0
            while i < len(ls):
                m = HEAD.match(ls[i])
                t = re.match(r"^struct (\w+) \{$", ls[i])
                j = i
                if m or t:
                    while ls[j] not in ("}", "};"):
                        j += 1
                if m:
                    self.funs[(m.group(1), f)] = (i + 1, j + 1)
                elif t:
                    self.types[t.group(1)] = (f, i + 1, j + 1)
                i = j + 1
        self.all = {n for n, _ in self.funs}

    def find(self, name, file):
        """The file with the function `name` that code in file calls."""
        if (name, file) in self.funs:
            return file
        for n, f in self.funs:
            if n == name and (f.endswith(".h") or file.endswith(".h")):
                return f
        return None

    def inlined(self, name, file):
        """Where the code of the function and of those of its module that it calls is."""
        out, todo = set(), [(name, file)]
        while todo:
            n, f = todo.pop()
            r = self.funs.get((n, f))
            if r is None or (f,) + r in out:
                continue
            out.add((f,) + r)
            todo += [(c, x) for c in re.findall(r"\b(\w+)\(", " ".join(self.lines[f][r[0]:r[1]]))
                     for x in self.lines if x in (f, file) or x.endswith(".h")]
        return sorted(out)

    def walk(self, e, stack, name, file):
        """Follows a call stack; returns (function, file) in which it ends and
        the kind of its last object."""
        cur = name
        for i, (what, f, line) in enumerate(stack or []):
            def bad(msg):
                raise report.Bad("version %d, call stack %s of %s: %s" % (self.v, stack, e.name, msg))
            m = re.match(r"^(\w+)(?: \((\w+)\))?$", what)
            if not m:
                bad("strange object %s" % what)
            n, kind = m.groups()
            if i and stack[i - 1][0].endswith(" (macro)"):
                # used by another macro
                above = stack[i - 1][0].split(" ")[0]
                if kind != "macro" or f != "common.h" or not re.match(
                        r"#define %s\b.*\b%s\b" % (above, n), self.lines[f][(line or 0) - 1]):
                    bad("%s does not use %s" % (above, n))
                if i == len(stack) - 1:
                    return cur, file, kind
                continue
            # the macro may be used in a function that was inlined into cur
            where = self.inlined(cur, file) if kind else [(file,) + self.funs[(cur, file)]]
            if f not in [x[0] for x in where]:
                bad("%s is in %s" % (cur, file))
            if not line or not any(x == f and a <= line <= b for x, a, b in where):
                bad("line %s is not in %s %s" % (line, cur, where))
            text = self.lines[f][line - 1]
            if kind:
                if kind != "type" and not re.search(r"\b%s\b" % n, text):
                    bad("%s is not used in %r" % (n, text))
                if i != len(stack) - 1:
                    if kind != "macro":
                        bad("an object in the middle")
                    continue
                return cur, file, kind
            if not re.search(r"\b%s\(" % n, text):
                bad("%s is not called in %r" % (n, text))
            file = self.find(n, file)
            if file is None:
                bad("%s is not defined" % n)
            cur = n
        return cur, file, None


def check_entry(prog, srcs, files, name, e):
    """One difference: its call stacks and the diff shown for it."""
    ends = [srcs[i].walk(e, e.stacks.get(i), name, files[i]) for i in (0, 1)]
    if ends[0][0] != ends[1][0] or ends[0][2] != ends[1][2]:
        raise report.Bad("the call stacks of %s lead to %s and %s" % (e.name, ends[0], ends[1]))
    kind = ends[0][2]
    if kind is None:
        if e.name != ends[0][0]:
            raise report.Bad("the call stack of %s leads to %s" % (e.name, ends[0]))
        rng = [srcs[i].funs[(e.name, ends[i][1])] for i in (0, 1)]
        where = [ends[i][1] for i in (0, 1)]
    elif kind == "type":
        t = [s.types.get(e.name) for s in srcs]
        if None in t:
            raise report.Bad("there is no type %s" % e.name)
        rng, where = [x[1:] for x in t], [x[0] for x in t]
    else:
        if e.diff is None:
            return
        want = []
        for i in (0, 1):
            f = ends[i][1] if e.name != "CTX" or ends[i][1].endswith(".c") else files[i]
            if e.name == "CTX":
                val, ch = prog.ctx[f]
            else:
                val, ch = prog.macros[e.name]
            want.append(str(val + (1 if ch and srcs[i].v else 0)))
        got = [x.strip() for x in e.diff if x.strip()]
        if got != want:
            raise report.Bad("the values of %s are %s instead of %s" % (e.name, got, want))
        return
    if e.diff is None:
        return
    old, new = srcs[0].lines[where[0]], srcs[1].lines[where[1]]
    want = [x.rstrip() for x in new[rng[1][0] - 1:rng[1][1]]]
    if not any(x.strip() for x in e.diff):
        if [x.rstrip() for x in old[rng[0][0] - 1:rng[0][1]]] != want:
            raise report.Bad("the diff of %s is empty, but the text differs" % e.name)
        return
    start, got = report.apply_context(e.diff, old, *rng[0])
    if [x.rstrip() for x in got] != want:
        raise report.Bad("the diff of %s gives %r" % (e.name, got))
    if start != rng[1][0]:
        raise report.Bad("the new version of %s starts at line %d, not %d" % (e.name, rng[1][0], start))


def check_yaml(prog, srcs, files_of, data, reported):
    """diffkemp-out.yaml: the same call stacks, and where definitions are."""
    used = set()
    for res in data["results"]:
        name = res["function"]
        used.add(name)
        for d in res["diffs"]:
            e = report.Entry(d["function"])
            for i, lab in ((0, "old-callstack"), (1, "new-callstack")):
                e.stacks[i] = [(c["name"], c["file"], c["line"]) for c in d[lab]]
                used |= {c["name"].split(" ")[0] for c in d[lab] if not c["name"].endswith("(macro)")}
            for files in files_of[name]:
                try:
                    check_entry(prog, srcs, files, name, e)
                    break
                except report.Bad as x:
                    err = x
            else:
                raise report.Bad("diffkemp-out.yaml: %s" % err)
    for n, d in data["definitions"].items():
        for i, lab in ((0, "old"), (1, "new")):
            x = (d[lab].get("file"), d[lab].get("line"), d[lab].get("end-line"))
            s = srcs[i]
            n2 = d[lab].get("name", n) if i else n
            want = [s.types[n]] if d["kind"] == "type" and n in s.types else [
                (f, a, b) for (g, f), (a, b) in s.funs.items() if g == n2]
            if x not in want and n2 in s.all | set(s.types):
                raise report.Bad("diffkemp-out.yaml: the definition of %s (%s) is at %s instead of %s" % (
                    n2, lab, x, want))
    both = srcs[0].all & srcs[1].all
    miss = {n for n in used if n in both} - set(data["definitions"])
    if miss:
        raise report.Bad("diffkemp-out.yaml: no definitions of %s" % sorted(miss))


def scenario(run):
    g, f = run.s.gen, run.s.fault
    w = real.World(run, run.ctx)
    prog = w.prog
    groups = g.weighted([((None,), 4), (("kernel.a", "net.b"), 1)])
    lst = w.make_list(groups)
    for v in (0, 1):
        w.snapshot(v, lst)
    mode = g.weighted([("ffi", 4), ("binary", 2), ("modules", 2)])
    argv = list(c07.MODES[mode])
    if g.chance(70):
        argv += ["--disable-pattern", "numerical-macros"]
    full = g.chance(15)
    if full:
        argv.append("--full-diff")
    vers = [1, 0] if g.chance(15) else [0, 1]
    roots = [w.roots[v] for v in vers]
    srcs = [Source(prog, w.roots[v], v) for v in vers]
    fault = {fn.name: f.choice(["empty", "raise", "garbage"]) for fn in prog.funs.values() if f.chance(8)}
    w.seam(fault)
    stdout = g.chance(40)
    d = w.root + "/res"
    p = w.cli(["compare"] + roots + argv + (["--stdout"] if stdout else ["-o", d]), "compare")
    if p.rc != 0:
        raise Violation(ID + "/crash", "the comparison failed: rc %s %s" % (p.rc, p.stderr()[-700:]))
    out = p.stdout()
    files_of, reports = {}, []
    for gr, key in lst:
        fn = prog.funs[key]
        files_of.setdefault(fn.name, []).append([prog.file_of(fn, v) for v in vers])
    try:
        rep = report.parse_stdout(out, roots[0], roots[1], set(groups))
        funs = [x for x in rep.funs.values() if not isinstance(x, str)]
        if not stdout and os.path.isdir(d):
            for gr in [None] + sorted(x for x in groups if x):
                dd = os.path.join(d, gr or "")
                for n in sorted(os.listdir(dd)) if os.path.isdir(dd) else []:
                    if n.endswith(".diff"):
                        funs.append(report.parse_diff_file(dd + "/" + n, n[:-5], gr, *roots))
        objs = []
        for x in funs:
            files = next([prog.file_of(prog.funs[k], v) for v in vers] for gr, k in lst
                         if gr == x.group and prog.funs[k].name == x.name)
            for e in x.entries:
                objs.append((x.name, e.name))
                try:
                    check_entry(prog, srcs, files, x.name, e)
                except report.Bad as err:
                    raise report.Bad("%s (%s, mode %s): %s" % (x.name, files[0], mode, err))
        if not stdout and os.path.isdir(d) and funs:
            check_yaml(prog, srcs, files_of, yaml.safe_load(get(d + "/diffkemp-out.yaml")), objs)
    except report.Bad as err:
        raise Violation(ID + "/content", "%s\n%s" % (err, out[-1500:]))
    run.sample = {"argv": argv, "objects": objs[:12]}
    run.state((mode, full, sorted(objs)))
    run.count("differences", len(objs))
    run.nontrivial = len(objs) > 1
