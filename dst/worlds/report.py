"""Reads the reports of diffkemp compare and compares them with the answer
that is known from the generated programs."""
import os
import re

from ..core import R, Violation
from .proj import get

NOT_OBTAINED = "  [could not obtain diff]\n"


class Bad(Exception):
    """A report that cannot be read."""


# -- reading -------------------------------------------------------------------

class Entry:
    def __init__(self, name):
        self.name, self.stacks, self.body, self.diff = name, {}, None, None


def parse_stack(lines):
    out = []
    for ln in lines:
        m = re.match(r"^(.*) at (.*):(\d+|None)$", ln)
        if not m:
            raise Bad("call stack line %r" % ln)
        out.append((m.group(1), m.group(2), int(m.group(3)) if m.group(3) != "None" else None))
    return out


def dedent(lines, n):
    out = []
    for ln in lines:
        if ln and ln[:n].strip():
            raise Bad("line %r is not indented by %d" % (ln, n))
        out.append(ln[n:])
    return out


def parse_entries(lines, old, new, braces):
    """Entries "X differs:" with their call stacks and diffs."""
    out, i = [], 0
    while i < len(lines):
        if not lines[i].strip():
            i += 1
            continue
        m = re.match(r"^(\S.*) differs:$", lines[i])
        if not m:
            raise Bad("unexpected line %r" % lines[i])
        e = Entry(m.group(1))
        i += 1
        j = i
        while j < len(lines) and not re.match(r"^(\S.*) differs:$", lines[j]):
            j += 1
        body = lines[i:j]
        i = j
        while body and not body[-1].strip():
            body.pop()
        if braces:
            if not body or body[0] != "{{{" or body[-1] != "}}}":
                raise Bad("no braces around the difference in %s: %r" % (e.name, body))
            body = body[1:-1]
        body = dedent(body, 2)
        k = 0
        for side, d in ((0, old), (1, new)):
            if k < len(body) and body[k] == "Callstack (%s):" % d and side not in e.stacks:
                h = k + 1
                while h < len(body) and body[h]:
                    h += 1
                e.stacks[side] = parse_stack(body[k + 1:h])
                k = h
                while k < len(body) and not body[k]:
                    k += 1
        if k < len(body):
            if body[k] != "Diff:":
                raise Bad("unexpected line %r in the difference in %s" % (body[k], e.name))
            e.diff = body[k + 1:]
        out.append(e)
    return out


class Fun:
    def __init__(self, group, name):
        self.group, self.name, self.tag, self.entries = group, name, None, None
        self.kind = "not-equal"


def parse_diff_file(path, name, group, old, new):
    t = get(path)
    t = t.decode() if t is not None else None
    if t is None:
        raise Bad("%s cannot be read" % path)
    lines = t.split("\n")
    m = re.match(r"^Found differences in functions called by (\S+)(?: \((.*)\))?$", lines[0])
    if not m or m.group(1) != name:
        raise Bad("first line of %s is %r" % (path, lines[0]))
    f = Fun(group, name)
    f.tag = m.group(2)
    f.entries = parse_entries(lines[1:], old, new, False)
    return f


STATS = re.compile(r"^([A-Z(1][\w :()1,.-]*?):\s+(\S.*)$")


class Report:
    """What a run of diffkemp compare reported."""

    def __init__(self):
        self.funs = {}           # (group, name) -> Fun or kind
        self.stats, self.object_stats = None, None
        self.unknown = self.errors = None
        self.stored, self.yaml = None, None


def parse_stdout(text, old, new, groups):
    """groups: the known group names (None for plain lists)."""
    r = Report()
    lines = text.split("\n")
    if "Statistics" in lines:
        i = lines.index("Statistics")
        st = lines[i + 1:]
        lines = lines[:i]
        parse_stats(r, st)
    cur, i = None, 0
    while i < len(lines):
        ln = lines[i]
        i += 1
        if not ln.strip():
            continue
        m = re.match(r"^Differences stored in (.*)/$", ln)
        if m:
            r.stored = m.group(1)
            continue
        m = re.match(r"^(\S+): ([a-z].*)$", ln)
        if m:
            if (cur, m.group(1)) in r.funs:
                raise Bad("%s is reported twice" % m.group(1))
            r.funs[(cur, m.group(1))] = m.group(2)
            continue
        m = re.match(r"^([\w.-]+):$", ln)
        if m and m.group(1) in groups and ln[0] != " ":
            if m.group(1) == cur:
                raise Bad("group %s is printed twice" % cur)
            cur = m.group(1)
            continue
        ind = 2 if cur is not None else 0
        m = re.match(r"^ {%d}(\S+)(?: \((.*)\))?:$" % ind, ln)
        if not m:
            raise Bad("unexpected line of output: %r" % ln)
        f = Fun(cur, m.group(1))
        f.tag = m.group(2)
        body = []
        while i < len(lines) and (not lines[i] or lines[i].startswith(" " * (ind + 2))):
            body.append(lines[i])
            i += 1
        f.entries = parse_entries(dedent(body, ind + 2), old, new, True)
        if (cur, f.name) in r.funs:
            raise Bad("%s is reported twice" % f.name)
        r.funs[(cur, f.name)] = f
    return r


def parse_stats(r, lines):
    r.stats, r.object_stats, lst = {}, {}, None
    for ln in lines:
        if ln.startswith("---") or not ln.strip():
            continue
        if ln.startswith("Functions that are unknown"):
            lst = r.unknown = []
            continue
        if ln.startswith("Functions whose comparison ended"):
            lst = r.errors = []
            continue
        m = STATS.match(ln)
        if m:
            k, v = m.group(1), m.group(2)
            d = r.stats if k in ("Total symbols", "Equal", "Not equal", "(empty diff)", "Unknown",
                                 "Errors") else r.object_stats
            if k in d:
                raise Bad("%s is in the statistics twice" % k)
            d[k] = v
            continue
        if lst is None:
            raise Bad("unexpected line in the statistics: %r" % ln)
        lst.append(ln)


# -- a context diff turns one version into the other ------------------------------

def hunks(lines):
    """[(old start, old lines or None, new start, new lines or None)]; a line
    is (mark, text)."""
    out, i = [], 0
    while i < len(lines):
        if not lines[i].strip():
            i += 1
            continue
        if not re.match(r"^\*{15}", lines[i]):
            raise Bad("a hunk starts with %r" % lines[i])
        i += 1
        m = re.match(r"^\*\*\* (\d+)(?:,(\d+))? \*\*\*$", lines[i] if i < len(lines) else "")
        if not m:
            raise Bad("no range of the old version: %r" % lines[i:i + 1])
        o = [int(m.group(1)), int(m.group(2) or m.group(1)), []]
        i += 1
        while i < len(lines) and not re.match(r"^--- \d+(,\d+)? ---$", lines[i]):
            o[2].append((lines[i][:2], lines[i][2:]))
            i += 1
        if i == len(lines):
            raise Bad("no range of the new version")
        m = re.match(r"^--- (\d+)(?:,(\d+))? ---$", lines[i])
        n = [int(m.group(1)), int(m.group(2) or m.group(1)), []]
        i += 1
        while i < len(lines) and not re.match(r"^\*{15}", lines[i]):
            n[2].append((lines[i][:2], lines[i][2:]))
            i += 1
        cnt = n[1] - n[0] + 1
        while n[2] and not (n[2][-1][0] + n[2][-1][1]).strip() and (
                len(n[2]) > cnt or not any(m.strip() for m, t in n[2])):
            n[2].pop()
        if n[2] and i >= len(lines):      # blank lines at the end of the report
            n[2] += [("  ", "")] * (cnt - len(n[2]))
        out.append((o, n))
    return out


def apply_context(lines, old, o_start, o_end):
    """The new version of the lines o_start..o_end of `old` according to the
    context diff (Bad if the diff does not fit)."""
    res, at = [], o_start
    new_at = None
    for o, n in hunks(lines):
        otext = [t for m, t in o[2]]
        ntext = [t for m, t in n[2]]
        if not o[2]:
            otext = [t for m, t in n[2] if m != "+ "]
        if not n[2]:
            ntext = [t for m, t in o[2] if m != "- "]
        if len(otext) != o[1] - o[0] + 1 or len(ntext) != n[1] - n[0] + 1:
            raise Bad("the ranges %s do not fit the lines shown" % [o[:2], n[:2]])
        if o[0] < at or o[1] > o_end:
            raise Bad("old range %s is not in %d-%d" % (o[:2], at, o_end))
        if [x.rstrip() for x in old[o[0] - 1:o[1]]] != [x.rstrip() for x in otext]:
            raise Bad("old lines %d-%d are not %r" % (o[0], o[1], otext))
        res += old[at - 1:o[0] - 1]
        if new_at is None:
            new_at = n[0] - len(res)
        elif n[0] != new_at + len(res):
            raise Bad("new range %s starts at a wrong line" % n[:2])
        res += ntext
        at = o[1] + 1
    res += old[at - 1:o_end]
    return new_at, res


# -- comparison with the known answer -----------------------------------------------

class Oracle:
    """The report that the comparison of a Pair has to give."""

    def __init__(self, pair, full=False, show=True, regex=None, failed=(), only=None, lost=()):
        self.w, self.p = pair, pair.prog
        self.full, self.show, self.regex = full, show, regex
        self.failed = set(failed)          # functions whose comparison failed
        self.lost = set(lost)              # sources (version, file) that cannot be read
        self.exp, raw = {}, {}
        self.text = [{}, {}]
        for gr, funs in sorted(pair.expected().items(), key=lambda x: x[0] or ""):
            for n, a in sorted(funs.items()):
                if only is not None and n != only:
                    continue
                if a is None:
                    self.exp[(gr, n)] = "unknown"
                elif n in self.failed:
                    self.exp[(gr, n)] = "error"
                else:
                    self.exp[(gr, n)] = self.entries(n, a)
                    raw[(gr, n)] = a
        for k, v in self.exp.items():
            if not isinstance(v, dict):
                continue
            if not raw[k] or (regex is not None and not self.matches(v)):
                self.exp[k] = dict(equal=True, **{"entries": v}) if full else "equal"

    def matches(self, entries):
        return any(re.search(self.regex, self.diff_text(n, e)) for n, e in entries.items())

    def diff_text(self, name, e):
        raise NotImplementedError

    def lines(self, v, f):
        if f not in self.text[v]:
            self.text[v][f] = self.w.prog.render_file(f, v)[0].split("\n")
        return self.text[v][f]

    def body(self, v, fn):
        pos = self.w.pos[v][fn.name]
        return self.lines(v, fn.file)[pos[0] - 1:pos[3]]

    def hidden(self, fn):
        """No textual difference, explained by another object."""
        return self.body(0, fn) == self.body(1, fn) and bool(self.p.own_diffs(fn)[1])

    def entries(self, name, answer):
        """{reported object: (kind, functions it may come from)}."""
        out = {}
        for f, objs in answer.items():
            fn = self.p.funs[f]
            if not self.hidden(fn) or self.unreadable(fn):
                out[f] = ("function", [f])
            for o in objs:
                k = "type" if o in self.p.types else "macro"
                out.setdefault(o, (k, []))[1].append(f)
        if self.full:
            for f in self.reach(name):
                fn = self.p.funs[f]
                if f not in answer and (self.body(0, fn) != self.body(1, fn) or self.unreadable(fn)):
                    out[f] = ("function", [f])
        return out

    def unreadable(self, fn):
        return (0, fn.file) in self.lost or (1, fn.file) in self.lost

    def reach(self, name):
        """Functions of the module that are reachable in both versions."""
        f = self.p.funs[name].file
        defs = [{x.name for x in self.p.defined(f, v)} for v in (0, 1)]
        seen, todo = [], [name]
        while todo:
            n = todo.pop()
            if n in seen or n not in defs[0] or n not in defs[1]:
                continue
            seen.append(n)
            todo += self.p.funs[n].calls
        return seen

    # checks of one entry
    def check_stack(self, e, side, name, prefix_root, target, obj):
        """A call stack is a chain of real calls from `name` to the object."""
        st = e.stacks.get(side)
        p = self.p
        if st is None:
            if obj is None and target == [name]:
                return
            raise Bad("no call stack of version %d" % side)
        cur = name
        for i, (callee, file, line) in enumerate(st):
            fn = p.funs[cur]
            pos = self.w.pos[side][cur]
            if file != fn.file:
                raise Bad("%s is not called in %s (%s)" % (callee, file, st))
            if obj is not None and i == len(st) - 1:
                if callee != "%s (%s)" % (e.name, obj) or cur not in target:
                    raise Bad("the call stack ends with %s in %s" % (callee, cur))
                ok = [ln for (k, n), ln in zip(fn.uses, pos[2]) if n == e.name]
                if line not in ok:
                    raise Bad("%s is not used at %s:%s" % (e.name, file, line))
                return
            ok = [ln for c, ln in zip(fn.calls, pos[1]) if c == callee]
            if line not in ok:
                raise Bad("%s is not called at %s:%s in %s" % (callee, file, line, cur))
            cur = callee
        if obj is not None or [cur] != target:
            raise Bad("the call stack ends in %s" % cur)

    def check_diff(self, e, kind, srcs):
        p = self.p
        if kind == "macro":
            want = ["  " + p.macro_body(e.name, 0), "", "  " + p.macro_body(e.name, 1)]
            got = [x for x in e.diff]
            while got and not got[-1].strip():
                got.pop()
            if got != want:
                raise Bad("the macro bodies are %r instead of %r" % (got, want))
            return
        if kind == "function":
            fn = p.funs[e.name]
            f = fn.file
            rng = [(self.w.pos[v][e.name][0], self.w.pos[v][e.name][3]) for v in (0, 1)]
        else:
            f = p.types[e.name][0]
            rng = [(self.w.pos[v][e.name], self.w.pos[v][e.name] + 3) for v in (0, 1)]
        if (0, f) in self.lost or (1, f) in self.lost:
            if "\n".join(e.diff).strip() != NOT_OBTAINED.strip():
                raise Bad("the diff of a source that cannot be read is %r" % e.diff)
            return
        old, new = self.lines(0, f), self.lines(1, f)
        want = new[rng[1][0] - 1:rng[1][1]]
        if not any(x.strip() for x in e.diff):
            if old[rng[0][0] - 1:rng[0][1]] != want:
                raise Bad("the diff is empty, but the text differs")
            return
        start, got = apply_context(e.diff, old, rng[0][0], rng[0][1])
        if [x.rstrip() for x in got] != [x.rstrip() for x in want]:
            raise Bad("the diff does not lead to the new version: %r" % got)
        if start != rng[1][0]:
            raise Bad("the new version starts at line %d instead of %d" % (start, rng[1][0]))

    def check_fun(self, name, group, f, want):
        tag = next(t for g, n, w, t in self.w.list if g == group and n == name)
        if f.tag != tag:
            raise Bad("tag %r instead of %r" % (f.tag, tag))
        got = [e.name for e in f.entries]
        if got != sorted(got):
            raise Bad("the differences are not sorted: %s" % got)
        if len(got) != len(set(got)) or set(got) != set(want):
            raise Bad("differing objects %s instead of %s" % (got, sorted(want)))
        for e in f.entries:
            kind, srcs = want[e.name]
            for side in (0, 1):
                self.check_stack(e, side, name, None, srcs if kind != "function" else [e.name],
                                 kind if kind != "function" else None)
            if self.show != (e.diff is not None):
                raise Bad("the diff of %s is %sshown" % (e.name, "not " if self.show else ""))
            if self.show:
                self.check_diff(e, kind, srcs)

    def want_of(self, key):
        """(kind, entries shown or None)."""
        v = self.exp[key]
        if isinstance(v, str):
            return v, None
        if "equal" in v:
            return "equal", v["entries"] or None
        return "not-equal", v

    # checks of the reports
    def check_report(self, ID, r, outdir, stdout_mode):
        """r: the parsed output; outdir: output directory (None for stdout)."""
        def bad(key, msg):
            raise Violation("%s/%s" % (ID, key), msg)
        shown = {}
        for k in self.exp:
            kind, ent = self.want_of(k)
            if kind in ("unknown", "error"):
                if r.funs.get(k) != kind:
                    bad("lost-" + kind, "%s is %s, reported: %s" % (k, kind, describe(r.funs.get(k))))
            elif ent is not None:
                shown[k] = ent
        for k, f in r.funs.items():
            if k not in self.exp:
                bad("foreign", "%s is reported, but not in both snapshots" % (k,))
            if isinstance(f, str):
                if self.want_of(k)[0] != f:
                    bad("wrong-kind", "%s is reported as %s instead of %s" % (k, f, self.want_of(k)[0]))
            elif not stdout_mode:
                bad("stdout", "%s is printed although an output directory is used" % (k,))
        if stdout_mode:
            files = {k: f for k, f in r.funs.items() if not isinstance(f, str)}
        else:
            files = self.read_dir(ID, outdir)
        for k in files:
            if k not in shown:
                bad("false-difference", "%s is reported to differ, but it is %s" % (
                    k, self.want_of(k)[0] if k in self.exp else "not compared"))
        for k, ent in shown.items():
            if k not in files:
                bad("lost-difference", "%s differs in %s, but that is not reported" % (k, sorted(ent)))
            try:
                self.check_fun(k[1], k[0], files[k], ent)
            except Bad as e:
                bad("content", "report of %s: %s" % (k, e))
        return files

    def read_dir(self, ID, outdir):
        files = {}
        if not os.path.isdir(outdir):
            return files
        for base, dirs, names in os.walk(outdir):
            group = os.path.relpath(base, outdir)
            group = None if group == "." else group
            for n in names:
                if n == "diffkemp-out.yaml" and group is None:
                    continue
                if not n.endswith(".diff"):
                    raise Violation(ID + "/output-file", "unexpected file %s/%s" % (group, n))
                try:
                    files[(group, n[:-5])] = parse_diff_file(
                        os.path.join(base, n), n[:-5], group, self.arg_old, self.arg_new)
                except Bad as e:
                    raise Violation(ID + "/content", str(e))
        return files

    def check_stats(self, ID, r, errors_shown):
        kinds = [self.want_of(k)[0] for k in self.exp]
        total = len(kinds)
        if r.stats is None:
            raise Violation(ID + "/stats", "no statistics")
        want = {}
        if total:
            want = {"Total symbols": str(total)}
            empty = 0
            for k in self.exp:
                kind, ent = self.want_of(k)
                if kind == "not-equal" and all(x[0] == "function" for x in ent.values()) and all(
                        self.body(0, self.p.funs[n]) == self.body(1, self.p.funs[n]) and
                        not self.unreadable(self.p.funs[n]) for n in ent):
                    empty += 1
            for lab, n in (("Equal", kinds.count("equal")), ("Not equal", kinds.count("not-equal")),
                           ("(empty diff)", empty), ("Unknown", kinds.count("unknown")),
                           ("Errors", kinds.count("error"))):
                want[lab] = "%d (%.0f%%)" % (n, 100.0 * n / total)
        if r.stats != want:
            raise Violation(ID + "/stats", "statistics %s instead of %s" % (r.stats, want))
        for lab, kind, got in (("unknown", "unknown", r.unknown), ("errors", "error", r.errors)):
            names = sorted(k[1] for k in self.exp if self.want_of(k)[0] == kind)
            if sorted(got or []) != (names if errors_shown else []):
                raise Violation(ID + "/show-errors", "list of %s is %s instead of %s" % (lab, got, names))

    def check_object_stats(self, ID, r):
        objs = {}
        for k in self.exp:
            kind, ent = self.want_of(k)
            for n, (t, srcs) in (ent or {}).items():
                objs[n] = t
        want = {"Total differences": len(objs)}
        if objs:
            for lab, t in (("In functions", "function"), ("In types", "type"), ("In macros", "macro")):
                want[lab] = sum(1 for x in objs.values() if x == t)
            want["In inline assembly code"] = 0
        for lab, n in want.items():
            got = r.object_stats.get(lab)
            if got is None or int(got.split()[0]) != n:
                raise Violation(ID + "/object-stats", "%s is %s instead of %s" % (lab, got, n))

    def check_yaml(self, ID, data, old, new):
        """The file diffkemp-out.yaml."""
        def bad(key, msg):
            raise Violation("%s/%s" % (ID, key), "diffkemp-out.yaml: " + msg)
        if data.get("old-snapshot") != os.path.join(old, "") or data.get("new-snapshot") != os.path.join(
                new, ""):
            bad("yaml", "snapshots %s, %s" % (data.get("old-snapshot"), data.get("new-snapshot")))
        want = [k for k in self.exp if self.want_of(k)[0] == "not-equal"]
        got = data["results"]
        if sorted(x["function"] for x in got) != sorted(k[1] for k in want):
            bad("yaml-results", "results for %s instead of %s" % (
                sorted(x["function"] for x in got), sorted(want)))
        names, types = set(), set()
        for k, res in zip(sorted(want, key=lambda k: (k[1], k[0] or "")),
                          sorted(got, key=lambda x: x["function"])):
            ent = self.want_of(k)[1]
            names.add(k[1])
            if sorted(d["function"] for d in res["diffs"]) != sorted(ent):
                bad("yaml-results", "differing objects %s of %s instead of %s" % (
                    [d["function"] for d in res["diffs"]], k, sorted(ent)))
            for d in res["diffs"]:
                kind, srcs = ent[d["function"]]
                e = Entry(d["function"])
                for side, lab in ((0, "old-callstack"), (1, "new-callstack")):
                    st = [(c["name"], c["file"], c["line"]) for c in d[lab]]
                    e.stacks[side] = st or None
                    try:
                        self.check_stack(e, side, k[1], None, srcs if kind != "function" else [e.name],
                                         kind if kind != "function" else None)
                    except Bad as x:
                        bad("yaml-callstack", "%s of %s in %s: %s" % (lab, e.name, k, x))
                    for c in st:
                        m = re.match(r"^(\S+)(?: \((\w+)\))?$", c[0])
                        if m.group(2) is None:
                            names.add(m.group(1))
                        elif m.group(2) == "type":
                            types.add(m.group(1))
        defs = data["definitions"]
        if set(defs) != names | types:
            bad("definitions", "definitions of %s instead of %s" % (sorted(defs), sorted(names | types)))
        for n, d in defs.items():
            if d["kind"] != ("type" if n in types else "function"):
                bad("definitions", "%s is a %s" % (n, d["kind"]))
            for v, lab in ((0, "old"), (1, "new")):
                if n in types:
                    f = self.p.types[n][0]
                    line, end = self.w.pos[v][n], self.w.pos[v][n] + 3
                else:
                    f = self.p.funs[n].file
                    line, _, _, end = self.w.pos[v][n]
                want = {"line": line, "file": f, "end-line": end}
                if (v, f) in self.lost:
                    del want["end-line"]
                if d[lab] != want:
                    bad("definitions", "%s of %s is %s instead of %s" % (lab, n, d[lab], want))


def describe(x):
    return x if x is None or isinstance(x, str) else "differing in %s" % [e.name for e in x.entries]
