"""Functions for which it is known what depends on a global variable.

The functions are made of assignments, calls, branches, loops and jumps; every
constant is unique and may differ between the versions. What depends on the
variable is computed on the graph of statements; calls of unknown functions
keep the compiler from finding out anything about values."""

VARS = {"gv": ("int gv;", ["gv"]),
        "gp": ("struct pair { int x, y; } gp;", ["gp.x", "gp.y"]),
        "ga": ("int ga[4];", ["ga[1]", "ga[3]", "ga[%s & 3]"]),
        "gq": ("int *gq;", ["*gq", "gq[2]"]),
        "gl": ("long gl;", ["(int)gl"])}
HEAD = ("extern int get(int);\nextern void e1(int), e2(int), e3(int), ext(void *);\nextern int gw, gx;\n" +
        "".join("extern %s\n" % d for d, _ in VARS.values()))


class Node:
    """A statement or a condition: what it reads and writes."""

    def __init__(self, kind, uses=(), reads=(), define=None, spots=(), helpers=()):
        self.kind, self.uses, self.reads = kind, set(uses), set(reads)
        self.define, self.spots, self.helpers = define, list(spots), list(helpers)
        self.succ = []


class Function:
    def __init__(self, g, name, spot, helpers):
        self.g, self.name, self.new_spot, self.helpers = g, name, spot, helpers
        self.nlocals = 0
        self.vars = g.sample(sorted(VARS), 1 + g.choose(2))
        self.locals = ["i"]
        self.writer = g.chance(15)        # writes the variables and never reads them
        self.budget = 4 + g.choose(14)
        self.label = g.chance(20)
        self.lines, self.nodes = [], []
        self.build()

    # -- expressions
    def expr(self, dep=None):
        """(text, locals, variables, spots)"""
        g = self.g
        uses, reads, spots, parts = set(), set(), [], []
        for _ in range(g.weighted([(1, 6), (2, 3)])):
            if not self.writer and g.chance(25 if dep is None else dep):
                v = g.choice(self.vars)
                t = g.choice(VARS[v][1])
                reads.add(v)
                if "%s" in t:
                    u = g.choice(self.locals)
                    uses.add(u)
                    t = t % u
            else:
                t = g.choice(self.locals)
                uses.add(t)
            s = self.new_spot()
            spots.append(s)
            parts.append(g.choice(["%s * @%d@", "%s + @%d@", "(%s ^ @%d@)"]) % (t, s))
        return " + ".join(parts), uses, reads, spots

    def node(self, kind, ex=("", (), (), ()), define=None, helpers=()):
        n = Node(kind, ex[1], ex[2], define, ex[3], helpers)
        self.nodes.append(n)
        return n

    def emit(self, indent, text):
        self.lines.append("\t" * indent + text)

    def local(self):
        self.nlocals += 1
        return "l%d" % self.nlocals

    # -- statements; they return the nodes whose next node is not known
    def build(self):
        self.entry = self.node("entry", define="i")
        self.exit = Node("exit")
        self.labels, out = [], [self.entry]
        for _ in range(1 + self.g.choose(2)):
            out = self.simple(1, out, "get")
        self.loops = []
        out = self.block(1, out, 0)
        if self.label:
            out = out + self.labels
            self.label = False
            self.emit(0, "out: ;")
            out = self.block(1, out, 2, few=True)
        ex = self.expr()
        n = self.node("ret", ex)
        self.emit(1, "return %s;" % ex[0])
        self.link(out, n)
        n.succ.append(self.exit)
        self.nodes.append(self.exit)

    def link(self, out, n):
        for o in out:
            if n not in o.succ:
                o.succ.append(n)

    def simple(self, d, out, kind):
        g = self.g
        ex = self.expr()
        if kind == "get":
            x = self.local()
            self.emit(d, "%s = get(%s);" % (x, ex[0]))
            n = self.node("call", ex, x)
            self.locals.append(x)
        elif kind == "set":
            x = g.choice(self.locals)
            self.emit(d, "%s = %s;" % (x, ex[0]))
            n = self.node("set", ex, x)
        elif kind == "help":
            h = g.choice(self.helpers)
            x = self.local()
            self.emit(d, "%s = %s(%s);" % (x, h[0], ex[0]))
            n = self.node("call", ex, x, [h[0]])
            self.locals.append(x)
        elif kind == "call":
            self.emit(d, "e%d(%s);" % (1 + g.choose(3), ex[0]))
            n = self.node("call", ex)
        elif kind == "store":
            self.emit(d, "%s = %s;" % (g.choice(["gw", "gx"]), ex[0]))
            n = self.node("call", ex)
        elif kind == "addr":
            v = g.choice(self.vars)
            self.emit(d, "ext(&%s);" % v)
            n = self.node("call", ("", (), {v}, ()))
        else:
            v = g.choice(self.vars)
            self.emit(d, "%s = %s;" % (g.choice([t for t in VARS[v][1] if "%" not in t and "(" not in t] or ["gl"]),
                                       ex[0]))
            n = self.node("call", (ex[0], ex[1], ex[2] | {v}, ex[3]))
        self.link(out, n)
        return [n]

    def cond(self, d, out):
        """A condition; the lines before it compute it."""
        g = self.g
        if g.chance(35):
            out = self.simple(d, out, "get")
            x = self.locals[-1]
            s = self.new_spot()
            ex = ("%s > @%d@" % (x, s), {x}, set(), [s])
        else:
            e = self.expr(dep=35)
            s = self.new_spot()
            ex = ("((%s) ^ @%d@) > i" % (e[0], s), e[1] | {"i"}, e[2], e[3] + [s])
        return ex, out

    def block(self, d, out, depth, few=False):
        g = self.g
        scope = len(self.locals)
        for _ in range(1 + g.choose(2 if few else 5)):
            if not out:
                break
            self.budget -= 1
            k = g.weighted([("call", 5), ("set", 5), ("get", 2), ("store", 1), ("addr", 0 if self.writer else 1),
                            ("setv", 4 if self.writer else 0), ("help", 2 if self.helpers else 0)] +
                           ([("if", 6), ("loop", 3), ("switch", 1)] if self.budget > 0 and depth < 3 else []) +
                           ([("break", 1), ("continue", 1)] if self.loops else []) +
                           ([("ret", 1)] if depth else []) + ([("goto", 1)] if self.label and depth else []))
            if k == "if":
                ex, out = self.cond(d, out)
                n = self.node("cond", ex)
                self.link(out, n)
                self.emit(d, "if (%s) {" % ex[0])
                a = self.block(d + 1, [n], depth + 1)
                if g.chance(40):
                    self.emit(d, "} else {")
                    b = self.block(d + 1, [n], depth + 1)
                else:
                    b = [n]
                self.emit(d, "}")
                out = a + [x for x in b if x not in a]
            elif k == "loop":
                out = self.loop(d, out, depth)
            elif k == "switch":
                ex = self.expr(dep=40)
                # (a comparison of a product with a constant may be known to be false)
                s = self.new_spot()
                n = self.node("cond", (ex[0], ex[1], ex[2], ex[3] + [s]))
                self.link(out, n)
                self.emit(d, "switch ((%s) ^ @%d@) {" % (ex[0], s))
                out, prev = [], []
                loops, self.loops = self.loops, []
                for c in range(1 + g.choose(3)):
                    self.emit(d, "case %d: {" % (1000 + 17 * c))
                    o = self.block(d + 1, [n] + prev, depth + 1)
                    prev = []
                    if g.chance(70):
                        self.emit(d, "} break;")
                        out += o
                    else:
                        self.emit(d, "}")
                        prev = o
                if g.chance(60):
                    self.emit(d, "default: {")
                    out += self.block(d + 1, [n] + prev, depth + 1)
                    self.emit(d, "}")
                else:
                    out += prev + [n]
                self.loops = loops
                self.emit(d, "}")
            elif k in ("break", "continue"):
                self.emit(d, k + ";")
                self.loops[-1][k] += out
                out = []
            elif k == "goto":
                self.emit(d, "goto out;")
                self.labels += out
                out = []
            elif k == "ret":
                ex = self.expr()
                n = self.node("ret", ex)
                self.emit(d, "return %s;" % ex[0])
                self.link(out, n)
                n.succ.append(self.exit)
                out = []
            else:
                out = self.simple(d, out, k)
        del self.locals[scope:]
        return out

    def loop(self, d, out, depth):
        g = self.g
        kind = g.choice(["while", "for", "do"])
        jumps = {"break": [], "continue": []}
        self.loops.append(jumps)
        scope = len(self.locals)
        if kind == "while":
            # the condition is asked anew each time
            ex = self.expr(dep=30)
            s = self.new_spot()
            x = self.local()
            self.emit(d, "while ((%s = get(%s)) > @%d@) {" % (x, ex[0], s))
            q = self.node("call", ex, x)
            n = self.node("cond", ("", {x}, set(), [s]))
            self.link(out, q)
            self.link([q], n)
            self.locals.append(x)
            end = self.block(d + 1, [n], depth + 1)
            self.emit(d, "}")
            self.link(end + jumps["continue"], q)
            out = [n] + jumps["break"]
        elif kind == "for":
            x = self.local()
            ex = self.expr(dep=30)
            # (nothing is known about the bound)
            s = self.new_spot()
            ex = ("(%s) ^ @%d@" % (ex[0], s), ex[1], ex[2], ex[3] + [s])
            self.emit(d, "for (%s = i; %s < (%s); %s++) {" % (x, x, ex[0], x))
            first = self.node("set", ("", {"i"}, (), ()), x)
            n = self.node("cond", (ex[0], ex[1] | {x}, ex[2], ex[3]))
            inc = self.node("set", ("", {x}, (), ()), x)
            self.link(out, first)
            self.link([first], n)
            self.locals.append(x)
            end = self.block(d + 1, [n], depth + 1)
            self.emit(d, "}")
            self.link(end + jumps["continue"], inc)
            self.link([inc], n)
            out = [n] + jumps["break"]
        else:
            top = self.node("nop")
            self.link(out, top)
            self.emit(d, "do {")
            end = self.block(d + 1, [top], depth + 1) + jumps["continue"]
            ex = self.expr(dep=30)
            s = self.new_spot()
            bad = [u for u in ex[1] if u not in self.locals]
            assert not bad
            self.emit(d, "} while (get(%s) > @%d@);" % (ex[0], s))
            x = self.local()
            q = self.node("call", ex, x)
            n = self.node("cond", ("", {x}, set(), [s]))
            self.link(end, q)
            self.link([q], n)
            self.link([n], top)
            out = [n] + jumps["break"]
        del self.locals[scope:]
        self.loops.pop()
        return out

    def text(self):
        # (variables of inner blocks would make the compiler choose the ends of blocks by other variables)
        return "int %s(int i)\n{\n\tint %s;\n\n%s\n}\n" % (
            self.name, ", ".join("l%d" % (k + 1) for k in range(self.nlocals)), "\n".join(self.lines))

    # -- what depends on a variable
    def analyse(self, var):
        """{spot or helper: "yes", "no" or "maybe"}"""
        reach = walk(self.entry)
        nodes = [n for n in self.nodes if n in reach]
        index = {n: k for k, n in enumerate(nodes)}
        preds = {n: [m for m in nodes if n in m.succ] for n in nodes}
        # definitions that reach
        rin = {n: set() for n in nodes}
        change = True
        while change:
            change = False
            for n in nodes:
                s = set()
                for m in preds[n]:
                    s |= {(x, k) for x, k in rin[m] if m.define != x}
                    if m.define:
                        s.add((m.define, index[m]))
                if s != rin[n]:
                    rin[n], change = s, True
        defs = {n: {nodes[k] for x, k in rin[n] if x in n.uses} for n in nodes}
        # postdominators
        pd = {n: set(nodes) for n in nodes}
        pd[self.exit] = {self.exit}
        change = True
        while change:
            change = False
            for n in reversed(nodes):
                if n is self.exit or not n.succ:
                    continue
                s = set.intersection(*[pd[m] for m in n.succ]) | {n}
                if s != pd[n]:
                    pd[n], change = s, True
        ends = {n for n in nodes if self.exit in walk(n)}
        branches = [n for n in nodes if len(n.succ) > 1]
        control = {b: {n for n in nodes if any(n in pd[s] for s in b.succ) and
                       not (n in pd[b] and n is not b)} for b in branches}
        # what is executed only after some of the sides
        sides = {b: [walk(s, b) for s in b.succ] for b in branches}
        around = {b: set.union(*sides[b]) - set.intersection(*sides[b]) for b in branches}

        def after(m):
            """The definitions that leave a node."""
            return {x for x in rin[m] if x[0] != m.define} | ({(m.define, index[m])} if m.define else set())

        def chosen(dep):
            """Nodes that use values which differ between the ways to a place where dependent sides meet."""
            ways = {n for b in branches if b in dep for n in around[b] | {b}}
            taint = {n: set() for n in nodes}
            for n in nodes:
                if len(preds[n]) > 1 and any(m in ways for m in preds[n]):
                    for x in {x for x, _ in rin[n]}:
                        d = [{k for y, k in after(m) if y == x} for m in preds[n]]
                        if any(y != d[0] for y in d):
                            taint[n].add(x)
            change = True
            while change:
                change = False
                for n in nodes:
                    t = set().union(*[{x for x in taint[m] if x != m.define} for m in preds[n]]) - taint[n]
                    if t:
                        taint[n] |= t
                        change = True
            return {n for n in nodes if n.uses & taint[n]}

        def forward(ctl, reads):
            dep = {n for n in nodes if n.reads & reads}
            change = True
            while change:
                more = {n for n in nodes if defs[n] & dep}
                for b in branches:
                    if b in dep:
                        more |= ctl[b]
                if ctl is around:
                    more |= chosen(dep)
                change = not more <= dep
                dep |= more
            return dep
        strong, weak = forward(control, {var}), forward(around, {var})
        if weak & set(branches):
            # the compiler may read the other variables where sides of a branch meet
            weak = forward(around, set(VARS))
        # what can be observed
        live = {n for n in nodes if n.kind in ("call", "ret") and n in ends}
        change = True
        while change:
            more = set()
            for n in live:
                more |= defs[n]
            for b in branches:
                if control[b] & live - {b}:
                    more.add(b)
            change = not more <= live
            live |= more
        # (if the compiler removes what reads the variable, the function need not be listed for it)
        seen = any(var in n.reads for n in live)
        # what is used by the code that depends on the variable
        used = set(weak | strong)
        if any(n.kind == "ret" for n in used):
            used |= {n for n in nodes if n.kind == "ret"}
        change = True
        while change:
            more = set()
            for n in used:
                more |= defs[n]
                same = {m for m in nodes if m.reads & n.reads}
                if len(same) > 1 or same and any(n in walk(m) for m in n.succ):
                    # the compiler may read variables in other places, e.g. on one side of a branch
                    more |= same | set(branches)
            for b in branches:
                s = [x & used for x in sides[b]]
                if any(x != s[0] for x in s):
                    more.add(b)
            change = not more <= used
            used |= more
        yes = {n for n in strong if n in live and n in ends}
        # values used only there
        change = True
        while change:
            more = set()
            for n in yes:
                for u in n.uses:
                    ds = [m for m in defs[n] if m.define == u]
                    if len(ds) == 1:
                        more.add(ds[0])
            change = not more <= yes
            yes |= more
        out = {}
        for n in nodes:
            r = "yes" if n in yes else "maybe" if n in used or not seen else "no"
            for s in n.spots:
                out[s] = r
            for h in n.helpers:
                out.setdefault(h, []).append(r)
        for n in self.nodes:
            if n not in index:
                for s in n.spots:
                    out[s] = "no" if seen else "maybe"
                for h in n.helpers:
                    out.setdefault(h, []).append("no" if seen else "maybe")
        return out


def walk(start, without=None):
    seen, todo = set(), [start]
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen.add(n)
        if n is not without:
            todo += n.succ
    return seen


class Unit:
    """A C file in two versions."""

    def __init__(self, g, n=4):
        self.spots, self.helpers = 0, []
        for k in range(g.choose(3)):
            s = self.spot()
            self.helpers.append(("h%d" % k, s, "static int h%d(int x)\n{\n\treturn get(x + @%d@)%s;\n}\n" % (
                k, s, g.choice(["", " * x", " + x"]))))
        self.funs = [Function(g, "f%d" % k, self.spot, self.helpers) for k in range(n)]
        self.changed = set()

    def spot(self):
        self.spots += 1
        return self.spots

    def value(self, s, v):
        return 2 * s + 1 + (2 * self.spots + 10 if v and s in self.changed else 0)

    def text(self, v):
        t = HEAD + "\n" + "".join(h[2] for h in self.helpers) + "\n" + "\n".join(f.text() for f in self.funs)
        parts = t.split("@")
        return "".join(str(self.value(int(x), v)) if k % 2 else x for k, x in enumerate(parts))
