"""C14: the result viewer shows exactly the results of the comparison, and
leaves nothing behind."""
import os

import yaml

from ..core import R, SimCrash, Violation
from ..worlds import cmp, proj, viewer
from ..worlds.proj import get
from . import c09

ID = "C14"
RULE = "a run counts if at least one definition was shown with its code; distinct by trace digest"
STATES = "distinct (installation, events, faults, exit codes, shown definitions) vectors"
REAL = ["diffkemp/cli.py, diffkemp.py view*, compare*", "diffkemp/output.py", "diffkemp/syndiff",
        "http.server.SimpleHTTPRequestHandler", "diff"]
STUB = c09.STUB + ["socket (bind, listen)", "npm", "the pages of the viewer (JavaScript): their requests are "
                   "made by the check"]
ASSUMPTIONS = ["the pages fetch data/diffkemp-out.yaml, data/src/<old file> and data/diffs/<name>.diff",
               "one viewer of a development installation at a time"]
RUNS = {"quick": (1500, 45), "thorough": (60000, 700)}
ENGINE = None
setup = c09.setup


def events(run, w, rdir, result):
    """What happens to the snapshots between comparing and viewing."""
    g, root = run.s.gen, w.root
    done = []
    files = sorted({d[k]["file"] for d in result["definitions"].values() for k in ("old", "new")
                    if d[k]["file"]})
    ext = [f for f in files if f.endswith(".h") and g.chance(35)]
    for f in ext:
        # a header that is not part of the snapshot
        vs = g.choice([(0,), (0, 1), (1,)])
        for v in vs:
            snap = (w.old, w.new)[v]
            to = "%s/%s/%s" % (root, g.choice(["usr/include", "usr%d" % v, "old-x", "src"]), os.path.basename(f))
            src = snap + "/" + f
            if os.path.exists(to) and get(to) != get(src):
                to = "%s/usr-%d/%s" % (root, v, f)
            proj.put(to, get(src).decode())
            R.unlink(src)
            for d in result["definitions"].values():
                k = ("old", "new")[v]
                if d[k]["file"] == f:
                    d[k]["file"] = os.path.relpath(to, snap)
            done.append(("outside", v, f))
    if ext:
        with R.bopen(rdir + "/diffkemp-out.yaml", "w") as fl:
            yaml.dump(result, fl, sort_keys=False)
    for f in files:
        for v, snap in ((0, w.old), (1, w.new)):
            p = snap + "/" + f
            if not os.path.isfile(p) or not g.chance(12):
                continue
            k = g.choice(["gone", "edited", "cut", "latin", "crlf", "nonl", "empty"])
            b = get(p)
            if k == "gone":
                R.unlink(p)
            else:
                ls = b.split(b"\n")
                i = g.choose(len(ls))
                if k == "edited":
                    ls[i:i + 1] = [b"\tx = 7;", ls[i]]
                    b = b"\n".join(ls)
                elif k == "cut":
                    b = b"\n".join(ls[:i])
                elif k == "latin":
                    ls[i] += b" /* \xe9 */"
                    b = b"\n".join(ls)
                elif k == "crlf":
                    b = b.replace(b"\n", b"\r\n")
                elif k == "nonl":
                    b = b.rstrip(b"\n")
                else:
                    b = b""
                with R.bopen(p, "wb") as fl:
                    fl.write(b)
            done.append((k, v, f))
    return done


def data_left(public):
    d = public + "/data"
    return [n for n in ("src", "diffs", "diffkemp-out.yaml") if os.path.lexists(d + "/" + n)]


def whole(w):
    return proj.tree(w.root, skip=("tmp",))


class Scene:
    def __init__(self, run):
        g = run.s.gen
        self.run = run
        self.w = cmp.Pair(run, run.ctx, groups=g.chance(25))
        w, self.sim = self.w, self.w.sim
        self.results = []
        for i in range(1 if g.chance(60) else 2):
            out = "res%d" % i
            opts = ["--full-diff"] if g.chance(15) else []
            p = w.cli(w.argv(opts + ["-o", out], *((w.old, w.new) if i == 0 else (w.new, w.old))), "compare")
            if p.rc != 0:
                raise Violation(ID + "/compare", "the comparison failed: %s" % p.stderr()[-500:])
            rdir = w.root + "/" + out
            if os.path.exists(rdir + "/diffkemp-out.yaml"):
                r = yaml.safe_load(get(rdir + "/diffkemp-out.yaml"))
                self.results.append((rdir, r, [r["old-snapshot"], r["new-snapshot"]]))
        self.events = []
        if not self.results:
            return
        self.kind = g.weighted([("build", 6), ("installed", 3), ("devel", 3)])
        self.public = viewer.install(w, self.kind)
        if len(self.results) == 1 and g.chance(60):
            self.events = events(run, w, *self.results[0][:2])
        if g.chance(40):
            proj.put(self.public + "/data/" + g.choice(["keep.json", "sub/keep"]), "mine\n")
        if g.chance(30):
            self.stale()
        self.guard = self.sim.guard = []
        self.shown = 0
        self.served = []
        self.ends = {}              # process -> how it ends
        viewer.patch_server(self.sim, self.serving)
        self.sim.programs["sh"] = self.sh

    def stale(self):
        """Left by a viewer that was killed."""
        g, d = self.run.s.gen, self.public + "/data"
        for rel in g.sample(["src/m0.c", "src/old/stale.c", "diffs/f_0.diff", "diffs/stale.diff",
                             "diffkemp-out.yaml", "src/include/h0.h"], 1 + g.choose(5)):
            proj.put(d + "/" + rel, "stale\n")
        self.events.append(("stale",))

    def job(self, p):
        return self.jobs[p]

    def check(self, p, fetch):
        rdir, result, dirs = self.jobs[p]
        used, shown = viewer.browse(ID, fetch, result, dirs)
        have = {f for f in proj.tree(self.public + "/data")
                if f.split("/")[0] in ("src", "diffs") or f == "diffkemp-out.yaml"}
        if have - used:
            raise Violation(ID + "/extra", "the viewer's data contain %s, which are not of this result" %
                            sorted(have - used)[:5])
        self.shown = max(self.shown, shown)
        self.served.append(p.name)

    def outside(self, fn, *a):
        """Run a part of the check as an observer of the simulation."""
        self.sim.active = False
        cwd = os.getcwd()
        try:
            return fn(*a)
        except Violation as v:
            self.bad = v
            raise KeyboardInterrupt()
        finally:
            os.chdir(cwd)
            self.sim.active = True

    def serving(self, p, server):
        for i in range(self.rounds):
            self.outside(self.check, p, viewer.fetcher(server))
            self.ended.add(p)
            self.sim.step("idle")
        if self.ends.get(p) == "kill":
            self.sim.kill_tree("self", p)
            raise SimCrash()
        raise KeyboardInterrupt()

    def sh(self, sim, call):
        cmd = call.argv[-1].split()
        if cmd[:1] != ["npm"]:
            return 127
        if cmd[1:] == ["start"]:
            if not os.path.exists(os.path.join(call.cwd, "package.json")):
                return 1
            self.outside(self.check, call.proc, viewer.disk(self.public))
            self.ended.add(call.proc)
            if self.ends.get(call.proc) == "kill":
                self.sim.kill_tree("self", call.proc)
                raise SimCrash()
            return 130
        return 0

    def view(self, res, name, spawn=False):
        g = self.run.s.gen
        rdir = res[0]
        arg = g.choice([rdir, os.path.relpath(rdir, self.w.root), rdir + "/"])
        argv = ["view", arg] + (["--devel"] if self.kind == "devel" else [])
        p = None

        def start():
            return self.w.cli(argv, name, spawn=True)
        p = start()
        self.jobs[p] = res
        if spawn:
            return p
        self.sim.switch_pct, old = 0, self.sim.switch_pct
        self.sim.run_threads()
        self.sim.switch_pct = old
        return p

    def finish(self):
        if self.bad:
            raise self.bad
        if self.guard:
            raise Violation(ID + "/outside", "the viewer would have changed %s" % self.guard[:3])


def scenario(run):
    g, f = run.s.gen, run.s.fault
    s = Scene(run)
    if not s.results:
        return
    w, sim = s.w, s.sim
    s.bad, s.jobs, s.ended = None, {}, set()
    s.rounds = 1
    before = whole(w)
    pub = os.path.relpath(s.public, w.root)

    def mine(k):
        k = k[len(pub) + 1:] if k.startswith(pub + "/") else ""
        return k == "data/diffkemp-out.yaml" or k.startswith(("data/src/", "data/diffs/"))

    def untouched():
        after = whole(w)
        for k in sorted(set(before) | set(after)):
            if not mine(k) and before.get(k) != after.get(k):
                raise Violation(ID + "/changed", "viewing %s %s" % (
                    "changes" if k in before and k in after else "removes" if k in before else "makes", k))
    rcs = []
    mode = g.weighted([("plain", 4), ("fault", 5), ("together", 3)])
    if mode == "together" and s.kind == "devel":
        mode = "plain"
    fault = None
    missing = None
    if mode == "plain" and g.chance(15):
        missing = g.choice(["old", "new", "result", "viewer", "yaml"])
        rdir, result, dirs = s.results[0]
        if missing in ("old", "new"):
            proj.rmtree(dirs[missing == "new"].rstrip("/"))
        elif missing == "result":
            R.unlink(rdir + "/diffkemp-out.yaml")
        elif missing == "yaml":
            proj.put(rdir + "/diffkemp-out.yaml", "{[ %\n")
        elif s.kind == "devel":
            missing = None
        else:
            proj.rmtree(s.public)
            if s.kind == "installed":
                proj.rmtree(w.root + "/inst/usr")
        before = whole(w)
    if mode == "together":
        s.rounds = 1 + g.choose(3)
        sim.switch_pct = run.s.env.choice([5, 20, 50])
        n = 2 + g.choose(2)
        ps = [s.view(g.choice(s.results), "view%d" % i, True) for i in range(n)]
        for p in ps:
            if f.chance(20):
                s.ends[p] = "kill"
        sim.run_threads()
        sim.switch_pct = 0
        s.finish()
        s.rounds = 1
        rcs = [p.rc for p in ps]
        if not s.served:
            raise Violation(ID + "/nobody", "none of %d viewers shows anything: %s" % (
                n, [p.stderr()[-200:] for p in ps]))
        killed = any(p.rc == -9 for p in ps)
        for p in ps:
            if p.rc == 0 and p not in s.ended:
                raise Violation(ID + "/silent", "a viewer ends with success without showing anything")
            if p.rc != 0 and p in s.ended and s.ends.get(p) != "kill":
                raise Violation(ID + "/crash", "the viewer fails: %s" % p.stderr()[-500:])
        if not killed and data_left(s.public):
            raise Violation(ID + "/left", "%s left after all viewers ended" % data_left(s.public))
        untouched()
    elif mode == "fault":
        kind = f.weighted([("errno", 3), ("interrupt", 3), ("crash", 2), ("kill", 1)])
        at, arg, frac = 1 + f.choose(260 if g.chance(50) else 90), f.choose(8), f.choose(10) / 10.0
        hit = []

        def hook(sim, p, op, path):
            if hit or kind == "kill" or p.name != "view" or p.steps < at:
                return None
            if kind == "errno" and (sim.in_tool or op not in sim.ERRNO_OK or path is None):
                return None
            if op == "close" and kind == "interrupt":
                return None
            hit.append((op, bool(s.ended)))
            return {"crash": ("crash",), "errno": ("errno", arg, frac), "interrupt": ("interrupt",)}[kind]
        sim.fault_hook = hook
        p = s.view(s.results[0], "view") if kind != "kill" else None
        if kind == "kill":
            p = s.view(s.results[0], "view", True)
            s.ends[p] = "kill"
            sim.run_threads()
        sim.fault_hook = None
        s.finish()
        fault = (kind, hit[0][1] if hit else None)
        rcs = [p.rc]
        late = bool(hit and hit[0][1])
        if kind in ("errno", "interrupt"):
            if hit and not late and p in s.ended and kind == "errno":
                # it went on, so what it showed was complete (checked)
                run.count("survived")
            served = hit and kind == "interrupt" and hit[0][0] == "serve"      # the user ends it at once
            if p.rc == 0 and p not in s.ended and not served:
                raise Violation(ID + "/silent", "the viewer ends with success without showing anything (%s)" %
                                (hit,))
            now = whole(w)
            if not late and {k: now[k] for k in now if mine(k)} == {k: before[k] for k in before if mine(k)}:
                pass                 # nothing of it was made
            elif data_left(s.public) and not late:
                raise Violation(ID + "/left", "%s left after the viewer ended with rc %s (%s at %s)" % (
                    data_left(s.public), p.rc, kind, hit))
            if data_left(s.public) and p.rc == 0:
                raise Violation(ID + "/left-quietly", "%s left, but rc is 0" % data_left(s.public))
            if not hit and p.rc != 0:
                raise Violation(ID + "/crash", "the viewer fails: %s" % p.stderr()[-500:])
        untouched()
    # and (again) undisturbed
    for res in s.results[::-1] if mode != "plain" else s.results:
        n = len(s.ended)
        p = s.view(res, "again")
        s.finish()
        rcs.append(p.rc)
        if missing:
            if p.rc == 0 or p in s.ended:
                raise Violation(ID + "/missing", "the viewer runs without %s" % missing)
            untouched()
            if [x for x in data_left(s.public)] and not any(e == ("stale",) for e in s.events):
                raise Violation(ID + "/left", "%s left" % data_left(s.public))
            run.state((s.kind, missing, rcs))
            break
        if p.rc != 0:
            raise Violation(ID + "/crash", "the viewer fails: rc %s %s" % (p.rc, p.stderr()[-600:]))
        if len(s.ended) == n:
            raise Violation(ID + "/silent", "the viewer ends without showing anything")
        if data_left(s.public):
            raise Violation(ID + "/left", "%s left after the viewer ended" % data_left(s.public))
        untouched()
    run.nontrivial = s.shown > 0
    run.count("shown", s.shown)
    run.sample = {"installation": s.kind, "mode": mode, "missing": missing, "events": s.events, "fault": fault,
                  "rcs": rcs, "definitions": [sorted(r[1]["definitions"]) for r in s.results]}
    run.state((s.kind, mode, missing, s.events, fault, rcs, s.shown))
