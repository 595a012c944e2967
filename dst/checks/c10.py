"""C10: the same inputs give the same results, byte for byte: nothing depends
on hash seeds, directory order, addresses, names of temporary files or time."""
import hashlib
import json
import os
import re
import signal
import socket
import subprocess
import sys
import traceback

from .. import core
from ..core import R, Violation
from ..worlds import cmp, proj, sysctl
from . import c03, c09, c12

ID = "C10"
RULE = ("a run counts if the commands succeeded and there were at least two functions with results; distinct "
        "by trace digest")
STATES = "distinct (scene, options, results) vectors"
REAL = c09.REAL + c12.REAL[-3:]
STUB = c12.STUB
ASSUMPTIONS = c09.ASSUMPTIONS + [
    "each run repeats the commands in new interpreters with other hash seeds; tools are deterministic"]
RUNS = {"quick": (1200, 50), "thorough": (40000, 700)}
ENGINE = None
server = False          # in the interpreter of a repetition


def setup(ctx, tier):
    c03.setup(ctx, tier)
    c12.setup(ctx, tier)
    if not server:
        ctx["servers"] = serve_all()


class Env(core.Stream):
    """Choices about the environment; 0 is the plainest one."""

    def __init__(self, n):
        core.Stream.__init__(self, "env", n, [] if n == 0 else None)


class Variant:
    """Stands for the run in a repetition."""

    def __init__(self, root, ctx, seed, streams, env):
        self.root, self.ctx, self.seed, self.tier = root, ctx, seed, "quick"
        self.s = core.Streams(seed, streams)
        self.s.env = Env(env)
        self.sims, self.counts = [], {}

    def count(self, k, n=1):
        pass

    state = count

    def sim(self, sub="w", **kw):
        e = self.s.env
        root = os.path.join(self.root, sub)
        os.makedirs(root + "/tmp", exist_ok=True)
        sim = core.Sim(self.s, root, start_time=1_700_000_000.0 + 86399 * e.choose(90), **kw)
        sim.tick = e.choice([0.001, 0.003, 0.0001])
        sim.next_pid = 100 + e.choose(30000)
        sim.tmp_no = e.choose(900000)
        sim.shuffle_dirs = e.chance(70)
        self.sims.append(sim)
        core.activate(sim)
        return sim


def produce(run):
    """Run the commands of the scene; returns what they say and make."""
    g, f = run.s.gen, run.s.fault
    out = {}
    kind = g.weighted([("pair", 5), ("project", 4), ("build", 3), ("sysctl", 5)])

    def said(p):
        t = p.stdout()
        out[p.name] = {"rc": p.rc, "stdout": re.sub(r"(?m)^Elapsed time: .*", "", t),
                       "stderr": re.sub(r"(?m)^.*Warning:.*\n.*\n", "", p.stderr())}

    def made(name, d):
        out[name] = {k: b.decode("latin-1") for k, b in (proj.snap_state(d) or {}).items()}
    if kind in ("build", "sysctl"):
        w = proj.World(run)
        if kind == "build":
            sc = proj.Scene(run, w, [("make", 4), ("kernel", 5), ("single", 1), ("llvm", 1)])
            kind = sc.kind
            for u in w.units:
                if f.chance(10):
                    w.fault[("clang", u.path)] = "error"
            said(sc.build("build"))
        else:
            sysctl.prepare(run, w, True)
            p = sysctl.build(w)
            p.name = "build"
            said(p)
        made("snapshot", w.snap)
        n = len(proj.snapshot_map(w.snap) or ())
        out["kind"], out["n"] = kind, n
        return out
    o = [x for x, pct in (("--report-stat", 70), ("--extended-stat", 40), ("--show-errors", 40),
                          ("--full-diff", 25)) if g.chance(pct)]
    o += g.weighted([([], 4), (["--disable-simpll-ffi"], 2), (["--enable-module-cache"], 2)])
    if g.chance(15):
        o += ["--regex-filter", g.choice(c09.PATTERNS)]
    if kind == "project":
        w, symbols = c12.prepare(run)
        kind = w.kind + "-" + kind
        for v in (0, 1):
            made("snapshot%d" % v, w.snaps[v])
        for u in w.unitsv[0]:
            if f.chance(10):
                w.link_fault[os.path.basename(u.path)[:-2] + ".ll"] = "error"
        snaps = w.snaps
    else:
        w = cmp.Pair(run, run.ctx, groups=g.chance(30))
        for n in sorted(w.prog.funs):
            if f.chance(6):
                w.engine.fault[n] = f.choice(["empty", "garbage", "incomplete"])
        snaps = [w.old, w.new]
        w.engine.honour_cache = g.chance(50)
    if g.chance(20):
        snaps = snaps[::-1]
    d = w.root + "/res"
    said(w.cli(["compare"] + snaps + o + (["-o", d] if g.chance(70) else ["--stdout"]), "compare"))
    made("results", d)
    out["kind"], out["n"], out["opts"] = kind, out["compare"]["stdout"].count("\n"), o
    return out


SEEDS = (1, 2, 3, 4, 5, 6)


def serve_all():
    """One interpreter for every hash seed; each repetition is a fork of it."""
    from .. import harness
    d = os.path.join(harness.base_dir(), ID + "-servers")
    os.makedirs(d, exist_ok=True)
    for n in os.listdir(d):
        try:
            R.kill(int(n.split("-")[0]), 0)
        except (OSError, ValueError):
            R.unlink(os.path.join(d, n))
    socks, procs = {}, []
    for hs in SEEDS:
        path = "%s/%d-%d" % (d, R.getpid(), hs)
        if os.path.exists(path):
            R.unlink(path)
        e = dict(os.environ, PYTHONHASHSEED=str(hs), PYTHONPATH=harness.VERIF, PYTHONDONTWRITEBYTECODE="1")
        p = R.Popen([sys.executable, "-W", "ignore", "-m", "dst.checks.c10", path], stdin=subprocess.DEVNULL,
                    stdout=subprocess.PIPE, env=e, cwd=harness.VERIF)
        socks[hs] = path
        procs.append(p)
    for p in procs:
        if p.stdout.readline() != b"ready\n":
            raise RuntimeError("no server")
    return socks


def again(run, streams, env, hs):
    """Repeat in another interpreter."""
    c = socket.socket(socket.AF_UNIX)
    c.settimeout(60)
    c.connect(run.ctx["servers"][hs])
    c.sendall(json.dumps({"root": run.root, "seed": run.seed, "streams": streams, "env": env}).encode() + b"\n")
    data = b""
    while True:
        b = c.recv(1 << 16)
        if not b:
            break
        data += b
    c.close()
    res = json.loads(data)
    if "error" in res:
        raise AssertionError("repetition: " + res["error"])
    return res


def repeat(ctx, q):
    os.chdir(q["root"])
    run = Variant(q["root"], ctx, q["seed"], q["streams"], q["env"])
    try:
        return produce(run)
    except Violation as v:
        return {"violation": [v.key, v.msg]}
    except BaseException:
        return {"error": traceback.format_exc()[-1500:]}
    finally:
        core.activate(None)


def serve(path):
    import ctypes
    from .. import harness
    ctypes.CDLL(None).prctl(1, 9)            # end with the check
    if os.getppid() == 1:
        return
    me = sys.modules[__name__]
    out = R.dup(1)
    R.dup2(R.open("/dev/null", os.O_RDWR), 1)
    ctx = {}
    me.server = True
    ctx = harness.prepare(me, "quick")
    s = socket.socket(socket.AF_UNIX)
    s.bind(path)
    s.listen(64)
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    R.write(out, b"ready\n")
    R.close(out)
    while True:
        c, _ = s.accept()
        if R.fork() == 0:
            signal.signal(signal.SIGCHLD, signal.SIG_DFL)
            s.close()
            c.settimeout(60)
            q = b""
            while not q.endswith(b"\n"):
                q += c.recv(1 << 16)
            c.sendall(json.dumps(repeat(ctx, json.loads(q))).encode())
            R._exit(0)
        c.close()


def clean(root):
    for n in os.listdir(root):
        p = os.path.join(root, n)
        if os.path.isdir(p):
            proj.rmtree(p)
            if os.path.isdir(p):
                R.rmdir(p)
        elif n != ".owner":
            R.unlink(p)


def scenario(run):
    e = run.s.env
    plain = Variant(run.root, run.ctx, run.seed, None, 0)
    plain.s.gen, plain.s.fault, plain.s.sched = run.s.gen, run.s.fault, run.s.sched
    try:
        first = produce(plain)
    finally:
        run.sims += plain.sims
        core.activate(None)
    os.chdir(run.root)
    streams = {k: list(v) for k, v in plain.s.recorded().items()}
    digest = hashlib.sha256(json.dumps(first, sort_keys=True).encode()).hexdigest()[:12]
    run.state((first["kind"], first.get("opts"), digest))
    run.nontrivial = first["n"] > 1
    run.sample = {"scene": first["kind"], "opts": first.get("opts"), "results": first["n"]}
    run.count(first["kind"])
    for i in range(2):
        env, hs = e.choose(100000), e.choose(len(SEEDS) + 1)
        if not env and not hs:
            continue
        hs = SEEDS[hs - 1]
        clean(run.root)
        second = again(run, streams, env, hs)
        run.count("repetitions")
        run.sims[0].count_fault("hash-seed")
        if "violation" in second:
            raise Violation(ID + "/failed", "with another hash seed: %s" % second["violation"])
        bad = []
        for k in sorted(set(first) | set(second)):
            a, b = first.get(k), second.get(k)
            if a == b:
                continue
            if isinstance(a, dict) and isinstance(b, dict):
                for x in sorted(set(a) | set(b)):
                    if a.get(x) != b.get(x):
                        bad.append((k, x, a.get(x), b.get(x)))
            else:
                bad.append((k, "", a, b))
        if bad:
            k, x, a, b = bad[0]
            raise Violation(ID + "/" + ("snapshot" if k.startswith("snapshot") else "output"),
                            "%s (%s): %s %s is now\n%s\nand was\n%s\n(hash seed %d, environment %d)" % (
                                first["kind"], first.get("opts"), k, x, tail(b, a), tail(a, b), hs, env))


def tail(a, b):
    """The part of a that differs from b."""
    if not isinstance(a, str) or not isinstance(b, str):
        return a
    la, lb = a.split("\n"), b.split("\n")
    i = 0
    while i < min(len(la), len(lb)) and la[i] == lb[i]:
        i += 1
    return "\n".join(la[max(0, i - 3):i + 12])


if __name__ == "__main__":
    serve(sys.argv[1])
