"""Runs many seeded simulations, minimises failures, writes evidence."""
import hashlib
import importlib
import json
import os
import pickle
import select
import shutil
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DST_REPO", "/repo")


def base_dir():
    for d in ("/dev/shm", "/tmp"):
        if os.access(d, os.W_OK):
            return d + "/dkv"
    return "/tmp/dkv"


class Run:
    """One simulated run: streams, scratch root, simulation, counters."""

    def __init__(self, check, seed, replay=None, tier="quick", ctx=None):
        from . import core
        self.check = check
        self.seed = seed
        self.tier = tier
        self.ctx = ctx
        self.s = core.Streams("%s:%s" % (check.ID, seed), replay)
        self.root = None
        self.sims = []
        self.counts = {}
        self.states = set()
        self.sample = None
        self.nontrivial = False
        self.known = []
        self.notes = []

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def state(self, x):
        """An observed state/interleaving digest (for the distinct count)."""
        self.states.add(hashlib.sha256(repr(x).encode()).hexdigest()[:12])

    def sim(self, sub="w", **kw):
        from . import core
        root = os.path.join(self.root, sub)
        os.makedirs(root + "/tmp", exist_ok=True)
        sim = core.Sim(self.s, root, **kw)
        self.sims.append(sim)
        core.activate(sim)
        return sim

    def checkpoint(self, what):
        """Called before code that may end the process (the real engine)."""
        from . import core
        with core.R.bopen(self.root + "/.last", "w") as f:
            json.dump({"what": what, "streams": self.s.recorded(),
                       "steps": sum(s.steps for s in self.sims),
                       "faults": dict(sum((list(s.faults_done.items()) for s in self.sims), [])),
                       "digest": hashlib.sha256(repr([s.digest() for s in self.sims]).encode()).hexdigest()[:16],
                       "trace": [list(map(_plain, e)) for s in self.sims for e in s.log][-600:]}, f)

    def root_name(self):
        return hashlib.sha256(str(self.seed).encode()).hexdigest()[:8]

    def make_root(self):
        from . import core
        base = os.path.join(base_dir(), self.check.ID)
        os.makedirs(base, exist_ok=True)
        name = self.root_name()
        for attempt in range(200):
            root = os.path.join(base, name)
            try:
                core.R.mkdir(root)
                with core.R.bopen(root + "/.owner", "w") as f:
                    f.write(str(os.getpid()))
                self.root = root
                return
            except FileExistsError:
                try:
                    with core.R.bopen(root + "/.owner") as f:
                        pid = int(f.read() or 0)
                    os.kill(pid, 0)
                except (OSError, ValueError):
                    shutil.rmtree(root, ignore_errors=True)
                    continue
                core.R.sleep(0.05)
        raise RuntimeError("scratch root busy: " + root)


def execute(check, seed, replay, tier, ctx):
    """Body of the child process of one run; returns a plain dict."""
    from . import core
    run = Run(check, seed, replay, tier, ctx)
    res = {"seed": seed, "status": "ok"}
    t0 = core.R.perf()
    try:
        run.make_root()
        os.chdir(run.root)
        try:
            check.scenario(run)
        except core.Violation as v:
            res.update(status="violation", key=v.key, msg=v.msg)
        except core.StepLimit as v:
            if getattr(check, "LIVENESS", False):
                res.update(status="violation", key=check.ID + "/no-progress",
                           msg="the simulated system made no progress: step limit reached")
            else:
                res.update(status="error", msg="step limit " + str(v))
        except BaseException:
            res.update(status="error", msg=traceback.format_exc()[-3000:])
        dead = [s.deadlock for s in run.sims if s.deadlock]
        if dead:
            res.update(status="violation", key=check.ID + "/deadlock", msg=dead[0])
    except BaseException:
        res.update(status="error", msg=traceback.format_exc()[-3000:])
    finally:
        core.activate(None)
        try:
            os.chdir("/")
            if run.root and not os.environ.get("DST_KEEP"):
                shutil.rmtree(run.root, ignore_errors=True)
        except OSError:
            pass
    res["wall"] = core.R.perf() - t0
    res["counts"] = run.counts
    faults = {}
    steps = 0
    simsec = 0.0
    digs = []
    for s in run.sims:
        for k, n in s.faults_done.items():
            faults[k] = faults.get(k, 0) + n
        steps += s.steps
        simsec += s.sim_seconds
        digs.append(s.digest())
    res["faults"] = faults
    res["steps"] = steps
    res["simsec"] = simsec
    res["digest"] = hashlib.sha256(repr((digs, sorted(run.states), res.get("msg"))).encode()
                                   ).hexdigest()[:16]
    res["states"] = sorted(run.states) or digs
    res["sample"] = run.sample
    res["nontrivial"] = bool(run.nontrivial)
    res["known"] = run.known
    if replay is not None or res["status"] == "violation" or os.environ.get("DST_TRACE"):
        res["streams"] = run.s.recorded()
        res["trace"] = [list(map(_plain, e)) for s in run.sims for e in s.log][-600:]
        res["notes"] = run.notes
    return res


def _plain(x):
    return x if isinstance(x, (str, int, float, type(None), list)) else repr(x)


CPU_LIMIT = 30      # seconds of processor time; a run needs less than two


def in_child(check, seed, replay, tier, ctx, timeout=120):
    """One run in a forked child, so that no state leaks between runs."""
    from . import core
    r, w = core.R.pipe()
    pid = core.R.fork()
    if pid == 0:
        try:
            os.setpgid(0, 0)
            core.R.close(r)
            try:
                import resource
                lim = 6 << 30
                resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                resource.setrlimit(resource.RLIMIT_CPU, (CPU_LIMIT, CPU_LIMIT + 5))
            except (ImportError, ValueError, OSError):
                pass
            devnull = core.R.open("/dev/null", os.O_RDWR)
            for fd in (0, 1) + (() if os.environ.get("DST_DEBUG") else (2,)):
                core.R.dup2(devnull, fd)
            res = execute(check, seed, replay, tier, ctx)
            data = json.dumps(res, default=repr).encode()
            while data:
                data = data[core.R.write(w, data):]
        except BaseException:
            try:
                core.R.write(w, json.dumps({"seed": seed, "status": "error",
                                            "msg": traceback.format_exc()[-2000:]}).encode())
            except BaseException:
                pass
        finally:
            core.R._exit(0)
    core.R.close(w)
    chunks = []
    end = core.R.perf() + timeout
    timed_out = False
    while True:
        left = end - core.R.perf()
        if left <= 0:
            timed_out = True
            break
        if not select.select([r], [], [], left)[0]:
            continue
        b = core.R.read(r, 1 << 16)
        if not b:
            break
        chunks.append(b)
    core.R.close(r)
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        try:
            core.R.kill(pid, signal.SIGKILL)
        except OSError:
            pass
    _, st = core.R.waitpid(pid, 0)
    if timed_out:
        return {"seed": seed, "status": "hang", "msg": "no answer within %d s" % timeout}
    try:
        return json.loads(b"".join(chunks))
    except ValueError:
        pass
    sig = os.WTERMSIG(st) if os.WIFSIGNALED(st) else 0
    res = {"seed": seed, "status": "died", "msg": "run ended with wait status %d" % st, "signal": sig}
    root = os.path.join(base_dir(), check.ID, Run(check, seed, None, tier, ctx).root_name())
    empty = dict(status="violation", wall=0.0, simsec=0.0, counts={}, states=[], nontrivial=True, sample=None,
                 known=[], notes=None)
    last, owner = {}, None
    try:
        with core.R.bopen(root + "/.last") as f:
            last = json.load(f)
        with core.R.bopen(root + "/.owner") as f:
            owner = int(f.read())
    except (OSError, ValueError):
        pass
    if sig == signal.SIGXCPU:
        res.update(empty, key=check.ID + "/hang", streams={}, steps=0, faults={}, digest="", trace=[],
                   msg="%s did not end in %d s of processor time" % (last.pop("what", "the run"), CPU_LIMIT))
        if owner == pid:
            res.update(last)
    if owner == pid:
        if sig in CRASHES and getattr(check, "ENGINE", None) == "real":
            res.update(empty, key=check.ID + "/died",
                       msg="%s ended the whole process with signal %d" % (last.pop("what"), sig))
            res.update(last)
        if not os.environ.get("DST_KEEP"):
            shutil.rmtree(root, ignore_errors=True)
    return res


CRASHES = (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL)


class Pool:
    """W forked workers; each takes every W-th seed."""

    def __init__(self, check, tier, ctx, seeds, workers, deadline):
        from . import core
        self.core = core
        self.pipes = {}
        self.pids = []
        for i in range(workers):
            r, w = core.R.pipe()
            pid = core.R.fork()
            if pid == 0:
                core.R.close(r)
                for rr in self.pipes:
                    core.R.close(rr)
                try:
                    for sd in seeds[i::workers]:
                        if core.R.perf() > deadline:
                            break
                        res = in_child(check, sd, None, tier, ctx)
                        b = pickle.dumps(res)
                        b = len(b).to_bytes(4, "little") + b
                        while b:
                            b = b[core.R.write(w, b):]
                finally:
                    core.R._exit(0)
            core.R.close(w)
            self.pipes[r] = b""
            self.pids.append(pid)

    def results(self):
        while self.pipes:
            rd = select.select(list(self.pipes), [], [])[0]
            for r in rd:
                b = self.core.R.read(r, 1 << 20)
                if not b:
                    self.core.R.close(r)
                    del self.pipes[r]
                    continue
                buf = self.pipes[r] + b
                while len(buf) >= 4:
                    n = int.from_bytes(buf[:4], "little")
                    if len(buf) < 4 + n:
                        break
                    yield pickle.loads(buf[4:4 + n])
                    buf = buf[4 + n:]
                self.pipes[r] = buf

    def stop(self):
        for p in self.pids:
            try:
                os.kill(p, signal.SIGKILL)
            except OSError:
                pass
        for p in self.pids:
            try:
                self.core.R.waitpid(p, 0)
            except OSError:
                pass
        for r in self.pipes:
            self.core.R.close(r)
        self.pipes = {}


# ------------------------------------------------------------------ minimise

def _fails(check, seed, streams, tier, ctx, key):
    res = in_child(check, seed, streams, tier, ctx)
    if res["status"] == "violation" and res["key"] == key:
        return res
    return None


def minimise(check, res, tier, ctx, budget):
    """Reduce the choice streams while the same violation keeps appearing."""
    from . import core
    end = core.R.perf() + budget
    best = {k: list(v) for k, v in res["streams"].items()}
    cur = _fails(check, res["seed"], best, tier, ctx, res["key"])
    if cur is None:
        return res, False, 0
    tries = 0

    def attempt(cand):
        nonlocal best, cur, tries
        if core.R.perf() > end:
            return False
        tries += 1
        r = _fails(check, res["seed"], cand, tier, ctx, res["key"])
        if r is None:
            return False
        best, cur = cand, r
        return True

    def strip(d):
        out = {}
        for k, v in d.items():
            v = list(v)
            while v and v[-1] == 0:
                v.pop()
            out[k] = v
        return out

    best = strip(best)
    for name in ("sched", "fault", "env", "gen"):
        # zero everything of this stream
        attempt(dict(best, **{name: []}))
        size = max(1, len(best[name]) // 2)
        while size >= 1 and core.R.perf() < end:
            i = 0
            while i < len(best[name]) and core.R.perf() < end:
                v = best[name]
                chunk = v[i:i + size]
                if any(chunk):
                    c = v[:i] + [0] * len(chunk) + v[i + size:]
                    attempt(strip(dict(best, **{name: c})))
                i += size
            size //= 2
        # lower single values
        for i in range(len(best[name])):
            if core.R.perf() > end:
                break
            v = best[name]
            if i < len(v) and v[i] > 1:
                for nv in (1, v[i] // 2):
                    if attempt(strip(dict(best, **{name: v[:i] + [nv] + v[i + 1:]}))):
                        break
        best = strip(best)
    return cur, True, tries


# ------------------------------------------------------------------ known findings

def known_findings():
    path = os.path.join(VERIF, "known_findings.txt")
    res = {}
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line.startswith("finding: "):
                    parts = dict(x.split("=", 1) for x in line[9:].split(" ", 2)[:2])
                    res[(parts["property"], parts["key"])] = line[9:].split(" ", 2)[2]
    return res


# ------------------------------------------------------------------ main

def write_replay(check, res, tier):
    d = os.path.join(VERIF, "out", "replay")
    os.makedirs(d, exist_ok=True)
    name = "%s-%s-%s.json" % (check.ID, res["seed"].replace("/", "_"),
                              hashlib.sha256(res["key"].encode()).hexdigest()[:6])
    path = os.path.join(d, name)
    with open(path, "w") as f:
        json.dump({"property": check.ID, "seed": res["seed"], "tier": tier,
                   "key": res["key"], "violation": res["msg"],
                   "streams": res["streams"], "digest": res.get("digest"),
                   "faults": res.get("faults"), "notes": res.get("notes"),
                   "trace": res.get("trace")}, f, indent=1)
    return path


def load_check(cid):
    return importlib.import_module("dst.checks." + cid.lower())


def prepare(check, tier):
    """Install the seams, then import the code under test."""
    from . import core, engine
    ctx = {}
    if getattr(check, "ENGINE", None) == "real":
        bld = engine.build(quiet=True)
        os.environ["SIMPLL_BUILD_DIR"] = bld
        ctx["build"] = bld
    core.install()
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    if getattr(check, "ENGINE", None) == "real":
        import diffkemp        # noqa: F401
        engine.load(ctx["build"])
    else:
        from . import fake_engine
        ctx["ffi"], ctx["lib"] = fake_engine.install(REPO)
        os.environ["SIMPLL_BUILD_DIR"] = "/nonexistent/build"
    if hasattr(check, "setup"):
        check.setup(ctx, tier)
    return ctx


def replay(check, path, tier):
    with open(path) as f:
        rec = json.load(f)
    ctx = prepare(check, rec.get("tier", tier))
    ok = 0
    digs = set()
    for _ in range(2):
        res = in_child(check, rec["seed"], rec["streams"], rec.get("tier", tier), ctx)
        if res["status"] == "violation" and res["key"] == rec["key"]:
            ok += 1
            digs.add(res["digest"])
    if ok:
        print("reproduced %d/2, trace digests %s (recorded %s)"
              % (ok, sorted(digs), rec["digest"]))
        print(res.get("msg"))
        for t in (res.get("trace") or [])[-60:]:
            print("   ", *t)
        print("VIOLATION property=%s replay=%s" % (check.ID, path))
        return 1
    print("not reproduced: %s %s" % (res["status"], res.get("msg", "")))
    return 0


def main(cid, argv):
    if cid == "setup":
        from . import core      # noqa: F401
        print("nothing to build in advance: every check builds from /repo itself")
        return 0
    tier = os.environ.get("VERIF_TIER", "quick")
    seed0 = int(os.environ.get("VERIF_SEED", "1"))
    check = load_check(cid)
    t0 = time.time()
    if "--replay" in argv:
        return replay(check, argv[argv.index("--replay") + 1], tier)
    nruns, budget = check.RUNS[tier] if tier in check.RUNS else check.RUNS["quick"]
    if "--runs" in argv:
        nruns = int(argv[argv.index("--runs") + 1])
    if "--budget" in argv:
        budget = float(argv[argv.index("--budget") + 1])
    ctx = prepare(check, tier)
    t_prep = time.time() - t0
    from . import core
    seeds = ["%d/%d" % (seed0, i) for i in range(nruns)]
    if "--seed" in argv:
        seeds = [argv[argv.index("--seed") + 1]]
    workers = int(os.environ.get("DST_WORKERS", "0")) or min(8, os.cpu_count() or 1)
    workers = min(workers, len(seeds))
    known = known_findings()
    agg = {"runs": 0, "counts": {}, "faults": {}, "steps": 0, "simsec": 0.0,
           "states": set(), "nontrivial": set(), "samples": [], "known": {}, "errors": [],
           "ok_seeds": []}
    deadline = core.R.perf() + budget
    pool = Pool(check, tier, ctx, seeds, workers, deadline)
    bad = None
    unrepro = 0
    try:
        for res in pool.results():
            agg["runs"] += 1
            st = res["status"]
            if st in ("died", "hang"):
                cls = getattr(check, "on_lost", None)
                v = cls(res) if cls else None
                if v:
                    res.update(status="violation", key=v[0], msg=v[1], streams={})
                    st = "violation"
                else:
                    agg["errors"].append(res)
                    continue
            if st == "error":
                agg["errors"].append(res)
                continue
            _merge(agg, res)
            for k, msg in res.get("known", []):
                if (check.ID, k) in known:
                    agg["known"].setdefault(k, msg)
                elif bad is None:
                    st = "violation"
                    res.update(key=k, msg=msg)
            if st == "violation":
                if (check.ID, res["key"]) in known:
                    agg["known"].setdefault(res["key"], res["msg"])
                    continue
                # confirm by replaying the recorded choices
                again = None
                for _ in range(3):
                    again = in_child(check, res["seed"], res.get("streams") or None, tier, ctx)
                    if again["status"] in ("died", "hang") and getattr(check, "on_lost", None):
                        v = check.on_lost(again)
                        if v:
                            again.update(status="violation", key=v[0], msg=v[1],
                                         streams=res.get("streams") or {})
                    if again["status"] == "violation" and again["key"] == res["key"]:
                        break
                    if again["status"] != "violation" and \
                            any(k == res["key"] for k, _ in again.get("known", [])):
                        again.update(status="violation", key=res["key"], msg=res["msg"])
                        break
                    again = None
                if again is None:
                    unrepro += 1
                    continue
                bad = again
                break
            elif len(agg["ok_seeds"]) < 40:
                agg["ok_seeds"].append((res["seed"], res["digest"]))
    finally:
        pool.stop()
    det = None
    if bad is None:
        det = _determinism(check, tier, ctx, agg)
    wall_search = time.time() - t0 - t_prep
    cov = _coverage(check, agg, wall_search, t_prep, det, workers)
    cov["unreproduced"] = unrepro
    rc = 0
    if bad is not None:
        mb = float(os.environ.get("DST_MINIMISE", "45" if tier == "quick" else "300"))
        if bad.get("streams") and not bad["key"].endswith("/hang"):
            small, ok, tries = minimise(check, bad, tier, ctx, mb)
        else:
            small, ok, tries = bad, False, 0
        path = write_replay(check, small, tier)
        print("violation (%s) with seed %s; minimised=%s after %d attempts; choices %s" % (
            small["key"], small["seed"], ok, tries,
            {k: sum(1 for x in v if x) for k, v in small.get("streams", {}).items()}))
        print(small["msg"])
        print("VIOLATION property=%s replay=%s" % (check.ID, path))
        rc = 1
    elif agg["errors"]:
        for e in agg["errors"][:3]:
            print("HARNESS-ERROR seed=%s status=%s %s" % (e["seed"], e["status"], e.get("msg")),
                  file=core.R.stderr)
        print("%d of %d runs ended in a harness error" % (len(agg["errors"]), agg["runs"]),
              file=core.R.stderr)
        rc = 2
    elif det and det["mismatches"]:
        print("HARNESS-ERROR replays of %d seeds differ: %s"
              % (len(det["mismatches"]), det["mismatches"][:5]), file=core.R.stderr)
        rc = 2
    elif agg["runs"] == 0:
        rc = 2
    for k, msg in sorted(agg["known"].items()):
        print("KNOWN-FINDING: property=%s %s (%s)" % (check.ID, known[(check.ID, k)], k))
    ev = {"property": check.ID, "tier": tier, "seed": seed0, "level": "exploration",
          "coverage": cov, "assumptions": list(getattr(check, "ASSUMPTIONS", [])),
          "wall_s": round(time.time() - t0, 2), "violations": 1 if rc == 1 else 0}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if not os.environ.get("DST_NO_EVIDENCE"):
        with open(os.path.join(VERIF, "evidence", check.ID + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    print("%s: %d runs, %d distinct non-trivial, %d steps, faults %s, %.1f s (+%.1f s build)"
          % (check.ID, agg["runs"], len(agg["nontrivial"]), agg["steps"],
             agg["faults"], wall_search, t_prep))
    return rc


def _merge(agg, res):
    for k, n in res.get("counts", {}).items():
        agg["counts"][k] = agg["counts"].get(k, 0) + n
    for k, n in res.get("faults", {}).items():
        agg["faults"][k] = agg["faults"].get(k, 0) + n
    agg["steps"] += res.get("steps", 0)
    agg["simsec"] += res.get("simsec", 0)
    agg["states"].update(res.get("states", []))
    if res.get("nontrivial"):
        agg["nontrivial"].add(res["digest"])
    if res.get("sample") is not None and len(agg["samples"]) < 4 and res.get("nontrivial"):
        agg["samples"].append({"seed": res["seed"], "case": res["sample"]})


def _determinism(check, tier, ctx, agg):
    """Re-execute a few seeds: the traces must be identical."""
    n = 0
    bad = []
    for seed, dig in sorted(agg["ok_seeds"])[:getattr(check, "DET_RUNS", 6)]:
        res = in_child(check, seed, None, tier, ctx)
        n += 1
        if res.get("digest") != dig:
            bad.append(seed)
    return {"seeds": n, "mismatches": bad}


def _coverage(check, agg, wall, t_prep, det, workers):
    return {
        "evaluations": agg["runs"],
        "distinct_nontrivial": len(agg["nontrivial"]),
        "rule": check.RULE,
        "samples": agg["samples"],
        "runs_per_hour": round(agg["runs"] / max(wall, 0.01) * 3600),
        "seeds_per_hour": round(agg["runs"] / max(wall, 0.01) * 3600),
        "simulated_seconds": round(agg["simsec"], 1),
        "syscall_steps": agg["steps"],
        "faults_injected": agg["faults"],
        "distinct_states": len(agg["states"]),
        "distinct_states_measure": getattr(check, "STATES", "distinct trace digests"),
        "counters": agg["counts"],
        "real_components": list(check.REAL),
        "stub_components": list(check.STUB),
        "determinism_selftest": det,
        "workers": workers,
        "build_s": round(t_prep, 1),
    }
