"""Deterministic simulator: choice streams, simulated processes, syscall seam,
simulated clock, fault injection, baton scheduler.

Everything the code under test asks of the operating system goes through the
functions patched here.  Paths below the scratch root of the running simulation
are *simulated*: every call on them is one step at which the scheduler may
switch to another simulated process, crash the process, interrupt it, or make
the call fail.  Paths outside the root are passed through untouched.
"""
import array
import builtins
import errno
import fcntl
import hashlib
import io
import os
import random
import stat as stat_mod
import sys
import threading
import traceback

# --------------------------------------------------------------------------
# choice streams


class Stream:
    """A recorded sequence of bounded choices; 0 is always the plainest."""

    def __init__(self, name, seed, replay=None):
        self.name = name
        self.rng = random.Random("%s/%s" % (seed, name))
        self.replay = replay
        self.rec = []

    def choose(self, n):
        """An integer in [0, n)."""
        if n <= 1:
            return 0
        i = len(self.rec)
        if self.replay is not None:
            v = self.replay[i] if i < len(self.replay) else 0
            v = min(v, n - 1)
        else:
            v = self.rng.randrange(n)
        self.rec.append(v)
        return v

    # the part of random.Random's interface that generators use
    def randint(self, a, b):
        return a + self.choose(b - a + 1)

    def choice(self, seq):
        return seq[self.choose(len(seq))]

    def chance(self, num, den=100):
        """True with probability num/den; a replayed 0 means False."""
        return self.choose(den) >= den - num

    def random(self):
        return (999 - self.choose(1000)) / 1000.0

    def shuffle(self, x):
        for i in range(len(x) - 1, 0, -1):
            j = i - self.choose(i + 1)
            x[i], x[j] = x[j], x[i]

    def sample(self, seq, k):
        x = list(seq)
        self.shuffle(x)
        return x[:k]

    def weighted(self, pairs):
        """pairs: [(value, weight)]; first one is the plainest."""
        tot = sum(w for _, w in pairs)
        v = self.choose(tot)
        for val, w in pairs:
            if v < w:
                return val
            v -= w
        return pairs[-1][0]


class Streams:
    NAMES = ("gen", "fault", "sched", "env")

    def __init__(self, seed, replay=None):
        self.seed = seed
        for n in self.NAMES:
            setattr(self, n, Stream(n, seed, None if replay is None else replay.get(n, [])))

    def recorded(self):
        return {n: getattr(self, n).rec for n in self.NAMES}


# --------------------------------------------------------------------------
# exceptions

class SimCrash(BaseException):
    """The simulated process has been killed; nothing it does has effect."""


class StepLimit(BaseException):
    """The simulated system made too many steps."""


class Violation(Exception):
    def __init__(self, key, msg):
        Exception.__init__(self, msg)
        self.key = key
        self.msg = msg


# --------------------------------------------------------------------------
# real functions, saved before patching

class R:
    pass


for _n in ("open read write close fsync fdatasync rename replace unlink remove mkdir rmdir stat "
           "lstat fstat listdir scandir utime chmod symlink link readlink access "
           "truncate ftruncate lseek sendfile getcwd chdir fork execv execve execvp execvpe waitpid "
           "_exit getpid kill pipe system dup dup2 posix_spawn posix_spawnp "
           "wait umask fdopen").split():
    if hasattr(os, _n):
        setattr(R, _n, getattr(os, _n))
R.bopen = builtins.open
CUR = None      # the active simulation of this OS process
OUT = os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/out/"


def contained(path):
    """May this path be changed? While there is a simulation, only the scratch directories may, by nobody."""
    sim = CUR
    if sim is None or isinstance(path, int):
        return True
    try:
        path = os.fspath(path)
    except TypeError:
        return True
    if isinstance(path, bytes):
        path = os.fsdecode(path)
    path = os.path.normpath(path if path.startswith("/") else R.getcwd() + "/" + path)
    return path.startswith((sim.scratch, OUT)) or path == os.devnull


def _contain(real, paths, writes=None):
    def f(*a, **kw):
        if CUR is not None and kw.get("dir_fd") is None and (writes is None or writes(*a, **kw)):
            for p in a[:paths]:
                if not contained(p):
                    CUR.escaped.append(str(p))
                    raise OSError(errno.EROFS, os.strerror(errno.EROFS), p)
        return real(*a, **kw)
    return f


for _n, _k in (("rename", 2), ("replace", 2), ("unlink", 1), ("remove", 1), ("mkdir", 1), ("rmdir", 1), ("chmod", 1),
               ("truncate", 1), ("utime", 1)):
    setattr(R, _n, _contain(getattr(R, _n), _k))
for _n in ("symlink", "link"):
    setattr(R, _n, (lambda g: lambda src, dst, *a, **kw: g(dst, src, *a, **kw))(
        _contain((lambda f: lambda dst, src, *a, **kw: f(src, dst, *a, **kw))(getattr(R, _n)), 1)))
R.open = _contain(R.open, 1, lambda p, flags=0, *a, **kw: flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC))
R.bopen = _contain(R.bopen, 1, lambda p, mode="r", *a, **kw: set(mode) & set("wax+"))
R.stdout = sys.stdout
R.stderr = sys.stderr
import time as _time      # noqa: E402
R.time = _time.time
R.perf = _time.perf_counter
R.Thread = threading.Thread
R.Timer = threading.Timer
import subprocess as _sp  # noqa: E402
R.Popen = _sp.Popen
import datetime as _dt    # noqa: E402
R.datetime = _dt.datetime



class Proc:
    """A simulated process: a Python thread run under the baton."""

    def __init__(self, sim, name, cwd, env=None, parent=None):
        self.sim = sim
        self.name = name
        self.pid = sim.next_pid
        sim.next_pid += 1
        self.cwd = cwd
        self.env = env
        self.parent = parent
        self.out = []
        self.err = []
        self.crashed = False
        self.done = False
        self.rc = None
        self.exc = None
        self.blocked = None       # callable: True when it may run again
        self.go = threading.Event()
        self.thread = None
        self.children = {}        # pid -> pending exec request / status
        self.steps = 0
        self.argv = None
        self.in_tool = None
        self.locks = set()

    def stdout(self):
        return "".join(self.out)

    def stderr(self):
        return "".join(self.err)


class _Out(io.TextIOBase):
    encoding = "utf-8"
    errors = "replace"

    """sys.stdout/sys.stderr of the current simulated process."""

    def __init__(self, which, real):
        self.which = which
        self.real = real
        pass

    def write(self, s):
        sim = CUR
        if sim is None or sim.current is None or not sim.active:
            return self.real.write(s)
        p = sim.current
        if p.crashed:
            raise SimCrash()
        (p.out if self.which == 1 else p.err).append(s)
        return len(s)

    def flush(self):
        if CUR is None:
            self.real.flush()

    def writable(self):
        return True

    def fileno(self):
        return self.real.fileno()

    def isatty(self):
        return False

    @property
    def buffer(self):
        return _OutBuf(self)


class _OutBuf:
    def __init__(self, o):
        self.o = o

    def write(self, b):
        self.o.write(b.decode("utf-8", "replace"))
        return len(b)

    def flush(self):
        pass


class Sim:
    """One simulated execution."""

    def __init__(self, streams, root, start_time=1_700_000_000.0, step_limit=400_000):
        self.s = streams
        self.root = root
        self.clock = start_time
        self.tick = 0.001
        self.log = []
        self.log_on = True
        self.steps = 0
        self.step_limit = step_limit
        self.procs = []
        self.current = None
        self.active = False
        self.next_pid = 100
        self.fds = {}
        self.faults_done = {}
        self.plan = {}            # step index -> fault
        self.fault_hook = None    # callable(sim, proc, op, path) -> fault or None
        self.on_step = None       # invariant callback, called before every step
        self.programs = {}        # basename -> handler(call) -> rc
        self.real_programs = set()
        self.execs = []           # every program started
        self.timers = []
        self.switch_pct = 0
        self.preempt = False      # several processes are runnable
        self.shuffle_dirs = False
        self.locktab = {}
        self.objects = 0
        self.in_tool = 0
        self.child_mode = None
        self.child_hook = None     # fault hook of forked children
        self.children_log = []     # how forked children ended
        self.child_extra = None    # set in a forked child, for its entry
        self.sim_seconds = 0.0
        self.files_touched = set()
        self.uncaught = []
        self.scratch = os.path.dirname(root.rstrip("/")) + "/" if not root.startswith(("/dev/shm/dkv/", "/tmp/dkv/")) \
            else root[:root.index("/dkv/") + 5]
        self.escaped = []          # paths outside of it that something tried to change
        self.guard = None          # list of recorded changes outside of the root
        self.ports = {}            # port -> process that listens on it
        self.pipes = []            # descriptors that pipes are read from
        self.deadlock = None       # what waits forever

    # -- bookkeeping ------------------------------------------------------
    def norm(self, path):
        try:
            path = os.fspath(path)
        except TypeError:
            return "fd"
        if isinstance(path, bytes):
            path = path.decode("utf-8", "replace")
        return path.replace(self.root, "$R")

    def note(self, *what):
        if self.log_on:
            self.log.append(what)

    def digest(self):
        h = hashlib.sha256()
        for e in self.log:
            h.update(repr(e).encode("utf-8", "replace"))
        return h.hexdigest()[:16]

    def count_fault(self, kind):
        self.faults_done[kind] = self.faults_done.get(kind, 0) + 1

    def inside(self, path):
        if isinstance(path, int):
            return path in self.fds
        try:
            path = os.fspath(path)
        except TypeError:
            return False
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        if not path.startswith("/"):
            path = R.getcwd() + "/" + path
        if ".." in path:
            path = os.path.normpath(path)
        return path == self.root or path.startswith(self.root + "/")

    def abspath(self, path):
        if isinstance(path, int):
            return self.fds.get(path, "fd%d" % path)
        path = os.fspath(path)
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        if not path.startswith("/"):
            path = R.getcwd() + "/" + path
        return os.path.normpath(path)

    # -- time --------------------------------------------------------------
    def advance(self, dt):
        self.clock += dt
        self.sim_seconds += max(dt, 0)

    def run_until(self, when):
        """Let simulated time pass, firing the timers due on the way."""
        while True:
            due = [t for t in self.timers if t.due <= when]
            if not due:
                break
            t = min(due, key=lambda x: (x.due, x.seq))
            self.timers.remove(t)
            if t.due > self.clock:
                self.advance(t.due - self.clock)
            t.fire()
        if when > self.clock:
            self.advance(when - self.clock)

    # -- the step ------------------------------------------------------------
    def step(self, op, path=None, mut=False):
        """One syscall of the current process is about to happen."""
        p = self.current
        if p is None or not self.active:
            return None
        if p.crashed:
            raise SimCrash()
        if self.preempt:
            self.maybe_switch(p)
            if p.crashed:
                raise SimCrash()
        self.steps += 1
        p.steps += 1
        if self.steps > self.step_limit:
            raise StepLimit()
        self.advance(self.tick)
        npath = self.norm(path) if path is not None else None
        self.note(p.name, op, npath)
        if self.on_step is not None:
            self.harness(self.on_step, op, path)
        fault = self.plan.get(self.steps)
        if fault is None and self.fault_hook is not None:
            fault = self.harness(self.fault_hook, p, op, path)
        if fault is not None:
            return self.inject(p, fault, op, path)
        return None

    def harness(self, fn, *a):
        act, self.active = self.active, False
        try:
            return fn(self, *a)
        finally:
            self.active = act

    ERRNO_OK = {
        "open-w": (errno.ENOSPC, errno.EACCES, errno.EMFILE, errno.EROFS),
        "open-r": (errno.EMFILE, errno.EIO, errno.EACCES),
        "write": (errno.ENOSPC, errno.EIO),
        "read": (errno.EIO,),
        "mkdir": (errno.ENOSPC, errno.EACCES),
        "rename": (errno.EACCES, errno.EIO, errno.ENOSPC),
        "unlink": (errno.EACCES, errno.EIO),
        "rmdir": (errno.EACCES, errno.EIO),
    }

    def inject(self, p, fault, op, path):
        """Carry out a fault; returns an instruction for the caller or raises."""
        kind = fault[0]
        if kind == "crash":
            self.count_fault("crash")
            self.note(p.name, "CRASH", op)
            self.kill_tree(fault[1] if len(fault) > 1 else "all", p)
            raise SimCrash()
        if kind == "torn":
            if op != "write":
                self.count_fault("crash")
                self.note(p.name, "CRASH", op)
                self.kill_tree("all", p)
                raise SimCrash()
            self.count_fault("torn-write")
            return ("torn", fault[1])
        if kind == "interrupt":
            self.count_fault("interrupt")
            self.note(p.name, "SIGINT", op)
            raise KeyboardInterrupt()
        if kind == "errno":
            ok = self.ERRNO_OK.get(op)
            if not ok:
                # not a call that fails this way: retry at the next step
                self.plan[self.steps + 1] = fault
                return None
            e = ok[fault[1] % len(ok)]
            name = errno.errorcode[e]
            self.count_fault("io-" + name)
            self.note(p.name, "ERRNO", op, name)
            if op == "write" and e == errno.ENOSPC and len(fault) > 2:
                return ("enospc", fault[2])
            raise OSError(e, os.strerror(e), os.fspath(path) if path is not None else None)
        if kind == "short":
            if op != "write":
                self.plan[self.steps + 1] = fault
                return None
            self.count_fault("short-write")
            return ("short", fault[1])
        raise AssertionError("unknown fault %r" % (fault,))

    def kill_tree(self, what, p):
        for q in self.procs:
            if (what == "all" or q is p) and not q.done:
                q.crashed = True

    # -- scheduling ----------------------------------------------------------
    def runnable(self):
        return [q for q in self.procs if q.thread is not None and not q.done and
                (q.blocked is None or q.crashed or q.blocked())]

    def maybe_switch(self, p):
        if self.switch_pct and self.s.sched.chance(self.switch_pct):
            self.reschedule(p)

    def reschedule(self, p):
        """Give the baton to some runnable process (maybe p again)."""
        ready = self.runnable()
        if not ready:
            raise AssertionError("deadlock: no runnable simulated process")
        ready.sort(key=lambda q: (q is not p, q.pid))
        q = ready[self.s.sched.choose(len(ready))]
        if q is not p:
            self.hand(p, q)

    def save_ctx(self, p):
        p.cwd = R.getcwd()
        p.env = dict(os.environ._data)
        p.argv = sys.argv
        p.in_tool = self.in_tool

    def load_ctx(self, q):
        if q.in_tool is not None:
            self.in_tool = q.in_tool
        try:
            R.chdir(q.cwd)
        except OSError:
            R.chdir(self.root)
        if q.env is not None:
            os.environ._data.clear()
            os.environ._data.update(q.env)
        if q.argv is not None:
            sys.argv = q.argv

    def hand(self, p, q):
        if p is not None and not p.done:
            self.save_ctx(p)
        self.current = q
        self.load_ctx(q)
        if p is not None:
            p.go.clear()
        q.go.set()
        if p is not None and not p.done:
            p.go.wait()

    def block(self, cond):
        """The current process waits until cond() holds."""
        p = self.current
        while not cond():
            if p.crashed:
                raise SimCrash()
            p.blocked = cond
            ready = [q for q in self.runnable() if q is not p]
            if not ready:
                p.blocked = None
                raise AssertionError("deadlock in simulated system")
            q = ready[self.s.sched.choose(len(ready))]
            self.hand(p, q)
        p.blocked = None

    def new_proc(self, name, cwd, env=None, parent=None):
        p = Proc(self, name, cwd, env, parent)
        self.procs.append(p)
        return p

    def run_main(self, p, fn):
        """Run fn as simulated process p in the calling thread."""
        prev, pact = self.current, self.active
        cwd0 = R.getcwd()
        env0 = dict(os.environ._data)
        argv0 = sys.argv
        if p.env is None:
            p.env = env0
        self.current = p
        self.load_ctx(p)
        self.active = True
        try:
            self._body(p, fn)
        finally:
            p.done = True
            self.active = pact
            self.current = prev
            R.chdir(cwd0)
            os.environ._data.clear()
            os.environ._data.update(env0)
            sys.argv = argv0
        if self.uncaught and not isinstance(self.uncaught[0], StepLimit):
            raise AssertionError("harness: " + "".join(
                traceback.format_exception(self.uncaught[0]))[-2500:])
        return p.rc

    def _body(self, p, fn):
        try:
            r = fn()
            p.rc = 0 if r is None or not isinstance(r, int) else 0
        except SystemExit as e:
            p.exc = e
            c = e.code
            p.rc = 0 if c is None else c & 255 if isinstance(c, int) else 1
        except SimCrash as e:
            p.crashed = True
            p.rc = -9
            p.exc = e
        except KeyboardInterrupt as e:
            p.rc = -2
            p.exc = e
        except (StepLimit, AssertionError) as e:
            p.exc = e
            p.rc = 1
            self.uncaught.append(e)
            raise
        except BaseException as e:
            p.exc = e
            p.rc = 1
            if not p.crashed:
                p.err.append("".join(traceback.format_exception_only(type(e), e)))
        if self.child_mode is not None:
            # a forked child that never reached exec
            _child_report(self, ("exit", 1 if p.rc is None or p.rc < 0 else p.rc), "escaped")
        if p.crashed:
            p.rc = -9
        self.release_locks(p)

    def spawn(self, p, fn, argv=None):
        """Create the thread of simulated process p (parked)."""
        p.argv = argv if argv is not None else list(sys.argv)
        p.in_tool = self.in_tool
        if p.env is None:
            p.env = dict(os.environ._data)

        def run():
            p.go.wait()
            try:
                self._body(p, fn)
            except BaseException:
                pass
            finally:
                p.done = True
                self.note(p.name, "EXIT", p.rc)
                ready = self.runnable()
                if ready:
                    ready.sort(key=lambda q: q.pid)
                    q = ready[self.s.sched.choose(len(ready))]
                    self.current = q
                    self.load_ctx(q)
                    q.go.set()
                else:
                    self.idle.set()
        p.thread = R.Thread(target=run, daemon=True)
        p.thread.start()
        return p

    def wait_for(self, procs):
        """The current process (in a thread or the main one) waits for procs."""
        me = self.current
        if me is not None and me.thread is not None:
            self.block(lambda: all(q.done for q in procs))
            return
        # the caller is the main thread of the simulation
        self.run_threads(procs)

    def run_threads(self, procs=None):
        """Run parked threads until all are done; caller is not one of them."""
        me, act = self.current, self.active
        if me is not None:
            self.save_ctx(me)
        pre, self.preempt = self.preempt, True
        self.idle = threading.Event()
        ready = self.runnable()
        self.active = True
        if ready:
            ready.sort(key=lambda q: q.pid)
            q = ready[self.s.sched.choose(len(ready))]
            self.current = q
            self.load_ctx(q)
            q.go.set()
            if not self.idle.wait(120):
                raise AssertionError("simulation stuck")
            if any(q.thread is not None and not q.done for q in self.procs):
                raise AssertionError("deadlock: blocked processes remain")
        self.preempt = pre
        self.active = act
        self.current = me
        if me is not None:
            self.load_ctx(me)
        if self.uncaught:
            raise self.uncaught[0]

    # -- advisory locks -------------------------------------------------------
    def release_locks(self, p):
        for k in [k for k, (q, _) in self.locktab.items() if q is p]:
            del self.locktab[k]


# --------------------------------------------------------------------------
# file objects

class SimFile(io.RawIOBase):
    def __init__(self, path, flags, mode, name=None):
        self._fd = os.open(path, flags, 0o666) if not isinstance(path, int) else path
        self.name = name if name is not None else path
        self.mode = mode
        acc = flags & os.O_ACCMODE
        self._r = acc in (os.O_RDONLY, os.O_RDWR)
        self._w = acc in (os.O_WRONLY, os.O_RDWR)
        if flags & os.O_APPEND:
            try:
                R.lseek(self._fd, 0, 2)
            except OSError:
                pass

    def fileno(self):
        return self._fd

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True

    def readinto(self, b):
        if not self._r:
            raise io.UnsupportedOperation("not readable")
        data = os.read(self._fd, len(b))
        b[:len(data)] = data
        return len(data)

    def write(self, b):
        if not self._w:
            raise io.UnsupportedOperation("not writable")
        return os.write(self._fd, bytes(b))

    def seek(self, pos, whence=0):
        return R.lseek(self._fd, pos, whence)

    def tell(self):
        return R.lseek(self._fd, 0, 1)

    def truncate(self, size=None):
        if size is None:
            size = self.tell()
        os.ftruncate(self._fd, size)
        return size

    def isatty(self):
        return False

    def close(self):
        if not self.closed:
            try:
                io.RawIOBase.close(self)
            finally:
                os.close(self._fd)


def _sim_open(file, mode="r", buffering=-1, encoding=None, errors=None,
              newline=None, closefd=True, opener=None):
    sim = CUR
    if sim is None or not sim.active or sim.current is None:
        return R.bopen(file, mode, buffering, encoding, errors, newline, closefd, opener)
    if isinstance(file, int):
        if file not in sim.fds:
            return R.bopen(file, mode, buffering, encoding, errors, newline, closefd, opener)
    elif not sim.inside(file):
        _chk(sim, "open-w" if set(mode) & set("wax+") else None, file)
        return R.bopen(file, mode, buffering, encoding, errors, newline, closefd, opener)
    binary = "b" in mode
    m = mode.replace("b", "").replace("t", "").replace("U", "")
    plus = "+" in m
    base = m.replace("+", "")
    if base == "r":
        fl = os.O_RDWR if plus else os.O_RDONLY
    elif base == "w":
        fl = (os.O_RDWR if plus else os.O_WRONLY) | os.O_CREAT | os.O_TRUNC
    elif base == "a":
        fl = (os.O_RDWR if plus else os.O_WRONLY) | os.O_CREAT | os.O_APPEND
    elif base == "x":
        fl = (os.O_RDWR if plus else os.O_WRONLY) | os.O_CREAT | os.O_EXCL
    else:
        raise ValueError("invalid mode: %r" % mode)
    fl |= os.O_CLOEXEC
    if opener is not None and not isinstance(file, int):
        fd = opener(file, fl)
        raw = SimFile(fd, fl, mode, file)
    else:
        if not isinstance(file, int):
            # real open() refuses directories
            try:
                if stat_mod.S_ISDIR(R.stat(file).st_mode):
                    raise IsADirectoryError(errno.EISDIR, os.strerror(errno.EISDIR), os.fspath(file))
            except FileNotFoundError:
                pass
        raw = SimFile(file, fl, mode, file)
    line_buffering = False
    if buffering == 0:
        if not binary:
            raise ValueError("can't have unbuffered text I/O")
        return raw
    if buffering == 1 and not binary:
        line_buffering = True
    size = buffering if buffering > 1 else 8192
    if plus:
        buf = io.BufferedRandom(raw, size)
    elif raw._w:
        buf = io.BufferedWriter(raw, size)
    else:
        buf = io.BufferedReader(raw, size)
    if binary:
        return buf
    t = io.TextIOWrapper(buf, encoding, errors, newline, line_buffering)
    t.mode = mode
    return t


# --------------------------------------------------------------------------
# patched os functions

def _on(sim, *paths):
    return (sim is not None and sim.active and sim.current is not None and
            any(sim.inside(x) for x in paths))


def _chk(sim, op=None, path=None):
    """A crashed process does nothing at all, wherever the path is; with a
    guard, changes of anything outside of the root are only recorded."""
    if sim is not None and sim.active and sim.current is not None:
        if sim.current.crashed:
            raise SimCrash()
        if op in MUTATING and sim.guard is not None and path != os.devnull:
            sim.guard.append((op, str(path)))
            raise OSError(errno.EROFS, os.strerror(errno.EROFS), path)


MUTATING = ("open-w", "unlink", "mkdir", "rmdir", "chmod", "write", "rename", "symlink", "link")


def _touch(sim, path):
    try:
        ns = int(sim.clock * 1e9)
        R.utime(path, ns=(ns, ns))
    except OSError:
        pass


def _touch_parent(sim, path):
    _touch(sim, os.path.dirname(sim.abspath(path)))


def _p_open(path, flags, mode=0o777, *, dir_fd=None):
    sim = CUR
    if dir_fd is not None or not _on(sim, path):
        _chk(sim, "open-w" if flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC) else None, path)
        if dir_fd is not None:
            return R.open(path, flags, mode, dir_fd=dir_fd)
        return R.open(path, flags, mode)
    w = flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC)
    sim.step("open-w" if w else "open-r", path)
    ex = os.path.exists(sim.abspath(path)) if w else True
    fd = R.open(path, flags, mode)
    sim.fds[fd] = sim.abspath(path)
    if w and (flags & os.O_TRUNC or not ex):
        _touch(sim, fd)
    return fd


def _p_read(fd, n):
    sim = CUR
    if not _on(sim, fd):
        return R.read(fd, n)
    sim.step("read", sim.fds[fd])
    return R.read(fd, n)


def _p_write(fd, data):
    sim = CUR
    if not _on(sim, fd):
        return R.write(fd, data)
    ins = sim.step("write", sim.fds[fd])
    data = bytes(data)
    if ins is not None and data:
        cut = int(len(data) * ins[1])
        cut = min(max(cut, 0), len(data) - 1)
        if ins[0] == "torn":
            R.write(fd, data[:cut])
            _touch(sim, fd)
            sim.note(sim.current.name, "TORN", cut)
            sim.kill_tree("all", sim.current)
            raise SimCrash()
        if ins[0] == "enospc":
            R.write(fd, data[:cut])
            _touch(sim, fd)
            raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC))
        if ins[0] == "short":
            n = R.write(fd, data[:max(cut, 1)])
            _touch(sim, fd)
            return n
    n = R.write(fd, data)
    _touch(sim, fd)
    return n


def _p_close(fd):
    sim = CUR
    if sim is not None and fd in sim.fds:
        path = sim.fds[fd]
        if sim.active and sim.current is not None and not sim.current.crashed:
            for k in [k for k, (q, kfd) in sim.locktab.items()
                      if q is sim.current and (kfd is None or kfd == fd)]:
                if k == path:
                    del sim.locktab[k]
        del sim.fds[fd]
        R.close(fd)
        if sim.active and sim.current is not None:
            sim.step("close", path)
        return None
    return R.close(fd)


def _mk1(name, op, touch=None):
    real = getattr(R, name)

    def f(path, *a, **kw):
        sim = CUR
        if (kw.get("dir_fd") is not None) or not _on(sim, path):
            _chk(sim, op, path)
            return real(path, *a, **kw)
        sim.step(op, path)
        r = real(path, *a, **kw)
        if touch == "self":
            _touch(sim, path)
        if touch in ("self", "parent") and not isinstance(path, int):
            _touch_parent(sim, path)
        return r
    f.__name__ = name
    return f


def _mk2(name, op):
    real = getattr(R, name)

    def f(src, dst, *a, **kw):
        sim = CUR
        if not _on(sim, src, dst):
            _chk(sim, op, dst)
            return real(src, dst, *a, **kw)
        sim.step(op, dst)
        r = real(src, dst, *a, **kw)
        _touch_parent(sim, dst)
        return r
    f.__name__ = name
    return f


def _p_listdir(path="."):
    sim = CUR
    if not _on(sim, path):
        return R.listdir(path)
    sim.step("listdir", path)
    x = sorted(R.listdir(path))
    if sim.shuffle_dirs:
        sim.s.sched.shuffle(x)
    return x


class _Scan:
    def __init__(self, items):
        self.it = iter(items)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


def _p_scandir(path="."):
    sim = CUR
    if not _on(sim, path):
        return R.scandir(path)
    sim.step("listdir", path)
    with R.scandir(path) as it:
        x = sorted(it, key=lambda e: e.name)
    if sim.shuffle_dirs:
        sim.s.sched.shuffle(x)
    return _Scan(x)


def _p_utime(path, times=None, *, ns=None, dir_fd=None, follow_symlinks=True):
    sim = CUR
    if not _on(sim, path):
        _chk(sim)
        kw = {}
        if ns is not None:
            kw["ns"] = ns
        return R.utime(path, times, **kw) if ns is None else R.utime(path, **kw)
    sim.step("utime", path)
    if ns is not None:
        return R.utime(path, ns=ns)
    if times is not None:
        return R.utime(path, times)
    t = int(sim.clock * 1e9)
    return R.utime(path, ns=(t, t))


def _p_chdir(path):
    sim = CUR
    if not _on(sim, path):
        _chk(sim)
        return R.chdir(path)
    sim.step("chdir", path)
    return R.chdir(path)


def _p_getpid():
    sim = CUR
    if sim is None or not sim.active or sim.current is None:
        return R.getpid()
    return sim.current.pid


# -- fork / exec / wait -----------------------------------------------------

class ExecCall:
    """A program start asked for by the simulated system."""

    def __init__(self, file, argv, env, cwd, shell=False):
        self.file = file
        self.argv = argv
        self.env = env
        self.cwd = cwd
        self.shell = shell
        self.stdout = b""
        self.stderr = b""
        self.stdin = None
        self.duration = 0.01
        self.proc = None

    @property
    def prog(self):
        return os.path.basename(self.file)


def _lookup(sim, file, env):
    """Resolve a program name against simulated programs. None: ENOENT."""
    base = os.path.basename(file)
    if "/" in file:
        # only simulated absolute prefixes exist
        if file in sim.programs:
            return file
        if os.path.dirname(file) in ("/usr/bin", "/usr/lib/llvm-16/bin") and \
                base in sim.programs:
            return base
        return None
    return base if base in sim.programs else None


def _p_fork():
    sim = CUR
    if sim is None or not sim.active or sim.current is None:
        return R.fork()
    p = sim.current
    if sim.fork_real:
        sim.step("fork")
        f = sim.fork_real(sim, p)
        if f is not None:
            return f
    sim.step("fork")
    rfd, wfd = R.pipe()
    pid = R.fork()
    if pid == 0:
        R.close(rfd)
        sim.child_mode = wfd
        sim.preempt = False
        sim.plan = {}
        sim.fault_hook = sim.child_hook
        sim.child_from = (len(p.out), p.steps)
        return 0
    R.close(wfd)
    chunks = []
    while True:
        b = R.read(rfd, 65536)
        if not b:
            break
        chunks.append(b)
    R.close(rfd)
    _, status = R.waitpid(pid, 0)
    import pickle
    data = b"".join(chunks)
    simpid = sim.next_pid
    sim.next_pid += 1
    if data:
        p.children[simpid], meta = pickle.loads(data)
        sim.children_log.append(meta)
    elif os.WIFSIGNALED(status):
        p.children[simpid] = ("signal", os.WTERMSIG(status))
    else:
        # the child ended without exec (exception or _exit without report)
        p.children[simpid] = ("exit", 1)
    return simpid


def _child_report(sim, what, how="_exit"):
    import pickle
    p = sim.current or sim.procs[-1]
    o, n = sim.child_from
    b = pickle.dumps((what, {"how": how, "out": "".join(map(str, p.out[o:])), "steps": p.steps - n,
                            "extra": sim.child_extra}))
    while b:
        n = R.write(sim.child_mode, b)
        b = b[n:]
    R._exit(0)


def _p_execv(path, argv):
    return _p_execve(path, argv, None)


def _p_execve(path, argv, env):
    sim = CUR
    if sim is None or not sim.active or sim.current is None:
        return R.execve(path, argv, env if env is not None else os.environ)
    e = dict(os.environ) if env is None else dict(env)
    if _lookup(sim, path, e) is None:
        raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), path)
    if sim.child_mode is not None:
        _child_report(sim, ("exec", path, list(argv), e, R.getcwd()))
    raise AssertionError("exec without fork in the simulation")


def _p_execvp(file, argv):
    sim = CUR
    if sim is None or not sim.active:
        return R.execvp(file, argv)
    return _p_execve(file, argv, None)


def _p_execvpe(file, argv, env):
    sim = CUR
    if sim is None or not sim.active:
        return R.execvpe(file, argv, env)
    return _p_execve(file, argv, env)


def _p__exit(code):
    sim = CUR
    if sim is not None and sim.child_mode is not None:
        _child_report(sim, ("exit", code))
    return R._exit(code)


def _p_pipe():
    """A pipe holds what a forked process writes until it is read; that the process would wait for a reader
    is found in waitpid."""
    r, w = R.pipe()
    sim = CUR
    if sim is not None and sim.active and sim.current is not None:
        fcntl.fcntl(w, 1031, 1 << 20)          # F_SETPIPE_SZ
        sim.pipes.append(r)
    return r, w


def _unread(fd):
    """Bytes that wait in a pipe."""
    try:
        if not stat_mod.S_ISFIFO(R.fstat(fd).st_mode):
            return 0
        n = array.array("i", [0])
        fcntl.ioctl(fd, 0x541B, n)              # FIONREAD
        return n[0]
    except OSError:
        return 0


def _p_waitpid(pid, options):
    sim = CUR
    if sim is None or not sim.active or sim.current is None:
        return R.waitpid(pid, options)
    p = sim.current
    if pid == -1 and p.children:
        pid = min(p.children)
    if pid not in p.children:
        raise ChildProcessError(errno.ECHILD, os.strerror(errno.ECHILD))
    sim.step("waitpid")
    if any(_unread(fd) > 65536 for fd in sim.pipes):
        # a pipe takes no more: the process cannot end before somebody reads
        sim.deadlock = "%s waits for a process that waits until its pipe is read" % p.name
    what = p.children.pop(pid)
    if what[0] == "exit":
        return pid, (what[1] & 255) << 8
    if what[0] == "signal":
        return pid, what[1]
    _, path, argv, env, cwd = what
    call = ExecCall(path, argv, env, cwd)
    rc = run_program(sim, call)[0]
    for data, to in ((call.stdout, p.out), (call.stderr, p.err)):
        if data:
            to.append(data.decode("utf-8", "replace"))
    return pid, (rc << 8) if rc >= 0 else -rc


def run_program(sim, call):
    """Run a simulated program inside the current process's thread.

    Returns (rc, call).  rc < 0: killed by that signal."""
    p = sim.current
    call.proc = p
    key = _lookup(sim, call.file, call.env)
    if key is None:
        raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), call.file)
    sim.step("exec:" + os.path.basename(call.file))
    sim.execs.append(call)
    sim.note(p.name, "RUN", [sim.norm(a) for a in call.argv], sim.norm(call.cwd))
    cwd = R.getcwd()
    R.chdir(call.cwd)
    sim.in_tool += 1
    try:
        rc = sim.programs[key](sim, call)
        rc = 0 if rc is None else rc
    except OSError as e:
        # an injected I/O error hit the tool: it fails
        if not sim.faults_done and not sim.escaped:
            sim.uncaught.append(e)
            raise
        rc = 1
    except Exception as e:
        sim.uncaught.append(e)
        e.add_note(traceback.format_exc())
        raise
    finally:
        sim.in_tool -= 1
        try:
            R.chdir(cwd)
        except OSError:
            pass
    call.rc = rc
    sim.note(p.name, "RC", rc)
    return rc, call


# -- subprocess ---------------------------------------------------------------

class SimPopen:
    def __new__(cls, *a, **kw):
        sim = CUR
        if sim is None or not sim.active or sim.current is None:
            return R.Popen(*a, **kw)
        return object.__new__(cls)

    def __init__(self, args, bufsize=-1, executable=None, stdin=None, stdout=None,
                 stderr=None, preexec_fn=None, close_fds=True, shell=False, cwd=None,
                 env=None, universal_newlines=None, startupinfo=None, creationflags=0,
                 restore_signals=True, start_new_session=False, pass_fds=(), *,
                 user=None, group=None, extra_groups=None, encoding=None, errors=None,
                 text=None, umask=-1, pipesize=-1, process_group=None):
        sim = CUR
        self.sim = sim
        self.args = args
        self.returncode = None
        self.text = bool(text or universal_newlines or encoding)
        self.stdin = self.stdout = self.stderr = None
        p = sim.current
        if p.crashed:
            raise SimCrash()
        self.pid = sim.next_pid
        sim.next_pid += 1
        if isinstance(args, (str, bytes, os.PathLike)):
            argv = [os.fspath(args)]
            if shell:
                argv = ["sh", "-c", argv[0]]
        else:
            argv = [os.fspath(a) for a in args]
            if shell:
                argv = ["sh", "-c"] + argv
        file = executable or argv[0]
        wd = R.getcwd() if cwd is None else os.path.join(R.getcwd(), os.fspath(cwd))
        if not os.path.isdir(wd):
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), cwd)
        e = dict(os.environ) if env is None else dict(env)
        call = ExecCall(file, argv, e, wd, shell)
        self.call = call
        if stdin is not None and hasattr(stdin, "simproc"):
            call.stdin = stdin.simproc
        self._out = stdout
        self._err = stderr
        base = os.path.basename(file)
        if _lookup(sim, file, e) is None and base in sim.real_programs:
            sim.step("exec:" + base)
            sim.execs.append(call)
            sim.note(p.name, "RUN-REAL", [sim.norm(a) for a in argv])
            sim.active = False
            try:
                if base == "sed" and any(a.startswith("/") and os.path.exists(a) and not contained(a) for a in argv[1:]):
                    raise PermissionError(errno.EPERM, os.strerror(errno.EPERM), base)
                r = R.Popen(argv, executable=executable, cwd=wd, env=e,
                            stdin=_sp.DEVNULL, stdout=_sp.PIPE, stderr=_sp.PIPE)
                call.stdout, call.stderr = r.communicate()
                rc = r.returncode
            finally:
                sim.active = True
            sim.note(p.name, "RC", rc)
            sim.step("done:" + base)
        else:
            rc, call = run_program(sim, call)
        self._rc = rc
        self.start = sim.clock
        self.finish = sim.clock + call.duration
        self.killed = False
        if stdout == _sp.PIPE:
            self.stdout = self._pipe(call.stdout)
        elif stdout is not None and hasattr(stdout, "write") and call.stdout:
            stdout.write(call.stdout if "b" in getattr(stdout, "mode", "") else
                         call.stdout.decode())
        elif stdout is None and call.stdout:
            p.out.append(call.stdout.decode("utf-8", "replace"))
        if stderr == _sp.PIPE:
            self.stderr = self._pipe(call.stderr)
        elif stderr is None and call.stderr:
            p.err.append(call.stderr.decode("utf-8", "replace"))

    def _pipe(self, data):
        f = io.BytesIO(data)
        if self.text:
            f = io.TextIOWrapper(f)
        pipe = _PipeEnd(f, self)
        return pipe

    def poll(self):
        if self.returncode is None and self.sim.clock >= self.finish:
            self.returncode = self._rc
        return self.returncode

    def wait(self, timeout=None):
        sim = self.sim
        if sim.current is not None and sim.current.crashed:
            raise SimCrash()
        if self.returncode is None:
            limit = None if timeout is None else sim.clock + timeout
            while sim.clock < self.finish:
                nxt = self.finish if limit is None else min(self.finish, limit)
                due = [t.due for t in sim.timers]
                if due and min(due) < nxt:
                    nxt = min(due)
                if nxt == float("inf"):
                    raise StepLimit("process never ends")
                sim.run_until(nxt)
                if limit is not None and sim.clock >= limit and sim.clock < self.finish:
                    raise _sp.TimeoutExpired(self.args, timeout)
            self.returncode = self._rc
        return self.returncode

    def communicate(self, input=None, timeout=None):
        self.wait(timeout)
        out = self.stdout.read() if self.stdout is not None else None
        err = self.stderr.read() if self.stderr is not None else None
        return out, err

    def kill(self):
        if self.returncode is None and self.sim.clock < self.finish:
            self.killed = True
            self.finish = self.sim.clock
            self._rc = -9
            if self.stdout is not None:
                self.stdout.cut()

    terminate = kill

    def send_signal(self, sig):
        self.kill()

    def __enter__(self):
        return self

    def __exit__(self, t, v, tb):
        self.wait()


class _PipeEnd:
    """Read end of a simulated pipe; reading waits for the writer to end."""

    def __init__(self, f, proc):
        self.f = f
        self.simproc = proc
        self.closed = False

    def cut(self):
        self.f = io.BytesIO(b"") if not isinstance(self.f, io.TextIOWrapper) else io.StringIO("")

    def read(self, *a):
        if self.simproc.returncode is None:
            self.simproc.wait()
        return self.f.read(*a)

    def readline(self, *a):
        if self.simproc.returncode is None:
            self.simproc.wait()
        return self.f.readline(*a)

    def __iter__(self):
        if self.simproc.returncode is None:
            self.simproc.wait()
        return iter(self.f)

    def close(self):
        self.closed = True

    def fileno(self):
        raise io.UnsupportedOperation("simulated pipe")

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def _p_system(cmd):
    sim = CUR
    if sim is None or not sim.active or sim.current is None:
        return R.system(cmd)
    rc, _ = run_program(sim, ExecCall("sh", ["sh", "-c", cmd], dict(os.environ), R.getcwd(), True))
    return rc << 8 if rc >= 0 else -rc


# -- timers and clocks ----------------------------------------------------------

class SimTimer:
    _seq = 0

    def __new__(cls, *a, **kw):
        sim = CUR
        if sim is None or not sim.active:
            return R.Timer(*a, **kw)
        return object.__new__(cls)

    def __init__(self, interval, function, args=None, kwargs=None):
        self.sim = CUR
        self.interval = interval
        self.function = function
        self.args = args if args is not None else []
        self.kwargs = kwargs if kwargs is not None else {}
        self.started = self.fired = self.cancelled = False
        self.daemon = False
        SimTimer._seq += 1
        self.seq = SimTimer._seq

    def start(self):
        self.started = True
        self.due = self.sim.clock + self.interval
        self.sim.timers.append(self)

    def fire(self):
        if not self.cancelled:
            self.fired = True
            self.sim.note("timer", "FIRE", round(self.interval, 6))
            self.function(*self.args, **self.kwargs)

    def cancel(self):
        self.cancelled = True
        if self in self.sim.timers:
            self.sim.timers.remove(self)

    def is_alive(self):
        return self.started and not self.fired and not self.cancelled

    def join(self, timeout=None):
        if self.is_alive():
            self.sim.run_until(self.due)


class _DTMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, R.datetime)

    def __subclasscheck__(cls, c):
        return issubclass(c, R.datetime)

    def __getattr__(cls, n):
        return getattr(R.datetime, n)


class SimDatetime(metaclass=_DTMeta):
    def __new__(cls, *a, **kw):
        return R.datetime(*a, **kw)

    @staticmethod
    def now(tz=None):
        sim = CUR
        if sim is None or not sim.active:
            return R.datetime.now(tz)
        return R.datetime.fromtimestamp(sim.clock, tz)

    @staticmethod
    def utcnow():
        sim = CUR
        if sim is None or not sim.active:
            return R.datetime.utcnow()
        return R.datetime.fromtimestamp(sim.clock, _dt.timezone.utc).replace(tzinfo=None)

    @staticmethod
    def today():
        return SimDatetime.now()


def _p_time():
    sim = CUR
    if sim is None or not sim.active:
        return R.time()
    return sim.clock


def _p_perf():
    sim = CUR
    if sim is None or not sim.active:
        return R.perf()
    return sim.clock


def _p_sleep(n):
    sim = CUR
    if sim is None or not sim.active or sim.current is None:
        return R.sleep(n)
    sim.step("sleep")
    sim.run_until(sim.clock + n)


# -- locks -------------------------------------------------------------------

def _p_flock(fd, op):
    return _lock(fd, op, True)


def _p_lockf(fd, op, len=0, start=0, whence=0):
    return _lock(fd, op, False)


def _lock(fd, op, per_fd):
    import fcntl
    sim = CUR
    if hasattr(fd, "fileno"):
        fd = fd.fileno()
    if sim is None or not sim.active or fd not in sim.fds:
        return (R.flock if per_fd else R.lockf)(fd, op)
    path = sim.fds[fd]
    p = sim.current
    sim.step("lock", path)
    if op & fcntl.LOCK_UN:
        if sim.locktab.get(path, (None,))[0] is p:
            del sim.locktab[path]
        return None

    def free():
        h = sim.locktab.get(path)
        return h is None or h[0] is p or h[0].done
    if not free():
        if op & fcntl.LOCK_NB:
            raise BlockingIOError(errno.EWOULDBLOCK, "locked")
        sim.block(free)
    sim.locktab[path] = (p, fd if per_fd else None)
    return None


# --------------------------------------------------------------------------

_installed = False


def install():
    """Patch the process.  Must run before diffkemp is imported."""
    global _installed
    if _installed:
        return
    _installed = True
    Sim.fork_real = None
    builtins.open = _sim_open
    io.open = _sim_open
    os.open, os.read, os.write, os.close = _p_open, _p_read, _p_write, _p_close
    for n, op, touch in (("unlink", "unlink", "parent"), ("remove", "unlink", "parent"),
                         ("mkdir", "mkdir", "self"), ("rmdir", "rmdir", "parent"),
                         ("stat", "stat", None), ("lstat", "stat", None),
                         ("chmod", "chmod", None), ("access", "stat", None),
                         ("readlink", "stat", None),
                         ("truncate", "write", "self"), ("ftruncate", "write", "self"),
                         ("fsync", "fsync", None), ("fdatasync", "fsync", None)):
        setattr(os, n, _mk1(n, op, touch))
    for n, op in (("rename", "rename"), ("replace", "rename"), ("symlink", "symlink"),
                  ("link", "link")):
        setattr(os, n, _mk2(n, op))
    os.listdir, os.scandir, os.utime, os.chdir = _p_listdir, _p_scandir, _p_utime, _p_chdir
    os.getpid, os.fork, os.execv, os.execve = _p_getpid, _p_fork, _p_execv, _p_execve
    os.execvp, os.execvpe, os._exit, os.waitpid = _p_execvp, _p_execvpe, _p__exit, _p_waitpid
    os.pipe = _p_pipe
    os.system = _p_system
    import fcntl
    R.flock, R.lockf = fcntl.flock, fcntl.lockf
    fcntl.flock, fcntl.lockf = _p_flock, _p_lockf
    import shutil
    shutil._USE_CP_SENDFILE = False
    shutil._use_fd_functions = False
    import tempfile
    _names(tempfile)
    _sp.Popen = SimPopen
    threading.Timer = SimTimer
    try:
        import yaml             # noqa: F401  (registers the real class)
    except ImportError:
        pass
    _dt.datetime = SimDatetime
    R.sleep = _time.sleep
    _time.time, _time.perf_counter, _time.sleep = _p_time, _p_perf, _p_sleep
    import timeit
    timeit.default_timer = _p_perf
    sys.stdout = _Out(1, R.stdout)
    sys.stderr = _Out(2, R.stderr)
    threading.excepthook = lambda a: None
    sys.unraisablehook = lambda a: None
    import warnings
    warnings.simplefilter("ignore")


def _names(tempfile):
    """Deterministic temporary names below the simulation root."""
    orig = tempfile._get_candidate_names

    class Names:
        def __init__(self, sim):
            self.sim = sim

        def __iter__(self):
            return self

        def __next__(self):
            self.sim.tmp_no = getattr(self.sim, "tmp_no", 0) + 1
            return "t%06d" % self.sim.tmp_no

    def get():
        if CUR is None:
            return orig()
        if not hasattr(CUR, "tmp_names"):
            CUR.tmp_names = Names(CUR)
        return CUR.tmp_names
    tempfile._get_candidate_names = get
    orig_dir = tempfile.gettempdir

    def gettempdir():
        if CUR is None or not CUR.active:
            return orig_dir()
        return CUR.root + "/tmp"
    tempfile.gettempdir = gettempdir
    tempfile._candidate_tempdir_list = lambda: [gettempdir()]


def activate(sim):
    global CUR
    CUR = sim


def stable_hash(cls):
    """Objects hashed by address: give them a hash the env stream decides, so
    that the order of sets of them is both explored and repeatable."""
    if cls.__hash__ is not object.__hash__:
        return

    def h(self):
        v = self.__dict__.get("_dst_hash")
        if v is None:
            sim = CUR
            if sim is None:
                return object.__hash__(self)
            sim.objects += 1
            v = self.__dict__["_dst_hash"] = sim.objects * 8 + 8 * sim.s.env.choose(64)
        return v
    cls.__hash__ = h
