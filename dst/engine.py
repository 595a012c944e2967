"""Private, content-addressed build of the real SimpLL engine.

The C++ part of /repo's working tree is copied to a cache directory whose name
is a hash of its content, configured with the repository's own CMake files and
built there, together with the cffi extension.  /repo is never written to.
"""
import fcntl
import glob
import hashlib
import importlib.util
import os
import shutil
import subprocess
import sys
import time

REPO = os.environ.get("DST_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(VERIF, ".cache")

# What the C++ build reads.
PARTS = ["CMakeLists.txt", "diffkemp/simpll", "diffkemp/building/CMakeLists.txt",
         "diffkemp/utils.py", "tools"]
SKIP_SUFFIX = (".so", ".o", ".pyc", ".a", ".ll")
FLAGS = "-O0 -g0"


class EngineError(Exception):
    pass


def _files():
    res = []
    for part in PARTS:
        p = os.path.join(REPO, part)
        if os.path.isfile(p):
            res.append(part)
            continue
        for root, dirs, files in os.walk(p):
            dirs[:] = sorted(d for d in dirs if d != "__pycache__")
            for f in sorted(files):
                full = os.path.join(root, f)
                rel = os.path.relpath(full, REPO)
                if f.endswith(SKIP_SUFFIX) or f in ("_simpll.c", "_simpll.cpp"):
                    continue
                if os.path.islink(full) and f.startswith("FunctionComparator."):
                    continue    # created by CMake
                res.append(rel)
    return res


def source_hash():
    h = hashlib.sha256(FLAGS.encode())
    for rel in _files():
        full = os.path.join(REPO, rel)
        h.update(rel.encode() + b"\0")
        if os.path.islink(full):
            h.update(os.readlink(full).encode())
        else:
            with open(full, "rb") as f:
                h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()[:20]


def _env():
    env = dict(os.environ)
    env["PATH"] = ("/opt/venv/bin:/usr/lib/llvm-16/bin:/usr/local/sbin:/usr/local/bin:"
                   "/usr/sbin:/usr/bin:/sbin:/bin")
    env.update(CC="/usr/bin/gcc", CXX="/usr/bin/g++", WITHOUT_RPYTHON="1",
               LANG="C.UTF-8", LC_ALL="C.UTF-8", PYTHONDONTWRITEBYTECODE="1")
    for k in ("PYTHONPATH", "PYTHONHOME", "CFLAGS", "CXXFLAGS", "LDFLAGS", "CPATH"):
        env.pop(k, None)
    return env


def _run(cmd, log, **kw):
    with open(log, "ab") as f:
        f.write((" ".join(cmd) + "\n").encode())
        f.flush()
        rc = subprocess.call(cmd, stdout=f, stderr=subprocess.STDOUT, **kw)
    if rc:
        with open(log, "rb") as f:
            tail = f.read()[-3000:].decode(errors="replace")
        raise EngineError("engine build failed: %s\n%s" % (" ".join(cmd), tail))


def build(quiet=False):
    """Build (or reuse) the engine of the current tree; returns its build dir."""
    if os.environ.get("DST_ENGINE"):        # a build made by other means (tools/engine_dir.sh)
        return os.environ["DST_ENGINE"]
    key = source_hash()
    os.makedirs(CACHE, exist_ok=True)
    final = os.path.join(CACHE, "engine-" + key)
    done = os.path.join(final, "DONE")
    if os.path.exists(done):
        return os.path.join(final, "build")
    with open(os.path.join(CACHE, "engine.lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(done):
            return os.path.join(final, "build")
        t0 = time.time()
        # keep only the most recent other engine
        old = sorted((d for d in os.listdir(CACHE) if d.startswith("engine-")),
                     key=lambda d: os.path.getmtime(os.path.join(CACHE, d)))
        for d in old[:-2]:
            shutil.rmtree(os.path.join(CACHE, d), ignore_errors=True)
        shutil.rmtree(final, ignore_errors=True)
        src = os.path.join(final, "src")
        for rel in _files():
            dst = os.path.join(src, rel)
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            shutil.copy2(os.path.join(REPO, rel), dst, follow_symlinks=False)
        # the unit tests of the repository are not part of the engine
        os.makedirs(os.path.join(src, "tests/unit_tests/simpll"))
        open(os.path.join(src, "tests/unit_tests/simpll/CMakeLists.txt"), "w").close()
        bld = os.path.join(final, "build")
        log = os.path.join(final, "build.log")
        env = _env()
        _run(["cmake", "-S", src, "-B", bld, "-GNinja", "-DSANITIZE_ADDRESS=OFF",
              "-DVENDOR_GTEST=OFF", "-DLLVM_DIR=/usr/lib/llvm-16/lib/cmake/llvm",
              "-DCMAKE_CXX_FLAGS=" + FLAGS, "-Wno-dev"], log, env=env)
        _run(["ninja", "-C", bld, "simpll-lib", "simpll"], log, env=env)
        env2 = dict(env, SIMPLL_BUILD_DIR=bld, PYTHONPATH=src, CFLAGS="-O0 -g0")
        for d in ("diffkemp", "diffkemp/simpll"):
            open(os.path.join(src, d, "__init__.py"), "a").close()
        _run([sys.executable, "diffkemp/simpll/simpll_build.py"], log, env=env2, cwd=src)
        so = glob.glob(os.path.join(src, "diffkemp/simpll/_simpll*.so"))[0]
        shutil.copy(so, os.path.join(bld, "_simpll.abi3.so"))
        with open(done, "w") as f:
            f.write("%.1f\n" % (time.time() - t0))
        if not quiet:
            print("engine built in %.1f s" % (time.time() - t0), file=sys.stderr)
    return bld


def load(bld):
    """Load the private engine as the one `diffkemp` will import."""
    so = os.path.join(bld, "_simpll.abi3.so")
    name = "diffkemp.simpll._simpll"
    spec = importlib.util.spec_from_file_location(name, so)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    sys.modules[name] = mod
    sys.modules["_simpll"] = mod
    return mod


if __name__ == "__main__":
    t = time.time()
    print(build(), "%.1f s" % (time.time() - t))
