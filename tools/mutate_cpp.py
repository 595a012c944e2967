"""Systematic mutations of the engine, to find what C07, C18 and C11 do not see.

  python3 tools/mutate_cpp.py OUT.jsonl [--sample N] [--seed S] [--files a.cpp,b.cpp] [--budget S] [--copy DIR]

Works on a copy of /repo with a build of its own (DIR, DIR-build: both can be removed afterwards). For each mutation:
the tests of the engine, then the checks in turn until one reports a violation."""
import json
import os
import random
import re
import shutil
import subprocess
import sys
import time

REPO = "/repo"
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = ["DifferentialFunctionComparator.cpp", "ModuleComparator.cpp", "ModuleAnalysis.cpp", "Output.cpp", "Result.cpp",
         "ResultsCache.cpp", "SourceCodeUtils.cpp", "DebugInfo.cpp", "Utils.cpp", "library/FFI.cpp", "SimpLL.cpp",
         "FieldAccessUtils.cpp", "passes/FunctionAbstractionsGenerator.cpp", "passes/RemoveUnusedReturnValuesPass.cpp",
         "passes/SimplifyKernelFunctionCallsPass.cpp", "passes/CalledFunctionsAnalysis.cpp",
         "passes/MergeNumberedFunctionsPass.cpp", "passes/UnifyMemcpyPass.cpp",
         "passes/SeparateCallsToBitcastPass.cpp", "passes/VarDependencySlicer.cpp",
         "passes/ReduceFunctionMetadataPass.cpp", "passes/StructureDebugInfoAnalysis.cpp", "Config.cpp"]


def close(s, i):
    """The position behind the bracket that s[i] opens."""
    n = 0
    while i < len(s):
        if s[i] == "(":
            n += 1
        elif s[i] == ")":
            n -= 1
            if n == 0:
                return i + 1
        i += 1
    return None


def mutants(src):
    out = []

    def put(a, b, text, op):
        ln = src.count("\n", 0, a) + 1
        line = src.split("\n")[ln - 1].strip()
        if line.startswith(("//", "#", "*")) or re.search(r"LOG|assert|outs\(\)|errs\(\)|dbgs\(\)|verbos", src[a - 60 if a > 60 else 0:b + 1].split("\n")[-1]) and "RETURN" not in line:
            return
        out.append((ln, op, src[:a] + text + src[b:]))
    for m in re.finditer(r"\b(?:if|while) (\()", src):
        a, b = m.start(1), close(src, m.start(1))
        c = src[a + 1:(b or 0) - 1]
        if b is None:
            continue
        if re.match(r"\s*(auto|int|const|Function|Instruction)\b[^=]*=[^=]", c):
            continue
        put(a, b, "(!(%s))" % c, "negate")
        put(a, b, "(false && (%s))" % c, "never")
    for m in re.finditer(r" (&&|\|\|)(?=[ \n])", src):
        put(m.start(1), m.end(1), "||" if m.group(1) == "&&" else "&&", "boolop")
    for m in re.finditer(r" (==|!=|<|>|<=|>=) ", src):
        put(m.start(1), m.end(1), {"==": "!=", "!=": "==", "<": "<=", ">": ">=", "<=": "<", ">=": ">"}[m.group(1)],
            "compare")
    for m in re.finditer(r"(?:return|RETURN_WITH_LOG(?:_NEQ)?\() ?(0|1|true|false)\)?;", src):
        put(m.start(1), m.end(1), {"0": "1", "1": "0", "true": "false", "false": "true"}[m.group(1)], "return")
    for m in re.finditer(r"\b(continue|break);", src):
        put(m.start(), m.end(), ";", "delete")
    for m in re.finditer(r"\n[ ]+((?:[A-Za-z_][\w.>:\[\]-]*)\()", src):
        a = m.start(1)
        if re.match(r"(return|if|while|for|switch|RETURN_|PREP_|LOG|assert|delete)", src[a:]):
            continue
        b = close(src, m.end(1) - 1)
        prev = src[:a].rstrip()[-1:]
        if b and src[b:b + 1] == ";" and prev in ";{})":
            put(a, b, "(void)0", "delete")
    for m in re.finditer(r"\n[ ]+((?:[A-Za-z_][\w.>-]*) (?:=|\+=|\|=) [^;\n]*;)", src):
        if not re.match(r"(auto|const|int|bool|unsigned)\b", m.group(1)):
            put(m.start(1), m.end(1), ";", "delete")
    for m in re.finditer(r"[\w\])](\+\+|--)(?=[;)])", src):
        if src[m.end(1)] == ";":
            put(m.start(1) - 0, m.end(1), "", "delete")
    return list({t: (ln, op, t) for ln, op, t in out}.values())


def sh(cmd, log, cwd, timeout=600, env=None):
    with open(log, "wb") as f:
        try:
            return subprocess.run(cmd, cwd=cwd, stdout=f, stderr=subprocess.STDOUT, timeout=timeout, env=env).returncode
        except subprocess.TimeoutExpired:
            return -99


def main():
    a = sys.argv[1:]

    def opt(name, default=None):
        return a[a.index(name) + 1] if name in a else default
    out, copy = a[0], opt("--copy", "/tmp/q/mcpp")
    build = copy + "-build"
    env = dict(os.environ, PATH="/opt/venv/bin:/usr/lib/llvm-16/bin:/usr/bin:/bin", CC="gcc", CXX="g++", WITHOUT_RPYTHON="1")
    subprocess.check_call(["mkdir", "-p", copy, build])
    subprocess.check_call("rm -rf %s/diffkemp && cp -a %s/CMakeLists.txt %s/diffkemp %s/tools %s/tests %s/" % (
        copy, REPO, REPO, REPO, REPO, copy), shell=True)
    subprocess.call("find %s -name '*.so' -delete; find %s -type l -name 'FunctionComparator.*' -delete" % (copy, copy), shell=True)
    if not os.path.exists(build + "/build.ninja"):
        assert sh(["cmake", "-S", copy, "-B", build, "-GNinja", "-DSANITIZE_ADDRESS=OFF", "-DVENDOR_GTEST=OFF",
                   "-DLLVM_DIR=/usr/lib/llvm-16/lib/cmake/llvm", "-DCMAKE_CXX_FLAGS=-O0 -g0"], build + "/cmake.log", copy, env=env) == 0
    ninja = ["ninja", "-j", opt("--jobs", "4"), "-C", build]
    assert sh(ninja + ["simpll-lib", "simpll", "runTests"], build + "/ninja.log", copy, 1800, env) == 0, "build"
    tests = subprocess.check_output(["find", build, "-name", "runTests", "-type", "f"]).decode().strip()
    assert sh([tests], build + "/tests.log", os.path.dirname(tests), 300, env) == 0, "tests"
    allm = []
    for f in opt("--files", ",".join(FILES)).split(","):
        src = open("%s/diffkemp/simpll/%s" % (REPO, f)).read()
        allm += [(f, src) + m for m in mutants(src)]
    random.Random(opt("--seed", "1")).shuffle(allm)
    print("mutations", len(allm), flush=True)
    seen = set()
    if os.path.exists(out):
        for ln in open(out):
            d = json.loads(ln)
            seen.add((d["file"], d["line"], d["op"], d["new"]))
    for f, src, line, op, text in allm[:int(opt("--sample", "100000"))]:
        old, new = src.split("\n"), text.split("\n")
        i = next(i for i in range(len(new)) if i >= len(old) or old[i] != new[i])
        if (f, line, op, new[i].strip()) in seen:
            continue
        p = "%s/diffkemp/simpll/%s" % (copy, f)
        rec = {"file": f, "line": line, "op": op, "old": old[i].strip(), "new": new[i].strip()}
        t0 = time.time()
        open(p, "w").write(text)
        try:
            if sh(ninja + ["simpll-lib", "simpll", "runTests"], build + "/ninja.log", copy, 900, env):
                rec["result"] = "compiler"
            elif sh([tests], build + "/tests.log", os.path.dirname(tests), 100, env):
                rec["result"] = "tests"
            else:
                e2 = dict(env, SIMPLL_BUILD_DIR=build, PYTHONPATH=copy, CFLAGS="-O0 -g0")
                assert sh(["python", "diffkemp/simpll/simpll_build.py"], build + "/cffi.log", copy, 300, e2) == 0
                so = [x for x in os.listdir(copy + "/diffkemp/simpll") if x.startswith("_simpll") and x.endswith(".so")]
                shutil.copy(copy + "/diffkemp/simpll/" + so[0], build + "/_simpll.abi3.so")
                rec["result"] = "survived"
                for c in opt("--checks", "C07 C18").split():
                    e3 = dict(os.environ, DST_ENGINE=build, DST_NO_EVIDENCE="1", DST_MINIMISE="0", VERIF_SEED="1")
                    q = subprocess.run([sys.executable, V + "/check.py", c, "--budget", opt("--budget", "50"), "--runs", "100000"],
                                       env=e3, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=V)
                    if q.returncode:
                        rec["result"], rec["rc"] = c, q.returncode
                        rec["msg"] = q.stdout.decode()[-900:] if q.returncode == 1 else q.stderr.decode()[-300:]
                        break
        finally:
            open(p, "w").write(src)
        rec["time"] = round(time.time() - t0, 1)
        with open(out, "a") as o:
            o.write(json.dumps(rec) + "\n")
        print(rec["result"], f, line, op, rec["new"][:90], rec["time"], flush=True)


if __name__ == "__main__":
    main()
