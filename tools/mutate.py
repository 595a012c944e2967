"""Systematic mutations of the Python code, to find what the checks do not see.

  python3 tools/mutate.py OUT.jsonl [--sample N] [--seed S] [--files a.py,b.py] [--lines 10-90]

Works on a copy of /repo that it makes in /tmp and removes. For each mutation: the Python tests, then the checks
in turn until one reports a violation."""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import time

REPO = "/repo"
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = {
    "building/cc_wrapper.py": "C02 C01 C03 C06",
    "llvm_ir/wrapper_build_finder.py": "C01 C03 C06 C12",
    "llvm_ir/kernel_llvm_source_builder.py": "C03 C05 C06 C04 C10 C16",
    "llvm_ir/kernel_source_tree.py": "C19 C03 C05 C12 C16 C06",
    "llvm_ir/llvm_module.py": "C19 C12 C03 C16 C06 C15 C17 C08",
    "llvm_ir/llvm_sysctl_module.py": "C19 C03 C10",
    "llvm_ir/llvm_source_finder.py": "C03 C12",
    "llvm_ir/single_c_builder.py": "C03 C04 C05",
    "llvm_ir/single_llvm_finder.py": "C03 C12",
    "llvm_ir/source_tree.py": "C03 C12 C16 C06 C04",
    "semdiff/caching.py": "C09 C07 C18 C12 C10 C08 C13",
    "semdiff/custom_pattern_config.py": "C11 C15 C17",
    "semdiff/function_diff.py": "C12 C09 C08 C07 C16 C11 C18",
    "semdiff/result.py": "C09 C18 C10",
    "simpll/library.py": "C19 C11 C07 C17 C08 C09 C10",
    "simpll/simpll.py": "C11 C08 C09 C07 C17 C12",
    "syndiff/function_syntax_diff.py": "C09 C18 C14 C08",
    "cli.py": "C11 C09 C03 C14",
    "config.py": "C11 C09 C08",
    "diffkemp.py": "C09 C03 C14 C05 C04 C16 C15 C17 C08 C12 C10 C06 C11",
    "output.py": "C09 C14 C18 C10",
    "snapshot.py": "C03 C04 C12 C09 C16 C10",
    "utils.py": "C03 C09 C18 C01",
}


def segment(src, node):
    return ast.get_source_segment(src, node)


def mutants(src):
    """[(line, operator, new text)]"""
    tree = ast.parse(src)
    lines = src.split("\n")
    offs = [0]
    for ln in lines:
        offs.append(offs[-1] + len(ln.encode()) + 1)
    b = src.encode()

    def pos(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset

    def put(n, text):
        x, y = pos(n)
        return (b[:x] + text.encode() + b[y:]).decode()
    out = []
    for n in ast.walk(tree):
        for f, body in ast.iter_fields(n):
            if f in ("body", "orelse", "finalbody") and isinstance(body, list):
                for s in body:
                    t = segment(src, s) or ""
                    if "stderr" in t or "print(" in t or "verbos" in t:
                        continue
                    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) or \
                            isinstance(s, (ast.AugAssign, ast.Raise, ast.Delete)):
                        out.append((s.lineno, "delete", put(s, "pass")))
                    elif isinstance(s, ast.Assign):
                        out.append((s.lineno, "delete", put(s, "pass")))
                        out.append((s.lineno, "none", put(s.value, "None")))
                    elif isinstance(s, ast.Continue):
                        out.append((s.lineno, "break", put(s, "break")))
                        out.append((s.lineno, "delete", put(s, "pass")))
                    elif isinstance(s, ast.Break):
                        out.append((s.lineno, "continue", put(s, "continue")))
                        out.append((s.lineno, "delete", put(s, "pass")))
                    elif isinstance(s, ast.Return) and s.value is not None:
                        out.append((s.lineno, "none", put(s.value, "None")))
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            t = segment(src, n.test)
            if "verbos" not in t and "__main__" not in t:
                out.append((n.lineno, "negate", put(n.test, "not (%s)" % t)))
        if isinstance(n, ast.comprehension):
            for c in n.ifs:
                out.append((c.lineno, "nofilter", put(c, "True")))
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            swap = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==",
                    ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
            op = swap[type(n.ops[0])]
            out.append((n.lineno, "compare", put(n, "%s %s %s" % (
                segment(src, n.left), op, segment(src, n.comparators[0])))))
        if isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            out.append((n.lineno, "boolop", put(n, "(" + op.join("(%s)" % segment(src, v) for v in n.values) + ")")))
            for i in range(len(n.values)):
                vs = [v for j, v in enumerate(n.values) if j != i]
                op2 = " and " if isinstance(n.op, ast.And) else " or "
                out.append((n.lineno, "operand", put(n, "(" + op2.join("(%s)" % segment(src, v) for v in vs) + ")")))
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            out.append((n.lineno, "bool", put(n, str(not n.value))))
        elif isinstance(n, ast.Constant) and isinstance(n.value, int):
            out.append((n.lineno, "int", put(n, str(n.value + 1))))
            if n.value:
                out.append((n.lineno, "int", put(n, str(n.value - 1))))
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)) and \
                not isinstance(n.left, ast.Constant) and not isinstance(n.right, ast.Constant):
            out.append((n.lineno, "left", put(n, segment(src, n.left))))
        if isinstance(n, ast.ExceptHandler) and n.type is not None:
            out.append((n.lineno, "except", put(n.type, "ZeroDivisionError")))
            if isinstance(n.type, ast.Tuple):
                for i in range(len(n.type.elts)):
                    es = [segment(src, e) for j, e in enumerate(n.type.elts) if j != i]
                    out.append((n.lineno, "except", put(n.type, "(%s,)" % ", ".join(es))))
        if isinstance(n, ast.Slice):
            for e in (n.lower, n.upper):
                if e is not None and not isinstance(e, ast.Constant):
                    out.append((e.lineno, "slice", put(e, "(%s) + 1" % segment(src, e))))
        if isinstance(n, ast.Call) and len(n.args) > 1 and not isinstance(n.args[0], ast.Starred):
            a, c = segment(src, n.args[0]), segment(src, n.args[1])
            if type(n.args[0]) is type(n.args[1]) and isinstance(n.args[0], (ast.Name, ast.Attribute)):
                x, y = pos(n.args[0])[0], pos(n.args[1])[1]
                out.append((n.lineno, "swap", (b[:x] + ("%s, %s" % (c, a)).encode() + b[y:]).decode()))
    res = {}
    for ln, op, t in out:
        try:
            ast.parse(t)
        except SyntaxError:
            continue
        if t != src:
            res.setdefault(t, (ln, op, t))
    return list(res.values())


def tests(copy):
    env = dict(os.environ, PYTHONPATH=copy, PATH="/opt/venv/bin:/usr/lib/llvm-16/bin:" + os.environ["PATH"])
    p = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "tests/unit_tests", "-q", "-p", "no:cacheprovider",
                        "--tb=no", "--continue-on-collection-errors", "-x" if False else "-q", "-rA"],
                       cwd=copy, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=200)
    return {ln.split()[1] for ln in p.stdout.decode().split("\n") if ln.startswith("PASSED")}


def main():
    a = sys.argv[1:]

    def opt(name, default=None):
        return a[a.index(name) + 1] if name in a else default
    out = a[0]
    copy = opt("--copy", "/tmp/q/mrepo")
    if os.path.exists(copy):
        shutil.rmtree(copy)
    subprocess.check_call(["cp", "-a", REPO, copy])
    base = tests(copy)
    print("tests", len(base), flush=True)
    allm = []
    files = opt("--files")
    for f in (files.split(",") if files else sorted(MAP)):
        src = open(os.path.join(REPO, "diffkemp", f)).read()
        ms = mutants(src)
        if "--lines" in a:
            x, y = map(int, opt("--lines").split("-"))
            ms = [m for m in ms if x <= m[0] <= y]
        allm += [(f, src) + m for m in ms]
    random.Random(opt("--seed", "1")).shuffle(allm)
    seen = set()
    if os.path.exists(out):
        for ln in open(out):
            d = json.loads(ln)
            seen.add((d["file"], d["line"], d["op"], d["new"]))
    print("mutations", len(allm), flush=True)
    budget = opt("--budget", "12")
    n = 0
    for f, src, line, op, text in allm[:int(opt("--sample", "100000"))]:
        old, new = src.split("\n"), text.split("\n")
        i = next(i for i in range(len(new)) if i >= len(old) or old[i] != new[i])
        desc = new[i].strip()
        if (f, line, op, desc) in seen:
            continue
        p = os.path.join(copy, "diffkemp", f)
        open(p, "w").write(text)
        rec = {"file": f, "line": line, "op": op, "old": old[i].strip(), "new": desc}
        t0 = time.time()
        try:
            if not base <= tests(copy):
                rec["result"] = "tests"
            else:
                rec["result"] = "survived"
                for c in MAP[f].split():
                    env = dict(os.environ, DST_REPO=copy, DST_NO_EVIDENCE="1", DST_MINIMISE="0", VERIF_SEED="7")
                    q = subprocess.run([sys.executable, V + "/check.py", c, "--budget", budget, "--runs", "100000"],
                                       env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=V)
                    if q.returncode == 1:
                        rec["result"] = c
                        rec["msg"] = q.stdout.decode()[:300]
                        break
                    if q.returncode == 2:
                        rec["error"] = c + ": " + q.stderr.decode()[-300:]
        except subprocess.TimeoutExpired:
            rec["result"] = "tests"
        finally:
            open(p, "w").write(src)
        rec["wall"] = round(time.time() - t0, 1)
        with open(out, "a") as g:
            g.write(json.dumps(rec) + "\n")
        n += 1
    shutil.rmtree(copy)


main()
