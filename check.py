#!/usr/bin/env python3
"""python check.py <property> [--replay FILE] [--runs N] [--budget S] [--seed S]"""
import os
import sys

PY = "/opt/venv/bin/python"
ENV = {
    "PATH": "/opt/venv/bin:/usr/lib/llvm-16/bin:/usr/local/sbin:/usr/local/bin:"
            "/usr/sbin:/usr/bin:/sbin:/bin",
    "HOME": "/root", "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8",
    "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0",
}


def main():
    here = os.path.dirname(os.path.abspath(__file__))
    if os.environ.get("DST_STARTED") != "1":
        env = dict(ENV)
        for k, v in os.environ.items():
            if k.startswith(("VERIF_", "DST_")):
                env[k] = v
        env["DST_STARTED"] = "1"
        py = PY if os.path.exists(PY) else sys.executable
        os.execve(py, [py, "-W", "ignore", os.path.abspath(__file__)] + sys.argv[1:], env)
    os.chdir(here)
    sys.path.insert(0, here)
    from dst import harness
    rc = harness.main(sys.argv[1], sys.argv[2:])
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)


main()
