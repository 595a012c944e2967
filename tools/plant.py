#!/usr/bin/env python3
"""plant.py DIR: confirms a planted bug described by DIR/edit.py (not kept) or DIR/patch.diff.

Usage: plant.py ID PROPERTY  < spec     where spec is a python dict
 {"edits": [(file, old, new)...], "needs":…, "breaks":…, "demo": python source}
Applies the edits to /repo, writes seeded/ID, runs demo (must fail) and the
stable tests (must pass), undoes them and runs the demo again (must pass)."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def main():
    if subprocess.run(['git','-C','/repo','diff','--quiet']).returncode:
        sys.exit('/repo has uncommitted changes')
    bid, spec = sys.argv[1], {}
    exec(sys.stdin.read(), spec)
    d = os.path.join(V, "seeded", bid)
    os.makedirs(d, exist_ok=True)
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "repo dirty"
    with open(d + "/demo.py", "w") as f:
        f.write(spec["demo"].lstrip("\n"))
    with open(d + "/demo.sh", "w") as f:
        f.write("#!/bin/bash\n# exit 0: behaves; nonzero: the planted bug shows\n"
                "export PATH=/opt/venv/bin:/usr/lib/llvm-16/bin:$PATH PYTHONPATH=/repo PYTHONDONTWRITEBYTECODE=1\n"
                "exec /opt/venv/bin/python \"$(dirname \"$0\")/demo.py\"\n")
    os.chmod(d + "/demo.sh", 0o755)
    for n in spec.get("use", []):
        open(os.path.join(d, n), "w").write(open(os.path.join(V, "tools/demo", n)).read())
    cpp = False
    try:
        for file, old, new in spec["edits"]:
            p = os.path.join("/repo", file)
            cpp |= not file.endswith(".py")
            t = open(p).read()
            assert t.count(old) == 1, (file, t.count(old), old)
            open(p, "w").write(t.replace(old, new))
        open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
        json.dump({"property": spec["prop"], "needs": spec["needs"], "what_it_breaks": spec["breaks"]},
                  open(d + "/meta.json", "w"), indent=1)
        if cpp:
            b = sh("bash /opt/vp/build.sh")
            print("build", b.returncode)
            if b.returncode:
                print(b.stdout[-2000:])
        r = sh("bash %s/demo.sh" % d, cwd="/repo")
        print("demo with bug:", r.returncode, r.stdout[-600:])
        t = sh("bash /opt/vp/test.sh /tmp/plant_o.json")
        base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        o = json.load(open("/tmp/plant_o.json"))
        print("stable tests lost:", sorted(base - set(o["passed"])))
    finally:
        sh("git -C /repo checkout -- .")
        if cpp:
            sh("bash /opt/vp/build.sh")
    r = sh("bash %s/demo.sh" % d, cwd="/repo")
    print("demo clean:", r.returncode, r.stdout[-600:] if r.returncode else "")
    print(sh("git -C /repo status --porcelain").stdout)


main()
