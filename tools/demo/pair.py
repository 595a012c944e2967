"""Helpers of the demonstrations: makes snapshots from C text with clang and
runs diffkemp compare on them in a scratch directory."""
import contextlib
import io
import os
import subprocess
import sys
import tempfile

import yaml


def scratch():
    d = tempfile.TemporaryDirectory()
    os.environ["TMPDIR"] = d.name
    tempfile.tempdir = d.name
    return d


def snapshot(root, files, funs, group=None, debug=True):
    """files: {name.c: text}; funs: [(function, name.c or None)] or, with
    group=True, {group: such list}."""
    os.makedirs(root, exist_ok=True)
    for n, t in files.items():
        p = os.path.join(root, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as f:
            f.write(t)
    for n in files:
        if n.endswith(".c"):
            p = os.path.join(root, n)
            subprocess.check_call(["clang", "-S", "-emit-llvm", "-O1", "-Xclang", "-disable-llvm-passes",
                                   "-fdebug-macro", "-g", "-I", root, p, "-o", p[:-2] + ".ll"] if debug else
                                  ["clang", "-S", "-emit-llvm", "-O1", "-Xclang", "-disable-llvm-passes",
                                   "-I", root, p, "-o", p[:-2] + ".ll"], stderr=subprocess.DEVNULL)

    def lst(fs):
        return [{"name": f, "llvm": n[:-2] + ".ll" if n else None, "glob_var": None, "tag": None}
                for f, n in fs]
    if isinstance(funs, dict):
        kind, fl = "sysctl", [{"sysctl": g, "functions": lst(fs)} for g, fs in funs.items()]
    else:
        kind, fl = "function", lst(funs)
    import datetime
    with open(os.path.join(root, "snapshot.yaml"), "w") as f:
        yaml.dump([{"diffkemp_version": "0.5.0", "llvm_version": 16,
                    "created_time": datetime.datetime.now(datetime.timezone.utc), "list_kind": kind,
                    "list": fl, "llvm_source_finder": {"kind": "single_llvm_file"}}], f)


def diffkemp(*argv):
    """(exit code, stdout) of a diffkemp command run in this process."""
    from diffkemp.cli import make_argument_parser
    out, rc = io.StringIO(), 0
    with contextlib.redirect_stdout(out):
        try:
            args = make_argument_parser().parse_args(list(argv))
            rc = args.func(args) or 0
        except SystemExit as e:
            rc = e.code or 0
    return rc, out.getvalue()


def project(root, files, funs, name):
    """Builds files with make and `diffkemp build`: root/src-NAME -> root/NAME."""
    src = os.path.join(root, "src-" + name)
    os.makedirs(src, exist_ok=True)
    for n, t in files.items():
        p = os.path.join(src, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as f:
            f.write(t)
    objs = [n[:-2] + ".o" for n in files if n.endswith(".c")]
    with open(os.path.join(src, "Makefile"), "w") as f:
        f.write("CC ?= gcc\nall: %s\n%%.o: %%.c\n\t$(CC) -c -o $@ $<\nclean:\n\trm -f *.o\n" % " ".join(objs))
    lst = os.path.join(root, "list-" + name)
    with open(lst, "w") as f:
        f.write("".join(x + "\n" for x in funs))
    r = diffkemp("build", src, os.path.join(root, name), lst, "--no-native-cc-wrapper")
    if r[0]:
        raise RuntimeError(r[1])
    return src
