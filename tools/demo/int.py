"""Runs diffkemp as a process of its own with tools that interrupt it."""
import os
import signal
import subprocess
import sys
import tempfile


def scratch():
    d = tempfile.TemporaryDirectory()
    os.makedirs(d.name + "/bin")
    os.makedirs(d.name + "/tmp")
    return d


def tool(root, name, script):
    p = os.path.join(root, "bin", name)
    with open(p, "w") as f:
        f.write("#!/bin/sh\n%s\n" % script)
    os.chmod(p, 0o755)


def run(root, argv):
    env = dict(os.environ, PATH=root + "/bin:" + os.environ["PATH"], TMPDIR=root + "/tmp")
    p = subprocess.run([sys.executable, "-c", "import signal,sys; signal.signal(signal.SIGINT, "
                        "signal.default_int_handler); sys.argv = ['diffkemp'] + sys.argv[1:]; "
                        "from diffkemp.cli import run_from_cli; run_from_cli()"] + argv,
                       env=env, cwd=root, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=200,
                       start_new_session=True)
    return p.returncode, p.stdout
