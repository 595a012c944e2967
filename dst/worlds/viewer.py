"""diffkemp view: an installed viewer, the port it listens on, and a browser
that fetches what the viewer's pages fetch."""
import errno
import io
import os
import posixpath
import sys
import urllib.parse

import yaml

from .. import core
from ..core import R, Violation
from . import proj
from .proj import get, put

PORT_USED = errno.EADDRINUSE


class Stop(Exception):
    pass


def install(w, kind):
    """Make the installation of the viewer; returns its public directory."""
    base = w.root + "/inst"
    pkg = base + "/diffkemp"
    proj.mk(pkg)
    pages = {"index.html": "<html></html>\n", "static/js/main.js": "// app\n", "favicon.ico": "icon\n"}
    if kind == "installed":
        public = base + "/usr/share/diffkemp/view"
    elif kind == "devel":
        public = base + "/view/public"
        put(base + "/view/package.json", "{}\n")
        put(base + "/view/src/App.jsx", "// app\n")
    else:
        public = base + "/view/build"
        put(base + "/view/package.json", "{}\n")
        put(base + "/view/public/index.html", "dev\n")
    if kind != "none":
        for n, t in pages.items():
            put("%s/%s" % (public, n), t)
    for name, m in list(sys.modules.items()):
        if name == "diffkemp" or name.startswith("diffkemp."):
            if getattr(m, "__file__", None):
                rel = name.split(".")[1:] or ["__init__"]
                m.__file__ = os.path.join(pkg, *rel) + ".py"
            if hasattr(m, "VIEW_INSTALL_DIR"):
                m.VIEW_INSTALL_DIR = base + "/usr/share/diffkemp/view"
    return public


class Socket:
    """The browser's end of a connection."""

    def __init__(self, data):
        self.inp = io.BytesIO(data)
        self.out = []

    def makefile(self, mode="rb", *a):
        return self.inp

    def sendall(self, b):
        self.out.append(bytes(b))

    def settimeout(self, t):
        pass

    def setsockopt(self, *a):
        pass

    def shutdown(self, *a):
        pass

    def close(self):
        pass


def request(server, path):
    """(status, body) of a GET of path."""
    s = Socket(("GET %s HTTP/1.1\r\nHost: localhost:3000\r\nConnection: close\r\n\r\n" % path).encode())
    server.RequestHandlerClass(s, ("127.0.0.1", 50000), server)
    head, _, body = b"".join(s.out).partition(b"\r\n\r\n")
    return int(head.split(b" ", 2)[1]), body


def patch_server(sim, serving):
    """Simulate listening; `serving(proc, server)` runs while a process
    serves and ends by raising what ends it."""
    import http.server
    import socketserver

    def bind(self):
        p = sim.current
        sim.step("bind")
        port = self.server_address[1]
        q = sim.ports.get(port)
        if q is not None and q[0] is not p and not q[0].done and not q[0].crashed:
            raise OSError(PORT_USED, os.strerror(PORT_USED))
        if q is not None and q[0] is p:
            raise OSError(PORT_USED, os.strerror(PORT_USED))
        sim.ports[port] = (p, self)
        self.server_name, self.server_port = "localhost", port

    def activate(self):
        pass

    def close(self):
        for k in [k for k, (q, s) in sim.ports.items() if s is self]:
            del sim.ports[k]
        self.socket.close()

    def serve(self, poll_interval=0.5):
        sim.step("serve")
        self.dst_serving = True
        try:
            serving(sim.current, self)
        finally:
            self.dst_serving = False

    def shutdown(self):
        if getattr(self, "dst_serving", False):
            raise AssertionError("shutdown of a serving server in its own thread never ends")

    http.server.HTTPServer.server_bind = bind
    socketserver.TCPServer.server_bind = bind
    socketserver.TCPServer.server_activate = activate
    socketserver.TCPServer.server_close = close
    socketserver.BaseServer.serve_forever = serve
    socketserver.BaseServer.shutdown = shutdown


def lines_of(data):
    """Lines of a source file as diffkemp reads them; None if it cannot."""
    try:
        t = data.decode("utf-8")
    except UnicodeDecodeError:
        return None
    t = t.replace("\r\n", "\n")
    return t.splitlines(True) if "\r" not in t and "\x0b" not in t and "\x0c" not in t else t.split("\n")


def browse(ID, fetch, result, dirs):
    """Fetch everything like the pages do and compare it with the results.
    fetch(path) -> bytes or None.  Returns the set of data files used."""
    used = {"diffkemp-out.yaml"}
    b = fetch("data/diffkemp-out.yaml")
    if b is None:
        raise Violation(ID + "/no-yaml", "the description of the results is not served")
    try:
        got = yaml.safe_load(b)
    except yaml.YAMLError as e:
        raise Violation(ID + "/bad-yaml", "the description of the results is not valid: %s" % str(e)[:200])
    want = result
    for k in ("old-snapshot", "new-snapshot", "results"):
        if got.get(k) != want[k]:
            raise Violation(ID + "/yaml", "%s of the results is %r instead of %r" % (k, got.get(k), want[k]))
    if set(got["definitions"]) != set(want["definitions"]):
        raise Violation(ID + "/yaml", "definitions of %s are shown, not of %s" % (
            sorted(got["definitions"]), sorted(want["definitions"])))
    shown = 0
    for name in sorted(want["definitions"]):
        d, e = got["definitions"][name], want["definitions"][name]
        text = [None, None]
        for v, k in ((0, "old"), (1, "new")):
            p = os.path.join(dirs[v], e[k]["file"])
            if os.path.isfile(p):
                text[v] = get(p)
        for k in ("old", "new"):
            for f in ("line", "name", "file"):
                if d[k].get(f) != e[k].get(f) and (k, f) != ("old", "file"):
                    raise Violation(ID + "/definition", "%s of the %s %s is %r instead of %r" % (
                        f, k, name, d[k].get(f), e[k].get(f)))
            if "end-line" in d[k] and d[k]["end-line"] != e[k].get("end-line"):
                raise Violation(ID + "/definition", "end of the %s %s is %r instead of %r" % (
                    k, name, d[k]["end-line"], e[k].get("end-line")))
        of = d["old"]["file"]
        path = posixpath.normpath(posixpath.join("data", "src", of))
        asked = all("end-line" in d[k] for k in ("old", "new"))
        if asked and not path.startswith("data/src/") and os.path.isfile(os.path.join(dirs[0], e["old"]["file"])):
            raise Violation(ID + "/outside", "the source of %s is asked for as %s" % (name, path))
        if of != e["old"]["file"] and not e["old"]["file"].startswith(".."):
            raise Violation(ID + "/definition", "the file of %s is %r instead of %r" % (
                name, of, e["old"]["file"]))
        if os.path.isfile(os.path.join(dirs[0], e["old"]["file"])):
            used.add(path[len("data/"):])
        complete = all("end-line" in e[k] for k in ("old", "new"))
        visible = all("end-line" in d[k] for k in ("old", "new"))
        code = [t is not None and lines_of(t) for t in text]
        able = complete and all(isinstance(c, list) for c in code)
        if able and not visible:
            raise Violation(ID + "/hidden", "the code of %s is not shown" % name)
        if not visible:
            if d.get("diff"):
                raise Violation(ID + "/diff-flag", "%s has a difference without code" % name)
            continue
        src = fetch(path)
        if not able:
            raise Violation(ID + "/shown", "%s is shown although its code cannot be had" % name)
        shown += 1
        if src != text[0]:
            raise Violation(ID + "/source", "the source of %s (%s) is %s" % (
                name, path, "not served" if src is None else "not the one of the old snapshot"))
        frag = [code[v][e[k]["line"] - 1:e[k]["end-line"]] for v, k in ((0, "old"), (1, "new"))]
        if d.get("diff") not in (True, False):
            raise Violation(ID + "/diff-flag", "%s: diff is %r" % (name, d.get("diff")))
        if (frag[0] != frag[1]) != d["diff"]:
            raise Violation(ID + "/diff-flag", "the versions of %s %s, but diff is %s" % (
                name, "differ" if frag[0] != frag[1] else "do not differ", d["diff"]))
        if not d["diff"]:
            continue
        used.add("diffs/%s.diff" % name)
        b = fetch("data/diffs/%s.diff" % name)
        if b is None:
            raise Violation(ID + "/no-diff", "the difference of %s is not served" % name)
        try:
            new = apply(b.decode(), frag[0], e["old"]["line"], e["new"]["line"])
        except (ValueError, IndexError) as x:
            raise Violation(ID + "/diff", "the difference of %s does not apply: %s\n%s" % (
                name, x, b.decode()[:600]))
        if new != frag[1]:
            raise Violation(ID + "/diff", "the difference of %s does not lead to the new version:\n%s" % (
                name, b.decode()[:600]))
    return used, shown


def apply(diff, old, l0, l1):
    """Apply a unified diff whose line numbers are those of the files."""
    import re
    out, at = [], 0
    lines = diff.split("\n")
    i = 0
    while i < len(lines) and not lines[i].startswith("@@"):
        i += 1
    while i < len(lines) and lines[i]:
        m = re.match(r"^@@ -(\d+)(?:,(\d+))? \+(\d+)(?:,(\d+))? @@$", lines[i])
        if not m:
            raise ValueError("line %r" % lines[i])
        a, b = int(m.group(1)), int(m.group(2) or 1)
        c, d = int(m.group(3)), int(m.group(4) or 1)
        i += 1
        pos = a - l0 + (b == 0)
        if pos < at:
            raise ValueError("hunks overlap")
        out += old[at:pos]
        at = pos
        if len(out) != c - l1 + (d == 0):
            raise ValueError("the hunk is at line %d of the new version, not %d" % (len(out) + l1, c))
        while b or d:
            x = lines[i]
            i += 1
            nl = "\n"
            if i < len(lines) and lines[i].startswith("\\"):
                nl = ""
                i += 1
            if x[0] in " -":
                if at >= len(old) or old[at] != x[1:] + nl:
                    raise ValueError("line %r is not there" % x)
                at += 1
                b -= 1
            if x[0] in " +":
                out.append(x[1:] + nl)
                d -= 1
            if x[0] not in " +-":
                raise ValueError("line %r" % x)
    return out + old[at:]


def fetcher(server):
    def fetch(path):
        st, body = request(server, "/" + urllib.parse.quote(path))
        return body if st == 200 else None
    return fetch


def disk(public):
    def fetch(path):
        p = os.path.join(public, path)
        return get(p) if os.path.isfile(p) else None
    return fetch
