"""Stand-in for the SimpLL extension: the real cffi declarations of FFI.h, and
a `lib` whose functions are Python callables chosen by the scenario."""
import os
import sys
import types


class Lib:
    """lib.<name> looks the function up in `impl`; unknown names do nothing."""

    def __init__(self):
        self.impl = {}

    def __getattr__(self, name):
        impl = self.__dict__["impl"]
        if name in impl:
            return impl[name]
        if name.startswith("__"):
            raise AttributeError(name)

        def missing(*a):
            return None
        return missing


def install(repo):
    from cffi import FFI
    with open(os.path.join(repo, "diffkemp/simpll/library/FFI.h")) as f:
        text = f.read()
    a = text.index("// CFFI_DECLARATIONS_START\n") + len("// CFFI_DECLARATIONS_START\n")
    b = text.index("// CFFI_DECLARATIONS_END")
    ffi = FFI()
    ffi.error = type("error", (Exception,), {})
    ffi.cdef(text[a:b])
    lib = Lib()
    lib.impl["shutdownSimpLL"] = lambda: None
    # modules are opaque handles to their paths
    handles = []

    def load_module(path):
        h = ffi.new_handle(ffi.string(path).decode())
        handles.append(h)
        return h
    lib.impl["loadModule"] = load_module
    for name in ("diffkemp.simpll._simpll", "_simpll"):
        m = types.ModuleType(name)
        m.ffi = ffi
        m.lib = lib
        m.__path__ = []
        sys.modules[name] = m
        sys.modules[name + ".lib"] = lib
    return ffi, lib
