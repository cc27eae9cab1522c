"""Loads the code under test afresh for every simulated process.

Source files are compiled once per batch from /repo's working tree; every node
executes the cached code objects in its own module objects, so each simulated
process has its own singletons, registries and loggers.
"""
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
import types

from . import core

REPO = os.environ.get("VERIF_REPO", "/repo")
ROOTS = {
    "ekosis": REPO,
    "ekosis_prometheus": os.path.join(REPO, "ekosis_prometheus"),
    "ekosis_otlp_traces": os.path.join(REPO, "ekosis_otlp_traces"),
}
_code = {}          # filename -> code object
_private_std = ("logging", "logging.handlers", "logging.config")


def _source_for(fullname):
    top = fullname.split(".", 1)[0]
    root = ROOTS.get(top)
    if root is None:
        return None
    p = os.path.join(root, *fullname.split("."))
    if os.path.isfile(os.path.join(p, "__init__.py")):
        return os.path.join(p, "__init__.py"), True
    if os.path.isfile(p + ".py"):
        return p + ".py", False
    if os.path.isdir(p):
        return None, True            # namespace package
    return None


def get_code(path):
    c = _code.get(path)
    if c is None:
        with open(path, "rb") as f:
            c = compile(f.read(), path, "exec", dont_inherit=True)
        _code[path] = c
    return c


def precompile():
    for top, root in ROOTS.items():
        d = os.path.join(root, top)
        for base, dirs, files in os.walk(d):
            dirs.sort()
            for fn in sorted(files):
                if fn.endswith(".py"):
                    get_code(os.path.join(base, fn))
    import logging
    import logging.handlers
    for m in (logging, logging.handlers):
        get_code(m.__file__)


def _is_private(name):
    return name.split(".", 1)[0] in ROOTS or name in _private_std


class NodeLoader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        node = core.ACTIVE.current if core.ACTIVE else None
        if node is not None and node is not core.ACTIVE.main:
            node.modules[module.__name__] = module
        if self.path is None:
            return
        exec(get_code(self.path), module.__dict__)


class NodeFinder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if fullname in _private_std and core.ACTIVE is not None:
            base = os.path.dirname(STD_LOGGING.__file__)
            fn = {"logging": "__init__.py", "logging.handlers": "handlers.py", "logging.config": "config.py"}[fullname]
            p = os.path.join(base, fn)
            return importlib.util.spec_from_file_location(
                fullname, p, loader=NodeLoader(p),
                submodule_search_locations=[base] if fullname == "logging" else None)
        if fullname.split(".", 1)[0] not in ROOTS:
            return None
        r = _source_for(fullname)
        if r is None:
            return None
        p, is_pkg = r
        if p is None:
            spec = importlib.machinery.ModuleSpec(fullname, NodeLoader(None), is_package=True)
            spec.submodule_search_locations = [os.path.join(ROOTS[fullname.split(".", 1)[0]], *fullname.split("."))]
            return spec
        return importlib.util.spec_from_file_location(
            fullname, p, loader=NodeLoader(p),
            submodule_search_locations=[os.path.dirname(p)] if is_pkg else None)


import logging as STD_LOGGING          # noqa: E402
import logging.handlers                # noqa: E402


def install():
    sys.meta_path.insert(0, NodeFinder())


def fresh_process(node):
    """Called at the start of a node's main: the process starts with no module of its own."""
    for k in [k for k in sys.modules if _is_private(k)]:
        del sys.modules[k]
    node.modules.clear()
    sys.argv = node.argv
    os.environ = node.environ
    import logging            # noqa: node-private copy
    import logging.handlers   # noqa
    logging.raiseExceptions = False


def code_objects(prefixes):
    """All code objects (recursively) of source files below the given prefixes."""
    out = []

    def walk(c):
        out.append(c)
        for k in c.co_consts:
            if isinstance(k, types.CodeType):
                walk(k)
    for p in sorted(_code):
        if any(p.startswith(x) for x in prefixes):
            walk(_code[p])
    return out
