"""Loads private, fresh copies of the repository's modules.

A *universe* is one load of all repository modules from /repo's working tree: module globals, caches, class
attributes and default arguments of the code under test are born with it and die with it, so that one simulated run
cannot influence the next one (which would make a run depend on more than its seed), and so that the oracle "the same
ray traced alone" shares nothing with the world it is compared with.
"""
import importlib
import importlib.machinery
import os
import sys
import warnings

from . import simids
from .sched import threading_proxy

REPO = os.environ.get("OPTICS3D_REPO", "/repo")
_PREFIX = os.path.realpath(REPO) + os.sep

_code_cache = {}


class _CachedLoader(importlib.machinery.SourceFileLoader):
    def exec_module(self, module):
        module.__dict__["id"] = simids.sim_id      # object addresses are a simulator decision too
        super().exec_module(module)

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        code = _code_cache.get(path)
        if code is None:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                with open(path, "rb") as f:
                    code = compile(f.read(), path, "exec", dont_inherit=True)
            _code_cache[path] = code
        return code


def _hook(path):
    real = os.path.realpath(path or os.getcwd())
    if (real + os.sep).startswith(_PREFIX):
        return importlib.machinery.FileFinder(real, (_CachedLoader, [".py"]))
    raise ImportError


_installed = False


def _install():
    global _installed
    if not _installed:
        sys.dont_write_bytecode = True
        sys.path_hooks.insert(0, _hook)
        sys.path_importer_cache.clear()
        sys.path[:] = [p for p in sys.path if os.path.realpath(p or ".") != os.path.realpath(REPO)]
        sys.path.insert(0, os.path.realpath(REPO))
        # third-party modules are shared by all universes and loaded before anything is patched
        import concurrent.futures, logging, queue, functools, copy, pickle, optparse, traceback, time  # noqa
        import numpy, scipy.special, scipy.interpolate, matplotlib, matplotlib.pyplot, matplotlib.patches, matplotlib.backends.backend_agg  # noqa
        import mpl_toolkits.mplot3d.art3d, mpl_toolkits.mplot3d.axes3d  # noqa
        _installed = True


_known = {}


def _is_repo_module(name, m):
    f = getattr(m, "__file__", None)
    if f:
        return f.startswith(_PREFIX)
    if name in _known and _known[name][0] is m:
        return _known[name][1]
    p = getattr(m, "__path__", None)
    r = False
    if p is not None:
        try:
            r = any((x + os.sep).startswith(_PREFIX) for x in list(p))
        except Exception:
            r = False
    _known[name] = (m, r)
    return r


def _repo_modules():
    return {n: m for n, m in list(sys.modules.items()) if m is not None and _is_repo_module(n, m)}


def is_repo_code(filename):
    return filename.startswith(_PREFIX)


class Universe:
    """One fresh load of the code under test."""

    def __init__(self):
        _install()
        for n in _repo_modules():
            del sys.modules[n]
        real = sys.modules["threading"]
        sys.modules["threading"] = threading_proxy()
        try:
            self._load()
        finally:
            sys.modules["threading"] = real

    def _load(self):
        self.general = importlib.import_module("general")
        self.general_optics = importlib.import_module("general_optics")
        self.shapes = importlib.import_module("Shapes.shapes")
        self.optics3d = importlib.import_module("optics3d")
        self.modules = _repo_modules()

    def activate(self):
        """Make this universe the one that late imports, pickling and unpickling see."""
        cur = _repo_modules()
        if cur.keys() == self.modules.keys() and all(cur[k] is self.modules[k] for k in cur):
            return self
        for n in cur:
            del sys.modules[n]
        sys.modules.update(self.modules)
        return self


def compiled(path):
    """Code object of a repository script."""
    code = _code_cache.get(path)
    if code is None:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with open(path, "rb") as f:
                code = compile(f.read(), path, "exec", dont_inherit=True)
        _code_cache[path] = code
    return code
