"""Loading instrumented modules from the current sources of /repo."""

import dataclasses
import importlib.util
import inspect
import os
import sys
import types

from . import rt
from .transform import compile_source

_cache = {}          # file -> (module code, {(qualname, firstlineno): code})
_on_demand = {}      # function -> instrumented function or None


def load_code(path):
    if path not in _cache:
        with open(path, 'rb') as f:
            src = f.read()
        code, codes = compile_source(src, path)
        table = {}
        for c in codes:
            table[(c.co_qualname, c.co_firstlineno)] = c
            rt.INSTRUMENTED.add(c)
        _cache[path] = (code, table)
    return _cache[path]


def inject(ns):
    ns.update(rt.NAMESPACE)


class Finder(object):
    """Meta path finder for the package under test."""

    def __init__(self, roots):
        self.roots = roots          # top-level name -> directory
        self.paths = {}

    def locate(self, fullname):
        if fullname in self.paths:
            return self.paths[fullname]
        parts = fullname.split('.')
        if parts[0] not in self.roots:
            return None
        base = os.path.join(self.roots[parts[0]], *parts)
        r = None
        if os.path.isfile(os.path.join(base, '__init__.py')):
            r = (os.path.join(base, '__init__.py'), True)
        elif os.path.isfile(base + '.py'):
            r = (base + '.py', False)
        elif os.path.isdir(base):
            r = (None, True)
        self.paths[fullname] = r
        return r

    def find_spec(self, fullname, path=None, target=None):
        loc = self.locate(fullname)
        if loc is None:
            return None
        filename, is_pkg = loc
        loader = Loader(filename)
        spec = importlib.util.spec_from_loader(
            fullname, loader, origin=filename, is_package=is_pkg)
        if is_pkg:
            spec.submodule_search_locations = [
                os.path.join(self.roots[fullname.split('.')[0]],
                             *fullname.split('.'))]
        if filename:
            spec.has_location = True
        return spec


class Loader(object):
    def __init__(self, filename):
        self.filename = filename

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        if self.filename is None:
            return
        module.__file__ = self.filename
        inject(module.__dict__)
        code, _ = load_code(self.filename)
        exec(code, module.__dict__)


def _exec_generated(text, ns, *a):
    """``exec`` as used by dataclasses: methods of instrumented classes."""
    if '_sx_call_' in ns and isinstance(text, str):
        code, codes = compile_source(text, '<dataclass>')
        rt.INSTRUMENTED.update(codes)
        text = code
    exec(text, ns, *a)


FINDER = None
dataclasses.exec = _exec_generated


def purge():
    for name in [n for n in sys.modules
                 if n == 'xylem' or n.startswith('xylem.')]:
        del sys.modules[name]


_replaced = {}       # package -> its instrumented modules


def members(package):
    return [n for n in sys.modules
            if n == package or n.startswith(package + '.')]


def replace_package(package):
    """Have a library's package instrumented until the result is called."""
    __import__(package)
    saved = {n: sys.modules.pop(n) for n in members(package)}
    sys.modules.update(_replaced.get(package, {}))
    FINDER.roots[package] = os.path.dirname(os.path.dirname(
        saved[package].__file__))
    purge()

    def restore():
        del FINDER.roots[package]
        _replaced[package] = {n: sys.modules.pop(n) for n in members(package)}
        sys.modules.update(saved)
        for n in [n for n in FINDER.paths
                  if n == package or n.startswith(package + '.')]:
            del FINDER.paths[n]

    return restore


def on_demand(f):
    """Instrumented twin of a pure-python stdlib function."""
    key = f.__code__
    if key in _on_demand:
        code = _on_demand[key]
    else:
        code = None
        try:
            path = inspect.getsourcefile(f)
            if key.co_filename.startswith('<frozen '):
                path = sys.modules[f.__module__].__file__
            if path and os.path.isfile(path):
                _, table = load_code(path)
                code = table.get((key.co_qualname, key.co_firstlineno))
                if code is not None and \
                        code.co_freevars != key.co_freevars:
                    code = None
        except (TypeError, OSError, SyntaxError):
            code = None
        _on_demand[key] = code
    if code is None:
        return None
    inject(f.__globals__)
    g = types.FunctionType(code, f.__globals__, f.__name__, f.__defaults__,
                           f.__closure__)
    g.__kwdefaults__ = f.__kwdefaults__
    g.__qualname__ = f.__qualname__
    g.__module__ = f.__module__
    rt.FUNCS_ENTERED.add((f.__module__, key.co_qualname))
    return g


def load_harness(path, name):
    code, _ = load_code(path)
    mod = types.ModuleType(name)
    mod.__file__ = path
    inject(mod.__dict__)
    sys.modules[name] = mod
    exec(code, mod.__dict__)
    return mod
