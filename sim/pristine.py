"""
The state a fresh process has.

Before anything ran, the values of every module, class, function and container
reachable from the package's modules are recorded; restore() puts them back:
containers and arrays get their contents back in place, rebound names their
first value, names that appeared later go, memoised functions are emptied.  So
a simulated run starts as in a process of its own (what is compiled stays),
and a stale entry some earlier run left behind cannot hide or cause anything.
"""
import functools
import importlib
import os
import sys
import types

import numpy as np

_state = None
ATOMS = (int, float, complex, str, bytes, bool, type(None), frozenset)


def _mods():
    import ngmix
    root = os.path.dirname(ngmix.__file__)
    for d, dirs, files in os.walk(root):
        dirs[:] = sorted(x for x in dirs if x not in ('tests', '__pycache__'))
        for f in sorted(files):
            if f.endswith('.py'):
                rel = os.path.relpath(os.path.join(d, f), root)[:-3]
                name = 'ngmix.' + rel.replace(os.sep, '.')
                if name.endswith('.__init__'):
                    name = name[:-9]
                if name == 'ngmix.medsreaders':
                    continue
                try:
                    importlib.import_module(name)
                except ImportError:
                    pass
    return [m for n, m in sorted(sys.modules.items())
            if (n == 'ngmix' or n.startswith('ngmix.')) and
            isinstance(m, types.ModuleType) and '.tests' not in n]


LRU = type(functools.lru_cache(lambda: 0))
LOCAL = type(__import__('threading').local())


def _ours(o):
    m = getattr(o, '__module__', None)
    return isinstance(m, str) and (m == 'ngmix' or m.startswith('ngmix.'))


class _Snap(object):
    def __init__(self):
        self.seen = {}
        self.items = []     # functions that restore
        for m in _mods():
            self.namespace(m, vars(m))

    def value(self, v):
        """record whatever is mutable in or below v"""
        if isinstance(v, ATOMS) or id(v) in self.seen:
            return
        if isinstance(v, types.ModuleType):
            return
        t = type(v)
        if t.__module__.startswith(('numba', 'llvmlite', 'galsim')):
            return
        self.seen[id(v)] = v
        if isinstance(v, LRU):
            self.items.append(v.cache_clear)
            self.value(v.__wrapped__)
        elif isinstance(v, types.FunctionType):
            if _ours(v):
                self.namespace(v, v.__dict__, True)
                for x in (v.__defaults__ or ()):
                    self.value(x)
                for x in (v.__kwdefaults__ or {}).values():
                    self.value(x)
                for c in (v.__closure__ or ()):
                    self.cell(c)
        elif isinstance(v, (classmethod, staticmethod)):
            self.value(v.__func__)
        elif isinstance(v, property):
            for f in (v.fget, v.fset, v.fdel):
                self.value(f)
        elif isinstance(v, type):
            if _ours(v):
                self.namespace(v, vars(v))
                for b in v.__mro__[1:]:
                    self.value(b)
        elif isinstance(v, dict):
            old = dict(v)
            for x in old.values():
                self.value(x)

            def back(v=v, old=old):
                if len(v) != len(old) or any(
                        k not in v or v[k] is not x for k, x in old.items()):
                    v.clear()
                    v.update(old)
            self.items.append(back)
        elif isinstance(v, list):
            old = list(v)
            for x in old:
                self.value(x)

            def back(v=v, old=old):
                v[:] = old
            self.items.append(back)
        elif isinstance(v, set):
            old = set(v)

            def back(v=v, old=old):
                v.clear()
                v.update(old)
            self.items.append(back)
        elif isinstance(v, tuple):
            for x in v:
                self.value(x)
        elif isinstance(v, np.ndarray):
            if v.dtype.hasobject:
                return
            old = v.copy()

            def back(v=v, old=old):
                if v.flags.writeable:
                    v[...] = old
            self.items.append(back)
        elif isinstance(v, np.random.RandomState):
            old = v.get_state()
            self.items.append(lambda v=v, old=old: v.set_state(old))
        elif isinstance(v, LOCAL):
            self.namespace(v, v.__dict__, True)
        elif _ours(t) and hasattr(v, '__dict__'):
            self.namespace(v, v.__dict__, True)

    def cell(self, c):
        try:
            old = c.cell_contents
        except ValueError:
            return
        self.value(old)

        def back(c=c, old=old):
            try:
                if c.cell_contents is old:
                    return
            except ValueError:
                pass
            c.cell_contents = old
        self.items.append(back)

    def namespace(self, owner, d, plain=False):
        skip = ('__builtins__', '__dict__', '__weakref__', '__doc__',
                '__file__', '__cached__', '__spec__', '__loader__')
        old = {k: v for k, v in dict(d).items() if k not in skip}
        for x in old.values():
            self.value(x)

        def back(owner=owner, old=old, plain=plain):
            now = owner.__dict__ if plain else vars(owner)
            if len(now) == len(old) and all(
                    k in now and now[k] is v for k, v in old.items()):
                return
            for k in list(now):
                if k not in old and k not in skip:
                    x = now[k]
                    if isinstance(x, types.ModuleType):
                        continue
                    if k.startswith('__'):
                        continue
                    try:
                        delattr(owner, k)
                    except (AttributeError, TypeError):
                        pass
            for k, v in old.items():
                if k not in now or now[k] is not v:
                    try:
                        setattr(owner, k, v)
                    except (AttributeError, TypeError):
                        pass
        self.items.append(back)


def snapshot():
    global _state
    if _state is None:
        _state = _Snap()


def restore():
    if _state is not None:
        for f in _state.items:
            f()
