"""Module-level state of the code under test: every run starts from the state after import,
so that a result depends on earlier calls only where a case makes these calls itself."""
import sys
import types
from collections import deque

import numpy as np

_CONT = (dict, list, set, deque)
_SKIP = {"__builtins__", "__warningregistry__", "__cached__"}


def modules():
    return [m for n, m in list(sys.modules.items()) if m is not None and (n == "pycomlink" or n.startswith("pycomlink.")) and ".tests" not in n]


def _content(c):
    if isinstance(c, np.ndarray):
        return c.copy()
    if isinstance(c, dict):
        return dict(c)
    return list(c)


def _put(c, s):
    if isinstance(c, np.ndarray):
        if c.shape == s.shape and c.flags.writeable:
            c[...] = s
    elif isinstance(c, dict):
        if dict.__len__(c) != len(s) or any(k not in s or dict.__getitem__(c, k) is not s[k] for k in list(c)):
            c.clear()
            c.update(s)
    elif isinstance(c, set):
        c.clear()
        c.update(s)
    else:
        if len(c) != len(s) or any(a is not b for a, b in zip(c, s)):
            c.clear()
            c.extend(s)


class State:
    def __init__(self):
        self.seen = {}  # id -> (object, restore function); keeps the objects alive
        self.mods = {}

    def _add(self, o, f):
        self.seen[id(o)] = (o, f)

    def _visit(self, v, depth=0):
        if v is None or id(v) in self.seen or depth > 4:
            return
        if isinstance(v, _CONT) or isinstance(v, np.ndarray) and v.dtype != object and v.size < 100000:
            s = _content(v)
            self._add(v, lambda: _put(v, s))
            if not isinstance(v, np.ndarray):
                for x in list(v.values() if isinstance(v, dict) else v)[:200]:
                    self._visit(x, depth + 1)
            return
        if hasattr(v, "cache_clear") and hasattr(v, "cache_info"):
            self._add(v, v.cache_clear)
            self._visit(getattr(v, "__wrapped__", None), depth + 1)
            return
        if isinstance(v, types.FunctionType):
            if not str(v.__module__).startswith("pycomlink"):
                return
            d, de, kw = dict(v.__dict__), v.__defaults__, v.__kwdefaults__
            cells = []
            for c in v.__closure__ or ():
                try:
                    cells.append((c, c.cell_contents))
                except ValueError:
                    pass

            def back():
                if v.__dict__ != d:
                    v.__dict__.clear()
                    v.__dict__.update(d)
                v.__defaults__, v.__kwdefaults__ = de, kw
                for c, x in cells:
                    if c.cell_contents is not x:
                        c.cell_contents = x

            self._add(v, back)
            for x in list(de or ()) + list((kw or {}).values()) + [x for _, x in cells] + list(d.values()):
                self._visit(x, depth + 1)
            return
        if isinstance(v, type):
            if not str(v.__module__).startswith("pycomlink"):
                return
            d = {k: x for k, x in v.__dict__.items() if not (k.startswith("__") and k.endswith("__")) and k != "_abc_impl"}

            def back():
                for k in [k for k in v.__dict__ if not (k.startswith("__") and k.endswith("__")) and k != "_abc_impl"]:
                    if k not in d:
                        delattr(v, k)
                    elif v.__dict__[k] is not d[k]:
                        setattr(v, k, d[k])
                for k in d:
                    if k not in v.__dict__:
                        setattr(v, k, d[k])

            self._add(v, back)
            for x in v.__dict__.values():
                self._visit(getattr(x, "__func__", x), depth + 1)
            return
        if str(type(v).__module__).startswith("pycomlink") and hasattr(v, "__dict__"):
            d = dict(v.__dict__)

            def back():
                v.__dict__.clear()
                v.__dict__.update(d)

            self._add(v, back)
            for x in d.values():
                self._visit(x, depth + 1)

    def capture(self):
        for m in modules():
            if m.__name__ in self.mods:
                continue
            g = {k: x for k, x in m.__dict__.items() if k not in _SKIP}
            self.mods[m.__name__] = (m, g)
            for k, x in g.items():
                if not k.startswith("__"):
                    self._visit(x)

    def restore(self):
        self.capture()
        for m, g in self.mods.values():
            d = m.__dict__
            for k in [k for k in d if k not in g and k not in _SKIP]:
                if not isinstance(d[k], types.ModuleType):
                    del d[k]
            for k, x in g.items():
                if k not in d or d[k] is not x:
                    d[k] = x
        for o, f in list(self.seen.values()):
            f()


STATE = State()
