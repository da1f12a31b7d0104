"""Wraps the library's public functions wherever the library can reach them."""
import functools
import sys
import types


class Monitor:
    """after(name, args, kwargs, result, depth) is called for every observed call of a wrapped callable."""

    def __init__(self):
        self.depth = 0
        self.undo = []
        self.before = {}
        self.after = {}

    def _wrap(self, name, f):
        mon = self

        @functools.wraps(f)
        def call(*a, **k):
            b = mon.before.get(name) or mon.before.get("*")
            token = b(name, a, k, mon.depth) if b else None
            mon.depth += 1
            try:
                out = f(*a, **k)
            finally:
                mon.depth -= 1
            post = mon.after.get(name) or mon.after.get("*")
            if post:
                post(name, a, k, out, mon.depth, token)
            return out
        call.__monitored__ = f
        return call

    def functions(self, table):
        """table: name -> function. Replaces every reference in every magpie module."""
        wrapped = {id(f): self._wrap(n, f) for n, f in table.items()}
        origs = {id(f): f for f in table.values()}
        for mname, mod in list(sys.modules.items()):
            if mod is None or not (mname == "magpie" or mname.startswith("magpie.")):
                continue
            if mname.startswith("magpie.src"):
                continue
            for attr, val in list(vars(mod).items()):
                if isinstance(val, types.FunctionType) and id(val) in wrapped and origs[id(val)] is val:
                    setattr(mod, attr, wrapped[id(val)])
                    self.undo.append((mod, attr, val))

    def methods(self, cls, label):
        for attr, val in list(vars(cls).items()):
            if isinstance(val, types.FunctionType) and not attr.startswith("_"):
                setattr(cls, attr, self._wrap(label + "." + attr, val))
                self.undo.append((cls, attr, val))

    def remove(self):
        for owner, attr, val in reversed(self.undo):
            setattr(owner, attr, val)
        self.undo = []


def bind(params, args, kwargs):
    """Named arguments of an observed call, by the documented parameter order; None where it does not fit."""
    if len(args) > len(params):
        return None
    d = dict(zip(params, args))
    for k, v in kwargs.items():
        if k in d:
            return None
        d[k] = v
    return d
