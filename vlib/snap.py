"""Bit-exact snapshots of call arguments and results."""
import numpy as np


def take(v):
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            return ("o", v.shape, [take(x) for x in v.ravel().tolist()])
        return ("a", v.shape, v.dtype.str, v.tobytes())
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, [take(x) for x in v])
    if isinstance(v, dict):
        return ("d", [(k, take(v[k])) for k in v])
    if isinstance(v, np.generic):
        return ("g", v.dtype.str, v.tobytes())
    if isinstance(v, float):
        return ("f", v.hex())
    if v is None or isinstance(v, (int, bool, str, bytes)):
        return (type(v).__name__, v)
    return ("x", id(v))


def arrays(v):
    """Every array or list inside a result."""
    if isinstance(v, np.ndarray):
        yield v
        if v.dtype == object:
            for x in v.ravel().tolist():
                yield from arrays(x)
    elif isinstance(v, (list, tuple)):
        if isinstance(v, list):
            yield v
        for x in v:
            yield from arrays(x)


def scribble(v):
    """Writes into everything writable inside a result; returns the number of arrays written."""
    n = 0
    for a in list(arrays(v)):
        if isinstance(a, list):
            for k in range(len(a)):
                if isinstance(a[k], (int, float, np.generic)):
                    a[k] = a[k] + 1
                    n += 1
        elif a.flags.writeable and a.size:
            if a.dtype.kind == "f":
                a[...] = np.where(np.isfinite(a), a + 1.25, 7.)
                n += 1
            elif a.dtype.kind in "iu":
                a[...] = a + 1
                n += 1
            elif a.dtype.kind == "b":
                a[...] = ~a
                n += 1
    return n
