"""Snapshots of objects: nested plain values that can be compared later."""
import numpy as np
import torch

MODULES = ("xrd_simulator",)


def take(x, skip=(), depth=0, memo=None):
    """Plain copy of a value; private attributes and those in skip are left out."""
    memo = {} if memo is None else memo
    if depth > 12 or id(x) in memo:
        return "..."
    if torch.is_tensor(x):
        return x.detach().cpu().numpy().copy()
    if isinstance(x, np.ndarray):
        return x.copy()
    if isinstance(x, (int, float, bool, str, bytes, complex, type(None), np.generic)):
        return x
    if isinstance(x, (list, tuple)):
        return [take(v, skip, depth + 1, memo) for v in x]
    if isinstance(x, dict):
        return {str(k): take(v, skip, depth + 1, memo) for k, v in x.items()}
    if type(x).__module__.startswith(MODULES):
        memo = dict(memo)
        memo[id(x)] = True
        return {k: take(v, skip, depth + 1, memo) for k, v in sorted(vars(x).items()) if not k.startswith("_") and k not in skip}
    return None


def diff(a, b, tol=0.0, where=""):
    """None, or the path of the first difference."""
    num = (int, float, bool, complex, np.generic, np.ndarray)
    if isinstance(a, num) and isinstance(b, num):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return "%s: shape %s became %s" % (where, a.shape, b.shape)
        if a.dtype.kind in "OUS" or b.dtype.kind in "OUS":
            return None if np.array_equal(a, b) else "%s changed" % where
        if tol == 0:
            same = np.array_equal(a, b, equal_nan=a.dtype.kind == "f" and b.dtype.kind == "f")
        else:
            same = np.allclose(a, b, rtol=tol, atol=tol * (1e-300 + np.abs(a).max(initial=0.0)), equal_nan=True)
        return None if same else "%s: %s became %s" % (where, str(a.ravel()[:6]), str(b.ravel()[:6]))
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return "%s: %d items became %d" % (where, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, tol, "%s[%d]" % (where, i))
            if d:
                return d
        return None
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return "%s: keys changed: %s" % (where, sorted(set(a) ^ set(b)))
        for k in a:
            d = diff(a[k], b[k], tol, where + "." + k)
            if d:
                return d
        return None
    return None if type(a) == type(b) and a == b else "%s: %r became %r" % (where, a, b)
