"""Projection of what the code returns to the integers the specification speaks about."""
import math, warnings
import numpy as np

NAN, INF = -2000000000, 2000000000


def fx(x, unit=1000000):
    """x in fixed point: round(x*unit), with sentinels for nan, infinities and anything too large."""
    x = float(x)
    if math.isnan(x):
        return NAN
    y = x * unit
    if y >= 1.99e9:
        return INF
    if y <= -1.99e9:
        return -INF
    return int(round(y))


def fxs(a, unit=1000000):
    a = np.asarray(a)
    if a.ndim == 0:
        return fx(a, unit)
    return [fxs(x, unit) for x in a]


def cfx(a, unit=1000000):
    """complex array: pairs <<re, im>>"""
    a = np.asarray(a)
    if a.ndim == 0:
        return [fx(a.real, unit), fx(a.imag, unit)]
    return [cfx(x, unit) for x in a]


def ints(a):
    """an array that should hold whole numbers (exactly); anything else becomes a sentinel"""
    a = np.asarray(a)
    if a.ndim == 0:
        x = float(a)
        if math.isnan(x):
            return NAN
        if math.isinf(x):
            return INF if x > 0 else -INF
        return int(x) if x == int(x) and abs(x) < 2e9 else INF - 1
    return [ints(x) for x in a]


def turns(theta, unit=1000000):
    """angles in radians -> units of a turn"""
    return fxs(np.asarray(theta, dtype=float) / (2 * np.pi), unit)


def call(f, *a, **k):
    """outcome of a call: value, or the exception; and the warnings it gave"""
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        try:
            v = f(*a, **k)
            return {"ok": True, "val": v, "exc": "", "msg": "", "warn": _warned(w)}
        except Exception as x:
            return {"ok": False, "val": None, "exc": type(x).__name__, "msg": str(x)[:300],
                    "warn": _warned(w)}


def _warned(w):
    """warnings given on purpose, not those of numpy's arithmetic"""
    return [str(x.message) for x in w if not (issubclass(x.category, (RuntimeWarning, DeprecationWarning, FutureWarning)) and
                                              "cover" not in str(x.message))]


def shape(a):
    return [int(x) for x in np.shape(a)]


def landmarks(obj, D):
    """indices of the landmarks chosen by a coordinate object, in order"""
    idx = getattr(obj, "_idx_land", None)
    if idx is not None:
        return [int(i) for i in idx]
    n = getattr(obj, "_n_landmarks", None) or D.shape[0]
    if n == D.shape[0]:
        return list(range(n))
    perm, ds = [0], np.array(D[0], dtype=float)
    for _ in range(1, n):
        i = int(np.argmax(ds))
        perm.append(i)
        ds = np.minimum(ds, D[i])
    return perm
