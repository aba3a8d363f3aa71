"""The same data supplied as a cloud, a square matrix, a rectangular matrix, in several types and orders."""
import contextlib, io, random
import numpy as np
import dreimac
from obs import *

HOM = {"ComplexProjectiveCoords": 2}


def outcome(c, X, nl, dm, cols, verbose=False, full=False):
    """result on the points listed in cols (positions in the output)"""
    Cls = getattr(dreimac, c["cls"])
    kw = {} if c["cls"] == "ProjectiveCoords" else {"prime": c["p"]}
    if verbose:
        kw["verbose"] = True
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        o = call(Cls, X, nl, distance_matrix=dm, **kw)
        v = {"ok": o["ok"], "exc": o["exc"] + " " + o["msg"], "dgms": [], "theta": [], "gram": [], "num": -1, "warn": 0}
        if not o["ok"]:
            return v
        ob = o["val"]
        hd = HOM.get(c["cls"], 1)
        dg = ob.dgms_ if hasattr(ob, "dgms_") else ob._dgms
        v["dgms"] = [[fxs(np.asarray(b, dtype=float), 100 if "P" in c else 1000)] for b in [np.asarray(dg[d]) for d in range(1, hd + 1)]]
        n = len(dg[hd])
        if n == 0:
            v["ok"], v["exc"] = False, "no class"
            return v
        a = {"perc": c["perc"], "standard_range": c["sr"]}
        if c["cls"] == "ToroidalCoords":
            a["cocycle_idxs"] = list(range(min(n, c["k"])))
        else:
            a["cocycle_idx"] = 0
            if full and c["cls"] != "CircularCoords":
                # without reduction, which looks at all points together
                a["complex_dim" if c["cls"] == "LensCoords" else "proj_dim"] = nl if c["cls"] == "LensCoords" else nl - 1
        g = call(ob.get_coordinates, **a)
        v["ok"], v["exc"], v["warn"] = g["ok"], g["exc"] + " " + g["msg"], len(g["warn"])
    if not g["ok"]:
        v["exc"] = g["exc"]
        return v
    x = g["val"]
    if c["cls"] in ("CircularCoords", "ToroidalCoords"):
        maps = [np.asarray(x)] if c["cls"] == "CircularCoords" else [np.asarray(y) for y in x]
        v["num"] = int(len(maps[0]))
        if max(cols) < v["num"]:
            v["theta"] = [turns(y[cols], 100000) for y in maps]
    else:
        x = np.asarray(x)
        v["num"] = int(len(x))
        if max(cols) < v["num"]:
            y = x[cols]
            v["gram"] = fxs(np.abs(y @ np.conj(y).T), 10000)
    return v


def run(c):
    r = random.Random(c["s"])
    events = []
    groups = []
    full = False
    if "P" in c:
        P = np.array(c["P"], dtype=float)
        N = len(P)
        D = np.sqrt(((P[:, None, :] - P[None, :, :]) ** 2).sum(2))
    else:
        D = np.array(c["D"], dtype=float) * 64
        N = len(D)
        P = None
    nl = c["nl"]
    pts = sorted(r.sample(range(N), min(N, 20)))
    forms = []

    def add(name, X, n, dm, cols, total, **k):
        forms.append(dict(outcome(c, X, n, dm, cols, full=full, **k), name=name, total=total))
    full = True         # the reduction can be arbitrarily ill conditioned at single points; see C10-C13 for it
    add("square matrix", D.copy(), nl, True, pts, N)
    add("square matrix again", np.asfortranarray(D), nl, True, pts, N)
    if P is not None:
        add("cloud", P.copy(), nl, False, pts, N)
        add("integer cloud", P.astype(int), nl, False, pts, N)
        add("single precision cloud", P.astype(np.float32), nl, False, pts, N)
        add("verbose cloud", P.copy(), nl, False, pts, N, verbose=True)
        perm = [0] + r.sample(range(1, N), N - 1)
        add("points in another order", P[perm], nl, False, [perm.index(q) for q in pts], N)
    else:
        add("integer matrix", D.astype(int), nl, True, pts, N)
        add("short integer matrix", D.astype(np.int32), nl, True, pts, N)
        add("verbose matrix", D.copy(), nl, True, pts, N, verbose=True)
    add("single precision matrix", D.astype(np.float32), nl, True, pts, N)
    # landmarks first, as the rows of a rectangular matrix
    o = call(getattr(dreimac, c["cls"]), D.copy(), nl, distance_matrix=True, **({} if c["cls"] == "ProjectiveCoords" else {"prime": c["p"]}))
    if o["ok"]:
        lm = landmarks(o["val"], D)
        rest = [q for q in range(N) if q not in lm]
        r.shuffle(rest)
        order = lm + rest
        if len(set(lm)) == len(lm):
            Y = D[np.ix_(lm, order)]
            cols = [order.index(q) for q in pts]
            if len(rest) == 0:
                # more columns, so that the matrix is not square
                extra = [r.randrange(N) for _ in range(3)]
                Y = np.hstack([Y, Y[:, extra]])
            add("rows are the landmarks", Y, nl, True, cols, Y.shape[1])
            add("rows are the landmarks, single precision", Y.astype(np.float32), nl, True, cols, Y.shape[1])
            if P is None:
                add("rows are the landmarks, integers", Y.astype(int), nl, True, cols, Y.shape[1], verbose=True)
    groups.append(("all points", forms))
    # a subsample as rows: the same as the subsample alone, on its points
    if N > 9:
        k = r.randint(max(8, min(nl, N - 1)), N - 1)
        n2 = min(nl, k)
        full = True
        forms = []
        sub = sorted(r.sample(range(k), min(k, 20)))
        add("subsample alone", D[:k, :k].copy(), n2, True, sub, k)
        add("subsample as rows", D[:k, :].copy(), n2, True, sub, N)
        shuf = list(range(k)) + r.sample(range(k, N), N - k)
        add("subsample as rows, other columns in another order", D[:k, shuf].copy(), n2, True, sub, N)
        if P is None:
            add("subsample as integer rows", D[:k, :].astype(int), n2, True, sub, N)
        groups.append(("subsample", forms))
        # and the other columns follow their order
        others = [q for q in range(k, N)]
        forms = []
        add("columns", D[:k, :].copy(), n2, True, others, N)
        add("columns in another order", D[:k, shuf].copy(), n2, True, [shuf.index(q) for q in others], N)
        groups.append(("columns", forms))
    tol = 2 if "P" in c else 1
    return [{"kind": "supply", "cls": c["cls"], "what": name, "tol": tol, "forms": fs} for name, fs in groups]
