import random
import numpy as np
import dreimac
from dreimac import GeometryUtils as G
from obs import *
from gen_land import cloud


def run(c):
    return {"pc": pc, "dm": dm, "geo": geo, "obj": obj}[c["do"]](c)


def manhattan(A, B):
    return np.abs(A[:, None, :] - B[None, :, :]).sum(-1).astype(float)


def asymmetric(A, B):
    # a cross-distance function need not be symmetric
    return np.maximum(A[:, None, :] - B[None, :, :], 0).sum(-1) * 2.0 + np.maximum(B[None, :, :] - A[:, None, :], 0).sum(-1)


def discrete(A, B):
    return (np.abs(A[:, None, :] - B[None, :, :]).sum(-1) > 0).astype(float)


FN = {"manhattan": manhattan, "asymmetric": asymmetric, "discrete": discrete}


def true_table(X, fn):
    """the distance table in the unit in which it is exact: integers; squares for Euclidean; 10^-6 for arcs"""
    X = np.asarray(X)
    if fn == "euclid":
        return ((X[:, None, :] - X[None, :, :]) ** 2).sum(-1), "sq"
    if fn == "projarc":
        Y = X / np.linalg.norm(X, axis=1)[:, None]
        return np.rint(1e6 * np.arccos(np.clip(np.abs(Y @ Y.T), 0, 1))).astype(int), "micro"
    return np.rint(FN[fn](X, X)).astype(int), "int"


def unit_of(a, unit):
    a = np.asarray(a, dtype=float)
    if unit == "sq":
        b = a * a
        return [[fx(x, 1000) for x in row] for row in np.atleast_2d(b)]
    if unit == "micro":
        return [[fx(x) for x in row] for row in np.atleast_2d(a)]
    return [[fx(x, 1000) for x in row] for row in np.atleast_2d(a)]


def event(T, unit, perm, lam, rows, **k):
    # distances recorded to a thousandth of the unit in which the table is exact
    e = {"T": ints(T), "unit": 1 if unit == "micro" else 1000, "tol": 3 if unit == "micro" else 0,
         "rtol": 1500 if unit == "micro" else 2, "perm": [int(x) for x in perm],
         "lambdas": unit_of(lam, unit)[0] if lam is not None else [], "haslam": lam is not None, "rows": unit_of(rows, unit)}
    e.update(k)
    return e


def pc(c):
    X = np.array(c["X"], dtype=float)
    fn = c["fn"]
    f = c.get("f", 1.0) if fn in ("euclid", "manhattan") else 1.0
    if fn == "projarc":
        X = X + 1.0
    T, unit = true_table(X, fn)
    if fn == "projarc":
        X = X / np.linalg.norm(X, axis=1)[:, None]
    X = X * f + (0.3 * f if f != 1 else 0)
    before = X.copy()
    if fn == "euclid":
        res = G.get_greedy_perm_pc(X, c["M"])
    elif fn == "projarc":
        res = G.get_greedy_perm_pc(X, c["M"], G.get_csm_projarc)
    else:
        res = G.get_greedy_perm_pc(X, c["M"], FN[fn])
    e = event(T, unit, res["perm"], np.asarray(res["lambdas"]) / f, np.asarray(res["D"]) / f, kind="greedy", M=c["M"])
    # the landmarks' coordinates
    e["Yok"] = bool(np.shape(res["Y"]) == (c["M"], X.shape[1]) and (res["Y"] == before[np.asarray(res["perm"])]).all())
    e["unchanged"] = bool((X == before).all())
    return [e]


NOWHERE = INF // 1000        # no finite distance; the specification's Inf in recorded units


def table(r, n, how):
    if how == "12":
        D = np.array([[r.choice([1, 2]) for _ in range(n)] for _ in range(n)])
    elif how in ("ints", "islands"):
        D = np.array([[r.randint(50, 100) for _ in range(n)] for _ in range(n)])
    else:
        X = np.array(cloud(r, n, 2, 30 if how == "cloud" else 3, how == "dup"))
        D = np.abs(X[:, None, :] - X[None, :, :]).sum(-1)
    D = np.triu(D, 1)
    D = D + D.T
    if how == "islands":
        part = np.array([r.randrange(3) for _ in range(n)])
        D[part[:, None] != part[None, :]] = NOWHERE
    return D


def dm(c):
    r = random.Random(c["s"])
    D = table(r, c["n"], c["how"])
    Df = D.astype(r.choice([float, int, np.float32]) if c["how"] != "islands" else float)
    Df[D == NOWHERE] = np.inf if c["how"] == "islands" else NOWHERE
    f = c.get("f", 1.0) if Df.dtype == float else 1
    Df = Df * f
    before = Df.copy()
    res = G.get_greedy_perm_dm(Df, c["M"])
    return [event(D, "int", res["perm"], np.asarray(res["lambdas"]) / f, np.asarray(res["DLandmarks"]) / f, kind="greedy", M=c["M"], Yok=True,
                  unchanged=bool((Df == before).all()))]


def geo(c):
    f = c.get("f", 1.0)
    ref = np.array(c["X"], dtype=float)
    X = ref * f
    before = X.copy()
    o = call(G.landmark_geodesic_distance, X, c["M"], c["k"])
    Sq = ((ref[:, None, :] - ref[None, :, :]) ** 2).sum(-1)
    e = {"kind": "geodesic", "M": c["M"], "k": c["k"], "Sq": ints(Sq),
         "L": [[fx(np.sqrt(x), 10000) for x in row] for row in Sq],       # edge lengths, 10^-4
         "ok": o["ok"], "exc": o["exc"] + " " + o["msg"], "perm": [], "rows": [], "unchanged": bool((X == before).all())}
    if o["ok"]:
        D, perm = o["val"]
        e["perm"] = [int(x) for x in perm]
        e["rows"] = [[fx(x / f, 10000) for x in row] for row in D]
    return [e]


def obj(c):
    r = random.Random(c["s"])
    n, how = c["n"], c["how"]
    dup = how.startswith("dup")
    if dup:
        base = cloud(r, max(3, n // 2), 2, 40, False)
        X = np.array(base + [r.choice(base) for _ in range(n - len(base))])
    else:
        X = np.array(cloud(r, n, 2, 40, False))
    how = how[3:] if dup else how
    dt = {"float": float, "int": int, "float32": np.float32}[c["dtype"]]
    M = max(2, int(round(n * c["frac"])))
    if how == "cloud":
        data, dmode = X.astype(dt), False
        T, unit = true_table(X, "euclid")
        D = T
    else:
        T, unit = true_table(X, "manhattan")
        data, dmode, D = T.astype(dt), True, T
        if how == "rect":
            E = np.array(cloud(r, c["extra"], 2, 40, True))
            full = np.concatenate([X, E])
            D = np.rint(manhattan(X, full)).astype(int)
            data = D.astype(dt)
    kw = {} if c["cls"] == "ProjectiveCoords" else {"prime": 3}
    f = c.get("f", 1.0) if c["dtype"] == "float" else 1
    data = data * f
    before = data.copy()
    o = call(getattr(dreimac, c["cls"]), data, M, distance_matrix=dmode, **kw)
    if not o["ok"]:
        return [{"kind": "object", "ok": False, "exc": o["exc"] + " " + o["msg"]}]
    ob = o["val"]
    idx, rows = getattr(ob, "_idx_land", None), getattr(ob, "_dist_land_data", None)
    e = {"kind": "object", "ok": True, "exc": "", "M": M, "T": ints(T), "D": ints(D), "unit": 1000, "rtol": 20 if unit == "int" else 60,
         "perm": [int(i) for i in idx] if idx is not None else [], "hasperm": idx is not None,
         "rows": unit_of(np.asarray(rows) / f, unit) if rows is not None else [], "hasrows": rows is not None and idx is not None,
         "unchanged": bool((data == before).all())}
    return [e]
