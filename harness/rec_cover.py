"""Runs of the cover rules: radius, bump functions, partition, uncovered data; and of the integer lift."""
import random, re
import numpy as np
import dreimac
from dreimac import PartUnity
import obs
from obs import *
import scen
from pipe import BUMPS, bump_table, request, style

CU = getattr(dreimac, "CohomologyUtils", None) or dreimac.utils.CohomologyUtils


def run(c):
    return {"radius": radius, "lift": lift, "bump": bump, "partition": partition, "uncovered": uncovered}[c["do"]](c)


def radius(c):
    r = random.Random(c["s"])
    D = np.array(scen.pathmetric(scen.cycle(6))) * 1.0
    kw = {} if c["cls"] == "ProjectiveCoords" else {"prime": 3}
    ob = getattr(dreimac, c["cls"])(D, 6, distance_matrix=True, **kw)
    es, sc = [], 2.0 ** c.get("u", 0)
    for k in range(12):
        b = 64 * r.randint(0 if k % 4 == 0 else 1, 30)
        d = r.choice([2 * b, b, b + 64 * r.randint(1, 40), 2 * b + 64 * r.randint(0, 20), 2 * b - 64, b - 64])
        d = max(d, 0)
        q, sr = r.randint(0, 8), r.random() < 0.5
        o = call(ob.get_cover_radius, q / 8.0, b * sc, d * sc, sr)
        e = {"kind": "radius", "birth": b, "death": d, "perc8": q, "sr": sr, "ok": o["ok"], "r": 0, "thr": 0}
        if o["ok"]:
            e["r"], e["thr"] = fx(o["val"][0] / sc, 1000), fx(o["val"][1] / sc, 1000)
        es.append(e)
    # one of them without end
    o = call(ob.get_cover_radius, 0.0, 64.0, np.inf, True)
    return es


def lift(c):
    r = random.Random(c["s"])
    p, dim = c["p"], c["dim"]
    rows = []
    for _ in range(c["n"]):
        rows.append(r.sample(range(60), dim + 1) + [r.choice([1, p - 1, (p - 1) // 2 or 1, (p + 1) // 2, r.randint(1, p - 1)])])
    a = np.array(rows, dtype=int)
    o = call(CU.lift_to_integer_cocycle, a.copy(), prime=p)
    e = {"kind": "lift", "p": p, "rows": rows, "ok": o["ok"], "exc": o["exc"] + o["msg"], "out": []}
    if o["ok"]:
        e["out"] = ints(o["val"])
    return [e]


def bump(c):
    r = random.Random(c["s"])
    f = getattr(PartUnity, c["how"])
    es = []
    if c["how"] == "exp":
        # squared distances at which the exponent is a whole number: rr / (rr - dd) = level
        rr = r.choice([60, 120, 420, 840]) * r.choice([1, 4, 9])
        levels = [k for k in range(1, 9) if rr % k == 0]
        ds = np.sqrt(np.array([rr - rr // k for k in levels], dtype=float))
        o = call(f, ds, float(np.sqrt(rr)))
        es.append({"kind": "bumpexp", "levels": levels, "ok": o["ok"], "exc": o["exc"] + o["msg"], "v": fxs(o["val"], 100000000) if o["ok"] else []})
    else:
        R = r.randint(1, 400)
        ds = [r.randint(0, R) if r.random() < 0.8 else r.choice([0, R - 1]) for _ in range(12)]
        a = np.array(ds, dtype=r.choice([float, int, np.float32]))
        o = call(f, a, float(R) if r.random() < 0.7 else R)
        es.append({"kind": "bumppoly", "how": c["how"], "R": R, "ds": ds, "ok": o["ok"], "exc": o["exc"] + o["msg"],
                   "v": fxs(o["val"], 1000) if o["ok"] else [], "unchanged": bool((a == np.array(ds)).all())})
    return es


def partition(c):
    r = random.Random(c["s"])
    D = np.array(c["D"]) * (64 * c.get("big", 1))
    n = len(D)
    cols = []
    top = int(D.max())
    for _ in range(c.get("count", 30)):
        base = r.randrange(n) if n < 100 or r.random() < 0.5 else n - 1 - r.randrange(8)
        col = [int(D[base][k]) + r.randint(-20, 60) for k in range(n)]
        if r.random() < 0.15:
            col = [top + r.randint(0, 5) for _ in range(n)]
        cols.append([max(0, x) for x in col])
    rad = r.choice([int(x) for x in D.flatten() if x] + [64, 90, 33]) if n < 100 else r.choice([64, 90, 33, 200])
    # some points exactly on the boundary of a ball
    for col in cols[:6]:
        col[r.randrange(n)] = rad
    if c.get("big"):
        # and just inside of one ball or of several
        for col in cols[10:]:
            for k in range(n):
                col[k] = max(col[k], rad) if r.random() < 0.8 else rad - r.choice([1, 1, 2, 5])
    for k in range(2):
        cols[6 + k] = [rad + r.choice([0, 0, 1]) for _ in range(n)]
    X = np.zeros((n, n + len(cols)))
    X[:, :n] = D
    X[:, n:] = np.array(cols).T
    dt = {"float": float, "int": int, "float32": np.float32}[c["dtype"]]
    sc = 2 ** abs(c["u"]) if dt == int else 2.0 ** c["u"]
    X = (X * sc).astype(dt)
    kw = {} if c["cls"] == "ProjectiveCoords" else {"prime": 3}
    ob = getattr(dreimac, c["cls"])(X, n, distance_matrix=True, **kw)
    o = call(ob.get_covering_partition, float(rad) * sc, BUMPS[c["bump"]])
    lm = landmarks(ob, D)
    e = {"kind": "partition", "rad": rad, "bump": c["bump"], "table": bump_table(c["bump"], rad), "cols": ints(X[lm, :].T / sc),
         "ok": o["ok"], "exc": o["exc"] + " " + o["msg"], "phi": [], "ball": [], "warns": len(o["warn"]),
         "counts": [int(x) for w in o["warn"] for x in re.findall(r"\d+", w)], "same": lm == list(range(n))}
    if o["ok"]:
        phi, ball = o["val"]
        e["phi"] = fxs(np.asarray(phi, dtype=float).T, 10000)
        e["ball"] = ints(ball)
    return [e]


def ill_conditioned(v, m, mode):
    ppca, rng, gs = dreimac.utils.EquivariantPCA.ppca, np.random.default_rng(7), []
    for k in range(4):
        g = call(ppca, v * (1 + (1e-8 * rng.standard_normal(v.shape) if k else 0)), m, mode)
        if not g["ok"]:
            return None
        x = np.asarray(g["val"]["X"])
        gs.append(np.abs(x @ np.conj(x).T))
    with np.errstate(all="ignore"):
        return np.any([(np.abs(g - gs[0]) > 1e-4) | (np.isnan(g) != np.isnan(gs[0])) for g in gs], axis=0)


def uncovered(c):
    """the same data with and without points that no ball contains"""
    r = random.Random(c["s"])
    D = np.array(c["D"]) * 64
    n = len(D)
    kind = c["cls"]
    hd = 2 if kind == "ComplexProjectiveCoords" else 1
    Cls = getattr(dreimac, kind)
    kw = {} if kind == "ProjectiveCoords" else {"prime": c["p"]}
    sc = 2.0 ** c["u"]
    ob = Cls(D.astype(float) * sc, n, distance_matrix=True, **kw)
    dg = np.asarray(getattr(ob, "_dgms", getattr(ob, "dgms_", None))[hd])
    if len(dg) == 0 or not np.isfinite(dg[0, 1]):
        return []
    b, d, z = ob.get_representative_cocycle(0, hd)
    b, d = int(b / sc), int(d / sc)
    sr = c["sr"] and 2 * b <= d
    thr = (3 * (2 * b if sr else b) + d) // 4 if not sr else (2 * b + d) // 2
    perc = 0.25 if not sr else 0.5
    rad = thr / 2.0
    far = int(rad) + 1
    cols, unc = [], []
    for _ in range(14):
        base = r.randrange(n)
        col = [far + r.randint(0, 9)] * n
        col[base] = r.randint(0, int(rad) - 1)
        nb = [k for k in range(n) if 0 < D[base][k] < thr]
        for k in r.sample(nb, min(len(nb), r.randint(0, 2))):
            lo = int(D[base][k]) - col[base]
            if lo < rad and all(col[j] >= rad or D[j][k] <= col[j] + max(lo, int(rad) - 1) for j in range(n) if j != k):
                col[k] = r.randint(max(0, lo), max(max(0, lo), int(rad) - 1))
                if col[k] >= rad:
                    col[k] = far
        cols.append(col)
    many = r.choice([0, 1, 1, 3, 14])
    allcols = [(x, True) for x in cols] + [([far + r.randint(0, 9) for _ in range(n)], False) for _ in range(many)]
    r.shuffle(allcols)
    arg = {"perc": perc, "standard_range": sr, "partunity_fn": BUMPS[c["bump"]]}
    if kind == "ToroidalCoords":
        k = min(2, len(np.asarray(getattr(ob, "_dgms", getattr(ob, "dgms_", None))[1])))
        arg["cocycle_idxs"] = [0] * 0 + list(range(1))
    if kind in ("ProjectiveCoords", "LensCoords", "ComplexProjectiveCoords"):
        dim = r.choice([1, 2, n - 1]) if n > 3 else 1
        arg["complex_dim" if kind == "LensCoords" else "proj_dim"] = dim + (1 if kind == "LensCoords" else 0)
        arg["projective_dim_red_mode"] = c["mode"]
    res = []
    for drop in (False, True):
        use = [x for x, cov in allcols if cov or not drop]
        X = np.zeros((n, n + len(use)))
        X[:, :n] = D
        if use:
            X[:, n:] = np.array(use).T
        X = X * sc
        o = call(Cls, X, n, distance_matrix=True, **kw)
        res.append(request(o["val"], kind, arg, (style(c) + drop) % 3) if o["ok"] else o)
    keep = list(range(n)) + [n + i for i, (x, cov) in enumerate(allcols) if cov]
    gone = [n + i for i, (x, cov) in enumerate(allcols) if not cov]
    e = {"kind": "uncovered", "cls": kind, "ok": all(o["ok"] for o in res), "exc": "; ".join(o["exc"] + " " + o["msg"] for o in res),
         "keep": len(keep), "gone": len(gone), "total": n + len(allcols), "warns": [len(o["warn"]) for o in res],
         "counts": [int(x) for w in res[0]["warn"] for x in re.findall(r"\d+", w)], "a": [], "b": [], "rest": [], "circular": kind in ("CircularCoords", "ToroidalCoords"),
         "sizes": []}
    if e["ok"]:
        va, vb = [np.asarray(o["val"]) for o in res]
        if e["circular"]:
            va, vb = np.atleast_2d(va), np.atleast_2d(vb)
            e["sizes"] = [va.shape[1], vb.shape[1]]
            if e["sizes"] == [e["total"], e["keep"]]:
                e["a"], e["b"] = turns(va[:, keep], 100000), turns(vb, 100000)
                e["rest"] = turns(va[:, gone].T, 100000) if gone else []
        else:
            e["sizes"] = [va.shape[0], vb.shape[0]]
            if e["sizes"] == [e["total"], e["keep"]]:
                # one unitary change of basis of the target is allowed: compare all inner products
                ga, gb = [np.abs(x @ np.conj(x).T) for x in (va[keep], vb)]
                # where the reduction is ill conditioned (equal variances, points nearly lost), both are left out
                dim = "complex_dim" if kind == "LensCoords" else "proj_dim"
                full = call(lambda: Cls(X, n, distance_matrix=True, **kw).get_coordinates(**dict(arg, **{dim: n - 1 + (kind == "LensCoords")})))
                bad = ill_conditioned(np.asarray(full["val"]), arg[dim] - (kind == "LensCoords"), c["mode"]) if full["ok"] else None
                if bad is not None and np.shape(bad) == np.shape(ga):
                    ga, gb = np.where(bad, 0, ga), np.where(bad, 0, gb)
                e["a"], e["b"] = fxs(ga, 10000), fxs(gb, 10000)
                e["rest"] = fxs(np.abs(va[gone]), 10000) if gone else []
    return [e]
