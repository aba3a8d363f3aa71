"""Runs of CircularCoords / ToroidalCoords on landmark metrics with probe points."""
import io, contextlib, random, re
import numpy as np
import dreimac
from obs import *
import scen
from pipe import *


def dgms_of(ob, d):
    return np.asarray(ob._dgms[d] if hasattr(ob, "_dgms") else ob.dgms_[d])


def mixing(Cls, mixed, calls):
    """the same class of coordinates, with other cocycles offered as its representatives"""
    class Mixed(Cls):
        def get_representative_cocycle(self, cohomology_class, homological_dimension):
            if homological_dimension == 1 and cohomology_class in mixed:
                calls.append(cohomology_class)
                b, d, rows = mixed[cohomology_class]
                return b, d, np.array(rows, dtype=int).reshape(-1, 3)
            return Cls.get_representative_cocycle(self, cohomology_class, homological_dimension)
    Mixed.__name__ = Cls.__name__
    return Mixed


def unimodular(r, k, p):
    if k == 1:
        return [[r.choice([1, 1, -1, 2, -2, 3]) % p or 1]]
    m = [[int(x == y) for y in range(k)] for x in range(k)]
    lim = min(12 if k > 4 else 6, p // 2)
    for _ in range(r.randint(2, 8 * k)):
        x, y = r.sample(range(k), 2)
        f = r.choice([-2, -1, 1, 2])
        row = [u + f * v for u, v in zip(m[x], m[y])]
        if max(map(abs, row)) <= lim:
            m[x] = row
    r.shuffle(m)
    return m


def combine(r, coeffs, cocs, p, edges=()):
    """rows of the combination modulo p, plus a random coboundary on the edges, in random orientations"""
    val = {}
    pot = {}
    for i, j in edges:
        for x in (i, j):
            if x not in pot:
                pot[x] = r.randrange(p) if r.random() < 0.5 else 0
        val[(i, j)] = (pot[j] - pot[i]) % p
    for a, z in zip(coeffs, cocs):
        for i, j, v in z["rows"]:
            if i > j:
                i, j, v = j, i, -v
            val[(i, j)] = (val.get((i, j), 0) + a * v) % p
    rows = [[i, j, v] if r.random() < 0.6 else [j, i, p - v] for (i, j), v in sorted(val.items()) if v]
    r.shuffle(rows)
    return rows


def run(c):
    circ = c["cls"] == "CircularCoords"
    st, err = build(c, c["cls"], 1, {"verbose": True} if c.get("verbose") else {})
    base = {"kind": "torus", "cls": c["cls"], "p": c["p"], "sr": c["sr"], "perc8": c["perc8"], "bump": c["bump"],
            "check": c.get("check", True), "unit": UNIT}
    if err:
        return [dict(base, kind="fail", what=err["exc"])]
    r, D, N, nl, Cls, kw, dt, ob0, dgm0, sc = st
    if len(dgm0) == 0:
        return []
    idxs = choose_classes(dgm0, c["rule"], r, c.get("k", 2)) if not circ else choose_classes(dgm0, c["rule"] if c["rule"] in ("first", "any") else "any", r, 1)
    births, deaths = [ints(dgm0[i][0]) for i in idxs], [ints(dgm0[i][1]) for i in idxs]
    if max(deaths) >= INF:
        return []
    thr, start, end = scale(births, deaths, c["sr"], c["perc8"])
    lm0 = landmarks(ob0, D)
    Dl0 = [[int(D[a][b]) for b in lm0] for a in lm0]
    feasible = start <= end and max(births) < min(deaths) and thr > 0
    cols, paths = probes(r, Dl0, thr, c.get("probes", 30), steps=c.get("steps", STEPS)) if feasible else ([], [])
    # the rows of X are all N points; a probe has the stated distance to the landmarks, and is far from other rows
    X = np.zeros((N, N + len(cols)), dtype=dt)
    X[:, :N] = D
    for q, col in enumerate(cols):
        X[:, N + q] = 4 * D.max()
        for a, i in enumerate(lm0):
            X[i, N + q] = col[a]
    if not cols:
        X = X[:, :N]
    X = X * sc
    X = X.astype(dt)
    plan = X
    X = given(X, c, sc)
    before = X.copy()
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        o = call(Cls, X, nl, distance_matrix=True, **kw)
        if not o["ok"]:
            return [dict(base, kind="fail", what="constructing: " + o["exc"] + " " + o["msg"])]
        ob = o["val"]
        cocs = []
        ok = True
        for i in idxs:
            b, d, z = ob.get_representative_cocycle(i, 1)
            cocs.append({"birth": ints(b / sc), "death": ints(d / sc), "rows": ints(z) if len(z) else []})
        arg = {"perc": c["perc8"] / 8.0, "standard_range": c["sr"], "partunity_fn": BUMPS[c["bump"]],
               "check_cocycle_condition": c.get("check", True)}
        if circ:
            arg["cocycle_idx"] = idxs[0]
        else:
            arg["cocycle_idxs"] = list(idxs)
        if c.get("mix"):
            plain, mixed, calls = cocs, {}, []
            mix = unimodular(random.Random(c["s"] + 1), len(idxs), c["p"])
            cocs = []
            for a, i in enumerate(idxs):
                rows = combine(r, mix[a], plain, c["p"], scen.edges_below(Dl0, min(deaths), 1) if c.get("gauge") else ())
                cocs.append({"birth": births[a], "death": deaths[a], "rows": rows})
                mixed[i] = (births[a] * sc, deaths[a] * sc, rows)
            out2 = call(mixing(Cls, mixed, calls), X, nl, distance_matrix=True, **kw)
            if out2["ok"]:
                ob = out2["val"]
        g = request(ob, c["cls"], arg, style(c))
        if c.get("mix") and set(calls) != set(idxs):
            cocs = plain            # the representatives are read in another way
    lm = landmarks(ob, D)
    n = len(lm)
    Dl = [[int(D[a][b]) for b in lm] for a in lm]
    e = dict(base, n=n, D=Dl, idxs=list(idxs), classes=cocs, ok=g["ok"], exc=g["exc"], msg=g["msg"],
             named=[int(x) for x in re.findall(r"\d+", g["msg"])], warns=len(g["warn"]), unchanged=bool((X == before).all()),
             same=lm == lm0, thr=0, cols=[], theta=[], paths=[], loops=[], table=[], nmaps=0,
             rthr=[], rcov=[], M=[], gram=[], gram0=[], g0unit=1, obstruction=[], q=c["p"])
    # what it reports about the scale, if it does
    if g["ok"] and hasattr(ob, "_rips_threshold") and hasattr(ob, "_r_cover"):
        e["rthr"], e["rcov"] = [fx(ob._rips_threshold / sc, 1000)], [fx(ob._r_cover / sc, 1000)]
    if g["ok"]:
        v = g["val"]
        maps = [v] if circ else list(v)
        e["nmaps"] = len(maps)
        e["lens"] = [int(np.shape(m)[0]) if np.ndim(m) == 1 else -1 for m in maps]
        e["theta"] = [turns(np.asarray(m), UNIT) for m in maps]
        e["thr"] = thr
        e["cols"] = [[int(x) for x in plan[lm, q] / sc] for q in range(X.shape[1])]
        e["paths"] = [[lm.index(lm0[p[0]]), lm.index(lm0[p[1]])] + [q + N for q in p[2:]] for p in paths] if e["same"] or set(lm) == set(lm0) else []
        e["loops"] = scen.fundamental_loops(n, scen.edges_below(Dl, thr, 1)) if feasible else []
        e["table"] = bump_table(c["bump"], thr // 2) if feasible else []
        e["ncols"] = int(X.shape[1])
        if not circ and len(maps) > 1:
            if getattr(ob, "_change_basis", None) is not None:
                e["M"] = ints(ob._change_basis)
            if getattr(ob, "_gram_matrix", None) is not None:
                e["gram"] = fxs(ob._gram_matrix, 10000)
            if getattr(ob, "_original_gram_matrix", None) is not None:
                g0, big = np.asarray(ob._original_gram_matrix, dtype=float), 1.0
                if getattr(ob, "_change_basis", None) is not None:
                    big = float(np.abs(ob._change_basis).sum()) ** 2 * max(1.0, float(np.abs(g0).max()))
                e["g0unit"] = 10000 if big < 1e5 else 1000 if big < 1e6 else 10 if big < 1e8 else 0
                e["gram0"] = fxs(g0, e["g0unit"]) if e["g0unit"] else []
    elif feasible and "integral lift" in g["msg"]:
        e["thr"] = thr
        # for every class, a witness that it has no integer lift, when one is found
        for z in cocs:
            e["obstruction"].append(obstruction(n, Dl, thr, z["rows"], c["p"]))
    return [e]


def obstruction(n, Dl, thr, rows, p):
    """a chain of triangles, closed modulo p, on which the coboundary of the lift, divided by p, is not 0 modulo p"""
    E = scen.edges_below(Dl, thr, 1)
    T = scen.triangles(n, E)
    if not T:
        return []
    eix = {x: i for i, x in enumerate(E)}
    mat = [[0] * len(T) for _ in E]
    for t, (a, b, c) in enumerate(T):
        mat[eix[(a, b)]][t] += 1
        mat[eix[(b, c)]][t] += 1
        mat[eix[(a, c)]][t] -= 1
    val = {}
    for i, j, v in rows:
        v = v - p if 2 * v > p - 1 else v
        val[(i, j)], val[(j, i)] = v, -v
    g = lambda a, b: val.get((a, b), 0)
    for z in scen.kernel_mod(mat, len(T), p):
        s = sum(w * ((g(a, b) + g(b, c) - g(a, c)) // p) for w, (a, b, c) in zip(z, T))
        if s % p:
            return [[a, b, c, w] for w, (a, b, c) in zip(z, T) if w]
    return []
