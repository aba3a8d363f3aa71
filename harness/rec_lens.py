"""Runs of ProjectiveCoords and LensCoords on landmark metrics with probe points."""
import contextlib, io
import numpy as np
import dreimac
from obs import *
import scen
from pipe import *

PPCA = dreimac.utils.EquivariantPCA.ppca


def with_probes(D, lm0, cols, dt):
    N = len(D)
    X = np.zeros((N, N + len(cols)), dtype=dt)
    X[:, :N] = D
    for q, col in enumerate(cols):
        X[:, N + q] = 4 * D.max()
        for a, i in enumerate(lm0):
            X[i, N + q] = col[a]
    return X


def gram_abs(x):
    x = np.asarray(x)
    return np.abs(x @ np.conj(x).T)


def sample_gram(a, v, m, mode, r, k=24):
    """inner products, up to phase, among some of the points, of a result and of the reduction of v.
    Where the reduction is ill conditioned (a point nearly orthogonal to what is kept) both are left out."""
    g = call(PPCA, v, m, mode)
    if not g["ok"]:
        return [], []
    a, b = np.asarray(a), np.asarray(g["val"]["X"])
    rng = np.random.default_rng(7)
    fine = np.ones(len(v), dtype=bool)
    for _ in range(2):
        h = call(PPCA, v * (1 + 1e-8 * rng.standard_normal(v.shape)), m, mode)
        if not h["ok"] or np.shape(h["val"]["X"]) != b.shape:
            return [], []
        c = np.asarray(h["val"]["X"])
        with np.errstate(all="ignore"):
            d = np.abs(gram_abs(b) - gram_abs(c))
        fine &= ~(np.nanmedian(np.where(np.isnan(d), 0, d), axis=1) > 1e-5)
    q = sorted(r.sample(range(len(a)), min(k, len(a))))
    q = [x for x in q if fine[x]]
    with np.errstate(all="ignore"):
        d = np.zeros((len(q), len(q)), dtype=bool)
        ga, gb, gc = gram_abs(a[q]), gram_abs(b[q]), gram_abs(c[q])
        bad = np.abs(gb - gc) > 1e-4
    ga, gb = np.where(bad, 0, ga), np.where(bad, 0, gb)
    return fxs(ga, 10000), fxs(gb, 10000)


def run(c):
    real = c["cls"] == "ProjectiveCoords"
    base = {"kind": "lens", "cls": c["cls"], "p": c["p"], "sr": c["sr"], "perc8": c["perc8"], "bump": c["bump"], "mode": c["mode"]}
    st, err = build(c, c["cls"], 1, {"verbose": True} if c.get("verbose") else {}) if not c.get("verbose") else quiet(build, c, c["cls"], 1, {"verbose": True})
    if err:
        return [dict(base, kind="fail", what=err["exc"])]
    r, D, N, nl, Cls, kw, dt, ob0, dgm0, sc = st
    idxs = choose_classes(dgm0, c["rule"] if c["rule"] in ("first", "any") else "any", r, 1)
    if not idxs:
        return []
    k = idxs[0]
    b, d = ints(dgm0[k])
    if d >= INF:
        return []
    thr, start, end = scale([b], [d], c["sr"], c["perc8"])
    lm0 = landmarks(ob0, D)
    n = len(lm0)
    Dl0 = [[int(D[x][y]) for y in lm0] for x in lm0]
    feas = start <= end and thr > 0
    cols = []
    if feas:
        cols, _ = probes(r, Dl0, thr, c.get("probes", 40), edges=False)
        rad = thr // 2
        for (i, j) in scen.edges_below(Dl0, thr, 1):
            room = min(2 * rad - Dl0[i][j], rad)
            col = [rad + r.randint(0, 9) for _ in range(n)]
            a = max(1, room // 2)
            col[i], col[j] = rad - a, rad - max(1, room - a)
            cols.append(col)
    X = (with_probes(D, lm0, cols, dt) * sc).astype(dt)
    plan = X
    X = given(X, c, sc)
    before = X.copy()
    dim = "proj_dim" if real else "complex_dim"
    off = 0 if real else 1
    arg = {"perc": c["perc8"] / 8.0, "standard_range": c["sr"], "partunity_fn": BUMPS[c["bump"]], "cocycle_idx": k}
    with contextlib.redirect_stdout(io.StringIO()):
        ob = Cls(X, nl, distance_matrix=True, **kw)
        bb, dd, z = ob.get_representative_cocycle(k, 1)
        full = request(ob, c["cls"], dict(arg, **{dim: n - 1 + off, "projective_dim_red_mode": c["mode"]}), style(c))
        m = min(c["reddim"], n - 1)
        red = request(ob, c["cls"], dict(arg, **({} if c.get("default") else {dim: m + off, "projective_dim_red_mode": c["redmode"]})), (style(c) + 1) % 3)
        if c.get("default"):
            m = 2 if real else 1
    lm = landmarks(ob, D)
    e = dict(base, n=n, D=[[int(D[x][y]) for y in lm] for x in lm], birth=ints(bb / sc), death=ints(dd / sc), rows=ints(z) if len(z) else [],
             ok=full["ok"], exc=full["exc"] + " " + full["msg"], okred=red["ok"], excred=red["exc"] + " " + red["msg"],
             thr=thr, cols=[], mod2=[], arg=[], table=[], loops=[], unchanged=bool((X == before).all()), warns=len(full["warn"]),
             shape=[], want=[int(X.shape[1]), n], redshape=[], redwant=[int(X.shape[1]), m + 1], rednorm=[], g1=[], g2=[])
    if not full["ok"] or not red["ok"]:
        return [e]
    v, w = np.asarray(full["val"]), np.asarray(red["val"])
    e["shape"], e["redshape"] = shape(v), shape(w)
    if e["shape"] == e["want"]:
        e["cols"] = [[int(x) for x in plan[lm, q] / sc] for q in range(X.shape[1])]
        e["mod2"] = fxs(np.abs(v) ** 2, 10000)
        e["arg"] = turns(np.angle(v), 100000)
        for q in range(len(v)):
            if np.isnan(v[q]).any():
                e["arg"][q] = [NAN] * n
        e["table"] = bump_table(c["bump"], thr // 2)
        e["loops"] = scen.fundamental_loops(n, scen.edges_below(e["D"], thr, 1))
    if e["redshape"] == e["redwant"] and e["shape"] == e["want"]:
        e["rednorm"] = fxs(np.sum(np.abs(w) ** 2, axis=1), 10000)
        e["g1"], e["g2"] = sample_gram(w, v, m, "exponential" if c.get("default") else c["redmode"], r)
    return [e]


def quiet(f, *a):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a)
