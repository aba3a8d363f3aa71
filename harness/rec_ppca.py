"""Calls of EquivariantPCA.ppca, with changed inputs that must change the result in a known way."""
import contextlib, io, random
import numpy as np
import dreimac
from obs import *

PPCA = dreimac.utils.EquivariantPCA.ppca
U = 10000


def unit(x):
    return x / np.linalg.norm(x, axis=1)[:, None]


def gauss(g, shape, real):
    x = g.standard_normal(shape)
    return x if real else x + 1j * g.standard_normal(shape)


def basis(g, d, real):
    return np.linalg.qr(gauss(g, (d, d), real))[0]


def data(c, g):
    d, N, m, real = c["d"], c["N"], c["m"], c["real"]
    k = c["data"]
    Q = basis(g, d, real)
    if k == "sub":
        return unit(gauss(g, (N, m + 1), real) * np.array([1.5 ** -i for i in range(m + 1)])) @ Q[:m + 1]
    if k == "weights":
        w = g.dirichlet([0.7] * d, N)
        ph = np.sign(g.standard_normal((N, d))) if real else np.exp(2j * np.pi * g.integers(0, 5, (N, d)) / 5)
        return np.sqrt(w) * ph
    if k == "few":
        N = max(2, min(N, d - 1))
        return unit(gauss(g, (N, d), real))
    if k == "peaked":
        return unit(gauss(g, (N, d), real) * np.array([1.0, 0.8, 0.62, 0.48, 0.36, 0.28][:d]) + 0.0) @ Q
    return unit(gauss(g, (N, d), real) * np.array([1.25 ** -i for i in range(d)])) @ Q


def outcome(x, c, **k):
    out = io.StringIO()
    before = x.copy()
    with contextlib.redirect_stdout(out):
        o = call(PPCA, x, c["m"], c["mode"], **k)
    o["silent"] = out.getvalue() == ""
    o["unchanged"] = bool(np.array_equal(before, x, equal_nan=True))
    if o["ok"]:
        o["Y"], o["V"] = np.asarray(o["val"]["X"]), np.asarray(o["val"]["variance"])
    return o


def vecs(Y):
    Y = np.asarray(Y)
    return [cfx(y.astype(complex), U) for y in Y] if Y.ndim == 2 else []


def run(c):
    g = np.random.default_rng(c["s"])
    r = random.Random(c["s"])
    x = data(c, g)
    if c["data"] == "nan":
        bad = r.sample(range(len(x)), r.randint(1, 2))
        x[bad] = np.nan
    N, d = x.shape
    m = c["m"]
    o = outcome(x.copy(), c)
    isnum = [bool(not np.isnan(p).any()) for p in x]
    good = [q for q in range(N) if isnum[q]]
    e = {"kind": "ppca", "d": d, "m": m, "mode": c["mode"], "data": c["data"], "real": c["real"], "sub": c["data"] == "sub" or len(good) <= m + 1 or m == d - 1,
         "ok": o["ok"], "exc": o["exc"] + " " + o["msg"], "X": [], "Y": [], "isnum": isnum, "shape": [], "want": [N, m + 1], "unchanged": o["unchanged"], "silent": o["silent"],
         "var": [], "varshape": [], "variants": []}
    if not o["ok"]:
        return [e]
    e["X"], e["Y"], e["shape"] = vecs(x), vecs(o["Y"]), shape(o["Y"])
    e["var"], e["varshape"] = fxs(o["V"], U), shape(o["V"])
    if c.get("steps"):
        return [dict(e, kind="steps", steps=witness(x, c))]
    var = c["mode"] == "one-by-one" and c["data"] != "few"

    def variant(name, y, pts, s, back=None, samevar=var, **k):
        v = outcome(y, c, **k)
        Y = v["Y"] if v["ok"] else []
        if v["ok"] and back is not None:
            Y = [Y[i] for i in back] if len(Y) > max(back) else []
        e["variants"].append({"name": name, "ok": v["ok"], "pts": [q + 1 for q in pts], "s": [cfx(complex(z), U) for z in s],
                              "Y": vecs(np.asarray(Y)) if v["ok"] and len(Y) == len(pts) else [], "var": fxs(v["V"], U) if v["ok"] else [], "samevar": samevar})
    units = [1, -1] if c["real"] else [np.exp(2j * np.pi * a / 24) for a in range(24)]
    s = [r.choice(units) for _ in range(N)]
    variant("unit scalars", x * np.array(s)[:, None], good, [s[q] for q in good], back=good)
    if not c["real"]:
        variant("signs", x * np.array([1 - 2 * (q % 2) for q in range(N)])[:, None], good, [1 - 2 * (q % 2) for q in good], back=good)
    else:
        s = [r.choice([1, 1j, -1j, -1]) for _ in range(N)]
        variant("complex units on real data", x * np.array(s)[:, None], good, [s[q] for q in good], back=good)
    variant("change of basis", x @ basis(g, d, c["real"]), good, [1] * len(good), back=good)
    p = list(range(N))
    r.shuffle(p)
    variant("order of the points", x[p], good, [1] * len(good), back=[p.index(q) for q in good])
    if len(good) < N:
        variant("points without a value", x[good], good, [1] * len(good), back=list(range(len(good))))
    else:
        y = np.full((N + 2, d), np.nan, dtype=x.dtype)
        y[1:-1] = x
        variant("points without a value", y, good, [1] * len(good), back=[q + 1 for q in good])
    variant("verbose", x.copy(), good, [1] * len(good), back=good, verbose=True)
    return [e]


def witness(x, c):
    """the steps of the reduction, computed here, for the specification to check"""
    d, k = x.shape[1], c["m"] + 1
    plan = [k] if c["mode"] == "direct" else list(range(d - 1, k - 1, -1))
    if c["mode"] == "exponential":
        plan, h = [], (d - k) // 2
        while h > 0:
            plan, h = plan + [k + h], h // 2
        plan.append(k)
    steps = []
    for keep in plan:
        lam, W = np.linalg.eigh(x.T @ np.conj(x))
        W, lam = W[:, ::-1], lam[::-1]
        # coordinates of x along the columns of W
        y = x @ np.conj(W)
        y = y[:, :keep]
        n = np.linalg.norm(y, axis=1)
        steps.append({"W": vecs(W.T), "lam": fxs(lam / len(x), U), "k": keep, "r": fxs(n, U), "G": vecs(y / n[:, None])})
        x = y / n[:, None]
    return steps
