"""Runs of the generators of example data."""
import hashlib
import numpy as np
from dreimac import GeometryExamples as G
from obs import *

TURN = 960000


def digest(v):
    vs = v if isinstance(v, tuple) else (v,)
    return [hashlib.sha1(np.ascontiguousarray(x).tobytes()).hexdigest()[:12] + str(np.shape(x)) for x in vs]


def dig(o):
    return digest(o["val"]) if o["ok"] else ["failed " + o["exc"]]


def args(a, names):
    return {k: a[j] for j, k in names.items() if a[j] is not None}


def azimuth(X):
    return turns(np.mod(np.arctan2(X[:, 1], X[:, 0]), 2 * np.pi), TURN)


def run(c):
    k, a = c["kind"], c["args"]
    f, kw = {
        "torus": (G.torus_3d, {"n": "n_samples", "R": "R", "r": "r", "seed": "seed"}),
        "klein": (G.klein_bottle_4d, {"n": "n_samples", "R": "R", "r": "r", "seed": "seed"}),
        "rp2": (G.rp2_metric, {"n": "n_samples", "seed": "seed"}),
        "trefoil": (G.trefoil, {"n": "n_samples", "w": "horizontal_width", "noisy": "noisy"}),
        "sphere": (G.sphere, {"n": "n_samples"}),
        "noisy": (G.noisy_circle, {"n": "n_samples", "noise": "noise_size", "seed": "seed"}),
        "bullseye": (G.bullseye, {}), "three": (G.three_circles, {}), "genus2": (G.genus_two_surface, {}),
        "lines": (G.line_patches, {"dim": "dim", "angles": "n_angles", "offsets": "n_offsets", "sigma": "sigma"}),
        "dots": (G.moving_dot, {"s": "sqrt_num_images", "sigma": "sigma", "dim": "dim"}),
        "moore": (G.moore_space_distance_matrix, {"n": "rough_n_points", "q": "prime"}),
    }[k]
    kwargs = args(a, kw)
    np.random.seed(123)
    o = call(f, **kwargs)
    np.random.rand(7)
    again = call(f, **kwargs)
    e = {"kind": k, "ok": o["ok"], "exc": o["exc"] + " " + o["msg"], "first": dig(o), "again": dig(again)}
    # the documented default seed, and another seed
    e["default"], e["other"], e["unseeded"] = [], [], []
    if "seed" in a:
        if a["seed"] is None:
            e["default"] = dig(call(f, **dict(kwargs, seed=0 if k == "noisy" else a["n"])))
        e["other"] = dig(call(f, **dict(kwargs, seed=a["other"])))
        if a["seed"] == 0 and k != "noisy":
            e["unseeded"] = dig(call(f, **{j: v for j, v in kwargs.items() if j != "seed"}))
    if not o["ok"]:
        return [e]
    v = o["val"]
    if k in ("torus", "klein", "genus2", "bullseye", "three", "trefoil", "sphere", "noisy"):
        e["shape"] = shape(v)
        X = np.asarray(v)
        if X.ndim != 2 or not np.all(np.isfinite(X)):
            e["n"] = -1
            return [e]
        e["n"] = a.get("n") or 2500
        if k == "genus2":
            X = X[::37]
        e["X"] = fxs(X, 1000)
        e["rho"] = fxs(np.sqrt(X[:, 0] ** 2 + X[:, 1] ** 2), 1000)
        e["az"] = azimuth(X)
        e["second"] = []
        if k in ("torus", "klein"):
            e["R"], e["r"] = fx(a["R"], 1000), fx(a["r"], 1000)
        if k == "trefoil":
            e["w"], e["noisy"] = fx(6 if a["w"] is None else a["w"], 1000), a["noisy"] is not False
        if k == "noisy":
            e["noise"] = fx(0.2 if a["noise"] is None else a["noise"], 1000)
        return [e]
    if k == "rp2":
        X, D = v
        e.update(n=a["n"], shape=shape(X), dshape=shape(D), X=fxs(X, 10000), D=turns(D, TURN))
        return [e]
    if k == "moore":
        D, X = v
        e.update(shape=shape(X), dshape=shape(D), q=a["q"] or 3, rough=a["n"])
        if np.shape(X)[0] > 60:
            # too many to look at all of them
            pick = np.random.default_rng(5).choice(np.shape(X)[0], 25, replace=False)
            e["symmetric"] = bool(np.array_equal(D, D.T) and np.all(D >= 0) and np.all(np.diag(D) == 0))
            D, X = D[np.ix_(pick, pick)], X[pick]
        else:
            e["symmetric"] = True
        e.update(n=len(X), X=fxs(X, 10000), D=fxs(D, 10000), az=azimuth(X))
        return [e]
    P = np.asarray(v)
    e["shape"] = shape(P)
    if P.ndim != 2:
        return [e]
    sigma = 3 if a["sigma"] is None else a["sigma"]
    dim = 10 if a["dim"] is None else a["dim"]
    # squared distances from the line (dot) that the blurred values show
    with np.errstate(all="ignore"):
        W = -np.log(P) * sigma**2 * (1 if k == "lines" else 2)
        W[P < 1e-250] = np.inf
    e.update(dim=dim, W=fxs(W, 10000 if k == "lines" else 1000))
    if k == "lines":
        e.update(angles=a["angles"], offsets=a["offsets"], blind=fx(500 * sigma**2, 10000))
    else:
        e.update(s=a["s"])
    return [e]
