"""Runs of the projective and lens map utilities."""
import numpy as np
from dreimac import ProjectiveMapUtils as P, LensMapUtils as L
from obs import *

TURN = 960000


def unit(v):
    v = np.array(v, dtype=float)
    return v / np.linalg.norm(v)


def exc(o):
    return o["exc"] + " " + o["msg"]


def run(c):
    k = c["kind"]
    if k == "hopf":
        Z = np.array([unit(z) for z in c["Z"]])
        o = call(P.hopf_map, Z[:, ::2] + 1j * Z[:, 1::2])
        return [{"kind": k, "Z": c["Z"], "ok": o["ok"], "exc": exc(o), "out": fxs(o["val"], 10000) if o["ok"] else []}]
    if k == "rot":
        b = np.array(c["b"], dtype=float)
        if c["default"]:
            b = np.eye(len(b))[-1]
        w = np.array(c["w"], dtype=float)
        tiny = 10.0 ** -c["e"]
        a = {"any": np.array(c["a"], dtype=float), "same": 2 * b, "opposite": -3 * b, "near": b + tiny * w, "nearopposite": -b + tiny * w,
             "orthogonal": w * (b @ b) - b * (w @ b), "axis": np.eye(len(b))[0]}[c["how"]]
        if not a.any():
            a = b.copy()
        args = (a,) if c["default"] else (a, b)
        if c["shape"] == 1:
            args = (a[None, :],) + args[1:]
        elif c["shape"] == 2:
            args = (a[:, None],) + args[1:]
        o = call(P.rotmat, *args)
        return [{"kind": k, "how": c["how"], "a": fxs(unit(a), 10000), "b": fxs(unit(b), 10000), "ok": o["ok"] and o["val"] is not None, "exc": exc(o),
                 "R": fxs(o["val"], 10000) if o["ok"] and o["val"] is not None else []}]
    rng = np.random.default_rng(c.get("s", 0))
    if k in ("stereo", "hemi"):
        d, n = c["d"], c["n"]
        X = rng.integers(-4, 5, (n, d)).astype(float)
        X[~X.any(axis=1)] = 1
        if c["s"] % 2:
            X = rng.standard_normal((n, d)) * (np.array([1.0] * (d - 1) + [0.3]) if c["s"] % 4 == 1 else 1)
        X /= np.linalg.norm(X, axis=1)[:, None]
        w = c["u"] if k == "stereo" else c["c"]
        pole = {None: None, "any": unit(rng.standard_normal(d)), "pole": np.eye(d)[-1], "south": -np.eye(d)[-1], "point": X[0].copy(), "antipoint": -X[0]}[w]
        if k == "stereo":
            args = () if pole is None else (pole,)
            o = call(P.get_stereo_proj_codim1, X.copy(), *args)
            sg = rng.choice([-1, 1], n)
            g = call(P.get_stereo_proj_codim1, X * sg[:, None], *args)
            trial = [fxs(unit(rng.standard_normal(d)), 10000) for _ in range(12)] + [fxs(np.eye(d)[i], 10000) for i in range(d)]
            _, U = np.linalg.eigh(X.T @ X)
            trial.append(fxs(U[:, 0], 10000))
            return [{"kind": k, "X": fxs(X, 10000), "u": [] if pole is None else fxs(pole, 10000), "ok": o["ok"] and g["ok"], "exc": exc(o), "trial": trial,
                     "out": fxs(o["val"], 10000) if o["ok"] else [], "neg": fxs(g["val"], 10000) if g["ok"] else []}]
        args = () if pole is None else (pole,)
        o = call(P.stereographic_projection_hemispheres, X.copy(), *args)
        return [{"kind": k, "X": fxs(X, 10000), "c": fxs(np.eye(d)[-1] if pole is None else pole, 10000), "ok": o["ok"], "exc": exc(o),
                 "out": fxs(o["val"], 10000) if o["ok"] else []}]
    if k == "pole":
        x = np.array(c["x"]) if c["int"] else np.array(c["x"], dtype=float) / c["over"] * (1 + c.get("off", 0))
        o = call(P.circle_to_3dnorthpole, x.copy())
        n = float(np.linalg.norm(x))
        y, u = o["val"] if o["ok"] else ([], [])
        return [{"kind": k, "x": fxs(x, 10000), "n2": fx(n * n, 10000), "dir": fxs(x / n if n else x, 10000), "ok": o["ok"], "exc": exc(o),
                 "y": fxs(y, 10000) if o["ok"] else [], "u": fxs(u, 10000) if o["ok"] else []}]
    q = c["q"]
    X = []
    for a, b, u, v, w, j in c["pts"]:
        om = np.exp(2j * np.pi * j / q)
        X.append([om * (v / w) * np.exp(2j * np.pi * a / TURN), om * (u / w) * np.exp(2j * np.pi * b / TURN)])
    o = call(L.lens_3D_to_disk_3D, np.array(X), q)
    out = np.asarray(o["val"]) if o["ok"] else np.zeros((0, 3))
    e = {"kind": k, "q": q, "pts": [[a, b, fx(u / w, 10000), fx(v / w, 10000)] for a, b, u, v, w, j in c["pts"]], "ok": o["ok"], "exc": exc(o), "out": fxs(out, 10000), "around": []}
    if out.ndim == 2 and out.shape[1] == 3:
        e["around"] = turns(np.arctan2(out[:, 1], out[:, 0]), TURN)
    return [e]
