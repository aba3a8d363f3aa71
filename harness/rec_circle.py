"""Runs of the circle map utilities."""
import numpy as np
from dreimac import CircleMapUtils as C
from obs import *

TURN = 960000


def rad(f):
    return np.array(f, dtype=float) * (2 * np.pi / TURN)


def units(f):
    return turns(f, TURN)


def run(c):
    k = c["kind"]
    if k == "ops":
        cur = [rad(f) for f in c["first"]]
        e = {"kind": "ops", "first": c["first"], "ops": c["ops"], "maps": [], "touched": [], "ok": True, "exc": ""}
        touched = [False, False]
        for op in c["ops"]:
            if op["op"] == "offset":
                o = call(C.offset, cur[op["k"] - 1], op["s"] / TURN)
                if o["ok"]:
                    cur[op["k"] - 1] = o["val"]
                    touched[op["k"] - 1] = True
            else:
                o = call(C.linear_combination, np.array(cur), np.array(op["mat"]))
                if o["ok"]:
                    cur = list(o["val"])
                    touched = [True] * len(cur)
            if not o["ok"]:
                e["ok"], e["exc"] = False, o["exc"] + " " + o["msg"]
                break
            e["maps"].append([units(f) for f in cur])
            e["touched"].append(list(touched))
        return [e]
    if k == "comb":
        maps, mat = rad(c["maps"]), np.array(c["mat"])
        args = [(maps, mat), (list(maps), c["mat"]), (maps.tolist(), mat), (maps, mat)][c["form"]]
        o = call(C.linear_combination, *args)
        e = {"kind": "comb", "maps": c["maps"], "mat": c["mat"], "ok": o["ok"], "exc": o["exc"] + " " + o["msg"], "out": [], "vectorshape": True}
        if o["ok"]:
            e["out"] = [units(f) for f in np.atleast_2d(o["val"])]
            if len(c["mat"]) == 1:
                v = call(C.linear_combination, args[0], args[1][0])
                e["vectorshape"] = bool(v["ok"] and shape(v["val"]) == [len(c["maps"][0])])
                if e["vectorshape"]:
                    e["out"] = [units(v["val"])]
        return [e]
    if k == "center":
        o = call(C.center, rad(c["map"]))
        return [{"kind": k, "map": c["map"], "ok": o["ok"], "exc": o["exc"] + " " + o["msg"], "out": units(o["val"]) if o["ok"] else []}]
    if k == "levels":
        n, s = c["n"], c["smooth"] / 1000
        a = {"n_levelsets": n, "smoothing": s}
        if c["given"] == "default" and n > 0:
            # the documented defaults
            if c["smooth"] == 250:
                del a["smoothing"]
            if n == 4:
                del a["n_levelsets"]
        o = call(C.levelset_coloring, rad(c["map"]), **a)
        e = {"kind": k, "map": c["map"], "n": n, "smooth": c["smooth"], "allowed": n > 0, "ok": o["ok"], "exc": o["exc"] + " " + o["msg"], "out": [], "logit": []}
        if o["ok"]:
            v = np.asarray(o["val"], dtype=float)
            e["out"] = fxs(v, 1000000)
            with np.errstate(all="ignore"):
                e["logit"] = fxs(np.log(v) - np.log1p(-v), 10000)
        return [e]
    f = rad(c["map"])
    shp = {0: (len(f),), 1: (len(f), 1), 2: (len(f),)}[c["shape"]]
    o = call(C.to_sinebow, f.reshape(shp))
    e = {"kind": "bow", "map": c["map"], "ok": o["ok"], "exc": o["exc"] + " " + o["msg"], "shape": [], "want": list(shp) + [3], "rgb": []}
    if o["ok"]:
        e["shape"] = shape(o["val"])
        if e["shape"] == e["want"]:
            e["rgb"] = fxs(np.asarray(o["val"]).reshape(len(f), 3), 10000)
    return [e]
