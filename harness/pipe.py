"""Common part of the recorders of the coordinate pipelines: builds data with probe columns around landmarks."""
import random
import zlib
import numpy as np
import dreimac
from dreimac import PartUnity
from obs import *
import scen

UNIT = 100000          # per turn
STEPS = 8


def custom_bump(ds, r):
    # a user supplied bump function: positive inside the ball, works on flat arrays of distances
    return np.minimum(1.0, (r - ds) / r) ** 3 + 0.25 * (r - ds) / r


def flat_bump(ds, r):
    return np.ones_like(np.asarray(ds, dtype=float))


BUMPS = {"linear": PartUnity.linear, "quadratic": PartUnity.quadratic, "exp": PartUnity.exp, "custom": custom_bump, "flat": flat_bump}


def bump_table(name, r):
    """bump function at the distances 0..r-1, as whole numbers, for the ones that are not polynomial"""
    if name in ("linear", "quadratic"):
        return []
    d = np.arange(int(r), dtype=float)
    if name == "exp":
        v = np.exp(-float(r) ** 2 / (float(r) ** 2 - d ** 2)) * np.e
    elif name == "custom":
        v = np.minimum(1.0, (r - d) / r) ** 3 + 0.25 * (r - d) / r
    else:
        v = np.ones_like(d)
    return [int(round(x * 200000)) for x in v]


def tie_break(name):
    return name


def choose_classes(dgm, rule, r, k):
    n = len(dgm)
    if n == 0:
        return []
    if rule == "first":
        return [0]
    if rule == "any":
        return [r.randrange(n)]
    idx = list(range(n))
    if rule == "top":
        return idx[:k]
    r.shuffle(idx)
    return idx[:k]


def scale(births, deaths, sr, perc8):
    """filtration scale as whole number, from whole birth and death times (multiples of 64)"""
    start = max(births) * (2 if sr else 1)
    end = min(deaths)
    return ((8 - perc8) * start + perc8 * end) // 8, start, end


def probes(r, Dl, thr, count, edges=True, steps=STEPS):
    """data columns (distances to the landmarks) probing the cover of radius thr/2; returns columns and edge paths"""
    n = len(Dl)
    rad = thr // 2
    cols, paths = [], []
    far = lambda: rad + r.choice([0, 0, 1, 8, rad])

    def fresh():
        return [far() for _ in range(n)]
    E = scen.edges_below(Dl, thr, 1)
    for (j, k) in (E if edges else []):
        # from inside ball j only, through the overlap, to inside ball k only
        T = Dl[j][k]
        room = min(2 * rad - T, rad)
        ids = []
        for s in range(steps + 1):
            c = fresh()
            b = (room * s) // steps            # rad - d_k
            a = room - b                       # rad - d_j
            if s == 0:
                c[j], c[k] = 0, rad
            elif s == steps:
                c[j], c[k] = rad, 0
            else:
                c[j], c[k] = rad - a, rad - b
            ids.append(len(cols))
            cols.append(c)
        paths.append([j, k] + ids)
    # isolated landmarks still need a private point
    for j in range(n):
        c = fresh()
        c[j] = 0
        cols.append(c)
    nb = {i: set() for i in range(n)}
    for a, b in E:
        nb[a].add(b)
        nb[b].add(a)
    for _ in range(count):
        # random point of the cover: a clique, with admissible distances
        c = fresh()
        kind = r.random()
        if kind < 0.1:
            pass                               # uncovered
        else:
            j = r.randrange(n)
            clique, cand = [j], set(nb[j])
            want = r.randint(1, 6)
            while cand and len(clique) < want:
                v = r.choice(sorted(cand))
                clique.append(v)
                cand &= nb[v]
            c[j] = r.randint(0, rad - 1) if kind < 0.8 else rad - 1
            for v in clique[1:]:
                lo = max([0] + [Dl[v][u] - c[u] for u in range(n) if c[u] < rad])
                if lo < rad:
                    c[v] = r.randint(lo, rad - 1) if r.random() < 0.8 else lo
            # keep the point admissible with respect to everything it is close to
        cols.append(c)
    return cols, paths


def unit_of(case):
    """what one unit of the specification is in the data: the same case is also run in very small and very large units"""
    u = case.get("u", 0)
    return 2 ** abs(u) if case.get("dtype") == "int" else 2.0 ** u


FAR = 2000             # stands for no distance at all: between islands


def given(X, c, sc):
    """the data as the code gets it"""
    if not c.get("apart"):
        return X
    return np.where(X >= FAR * 64 * sc, np.inf, X).astype(X.dtype)


def build(case, cls, homdim, extra_kw):
    """construct the object twice: once to learn classes, once with the probe columns"""
    r = random.Random(case["s"])
    D = np.array(case["D"], dtype=int) * 64
    N = len(D)
    nl = case.get("nl") or N
    Cls = getattr(dreimac, cls)
    kw = dict(extra_kw)
    if cls != "ProjectiveCoords":
        kw["prime"] = case["p"]
    dt = {"float": float, "int": int, "float32": np.float32}[case.get("dtype", "float")]
    sc = unit_of(case)
    o = call(Cls, given(D.astype(float) * sc, case, sc), nl, distance_matrix=True, **kw)
    if not o["ok"]:
        return None, {"ok": False, "exc": "constructing: " + o["exc"] + " " + o["msg"]}
    ob0 = o["val"]
    dgm = np.asarray(ob0._dgms[homdim] if hasattr(ob0, "_dgms") else ob0.dgms_[homdim]) / sc
    return (r, D, N, nl, Cls, kw, dt, ob0, dgm, sc), None


_bump = ("partunity_fn", dreimac.PartUnity.linear)
_range, _check, _mode = ("standard_range", True), ("check_cocycle_condition", True), ("projective_dim_red_mode", "exponential")
# the documented parameters, in their order, with what they are when left out
SIGNATURE = {
    "CircularCoords": [("perc", 0.5), ("cocycle_idx", 0), _bump, _range, _check],
    "ToroidalCoords": [("perc", 0.5), ("cocycle_idxs", [0]), _bump, _range, _check],
    "ProjectiveCoords": [("perc", 0.9), ("cocycle_idx", 0), ("proj_dim", 2), _bump, _range, _mode],
    "LensCoords": [("perc", 0.9), ("cocycle_idx", 0), ("complex_dim", 2), _bump, _range, _mode],
    "ComplexProjectiveCoords": [("perc", 0.5), ("cocycle_idx", 0), ("proj_dim", 1), _bump, _range, _check, _mode],
}


def request(ob, cls, arg, style):
    """a request as a user may write it: 0 everything by name, 1 without what has its documented value anyway, 2 by position"""
    sig = SIGNATURE[cls]
    assert set(arg) <= {n for n, _ in sig}
    if style == 1:
        return call(ob.get_coordinates, **{n: arg[n] for n, d in sig if n in arg and (arg[n] is not d and arg[n] != d)})
    if style == 2:
        last = max([i for i, (n, _) in enumerate(sig) if n in arg], default=-1)
        return call(ob.get_coordinates, *[arg.get(n, d) for n, d in sig[:last + 1]])
    return call(ob.get_coordinates, **arg)


def style(c):
    return zlib.crc32(("%s %s" % (c["id"], c["s"])).encode()) % 3
