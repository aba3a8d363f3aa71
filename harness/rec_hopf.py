"""Runs of ComplexProjectiveCoords on landmark metrics with probe points."""
import contextlib, io, random, re
import numpy as np
import dreimac
from obs import *
import scen
from pipe import *
from rec_lens import with_probes, sample_gram, quiet, PPCA


def perm_sign(s):
    return -1 if sum(s[a] > s[b] for a in range(len(s)) for b in range(a + 1, len(s))) % 2 else 1


def as_table(rows, p):
    val = {}
    for i, j, k, v in rows:
        t = (i, j, k)
        val[tuple(sorted(t))] = perm_sign(t) * v % p
    return val


def other_representative(r, rows, T, E, p):
    """a cohomologous cocycle, modulo p, times a unit"""
    a = r.choice([1, 1, p - 1, 2 % p or 1])
    w = {e: r.choice([0, 0, 0, 1, p - 1]) for e in E}
    val = {t: a * v % p for t, v in as_table(rows, p).items()}
    for (i, j, k) in T:
        val[(i, j, k)] = (val.get((i, j, k), 0) + w[(i, j)] + w[(j, k)] - w[(i, k)]) % p
    out = []
    for t, v in sorted(val.items()):
        if v:
            s = list(t)
            r.shuffle(s)
            out.append(s + [perm_sign(s) * v % p])
    r.shuffle(out)
    return out


def mixing(Cls, mixed, calls):
    class Mixed(Cls):
        def get_representative_cocycle(self, cohomology_class, homological_dimension):
            if homological_dimension == 2 and cohomology_class in mixed:
                calls.append(cohomology_class)
                b, d, rows = mixed[cohomology_class]
                return b, d, np.array(rows, dtype=int).reshape(-1, 4)
            return Cls.get_representative_cocycle(self, cohomology_class, homological_dimension)
    Mixed.__name__ = Cls.__name__
    return Mixed


def tetrahedra(n, E, T):
    S = set(E)
    return [(a, b, c, d) for (a, b, c) in T for d in range(c + 1, n) if (a, d) in S and (b, d) in S and (c, d) in S]


def boundary2(E, T):
    ix = {e: i for i, e in enumerate(E)}
    m = [[0] * len(T) for _ in E]
    for t, (a, b, c) in enumerate(T):
        m[ix[(a, b)]][t] += 1
        m[ix[(b, c)]][t] += 1
        m[ix[(a, c)]][t] -= 1
    return m


def boundary3(T, Q):
    ix = {t: i for i, t in enumerate(T)}
    m = [[0] * len(Q) for _ in T]
    for q, (a, b, c, d) in enumerate(Q):
        m[ix[(b, c, d)]][q] += 1
        m[ix[(a, c, d)]][q] -= 1
        m[ix[(a, b, d)]][q] += 1
        m[ix[(a, b, c)]][q] -= 1
    return m


def chains(r, E, T, p, limit):
    """closed chains of triangles, modulo p and over the integers"""
    if not T:
        return [], []
    m = boundary2(E, T)
    sym = lambda x, q: x - q if 2 * x > q else x
    over_p = [[[a, b, c, sym(w, p)] for w, (a, b, c) in zip(z, T) if w] for z in scen.kernel_mod(m, len(T), p)]
    q = 32003
    over_z = [[[a, b, c, sym(w, q)] for w, (a, b, c) in zip(z, T) if w] for z in scen.kernel_mod(m, len(T), q)]
    over_z = [z for z in over_z if max(abs(x[3]) for x in z) <= 40]
    # the ones that are not boundaries of tetrahedra are what matters: prefer long ones, keep some of each
    pick = lambda zs: sorted(zs, key=lambda z: -len(z))[:limit // 2] + r.sample(zs, min(limit // 2, len(zs)))
    uniq = lambda zs: [list(map(list, z)) for z in sorted({tuple(map(tuple, z)) for z in zs})]
    return uniq(pick(over_p)), uniq(pick(over_z))


def obstruction(n, E, T, rows, p):
    """a chain of tetrahedra closed modulo p, on which the coboundary of the lift, divided by p, is not 0 modulo p"""
    Q = tetrahedra(n, E, T)
    if not Q:
        return []
    val = {}
    for i, j, k, v in rows:
        v = v - p if 2 * v > p - 1 else v
        val[tuple(sorted((i, j, k)))] = perm_sign((i, j, k)) * v
    g = lambda *t: val.get(t, 0)
    for z in scen.kernel_mod(boundary3(T, Q), len(Q), p):
        s = sum(w * ((g(b, c, d) - g(a, c, d) + g(a, b, d) - g(a, b, c)) // p) for w, (a, b, c, d) in zip(z, Q))
        if s % p:
            return [[a, b, c, d, w] for w, (a, b, c, d) in zip(z, Q) if w]
    return []


def weight(bump, d, rad):
    return float(np.atleast_1d(BUMPS[bump](np.array([float(d)]), float(rad)))[0])


def triangle_probes(r, Dl, thr, T, bump):
    """for each triangle i<j<k, a path of points along which the weight of k grows from zero"""
    n, rad = len(Dl), thr // 2
    cols, paths = [], []
    for (i, j, k) in T:
        D = max(Dl[i][j], Dl[i][k], Dl[j][k])
        dl = max(1, (2 * rad - D) // 4)
        a = rad - dl
        w0 = weight(bump, a, rad)
        ids, last = [], 0.0
        lo = max(0, D - a)
        prev = None
        for x in range(rad - 1, lo - 1, -1):
            w = weight(bump, x, rad)
            ph = w / (w + 2 * w0)
            nxt = weight(bump, x - 1, rad) if x > lo else None
            if ph >= last + 0.07 or nxt is None or nxt / (nxt + 2 * w0) > last + 0.13:
                c = [rad + r.randint(0, 9) for _ in range(n)]
                c[i], c[j], c[k] = a, a, x
                ids.append(len(cols))
                cols.append(c)
                last = ph
                if last > 0.6 or len(ids) >= 9:
                    break
        paths.append([i, j, k] + ids)
    return cols, paths


def run(c):
    st, err = quiet(build, c, c["cls"], 2, {"verbose": True} if c.get("verbose") else {})
    base = {"kind": "hopf", "p": c["p"], "sr": c["sr"], "perc8": c["perc8"], "bump": c["bump"], "check": c["check"], "mode": c["mode"]}
    if err:
        return [dict(base, kind="fail", what=err["exc"])]
    r, D, N, nl, Cls, kw, dt, ob0, dgm0, sc = st
    idxs = choose_classes(dgm0, "any", r, 1)
    if not idxs:
        return []
    k = idxs[0]
    b, d = ints(dgm0[k])
    if d >= INF:
        return []
    thr, start, end = scale([b], [d], c["sr"], c["perc8"])
    lm0 = landmarks(ob0, D)
    n = len(lm0)
    Dl0 = [[int(D[x][y]) for y in lm0] for x in lm0]
    feas = start <= end and thr > 0
    cols, paths = [], []
    E = scen.edges_below(Dl0, thr, 1) if feas else []
    T = scen.triangles(n, E)
    if feas:
        cols, _ = probes(r, Dl0, thr, c.get("probes", 30), edges=False)
        rad = thr // 2
        for (i, j) in E:
            room = min(2 * rad - Dl0[i][j], rad)
            col = [rad + r.randint(0, 9) for _ in range(n)]
            a = max(1, room // 2)
            col[i], col[j] = rad - a, rad - max(1, room - a)
            cols.append(col)
        tc, tp = triangle_probes(r, Dl0, thr, T, c["bump"])
        paths = [p[:3] + [N + len(cols) + q for q in p[3:]] for p in tp]
        cols += tc
    X = (with_probes(D, lm0, cols, dt) * sc).astype(dt)
    plan = X
    X = given(X, c, sc)
    before = X.copy()
    arg = {"perc": c["perc8"] / 8.0, "standard_range": c["sr"], "partunity_fn": BUMPS[c["bump"]], "cocycle_idx": k, "check_cocycle_condition": c["check"]}
    with contextlib.redirect_stdout(io.StringIO()):
        ob = Cls(X, nl, distance_matrix=True, **kw)
        bb, dd, z = ob.get_representative_cocycle(k, 2)
        plain = rows = ints(z) if len(z) else []
        calls = []
        if c.get("mix"):
            Ed = scen.edges_below(Dl0, max(thr, d), 1)
            rows = other_representative(r, plain, scen.triangles(n, Ed), Ed, c["p"])
            o2 = call(mixing(Cls, {k: (float(bb), float(dd), rows)}, calls), X, nl, distance_matrix=True, **kw)
            if o2["ok"]:
                ob = o2["val"]
        full = request(ob, "ComplexProjectiveCoords", dict(arg, proj_dim=n - 1, projective_dim_red_mode=c["mode"]), style(c))
        m = min(c["reddim"], n - 1)
        red = request(ob, "ComplexProjectiveCoords", dict(arg, **({} if c["default"] else {"proj_dim": m, "projective_dim_red_mode": c["redmode"]})), (style(c) + 1) % 3)
        if c["default"]:
            m = 1
    if c.get("mix") and not calls:
        rows = plain
    lm = landmarks(ob, D)
    e = dict(base, n=n, D=[[int(D[x][y]) for y in lm] for x in lm], birth=ints(bb / sc), death=ints(dd / sc), rows=rows, idx=k,
             ok=full["ok"], exc=full["exc"] + " " + full["msg"], okred=red["ok"], excred=red["exc"] + " " + red["msg"],
             named=[int(x) for x in re.findall(r"\d+", full["msg"])], thr=thr, cols=[], mod2=[], arg=[], table=[], paths=[], eta=[], chainsp=[], chainsz=[], obstruction=[],
             unchanged=bool((X == before).all()), warns=len(full["warn"]), same=lm == lm0,
             shape=[], want=[int(X.shape[1]), n], redshape=[], redwant=[int(X.shape[1]), m + 1], rednorm=[], g1=[], g2=[])
    if not full["ok"] or not red["ok"]:
        if feas and not full["ok"]:
            E1 = scen.edges_below(e["D"], thr, 1)
            e["obstruction"] = obstruction(n, E1, scen.triangles(n, E1), rows, c["p"])
        return [e]
    v, w = np.asarray(full["val"]), np.asarray(red["val"])
    e["shape"], e["redshape"] = shape(v), shape(w)
    if e["shape"] == e["want"]:
        e["cols"] = [[int(x) for x in plan[lm, q] / sc] for q in range(X.shape[1])]
        e["mod2"] = fxs(np.abs(v) ** 2, 10000)
        e["arg"] = turns(np.angle(v), 100000)
        for q in range(len(v)):
            if np.isnan(v[q]).any():
                e["arg"][q] = [NAN] * n
        e["table"] = bump_table(c["bump"], thr // 2)
        if e["same"]:
            e["paths"] = paths
            e["eta"] = [[i, j, k2, measure(v, plan / sc, lm, (i, j, k2), ids, c["bump"], thr // 2)] for (i, j, k2, *ids) in paths]
            e["chainsp"], e["chainsz"] = chains(r, E, T, c["p"], 16)
    if e["redshape"] == e["redwant"] and e["shape"] == e["want"]:
        e["rednorm"] = fxs(np.sum(np.abs(w) ** 2, axis=1), 10000)
        e["g1"], e["g2"] = sample_gram(w, v, m, "exponential" if c["default"] else c["redmode"], r)
    return [e]


def measure(v, X, lm, t, ids, bump, rad):
    """curvature of a triangle: slope of the phase of entry i against entry j in the weight of k"""
    i, j, k = t
    xs, ys = [], []
    for q in ids:
        ws = [weight(bump, X[lm[a], q], rad) for a in t]
        xs.append(ws[2] / sum(ws))
        ys.append(float(np.angle(v[q, i] * np.conj(v[q, j])) / (2 * np.pi)))
    if len(xs) < 2 or any(np.isnan(ys)):
        return 0
    ys = np.unwrap(np.array(ys) * 2 * np.pi) / (2 * np.pi)
    return fx(np.polyfit(xs, ys, 1)[0], 100000)
