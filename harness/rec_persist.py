"""What the coordinate objects report about persistence, with a cycle witnessing that each class is not trivial."""
import itertools, math, random
import numpy as np
import dreimac
from obs import *
import scen
import rec_hopf


def simplices(D, d, bound, closed):
    n = len(D)
    ok = (lambda x: x <= bound) if closed else (lambda x: x < bound)
    E = [(i, j) for i in range(n) for j in range(i + 1, n) if ok(D[i][j])]
    S = [[(i,) for i in range(n)], E]
    if d >= 2:
        S.append(scen.triangles(n, E))
    if d >= 3:
        S.append(rec_hopf.tetrahedra(n, E, S[2]))
    return S


def boundary(low, high):
    ix = {s: i for i, s in enumerate(low)}
    m = [[0] * len(high) for _ in low]
    for t, s in enumerate(high):
        for a in range(len(s)):
            m[ix[s[:a] + s[a + 1:]]][t] += (-1) ** a
    return m


def table(rows, p):
    val = {}
    for *s, v in rows:
        val[tuple(sorted(s))] = rec_hopf.perm_sign(s) * v % p
    return val


def witness(D, d, birth, mine, others, p):
    """a cycle at the birth on which the class is one and the others present then vanish"""
    S = simplices(D, d, birth, True)
    if not S[d]:
        return []
    Z = scen.kernel_mod(boundary(S[d - 1], S[d]), len(S[d]), p)
    vals = [table(rows, p) for rows in [mine] + others]
    M = [[sum(w * v.get(s, 0) for w, s in zip(z, S[d]) if w) % p for z in Z] + [-1 if v is vals[0] else 0] for v in vals]
    for c in scen.kernel_mod(M, len(Z) + 1, p):
        if c[-1]:
            z = [sum(a * z[i] for a, z in zip(c, Z)) % p for i in range(len(S[d]))]
            return [list(s) + [w] for w, s in zip(z, S[d]) if w]
    return []


def reduction(D, d, p):
    """columns of the reduced boundary matrix of the d-simplices: top, low, chain"""
    key = lambda s: (max((D[a][b] for a, b in itertools.combinations(s, 2)), default=0), s[::-1])
    S = sorted(itertools.combinations(range(len(D)), d + 1), key=key)
    pos = {s: i for i, s in enumerate(sorted(itertools.combinations(range(len(D)), d), key=key))}
    by, cols = {}, []
    for t in S:
        b = {pos[t[:a] + t[a + 1:]]: (-1) ** a % p for a in range(d + 1)}
        ch = {t: 1}
        while b and max(b) in by:
            B, C = by[max(b)]
            f = -b[max(b)] * pow(B[max(b)], -1, p) % p
            for x, y in ((b, B), (ch, C)):
                for k, v in y.items():
                    w = (x.get(k, 0) + f * v) % p
                    if w:
                        x[k] = w
                    else:
                        x.pop(k, None)
        if b:
            by[max(b)] = (b, ch)
        inv = {i: s for s, i in pos.items()} if not cols else inv
        cols.append({"top": list(t), "low": list(inv[max(b)]) if b else [], "chain": [list(s) + [w] for s, w in ch.items()]})
    return cols


def ranks(D):
    """distances replaced by whole numbers in the same order"""
    v = sorted({float(x) for row in D for x in row})
    return v


def run(c):
    r = random.Random(c["s"])
    Cls = getattr(dreimac, c["cls"])
    kw = {"maxdim": c["maxdim"]}
    if c["cls"] != "ProjectiveCoords":
        kw["prime"] = c["p"]
    sc = 2.0 ** c.get("u", 0)
    full = np.array(c["D"], dtype=float) * sc
    if c["form"] == "cloud":
        X, dm = full, False
        N = len(X)
        dist = np.sqrt(((X[:, None, :] - X[None, :, :]) ** 2).sum(2))
        nl = r.randint(N - 5, N)
    else:
        dm, dist, N = True, full, len(full)
        X = full
        nl = N - r.choice([0, 0, 1, 2])
        if c["form"] == "rect":
            X = np.hstack([full, full[:, [r.randrange(N) for _ in range(r.randint(1, 5))]]])
        if c["form"] == "rectsub":
            k = N - r.randint(1, 2)
            X, nl = full[:k], min(nl, k)
    e = {"kind": "persist", "cls": c["cls"], "p": c["p"], "maxdim": c["maxdim"], "form": c["form"], "exc": "", "dims": [], "n": 0, "D": []}
    o = call(Cls, X.copy(), nl, distance_matrix=dm, **kw)
    if not o["ok"]:
        return [dict(e, kind="fail", what="constructing: " + o["exc"] + " " + o["msg"])]
    ob = o["val"]
    lm = landmarks(ob, X[:, :len(X)] if dm else dist)
    D = dist[np.ix_(lm, lm)]
    # compare births and deaths with the distances by their order
    vals = ranks(D)

    def rank(x):
        x = float(x)
        if np.isinf(x):
            return INF
        i = int(np.argmin([abs(x - v) for v in vals]))
        return i if abs(x - vals[i]) <= 2e-6 * vals[-1] else NAN
    R = [[rank(D[i, j]) for j in range(len(lm))] for i in range(len(lm))]
    e.update(n=len(lm), D=R, nl=nl, distinct=len(set(lm)) == len(lm))
    dg = ob.dgms_ if hasattr(ob, "dgms_") else ob._dgms
    e["ndims"] = len(dg)
    for d in range(1, c["maxdim"] + 1):
        bars = np.asarray(dg[d])
        cl = []
        pick = range(len(bars)) if len(bars) <= 6 else sorted(r.sample(range(len(bars)), 6))
        for k in pick:
            g = call(ob.get_representative_cocycle, k, d)
            if not g["ok"]:
                cl.append({"idx": k, "ok": False, "birth": 0, "death": 0, "rows": [], "z": [], "same": False, "wellformed": False})
                continue
            b, dd, z = g["val"]
            rows = ints(z) if len(z) else []
            rb = rank(b)
            wellformed = all(len(x) == d + 2 and all(0 <= v < len(lm) for v in x[:-1]) and len(set(x[:-1])) == d + 1 for x in rows)
            cl.append({"idx": k, "ok": True, "birth": rb, "death": rank(dd), "rows": rows, "z": [], "same": bool(b == bars[k][0] and dd == bars[k][1]), "wellformed": wellformed})
        for x in cl:
            if x["ok"] and x["wellformed"] and x["birth"] != NAN and d <= 2:
                others = [y["rows"] for y in cl if y["idx"] != x["idx"] and y["wellformed"] and y["birth"] <= x["birth"] < y["death"]]
                x["z"] = witness(R, d, x["birth"], x["rows"], others, c["p"])
        apart = all(b - a > 1e-5 * vals[-1] for a, b in zip(vals, vals[1:]))
        cols = reduction(R, d + 1, c["p"]) if apart and math.comb(len(lm), d + 2) <= c.get("certify", 560) else []
        e["dims"].append({"cols": cols, "bars": [[rank(b), rank(dd)] for b, dd in bars] if cols else [], "dim": d, "pers": fxs((bars[:, 1] - bars[:, 0]) / sc, 1000) if len(bars) else [], "count": len(bars), "classes": cl})
    return [e]
