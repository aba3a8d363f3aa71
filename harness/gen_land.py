"""Cases for C01: landmark selection."""
import random


def cloud(r, n, d, span, dup):
    X = [[r.randint(0, span) for _ in range(d)] for _ in range(n)]
    if not dup:
        seen, Y = set(), []
        while len(Y) < n:
            p = tuple(r.randint(0, span) for _ in range(d))
            if p not in seen:
                seen.add(p)
                Y.append(list(p))
        X = Y
    return X


def cases(prop, tier, seed):
    m = 6 if tier == "thorough" else 1
    r = random.Random(2000 + seed)
    cs = []
    for i in range(70 * m):
        n = r.randint(2, 13)
        d = r.choice([1, 2, 2, 3])
        X = cloud(r, n, d, r.choice([4, 9, 50]) if d > 1 else 60, i % 4 == 0)
        cs.append({"id": "pc-%d" % i, "do": "pc", "X": X, "M": r.choice([1, n, r.randint(1, n), r.randint(1, n)]),
                   "fn": r.choice(["euclid", "euclid", "manhattan", "asymmetric", "projarc", "discrete"])})
    for i in range(60 * m):
        n = r.randint(2, 13)
        how = r.choice(["12", "ints", "cloud", "dup"])
        cs.append({"id": "dm-%d" % i, "do": "dm", "n": n, "how": how, "s": r.randrange(10**9),
                   "M": r.choice([1, n, r.randint(1, n), r.randint(1, n)])})
    for i in range(70 * m):
        n = r.randint(3, 14)
        d = r.choice([1, 1, 2, 2, 3])
        X = cloud(r, n, d, r.choice([12, 40, 200]) if d > 1 else 300, i % 5 == 0)
        cs.append({"id": "geo-%d" % i, "do": "geo", "X": X, "M": r.choice([1, n, r.randint(1, n), r.randint(2, n)]),
                   "k": r.choice([2, 2, 3, 3, 4, min(5, n), n, 1]) if n > 3 else 2})
    for i in range(20 * m):
        b = cloud(r, r.randint(2, 4), r.choice([1, 2]), 30, False)
        X = b + [list(r.choice(b)) for _ in range(r.randint(2, 6))]
        r.shuffle(X)
        n = len(X)
        cs.append({"id": "geodup-%d" % i, "do": "geo", "X": X, "M": r.randint(len(b), n), "k": n if i % 3 else n - 1})
    for i in range(60 * m):
        n = r.randint(5, 16)
        how = ["cloud", "square", "rect", "cloud", "square", "rect", "dupcloud", "dupsquare", "duprect"][i % 9]
        cs.append({"id": "obj-%d" % i, "do": "obj", "n": n, "extra": r.randint(1, 6), "how": how, "s": r.randrange(10**9),
                   "cls": r.choice(["CircularCoords", "ToroidalCoords", "ProjectiveCoords", "LensCoords", "ComplexProjectiveCoords"]),
                   "dtype": r.choice(["float", "int", "float32"]), "frac": r.choice([0.5, 0.8, 1.0])})
    for i in range(12 * m):
        n = r.randint(3, 13)
        cs.append({"id": "dmfar-%d" % i, "do": "dm", "n": n, "how": "islands", "s": r.randrange(10**9), "M": r.choice([n, r.randint(1, n)])})
    # many points
    for i in range(4 * m):
        n = r.randint(260, 330)
        cs.append({"id": "pcbig-%d" % i, "do": "pc", "X": cloud(r, n, 2, 400, False), "M": r.randint(140, 200), "fn": ["euclid", "manhattan"][i % 2]})
        cs.append({"id": "objbig-%d" % i, "do": "obj", "n": r.randint(150, 180), "extra": 120, "how": ["rect", "cloud", "square", "duprect"][i % 4], "s": r.randrange(10**9), "cls": "CircularCoords",
                   "dtype": "float", "frac": 0.9})
    for i in range(3 * m):
        n = r.randint(360, 420)
        cs.append({"id": "dmbig-%d" % i, "do": "dm", "n": n, "how": ["ints", "cloud", "islands"][i % 3], "s": r.randrange(10**9), "M": [30, 12, 20][i % 3]})
        cs.append({"id": "pcfew-%d" % i, "do": "pc", "X": cloud(r, n, 2, 400, False), "M": r.randint(3, 12), "fn": ["euclid", "manhattan"][i % 2]})
    for i in range(2 * m):
        n = r.randint(300, 320)
        cs.append({"id": "geofew-%d" % i, "do": "geo", "X": cloud(r, n, 2, 4000, False), "M": r.randint(3, 8), "k": r.randint(3, 6)})
    for i in range(2 * m):
        n = r.randint(60, 80)
        cs.append({"id": "geobig-%d" % i, "do": "geo", "X": cloud(r, n, 2, 2000, False), "M": r.randint(20, n), "k": r.randint(3, 6)})
    q = random.Random(3000 + seed)
    for c in cs:
        c["f"] = q.choice([1.0, 1.0, 0.1, 0.37, 3e-7, 2.0 ** -22, 1e5])
    return cs
