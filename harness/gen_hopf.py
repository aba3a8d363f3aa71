"""Cases for C12 and the degree two part of C04-C06: complex projective coordinates."""
import random
import scen

BUMP = ["linear", "quadratic", "linear", "custom", "flat"]


def points(k):
    return k, []


def prism(g):
    n, es = g
    return 2 * n, scen.norm(list(es) + [(a + n, b + n) for a, b in es] + [(i, i + n) for i in range(n)] + [(a, b + n) for a, b in es])


def icosahedron():
    es = []
    for i in range(5):
        es += [(0, 1 + i), (1 + i, 1 + (i + 1) % 5), (1 + i, 6 + i), (1 + i, 6 + (i + 1) % 5), (6 + i, 6 + (i + 1) % 5), (6 + i, 11)]
    return 12, scen.norm(es)


def octa():
    return scen.join(scen.join(points(2), points(2)), points(2))


def graph(r, fam):
    if fam == "octa":
        return octa()
    if fam == "suspcycle":
        return scen.suspension(scen.cycle(r.randint(4, 7)))
    if fam == "susptheta":
        return scen.suspension(scen.theta(r))
    if fam == "suspbouquet":
        return scen.suspension(scen.bouquet(r, 2))
    if fam == "threepoles":
        return scen.join(points(r.randint(3, 4)), scen.cycle(r.randint(4, 5)))
    if fam == "wedge":
        return scen.wedge(octa(), scen.suspension(scen.cycle(r.randint(4, 5))))
    if fam == "union":
        return scen.union(octa(), octa())
    if fam == "torus":
        return scen.torus(4, 4)
    if fam == "klein":
        return scen.torus(4, 4, True)
    if fam == "rp2":
        return scen.rp2(r)
    if fam == "moore":
        return scen.moore(r)
    if fam == "susprp2":
        return scen.suspension(scen.rp2(r))
    if fam == "suspmoore":
        return scen.suspension(scen.moore(r))
    if fam == "octarp2":
        return scen.wedge(octa(), scen.suspension(scen.rp2(r)))
    if fam == "prism":
        return prism(octa())
    if fam == "suspband":
        return scen.suspension(scen.annulus(r.randint(4, 5), r.random() < 0.5))
    if fam == "flag":
        return scen.flag(r, r.randint(9, 11), r.choice([0.6, 0.65, 0.7]))
    if fam == "facet":
        # solid tetrahedra on one or two faces of a sphere
        n, es = octa() if r.random() < 0.5 else scen.suspension(scen.cycle(5))
        es = list(es)
        for _ in range(r.randint(1, 2)):
            t = r.choice(scen.triangles(n, scen.norm(es)))
            es += [(v, n) for v in t]
            n += 1
        return n, scen.norm(es)
    if fam == "ico":
        return icosahedron()
    raise KeyError(fam)


def spherecloud(r, n):
    import math
    P = []
    for i in range(n):
        z = 1 - (2 * i + 1) / n
        a = 2.39996 * i + 0.2 * r.random()
        s = math.sqrt(1 - z * z)
        P.append((s * math.cos(a) + 0.05 * r.random(), s * math.sin(a), z))
    r.shuffle(P)
    return P


def metric(r, fam, style):
    if fam == "islands":
        return scen.islands(r, [metric(r, f, "two") for f in r.sample(["octa", "suspcycle", "octa", "facet"], 2)])
    if fam == "cloud":
        return scen.cloudmetric(spherecloud(r, r.randint(8, 13)), r.choice([3, 4, 5]))
    g = scen.shuffle(graph(r, fam), r)
    if style == "jitter":
        E = set(g[1])
        n = g[0]
        D = [[0] * n for _ in range(n)]
        for i in range(n):
            for j in range(i):
                D[i][j] = D[j][i] = r.choice([2, 2, 3]) if (j, i) in E else 4
        return D
    return scen.metric12(g)


# family, primes, how many, mixed representatives too?
FAM = [("octa", [41, 3, 2], 8), ("suspcycle", [41, 5, 3], 8), ("susptheta", [41, 3], 6), ("suspbouquet", [41, 7], 4), ("threepoles", [41, 3, 2], 6),
       ("wedge", [5, 41], 4), ("union", [3], 2), ("torus", [3, 41], 3), ("klein", [2], 3), ("rp2", [2], 4), ("moore", [3], 4), ("susprp2", [2], 4),
       ("suspmoore", [3], 2), ("octarp2", [2], 3), ("prism", [2, 3, 41], 6), ("suspband", [2, 3, 5], 6), ("flag", [2, 3, 41], 14), ("facet", [2, 3], 20), ("ico", [41, 2], 3), ("cloud", [41, 3], 12), ("islands", [41, 3], 6)]


# where lifting is not trivial
LIFTS = {"klein", "rp2", "moore", "susprp2", "suspmoore", "octarp2", "prism", "suspband", "flag", "facet"}


def cases(prop, tier, seed):
    r = random.Random(int(prop[1:]) * 1207 + seed)
    m = 5 if tier == "thorough" else 1
    cs = []
    for fam, primes, count in FAM:
        if prop == "C04" and fam not in LIFTS:
            continue
        for i in range(count * m):
            style = "cloud" if fam == "cloud" else ["two", "two", "jitter"][(i + len(fam)) % 3]
            D = metric(r, fam, style)
            c = {"id": "%s-%d" % (fam, i), "D": D, "cls": "ComplexProjectiveCoords", "p": primes[i % len(primes)], "style": style,
                 "rule": "any", "sr": style == "two" and r.random() < 0.6 or style == "cloud" and r.random() < 0.2,
                 "perc8": r.choice([2, 4, 6, 7, 8]) if style != "cloud" else r.choice([0, 2, 4, 6, 8]), "bump": BUMP[len(cs) % len(BUMP)],
                 "mode": ["exponential", "one-by-one"][i % 2], "redmode": ["one-by-one", "exponential", "direct"][(i + 1) % 3],
                 "reddim": r.choice([1, 1, 2, 3]), "default": i % 5 == 4, "s": r.randrange(10**9), "mix": fam != "cloud" and (i % 2 == 1 or fam == "facet"),
                 "check": i % 9 != 8, "dtype": ["float", "int", "float32"][i % 3], "verbose": i % 7 == 6, "limit": 60}
            if fam == "islands":
                c["apart"], c["style"] = True, "two"
                if c["dtype"] == "int":
                    c["dtype"] = "float"
            c["u"] = scen.unit(c)
            if i == 1:
                c["probes"] = r.choice([150, 400, 1100])
            if i % 5 == 2 and style == "cloud":
                c["nl"] = len(D) - r.randint(1, 2)
            if len(cs) % 3 == 0:
                c["jit"] = True
                c["limit"] = 180
            cs.append(c)
    return cs
