"""Cases for C02: the same data supplied in different forms."""
import math, random
import gen_torus, gen_hopf, scen

CLASSES = ["CircularCoords", "ToroidalCoords", "LensCoords", "ProjectiveCoords", "ComplexProjectiveCoords"]


def ring(r, n, dim, rings):
    P = []
    for k in range(n):
        h = k % rings
        a = 2 * math.pi * ((k // rings) + 0.6 * r.random()) / (n // rings)
        q = [4000 * h * 2.7 + 4000 * math.cos(a), 4000 * math.sin(a)] + [300 * r.random() for _ in range(dim - 2)]
        q[0] += 200 * r.random()
        P.append([round(x) for x in q])
    r.shuffle(P)
    return P


def ball(r, n):
    P = []
    for i in range(n):
        z = 1 - (2 * i + 1) / n
        a = 2.39996 * i + 0.2 * r.random()
        s = math.sqrt(1 - z * z)
        P.append([round(5000 * (s * math.cos(a) + 0.05 * r.random())), round(5000 * s * math.sin(a)), round(5000 * z + 100 * r.random())])
    r.shuffle(P)
    return P


def cases(prop, tier, seed):
    r = random.Random(202 + seed)
    m = 6 if tier == "thorough" else 1
    cs = []
    for i in range(40 * m):
        cls = CLASSES[i % 5]
        n = r.randint(24, 36)
        P = ball(r, n) if cls == "ComplexProjectiveCoords" else ring(r, n, r.choice([2, 3, 5]), 2 if cls == "ToroidalCoords" or i % 3 == 0 else 1)
        cs.append({"id": "cloud-%d" % i, "cls": cls, "P": P, "nl": r.choice([n, r.randint(12, 18), r.randint(12, 18)]) if cls != "ComplexProjectiveCoords" else r.randint(10, 14),
                   "p": r.choice([2, 3, 41]) if cls != "LensCoords" else r.choice([2, 3, 5]), "perc": round(r.uniform(0.3, 0.95), 3), "sr": False, "k": 2, "s": r.randrange(10**9),
                   "jit": i % 8 < 2, "limit": 240})
    fams = ["weighted", "wcycle", "cloud", "flag12", "theta12", "longtheta", "sparse12", "annulus12"]
    for i in range(40 * m):
        cls = CLASSES[i % 5]
        D = gen_hopf.metric(r, r.choice(["suspcycle", "octa", "threepoles", "cloud"]), r.choice(["two", "jitter"])) if cls == "ComplexProjectiveCoords" else gen_torus.graph_case(r, fams[(i // 5) % len(fams)])
        n = len(D)
        cs.append({"id": "exact-%d" % i, "cls": cls, "D": D, "nl": n - r.choice([0, 0, 1, 2]), "p": r.choice([2, 3, 41]) if cls != "LensCoords" else r.choice([2, 3, 5]),
                   "perc": r.choice([0.25, 0.5, 0.75, 0.875, 1.0]), "sr": r.random() < 0.5, "k": 2, "s": r.randrange(10**9), "jit": i % 8 < 2, "limit": 240})
    return cs
