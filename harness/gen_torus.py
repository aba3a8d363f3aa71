"""Cases for C04-C09: landmark metrics for circular and toroidal coordinates."""
import random
import scen

BUMP = ["linear", "linear", "quadratic", "custom", "exp", "flat"]


def graph_case(r, fam):
    """(small metric, is it a two-valued metric)"""
    S = lambda g: scen.shuffle(g, r)
    if fam == "theta12":
        return scen.metric12(S(scen.theta(r)))
    if fam == "bouquet12":
        return scen.metric12(S(scen.bouquet(r)))
    if fam == "bouquet3":
        return scen.metric12(S(scen.bouquet(r, 3)))
    if fam == "sparse12":
        return scen.metric12(S(scen.sparse(r)))
    if fam == "sparse6":
        return scen.metric12(S(scen.sparse(r, r.randint(9, 12), r.randint(4, 6))))
    if fam == "bip12":
        return scen.metric12(S(scen.bipartite(r, r.randint(10, 13), r.randint(5, 6))))
    if fam == "flag12":
        return scen.metric12(S(scen.flag(r)))
    if fam == "wflag":
        # all distances different, edges well apart from the others
        D = scen.metric12(S(r.choice([lambda: scen.flag(r), lambda: scen.annulus(r.randint(4, 5), r.random() < 0.5), lambda: scen.torus(4, 4, True)])()))
        for i in range(len(D)):
            for j in range(i):
                D[i][j] = D[j][i] = (30 if D[i][j] == 1 else 40) + r.randint(0, 9)
        return D
    if fam == "annulus12":
        return scen.metric12(S(scen.annulus(r.randint(4, 6), r.random() < 0.5)))
    if fam == "union12":
        return scen.metric12(S(scen.union(scen.theta(r), scen.cycle(r.randint(4, 6)))))
    if fam == "cycle":
        return scen.pathmetric(S(scen.cycle(r.randint(7, 13))))
    if fam == "longtheta":
        n, es = 2, []
        for _ in range(r.randint(2, 3)):
            prev = 0
            for _ in range(r.randint(3, 5)):
                es.append((prev, n))
                prev = n
                n += 1
            es.append((prev, 1))
        return scen.pathmetric(S((n, scen.norm(es))))
    if fam == "weighted":
        return scen.weighted(S(scen.sparse(r, r.randint(8, 12), r.randint(2, 4))), r)
    if fam == "wcycle":
        return scen.weighted(S(scen.wedge(scen.cycle(r.randint(5, 7)), scen.cycle(r.randint(4, 6)))), r, 2)
    if fam == "handover":
        # cross-polytopes far apart, one ending when (or just before or after) another begins
        a = r.randint(2, 6)
        return scen.blocks(r, [1, 1, 1], pairs=[(a, 2 * a - r.randint(0, 1)), (2 * a - r.choice([0, 0, 0, 1]), 4 * a - 2), (r.randint(1, a), r.randint(a + 1, 2 * a))])
    if fam == "islands":
        # parts with no finite distance between them
        return scen.islands(r, [graph_case(r, f) for f in r.sample(["cycle", "weighted", "wcycle", "longtheta", "cycle"], 2)])
    if fam == "islands12":
        return scen.islands(r, [graph_case(r, f) for f in r.sample(["theta12", "annulus12", "flag12", "sparse12"], 2)])
    if fam == "cloud":
        h = r.randint(1, 2)
        return scen.cloudmetric(scen.circlecloud(r, r.randint(9, 12), h), r.choice([2, 3, 4]))
    if fam == "big12":
        # long chains of landmarks
        n, es = r.randint(40, 64), []
        es = [(i, (i + 1) % n) for i in range(n)]
        for _ in range(r.randint(0, 2)):
            a, b = sorted(r.sample(range(n), 2))
            if b - a > 3 and n - (b - a) > 3:
                es.append((a, b))
        return scen.metric12(S((n, scen.norm(es))))
    if fam == "torus12":
        return scen.metric12(S(scen.torus(4, 4)))
    if fam == "klein12":
        return scen.metric12(S(scen.torus(4, 4, True)))
    if fam == "rp2":
        return scen.metric12(S(scen.rp2(r)))
    if fam == "moore":
        return scen.metric12(S(scen.moore(r)))
    if fam == "rp2circle":
        return scen.metric12(S(scen.wedge(scen.rp2(r), scen.cycle(r.randint(4, 5)))))
    if fam == "moorecircle":
        return scen.metric12(S(scen.wedge(scen.moore(r), scen.cycle(4))))
    raise KeyError(fam)


TWO = {"big12", "theta12", "bouquet12", "bouquet3", "sparse12", "sparse6", "bip12", "flag12", "annulus12", "union12", "torus12", "klein12", "rp2", "moore",
       "rp2circle", "moorecircle", "islands12"}

FILLED = {"flag12", "wflag", "annulus12", "torus12", "klein12", "cloud", "weighted"}

# families and counts by property: (family, primes, rule, count)
MIX = {
    "C04": [("islands12", [3, 2], "any", 4), ("wflag", [2, 2, 3, 2, 5], "any", 40), ("flag12", [2, 3, 2], "any", 26), ("annulus12", [2, 3, 5], "any", 12), ("torus12", [2, 3], "top", 4), ("klein12", [2, 2], "top", 6),
            ("klein12", [2, 3], "any", 4), ("rp2", [2, 3], "any", 4), ("moore", [3, 2], "any", 4), ("rp2circle", [2], "top", 6), ("moorecircle", [3], "any", 3),
            ("flag12", [2, 3], "shuffle", 20), ("sparse12", [2, 3, 41], "shuffle", 8), ("weighted", [2, 3, 5], "any", 8), ("cycle", [2, 3, 47], "first", 4)],
    "C05": [("islands", [41, 3], "shuffle", 6), ("handover", [41, 2, 3], "shuffle", 14), ("wflag", [41, 3, 2], "any", 10), ("cycle", [2, 41, 3], "first", 12), ("longtheta", [41, 3], "top", 14), ("weighted", [41, 5], "shuffle", 20), ("wcycle", [41, 7], "shuffle", 14),
            ("cloud", [41, 11], "any", 12), ("theta12", [41], "shuffle", 8), ("sparse12", [41], "any", 8)],
    "C06": [("islands", [41], "shuffle", 4), ("wflag", [41, 3, 2], "any", 8), ("cycle", [41, 3], "first", 8), ("weighted", [41, 5], "shuffle", 16), ("cloud", [41], "any", 10), ("flag12", [3, 2], "any", 12),
            ("theta12", [41], "shuffle", 6), ("annulus12", [3, 41], "any", 6)],
    "C07": [("islands", [41, 3], "any", 6), ("islands12", [41], "any", 4), ("wflag", [41, 3, 2], "any", 10), ("big12", [3, 41], "any", 2), ("annulus12", [3, 5, 3, 7], "shuffle", 8), ("flag12", [3, 3, 5], "shuffle", 8), ("theta12", [41, 3, 7], "any", 10), ("cycle", [2, 5, 41], "first", 10), ("longtheta", [41, 3, 5], "any", 10), ("weighted", [41, 5, 3], "any", 12),
            ("cloud", [41, 47], "any", 10), ("annulus12", [41, 3, 2], "any", 8), ("flag12", [2, 3, 5], "any", 10), ("union12", [41], "any", 6),
            ("torus12", [41, 2], "any", 3), ("wcycle", [41], "any", 8)],
    "C08": [("islands", [41], "shuffle", 4), ("islands12", [41], "any", 4), ("wflag", [41, 5, 2], "shuffle", 8), ("big12", [41, 3, 2], "any", 6), ("theta12", [41, 3], "any", 8), ("union12", [41, 2], "any", 12), ("sparse12", [41, 3], "shuffle", 12), ("weighted", [41, 5], "any", 12),
            ("cloud", [41], "any", 10), ("flag12", [2, 3, 5], "any", 12), ("cycle", [41], "first", 6), ("annulus12", [2, 41], "any", 6), ("longtheta", [41], "shuffle", 8)],
    "C09": [("islands", [41], "shuffle", 4), ("islands12", [41], "shuffle", 4), ("wflag", [41, 5, 2], "shuffle", 8), ("big12", [41], "top", 2), ("theta12", [41, 3], "shuffle", 14), ("bouquet12", [41], "shuffle", 8), ("sparse12", [41, 3], "shuffle", 18), ("sparse6", [41, 5], "shuffle", 18),
            ("bouquet3", [41, 2], "shuffle", 6), ("longtheta", [41, 3], "shuffle", 8), ("torus12", [41, 3], "top", 3), ("wcycle", [41, 7], "shuffle", 8),
            ("union12", [41], "shuffle", 6), ("flag12", [3, 2, 41], "shuffle", 10),
            ("bip12", [41, 47], "shuffle", 32)],
}


def cases(prop, tier, seed):
    mult = 5 if tier == "thorough" else 1
    r = random.Random(int(prop[1:]) * 100003 + seed)
    cs = []
    for fam, primes, rule, count in MIX[prop]:
        for i in range(count * mult):
            D = graph_case(r, fam)
            two = fam in TWO
            bump = BUMP[(i + len(cs)) % len(BUMP)]
            sr = r.random() < (0.6 if two else 0.5)
            perc8 = r.choice([0, 2, 4, 5, 7, 8]) if not two else r.choice([2, 4, 6, 7, 8])
            if prop == "C05":
                sr = r.random() < 0.5
                perc8 = r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8])
            if bump == "exp" and not (two and sr):
                if two:
                    sr = True
                else:
                    bump = "linear"
            c = {"id": "%s-%d" % (fam, i), "D": D, "p": primes[i % len(primes)], "rule": rule, "k": 5 + i % 2 if fam == "bip12" else 2 + (i % 4 if prop == "C09" else i % 2),
                 "cls": "CircularCoords" if rule in ("first", "any") and i % 4 else "ToroidalCoords",
                 "sr": sr, "perc8": perc8, "bump": bump, "s": r.randrange(10**9), "probes": 24,
                 "dtype": r.choice(["float", "float", "int", "float32"])}
            if fam.startswith("islands"):
                c["apart"] = True
                if c["dtype"] == "int":
                    c["dtype"] = "float"
            c["u"] = scen.unit(c)
            if i % 6 == 5 and len(D) > 8 and not two:
                c["nl"] = len(D) - r.randint(1, 2)
            if prop == "C04" and i % 8 == 7:
                c["check"] = False
            if i % 11 == 10:
                c["verbose"] = True
            if (prop == "C09" and i % 3 != 2 and c["k"] > 1) or (prop == "C04" and i % 4 == 2 and fam != "wflag") or (prop in ("C07", "C08") and i % 5 == 3 and fam != "wflag"):
                # other bases of the same space of classes
                c["mix"] = True
                if fam in FILLED and c["p"] > 13:
                    c["p"] = 13         # lifts are as large as half the prime; changes along edges are followed up to 8 turns
                if c["bump"] in ("exp", "custom"):
                    c["bump"] = "linear"
                c["steps"] = 16
            if prop in ("C04", "C07", "C08") and fam in ("annulus12", "flag12", "torus12", "rp2circle", "moorecircle", "cloud", "weighted") and i % 2:
                # other cocycles of the same classes: their lifts are often not cocycles
                c["mix"] = c["gauge"] = True
                if c["p"] > 5:
                    c["p"] = r.choice([3, 5])
                if c["bump"] not in ("linear", "flat"):
                    c["bump"] = "linear"
                c["steps"] = 24
            if i == 1 and not c.get("mix"):
                c["probes"] = r.choice([300, 600, 1300]) if len(D) < 20 else 24         # many data points
            if len(cs) % 4 == 1:
                c["jit"] = True         # with compiled numba kernels
            cs.append(c)
    if prop == "C04":
        cs.append(ENDLESS)
    return cs


# a class with 2-torsion for which the solver is not known to stop
ENDLESS = {'id': 'endless-0', 'p': 2, 'rule': 'top', 'k': 2, 'cls': 'ToroidalCoords', 'sr': False, 'perc8': 8, 'bump': 'linear', 's': 997943073, 'probes': 24, 'dtype': 'float', 'limit': 6}
ENDLESS["D"] = scen.metric12((16, [
    (0, 3), (0, 4), (0, 7), (0, 11), (0, 12), (0, 13), (1, 2), (1, 5), (1, 7), (1, 10), (1, 11), (1, 14), (2,
    3), (2, 5), (2, 6), (2, 11), (2, 15), (3, 4), (3, 5), (3, 12), (3, 15), (4, 8), (4, 9), (4, 13), (4, 15),
    (5, 8), (5, 10), (5, 12), (6, 10), (6, 11), (6, 13), (6, 14), (6, 15), (7, 9), (7, 11), (7, 12), (7, 14),
    (8, 9), (8, 10), (8, 12), (8, 13), (9, 12), (9, 14), (9, 15), (10, 13), (10, 14), (11, 13), (14, 15)]))
