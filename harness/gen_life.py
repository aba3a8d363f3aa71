"""Cases for C14: every history TLC found in the specification's design model, replayed into the real objects."""
import json, random, re
import gen_torus, gen_hopf, scen

# class of object, family, primes
KINDS = [("CircularCoords", "wcycle", [41, 3]), ("ToroidalCoords", "weighted", [41, 5]), ("ToroidalCoords", "klein12", [2]), ("CircularCoords", "klein12", [2]),
         ("ToroidalCoords", "flag12", [2, 3]), ("CircularCoords", "rp2circle", [2]), ("CircularCoords", "cloud", [41]), ("ToroidalCoords", "annulus12", [2, 3]),
         ("ProjectiveCoords", "rp2", [2]), ("LensCoords", "moore", [3]), ("LensCoords", "weighted", [2, 5]), ("ProjectiveCoords", "weighted", [2]),
         ("ComplexProjectiveCoords", "octarp2", [2]), ("ComplexProjectiveCoords", "facet", [2, 3]), ("ComplexProjectiveCoords", "suspbouquet", [41, 3]), ("ComplexProjectiveCoords", "cloud", [3])]


def scenario(r, i):
    cls, fam, primes = KINDS[i % len(KINDS)]
    if cls.startswith("Complex"):
        D = gen_hopf.metric(r, fam, "two" if r.random() < 0.5 else "jitter")
    else:
        D = gen_torus.graph_case(r, fam)
    c = {"cls": cls, "D": D, "p": r.choice(primes), "s": r.randrange(10**9), "limit": 100, "fam": fam,
         "short": r.random() < 0.3, "two": r.choice([0, 0, 1, 2])}
    return c


def from_behaviours(prop, tier, seed, out):
    hs = []
    for m in re.finditer(r'^"HISTORY (.*)"$', out, re.M):
        hs.append(json.loads(json.loads('"' + m.group(1) + '"')))
    hs = [h for h in hs if len(h) == max(map(len, hs))]
    hs.sort(key=json.dumps)
    r = random.Random(1414 + seed)
    r.shuffle(hs)
    per = 3
    n = len(hs) if tier == "thorough" else 150 * per
    cs = []
    for i in range(0, n - per + 1, per):
        # one object lives through several of them, one after the other
        k = i // per
        c = dict(scenario(r, k), id="history-%d" % k, hist=sum(hs[i:i + per], []))
        if k % 8 == 3:
            c["jit"], c["limit"] = True, 240
        cs.append(c)
    # a request, the user writes into its answer, the same request
    back = [h for h in hs if h[1][0] == "write" and h[0] == h[2]]
    for k in range(len(KINDS) * (3 if tier == "thorough" else 1)):
        cs.append(dict(scenario(r, k), id="written-%d" % k, hist=sum(r.sample(back, 3), [])))
    return cs


def cases(prop, tier, seed):
    r = random.Random(77 + seed)
    m = 5 if tier == "thorough" else 1
    return [{"id": "pure-%d" % i, "pure": True, "s": r.randrange(10**9), "jit": i % 8 == 0} for i in range(40 * m)]
