"""Cases for C03: persistence diagrams and cocycles as the coordinate objects report them."""
import random
import gen_torus, gen_hopf, scen

CLASSES = ["CircularCoords", "ToroidalCoords", "LensCoords", "ProjectiveCoords", "ComplexProjectiveCoords"]


def cases(prop, tier, seed):
    r = random.Random(303 + seed)
    m = 6 if tier == "thorough" else 1
    cs = []

    def add(fam, D, **k):
        c = dict(k, id="%s-%d" % (fam, len(cs)), D=D, s=r.randrange(10**9))
        cs.append(dict(c, u=scen.unit(c)))
    one = ["flag12", "sparse12", "bouquet12", "weighted", "wcycle", "cloud", "longtheta", "cycle", "theta12", "annulus12", "rp2", "klein12", "union12", "bip12"]
    for i in range(84 * m):
        fam = one[i % len(one)]
        D = gen_torus.graph_case(r, fam)
        cls = CLASSES[i % 4]
        add(fam, D, cls=cls, p=r.choice([2, 3, 5, 41]) if cls != "ProjectiveCoords" else 2, maxdim=r.choice([1, 1, 2]) if len(D) <= 12 else 1,
            form=["square", "rect", "rectsub", "square"][i // 4 % 4])
    two = ["octa", "suspcycle", "threepoles", "wedge", "torus", "prism", "suspband", "flag", "ico", "cloud", "susprp2"]
    for i in range(33 * m):
        fam = two[i % len(two)]
        D = gen_hopf.metric(r, fam, "cloud" if fam == "cloud" else r.choice(["two", "jitter"]))
        add(fam, D, cls="ComplexProjectiveCoords", p=r.choice([2, 3, 41]), maxdim=2 if i % 7 or len(D) > 12 else 3, form=["square", "rect", "rectsub"][i % 3])
    for i in range(35 * m):
        D = scen.blocks(r, [[1, 1, 1], [2, 2], [1, 2, 1], [2, 2, 1], [1, 1, 1, 1], [2, 2, 2, 2], [1, 2, 2, 2]][i % 7])
        add("blocks", D, cls=CLASSES[i % 3], p=r.choice([2, 3, 41]), maxdim=2 if i % 7 in (1, 2, 3, 5, 6) else 1, form="square")
    for i in range(16 * m):
        n = r.randint(14, 20)
        P = scen.circlecloud(r, n, r.randint(1, 2))
        add("points", [[round(1000 * x) for x in q] for q in P], cls=CLASSES[i % 4], p=2 if i % 4 == 3 else r.choice([2, 3, 41]), maxdim=1, form="cloud")
    return cs
