"""Cases for the rules of the cover (C05, C06), integer lifts (C04), and uncovered data."""
import random
import gen_torus, scen

CLASSES = ["CircularCoords", "ToroidalCoords", "ProjectiveCoords", "LensCoords", "ComplexProjectiveCoords"]


def cases(prop, tier, seed):
    m = 6 if tier == "thorough" else 1
    r = random.Random(90001 * int(prop[1:]) + seed)
    cs = []

    def add(**k):
        c = dict(k, id="%s-%d" % (k["do"], len(cs)), s=r.randrange(10**9))
        cs.append(dict(c, u=scen.unit(c)))
    if prop == "C05":
        for i in range(24 * m):
            add(do="radius", cls=CLASSES[i % 5])
    if prop == "C04":
        for i in range(30 * m):
            add(do="lift", p=r.choice([2, 3, 5, 7, 11, 13, 41, 47, 97, 127, 251]), dim=r.choice([1, 1, 2]), n=r.randint(1, 40))
    if prop == "C06":
        for i in range(30 * m):
            add(do="bump", how=["linear", "quadratic", "exp"][i % 3])
        for i in range(40 * m):
            add(do="partition", cls=CLASSES[i % 5], bump=["linear", "quadratic", "custom", "flat"][i % 4], dtype=["float", "int", "float32"][i % 3],
                D=gen_torus.graph_case(r, r.choice(["flag12", "weighted", "cloud", "sparse12"])))
        # many landmarks, many data points
        for i in range(3 * m):
            add(do="partition", cls=CLASSES[i], bump=["linear", "custom", "quadratic"][i % 3], dtype="float", count=60,
                D=scen.pathmetric(scen.shuffle(scen.cycle(r.randint(132, 150) if i % 3 != 1 else r.randint(264, 280)), r)))
            add(do="partition", cls=CLASSES[i + 2], bump=["linear", "custom", "quadratic"][i % 3], dtype="float", count=r.randint(2100, 2600), D=gen_torus.graph_case(r, "weighted"))
        for i in range(20 * m):
            add(do="partition", cls=CLASSES[i % 5], bump=r.choice(["exp", "exp", "linear"]), dtype=r.choice(["float", "int", "float32"]), big=64,
                D=gen_torus.graph_case(r, r.choice(["flag12", "weighted", "cloud"])))
        for i in range(30 * m):
            cls = CLASSES[i % 5]
            if cls == "ComplexProjectiveCoords":
                D = scen.metric12(scen.shuffle(scen.suspension(scen.cycle(r.randint(4, 6))), r))
            else:
                D = gen_torus.graph_case(r, ["wcycle", "theta12", "weighted", "annulus12"][(i // 5) % 4])
            add(do="uncovered", cls=cls, bump=["linear", "quadratic", "custom"][i % 3], D=D, mode=["exponential", "direct", "one-by-one"][(i // 5) % 3],
                p=r.choice([3, 5, 41]) if cls != "LensCoords" else r.choice([2, 3, 5]), sr=(i // 3) % 2 == 0, jit=i % 3 == 1)
    return cs
