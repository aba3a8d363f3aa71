"""Cases for C15: circle valued maps and the utilities for them."""
import json, random, re

TURN = 960000
MATS = [[[1, 1], [0, 1]], [[0, 1], [1, 0]], [[1, 0], [0, -1]], [[2, -1], [1, 1]], [[-3, 2], [0, 0]]]


def angle(r, wide=False):
    a = r.choice([r.randrange(TURN), r.randrange(TURN), (TURN // 24) * r.randrange(24), r.choice([0, 1, TURN - 1, TURN // 2])])
    return a + (TURN * r.choice([-2, -1, 0, 0, 1, 3]) if wide else 0)


def from_behaviours(prop, tier, seed, out):
    hs = sorted({m.group(1) for m in re.finditer(r'^"HISTORY (.*)"$', out, re.M)})
    hs = [json.loads(json.loads('"' + h + '"')) for h in hs]
    r = random.Random(1515 + seed)
    cs = []
    for i, h in enumerate(hs):
        if tier == "quick" and i % 6 != seed % 6:
            continue
        sh = [r.randrange(TURN) for _ in range(3)]
        ops = [{"op": "offset", "k": k, "s": (sh[s] * (1 if r.random() < 0.8 else -1)) % TURN, "mat": []} if op == "offset" else
               {"op": "combine", "k": 0, "s": 0, "mat": MATS[k - 1]} for op, k, s in h]
        cs.append({"id": "ops-%d" % i, "kind": "ops", "first": [[angle(r, len(cs) % 3 == 0) for _ in range(5)] for _ in range(2)], "ops": ops})
    return cs


def cases(prop, tier, seed):
    r = random.Random(155 + seed)
    m = 8 if tier == "thorough" else 1
    cs = []
    for i in range(60 * m):
        k, l, n = r.randint(1, 4), r.randint(1, 4), r.randint(1, 12)
        c = {"id": "comb-%d" % i, "kind": "comb", "maps": [[angle(r, i % 3 == 0) for _ in range(n)] for _ in range(k)],
             "mat": [[r.randint(-5, 5) for _ in range(k)] for _ in range(l)], "form": i % 4}
        if i % 5 == 4:
            c["mat"] = c["mat"][:1]
        cs.append(c)
    # large coefficients
    for i in range(20 * m):
        k, l, n = r.randint(1, 4), r.randint(1, 4), r.randint(1, 12)
        hi = [100, 200, 500, 3000, 40000, 900000][i % 6]
        cs.append({"id": "combbig-%d" % i, "kind": "comb", "maps": [[angle(r, i % 4 == 3) for _ in range(n)] for _ in range(k)],
                   "mat": [[r.choice([-1, 1]) * r.randint(hi // 2, hi) for _ in range(k)] for _ in range(l if i % 5 else 1)], "form": i % 4})
    for i in range(3 * m):
        cs.append({"id": "combmany-%d" % i, "kind": "comb", "maps": [[angle(r, i == 1) for _ in range([1500, 10, 300][i % 3])] for _ in range([2, 40, 20][i % 3])],
                   "mat": [[r.randint(-5, 5) for _ in range([2, 40, 20][i % 3])] for _ in range([2, 20, 30][i % 3])], "form": i % 4})
    for i in range(120 * m):
        n = r.randint(1, 60)
        style = i % 6
        if style == 0:
            f = [angle(r) for _ in range(n)]
        elif style == 1:
            c0 = r.randrange(TURN)
            f = [(c0 + r.randint(-20000, 20000)) % TURN for _ in range(n)] + [angle(r) for _ in range(n // 2)]
        elif style == 2:
            f = [r.choice([5000, 400000, 900000]) for _ in range(n)]
        elif style == 3:
            f = [angle(r)] * n
        elif style == 4:
            f = [angle(r, True) for _ in range(n)]
        else:
            lo = r.randrange(TURN // 2)
            f = [lo, lo + 50 * (TURN // 200)] + [lo + (TURN // 200) * r.choice([3, 20, 20, 41, 49]) + r.randint(10, 4000) for _ in range(n)]
        cs.append({"id": "center-%d" % i, "kind": "center", "map": f})
    for i in range(90 * m):
        n = r.choice([1, 1, 2, 3, 4, 5, 7, 12])
        c = {"id": "levels-%d" % i, "kind": "levels", "map": [angle(r, i // 3 % 3 == 1) for _ in range(r.randint(1, 40))], "n": n,
             "smooth": [0, r.randint(50, 1000), r.choice([50, 100, 250, 1000])][i % 3], "given": ["n", "default", "both"][i % 5 % 3]}
        if i % 15 == 14:
            c["n"] = r.choice([0, -1, -4])
        cs.append(c)
    for i in range(60 * m):
        cs.append({"id": "bow-%d" % i, "kind": "bow", "map": [angle(r, i // 3 % 3 == 1) for _ in range(r.randint(4, 36))], "shape": i % 3})
    return cs
