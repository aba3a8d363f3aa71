"""Cases for C16: points of projective, lens and sphere quotients."""
import random

TURN = 960000
PYTH = [(0, 1, 1), (1, 0, 1), (3, 4, 5), (4, 3, 5), (5, 12, 13), (12, 5, 13), (8, 15, 17), (7, 24, 25), (20, 21, 29)]


def vec(r, d, hi=5):
    while True:
        v = [r.randint(-hi, hi) for _ in range(d)]
        if any(v):
            return v


def cases(prop, tier, seed):
    r = random.Random(166 + seed)
    m = 8 if tier == "thorough" else 1
    cs = []
    for i in range(30 * m):
        Z = [vec(r, 4, 4) for _ in range(8)]
        for z in Z[:3]:
            a, b, c, d = z
            Z.append(r.choice([[-b, a, -d, c], [-a, -b, -c, -d], [a - 2 * b, 2 * a + b, c - 2 * d, 2 * c + d]]))
        Z += [[1, 0, 0, 0], [0, 0, 0, 1], [a, b, -c, -d]]
        cs.append({"id": "hopf-%d" % i, "kind": "hopf", "Z": Z})
    for i in range(160 * m):
        d = [2, 3, 4, 3, 5, 6, 1][i % 7]
        b = vec(r, d)
        how = ["any", "same", "opposite", "near", "nearopposite", "orthogonal", "nearopposite", "axis"][i % 8]
        cs.append({"id": "rot-%d" % i, "kind": "rot", "b": b, "a": vec(r, d), "how": how, "w": vec(r, d), "e": r.choice([3, 5, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16]),
                   "default": i % 3 == 0, "shape": i % 5})
    for i in range(10 * m):
        d = 2 + i % 4
        cs.append({"id": "rotaxis-%d" % i, "kind": "rot", "b": [3 if j == i // 4 % d else 0 for j in range(d)], "a": vec(r, d), "how": ["opposite", "any", "nearopposite"][i % 3], "w": vec(r, d), "e": 9, "default": False, "shape": 0})
    for i in range(60 * m):
        d = [3, 3, 4, 2, 5][i % 5]
        cs.append({"id": "stereo-%d" % i, "kind": "stereo", "s": r.randrange(10**9), "d": d, "n": r.randint(3, 14), "u": [None, "any", "pole", "south", "point", "antipoint"][i % 6]})
    for i in range(60 * m):
        d = [3, 3, 3, 4, 2][i % 5]
        cs.append({"id": "hemi-%d" % i, "kind": "hemi", "s": r.randrange(10**9), "d": d, "n": r.randint(3, 14), "c": [None, "any", "south", "point", "antipoint"][(i // 5) % 5]})
    for i in range(60 * m):
        cs.append({"id": "pole-%d" % i, "kind": "pole", "x": [r.randint(-9, 9), r.randint(-9, 9)], "over": r.choice([1, 3, 5, 10, 13, 20]), "int": i % 6 == 0})
    for i in range(30 * m):
        u, v, w = r.choice(PYTH)
        cs.append({"id": "rim-%d" % i, "kind": "pole", "x": [r.choice([-1, 1]) * u, r.choice([-1, 1]) * v], "over": w, "int": False,
                   "off": [1e-2, 3e-3, 1e-3, 1e-4, 1e-9, 1e-15, 0, -1e-15, -1e-9, -1e-4, -1e-3][i % 11]})
    for i in range(60 * m):
        q = [2, 3, 5, 7, 11, 13, 17, 29, 43, 41, 37, 19][i % 12]
        pts = []
        for _ in range(14):
            u, v, w = r.choice(PYTH)
            a = r.choice([r.randrange(TURN), r.randrange(TURN), (r.randrange(q) * TURN) // q + r.choice([0, 5, 100]), r.choice([0, TURN // 2, TURN // 4])])
            pts.append([a, r.choice([r.randrange(TURN), 0, TURN // 2]), u, v, w, r.randrange(q)])
        cs.append({"id": "lens-%d" % i, "kind": "lens", "q": q, "pts": pts})
    return cs
