"""Cases for C17: simplex numbering, sparse cocycles, coboundary operators."""
import random


def cases(prop, tier, seed):
    big = tier == "thorough"
    rnd = random.Random(1000 + seed)
    cs = []
    # numbering, exhaustively for small n, up to dimension 4
    for n in range(1, (15 if big else 11)):
        for d in range(0, 5):
            cs.append({"id": "num-%d-%d" % (n, d), "do": "num", "n": n, "d": d, "extra": (n + d) % 3, "jit": (n + d) % 2 == 1})
    for n in (16, 20, 24) + ((30, 40) if big else ()):
        for d in (1, 2):
            cs.append({"id": "num-%d-%d" % (n, d), "do": "num", "n": n, "d": d, "extra": 0})
    # parity of every permutation of up to 5 (6) elements, in one case per length
    for m in range(1, 7 if big else 6):
        cs.append({"id": "perm-%d" % m, "do": "perm", "m": m})
    # sparse cocycles
    for i in range(400 if big else 80):
        n = rnd.randint(3, 9)
        d = rnd.choice([1, 1, 2, 2, 3])
        if n < d + 1:
            n = d + 1
        cs.append({"id": "vec-%d" % i, "do": "vec", "n": n, "d": d, "s": rnd.randrange(10**9), "jit": i % 2 == 0})
    # coboundary operators
    kinds = ["rand", "ties", "grid", "full", "empty", "inf", "rand", "ties"]
    for i in range(500 if big else 96):
        n = rnd.randint(1, 9 if big else 8)
        cs.append({"id": "cob-%d" % i, "do": "cob", "n": n, "s": rnd.randrange(10**9), "how": kinds[i % len(kinds)],
                   "extra": rnd.choice([0, 0, 2])})
    for i in range(24 if big else 14):
        cs.append({"id": "cobjit-%d" % i, "do": "cob", "n": rnd.randint(3, 9), "s": rnd.randrange(10**9), "how": kinds[i % len(kinds)],
                   "extra": rnd.choice([0, 2]), "jit": True})
    for n in ((10, 11, 12, 13) if big else (10, 12)):
        for how in ("ties", "grid"):
            cs.append({"id": "cobbig-%d-%s" % (n, how), "do": "cob", "n": n, "s": rnd.randrange(10**9), "how": how, "extra": 0})
    # many vertices
    for i, (n, d) in enumerate([(300, 2), (2500, 1), (2400, 2), (700, 3), (3000, 2), (70000, 1)]):
        cs.append({"id": "big-%d-%d" % (n, d), "do": "big", "n": n, "d": d, "extra": i % 3, "s": rnd.randrange(10**9), "jit": i % 2 == 0})
    for i in range(8 if big else 3):
        cs.append({"id": "bigcob-%d" % i, "do": "bigcob", "n": rnd.randint(60, 72), "s": rnd.randrange(10**9), "jit": i % 2 == 1})
    for i in range(2 if big else 1):
        cs.append({"id": "bigcob300-%d" % i, "do": "bigcob", "n": rnd.randint(262, 330), "s": rnd.randrange(10**9), "jit": True})
        cs.append({"id": "dense1-%d" % i, "do": "dense", "n": rnd.randint(60, 63), "d": 1, "s": rnd.randrange(10**9), "jit": True})
        cs.append({"id": "dense2-%d" % i, "do": "dense", "n": 33, "d": 2, "s": rnd.randrange(10**9), "jit": i % 2 == 0})
    return cs
