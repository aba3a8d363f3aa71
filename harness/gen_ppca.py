"""Cases for C13: direct calls of the projective dimension reduction."""
import random


def cases(prop, tier, seed):
    r = random.Random(1300 + seed)
    cs = []
    modes = ["direct", "exponential", "one-by-one"]

    def add(**k):
        k.update(id="ppca-%d" % len(cs), s=r.randrange(10**9))
        cs.append(k)
    # every dimension and mode
    top = 13 if tier == "thorough" else 9
    for d in range(2, top):
        for m in range(d):
            for mode in modes:
                for rep in range(3 if tier == "thorough" else 1):
                    add(d=d, m=m, mode=mode, N=r.randint(6, 12), real=r.random() < 0.4, data=r.choice(["generic", "generic", "sub", "nan", "weights", "few"]))
    for i in range(60 if tier == "thorough" else 15):
        d = r.randint(3, 6)
        for mode in ("direct", "one-by-one"):
            add(d=d, m=r.randint(0, d - 2), mode=mode, N=r.randint(7, 12), real=r.random() < 0.3, data="peaked", steps=True)
        add(d=d, m=r.randint(0, d - 2), mode="exponential", N=r.randint(7, 12), real=r.random() < 0.3, data="peaked", steps=True)
    # many points, many dimensions
    for i in range(8 if tier == "thorough" else 3):
        for mode in modes:
            d = r.randint(4, 6)
            add(d=d, m=r.randint(1, d - 2), mode=mode, N=r.choice([513, 700, 1030]), real=r.random() < 0.3, data="peaked", steps=True)
            d = r.randint(14, 40)
            add(d=d, m=r.choice([0, 1, 2, 3, d - 2]), mode=mode, N=r.choice([130, 257, 300]), real=r.random() < 0.4, data=r.choice(["generic", "sub", "nan", "weights"]))
    for mode in modes:
        d = r.randint(4, 5)
        add(d=d, m=r.randint(1, d - 2), mode=mode, N=r.randint(2100, 2700), real=r.random() < 0.5, data="peaked", steps=True)
    return cs
