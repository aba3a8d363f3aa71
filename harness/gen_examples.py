"""Cases for C18: example generators."""
import random


def cases(prop, tier, seed):
    r = random.Random(188 + seed)
    m = 6 if tier == "thorough" else 1
    cs = []

    def add(kind, jit=False, **a):
        cs.append(dict({"id": "%s-%d" % (kind, len(cs)), "kind": kind, "args": a}, **({"jit": True, "limit": 200} if jit else {})))

    # sizes: none of them special
    sizes = [1, 2, 3, 7, 40, 250]
    for i in range(12 * m):
        R = r.choice([1.5, 2, 3, 4.25, 5])
        q = r.choice([0.25, 0.5, 1, 1.25])
        n = sizes[i % 6]
        for kind in ("torus", "klein"):
            add(kind, n=n, R=R, r=q, seed=[None, 0, r.randrange(10**6)][(i + i // 6) % 3], other=r.randrange(10**6))
    for i in range(12 * m):
        add("rp2", n=[1, 2, 3, 9, 25, 40][i % 6], seed=[None, 0, r.randrange(10**6)][(i + i // 6) % 3], other=r.randrange(10**6))
    for i in range(10 * m):
        add("trefoil", n=[1, 3, 40, 250, None][i % 5], w=r.choice([None, 2, 3, 4.5, 6]), noisy=[True, False, None][(i + i // 5) % 3])
    for n in sizes + [r.randint(10, 300) for _ in range(4 * m)]:
        add("sphere", n=n)
    for i in range(12 * m):
        add("noisy", n=sizes[i % 6], noise=r.choice([None, 0, 0.05, 0.5, 1]), seed=r.choice([None, 0, r.randrange(10**6)]), other=1 + r.randrange(10**6))
    add("bullseye")
    add("three")
    add("genus2")
    for i in range(10 * m):
        add("lines", dim=r.choice([2, 3, 5, 8]), angles=r.choice([1, 2, 3, 4, 6, 8]), offsets=r.choice([1, 2, 3, 5, 6]), sigma=r.choice([0.25, 0.5, 1, 2]))
    for i in range(10 * m):
        add("dots", s=r.choice([2, 3, 4, 5]), sigma=[None, 2, 3, 5, 8][i % 5], dim=[None, 3, 4, 6, 10, 15][i % 6])
    for i in range(9 * m):
        add("moore", jit=i < 3, n=r.choice([12, 20, 30, 45]), q=[2, 3, 5, 7, 11, None, 3, 2, 13][i % 9])
    add("moore", n=400, q=3)
    # seeds a power or a period apart
    far = random.Random(11888 + seed)
    for i in range(24 * m):
        kind = ["torus", "klein", "rp2", "noisy"][i % 4]
        s = far.choice([1, 7, 42, 99, 255, 4321, 70000])
        a = {"n": far.choice([3, 9, 30]), "seed": s, "other": s + [10, 100, 256, 1000, 65536, 2**31 - 100000][(i // 4) % 6]}
        a.update({"noise": None} if kind == "noisy" else {} if kind == "rp2" else {"R": 3, "r": 1})
        add(kind, **a)
    return cs
