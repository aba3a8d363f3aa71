"""Scenario generation shared by the checks of the coordinate pipelines (no code under test here).

A scenario is a small landmark metric with integer distances.  All distances are later multiplied by 64,
so that filtration scales, radii and probe distances are exact in floating point and in the specification.
"""
import itertools, math, random


# ---------------------------------------------------------------- graphs: (n, set of edges)
def norm(es):
    return sorted({(min(a, b), max(a, b)) for a, b in es if a != b})


def cycle(m):
    return m, norm((i, (i + 1) % m) for i in range(m))


def theta(r):
    n, es = 2, []
    for _ in range(r.randint(2, 4)):
        k = r.randint(1, 3)
        prev = 0
        for _ in range(k):
            es.append((prev, n))
            prev = n
            n += 1
        es.append((prev, 1))
    return n, norm(es)


def bouquet(r, k=None):
    n, es = 1, []
    for _ in range(k or r.randint(2, 4)):
        m = r.randint(4, 5)
        prev = 0
        for _ in range(m - 1):
            es.append((prev, n))
            prev = n
            n += 1
        es.append((prev, 0))
    return n, norm(es)


def sparse(r, n=None, extra=None):
    n = n or r.randint(7, 12)
    es = [(r.randrange(i), i) for i in range(1, n)]
    for _ in range(extra or r.randint(2, 6)):
        a, b = r.sample(range(n), 2)
        es.append((a, b))
    return n, norm(es)


def bipartite(r, n, extra):
    """connected, without triangles: many classes that overlap"""
    es = set()
    for i in range(1, n):
        es.add((r.choice([j for j in range(i) if (i - j) % 2]), i))
    while len(es) < n - 1 + extra:
        a, b = r.sample(range(n), 2)
        if (a - b) % 2:
            es.add((min(a, b), max(a, b)))
    return n, norm(es)


def flag(r, n=None, q=None):
    n = n or r.randint(7, 11)
    q = q or r.choice([0.35, 0.45, 0.55])
    return n, norm((i, j) for i in range(n) for j in range(i) if r.random() < q)


def annulus(m, twist=False, layers=2):
    """triangulated band: layers x m vertices; twist identifies with a flip (Moebius)"""
    es = []
    at = lambda l, i: ((layers - 1 - l) if (twist and (i // m) % 2) else l) * m + i % m
    for l in range(layers):
        for i in range(m):
            es.append((at(l, i), at(l, i + 1)))
            if l + 1 < layers:
                es.append((at(l, i), at(l + 1, i)))
                es.append((at(l, i), at(l + 1, i + 1)))
    return layers * m, norm(es)


def torus(a, b, klein=False):
    es = []

    def at(i, j):
        if klein and (i // a) % 2:
            j = -j
        return (i % a) * b + j % b
    for i in range(a):
        for j in range(b):
            es += [(at(i, j), at(i + 1, j)), (at(i, j), at(i, j + 1)), (at(i, j), at(i + 1, j + 1))]
    return a * b, norm(es)


def faces_to_graph(tris):
    vs = sorted({v for t in tris for v in t})
    ix = {v: i for i, v in enumerate(vs)}
    return len(vs), norm((ix[a], ix[b]) for t in tris for a, b in itertools.combinations(t, 2))


def subdivide(tris):
    """barycentric subdivision (always a flag complex)"""
    out = []
    for t in tris:
        t = tuple(t)
        for p in itertools.permutations(t):
            out.append((frozenset(p[:1]), frozenset(p[:2]), frozenset(p)))
    names = {}
    res = set()
    for ch in out:
        res.add(tuple(sorted(names.setdefault(x, len(names)) for x in ch)))
    return [list(t) for t in res]


RP2_6 = [(0, 1, 2), (0, 2, 3), (0, 3, 4), (0, 4, 5), (0, 1, 5), (1, 2, 4), (2, 4, 5), (2, 3, 5), (1, 3, 5), (1, 3, 4)]


def moore_tris(q):
    """disk whose boundary walks q times around a triangle 0,1,2: H_1 = Z/q"""
    m = 3 * q
    outer = [i % 3 for i in range(m)]
    inner = [3 + i for i in range(m)]
    c = 3 + m
    t = []
    for i in range(m):
        j = (i + 1) % m
        t += [(outer[i], outer[j], inner[i]), (outer[j], inner[i], inner[j]), (inner[i], inner[j], c)]
    return t


def shrink(n, es, r):
    """contract edges as long as the flag complex keeps its homotopy type (no induced square through the edge)"""
    adj = {i: set() for i in range(n)}
    for a, b in es:
        adj[a].add(b)
        adj[b].add(a)
    while True:
        good = []
        for a in adj:
            for b in adj[a]:
                if a < b:
                    # no induced 4-cycle a-b-y-x: x ~ a only, y ~ b only, x ~ y
                    xs, ys = adj[a] - adj[b] - {b}, adj[b] - adj[a] - {a}
                    if not any(adj[x] & ys for x in xs):
                        good.append((a, b))
        if not good:
            break
        a, b = r.choice(good)
        for y in adj.pop(b):
            adj[y].discard(b)
            if y != a:
                adj[y].add(a)
                adj[a].add(y)
    vs = sorted(adj)
    ix = {v: i for i, v in enumerate(vs)}
    return len(vs), norm((ix[a], ix[b]) for a in adj for b in adj[a])


def rp2(r):
    return shrink(*faces_to_graph(subdivide(RP2_6)), r)


def moore(r, q=3):
    return shrink(*faces_to_graph(subdivide(moore_tris(q))), r)


def union(g, h):
    return g[0] + h[0], norm(list(g[1]) + [(a + g[0], b + g[0]) for a, b in h[1]])


def wedge(g, h):
    """glue vertex 0 of both"""
    m = lambda v: 0 if v == 0 else v + g[0] - 1
    return g[0] + h[0] - 1, norm(list(g[1]) + [(m(a), m(b)) for a, b in h[1]])


def suspension(g):
    n, es = g
    return n + 2, norm(list(es) + [(i, n) for i in range(n)] + [(i, n + 1) for i in range(n)])


def join(g, h):
    n, es = union(g, h)
    return n, norm(list(es) + [(i, g[0] + j) for i in range(g[0]) for j in range(h[0])])


def shuffle(g, r):
    n, es = g
    p = list(range(n))
    r.shuffle(p)
    return n, norm((p[a], p[b]) for a, b in es)


def unit(c):
    """the power of two that is the unit of length of a case"""
    q = random.Random(c["s"] + 17)
    return q.choice([0, 0, 3, 9]) if c.get("dtype") == "int" else q.choice([0, 0, 0, -28, -11, 14])


# ---------------------------------------------------------------- metrics from graphs
def islands(r, Ds, far=2000):
    """metrics side by side, with no finite distance between them (written as a large one)"""
    pts = [(b, i) for b, D in enumerate(Ds) for i in range(len(D))]
    r.shuffle(pts)
    return [[far if x[0] != y[0] else Ds[x[0]][x[1]][y[1]] for y in pts] for x in pts]


def blocks(r, kinds, hi=12, pairs=None):
    """far apart cross-polytopes of dimension 1 (4 points) or 2 (6 points), each with its own birth and death"""
    pts = []
    for b, k in enumerate(kinds):
        a = r.randint(2, hi)
        d = r.randint(a + 1, 2 * a)
        if pairs:
            a, d = pairs[b]
        pts += [(b, i, a, d) for i in range(2 * k + 2)]
    r.shuffle(pts)
    far = 2 * max([hi] + [d for a, d in pairs or []]) + r.randint(1, 5)
    return [[0 if x == y else far if x[0] != y[0] else x[3] if x[1] // 2 == y[1] // 2 else x[2] for y in pts] for x in pts]


def metric12(g):
    n, es = g
    E = set(es)
    return [[0 if i == j else 1 if (min(i, j), max(i, j)) in E else 2 for j in range(n)] for i in range(n)]


def pathmetric(g, w=None):
    n, es = g
    big = 10 ** 6
    D = [[0 if i == j else big for j in range(n)] for i in range(n)]
    for k, (a, b) in enumerate(es):
        x = w[k] if w else 1
        D[a][b] = D[b][a] = min(x, D[a][b])
    for k in range(n):
        for i in range(n):
            for j in range(n):
                D[i][j] = min(D[i][j], D[i][k] + D[k][j])
    m = max([x for row in D for x in row if x < big] or [1])
    return [[2 * m if x >= big else x for x in row] for row in D]


def weighted(g, r, hi=3):
    return pathmetric(g, [r.randint(1, hi) for _ in g[1]])


def cloudmetric(P, c):
    """ceiling of scaled Euclidean distances is a metric"""
    n = len(P)
    D = [[0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i):
            D[i][j] = D[j][i] = max(1, math.ceil(c * math.dist(P[i], P[j])))
    return D


def circlecloud(r, n, holes=1):
    P = []
    for k in range(n):
        h = r.randrange(holes)
        a = 2 * math.pi * (k + 0.7 * r.random()) * holes / n
        P.append((3.2 * h + 1.5 * math.cos(a) + 0.1 * r.random(), 1.5 * math.sin(a) + 0.1 * r.random()))
    return P


# ---------------------------------------------------------------- exact linear algebra (certificates only)
def solve_mod(rows, rhs, p):
    """one solution x of rows x = rhs mod p, or None"""
    m = len(rows)
    n = len(rows[0]) if m else 0
    A = [[x % p for x in row] + [b % p] for row, b in zip(rows, rhs)]
    piv, rk = [], 0
    for c in range(n):
        q = next((i for i in range(rk, m) if A[i][c]), None)
        if q is None:
            continue
        A[rk], A[q] = A[q], A[rk]
        inv = pow(A[rk][c], -1, p)
        A[rk] = [x * inv % p for x in A[rk]]
        for i in range(m):
            if i != rk and A[i][c]:
                f = A[i][c]
                A[i] = [(x - f * y) % p for x, y in zip(A[i], A[rk])]
        piv.append(c)
        rk += 1
        if rk == m:
            break
    if any(A[i][n] for i in range(rk, m)):
        return None
    x = [0] * n
    for i, c in enumerate(piv):
        x[c] = A[i][n]
    return x


def kernel_mod(rows, n, p):
    """basis of {x : rows x = 0 mod p}"""
    A = [[x % p for x in row] for row in rows]
    m = len(A)
    piv, rk = [], 0
    for c in range(n):
        q = next((i for i in range(rk, m) if A[i][c]), None)
        if q is None:
            continue
        A[rk], A[q] = A[q], A[rk]
        inv = pow(A[rk][c], -1, p)
        A[rk] = [x * inv % p for x in A[rk]]
        for i in range(m):
            if i != rk and A[i][c]:
                f = A[i][c]
                A[i] = [(x - f * y) % p for x, y in zip(A[i], A[rk])]
        piv.append(c)
        rk += 1
        if rk == m:
            break
    free = [c for c in range(n) if c not in piv]
    res = []
    for f in free:
        x = [0] * n
        x[f] = 1
        for i, c in enumerate(piv):
            x[c] = (-A[i][f]) % p
        res.append(x)
    return res


def edges_below(D, num, den):
    n = len(D)
    return [(i, j) for i in range(n) for j in range(i + 1, n) if D[i][j] * den < num]


def triangles(n, E):
    S = set(E)
    return [(i, j, k) for (i, j) in E for k in range(j + 1, n) if (i, k) in S and (j, k) in S]


def fundamental_loops(n, E):
    """vertex sequences of the fundamental cycles of a spanning forest"""
    adj = {i: [] for i in range(n)}
    for a, b in E:
        adj[a].append(b)
        adj[b].append(a)
    par, depth, tree = {}, {}, set()
    for s in range(n):
        if s in par:
            continue
        par[s], depth[s] = None, 0
        queue = [s]
        for v in queue:
            for w in adj[v]:
                if w not in par:
                    par[w], depth[w] = v, depth[v] + 1
                    tree.add((min(v, w), max(v, w)))
                    queue.append(w)
    loops = []
    for a, b in E:
        if (a, b) in tree:
            continue
        x, y, left, right = a, b, [a], [b]
        while x != y:
            if depth[x] >= depth[y]:
                x = par[x]
                left.append(x)
            else:
                y = par[y]
                right.append(y)
        loops.append(left + right[-2::-1])
    return loops
