import itertools
import random
import numpy as np
from obs import *
from dreimac import combinatorial as C
from dreimac.utils import CohomologyUtils as CU


def run(c):
    return {"big": big, "bigcob": bigcob, "dense": many, "num": num, "perm": perm, "vec": vec, "cob": cob}[c["do"]](c)


def num(c):
    n, d = c["n"], c["d"]
    table = C.combinatorial_number_system_table(n + c["extra"], d)
    simp = [list(s) for s in itertools.combinations(range(n), d + 1)]
    gen = [int(C.combinatorial_number_system_forward(np.array(s), table)) for s in simp]
    spec = []
    if d == 1:
        spec = [int(C.combinatorial_number_system_d1_forward(s[0], s[1], table)) for s in simp]
    if d == 2:
        spec = [int(C.combinatorial_number_system_d2_forward(s[0], s[1], s[2], table)) for s in simp]
    bigtable = C.combinatorial_number_system_table(n + 3, d + 1)
    other = [int(C.combinatorial_number_system_forward(np.array(s), bigtable)) for s in simp]
    return [{"kind": "number", "n": n, "d": d, "simp": simp, "gen": gen, "spec": spec, "other": other,
             "count": int(C.number_of_simplices_of_dimension(d, n, table))}]


def limbs(x):
    """a whole number by its digits in base 10^4, lowest first; not a whole number: <<-1>>"""
    x = int(x) if float(x) == int(x) else -1
    if x < 0:
        return [-1]
    out = []
    while x:
        out.append(x % 10000)
        x //= 10000
    return out


def big(c):
    """many vertices: the numbers have more than 32 bits"""
    r = random.Random(c["s"])
    n, d = c["n"], c["d"]
    table = C.combinatorial_number_system_table(n + c["extra"], max(d, 2))
    S = {tuple(range(n - d - 1, n)), tuple(range(d + 1))}
    while len(S) < 60:
        hi = r.choice([n, n, max(d + 2, n // 3)])
        S.add(tuple(sorted(r.sample(range(hi), d + 1))))
    S = sorted(S)
    gen = [limbs(C.combinatorial_number_system_forward(np.array(s), table)) for s in S]
    spec = []
    if d == 1:
        spec = [limbs(C.combinatorial_number_system_d1_forward(s[0], s[1], table)) for s in S]
    if d == 2:
        spec = [limbs(C.combinatorial_number_system_d2_forward(s[0], s[1], s[2], table)) for s in S]
    return [{"kind": "bignumber", "n": n, "d": d, "simp": [list(s) for s in S], "gen": gen, "spec": spec,
             "count": limbs(C.number_of_simplices_of_dimension(d, n, table))}]


def sparse_rows(M):
    """nonzero rows: <<number, entries>>"""
    A = M.tocsr()
    A.sum_duplicates()
    out = []
    for i in range(A.shape[0]):
        row = sorted((int(j), ints(v)) for j, v in zip(A.indices[A.indptr[i]:A.indptr[i + 1]], A.data[A.indptr[i]:A.indptr[i + 1]]) if v)
        if row:
            out.append([i, [list(x) for x in row]])
    return {"shape": shape(A), "rows": out}


def bigcob(c):
    """operators on many vertices, few of the simplices within the threshold"""
    r = random.Random(c["s"])
    n = c["n"]
    D = np.full((n, n), 9, dtype=int)
    np.fill_diagonal(D, 0)
    near = r.sample(range(n), 10)
    near[0] = n - 1
    pairs = [(a, b) for a in near for b in near if a < b and r.random() < 0.75] + [tuple(r.sample(range(n), 2)) for _ in range(30)]
    for a, b in pairs:
        D[a, b] = D[b, a] = r.choice([1, 2, 3, 4])
    table = C.combinatorial_number_system_table(n, 3)
    thr = 4
    E = sorted((a, b) for a in range(n) for b in range(a + 1, n) if D[a, b] < thr)
    has = set(E)
    T = sorted((a, b, x) for a, b in E for x in range(b + 1, n) if (a, x) in has and (b, x) in has)
    Q = sorted((a, b, x, y) for a, b, x in T for y in range(x + 1, n) if (a, y) in has and (b, y) in has and (x, y) in has)
    faces = sorted({f for t in T for f in itertools.combinations(t, 2)} | has)
    num_of = lambda ss: [int(C.combinatorial_number_system_forward(np.array(s), table)) for s in ss]
    near_rows = [[i, j, int(D[i, j])] for i in range(n) for j in range(i + 1, n) if D[i, j] < 9]
    Df = D.astype(float)
    return [{"kind": "bigcoboundary", "n": n, "close": near_rows, "thr": thr, "edges": [list(s) for s in faces], "eidx": num_of(faces), "tris": [list(s) for s in T], "tidx": num_of(T),
             "tets": [list(s) for s in Q], "sizes": [n * (n - 1) // 2, n * (n - 1) * (n - 2) // 6],
             "d0": sparse_rows(CU.make_delta0(Df, float(thr), table)), "d1": sparse_rows(CU.make_delta1(Df, float(thr), table)),
             "d1c": sparse_rows(CU.make_delta1_compact(Df, float(thr), table)), 
             "d2c": sparse_rows(CU.make_delta2_compact(Df, float(thr), table)) if n < 100 else {}, "third": n < 100}]


def many(c):
    """so many simplices that their number does not fit in 15 bits"""
    n, d = c["n"], c["d"]
    r = random.Random(c["s"])
    D = np.array([[0.0 if i == j else 1.0 for j in range(n)] for i in range(n)])
    a, b = r.sample(range(n), 2)
    D[a, b] = D[b, a] = 5.0
    table = C.combinatorial_number_system_table(n, 3)
    M = (CU.make_delta1_compact if d == 1 else CU.make_delta2_compact)(D, 2.0, table)
    faces = [list(f) for f in itertools.combinations(range(n), d + 1)]
    return [{"kind": "dense", "n": n, "d": d, "missing": sorted([a, b]), "faces": faces, "fidx": [int(C.combinatorial_number_system_forward(np.array(f), table)) for f in faces],
             "M": sparse_rows(M)}]


def perm(c):
    out = []
    for i, p in enumerate(itertools.permutations(range(c["m"]))):
        verts = np.array([3 * v + 1 for v in p])
        s, sign = CU.order_simplex(verts.copy())
        out.append({"perm": [int(v) for v in verts], "parity": int(CU.parity(np.argsort(verts))),
                    "sorted": [int(v) for v in s], "sign": int(sign)})
    return [{"kind": "parity", "m": c["m"], "perms": out}]


def vec(c):
    r = random.Random(c["s"])
    n, d = c["n"], c["d"]
    simp = [list(s) for s in itertools.combinations(range(n), d + 1)]
    k = r.randint(0, min(len(simp), 12))
    rows = []
    for s in r.sample(simp, k):
        s = list(s)
        r.shuffle(s)
        rows.append(s + [r.choice([-3, -2, -1, 1, 2, 3, 7, 20])])
    table = C.combinatorial_number_system_table(n, max(d, 2))
    idx = [int(C.combinatorial_number_system_forward(np.array(s), table)) for s in simp]
    arr = np.array(rows, dtype=int).reshape(len(rows), d + 2)
    v = CU.sparse_cocycle_to_vector(arr.copy(), table, n, r.choice([int, float]))
    return [{"kind": "vector", "n": n, "d": d, "simp": simp, "idx": idx, "rows": rows, "vec": ints(v)}]


def metric(r, n, how):
    D = np.zeros((n, n), dtype=int)
    for i in range(n):
        for j in range(i + 1, n):
            if how == "rand":
                x = r.randint(1, 100)
            elif how == "ties":
                x = r.choice([1, 2, 3])
            elif how == "grid":
                x = abs(i // 3 - j // 3) + abs(i % 3 - j % 3)
            else:
                x = r.randint(1, 5)
            D[i, j] = D[j, i] = x
    return D


def dense(M):
    """the nonzero entries of each row, as <<column, value>>, by column"""
    A = M.toarray()
    return {"shape": shape(M), "rows": [[[int(j), ints(row[j])] for j in np.nonzero(row)[0]] for row in A]}


def cob(c):
    r = random.Random(c["s"])
    n = c["n"]
    D = metric(r, n, c["how"])
    if c["how"] == "full":
        num, den, thr = 1000, 1, 1000.0
    elif c["how"] == "empty":
        num, den, thr = 0, 1, 0.0
    elif c["how"] == "inf":
        num, den, thr = 2000000, 1, np.inf
    elif c["how"] == "rand":
        num, den = 2 * r.randint(10, 90) + r.randint(0, 1), 2
        thr = num / den
    else:
        num, den = r.choice([(2, 1), (3, 1), (5, 2), (4, 1)])
        thr = num / den
    table = C.combinatorial_number_system_table(n + c["extra"], 3)
    edges = [list(s) for s in itertools.combinations(range(n), 2)]
    tris = [list(s) for s in itertools.combinations(range(n), 3)]
    tets = [list(s) for s in itertools.combinations(range(n), 4)]
    num_of = lambda ss: [int(C.combinatorial_number_system_forward(np.array(s), table)) for s in ss]
    dt = r.choice([float, float, np.float32]) if c["how"] != "rand" else float
    Dm = D.astype(dt)
    ev = {"kind": "coboundary", "n": n, "D": ints(D), "num": num, "den": den,
          "edges": edges, "eidx": num_of(edges), "tris": tris, "tidx": num_of(tris), "tets": tets, "qidx": num_of(tets),
          "d0": dense(CU.make_delta0(Dm, thr, table)), "d1": dense(CU.make_delta1(Dm, thr, table)),
          "d1c": dense(CU.make_delta1_compact(Dm, thr, table)), "d2c": dense(CU.make_delta2_compact(Dm, thr, table))}
    full = getattr(CU, "make_delta2", None)
    ev["d2"] = dense(full(Dm, thr, table)) if full is not None else {"shape": [0, 0], "rows": []}
    ev["hasd2"] = full is not None
    ev["unchanged"] = bool((Dm == D).all())
    return [ev]
