"""Histories of requests on one or two objects, and what each request gives to a fresh object."""
import contextlib, copy, hashlib, io, json, os, pickle, random, signal, struct, sys, tempfile, zlib
import numpy as np
import scipy.optimize, scipy.sparse

_milp = scipy.optimize.milp


_kept = tempfile.mkdtemp(prefix="milp_", dir=os.path.dirname(sys.argv[3]) if len(sys.argv) > 3 else None)


def _bytes(x):
    if x is None:
        return b"-"
    if scipy.sparse.issparse(x):
        x = x.tocoo()
        return repr(x.shape).encode() + b"".join(np.asarray(y).tobytes() for y in (x.data, x.row, x.col))
    return repr(np.shape(x)).encode() + np.asarray(x, dtype=float).tobytes()


def milp_in_time(c, *, integrality=None, bounds=None, constraints=None, options=None):
    """the known finding of C04 (a search without end) must not keep C14 from its question: the solver gets a time
    limit, and what it finds for a problem is kept for the run, so that the answer does not depend on the clock"""
    m = constraints
    key = hashlib.sha1(b"|".join(_bytes(x) for x in (c, integrality, bounds.lb, bounds.ub, m.A, m.lb, m.ub))).hexdigest()
    f = os.path.join(_kept, key)
    if not os.path.exists(f):
        res = _milp(c, integrality=integrality, bounds=bounds, constraints=constraints, options=dict({"time_limit": 2}, **(options or {})))
        with open(f + ".%d" % os.getpid(), "wb") as g:
            pickle.dump(res, g)
        os.replace(f + ".%d" % os.getpid(), f)
    with open(f, "rb") as g:
        return pickle.load(g)


scipy.optimize.milp = milp_in_time
import dreimac
from dreimac import CircleMapUtils, ProjectiveMapUtils, LensMapUtils, GeometryUtils, GeometryExamples, PartUnity
from dreimac.utils import CohomologyUtils, EquivariantPCA
from dreimac.combinatorial import combinatorial_number_system_table
from obs import *
from pipe import BUMPS, custom_bump

HOM = {"ComplexProjectiveCoords": 2}
UNIT = 100000


def digest(x):
    if isinstance(x, Surroundings):
        return x.look()
    if x is None or isinstance(x, type):
        return 0
    if isinstance(x, (list, tuple)):
        return zlib.crc32(repr([digest(y) for y in x]).encode()) & 0x3fffffff
    if isinstance(x, dict):
        return digest(sorted((k, digest(v)) for k, v in x.items()))
    a = np.asarray(x)
    if a.dtype == object:
        return digest([digest(y) for y in a.ravel().tolist()])
    return zlib.crc32(repr((a.dtype.str, a.shape)).encode() + a.tobytes()) & 0x3fffffff


def flat(x, circ):
    """what the specification compares: a list of whole numbers"""
    if isinstance(x, dict):
        return sum([flat(x[k], circ) for k in sorted(x)], [])
    if isinstance(x, (list, tuple)):
        return sum([flat(y, circ) for y in x], [])
    a = np.asarray(x)
    v = [int(n) for n in a.shape]
    a = a.ravel()
    step = max(1, len(a) // 40)
    a = a[::step]
    if circ:
        return v + turns(a, UNIT)
    if np.iscomplexobj(a):
        return v + [fx(z, UNIT) for y in a for z in (y.real, y.imag)]
    return v + fxs(a.astype(float), UNIT)


def invariants(x):
    """of projective coordinates: absolute inner products of some points"""
    x = np.asarray(x)
    q = list(range(0, len(x), max(1, len(x) // 9)))
    return np.abs(x[q] @ np.conj(x[q]).T)


class Surroundings:
    """state of the process that the package shares with everyone else"""

    def look(self):
        return zlib.crc32(repr([[x.tobytes() if isinstance(x, np.ndarray) else x for x in np.random.get_state()], random.getstate(), sorted(np.geterr().items()),
                                sorted(map(repr, np.get_printoptions().items())), os.getcwd()]).encode()) & 0x3fffffff


class World:
    """an object, or two objects on the same data, and everything that was handed out"""

    def __init__(self, c):
        self.c = c
        r = random.Random(c["s"])
        D = np.array(c["D"], dtype=float) * 64
        n = len(D)
        extra = 14
        X = np.zeros((n, n + extra))
        X[:, :n] = D
        rng = np.random.default_rng(c["s"])
        for q in range(extra):
            i = r.randrange(n)
            X[:, n + q] = np.maximum(1, D[i] + rng.integers(-60, 60, n))
            X[i, n + q] = rng.integers(1, 30)
        if c["s"] % 3 == 0:
            X = X[:, :n]
        self.X = np.array(X, dtype=[float, np.float32, int][c["s"] % 7 % 3])
        self.nl = n - (1 if c["s"] % 5 == 0 and not c["cls"].startswith("Complex") and n > 9 else 0)
        self.kw = {} if c["cls"] == "ProjectiveCoords" else {"prime": c["p"]}
        self.Cls = getattr(dreimac, c["cls"])
        self.hd = HOM.get(c["cls"], 1)
        self.objs = {}
        self.handed = []          # last handed out coordinates and cocycles, for the utilities
        self.cocycle = None
        self.tracked = [("data", self.X), ("surroundings", Surroundings())]
        self.early = []
        self.results = []         # what requests returned
        self.touched = []

    def obj(self, which):
        if which not in self.objs:
            kw = dict(self.kw)
            if which and self.c["two"] == 2 and "prime" in kw:
                kw["prime"] = {2: 3, 3: 2, 5: 3, 41: 3, 7: 3}[kw["prime"]]
            ob = self.Cls(self.X, self.nl, distance_matrix=True, **kw)
            self.objs[which] = ob
            for d in range(1, self.hd + 1):
                dg = (ob._dgms if hasattr(ob, "_dgms") else ob.dgms_)[d]
                self.tracked.append(("diagram", dg))
                for k in range(len(dg)):
                    self.tracked.append(("cocycle", ob.get_representative_cocycle(k, d)[2]))
        return self.objs[which]

    def place(self, key):
        """object and class for a class of the specification"""
        which = key - 1 if self.c["two"] else 0
        ob = self.obj(which)
        dg = ob._dgms if hasattr(ob, "_dgms") else ob.dgms_
        n = len(dg[self.hd])
        k = 0 if key == 1 else max(0, n - 1) if self.c["s"] % 2 else min(1, n - 1)
        return ob, max(0, k), n

    def turned(self, s, ob, k, n):
        """the request for a setting of the dials"""
        cls, v = self.c["cls"], self.c["s"]
        circ = cls in ("CircularCoords", "ToroidalCoords")
        other = (k + 1) % n if n > 1 else k
        a = {"perc": [0.625, 0.875][s["perc"]], "partunity_fn": [PartUnity.linear, PartUnity.quadratic, PartUnity.exp, custom_bump][2 * (v // 2 % 2) + s["bump"]],
             "standard_range": bool(s["range"] != self.c["short"])}
        if circ or cls.startswith("Complex"):
            a["check_cocycle_condition"] = s["check"] == 0
        if cls == "ToroidalCoords":
            a["cocycle_idxs"] = [[k], [other], [k, other] if other != k else [k]][(s["class"] + v) % 3]
        else:
            a["cocycle_idx"] = [k, other][s["class"]]
        if not circ:
            m = min([3, 2][s["dim"]], ob._n_landmarks - 1)
            a["complex_dim" if cls == "LensCoords" else "proj_dim"] = m + (1 if cls == "LensCoords" else 0)
            a["projective_dim_red_mode"] = [["exponential", "direct"], ["one-by-one", "direct"], ["one-by-one", "exponential"]][v % 3][s["mode"]]
        return a

    def request(self, kind, key):
        ob, k, n = self.place(key)
        cls = self.c["cls"]
        circ = cls in ("CircularCoords", "ToroidalCoords")
        lists = []
        a = {"perc": 0.625, "standard_range": self.c["short"]}
        if kind == "other":
            a["perc"], a["partunity_fn"] = 0.875, PartUnity.quadratic
        elif kind == "both":
            a["perc"], a["partunity_fn"] = 0.625, custom_bump
        elif kind == "unchecked" and (circ or cls.startswith("Complex")):
            a["check_cocycle_condition"] = False
        elif kind == "infeasible":
            a["standard_range"], a["perc"] = True, 0.25
        if kind == "missing":
            k = 50
        idx = [k]
        if kind == "both" and n > 1:
            idx = [k, (k + 1) % n]
        if cls == "ToroidalCoords":
            a["cocycle_idxs"] = idx
            lists.append(idx)
        else:
            a["cocycle_idx"] = idx[-1]
        if not circ:
            m = {"plain": ob._n_landmarks - 1, "other": 2, "both": 3}.get(kind, 1)
            m = min(m, ob._n_landmarks - 1)
            a["complex_dim" if cls == "LensCoords" else "proj_dim"] = m + (1 if cls == "LensCoords" else 0)
            a["projective_dim_red_mode"] = {"other": "direct", "both": "one-by-one"}.get(kind, "exponential")
        if kind == "infeasible" and k == 0:
            a = {}                   # the defaults
        if kind.startswith("{"):
            a = self.turned(json.loads(kind), ob, k, n)
            lists = [a["cocycle_idxs"]] if "cocycle_idxs" in a else []
        for x in lists:
            self.given(x)
        with contextlib.redirect_stdout(io.StringIO()):
            o = call(ob.get_coordinates, **a)
        if not o["ok"]:
            return False, o["exc"] + " " + o["msg"], [], []
        v = o["val"]
        self.tracked.append(("result", v))
        self.handed.append((circ, v))
        self.results.append(v)
        return True, "", flat(v if circ else invariants(v), circ), [len(o["warn"])]

    def given(self, x):
        """an argument: it is watched from before the call"""
        self.tracked.append(("argument", x))
        self.early.append(digest(x))

    def report(self, key):
        ob, k, n = self.place(key)
        if n == 0:
            return True, "", [], []
        b, d, z = ob.get_representative_cocycle(k, self.hd)
        self.tracked.append(("reported", z))
        self.cocycle = z
        return True, "", [fx(b, 100), fx(d, 100)] + flat(z, False), []

    def util(self, kind):
        """pure utilities on what was handed out last"""
        res = []
        if kind == "vector" and self.cocycle is not None:
            n = self.nl
            t = combinatorial_number_system_table(n, 3)
            self.given(t)
            res.append(CohomologyUtils.sparse_cocycle_to_vector(self.cocycle, t, n, int))
        elif self.handed:
            circ, v = self.handed[-1]
            if circ:
                m = np.atleast_2d(np.asarray(v, dtype=float))
                f = np.asarray(v[0] if isinstance(v, list) or np.ndim(v) > 1 else v)
                g = f[~np.isnan(f)]
                mat = np.ones((2, len(m)), dtype=int)
                self.given(mat)
                res = [CircleMapUtils.offset(f, 0.3), CircleMapUtils.to_sinebow(f), CircleMapUtils.levelset_coloring(f, 3, 0.2),
                       CircleMapUtils.levelset_coloring(f, 3, 0), CircleMapUtils.linear_combination(m, mat), CircleMapUtils.linear_combination(list(m), list(mat[0]))]
                if len(g):
                    res.append(CircleMapUtils.center(g))
            else:
                ppca = EquivariantPCA.ppca(v, 1, ["direct", "exponential", "one-by-one"][len(self.handed) % 3])
                self.tracked.append(("result", ppca["X"]))
                w = np.asarray(v)
                w = w[~np.isnan(w).any(axis=1)][:6]
                if len(w) and w.shape[1] == 2 and np.iscomplexobj(w):
                    res += [ProjectiveMapUtils.hopf_map(w), LensMapUtils.lens_3D_to_disk_3D(w, 3)]
                if len(w) and not np.iscomplexobj(w):
                    u = w[0]
                    s = np.eye(w.shape[1])[0]
                    res += [ProjectiveMapUtils.rotmat(u), ProjectiveMapUtils.get_stereo_proj_codim1(w, s), GeometryUtils.get_csm(w, w), GeometryUtils.get_csm_projarc(w, w)]
        for x in res:
            self.tracked.append(("result", x))
        return True, "", sum([flat(x, False) for x in res], []), []

    def write(self):
        """the user writes into the coordinates that were handed out last"""
        if self.handed:
            circ, v = self.handed[-1]
            arrays = [a for a in (v if isinstance(v, (list, tuple)) else [v]) if isinstance(a, np.ndarray) and a.flags.writeable]
            for a in arrays:
                a[...] = (a[..., ::-1] + 1) % (2 * np.pi) if circ else a[::-1].copy()
            # what a utility made of them may share their memory, another answer or the object may not
            self.touched = [i for i, (name, x) in enumerate(self.tracked) if x is v or
                            name == "result" and not any(x is y for y in self.results) and isinstance(x, np.ndarray) and any(np.may_share_memory(x, a) for a in arrays)]
        return True, "", [], []

    def do(self, op):
        what, kind, key = op
        self.touched = []
        if what == "write":
            return self.write()
        if what == "request":
            return self.request(kind, key)
        if what == "report":
            return self.report(key)
        return self.util(kind)

    def digests(self):
        return [digest(x) for _, x in self.tracked]


def fresh(c, ops, i):
    """the answer of an object that has seen nothing else (utilities need what they are applied to)"""
    w = World(c)
    what, kind, key = ops[i]
    if what == "util":
        last = [j for j in range(i) if (ops[j][0] == "request" if kind != "vector" else ops[j][0] == "report")]
        for j in reversed(last):
            w = World(c)
            if w.do(ops[j])[0]:
                n = len(w.handed)
                break
    return w.do(ops[i])


def apart(c, ops, i):
    """the same in a process of its own, so that nothing the module remembers can reach it"""
    if c.get("jit"):
        return fresh(c, ops, i)
    return SERVER.ask((c, ops, i))


class Server:
    """a process forked before any request ran (and before the solver started its threads); it answers each question in
    a child of its own"""

    def __init__(self):
        qr, qw = os.pipe()
        ar, aw = os.pipe()
        if os.fork() == 0:
            try:
                os.close(qw)
                os.close(ar)
                self.serve(os.fdopen(qr, "rb"), os.fdopen(aw, "wb"))
            finally:
                os._exit(0)
        os.close(qr)
        os.close(aw)
        self.q, self.a, self.n = os.fdopen(qw, "wb"), os.fdopen(ar, "rb"), 0

    def serve(self, q, a):
        while True:
            head = q.read(8)
            if len(head) < 8:
                return
            n, size = struct.unpack("<II", head)
            job = pickle.loads(q.read(size))
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                signal.alarm(25)
                try:
                    with os.fdopen(w, "wb") as f:
                        pickle.dump(fresh(*job), f)
                finally:
                    os._exit(0)
            os.close(w)
            with os.fdopen(r, "rb") as f:
                data = f.read()
            os.waitpid(pid, 0)
            a.write(struct.pack("<II", n, len(data)) + data)
            a.flush()

    def ask(self, job):
        self.n += 1
        data = pickle.dumps(job)
        self.q.write(struct.pack("<II", self.n, len(data)) + data)
        self.q.flush()
        while True:
            n, size = struct.unpack("<II", self.a.read(8))
            data = self.a.read(size)
            if n == self.n:             # else the answer to a question given up
                return pickle.loads(data) if data else (False, "the process ended", [], [])


def history(c):
    ops = [tuple(x) for x in c["hist"]]
    want, again = {}, {}
    for i, op in enumerate(ops):
        if op[0] not in ("util", "write") and op not in want:
            want[op] = apart(c, ops, i)
            again[op] = apart(c, ops, i)
    w = World(c)
    w.obj(0)
    if c["two"]:
        w.obj(1)
    digs = [w.digests()]
    steps = []
    for i, op in enumerate(ops):
        w.early = []
        ok, exc, res, warn = w.do(op)
        digs[-1] = digs[-1] + w.early
        digs.append(w.digests())
        steps.append({"op": op[0], "kind": op[1], "key": op[2], "ok": ok, "exc": exc[:80], "res": res, "warn": warn, "touched": [i + 1 for i in w.touched]})
    names = [n for n, _ in w.tracked]
    for i, op in enumerate(ops):
        s = steps[i]
        f = want.get(op)
        if f is None:
            # a utility: its answer to copies of the same arguments is recorded by the "pure" cases
            s["fok"], s["fexc"], s["fres"], s["fwarn"], s["stable"] = s["ok"], s["exc"], s["res"], s["warn"], True
            continue
        s["fok"], s["fexc"], s["fres"], s["fwarn"] = f[0], f[1][:80], f[2], f[3]
        s["stable"] = f == again[op]
    # after everything, a fresh object still gives the same answers
    late = []
    for op in want:
        g = fresh(c, ops, ops.index(op))
        late.append({"ok": g[0], "exc": g[1][:80], "res": g[2], "warn": g[3], "fok": want[op][0], "fexc": want[op][1][:80], "fres": want[op][2], "fwarn": want[op][3],
                     "stable": want[op] == again[op]})
    return [{"kind": "life", "cls": c["cls"], "fam": c["fam"], "circ": c["cls"] in ("CircularCoords", "ToroidalCoords"), "steps": steps, "late": late, "digests": digs, "names": names}]


# ---------------------------------------------------------------- utilities documented as pure
def arguments(r, rng):
    n = r.randint(5, 30)
    th = rng.random(n) * 2 * np.pi
    maps = rng.random((3, n)) * 2 * np.pi
    S = rng.standard_normal((n, 3))
    S /= np.linalg.norm(S, axis=1)[:, None]
    Z = rng.standard_normal((n, 2)) + 1j * rng.standard_normal((n, 2))
    Z /= np.linalg.norm(Z, axis=1)[:, None]
    W = rng.standard_normal((n, 5)) + 1j * rng.standard_normal((n, 5)) * (r.random() < 0.5)
    W /= np.linalg.norm(W, axis=1)[:, None]
    C = rng.random((n, 3)) * 10
    D = np.sqrt(((C[:, None] - C[None]) ** 2).sum(2))
    pt = rng.standard_normal(2) * r.choice([0.3, 1, 3])
    m = r.randint(4, 8)
    rows = np.array([r.sample(range(m), 2) + [r.randint(0, 4)] for _ in range(6)])
    rows3 = np.array([r.sample(range(m), 3) + [r.randint(0, 4)] for _ in range(6)])
    t = combinatorial_number_system_table(m, 3)
    E = np.array([[0.0 if i == j else float(abs(i - j) % 5 + 1) for j in range(m)] for i in range(m)])
    mode = r.choice(["direct", "exponential", "one-by-one"])
    d = r.randint(0, 4)
    k = r.randint(1, n)
    ab = [rng.standard_normal(4), rng.standard_normal(4)]
    cm, pm, gu, cu, pu, ge = CircleMapUtils, ProjectiveMapUtils, GeometryUtils, CohomologyUtils, PartUnity, GeometryExamples
    ds = rng.random(n)
    plain = lambda f: (lambda *a: f(*a))
    dense = lambda f: (lambda *a: f(*a).toarray())
    return [("offset", plain(cm.offset), (th, r.random())), ("center", plain(cm.center), (th,)), ("to_sinebow", plain(cm.to_sinebow), (th,)),
            ("linear_combination", plain(cm.linear_combination), (maps, rng.integers(-3, 4, (2, 3)))), ("linear_combination of lists", plain(cm.linear_combination), (list(maps), [1, -2, 0])),
            ("levelset_coloring", plain(cm.levelset_coloring), (th, 3, r.choice([0, 0.2]))), ("get_stereo_proj_codim1", plain(pm.get_stereo_proj_codim1), (S,)),
            ("get_stereo_proj_codim1 with a pole", plain(pm.get_stereo_proj_codim1), (S, S[0].copy())), ("circle_to_3dnorthpole", plain(pm.circle_to_3dnorthpole), (pt,)),
            ("hopf_map", plain(pm.hopf_map), (Z,)), ("stereographic_projection_hemispheres", plain(pm.stereographic_projection_hemispheres), (S, S[1].copy())),
            ("rotmat", plain(pm.rotmat), tuple(ab)), ("lens_3D_to_disk_3D", plain(LensMapUtils.lens_3D_to_disk_3D), (Z, 3)),
            ("ppca", plain(EquivariantPCA.ppca), (W, d, mode)), ("get_csm", plain(gu.get_csm), (C, C[:3].copy())), ("get_csm_projarc", plain(gu.get_csm_projarc), (S, S[:3].copy())),
            ("get_ssm", plain(gu.get_ssm), (C,)), ("get_greedy_perm_pc", plain(gu.get_greedy_perm_pc), (C, k)), ("get_greedy_perm_dm", plain(gu.get_greedy_perm_dm), (D, k)),
            ("landmark_geodesic_distance", plain(gu.landmark_geodesic_distance), (C, min(k, n - 1), min(4, n))),
            ("sparse_cocycle_to_vector", plain(cu.sparse_cocycle_to_vector), (rows, t, m, int)), ("sparse_cocycle_to_vector in degree two", plain(cu.sparse_cocycle_to_vector), (rows3, t, m, int)),
            ("parity", plain(cu.parity), (list(rng.permutation(5)),)), ("order_simplex", plain(cu.order_simplex), (np.array(r.sample(range(9), 3)),)),
            ("make_delta0", dense(cu.make_delta0), (E, 3.5, t)), ("make_delta1", dense(cu.make_delta1), (E, 3.5, t)), ("make_delta1_compact", dense(cu.make_delta1_compact), (E, 3.5, t)),
            ("make_delta2_compact", dense(cu.make_delta2_compact), (E, 4.5, t)), ("linear", plain(pu.linear), (ds, 1.0)), ("quadratic", plain(pu.quadratic), (ds, 1.0)), ("exp", plain(pu.exp), (ds * 0.9, 1.0)),
            ("torus_3d", plain(ge.torus_3d), (n, 3, 1, m)), ("klein_bottle_4d", plain(ge.klein_bottle_4d), (n, 3, 1, m)), ("rp2_metric", plain(ge.rp2_metric), (n, m)),
            ("noisy_circle", plain(ge.noisy_circle), (n, 0.2, m)), ("line_patches", plain(ge.line_patches), (4, 3, 2, 0.25)), ("moving_dot", plain(ge.moving_dot), (3,)),
            ("combinatorial_number_system_table", plain(combinatorial_number_system_table), (m, 2))]


def turn(x):
    """other contents in the same array"""
    if isinstance(x, list) and all(isinstance(y, np.ndarray) for y in x):
        for y in x:
            turn(y)
    elif isinstance(x, np.ndarray) and x.dtype.kind in "fc" and x.flags.writeable:
        x[...] = (x[::-1, ::-1] if x.ndim == 2 and x.shape[0] == x.shape[1] else x[::-1]).copy()


def purity(c):
    r = random.Random(c["s"])
    rng = np.random.default_rng(c["s"])
    evs = []
    results = []
    for name, f, args in arguments(r, rng):
        kept = copy.deepcopy(args)
        before = [digest(a) for a in args]
        first = call(f, *args)
        after = [digest(a) for a in args]
        d1 = digest(first["val"]) if first["ok"] else 0
        second = call(f, *kept)
        third = call(f, *args)
        fl = lambda o: flat(o["val"], False) if o["ok"] else []
        evs.append({"kind": "pure", "what": name, "before": before, "after": after, "finally": [digest(a) for a in args],
                    "ok": first["ok"], "exc": first["exc"] + " " + first["msg"], "ok2": second["ok"], "ok3": third["ok"],
                    "first": fl(first), "second": fl(second), "third": fl(third), "result": [d1, digest(first["val"]) if first["ok"] else 0]})
        results.append((evs[-1], first, f, args, kept))
    for e, first, f, args, kept in results:
        e["result"].append(digest(first["val"]) if first["ok"] else 0)
    for e, first, f, args, kept in results:
        # the user writes into what he was given, and then into what he gave
        args = copy.deepcopy(kept)
        first = call(f, *args)
        if first["ok"]:
            for x in first["val"].values() if isinstance(first["val"], dict) else first["val"] if isinstance(first["val"], (list, tuple)) else [first["val"]]:
                if isinstance(x, np.ndarray) and x.flags.writeable and not any(np.may_share_memory(x, y) for y in args if isinstance(y, np.ndarray)):
                    x[...] = 0
        e["fourth"] = fl(call(f, *args))
        for x in args:
            turn(x)
        new = copy.deepcopy(args)
        o, o2 = call(f, *args), call(f, *new)
        e["fresh"], e["turned"], e["okturned"] = fl(o2), fl(o), o["ok"] == o2["ok"]
    return evs


def run(c):
    return purity(c) if c.get("pure") else history(c)


SERVER = Server()
