"""Plot calls on four axes of two figures; after every call, everything that is on every axes."""
import hashlib, os
os.environ.setdefault("MPLBACKEND", "Agg")
import numpy as np
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
from matplotlib.offsetbox import AnnotationBbox, OffsetImage
from matplotlib.patches import FancyArrow
from matplotlib.lines import Line2D
from matplotlib.collections import Collection, PathCollection
from mpl_toolkits.mplot3d.art3d import Line3DCollection
from dreimac import PlotUtils as P
from obs import *


def artists(ax):
    own = set(ax.spines.values()) | {ax.xaxis, ax.yaxis, getattr(ax, "zaxis", None), ax.patch, ax.title, ax._left_title, ax._right_title}
    return [a for a in ax.get_children() if a not in own]


def kind(a):
    if isinstance(a, AnnotationBbox):
        return "box"
    if isinstance(a, FancyArrow):
        return "arrow"
    if isinstance(a, Line3DCollection):
        return "mesh"
    if isinstance(a, PathCollection):
        return "dots"
    if isinstance(a, Line2D):
        return "line"
    return "something else"


def dots(a):
    off = getattr(a, "_offsets3d", None)
    XY = np.array(off).T if off is not None else np.asarray(a.get_offsets())
    a.update_scalarmappable()
    fc = np.asarray(Collection.get_facecolor(a))[:, :3]
    fc = np.broadcast_to(fc, (len(XY), 3)) if len(fc) == 1 else fc
    return {"at": fxs(XY, 1000), "colour": fxs(fc, 1000)}


def box(a):
    im = a.offsetbox
    d = im.get_data() if isinstance(im, OffsetImage) else np.zeros((0, 0))
    mappable = im.get_children()[0]
    vmin, vmax = mappable.get_clim()
    return {"at": fxs(np.asarray(a.xy), 1000), "patch": fxs(np.asarray(d, dtype=float), 1000), "low": fx(vmin, 1000), "high": fx(vmax, 1000),
            "grey": mappable.get_cmap().name in ("gray", "grey"), "zoom": fx(im.get_zoom(), 1000), "data": a.xycoords == "data"}


def mesh(a):
    return {"wires": fxs(np.concatenate([np.asarray(s) for s in a._segments3d]), 1000), "lengths": [len(s) for s in a._segments3d]}


def show(a):
    k = kind(a)
    if k == "box":
        return box(a)
    if k == "dots":
        return dots(a)
    if k == "mesh":
        return mesh(a)
    return {"xy": fxs(np.asarray(a.get_xydata() if k == "line" else a.get_xy()), 1000)} if k in ("line", "arrow") else {}


def digest(a):
    import json
    return kind(a) + hashlib.sha1(json.dumps(show(a)).encode()).hexdigest()[:10]


def limits(ax):
    return [fxs(ax.get_xlim(), 1000), fxs(ax.get_ylim(), 1000)] + ([fxs(ax.get_zlim(), 1000)] if hasattr(ax, "get_zlim") else [])


def equal(ax):
    a = ax.get_aspect()
    return a == "equal" or a == 1.0


def run(c):
    plt.close("all")
    f1, f2 = plt.figure(), plt.figure()
    axes = [f1.add_subplot(1, 2, 1), f2.add_subplot(1, 2, 1), f1.add_subplot(1, 2, 2, projection="3d"), f2.add_subplot(1, 2, 2, projection="3d")]
    plt.sca(axes[0])
    steps = []

    def state():
        g = plt.gca()
        return {"cur": axes.index(g) + 1 if g in axes else 0, "figures": len(plt.get_fignums()), "axes": sum(len(plt.figure(n).axes) for n in plt.get_fignums()),
                "held": [[digest(a) for a in artists(x)] for x in axes], "look": [[len(x.get_xticks()) == 0 and len(x.get_yticks()) == 0, equal(x)] for x in axes],
                "limits": [limits(x) for x in axes]}

    def keep(f):
        # looking must not change what is current
        g = plt.gca()
        r = f()
        plt.sca(g)
        return r
    before = keep(state)
    for k, call_ in enumerate(c["calls"]):
        name, given, n = call_["op"]
        rng = np.random.default_rng(call_.get("s", 0))
        had = [artists(x) for x in axes]
        kw = {} if given == 0 and rng.integers(2) else {"ax": None if given == 0 else axes[given - 1]}
        e = {"op": [name, given, n], "d": 0, "colour": "", "X": [], "P": [], "f": [], "zoom": 1000, "lines": []}
        zoom = [1, 2.5, 3][rng.integers(3)]
        dim = call_.get("dim", 2)
        o = {"ok": True, "val": None, "exc": "", "msg": "", "warn": []}
        args = []
        if name == "current":
            plt.sca(axes[given - 1])
        elif name in ("scatter", "grid"):
            X = rng.integers(-50, 51, (n, 2)) / 10
            Pt = rng.integers(-30, 31, (n, dim * dim)) / 10 if rng.integers(4) else np.full((n, dim * dim), 0.5)
            e.update(d=dim, X=fxs(X, 1000), P=fxs(Pt, 1000), zoom=fx(zoom, 1000))
            args = [X, Pt]
            o = call(P.imscatter, X, Pt, dim, zoom=zoom, **kw) if name == "scatter" else call(P.plot_patches, Pt, zoom=zoom, **kw)
        elif name == "proj":
            o = call(P.plot_proj_boundary, **kw)
        elif name == "halves":
            o = call(P.plot_2sphere_boundary, **kw)
        elif name == "mesh":
            a, b = int(rng.integers(3, 12)), int(rng.integers(3, 25))
            if rng.integers(3):
                kw.update(n_parallels=a, n_meridians=b, alpha=0.3)
            else:
                a, b = 10, 20
            e["lines"] = [a, b]
            o = call(P.plot_3sphere_mesh, **kw)
        elif name == "level":
            ax = axes[given - 1]
            if rng.integers(3):
                lo, w = rng.integers(-90, 90, 3) / 10, rng.integers(5, 200, 3) / 10
                for g, i in ((ax.set_xlim3d, 0), (ax.set_ylim3d, 1), (ax.set_zlim3d, 2)):
                    g(*((lo[i], lo[i] + w[i]) if rng.integers(3) else (lo[i] + w[i], lo[i])))
            before = keep(state)
            o = call(P.set_axes_equal, ax)
        else:
            d = 2 if name == "rp2" else 3
            wide = rng.integers(6) == 0 and d == 2
            X = rng.integers(-1000, 1001, (n, 3 if wide else d)) / 1000
            mode = call_.get("colour", "values")
            if mode == "rgb" and n > 1:
                f = rng.integers(0, 11, (n, 3)) / 10
            else:
                f = np.full(n, 2.5) if mode == "same" and d == 2 else rng.integers(-20, 21, n) / 4
                mode = "values"
                if n > 1 and np.max(f) == np.min(f) and d == 3:
                    f[0] += 1
                if n == 1 and d == 3:
                    mode = "any"
            e.update(X=fxs(X, 1000), f=fxs(f, 1000), colour=mode, d=d)
            args = [X, f]
            o = call(P.plot_rp2_stereo, X, f) if name == "rp2" else call(P.plot_rp3_stereo, axes[given - 1], X, f, *([True] if name == "rp3sphere" else []))
        now = keep(state)
        new = [[a for a in artists(x) if not any(a is b for b in h)] for x, h in zip(axes, had)]
        v = o["val"]
        e.update(ok=o["ok"], exc=o["exc"] + " " + o["msg"], warned=any("Plotting stereographic" in w for w in o["warn"]),
                 result=0 if v is None else axes.index(v) + 1 if v in axes else -1, before=before, after=now,
                 new=[[dict(kind=kind(a), **show(a)) for a in x] for x in new],
                 kept=[h == now["held"][i][:len(h)] for i, h in enumerate(before["held"])])
        steps.append(e)
        before = now
    plt.close("all")
    return [{"kind": "plot", "steps": steps}]
