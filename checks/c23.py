"""C23: figures against TracePlot.tla and Figures.tla.

Matplotlib is the instrument: figures are collected where they are made and
read when they are shown, saved and at the end; filled and line contours are
recorded where the axes draw them.  Files go to a scratch directory."""
import contextlib
import copy
import json
import os
import shutil
import tempfile
import warnings

import numpy as np

from harness import fem
from harness import fespace as fs
from harness import locfun as lf
from harness.core import THOROUGH, MachineryError, SEED, cfg, close, expect, rejected, same
from harness.meshes import BY_NAME
from checks.c20 import plain

COLORMAPS = [None, "gray", "plasma"]
CLIMS = [None, (-1.5, 2.0), (0.0, 10.0)]
PADS = {10: 0.1, 0: 0.0, 25: 0.25}
N = 8


# ---- the instrument ----
class Camera:
    """Records the figures that are made, and what they show when."""

    def __enter__(self):
        import matplotlib.axes
        import matplotlib.figure
        import matplotlib.pyplot as plt
        self.plt, self.figs, self.fields, self.views, self.files = plt, [], [], [], []
        plt.close("all")
        cam, F, A = self, matplotlib.figure.Figure, matplotlib.axes.Axes
        self.undo = []

        def patch(obj, name, new):
            old = getattr(obj, name)
            self.undo.append((obj, name, old))
            setattr(obj, name, new(old))

        def born(old):
            def init(fig, *a, **k):
                old(fig, *a, **k)
                cam.figs.append(fig)
            return init

        def contour(filled):
            def wrap(old):
                def draw(ax, *args, **kw):
                    cs = old(ax, *args, **kw)
                    cam.fields.append((ax.figure, ax, filled, args, cs))
                    return cs
                return draw
            return wrap

        def save(old):
            def savefig(fig, fname, **kw):
                cam.files.append((fig, str(fname)))
                cam.views.append(("save", fig, summary(fig)))
                kw["dpi"] = 12
                return old(fig, fname, **kw)
            return savefig

        def show(old):
            def shown(*a, **k):
                expect(plt.get_fignums(), "nothing to show")
                cam.views.append(("show", plt.gcf(), summary(plt.gcf())))
            return shown
        patch(F, "__init__", born)
        patch(A, "tricontourf", contour(True))
        patch(A, "tricontour", contour(False))
        patch(F, "savefig", save)
        patch(plt, "show", show)
        patch(F, "show", show)
        return self

    def __exit__(self, *exc):
        for obj, name, old in reversed(self.undo):
            setattr(obj, name, old)
        self.plt.close("all")

    def forget(self):
        self.plt.close("all")
        self.figs.clear(), self.fields.clear(), self.views.clear(), self.files.clear()


def summary(fig):
    """What a figure shows, for comparing it with itself later."""
    return [(ax.get_title(), len(ax.lines), len(ax.collections), ax.axison, ax.get_legend() is not None) for ax in fig.axes]


def points(line):
    x, y = line.get_data(orig=True)
    return np.asarray(x, dtype=float), np.asarray(y, dtype=float)


def snapshot(obj, seen=None):
    """Everything numerical that hangs on an object (triangulations excepted:
    drawing masks triangles that cannot be drawn)."""
    seen = {} if seen is None else seen
    if id(obj) in seen:
        return seen[id(obj)]
    if obj is None or isinstance(obj, (bool, int, float, complex, str, np.generic)):
        return obj
    seen[id(obj)] = "..."
    if isinstance(obj, np.ndarray):
        out = ("array", obj.shape, obj.dtype.str, obj.tobytes())
    elif hasattr(obj, "toarray"):
        return snapshot(obj.toarray(), seen)
    elif isinstance(obj, (list, tuple)):
        out = tuple(snapshot(x, seen) for x in obj)
    elif isinstance(obj, dict):
        out = tuple((str(k), snapshot(v, seen)) for k, v in obj.items())
    elif type(obj).__module__.startswith("puncturedfem"):
        out = (type(obj).__name__, tuple((k, snapshot(v, seen)) for k, v in sorted(vars(obj).items()) if k != "triangulation"))
    else:
        out = type(obj).__name__
    seen[id(obj)] = out
    return out


def unchanged(before, *objs):
    expect(before == snapshot(objs), "drawing changed the data")


class Desk:
    """A scratch directory to write into, and to stand in."""

    def __enter__(self):
        self.old, self.dir, self.n = os.getcwd(), tempfile.mkdtemp(dir=os.environ.get("VERIF_WORK")), 0
        os.chdir(self.dir)
        return self

    def __exit__(self, *exc):
        os.chdir(self.old)
        shutil.rmtree(self.dir, ignore_errors=True)

    def name(self, k):
        self.n += 1
        return [f"fig{self.n}.png", f"a/b{self.n}/fig.png", os.path.join(self.dir, f"c{self.n}", "fig.png"), f"./fig{self.n}.png",
                f"a/fig{self.n}.png"][k % 5]

    def written(self, name):
        with open(name, "rb") as f:
            expect(f.read(8) == b"\x89PNG\r\n\x1a\n", f"{name} is not a picture")

    def files(self):
        return {os.path.relpath(os.path.join(d, f), self.dir) for d, _, fs_ in os.walk(self.dir) for f in fs_}


@contextlib.contextmanager
def drawing(cam, desk, out, k, is_open=False, drawn=True):
    """Around a draw: the keyword arguments for it; afterwards one figure was
    made, shown if and only if asked, saved as asked, and closed."""
    cam.forget()
    before = desk.files()
    name = desk.name(k) if out["file"] else ""
    kw = dict(show_plot=out["show"], filename=name)
    if k % 4 == 1 and not name:
        del kw["filename"]
    if k % 4 == 2 and out["show"]:
        del kw["show_plot"]
    hold = dict(kw=kw, fig=None)
    yield hold
    if not drawn:
        same(len(cam.plt.get_fignums()), 0, "figures left open")
        same((cam.views, cam.files), ([], []), "figures shown or saved")
        return
    same(len(cam.figs), 1, "number of figures")
    fig = hold["fig"] = cam.figs[0]
    same(sorted(v[0] for v in cam.views), sorted(["show"] * out["show"] + ["save"] * out["file"]), "shown and saved")
    for what, f, view in cam.views:
        expect(f is fig, f"another figure is {what}n")
        same(view, summary(fig), f"what the figure showed at {what}")
    now = desk.files() - before
    if out["file"]:
        desk.written(name)
        same(now, {os.path.relpath(name, desk.dir)}, "files written")
    else:
        same(now, set(), "files written")
    same(len(cam.plt.get_fignums()), int(is_open), "figures open afterwards")


# ---- traces ----
FORMATS = {"k-": ("k", "-"), "r--": ("r", "--"), "b:": ("b", ":"), "g-.": ("g", "-.")}


def trace_cell(k):
    name = ["x-square", "x-annulus", "x-tri-circ", "x-disc", "x-circ-2"][k % 5]
    K, _ = lf.cell(name, N)
    return K


def trace_data(pf, K, k):
    """Trace number -> what the user passes and its values."""
    x, y = K.get_boundary_points()
    vals = {i: 1.5 + np.abs(np.sin(i * x + y)) + 0.1 * i for i in (1, 2, 3)}
    arg = {i: (pf.DirichletTrace(edges=K.get_edges(), values=v.copy()) if (i + k) % 2 else v.copy()) for i, v in vals.items()}
    arg[0] = np.zeros(K.num_pts + [1, -1, K.num_pts][k % 3])
    arg[-1] = [[1.0], "values", None][k % 3]
    return arg, vals


def parameter(K, quad):
    t, j = [], 0
    for c in K.components:
        for e in c.edges:
            t.append(2 * np.pi * j + quad[e.quad_type].t[:-1])
            j += 1
    return np.concatenate(t)


def fmt_arg(f):
    return {"str": lambda: f["v"][0], "list": lambda: list(f["v"]), "other": lambda: 3}[f["kind"]]()


LABELS = ["first", "second", "third"]


def legend_arg(x):
    return {"tuple": lambda: tuple(LABELS[:x["v"]]), "list": lambda: LABELS[:x["v"]], "str": lambda: "f"}[x["kind"]]()


def same_color(a, b):
    from matplotlib.colors import to_rgba
    return np.allclose(to_rgba(a), to_rgba(b))


def check_traces(K, quad, fig, want, vals):
    ax = fig.axes[0]
    same(len(fig.axes), 1, "axes")
    t = parameter(K, quad)
    same(len(ax.lines), len(want["lines"]), "number of lines")
    for k, (line, w) in enumerate(zip(ax.lines, want["lines"])):
        x, y = points(line)
        close(x, t, 1e-12, f"parameter of line {k + 1}")
        close(y, vals[w["trace"]], 0, f"values of line {k + 1}")
        col, style = FORMATS[w["fmt"]]
        same(line.get_linestyle(), style, f"style of line {k + 1}")
        expect(same_color(line.get_color(), col), f"color of line {k + 1}")
        expect(line.get_visible(), "a hidden line")
    leg = ax.get_legend()
    if want["labels"]:
        expect(leg is not None, "the legend is missing")
        same([x.get_text() for x in leg.get_texts()], LABELS[:want["labels"]], "labels of the legend")
        for h, w in zip(leg.legend_handles, want["lines"]):
            expect(same_color(h.get_color(), FORMATS[w["fmt"]][0]) and h.get_linestyle() == FORMATS[w["fmt"]][1], "line beside a label")
    else:
        expect(leg is None, "a legend nobody asked for")
    same(ax.get_title(), want["title"], "title")
    if want["lines"]:
        same(ax.get_yscale(), "log" if want["log"] else "linear", "scale")
    same(ax.get_xscale(), "linear", "scale of the parameter")
    same(bool(ax.xaxis._major_tick_kw.get("gridOn", False)), want["grid"], "grid")


def trace_history(rec, k):
    import puncturedfem as pf
    K = trace_cell(k)
    quad = pf.get_quad_dict(N)
    arg, vals = trace_data(pf, K, k)
    figs = iter(rec["figs"])
    P = None

    def traces(x):
        a = [arg[i] for i in x["v"]]
        return a if x["list"] else a[0]
    with warnings.catch_warnings(), Desk() as desk, Camera() as cam:
        warnings.simplefilter("ignore", UserWarning)
        for j, h in enumerate(rec["hist"]):
            before = snapshot((K, arg))
            op, a = h["op"], h["arg"]
            if op == "make":
                kw = dict(log_scale=a["log"], show_grid=a["grid"])
                P = pf.plot.TracePlot(traces(a["traces"]), K, quad, **({} if kw == dict(log_scale=False, show_grid=True) and k % 2 else kw))
                continue
            if op == "draw":
                want = next(figs)
                if not h["ok"]:
                    cam.forget()
                    with rejected("formats or labels that do not fit the traces", ValueError, TypeError):
                        P.draw(show_plot=False)
                else:
                    with drawing(cam, desk, a, j + k) as d:
                        P.draw(**d["kw"])
                    check_traces(K, quad, d["fig"], want, vals)
            else:
                call = {"traces": lambda: P.set_traces(traces(a)), "fmt": lambda: P.set_format(fmt_arg(a)),
                        "legend": lambda: P.set_legend(legend_arg(a)), "title": lambda: P.set_title(a),
                        "log": lambda: P.set_log_scale(a), "grid": lambda: P.set_grid(a),
                        "wrong title": lambda: P.set_title(["no"]), "wrong log": lambda: P.set_log_scale("yes"),
                        "wrong grid": lambda: P.set_grid("no")}[op]
                if h["ok"]:
                    call()
                else:
                    with rejected(f"{op} {a}", ValueError, TypeError):
                        call()
            expect(before == snapshot((K, arg)), f"{op} changed the data")


def trace_at_once(k):
    """All options given to the constructor."""
    import puncturedfem as pf
    K = trace_cell(k)
    quad = pf.get_quad_dict(N)
    arg, vals = trace_data(pf, K, k)
    ids = [(1, 2, 3), (2,), (3, 1), (1, 1)][k % 4]
    fm = ["k-", "r--", "b:", "g-."]
    fmts = [fm[(i + k) % 4] for i in range(len(ids))]
    want = dict(lines=[dict(trace=i, fmt=f) for i, f in zip(ids, fmts)], labels=len(ids), title="T", log=k % 2 == 0, grid=k % 3 == 0)
    with Desk() as desk, Camera() as cam:
        with drawing(cam, desk, dict(show=True, file=True), k) as d:
            pf.plot.TracePlot([arg[i] for i in ids], K, quad, fmt=fmts, legend=tuple(LABELS[:len(ids)]), title="T", log_scale=want["log"],
                              show_grid=want["grid"]).draw(**d["kw"])
        check_traces(K, quad, d["fig"], want, vals)
        for bad in (dict(fmt=fmts + ["k-"]), dict(legend=("a",) * (len(ids) + 1)), dict(traces=[arg[1], arg[0]]), dict(traces=[arg[-1]]),
                    dict(fmt=7), dict(legend=["a"] * len(ids)), dict(title=3), dict(log_scale=1.5), dict(show_grid="x")):
            with rejected(f"{sorted(bad)[0]} that does not fit", ValueError, TypeError):
                pf.plot.TracePlot(**dict(dict(traces=[arg[i] for i in ids], K=K, quad_dict=quad), **bad))


def ring(pf, n, hole):
    """A regular polygon, perhaps around a smaller one: n edges in all."""
    m = n - hole
    out = []
    for num, r, s in ((m, 2.0, 1), (hole, 0.5, -1)):
        if num:
            v = [pf.Vert(r * np.cos(2 * np.pi * j / num), s * r * np.sin(2 * np.pi * j / num)) for j in range(num)]
            out += [pf.Edge(v[j], v[(j + 1) % num], pos_cell_idx=0) for j in range(num)]
    K = pf.MeshCell(idx=0, edges=out)
    K.parameterize(pf.get_quad_dict(4), compute_interior_points=False)
    return K


def ticks(n, mosts):
    import puncturedfem as pf
    out = []
    hole = n // 3 if n >= 9 else 0
    K = ring(pf, n, hole)
    with Camera() as cam:
        for most in mosts:
            cam.forget()
            kw = {} if most == 9 else dict(max_num_ticks=most)
            pf.plot.TracePlot(np.ones(K.num_pts), K, pf.get_quad_dict(4), **kw).draw(show_plot=False)
            ax = cam.figs[0].axes[0]
            at = [x / (2 * np.pi) for x in ax.get_xticks()]
            lab = [x.get_text() for x in ax.get_xticklabels()]
            label = []
            for s in lab:
                s = s.replace("$", "").replace("\\pi", "").strip()
                expect(s.lstrip("-").isdigit() and int(s) % 2 == 0, f"tick label {s}")
                label.append(int(s) // 2)
            out.append(dict(n=n, most=most, at=[int(round(a)) if abs(a - round(a)) < 1e-9 else -1 for a in at], label=label))
    return out


# ---- meshes and functions ----
WORLDS = {}
MESHES_ = ["diagonal", "lens", "halves", "islands"]


def cell_edges(m):
    return [{k + 1 for k, e in enumerate(m.edges) if c in (e.pos, e.neg)} for c in m.cells]


class World:
    """A mesh with a solver and local functions of cells.  The data of the
    functions are read before anything else touches the cells."""

    def __init__(self, name):
        import puncturedfem as pf
        self.name, self.m = name, BY_NAME[name]
        self.V = fs.space(plain(name, 1), N)
        self.S = fem.quiet(pf.Solver, self.V, pf.BilinearForm(1, 1, pf.Polynomial([(1.0, 0, 0), (2.0, 1, 0)])), verbose=False,
                           compute_interior_values=True, compute_interior_gradient=True)
        self.mesh = self.V.mesh
        self.edges = list(self.mesh.edges)
        self.cell_edges = cell_edges(self.m)
        n = self.V.num_funs
        self.coef = {1: np.cos(np.arange(n)) + 0.5, 2: np.where(np.arange(n) % 2, 0.0, 2.0 + np.arange(n))}
        # frames of the cells, each sampled on its own mesh
        self.frames = []
        for c in self.m.cells:
            W = self.m.build(pf)
            K = W.get_cells(c) if hasattr(W, "get_cells") else W.get_cell(c)
            K.parameterize(pf.get_quad_dict(N), compute_interior_points=False)
            n1, n2 = (np.concatenate(z) for z in zip(*[e_normal(c2) for c2 in K.components]))
            x, y = (np.concatenate(z) for z in zip(*[c2.get_sampled_points() for c2 in K.components]))
            w = np.concatenate([np.concatenate([e.dx_norm[:-1] for e in c2.edges]) for c2 in K.components])
            self.frames.append((x, y, n1, n2, w))
        self.funs = [self.local(k) for k in range(len(self.m.cells))]

    def local(self, k):
        """A function of cell k: one of no particular polynomial."""
        return self.S.compute_linear_combo_on_mesh_cell(self.m.cells[k], self.coef[1] * (1 + k))

    def data(self, v, k):
        """Points and data of a function: (x, y, {quantity: values}), interior
        first; the frame of a cell does not depend on what was sampled since."""
        K = v.mesh_cell
        x, y, n1, n2, w = self.frames[k]
        wn = v.harm.trace.w_norm_deriv + v.poly.trace.w_norm_deriv
        wt = v.harm.trace.w_tang_deriv + v.poly.trace.w_tang_deriv
        with np.errstate(divide="ignore", invalid="ignore"):
            g1, g2 = (n1 * wn - n2 * wt) / w, (n2 * wn + n1 * wt) / w
        small = w < 1e-8
        g1[small] = g2[small] = np.nan
        inner = dict(values=v.int_vals, grad_x1=v.int_grad1, grad_x2=v.int_grad2, grad_norm=np.hypot(v.int_grad1, v.int_grad2))
        outer = dict(values=v.get_trace_values(), grad_x1=g1, grad_x2=g2, grad_norm=np.hypot(g1, g2))
        return (np.concatenate([K.int_x1, x]), np.concatenate([K.int_x2, y]),
                {q: (np.array(inner[q]), np.array(outer[q])) for q in inner}, len(K.int_x1))


def e_normal(c):
    t1 = np.concatenate([e.unit_tangent[0, :-1] for e in c.edges])
    t2 = np.concatenate([e.unit_tangent[1, :-1] for e in c.edges])
    return t2, -t1


def world(name):
    if name not in WORLDS:
        WORLDS[name] = World(name)
    return WORLDS[name]


def sort_points(x, y):
    return np.lexsort((y, x))


def check_field(W, field, v, k, quantity, interp, log, fill):
    """One contour plot: the values of function v at the points of cell k."""
    _, ax, filled, args, cs = field
    same(filled, fill, "filled contours")
    T = args[0]
    expect(hasattr(T, "triangles"), "contours without a triangulation")
    z = np.asarray(np.ma.getdata(args[-1]), dtype=float)
    x, y, data, n_int = W.data(v, k)
    inner, outer = data[quantity]
    same((len(T.x), len(z)), (len(x), len(x)), "number of points")
    i, j = sort_points(np.round(T.x, 9), np.round(T.y, 9)), sort_points(np.round(x, 9), np.round(y, 9))
    close(T.x[i], x[j], 1e-9, "x of the points")
    close(T.y[i], y[j], 1e-9, "y of the points")
    got = np.empty(len(x))
    got[j] = z[i]
    bdry_pt = np.zeros(len(x), dtype=bool)
    bdry_pt[j] = j >= n_int
    mask = T.mask if T.mask is not None else np.zeros(len(T.triangles), dtype=bool)
    shown = T.triangles[~mask]

    def lg(u):
        return np.log10(np.where(u < 1e-16, 1e-16, u)) if log else u
    with np.errstate(invalid="ignore"):
        scale = max(1, np.nanmax(np.abs(inner)))
        gi, wi = got[:n_int], lg(inner)
        if log:
            gi, wi = np.maximum(10 ** gi, 2e-16), np.maximum(10 ** wi, 2e-16)
        close(gi / scale, wi / scale, 1e-10, f"{quantity} at interior points")
        if interp:
            go, wo = got[n_int:].copy(), lg(outer)
            if log:
                go, wo = np.maximum(10 ** go, 2e-16), np.maximum(10 ** wo, 2e-16)
            ok = np.isfinite(outer) & (np.abs(outer) < 900)
            expect(np.all(np.isfinite(go[ok])), f"{quantity} is missing at boundary points")
            s = np.maximum(scale, np.abs(wo[ok]))
            close(go[ok] / s, wo[ok] / s, 1e-6, f"{quantity} at boundary points")
    # the triangles that are shown: the cell, without the boundary if there is no interpolation
    used = np.zeros(len(T.x), dtype=bool)
    used[shown] = True
    at_bdry = np.zeros(len(T.x), dtype=bool)
    at_bdry[i] = bdry_pt[j]
    fin = np.isfinite(z)
    p, q, r = (T.triangles[:, c] for c in range(3))
    area = 0.5 * np.abs((T.x[q] - T.x[p]) * (T.y[r] - T.y[p]) - (T.x[r] - T.x[p]) * (T.y[q] - T.y[p]))
    whole = polygon_area(W, k)
    if not interp:
        expect(not np.any(used & at_bdry), "triangles at the boundary are shown")
        free = ~np.any(at_bdry[T.triangles], axis=1)
        expect(area[free & ~mask].sum() > 0.98 * area[free].sum() - outside(W, k, whole), "triangles inside are hidden")
    elif np.all(fin):
        close(area[~mask].sum() / whole, 1.0, 0.02, "area of the triangles that are shown")
    return cs


def outside(W, k, whole):
    """Area of the holes and notches that a triangulation may cover."""
    x, y = W.frames[k][0], W.frames[k][1]
    from scipy.spatial import ConvexHull
    return ConvexHull(np.column_stack([x, y])).volume - whole


def polygon_area(W, k):
    x, y, n1, n2, w = W.frames[k]
    if not hasattr(W, "areas"):
        import puncturedfem as pf
        W.areas = []
        for c in W.m.cells:
            M = W.m.build(pf)
            K = M.get_cells(c) if hasattr(M, "get_cells") else M.get_cell(c)
            K.parameterize(pf.get_quad_dict(N), compute_interior_points=False)
            W.areas.append(sum(0.5 * np.sum(a * np.roll(b, -1) - b * np.roll(a, -1)) for a, b in (q.get_sampled_points() for q in K.components)))
    return W.areas[k]


def match_edges(W, lines, numbers, what="edges"):
    """Every edge of the set drawn exactly once; returns the other lines."""
    rest = list(lines)
    for e in sorted(numbers):
        x, y = W.edges[e - 1].get_sampled_points(ignore_endpoint=False)
        hit = [ln for ln in rest if is_curve(ln, x, y)]
        expect(hit, f"{what}: edge {e} is not drawn")
        same(len(hit), 1, f"{what}: how often edge {e} is drawn")
        rest.remove(hit[0])
    return rest


def is_curve(line, x, y):
    a, b = points(line)
    return len(a) == len(x) and any(np.allclose(a, p, atol=1e-12) and np.allclose(b, q, atol=1e-12) for p, q in ((x, y), (x[::-1], y[::-1])))


def check_frame(ax, f):
    same(ax.get_title(), f["title"], "title")
    same(bool(ax.axison), f["axis"], "axis shown")


def check_mesh(W, fig, f):
    same(len(fig.axes), 1, "axes")
    ax = fig.axes[0]
    check_frame(ax, f)
    quivers = [c for c in ax.collections if hasattr(c, "U")]
    if f["arrows"]:
        rest = list(quivers)
        for e in f["edges"]:
            x, y = W.edges[e - 1].get_sampled_points(ignore_endpoint=False)
            hit = [q for q in rest if len(q.X) == len(x) - 1 and np.allclose(q.X, x[:-1]) and np.allclose(q.Y, y[:-1])
                   and np.allclose(q.U, np.diff(x)) and np.allclose(q.V, np.diff(y))]
            expect(hit, f"the arrows of edge {e} are missing or wrong")
            rest.remove(hit[0])
            same((hit[0].scale, hit[0].angles, hit[0].scale_units), (1, "xy", "xy"), "scale of the arrows")
        same((len(rest), len(ax.lines)), (0, 0), "other arrows or lines")
    else:
        same(len(quivers), 0, "arrows")
        same(len(match_edges(W, ax.lines, f["edges"])), 0, "lines that are no edge")
    xs, ys = zip(*[W.edges[e - 1].get_sampled_points(ignore_endpoint=False) for e in f["edges"]])
    pad = PADS[f["pad"]]
    for z, lim in ((np.concatenate(xs), ax.get_xlim()), (np.concatenate(ys), ax.get_ylim())):
        d = z.max() - z.min()
        close(lim, (z.min() - pad * d, z.max() + pad * d), 1e-9, "limits of the axes")
    same(bool(ax.xaxis._major_tick_kw.get("gridOn", False)), f["grid"], "grid")


def check_local(W, cam, fig, f, v):
    k = f["fun"] - 1
    same(len(fig.axes), 1 + f["bar"], "axes")
    same(len(cam.fields), 1, "contour plots")
    ax = cam.fields[0][1]
    cs = check_field(W, cam.fields[0], v, k, f["quantity"], f["interp"], f["log"], f["fill"])
    check_frame(ax, f)
    check_color(cam, cs, f)
    if f["clim"]:
        close(cs.get_clim(), CLIMS[f["clim"]], 0, "range of the colors")
    rest = match_edges(W, ax.lines, f["edges"])
    if f["tri"]:
        T = cam.fields[0][3][0]
        expect(rest, "the triangulation is not drawn")
        got = {(round(a, 9), round(b, 9)) for ln in rest for a, b in zip(*points(ln)) if np.isfinite(a)}
        used = T.triangles[~T.mask] if T.mask is not None else T.triangles
        expect({(round(T.x[i], 9), round(T.y[i], 9)) for i in used.ravel()} <= got, "points of the triangulation are missing")
    else:
        same(len(rest), 0, "lines that are no edge")
    # as many levels as matplotlib makes of the request
    z = np.ma.getdata(cam.fields[0][3][-1])
    fig2 = cam.plt.figure()
    draw = fig2.add_subplot().tricontourf if f["fill"] else fig2.add_subplot().tricontour
    same(len(cs.levels), len(draw(cam.fields[0][3][0], z, levels=f["levels"]).levels), "number of levels")
    cam.plt.close(fig2)


def check_color(cam, cs, f):
    import matplotlib
    want = COLORMAPS[f["colormap"]] or "viridis"
    same(cs.get_cmap().name, want, "colormap")
    same(matplotlib.rcParams["image.cmap"], "viridis", "colormap of later plots")


def check_global(W, cam, fig, f, funs):
    same(len(fig.axes), 1 + f["bar"], "axes")
    same(len(cam.fields), len(f["cells"]), "contour plots")
    ax = cam.fields[0][1]
    check_frame(ax, f)
    lo = min(W.data(funs[k], k)[2][f["quantity"]][0].min() for k in range(len(funs)))
    hi = max(W.data(funs[k], k)[2][f["quantity"]][0].max() for k in range(len(funs)))
    left = list(cam.fields)
    for c in sorted(f["cells"]):
        x = W.data(funs[c - 1], c - 1)
        hit = [q for q in left if len(q[3][0].x) == len(x[0]) and np.allclose(sorted(q[3][0].x), sorted(x[0]), atol=1e-9)
               and np.allclose(sorted(q[3][0].y), sorted(x[1]), atol=1e-9)]
        expect(hit, f"cell {c} is not drawn")
        same(hit[0][1], ax, "axes of the cells")
        cs = check_field(W, hit[0], funs[c - 1], c - 1, f["quantity"], f["interp"], False, f["fill"])
        left.remove(hit[0])
        check_color(cam, cs, f)
        close(np.array(cs.get_clim()), np.array([lo, hi]), 1e-9 * max(1, abs(lo), abs(hi)), "range of the colors of a cell")
    same(len(match_edges(W, ax.lines, f["edges"])), 0, "lines that are no edge")
    if f["bar"]:
        bar = [a for a in fig.axes if a is not ax][0]
        lims = sorted(bar.get_ylim())
        close(np.array(lims), np.array([lo, hi]), 1e-9 * max(1, abs(lo), abs(hi)), "range of the colorbar")
        q = [c for c in bar.collections if c.get_array() is not None]
        if q:
            same(q[0].get_cmap().name, COLORMAPS[f["colormap"]] or "viridis", "colormap of the colorbar")


def loc_kw(o):
    kw = {}
    for key, name in (("fill", "fill"), ("bar", "show_colorbar"), ("axis", "show_axis"), ("bdry", "show_boundary"), ("tri", "show_triangulation"),
                      ("log", "use_log10"), ("close", "close_plot"), ("orient", "show_orientation"), ("grid", "show_grid"), ("open", "keep_open"),
                      ("interp", "use_interp")):
        if o.get(key):
            kw[name] = o[key] == 1
    if o.get("title"):
        kw["title"] = "-AB"[o["title"]]
    if o.get("colormap"):
        kw["colormap"] = COLORMAPS[o["colormap"]]
    if o.get("clim"):
        kw["clim"] = CLIMS[o["clim"]]
    if o.get("levels"):
        kw["levels"] = [32, 6, 15][o["levels"]]
    if o.get("pad"):
        kw["pad"] = [0.1, 0.0, 0.25][o["pad"]]
    return kw


def figures(rec, name, k):
    import puncturedfem as pf
    W = world(name)
    quad = pf.get_quad_dict(N)
    cells = [W.mesh.get_cells(c) if hasattr(W.mesh, "get_cells") else W.mesh.get_cell(c) for c in W.m.cells]
    W.S.soln = None
    MP = LP = GP = None
    soln = None
    figs = iter(rec["figs"])
    want_funs = {}

    def edges(x):
        return W.edges if x == 0 else [W.edges[e - 1] for e in sorted(W.cell_edges[x - 1])]

    def funs(c):
        u = soln if c == 0 else W.coef[c]
        key = c
        if key not in want_funs:
            want_funs[key] = [W.S.compute_linear_combo_on_mesh_cell(i, u) for i in W.m.cells]
        return want_funs[key]

    def coef(c):
        return None if c == 0 else W.coef[c]

    def attempt(ok, call):
        if ok:
            return call()
        with rejected("a plot of a solution that is not there", AttributeError, ValueError, TypeError):
            call()
        return False
    with warnings.catch_warnings(), Desk() as desk, Camera() as cam:
        warnings.simplefilter("ignore")
        for j, h in enumerate(rec["hist"]):
            op = h["op"]
            if op == "solve":
                W.S.solve()
                soln = np.array(W.S.get_solution())
                continue
            if op == "sample":
                cells[h["c"] - 1].parameterize(quad, compute_interior_points=False)
                continue
            data = (W.mesh, W.S, W.funs, W.coef, cells)
            before = snapshot(data)
            if op == "mesh":
                MP = pf.plot.MeshPlot(edges(h["x"]), n=N, reparameterize=False)
            elif op == "edges":
                MP.set_edges(edges(h["x"]))
            elif op == "draw mesh":
                f = next(figs)
                if not hasattr(MP, "seen"):
                    MP.seen = True
                with drawing(cam, desk, f["out"], j + k, f["open"]) as d:
                    MP.draw(**d["kw"], **loc_kw(h["o"]))
                check_mesh(Sampled(MP, W, f["edges"]), d["fig"], f)
            elif op == "local":
                LP = pf.plot.LocalFunctionPlot(W.funs[h["x"] - 1], **({} if h["i"] else dict(use_interp=False)))
            elif op == "function":
                LP.set_local_function(W.funs[h["x"] - 1])
            elif op == "draw local":
                f = next(figs)
                with drawing(cam, desk, f["out"], j + k, f["open"]) as d:
                    LP.draw(**(dict(plot_type=h["t"]) if h["t"] != "values" or k % 2 else {}), **d["kw"], **loc_kw(h["o"]))
                check_local(W, cam, d["fig"], f, W.funs[f["fun"] - 1])
            elif op == "global":
                new = attempt(h["ok"], lambda: pf.plot.GlobalFunctionPlot(W.S, *([coef(h["c"])] if h["c"] or k % 2 else [])))
                GP = new if h["ok"] else GP
            elif op == "coef":
                attempt(h["ok"], lambda: GP.set_coefficients(coef(h["c"])))
            elif op == "draw global":
                f = next(figs)
                with drawing(cam, desk, f["out"], j + k, drawn=f["drawn"]) as d:
                    GP.draw(**(dict(plot_type=h["t"]) if h["t"] != "values" or k % 2 else {}), **d["kw"], **loc_kw(h["o"]))
                if f["drawn"]:
                    check_global(W, cam, d["fig"], f, funs(f["coef"]))
            else:
                raise MachineryError(op)
            unchanged(before, *data)


class Sampled:
    """The edges as a mesh plot sees them: sampled when it was given them."""

    def __init__(self, MP, W, numbers):
        self.edges = {}
        own = list(MP.edges)
        same(len(own), len(numbers), "number of edges in the plot")
        self.edges = Lookup(dict(zip([e - 1 for e in sorted(numbers)], own)))
        for e, mine in zip(sorted(numbers), own):
            x, y = W.edges[e - 1].get_sampled_points(ignore_endpoint=False)
            a, b = mine.get_sampled_points(ignore_endpoint=False)
            expect(any(np.allclose(a, p) and np.allclose(b, q) for p, q in ((x, y), (x[::-1], y[::-1]))), f"edge {e} of the plot")


class Lookup(dict):
    pass


def unsampled(k):
    """Plots of edges nobody has sampled: the edges stay unsampled, the plot
    uses the given number of points; reparameterize resamples."""
    import puncturedfem as pf
    name = MESHES_[k % 4]
    m = BY_NAME[name]
    M, R = m.build(pf), m.build(pf)
    if k >= 4:
        for e in M.edges:
            e.parameterize(pf.get_quad_dict(4))
    before = snapshot((M,))
    n = [5, 16, 32][k % 3]
    redo = k % 2 == 1
    P = pf.plot.MeshPlot(M.edges, n=n, reparameterize=redo) if n != 32 else pf.plot.MeshPlot(M.edges, reparameterize=redo)
    size = 4 if k >= 4 and not redo else n
    for e in R.edges:
        e.parameterize(pf.get_quad_dict(size))
    with Desk() as desk, Camera() as cam:
        with drawing(cam, desk, dict(show=False, file=False), k) as d:
            P.draw(**d["kw"], show_orientation=k % 4 >= 2)
        f = dict(edges=list(range(1, len(M.edges) + 1)), arrows=k % 4 >= 2, title="", grid=False, axis=True, pad=10)

        class X:
            edges = R.edges
        check_mesh(X, d["fig"], f)
        for bad in (M, tuple(M.edges), M.edges + [None], [m]):
            with rejected("something else than edges", TypeError):
                pf.plot.MeshPlot(bad)
    unchanged(before, M)
    # lines along an axis
    for a, b in (((0, 0), (1, 0)), ((0, 0), (0, 2))):
        e = pf.Edge(pf.Vert(*a), pf.Vert(*b), pos_cell_idx=0)
        with warnings.catch_warnings(), Desk() as desk, Camera() as cam:
            warnings.simplefilter("ignore")
            with drawing(cam, desk, dict(show=False, file=True), k) as d:
                pf.plot.MeshPlot([e], n=4).draw(**d["kw"])
            same(len(d["fig"].axes[0].lines), 1, "lines")
            expect(min(d["fig"].get_size_inches()) > 0.1, "the figure has no size")


def refuse():
    import puncturedfem as pf
    W = world("diagonal")
    for bad in (None, W.S, W.mesh, 3):
        with rejected("something else than a function", TypeError):
            pf.plot.LocalFunctionPlot(bad)
    for bad in (None, W.V, W.funs[0]):
        with rejected("something else than a solver", TypeError):
            pf.plot.GlobalFunctionPlot(bad, W.coef[1])
    for bad in (list(W.coef[1]), 3.0):
        with rejected("coefficients of another type", TypeError):
            pf.plot.GlobalFunctionPlot(W.S, bad)
    for bad in (W.coef[1][:-1], np.append(W.coef[1], 1.0), W.coef[1][:, None]):
        with rejected("another number of coefficients", ValueError):
            pf.plot.GlobalFunctionPlot(W.S, bad)
    with Camera():
        for P in (pf.plot.LocalFunctionPlot(W.funs[0]), pf.plot.GlobalFunctionPlot(W.S, W.coef[1])):
            with rejected("an unknown quantity", ValueError):
                P.draw(plot_type="laplacian", show_plot=True)
    with rejected("use_interp of another type", TypeError):
        pf.plot.LocalFunctionPlot(W.funs[0], use_interp=2)


def run(chk):
    import matplotlib
    matplotlib.use("Agg")
    for name in MESHES_:
        world(name)
    chk.case("refuse:plots", refuse, sample=dict(op="refuse"))
    cases = [(f"once:{k}", trace_at_once, (k,), dict(k=k)) for k in range(20)]
    cases += [(f"unsampled:{k}", unsampled, (k,), dict(k=k)) for k in range(12)]
    # trace plots
    tconst = dict(NumTraces="=3", Fmts='={"k-", "r--"}', File="ticks.json")
    r = chk.tlc("TracePlot", cfg(invariants=["EachOnce", "Refused", "Emit"]), name="traces", consts=dict(tconst, MaxOps="=7", Mode="histories"),
                files={"ticks.json": "[]"}, simulate=3000 if THOROUGH else 260, depth=8, seed=SEED)
    cases += [(f"traces:{k}", trace_history, (x, k), x) for k, x in enumerate(chk.pick(r.records, 6000 if THOROUGH else 260, 5))]
    # figures
    for name in MESHES_:
        m = BY_NAME[name]
        ce = "=<<" + ", ".join("{" + ", ".join(map(str, sorted(s))) + "}" for s in cell_edges(m)) + ">>"
        const = dict(NCells=f"={len(m.cells)}", NEdges=f"={len(m.edges)}", CellEdges=ce)
        for kind, many in (("mesh", 40), ("local", 108), ("global", 54)):
            r = chk.tlc("Figures", cfg(invariants=["AllCells", "Current", "Emit"]), name=f"{kind}-{name}",
                        consts=dict(const, MaxOps="=2", Kinds=f'={{"{kind}"}}'))
            recs = [x for x in r.records if x["figs"]]
            cases += [(f"{kind}:{name}-{k}", figures, (x, name, k), x) for k, x in enumerate(recs if THOROUGH else chk.pick(recs, many, 3))]
        r = chk.tlc("Figures", cfg(invariants=["AllCells", "Current", "Emit"]), name=f"history-{name}",
                    consts=dict(const, MaxOps="=9", Kinds='={"mesh", "local", "global", "sample"}'),
                    simulate=600 if THOROUGH else 40, depth=10, seed=SEED)
        cases += [(f"history:{name}-{k}", figures, (x, name, k), x) for k, x in enumerate(chk.pick(r.records, 3000 if THOROUGH else 40, 7))]
    # ticks: recorded, then judged
    chk.run_cases(cases)
    mosts = range(2, 14) if THOROUGH else (2, 3, 4, 5, 9, 12)
    out = chk.run_cases([(f"ticks:{n}", ticks, (n, mosts), dict(n=n)) for n in list(range(3, 60 if THOROUGH else 30))])
    recs = [x for q in out for x in q]
    if recs:
        r = chk.tlc("TracePlot", cfg(invariants=["TicksOK"]), name="ticks", consts=dict(tconst, MaxOps="=1", Mode="ticks"),
                    files={"ticks.json": json.dumps(recs)})
        for b in r.records:
            x = recs[b["bad"] - 1]
            chk.violation(f"ticks:{x['n']}-{x['most']}", "ticks", f"ticks {x}", case=x)
    for kind, least in (("traces", 200), ("mesh", 100), ("local", 300), ("global", 200), ("history", 100), ("ticks", 20)):
        chk.need(kind, least)
