"""C09: quadrature rules."""
import warnings
from fractions import Fraction as F

import numpy as np

from harness.core import THOROUGH, cfg, close, expect, frac, rejected, same
from harness.shapes import BY_NAME, EXACT, build_cell, exact_tla


def build(pf, kind, n, p=7):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return pf.Quad(qtype=kind, n=n, p=p)


def kress(rec):
    import puncturedfem as pf
    n, p = rec["n"], rec["p"]
    t, w = [], []
    for c, q in zip(rec["c"], rec["w"]):
        c, q = F(*c), F(*q)
        a, b = c ** p, (1 - c) ** p
        t.append(float(a / (a + b)) * 2 * np.pi)
        w.append(float(q * (c * (1 - c)) ** (p - 1) / (a + b) ** 2))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        d = pf.get_quad_dict(n=n, p=p)
    same(sorted(d), ["kress", "trap"], "rules of a quad dict")
    for q in (build(pf, "kress", n, p), d["kress"]):
        same((q.type, q.n), ("kress", n), "type and parameter")
        close(q.h, np.pi / n, 1e-14, "step")
        close(q.t, t, 1e-12, "nodes")
        close(q.wgt, w, 1e-12, "weights")
        expect(np.all(np.diff(q.t) >= 0), "nodes increase")
        close((q.t[0], q.t[n], q.t[2 * n]), (0, np.pi, 2 * np.pi), 1e-13, "fixed points")
        close(q.t + q.t[::-1], np.full(2 * n + 1, 2 * np.pi), 1e-12, "symmetry of the nodes")
        close(q.wgt, q.wgt[::-1], 1e-12, "symmetry of the weights")
        same((float(q.wgt[0]), float(q.wgt[-1])), (0.0, 0.0), "weights at the ends")
        # the weights integrate to the length of the interval
        err = 3.0 * (np.pi / n) ** min(p, 6)
        expect(abs(np.sum(q.wgt[:-1]) * q.h - 2 * np.pi) <= max(err, 1e-9),
               f"sum of the weights {np.sum(q.wgt[:-1]) * q.h!r}")
    for q in (build(pf, "trap", n), build(pf, "trap", n, p), d["trap"]):
        same((q.type, q.n), ("trap", n), "type and parameter")
        close(q.h, np.pi / n, 1e-14, "step")
        close(q.t, [np.pi * j / n for j in range(2 * n + 1)], 1e-13, "trapezoid nodes")
        same([float(x) for x in q.wgt], [1.0] * (2 * n + 1), "trapezoid weights")
    if (n, p) == (16, 7):
        for q, k in ((pf.Quad(), "trap"), (pf.Quad("kress"), "kress"),
                     (pf.get_quad_dict()["kress"], "kress"), (pf.get_quad_dict()["trap"], "trap")):
            r = build(pf, k, n, p)
            same((q.type, q.n), (k, 16), "defaults")
            close(q.t, r.t, 0, "default nodes")
            close(q.wgt, r.wgt, 0, "default weights")


def alias(rec):
    import puncturedfem as pf
    n, k = rec["n"], rec["k"]
    q = build(pf, "trap", n)
    f = np.cos(k * q.t) + (np.sin(k * q.t) if k < 2 * n else 0)
    close(np.sum(f[:-1] * q.wgt[:-1]) / (2 * n), rec["v"], 1e-11, "mean of a mode")


def mart(rec):
    """Integrates cos k s and sin k s against log(4 sin^2((t-s)/2)) exactly."""
    import puncturedfem as pf
    n = rec["n"]
    for name in ("mart", "martensen"):
        q = build(pf, name, n)
        t = np.pi * np.arange(2 * n + 1) / n
        same(q.n, n, "parameter")
        close(q.t, 4 * np.sin(t / 2) ** 2, 1e-12, "Martensen kernel")
        w = np.asarray(q.wgt)
        close(w, w[::-1], 1e-12, "symmetry of the Martensen weights")
        # mode k: sum_j w_j cos(k t_j) = 1 / (2 k), and 0 for constants
        for k in range(0, n):
            want = 0.0 if k == 0 else 0.5 / k
            close(np.sum(w[:-1] * np.cos(k * t[:-1])), want, 1e-12, f"Martensen rule on mode {k}")


def bad(rec):
    import puncturedfem as pf
    name, val = rec["b"].split("=")
    val = eval(val)  # noqa: S307 (text from our own specification)
    if name == "n":
        for kind in ("trap", "kress", "mart"):
            with rejected(f"{kind} with {rec['b']}", ValueError, TypeError):
                pf.Quad(qtype=kind, n=val)
        with rejected(f"get_quad_dict({rec['b']})", ValueError, TypeError):
            pf.get_quad_dict(n=val)
    else:
        with rejected(f"kress with {rec['b']}", ValueError, TypeError):
            pf.Quad(qtype="kress", n=16, p=val)
        with rejected(f"get_quad_dict({rec['b']})", ValueError, TypeError):
            pf.get_quad_dict(n=16, p=val)


def open_edge(rec):
    """The trapezoid rule over an edge between two different points."""
    import puncturedfem as pf
    n, k, want = rec["n"], rec["k"], float(frac(rec["v"]))
    q = pf.get_quad_dict(n=n)
    for p0, p1 in (((0, 0), (3, 4)), ((1, 2), (1, -3)), ((-2, 1), (0.5, 1))):
        e = pf.Edge(pf.Vert(*map(float, p0)), pf.Vert(*map(float, p1)), pos_cell_idx=0, quad_type="trap")
        e.parameterize(q)
        p0, p1 = np.array(p0, float), np.array(p1, float)
        length = np.hypot(*(p1 - p0))
        for rev in (False, True):
            if rev:
                e.reverse_orientation()
            u = (p1 - p0) @ (e.x - p0[:, None]) / length ** 2   # along p0 -> p1
            for v, w in ((u ** k, want), ((1 - u) ** k, want)):
                close(e.integrate_over_edge(v), w * length, 1e-12, f"trapezoid rule over an edge, reversed={rev}")
                close(e.integrate_over_edge_preweighted(v * length / (2 * np.pi)), w * length, 1e-12,
                      f"preweighted trapezoid rule over an edge, reversed={rev}")


def arc(part):
    v = frac(part["pi"]) * np.pi
    return v + sum(np.sqrt(frac(s["len2"])) * frac(s["f"]) for s in part["sides"])


def edge(rec):
    """Arc length integrals of monomials over contours and single edges."""
    import puncturedfem as pf
    shape = BY_NAME[rec["id"]]
    a, b = rec["a"], rec["b"]
    for n, p, tol in ((32, 7, 1e-8), (32, 6, 1e-7), (64, 4, 3e-5), (24, 7, 1e-6), (64, 7, 1e-9), (33, 7, 1e-8)):
        for qt in (None, "kress"):
            K, _ = build_cell(shape, qt=qt)
            K.parameterize(pf.get_quad_dict(n=n, p=p), compute_interior_points=False)
            total = 0.0
            done = set()
            for c in K.components:
                # which contour of the shape is it?
                e0 = c.edges[0]
                z0 = np.array([e0.x[0, 0], e0.x[1, 0]])
                for i, cont in enumerate(shape.contours):
                    starts = [s.start() if s.loop else s.p for s in cont]
                    if i not in done and any(np.hypot(*(z0 - s)) < 1e-9 for s in starts):
                        break
                done.add(i)
                x, y = c.get_sampled_points()
                want = arc(rec["parts"][i])
                scale = arc(rec["one"][i]) * max(np.max(np.abs(x)), 1) ** a * max(np.max(np.abs(y)), 1) ** b
                got = c.integrate_over_closed_contour(x ** a * y ** b)
                expect(abs(got - want) <= tol * scale,
                       f"contour {i}, n={n}, p={p}, {qt}: {got!r}, specified {want!r}")
                per = 0.0
                for e in c.edges:
                    ex, ey = e.get_sampled_points(ignore_endpoint=False)
                    v = ex ** a * ey ** b
                    one = e.integrate_over_edge(v)
                    close(e.integrate_over_edge(v[:-1], ignore_endpoint=True), one, 1e-12 if e.quad_type == "kress" else 1e-9,
                          "edge integral with and without the endpoint")
                    if not cont[0].loop:
                        # the straight edge itself, in closed form
                        P, Q = np.array([ex[0], ey[0]]), np.array([ex[-1], ey[-1]])
                        k = min(range(len(rec["parts"][i]["sides"])), key=lambda m: side_gap(shape, i, m, P, Q))
                        s = rec["parts"][i]["sides"][k]
                        ref = np.sqrt(frac(s["len2"])) * frac(s["f"])
                        expect(abs(one - ref) <= tol * scale, f"edge: {one!r}, specified {ref!r}")
                    per += one
                close(per, got, 1e-11, "sum of the edge integrals")
                total += want
            x, y = K.get_boundary_points()
            expect(abs(K.integrate_over_boundary(x ** a * y ** b) - total) <= 3 * tol * scale + tol * abs(total),
                   "boundary integral")


def side_gap(shape, i, m, P, Q):
    c = shape.contours[i]
    pts = [e.p for e in c]
    if i:
        pts = pts[::-1]
    p, q = np.array(pts[m]), np.array(pts[(m + 1) % len(pts)])
    return min(np.hypot(*(p - P)) + np.hypot(*(q - Q)), np.hypot(*(q - P)) + np.hypot(*(p - Q)))


def run(chk):
    ns = list(range(4, 20)) + [24, 31, 32, 33, 48, 64] if THOROUGH else [4, 5, 7, 8, 16, 19, 32, 64]
    ps = list(range(2, 13)) if THOROUGH else [2, 3, 4, 6, 7, 8, 11]
    monos = [(0, 0), (1, 0), (0, 1), (2, 0), (1, 1), (0, 2), (3, 0), (2, 1)]
    if THOROUGH:
        monos += [(1, 2), (0, 3), (2, 2), (4, 0)]
    shapes = EXACT if THOROUGH else [s for s in EXACT if s.name in ("x-disc", "x-disc-kress", "x-tri", "x-ell", "x-tri-circ", "x-circ-2")]
    r = chk.tlc("Quadrature", cfg(invariants=["NodesOK", "OpenOK", "Emit"]), consts=dict(
        Ns=set(ns), Ps=set(ps), Ks="=0..40" if not THOROUGH else "=0..140",
        Shapes="=<<" + ", ".join(exact_tla(s) for s in shapes) + ">>", Monos=monos))
    chk.exhaustive = True
    fn = dict(kress=kress, alias=alias, mart=mart, bad=bad, edge=edge, open=open_edge)
    one = {x["id"]: x["parts"] for x in r.records if x["kind"] == "edge" and (x["a"], x["b"]) == (0, 0)}
    cases = []
    for x in r.records:
        if x["kind"] == "edge":
            x["one"] = one[x["id"]]
        nm = " ".join(f"{k}={v}" for k, v in x.items() if k not in ("kind", "c", "w", "parts", "one"))
        cases.append((f"{x['kind']}:{nm}", fn[x["kind"]], (x,), {k: v for k, v in x.items() if k not in ("c", "w", "one")}))
    chk.run_cases(cases)
    for k, m in (("kress", 50), ("alias", 300), ("mart", 8), ("bad", 9), ("open", 12), ("edge", 40)):
        chk.need(k, m)
