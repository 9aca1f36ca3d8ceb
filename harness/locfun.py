"""Exact local functions: a polynomial plus logarithms around the holes.

A function of the specification is [p: terms, l: one coefficient per hole].
"""
import numpy as np
from matplotlib import path

from .core import expect, frac, same
from .shapes import BY_NAME, build_cell

XI = {}     # shape -> a point inside each hole, unrelated to the code's choice


def hole_points(shape):
    """Points inside the holes (not their centres)."""
    if shape.name not in XI:
        out = []
        for c in shape.contours[1:]:
            if c[0].loop:
                out.append((c[0].p[0] + 0.2 * c[0].r, c[0].p[1] - 0.1 * c[0].r))
            else:
                P = np.array([e.p for e in c], dtype=float)
                w = np.linspace(1.0, 1.3, len(P))
                out.append(tuple(w @ P / w.sum()))
        XI[shape.name] = out
    return XI[shape.name]


class Fun:
    """p + sum l_k log|x - xi_k| with gradient; p as {(i, j): coef}."""

    def __init__(self, shape, p, logs=()):
        self.shape, self.p = shape, {k: v for k, v in p.items() if v}
        self.l = list(logs) + [0.0] * (shape.holes - len(logs))

    @classmethod
    def of(cls, shape, rec):
        return cls(shape, {(i, j): frac(c) for c, i, j in rec["p"]}, [frac(c) for c in rec["l"]])

    def __call__(self, x, y):
        v = np.zeros(np.shape(x))
        for (i, j), c in self.p.items():
            v = v + c * x ** i * y ** j
        for c, (a, b) in zip(self.l, hole_points(self.shape)):
            if c:
                v = v + 0.5 * c * np.log((x - a) ** 2 + (y - b) ** 2)
        return v

    def grad(self, x, y):
        g, h = np.zeros(np.shape(x)), np.zeros(np.shape(x))
        for (i, j), c in self.p.items():
            if i:
                g = g + c * i * x ** (i - 1) * y ** j
            if j:
                h = h + c * j * x ** i * y ** (j - 1)
        for c, (a, b) in zip(self.l, hole_points(self.shape)):
            if c:
                r2 = (x - a) ** 2 + (y - b) ** 2
                g, h = g + c * (x - a) / r2, h + c * (y - b) / r2
        return g, h

    def lap_poly(self):
        q = {}
        for (i, j), c in self.p.items():
            for w, m in ((i * (i - 1), (i - 2, j)), (j * (j - 1), (i, j - 2))):
                if w:
                    q[m] = q.get(m, 0.0) + c * w
        return q

    def poly(self, d):
        import puncturedfem as pf
        return pf.Polynomial([(c, i, j) for (i, j), c in d.items()])


CELLS = {}


def cell(name, n=32, listing=0, nq=None, antilap="fft", grid=24, keep=True):
    """A sampled cell and its Nystrom solver.  Its interior points are a grid
    of our own, away from the boundary, where the quadrature is accurate."""
    import puncturedfem as pf
    key = (name, n, listing, nq, antilap)
    if key in CELLS:
        return CELLS[key]
    s = BY_NAME[name]
    m = len(s.edges)
    rnd = np.random.default_rng(listing)
    order = [int(k) for k in rnd.permutation(m)] if listing else None
    sides = [int(x) for x in rnd.choice([1, -1], m)] if listing else None
    K, _ = build_cell(s, order, sides, cell=1, other=4)
    d = pf.get_quad_dict(n=n)
    if nq:
        d["kress"] = pf.get_quad_dict(n=nq)["kress"]
    K.parameterize(d, compute_interior_points=False)
    K.int_x1, K.int_x2 = far_points(K, s, grid)
    res = K, pf.NystromSolver(K, antilap_strategy=antilap, verbose=False)
    if keep:
        CELLS[key] = res
    return res


def polygon(comp):
    return path.Path(np.array(comp.get_sampled_points()).T)


def far_points(K, s, grid):
    """Points three sample spacings or more away from every contour."""
    bx, by = boundary(K)
    X, Y = np.meshgrid(np.linspace(bx.min(), bx.max(), grid + 1), np.linspace(by.min(), by.max(), grid))
    z = np.array([X.ravel(), Y.ravel()]).T
    ok = np.ones(len(z), dtype=bool)
    for i, c in enumerate(K.components):
        p = np.array(c.get_sampled_points())
        h = np.hypot(*(np.roll(p, -1, 1) - p)).max()
        inside = polygon(c).contains_points(z)
        ok &= inside if i == 0 else ~inside
        ok &= np.hypot(z[:, :1] - p[0], z[:, 1:] - p[1]).min(1) > 3 * h
    return z[ok, 0].copy(), z[ok, 1].copy()


def hole_order(K, s):
    """For each hole of the code, the hole of the shape."""
    pts = hole_points(s)
    out = []
    for c in K.components[1:]:
        hit = [k for k, q in enumerate(pts) if polygon(c).contains_point(q)]
        expect(len(hit) == 1, "holes of the cell")
        out.append(hit[0])
    same(sorted(out), list(range(s.holes)), "holes of the cell")
    return out


def log_coefs(K, s, F):
    return np.array([F.l[k] for k in hole_order(K, s)])


def conjugate(K, s, F, q):
    """Trace of the conjugate of the part without logarithms, up to a
    constant: the code's logarithms are about its own points."""
    x, y = boundary(K)
    v = np.zeros(len(x))
    for (i, j), c in q.items():
        v = v + c * x ** i * y ** j
    z = x + 1j * y
    for c, k in zip(K.components[1:], hole_order(K, s)):
        if F.l[k]:
            w = complex(*hole_points(s)[k])
            u = complex(c.interior_point.x, c.interior_point.y)
            v = v + F.l[k] * np.angle((z - w) / (z - u))
    return v


def boundary(K):
    x, y = K.get_boundary_points()
    return np.array(x), np.array(y)


def normal_derivative(K, F):
    """Weighted by |x'|."""
    x, y = boundary(K)
    gx, gy = F.grad(x, y)
    n1, n2 = K.get_unit_normal()
    return (gx * n1 + gy * n2) * np.array(K.get_dx_norm())


def tangential_derivative(K, F):
    x, y = boundary(K)
    gx, gy = F.grad(x, y)
    n1, n2 = K.get_unit_tangent()
    return (gx * n1 + gy * n2) * np.array(K.get_dx_norm())


def boundary_weights(K):
    return np.concatenate([np.full(e.num_pts - 1, 2 * np.pi / (e.num_pts - 1)) for e in K.get_edges()])


def local(nyst, F, **kw):
    """The local function with the Laplacian and trace of F."""
    import puncturedfem as pf
    x, y = boundary(nyst.K)
    return pf.LocalPoissonFunction(nyst, laplacian=F.poly(F.lap_poly()), trace=F(x, y), **kw)


# ---- integrals over the cell, independent of the code under test ----------
def contour_rule(shape):
    """Points, outward normals and weights of a boundary quadrature."""
    xs, ns, ws = [], [], []
    t, w = np.polynomial.legendre.leggauss(48)
    for c in shape.contours:
        for e in c:
            if e.loop:
                N = 256
                th = 2 * np.pi * np.arange(N) / N
                nn = np.array([np.cos(th), np.sin(th)])
                xs.append(np.array([[e.p[0]], [e.p[1]]]) + e.r * nn)
                ns.append(-nn if e.hole else nn)
                ws.append(np.full(N, 2 * np.pi * e.r / N))
            else:
                P, Q = np.array(e.p, float), np.array(e.q, float)
                d = Q - P
                # panels graded towards nothing: holes are at a distance
                for k in range(8):
                    s = (k + (t + 1) / 2) / 8
                    xs.append(P[:, None] + d[:, None] * s)
                    ln = np.hypot(*d)
                    ns.append(np.array([[d[1]], [-d[0]]]) / ln + 0 * s)
                    ws.append(w * ln / 16)
    return np.hstack(xs), np.hstack(ns), np.hstack(ws)


RULES = {}


def green(shape, G, gradG, F):
    """Integral of (Laplacian of G) * F over the cell, for harmonic F:
    boundary integral of F dG/dn - G dF/dn."""
    if shape.name not in RULES:
        RULES[shape.name] = contour_rule(shape)
    (x, y), (n1, n2), w = RULES[shape.name]
    g1, g2 = gradG(x, y)
    f1, f2 = F.grad(x, y)
    return float(np.sum(w * (F(x, y) * (g1 * n1 + g2 * n2) - G(x, y) * (f1 * n1 + f2 * n2))))


def flux(shape, F, G):
    """Boundary integral of G dF/dn: the H1 product when F is harmonic."""
    if shape.name not in RULES:
        RULES[shape.name] = contour_rule(shape)
    (x, y), (n1, n2), w = RULES[shape.name]
    f1, f2 = F.grad(x, y)
    return float(np.sum(w * G(x, y) * (f1 * n1 + f2 * n2)))


def mono_log_l2(shape, i, j, k):
    """Integral of x^i y^j log|x - xi_k|: the anti-Laplacian of the monomial
    is found by a triangular solve."""
    A = antilap_mono(i, j)
    G = Fun(shape, A)
    return green(shape, G, G.grad, Fun(shape, {}, [1.0 if m == k else 0.0 for m in range(shape.holes)]))


def antilap_mono(i, j):
    """Some polynomial with Laplacian x^i y^j."""
    out = {}
    # peel off: x^(i+2) y^j / ((i+2)(i+1)) leaves - j(j-1) / (...) x^(i+2) y^(j-2)
    c = 1.0
    while True:
        w = c / ((i + 2) * (i + 1))
        out[(i + 2, j)] = out.get((i + 2, j), 0.0) + w
        if j < 2:
            return out
        c, i, j = -w * j * (j - 1), i + 2, j - 2


def log_log_l2(shape, k, m):
    a, b = hole_points(shape)[k]

    def G(x, y):
        r2 = (x - a) ** 2 + (y - b) ** 2
        return r2 * (0.5 * np.log(r2) - 1) / 4

    def gradG(x, y):
        r2 = (x - a) ** 2 + (y - b) ** 2
        f = (np.log(r2) - 1) / 4
        return (x - a) * f, (y - b) * f
    return green(shape, G, gradG, Fun(shape, {}, [1.0 if q == m else 0.0 for q in range(shape.holes)]))


def mono_log_h1(shape, i, j, k):
    return flux(shape, Fun(shape, {}, [1.0 if q == k else 0.0 for q in range(shape.holes)]), Fun(shape, {(i, j): 1.0}))


def log_log_h1(shape, k, m):
    e = [Fun(shape, {}, [1.0 if q == r else 0.0 for q in range(shape.holes)]) for r in (k, m)]
    return flux(shape, e[0], e[1])
