"""Curves used by the edge checks, with exact reference endpoints."""
import numpy as np

from .core import Mismatch, close, same
from .ref import Geometry, c2

PI = np.pi
SPL = np.array([[0.0, 1.0, 2.0, 3.0], [0.0, 1.0, 0.0, 1.0]])
SPLC = [[0.0, 2.0, 3.0, 1.0, -1.0], [0.0, 0.5, 2.0, 3.0, 1.0]]


def G(x, y=0, d=1):
    return (x, y, d)


# id, curve, opts, (t0, t1) in units of pi, quad type, p0, p1, loop
TABLE = [
    ("line", "line", {}, (0, 2), "kress", G(0), G(1), False),
    ("line-part", "line", {}, (0.5, 1), "trap", G(1, 0, 4), G(1, 0, 2), False),
    ("arc", "circular_arc", dict(H=0.375), (0, 2), "kress", G(0), G(1), False),
    ("arc-neg", "circular_arc", dict(H=-0.3), (0, 2), "trap", G(0), G(1), False),
    ("sine", "sine_wave", dict(amp=0.3, freq=3), (0, 2), "kress", G(0), G(1), False),
    ("sine-half", "sine_wave", dict(amp=0.5, freq=1), (0, 1), "kress", G(0), G(1, 1, 2), False),
    ("deg90", "circular_arc_deg", dict(theta0=90), (0, 2), "kress", G(1), G(0, 1), False),
    ("deg180", "circular_arc_deg", dict(theta0=180), (0, 2), "trap", G(1), G(-1), False),
    ("deg270", "circular_arc_deg", dict(theta0=270.0), (0, 2), "kress", G(1), G(0, -1), False),
    ("ell-quarter", "ellipse", dict(a=2, b=0.5), (0, 0.5), "kress", G(2), G(0, 1, 2), False),
    ("circ-part", "circle", dict(radius=0.5), (0.5, 2), "trap", G(0, 1, 2), G(1, 0, 2), False),
    ("bean-half", "bean", {}, (0, 1), "kress", G(33, 0, 20), G(-7, 0, 20), False),
    ("cart-half", "cartioid", dict(a=0.5), (0, 1), "kress", G(3, 0, 2), G(-1), False),
    ("tear-half", "teardrop", dict(alpha=2), (0, 1), "kress", G(0), G(2), False),
    ("spline", "spline", dict(pts=SPL), (0, 2), "kress", G(0), G(3, 1), False),
    ("circle", "circle", {}, (0, 2), "trap", G(1), G(1), True),
    ("circle-k", "circle", dict(radius=2), (0, 2), "kress", G(2), G(2), True),
    ("ellipse", "ellipse", dict(a=1.5, b=0.5), (0, 2), "trap", G(3, 0, 2), G(3, 0, 2), True),
    ("bean", "bean", {}, (0, 2), "trap", G(33, 0, 20), G(33, 0, 20), True),
    ("teardrop", "teardrop", dict(alpha=1.5), (0, 2), "kress", G(0), G(0), True),
    ("cartioid", "cartioid", dict(a=-0.4), (0, 2), "kress", G(3, 0, 5), G(3, 0, 5), True),
    ("deg360", "circular_arc_deg", dict(theta0=360), (0, 2), "trap", G(1), G(1), True),
]
BY_ID = {r[0]: r for r in TABLE}


def tla_curves(ids=None):
    return [dict(id=r[0], p0=r[5], p1=r[6], loop=r[7]) for r in TABLE
            if ids is None or r[0] in ids]


def cx(g):
    return complex(g[0], g[1]) / g[2]


def vert(g):
    from puncturedfem import Vert
    z = cx(g)
    return Vert(x=z.real, y=z.imag)


def geometry(cid, n, m, lo=None, hi=None, qtype=None):
    _, curve, opts, tb, qt, _, _, _ = BY_ID[cid]
    lo = tb[0] * PI if lo is None else lo
    hi = tb[1] * PI if hi is None else hi
    return Geometry(curve, opts, (lo, hi), qtype or qt, n,
                    a=cx(m["a"]), b=cx(m["b"]), flip=m["flip"])


def compare(e, g, n, tol=1e-9):
    """The sampled edge against the exact geometry."""
    same(bool(e.is_parameterized), True, "is_parameterized")
    same(int(e.num_pts), 2 * n + 1, "number of sampled points")
    close(e.x, c2(g.z), tol, "sampled points")
    close(e.unit_tangent, c2(g.tan), tol, "unit tangent")
    close(e.unit_normal, c2(g.nor), tol, "unit normal")
    close(e.dx_norm, g.dxn, tol, "speed (weighted)")
    close(e.curvature, g.cur, tol, "curvature")
