"""Cells with exactly known geometry: contours of straight edges, bumps and
circles.  A contour is given in the cell's orientation: the outer one
counterclockwise, holes clockwise."""
import numpy as np


class Seg:
    """Straight edge (bump = 0) or sine bump of amplitude bump * length
    towards the left of the direction p -> q."""

    def __init__(self, p, q, bump=0.0, qt="kress"):
        self.p, self.q, self.bump, self.qt = p, q, bump, qt
        self.loop = False

    def edge(self, pf, side, cell, other, qt=None):
        p, q = (self.p, self.q) if side == 1 else (self.q, self.p)
        kw = dict(curve_type="line")
        if self.bump:
            kw = dict(curve_type="sine_wave", amp=side * self.bump, freq=1)
        a, b = (cell, other) if side == 1 else (other, cell)
        return pf.Edge(pf.Vert(float(p[0]), float(p[1])),
                       pf.Vert(float(q[0]), float(q[1])), pos_cell_idx=a,
                       neg_cell_idx=b, quad_type=qt or self.qt, **kw)

    def area2(self):
        """Twice the signed area between chord and curve, seen by the cell."""
        if not self.bump:
            return 0.0
        ln2 = (self.q[0] - self.p[0]) ** 2 + (self.q[1] - self.p[1]) ** 2
        return -2 * self.bump * ln2 * 2 / np.pi


class Circ:
    """Full circle; hole = True when the cell lies outside of it."""

    def __init__(self, c, r, hole, qt="trap"):
        self.p = self.q = c
        self.r, self.hole, self.qt = r, hole, qt
        self.loop = True

    def edge(self, pf, side, cell, other, qt=None):
        v = pf.Vert(float(self.p[0]), float(self.p[1]))
        a, b = (other, cell) if self.hole else (cell, other)
        return pf.Edge(v, v, pos_cell_idx=a, neg_cell_idx=b,
                       curve_type="circle", quad_type=qt or self.qt,
                       radius=self.r)

    def start(self):
        return (self.p[0] + self.r, self.p[1])

    def area2(self):
        return (-1 if self.hole else 1) * 2 * np.pi * self.r ** 2


class Drop(Circ):
    """Teardrop, starting at its tip (cf. edgelib/teardrop.py)."""

    def __init__(self, p, hole, alpha=1.5, flip=False):
        super().__init__(p, 1, hole, "kress")
        self.alpha, self.flip = alpha, flip

    def start(self):
        return self.p

    def edge(self, pf, side, cell, other, qt=None):
        v = pf.Vert(float(self.p[0]), float(self.p[1]))
        a, b = (other, cell) if self.hole else (cell, other)
        return pf.Edge(v, v, pos_cell_idx=a, neg_cell_idx=b,
                       curve_type="teardrop", quad_type=qt or self.qt,
                       alpha=self.alpha)


def geometry(e, n, qt=None):
    """Reference samples of a shape's edge in the cell's orientation."""
    from .ref import Geometry
    qt = qt or e.qt
    two_pi = 2 * np.pi
    if e.loop:
        g = Geometry("circle", dict(radius=e.r), (0, two_pi), qt, n, b=complex(*e.p))
        return g.reversed() if e.hole else g
    p, q_ = complex(*e.p), complex(*e.q)
    if e.bump:
        return Geometry("sine_wave", dict(amp=e.bump, freq=1), (0, two_pi), qt, n,
                        a=q_ - p, b=p)
    return Geometry("line", {}, (0, two_pi), qt, n, a=q_ - p, b=p)


def ring(pts, bumps=None, qt="kress"):
    n = len(pts)
    return [Seg(pts[i], pts[(i + 1) % n], (bumps or {}).get(i, 0.0), qt)
            for i in range(n)]


def cw(pts, bumps=None, qt="kress"):
    return ring(list(reversed(pts)), bumps, qt)


class Shape:
    def __init__(self, name, *contours):
        self.name, self.contours = name, contours
        self.edges = [e for c in contours for e in c]
        self.comp = [i for i, c in enumerate(contours) for _ in c]
        self.holes = len(contours) - 1
        self.ok = True

    def tla(self):
        out = []
        for e, c in zip(self.edges, self.comp):
            a2 = int(round(e.area2() * 100))
            p, q = (e.start(),) * 2 if e.loop else (e.p, e.q)
            out.append(
                f"[p |-> <<{10 * p[0]:.0f}, {10 * p[1]:.0f}>>, "
                f"q |-> <<{10 * q[0]:.0f}, {10 * q[1]:.0f}>>, "
                f"loop |-> {str(e.loop).upper()}, c |-> {c + 1}, a2 |-> {a2}]")
        return f'[id |-> "{self.name}", ok |-> {str(self.ok).upper()}, edges |-> <<' + ", ".join(out) + ">>]"


SQ = [(0, 0), (4, 0), (4, 4), (0, 4)]
TRI = [(0, 0), (6, 0), (0, 6)]
ELL = [(0, 0), (4, 0), (4, 2), (2, 2), (2, 4), (0, 4)]

SHAPES = [
    Shape("disc", [Circ((1, 2), 1.5, False)]),
    Shape("lens", ring([(0, 0), (2, 0)], {0: -0.3, 1: -0.2})),
    Shape("annulus", [Circ((0, 0), 2, False)], [Circ((0.5, 0.2), 1, True)]),
    Shape("concentric", [Circ((1, 1), 2, False)], [Circ((1, 1), 0.5, True)]),
    Shape("triangle", ring(TRI, {1: -0.1})),
    Shape("square", ring(SQ, {0: 0.05, 2: -0.05})),
    Shape("sq-circ", ring(SQ), [Circ((2, 2), 1, True)]),
    Shape("circ-sq", [Circ((2, 2), 4, False, "kress")], cw([(1, 1), (3, 1), (3, 3), (1, 3)])),
    Shape("tri-tri", ring(TRI), cw([(1, 1), (2, 1), (1, 2)])),
    Shape("sq-2circ", ring(SQ, {1: -0.1}), [Circ((1, 1), 0.5, True)], [Circ((3, 2.5), 0.7, True)]),
    Shape("tri-lens-circ", ring(TRI), [Circ((1, 1), 0.5, True)], cw([(2, 2), (3, 2)], {0: 0.3, 1: 0.1})),
    Shape("ell", ring(ELL)),
    Shape("ell-3holes", ring(ELL, {0: -0.1, 5: 0.04}), [Circ((1, 1), 0.5, True)],
          cw([(2.5, 0.5), (3.5, 0.5), (3, 1.5)]), cw([(0.5, 2.5), (1.5, 2.5), (1.5, 3.5), (0.5, 3.5)])),
    Shape("circ-3circ", [Circ((0, 0), 5, False)], [Circ((0, 0), 1, True)],
          [Circ((3, 0), 0.8, True)], [Circ((-2, -2.5), 1.2, True)]),
]
# contours that touch where a loop starts: no valid cell
TOUCHING = [
    Shape("drop-drop", [Circ((0, 0), 9, False)], [Drop((1, 1), True)], [Drop((1, 1), True, 1.2)]),
    Shape("drop-corner", ring(SQ), [Drop((0, 0), True)]),
    Shape("circ-corner", ring([(2, 0), (2, 4), (-4, 0)]), [Circ((1, 0), 1, True)]),
    Shape("circ-twice", [Circ((0, 0), 2, False)], [Circ((1, 1), 0.5, True)], [Circ((1, 1), 0.5, True)]),
]
for _s in TOUCHING:
    _s.ok = False
BY_NAME = {s.name: s for s in SHAPES + TOUCHING}


def build_cell(shape, order=None, sides=None, cell=0, other=-1, qt=None, **kw):
    """A MeshCell over the shape with its edges listed in the given order."""
    import puncturedfem as pf
    n = len(shape.edges)
    order = list(range(n)) if order is None else order
    sides = [1] * n if sides is None else sides
    edges = [shape.edges[k].edge(pf, sides[i], cell, other, qt)
             for i, k in enumerate(order)]
    return pf.MeshCell(cell, edges, **kw), edges


# ---- cells whose integrals are known exactly ------------------------------
def q(x):
    """A rational number as TLA+ text."""
    from fractions import Fraction
    f = Fraction(x).limit_denominator(1000)
    return f"<<{f.numerator}, {f.denominator}>>"


def exact_tla(shape):
    """Contours of a shape without bumps, for CellInt.tla."""
    out = []
    for k, c in enumerate(shape.contours):
        if c[0].loop:
            out.append(f'[kind |-> "disc", c |-> <<{q(c[0].p[0])}, {q(c[0].p[1])}>>, '
                       f"r |-> {q(c[0].r)}]")
        else:
            pts = [e.p for e in c]
            if k:
                pts = pts[::-1]     # holes are listed clockwise in the cell
            out.append('[kind |-> "poly", v |-> <<' + ", ".join(
                f"<<{q(a)}, {q(b)}>>" for a, b in pts) + ">>]")
    return f'[id |-> "{shape.name}", cell |-> <<' + ", ".join(out) + ">>]"


EXACT = [
    Shape("x-disc", [Circ((1, 2), 1.5, False)]),
    Shape("x-disc-kress", [Circ((0, -1), 2, False, "kress")]),
    Shape("x-annulus", [Circ((0, 0), 2, False)], [Circ((0.5, 0), 1, True)]),
    Shape("x-concentric", [Circ((1, 1), 2, False)], [Circ((1, 1), 0.5, True)]),
    Shape("x-tri", ring([(0, 0), (3, 0), (0, 4)])),
    Shape("x-square", ring([(0, 0), (2, 0), (2, 2), (0, 2)])),
    Shape("x-ell", ring(ELL)),
    Shape("x-kite", ring([(0, -2), (3, 1), (0, 2), (-1, 0)])),
    Shape("x-tri-circ", ring([(0, 0), (3, 0), (0, 4)]), [Circ((1, 1), 0.5, True)]),
    Shape("x-sq-sq", ring(SQ), cw([(1, 1), (3, 1), (3, 2), (1, 2)])),
    Shape("x-circ-tri", [Circ((1, 1), 2, False)], cw([(1, 0), (2, 1), (1, 2)])),
    Shape("x-sq-2", ring(SQ), [Circ((1, 1), 0.5, True)], cw([(2, 2), (3, 2), (3, 3), (2, 3)])),
    Shape("x-circ-2", [Circ((0, 0), 3, False)], [Circ((1.5, 0), 0.5, True)],
          [Circ((-1, -1), 1, True)]),
    Shape("x-ell-3", ring(ELL), [Circ((1, 1), 0.5, True)],
          cw([(2.5, 0.5), (3.5, 0.5), (3, 1.5)]), cw([(0.5, 2.5), (1.5, 2.5), (1.5, 3.5), (0.5, 3.5)])),
]
BY_NAME.update({s.name: s for s in EXACT})
