"""Small meshes with known incidences and geometry, used by the checks of the
local and global spaces, of the solver and of the plots.

An edge is (kind, a, b, pos, neg, options): from vertex a to vertex b, with
the cell `pos` on its left.  Vertices are names 0, 1, ...; NUM gives the index
the mesh knows them by (gaps on purpose; -1 for vertices of loops only)."""
import numpy as np


class E:
    def __init__(self, kind, a, b, pos, neg, **opts):
        self.kind, self.a, self.b, self.pos, self.neg, self.opts = kind, a, b, pos, neg, opts
        self.loop = a == b

    def flippable(self):
        return self.kind in ("line", "sine")

    def curve(self):
        """Class of the curve, as far as dimensions go."""
        return {"line": "line", "sine": "general", "arc": "conic", "circle": "conic",
                "ellipse": "conic", "drop": "quartic", "bean": "quartic"}[self.kind]


class M:
    def __init__(self, name, verts, num, edges, scale=1.0, top=4):
        self.name, self.verts, self.num, self.edges, self.scale = name, verts, num, edges, scale
        self.top = top      # highest degree for which the polynomials are well conditioned on every edge
        self.cells = sorted({c for e in edges for c in (e.pos, e.neg) if c >= 0})
        assert all(e.b == e.a or num[e.a] >= 0 <= num[e.b] for e in edges)

    def tla(self):
        es = ", ".join(
            f'[a |-> {e.a + 1}, b |-> {e.b + 1}, pos |-> {e.pos}, neg |-> {e.neg}, '
            f'curve |-> "{e.curve()}", loop |-> {str(e.loop).upper()}, flips |-> {str(e.flippable()).upper()}]'
            for e in self.edges)
        return (f'[id |-> "{self.name}", top |-> {self.top}, num |-> <<{", ".join(map(str, self.num))}>>, edges |-> <<{es}>>]')

    def build(self, pf, listing=None, nq=None):
        """The mesh; listing: sequence of (edge number from 1, flipped)."""
        s = self.scale
        vs = [pf.Vert(float(x) * s, float(y) * s, idx=i) if i >= 0 else pf.Vert(float(x) * s, float(y) * s)
              for (x, y), i in zip(self.verts, self.num)]
        listing = listing or [(k + 1, False) for k in range(len(self.edges))]
        out = []
        for k, flip in listing:
            e = self.edges[k - 1]
            a, b, p, q = (e.b, e.a, e.neg, e.pos) if flip else (e.a, e.b, e.pos, e.neg)
            kw = dict(pos_cell_idx=p, neg_cell_idx=q, quad_type=e.opts.get("qt", "kress"))
            if e.kind == "sine":
                kw.update(curve_type="sine_wave", amp=(-1 if flip else 1) * e.opts["amp"], freq=e.opts.get("freq", 1))
            elif e.kind == "arc":
                kw.update(curve_type="circular_arc", H=e.opts["H"])
            elif e.kind == "circle":
                kw.update(curve_type="circle", radius=s * e.opts["r"], quad_type="trap")
            elif e.kind == "ellipse":
                kw.update(curve_type="ellipse", a=s * e.opts["ra"], b=s * e.opts["rb"], quad_type="trap")
            elif e.kind == "drop":
                kw.update(curve_type="teardrop", alpha=e.opts["alpha"])
            elif e.kind == "bean":
                kw.update(curve_type="bean", quad_type="trap")
            out.append(pf.Edge(vs[a], vs[b], **kw))
        return pf.PlanarMesh(out, verbose=False)


def lines(*abpn):
    return [E("line", *t) for t in abpn]


MESHES = [
    # a square cut along its diagonal
    M("diagonal", [(0, 0), (2, 0), (2, 2), (0, 2)], [4, 0, 7, 2],
      lines((0, 1, 0, -1), (1, 2, 0, -1), (2, 3, 1, -1), (3, 0, 1, -1), (0, 2, 1, 0))),
    # a disc around a smaller one: loops only, no vertex at all
    M("rings", [(0, 0), (0.25, 0)], [-1, -1],
      [E("circle", 0, 0, 3, -1, r=2), E("circle", 1, 1, 1, 3, r=0.75)]),
    # a disc cut in half: arcs and a chord
    M("halves", [(-1, 0), (1, 0)], [5, 3],
      [E("arc", 0, 1, -1, 0, H=0), E("line", 0, 1, 0, 2), E("arc", 1, 0, -1, 2, H=0)]),
    # a square with a filled and an open circle
    M("islands", [(0, 0), (4, 0), (4, 4), (0, 4), (1, 1), (3, 3)], [0, 1, 2, 3, -1, 9],
      lines((0, 1, 2, -1), (1, 2, 2, -1), (2, 3, 2, -1), (3, 0, 2, -1)) +
      [E("circle", 4, 4, 0, 2, r=0.5), E("circle", 5, 5, -1, 2, r=0.5)]),
    # four cells around an interior vertex, curved interfaces, an ellipse in one
    M("four", [(0, 0), (2, 0), (4, 0), (0, 2), (2, 2), (4, 2), (0, 4), (2, 4), (4, 4), (3, 3)],
      [10, 11, 12, 20, 21, 22, 30, 31, 32, 40],
      lines((0, 1, 0, -1), (1, 2, 1, -1), (2, 5, 1, -1), (5, 8, 6, -1), (8, 7, 6, -1), (7, 6, 4, -1),
            (6, 3, 4, -1), (3, 0, 0, -1)) +
      [E("sine", 1, 4, 0, 1, amp=0.04, freq=3), E("line", 4, 7, 4, 6), E("sine", 3, 4, 4, 0, amp=-0.06, freq=3),
       E("line", 4, 5, 6, 1), E("ellipse", 9, 9, 8, 6, ra=0.5, rb=0.375)]),
    # a square ring around a square cut in two: an interior polygonal hole
    M("frame", [(0, 0), (4, 0), (4, 4), (0, 4), (1, 1), (3, 1), (3, 3), (1, 3)], [0, 1, 2, 3, 4, 5, 6, 7],
      lines((0, 1, 7, -1), (1, 2, 7, -1), (2, 3, 7, -1), (3, 0, 7, -1), (4, 5, 5, 7), (5, 6, 5, 7),
            (6, 7, 6, 7), (7, 4, 6, 7), (4, 6, 6, 5))),
    # two triangles beside each other with a drop inside one of them
    M("drop", [(0, 0), (6, 0), (0, 6), (-6, 0), (1, 1)], [1, 2, 3, 4, 5],
      lines((0, 1, 0, -1), (1, 2, 0, -1), (0, 2, 1, 0), (2, 3, 1, -1), (3, 0, 1, -1)) +
      [E("drop", 4, 4, 2, 0, alpha=3)], top=2),
    # a square with two polygonal holes, one of them filled, and a round one
    M("panes", [(0, 0), (6, 0), (6, 6), (0, 6), (1, 1), (2.5, 1), (1, 2.5), (3, 4), (5, 4), (5, 5), (4.5, 2)],
      [8, 3, 5, 0, 2, 9, 12, 1, 4, 6, -1],
      lines((0, 1, 3, -1), (1, 2, 3, -1), (2, 3, 3, -1), (3, 0, 3, -1), (4, 5, 1, 3), (5, 6, 1, 3), (6, 4, 1, 3),
            (7, 8, -1, 3), (8, 9, -1, 3), (9, 7, -1, 3)) + [E("circle", 10, 10, -1, 3, r=0.5)]),
    # a bean in a triangle with one curved side
    M("bean", [(0, 0), (6, 0), (0, 6), (1.9, 1.8)], [1, 2, 3, 4],
      [E("sine", 0, 1, 0, -1, amp=0.02, freq=3)] + lines((1, 2, 0, -1), (2, 0, 0, -1)) + [E("bean", 3, 3, 2, 0)], top=2),
    # one cell
    M("triangle", [(0, 0), (1, 0), (0, 1)], [2, 1, 0], lines((0, 1, 0, -1), (1, 2, 0, -1), (2, 0, 0, -1))),
    # an ellipse, outer boundary of one cell and a far cell beside it
    M("apart", [(0, 0), (3, 0), (5, 0), (3, 2)], [-1, 6, 1, 8],
      [E("ellipse", 0, 0, 4, -1, ra=1.5, rb=1)] + lines((1, 2, 9, -1), (2, 3, 9, -1), (3, 1, 9, -1))),
    # a lens: two edges between the same two vertices
    M("lens", [(0, 0), (2, 0)], [0, 1],
      [E("arc", 1, 0, -1, 1, H=0.25), E("line", 0, 1, 0, 1), E("arc", 0, 1, -1, 0, H=-0.25)]),
    # half a disc, cut in two
    M("sector", [(0, 0), (1, 0), (0, 1), (-1, 0)], [3, 1, 0, 2],
      [E("line", 0, 1, 1, -1), E("arc", 2, 1, -1, 1, H=-0.5), E("line", 0, 2, 0, 1), E("arc", 3, 2, -1, 0, H=-0.5),
       E("line", 3, 0, 0, -1)]),
]
BY_NAME = {m.name: m for m in MESHES}
