"""C02: sampling lifecycle of (shared) edges."""
import numpy as np

from harness.core import (SEED, THOROUGH, cfg, close, expect, rejected, same)
from harness.ref import Geometry, c2

PI = np.pi


class Def:
    """Edge definition: vertices, curve, adjacent cells (1-based)."""

    def __init__(self, p, q, pos, neg, curve="line", opts=None, qt="kress"):
        self.p, self.q, self.pos, self.neg = p, q, pos, neg
        self.curve, self.opts, self.qt = curve, opts or {}, qt

    def build(self, pf):
        a = pf.Vert(*map(float, self.p))
        b = a if self.q is None else pf.Vert(*map(float, self.q))
        return pf.Edge(a, b, pos_cell_idx=self.pos - 1,
                       neg_cell_idx=self.neg - 1, curve_type=self.curve,
                       quad_type=self.qt, **self.opts)

    def geometry(self, n, rev):
        if self.q is None:
            a, b = 1.0, complex(*self.p)
        else:
            g = Geometry(self.curve, self.opts, (0, 2 * PI), "trap", 4)
            p, q = complex(*self.p), complex(*self.q)
            a = (q - p) / (g.z[-1] - g.z[0])
            b = p - a * g.z[0]
        r = Geometry(self.curve, self.opts, (0, 2 * PI), self.qt, n, a=a, b=b)
        return r.reversed() if rev else r


MESHES = {
    # two cells side by side, curved common edge, opposite orientations
    "pair": [Def((0, 0), (1, 0), 1, 0), Def((1, 0), (1, 1), 1, 2, "sine_wave", dict(amp=0.1, freq=2)),
             Def((0, 1), (1, 1), 0, 1), Def((0, 1), (0, 0), 1, 0, "circular_arc", dict(H=0.6)),
             Def((1, 0), (2, 0), 2, 0), Def((2, 1), (2, 0), 0, 2), Def((1, 1), (2, 1), 0, 2, qt="trap")],
    # a punctured square with its disc, and a lens hole made of two arcs
    "holes": [Def((0, 0), (4, 0), 1, 0), Def((4, 4), (4, 0), 0, 1), Def((4, 4), (0, 4), 1, 0),
              Def((0, 4), (0, 0), 1, 0), Def((1, 1), None, 2, 1, "circle", dict(radius=0.5), "trap"),
              Def((2, 2), (3, 3), 3, 1, "circular_arc", dict(H=0.5)),
              Def((2, 2), (3, 3), 1, 3, "line"),
              ],
    # three cells around a vertex
    "fan": [Def((0, 0), (2, 0), 1, 3, "spline", dict(pts=[[0., .2, .5, 1.2, 2.], [0., .1, .15, .1, 0.]])), Def((0, 0), (-1, 2), 2, 1), Def((-1, -2), (0, 0), 2, 3),
            Def((2, 0), (-1, 2), 1, 0, "circular_arc_deg", dict(theta0=90)),
            Def((-1, -2), (-1, 2), 0, 2), Def((-1, -2), (2, 0), 3, 0)],
}


def cells_of(defs):
    nc = max(max(d.pos, d.neg) for d in defs)
    out = []
    for c in range(1, nc + 1):
        s = []
        for k, d in enumerate(defs, 1):
            if d.pos == c:
                s.append((k, 1))
            elif d.neg == c:
                s.append((k, -1))
        out.append(s)
    return out


EDGE_QUERIES = {
    "get_sampled_points": lambda e, o: e.get_sampled_points(),
    "get_bounding_box": lambda e, o: e.get_bounding_box(),
    "evaluate_function": lambda e, o: e.evaluate_function(lambda x, y: x),
    "multiply_by_dx_norm": lambda e, o: e.multiply_by_dx_norm(o),
    "dot_with_tangent": lambda e, o: e.dot_with_tangent(o, o),
    "dot_with_normal": lambda e, o: e.dot_with_normal(o, o),
    "integrate_over_edge": lambda e, o: e.integrate_over_edge(o),
    "integrate_over_edge_preweighted":
        lambda e, o: e.integrate_over_edge_preweighted(o),
}
CELL_QUERIES = {
    "get_bounding_box": lambda c, o: c.get_bounding_box(),
    "is_in_interior": lambda c, o: c.is_in_interior(o, o),
    "get_distance_to_boundary": lambda c, o: c.get_distance_to_boundary(.5, .5),
    "evaluate_function_on_boundary":
        lambda c, o: c.evaluate_function_on_boundary(lambda x, y: x),
    "get_boundary_points": lambda c, o: c.get_boundary_points(),
    "get_unit_tangent": lambda c, o: c.get_unit_tangent(),
    "get_unit_normal": lambda c, o: c.get_unit_normal(),
    "get_dx_norm": lambda c, o: c.get_dx_norm(),
    "dot_with_tangent": lambda c, o: c.dot_with_tangent(o, o),
    "dot_with_normal": lambda c, o: c.dot_with_normal(o, o),
    "multiply_by_dx_norm": lambda c, o: c.multiply_by_dx_norm(o),
    "integrate_over_boundary": lambda c, o: c.integrate_over_boundary(o),
    "integrate_over_boundary_preweighted":
        lambda c, o: c.integrate_over_boundary_preweighted(o),
}

CONTOUR_QUERIES = {
    "find_num_pts": lambda c, o: c.find_num_pts(),
    "find_local_vert_idx": lambda c, o: c.find_local_vert_idx(),
    "find_closest_local_vertex_index": lambda c, o: c.find_closest_local_vertex_index(),
    "find_interior_point": lambda c, o: c.find_interior_point(),
    "get_distance_to_boundary": lambda c, o: c.get_distance_to_boundary(.5, .5),
    "is_in_interior_contour": lambda c, o: c.is_in_interior_contour(o, o),
    "evaluate_function_on_contour": lambda c, o: c.evaluate_function_on_contour(lambda x, y: x),
    "get_sampled_points": lambda c, o: c.get_sampled_points(),
    "dot_with_tangent": lambda c, o: c.dot_with_tangent(o, o),
    "dot_with_normal": lambda c, o: c.dot_with_normal(o, o),
    "multiply_by_dx_norm": lambda c, o: c.multiply_by_dx_norm(o),
    "integrate_over_closed_contour": lambda c, o: c.integrate_over_closed_contour(o),
    "integrate_over_closed_contour_preweighted":
        lambda c, o: c.integrate_over_closed_contour_preweighted(o),
}


def check_contours(K, est, where):
    """Each closed contour is sampled when its edges are, whatever the others."""
    from puncturedfem.mesh.mesh_exceptions import NotParameterizedError as NPE
    for j, comp in enumerate(K.components):
        sampled = all(est[e.idx]["n"] for e in comp.edges)
        same(bool(comp.is_parameterized()), sampled, f"{where}: contour {j} is sampled")
        if not sampled:
            for name, q in CONTOUR_QUERIES.items():
                with rejected(f"{where}: {name} on unsampled contour {j}", NPE):
                    q(comp, np.ones(8))


def check_edge(e, d, st, where, deep):
    from puncturedfem.mesh.mesh_exceptions import NotParameterizedError as NPE
    n = st["n"]
    same(bool(e.is_parameterized), n != 0, f"{where}: sampled")
    if n == 0:
        if deep:
            for name, q in EDGE_QUERIES.items():
                with rejected(f"{where}: {name} on an unsampled edge", NPE):
                    q(e, np.ones(8))
        return
    g = d.geometry(n, st["rev"])
    same(int(e.num_pts), 2 * n + 1, f"{where}: number of points")
    close(e.x, c2(g.z), 1e-9, f"{where}: points")
    close(e.unit_tangent, c2(g.tan), 1e-9, f"{where}: tangent")
    close(e.unit_normal, c2(g.nor), 1e-9, f"{where}: normal")
    close(e.dx_norm, g.dxn, 1e-9, f"{where}: speed")
    close(e.curvature, g.cur, 1e-8, f"{where}: curvature")
    if deep:
        x, y = e.get_sampled_points()
        close([x, y], c2(g.z)[:, :-1], 1e-9, f"{where}: sampled points")
        # the box: tight around the samples, given room across a level edge
        x0, x1, y0, y1 = e.get_bounding_box()
        for (lo, hi), v, other, nm in (((x0, x1), g.z.real, g.z.imag, "x"), ((y0, y1), g.z.imag, g.z.real, "y")):
            if np.ptp(v) > 1e-9:
                close([lo, hi], [v.min(), v.max()], 1e-9, f"{where}: bounding box in {nm}")
            else:
                close([lo, hi], [v[0] - np.ptp(other) / 2, v[0] + np.ptp(other) / 2], 1e-9,
                      f"{where}: bounding box of a level edge in {nm}")
        x, y = e.get_sampled_points(ignore_endpoint=False)
        close([x, y], c2(g.z), 1e-9, f"{where}: sampled points with end")


def check_cell(K, defs, cell, fresh, est, where, deep):
    from puncturedfem.mesh.mesh_exceptions import NotParameterizedError as NPE
    sampled = all(est[k - 1]["n"] for k, _ in cell)
    same(bool(K.is_parameterized()), sampled, f"{where}: cell is sampled")
    if deep:
        check_contours(K, est, where)
    if not sampled:
        if deep:
            for name, q in CELL_QUERIES.items():
                with rejected(f"{where}: {name} on an unsampled cell", NPE):
                    q(K, np.ones(8))
        return
    if not fresh:
        return
    orient = dict(cell)
    want, seen = [], []
    for comp in K.components:
        for e in comp.edges:
            k = e.idx + 1
            seen.append(k)
            g = defs[k - 1].geometry(fresh, orient[k] == -1)
            want.append((g.z[:-1], g.nor[:-1], g.tan[:-1], g.dxn[:-1]))
    same(sorted(seen), sorted(orient), f"{where}: edges of the cell")
    cat = [np.concatenate([w[i] for w in want]) for i in range(4)]
    same(int(K.num_pts), len(cat[0]), f"{where}: boundary size")
    close(K.get_boundary_points(), c2(cat[0]), 1e-9, f"{where}: boundary")
    close(K.get_unit_normal(), c2(cat[1]), 1e-9, f"{where}: cell normal")
    close(K.get_unit_tangent(), c2(cat[2]), 1e-9, f"{where}: cell tangent")
    close(K.get_dx_norm(), cat[3], 1e-9, f"{where}: cell weights")


def replay(rec):
    import puncturedfem as pf
    defs = MESHES[rec["mesh"]]
    cells = cells_of(defs)
    mesh = pf.PlanarMesh([d.build(pf) for d in defs], verbose=False)
    K = [mesh.get_cell(i) for i in range(len(cells))]
    hist = rec["hist"]
    for k, h in enumerate(hist):
        op = h["op"]
        if op == "sample":
            mesh.edges[h["e"] - 1].parameterize(pf.get_quad_dict(n=h["n"]))
        elif op == "unsample":
            mesh.edges[h["e"] - 1].deparameterize()
        elif op == "reverse":
            mesh.edges[h["e"] - 1].reverse_orientation()
        elif op == "cell":
            K[h["c"] - 1].parameterize(pf.get_quad_dict(n=h["n"]),
                                       compute_interior_points=False)
        elif op == "uncell":
            K[h["c"] - 1].deparameterize()
        elif op == "getcell":
            K[h["c"] - 1] = mesh.get_cell(h["c"] - 1)
        deep = k == len(hist) - 1
        prev = hist[k - 1]["est"] if k else None
        for i, d in enumerate(defs):
            if deep or prev is None or prev[i] != h["est"][i]:
                check_edge(mesh.edges[i], d, h["est"][i],
                           f"step {k} ({op}), edge {i + 1}", deep)
        for i, cell in enumerate(cells):
            if deep or h["fresh"][i] or op == "uncell":
                check_cell(K[i], defs, cell, h["fresh"][i], h["est"],
                           f"step {k} ({op}), cell {i + 1}", deep)
    # sampling any cell now gives that cell's own boundary
    for i, cell in enumerate(cells):
        K[i].parameterize(pf.get_quad_dict(n=5), compute_interior_points=False)
        check_cell(K[i], defs, cell, 5, [dict(n=5)] * len(defs),
                   f"finally, cell {i + 1}", False)


def run(chk):
    inv = ["Emit", "TypeOK", "FreshOK", "OneOwner"]
    cases = []
    for mesh, defs in MESHES.items():
        cells = cells_of(defs)
        txt = "<<" + ", ".join(
            "{" + ", ".join(f"<<{k}, {o}>>" for k, o in c) + "}"
            for c in cells) + ">>"
        base = dict(NE=len(defs), Cells="=" + txt, MeshId=mesh)
        # the whole reachable state space of the lifecycle (no history)
        chk.tlc("EdgeLifecycle", cfg(invariants=inv[1:], view="View"),
                name=mesh + "-states", consts=dict(
                    base, Samplings="={4}",
                    Depth=30 if THOROUGH else 6))
        r = chk.tlc("EdgeLifecycle", cfg(invariants=inv, properties=["Forget"]),
                    name=mesh + "-pairs", consts=dict(
                        base, Samplings="={4}", Depth=2))
        recs = [("pair", x) for x in chk.pick(r.records, 250)]
        r = chk.tlc("EdgeLifecycle", cfg(invariants=inv, properties=["Forget"]),
                    name=mesh + "-long", consts=dict(
                        base, Samplings="={4, 6}", Depth=9),
                    simulate=400 if THOROUGH else 40, depth=11, seed=SEED)
        recs += [("long", x) for x in chk.pick(r.records, 4000 if THOROUGH else 400)]
        for kind, x in recs:
            ops = "-".join(h["op"] for h in x["hist"][1:])
            cases.append((f"{kind}:{mesh}:{ops}", replay, (x,), x))
    chk.run_cases(cases)
    chk.need("pair", 500)
    chk.need("long", 500)
