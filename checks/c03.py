"""C03: splitting edges."""
import copy

import numpy as np

from harness.core import (SEED, THOROUGH, cfg, close, expect, rejected, same)
from harness.edgecase import BY_ID, PI, TABLE, compare, cx, geometry, vert
from fractions import Fraction as F


def curves_text():
    def g(p):
        return f"<<{p[0]},{p[1]},{p[2]}>>"

    def q(x):
        f = F(x).limit_denominator(100)
        return f"<<{f.numerator},{f.denominator}>>"
    return "{" + ", ".join(
        f'[id |-> "{r[0]}", p0 |-> {g(r[5])}, p1 |-> {g(r[6])}, '
        f'loop |-> {str(r[7]).upper()}, lo |-> {q(r[3][0])}, hi |-> {q(r[3][1])}]'
        for r in TABLE) + "}"


def par(f):
    return f[0] / f[1] * PI


def transform(e, kind, v):
    import puncturedfem as pf
    z = cx(v)
    if kind == "translate":
        e.translate(pf.Vert(z.real, z.imag))
    elif kind == "rotate":
        e.rotate(float(np.degrees(np.arctan2(z.imag, z.real))))
    elif kind == "reflectx":
        e.reflect_across_x_axis()
    elif kind == "reflecty":
        e.reflect_across_y_axis()
    elif kind == "orthref":
        e.apply_orthogonal_transformation(
            np.array([[z.real, z.imag], [z.imag, -z.real]]))
    elif kind == "dilate":
        e.dilate(z.real)


def state(e):
    """Everything observable on an edge."""
    d = dict(a=(e.anchor.x, e.anchor.y), b=(e.endpnt.x, e.endpnt.y),
             cells=(e.pos_cell_idx, e.neg_cell_idx), curve=e.curve_type,
             opts=repr(e.curve_opts), q=e.quad_type, tb=tuple(e.t_bounds),
             par=bool(e.is_parameterized), loop=bool(e.is_loop))
    if e.is_parameterized:
        d["x"] = e.x.tobytes() + e.unit_tangent.tobytes() + \
            e.dx_norm.tobytes() + e.curvature.tobytes()
    return d


def split(e, h, lo, hi):
    import puncturedfem as pf
    ts = [float(lo + (hi - lo) * f[0] / f[1]) for f in h["fs"]]
    form = h["form"]
    if form == "float":
        out = pf.split_edge(e, ts[0])
    elif form == "list":
        arg = list(ts)
        out = pf.split_edge(e, arg)
        same(arg, ts, "the caller's list of parameters")
    elif form == "reversed":
        arg = list(reversed(ts))
        keep = list(arg)
        out = pf.split_edge(e, t_split=arg)
        same(arg, keep, "the caller's list of parameters")
    elif form == "array":
        arg = np.array(ts)
        out = pf.split_edge(e, t_split=arg)
        close(arg, ts, 0, "the caller's array of parameters")
    else:
        out = pf.split_edge(e, num_edges=len(ts) + 1)
    return list(out)


def bad(e, kind):
    import puncturedfem as pf
    a, b = e.t_bounds
    if kind == "none":
        pf.split_edge(e)
    elif kind == "one":
        pf.split_edge(e, num_edges=1)
    elif kind == "zero":
        pf.split_edge(e, num_edges=0)
    elif kind == "below":
        pf.split_edge(e, float(a - 0.5))
    elif kind == "above":
        pf.split_edge(e, float(b + 0.25))
    elif kind == "lo":
        pf.split_edge(e, float(a))
    elif kind == "hi":
        pf.split_edge(e, [float(b)])
    elif kind == "string":
        pf.split_edge(e, "1.0")
    elif kind == "mixed":
        pf.split_edge(e, [0.5 * (a + b), "x"])


SIDES = [(3, 5), (5, 3), (2, 0), (0, 4), (-1, 2), (6, -1), (0, -1), (-1, 0)]


def replay(rec):
    import puncturedfem as pf
    cid = rec["curve"]
    _, curve, opts, tb, qt, p0, p1, loop = BY_ID[cid]
    a = vert((1, 2, 1))
    b = a if loop else vert((-1, 1, 1))
    sides = SIDES[sum(map(ord, cid + str(rec["hist"][-1]))) % len(SIDES)]
    e = pf.Edge(a, b, pos_cell_idx=sides[0], neg_cell_idx=sides[1], curve_type=curve,
                quad_type=qt, t_bounds=(tb[0] * PI, tb[1] * PI), **opts)
    pieces = [e]
    for k, h in enumerate(rec["hist"][1:], 1):
        i = h.get("i", 1) - 1
        where = f"step {k}"
        if h["op"] == "transform":
            transform(pieces[i], h["kind"], h["v"])
        elif h["op"] == "sample":
            pieces[i].parameterize(pf.get_quad_dict(n=5))
        elif h["op"] == "bad":
            before = state(pieces[i])
            with rejected(f"{where}: {h['kind']}", ValueError):
                bad(pieces[i], h["kind"])
            same(state(pieces[i]), before, f"{where}: edge after rejection")
        else:
            old = rec["hist"][k - 1]["pieces"][i]
            parent = pieces[i]
            before = state(parent)
            new = split(parent, h, par(old["lo"]), par(old["hi"]))
            same(len(new), len(h["fs"]) + 1, f"{where}: number of pieces")
            same(state(parent), before, f"{where}: the split edge")
            pieces[i:i + 1] = new
            for p in new:
                expect(p is not parent, f"{where}: a new object per piece")
        want = h["pieces"]
        same(len(pieces), len(want), f"{where}: pieces")
    n_split = sum(h["op"] == "split" for h in rec["hist"])
    for j, (p, w) in enumerate(zip(pieces, rec["hist"][-1]["pieces"])):
        where = f"piece {j}"
        same((p.pos_cell_idx, p.neg_cell_idx), sides, f"{where}: cells")
        same(p.curve_type, curve, f"{where}: curve type")
        same(sorted(p.curve_opts), sorted(opts), f"{where}: curve options")
        for o in opts:
            close(p.curve_opts[o], opts[o], 0, f"{where}: option {o}")
        lo, hi = par(w["lo"]), par(w["hi"])
        close(p.t_bounds, (lo, hi), 1e-12, f"{where}: parameter interval")
        same(bool(p.is_loop), loop and len(pieces) == 1, f"{where}: is_loop")
        p.parameterize(pf.get_quad_dict(n=6))
        compare(p, geometry(cid, 6, w["map"], lo, hi, qtype=p.quad_type), 6,
                1e-8)


def endpoints(rec):
    """Consecutive pieces of an untransformed split share a vertex, which is
    where their curves meet."""
    import puncturedfem as pf
    cid = rec["curve"]
    h = rec["hist"][1]
    _, curve, opts, tb, qt, p0, p1, loop = BY_ID[cid]
    a = vert((1, 2, 1))
    b = a if loop else vert((-1, 1, 1))
    e = pf.Edge(a, b, curve_type=curve, quad_type=qt,
                t_bounds=(tb[0] * PI, tb[1] * PI), **opts)
    new = split(e, h, tb[0] * PI, tb[1] * PI)
    for p, q in zip(new, new[1:]):
        expect(p.endpnt == q.anchor, "consecutive pieces share a vertex")
    for p in new:
        p.parameterize(pf.get_quad_dict(n=4))
        close(p.x[:, 0], [p.anchor.x, p.anchor.y], 1e-9, "start of the piece")
        close(p.x[:, -1], [p.endpnt.x, p.endpnt.y], 1e-9, "end of the piece")


def rebuild(name, mask, fracs):
    """A cell rebuilt from split edges keeps perimeter and area."""
    import puncturedfem as pf
    from checks.c02 import MESHES, cells_of
    from puncturedfem.locfun.poly.integrate_poly import \
        integrate_poly_over_mesh_cell as integ
    defs = MESHES[name]
    q = pf.get_quad_dict(n=32)

    def measure(K):
        K.parameterize(q, compute_interior_points=False)
        one = np.ones(K.num_pts)
        x, y = K.get_boundary_points()
        area = K.integrate_over_boundary(0.5 * K.dot_with_normal(x, y))
        mx = K.integrate_over_boundary(0.5 * K.dot_with_normal(x * x, 0 * y))
        return K.integrate_over_boundary(one), area, mx, K.num_holes
    for c in range(len(cells_of(defs))):
        m0 = pf.PlanarMesh([d.build(pf) for d in defs], verbose=False)
        want = measure(m0.get_cell(c))
        edges = []
        for k, d in enumerate(defs):
            e = d.build(pf)
            if (mask >> k) & 1:
                a, b = e.t_bounds
                edges += list(pf.split_edge(
                    e, [a + (b - a) * f for f in fracs]))
            else:
                edges.append(e)
        m1 = pf.PlanarMesh(edges, verbose=False)
        close(measure(m1.get_cell(c)), want, 1e-6,
              f"perimeter, area, moment, holes of cell {c}")


def run(chk):
    inv, props = ["Emit", "Tiling"], ["Inherit"]
    base = dict(Curves="=" + curves_text())
    r1 = chk.tlc("Split", cfg(invariants=inv, properties=props), name="single",
                 consts=dict(base, Depth=1, MaxPieces=8))
    r2 = chk.tlc("Split", cfg(invariants=inv, properties=props), name="after-one",
                 consts=dict(base, Depth=2, MaxPieces=8))
    r3 = chk.tlc("Split", cfg(invariants=inv, properties=props), name="histories",
                 consts=dict(base, Depth=7, MaxPieces=9),
                 simulate=2000 if THOROUGH else 150, depth=9, seed=SEED)
    cases = [(f"single:{x['curve']}:{x['hist'][1]['form']}", replay, (x,), x)
             for x in r1.records]
    cases += [(f"ends:{x['curve']}:{x['hist'][1]['form']}", endpoints, (x,), x)
              for x in r1.records]

    def nm(x):
        return x["curve"] + ":" + "-".join(
            h.get("kind", h["op"]) for h in x["hist"][1:])
    cases += [("two:" + nm(x), replay, (x,), x)
              for x in chk.pick(r2.records, 10**6 if THOROUGH else 1500)]
    cases += [("long:" + nm(x), replay, (x,), x)
              for x in chk.pick(r3.records, 20000 if THOROUGH else 1500)]
    for name in ("pair", "holes", "fan"):
        for mask in (1, 2, 5, 18, 48, 127):
            for fr in ([0.5], [0.3, 0.5], [0.25, 0.5, 0.9]):
                cases.append((f"rebuild:{name}:{mask}:{len(fr)}", rebuild,
                              (name, mask, fr), dict(mesh=name, mask=mask)))
    chk.run_cases(cases)
    for k, m in (("single", 300), ("two", 1000), ("long", 500), ("rebuild", 50)):
        chk.need(k, m)
