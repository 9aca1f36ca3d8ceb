"""C06: interior points, classification, triangulation."""
import json
from fractions import Fraction

import numpy as np

from harness.core import (SEED, THOROUGH, MachineryError, Mismatch, cfg, close,
                          expect, frac, rejected, same)
from harness.shapes import BY_NAME, EXACT, build_cell, exact_tla, geometry, q

SHAPES = [s for s in EXACT if s.name not in ("x-disc-kress",)]
N = 12


def gap(shape, n=N):
    return max(float(np.max(np.abs(np.diff(geometry(e, n).z)))) for e in shape.edges) / 2


def cell(name, turn=0, n=N, interior=True, **kw):
    import puncturedfem as pf
    shape = BY_NAME[name]
    m = len(shape.edges)
    order = [(k + turn) % m for k in range(m)]
    sides = [1 if (k + turn) % 2 else -1 for k in range(m)]
    K, _ = build_cell(shape, order, sides, **kw)
    K.parameterize(pf.get_quad_dict(n=n), compute_interior_points=interior)
    return K


def grid_case(rec, m, variant):
    (rows, cols), (at, rt) = rec["grid"], [frac(t) for t in rec["tols"][m]]
    if variant == "constructor":
        K = cell(rec["cell"], int_mesh_size=(rows, cols), rtol=rt, atol=at)
    else:   # set afterwards, and generated again
        K = cell(rec["cell"], turn=1, interior=variant == "twice", int_mesh_size=(5, 6))
        K.set_interior_mesh_size(rows, cols)
        K.set_interior_point_tolerance(rtol=rt, atol=at)
        K.generate_interior_points()
    lo, hi = ([frac(c) for c in rec["box"][k]] for k in ("lo", "hi"))
    close(K.get_bounding_box(), [lo[0], hi[0], lo[1], hi[1]], 1e-9, "bounding box")
    x = lo[0] + (hi[0] - lo[0]) * np.arange(cols) / (cols - 1)
    y = lo[1] + (hi[1] - lo[1]) * np.arange(rows) / (rows - 1)
    X, Y = np.tile(x, rows), np.repeat(y, cols)
    px, py = np.asarray(K.int_x1), np.asarray(K.int_x2)
    same(px.shape, py.shape, "interior coordinates")
    kept = np.zeros(rows * cols, dtype=int)
    for a, b in zip(px.ravel(), py.ravel()):
        d = np.hypot(X - a, Y - b)
        i = int(np.argmin(d))
        expect(d[i] < 1e-9, f"interior point ({a}, {b}) is not a grid point")
        kept[i] += 1
    expect(kept.max(initial=0) <= 1, "an interior point is listed twice")
    for i, cs in enumerate(rec["cls"]):
        c = cs[m]
        if c == "in" and not kept[i]:
            raise Mismatch(f"grid point ({X[i]:.4f}, {Y[i]:.4f}) is interior, but missing")
        if c == "out" and kept[i]:
            raise Mismatch(f"grid point ({X[i]:.4f}, {Y[i]:.4f}) is not interior, but kept")


def probe_case(rec, turn, n):
    K = cell(rec["cell"], turn, n=n, interior=False)
    pts = [p for p in rec["probe"] if p["cls"] != "near"]
    x = np.array([frac(p["x"][0]) for p in pts])
    y = np.array([frac(p["x"][1]) for p in pts])
    want = np.array([p["cls"] == "in" for p in pts])
    for shape in ((len(x),), (1, len(x)), (len(x), 1)):
        got = np.asarray(K.is_in_interior(x.reshape(shape), y.reshape(shape)))
        same(got.shape, shape, "shape of the answer")
        bad = np.flatnonzero(got.ravel() != want)
        if bad.size:
            i = bad[0]
            raise Mismatch(f"({x[i]}, {y[i]}) is classified {'in' if got.ravel()[i] else 'out'}, "
                           f"specified {'in' if want[i] else 'out'}")
    # distance to the boundary is that to the nearest sample
    bx, by = K.get_boundary_points()
    for a, b in list(zip(x, y))[::7]:
        close(K.get_distance_to_boundary(a, b), float(np.min(np.hypot(bx - a, by - b))),
              1e-9, "distance to the boundary")
    with rejected("coordinates of different sizes"):
        K.is_in_interior(x, y[:-1])


def record(name, turn, n, tid):
    """Representative points of contours and unmasked triangle centres."""
    K = cell(name, turn, n=n, int_mesh_size=(9, 9))
    shape = BY_NAME[name]
    points, which = [], []
    for c in K.components:
        ids = set()
        bx, by = c.get_sampled_points()
        for ci, con in enumerate(shape.contours):
            z = geometry(con[0], n).z[0]
            if np.min(np.hypot(bx - z.real, by - z.imag)) < 1e-9:
                ids.add(ci + 1)
        same(len(ids), 1, "contour recognised")
        which.append(ids.pop())
        p = c.interior_point
        points.append([round(1000 * p.x), round(1000 * p.y)])
    T = K.triangulation
    tri = T.triangles if T.mask is None else T.triangles[~T.mask]
    expect(len(tri) > 0, "the triangulation shows nothing")
    cx, cy = T.x[tri].mean(axis=1), T.y[tri].mean(axis=1)
    P = np.stack([T.x[tri], T.y[tri]])
    area = 0.5 * np.abs((P[0, :, 1] - P[0, :, 0]) * (P[1, :, 2] - P[1, :, 0])
                        - (P[0, :, 2] - P[0, :, 0]) * (P[1, :, 1] - P[1, :, 0]))
    # the triangles that show fill the cell, and those at the boundary are known
    whole, on = 0.0, np.zeros(len(T.x), dtype=bool)
    for c in K.components:
        bx, by = c.get_sampled_points()
        whole += 0.5 * np.sum(bx * np.roll(by, -1) - by * np.roll(bx, -1))
        on |= np.array([np.min(np.hypot(bx - a, by - b)) < 1e-12 for a, b in zip(T.x, T.y)])
    close(area.sum() / whole, 1.0, 5e-3, "area of the triangles that show")
    same(np.asarray(K.boundary_mask).tolist(), on[T.triangles].any(axis=1).tolist(), "triangles with a corner on the boundary")
    sides = [0.5 * (P[:, :, k] + P[:, :, (k + 1) % 3]) for k in range(3)]
    return dict(id=tid, points=points, contour=which, shape=name,
                centres=[[round(1000 * a), round(1000 * b)] for a, b in zip(cx, cy)],
                sides=[[round(1000 * a), round(1000 * b)] for m in sides for a, b in m.T])


def run(chk):
    cells = "=<<" + ", ".join(
        exact_tla(s)[:-1] + f", gap |-> {q(Fraction(int(gap(s) * 50) + 1, 50))}]"
        for s in SHAPES) + ">>"
    grids = "={<<9, 9>>, <<5, 8>>, <<10, 4>>" + (", <<17, 13>>, <<20, 31>>}" if THOROUGH else "}")
    tols = "=<<<<<<1, 50>>, <<1, 50>>>>, <<<<3, 10>>, <<1, 50>>>>, <<<<1, 50>>, <<1, 8>>>>>>"
    r = chk.tlc("InteriorPts", cfg(invariants=["Emit", "EmitProbe", "Sane"]), name="grids",
                consts=dict(Cells=cells, Grids=grids, Tols=tols, Probes=21 if THOROUGH else 9))
    cases, probes = [], set()
    for x in r.records:
        if "probe" in x:
            if x["cell"] in probes:
                continue
            probes.add(x["cell"])
            for turn, n in ((0, 16), (1, 8), (2, 12)):
                cases.append((f"probe:{x['cell']}:{turn}:{n}", probe_case, (x, turn, n), None))
        else:
            for m, t in enumerate(x["tols"]):
                vs = ("constructor", "twice", "later")
                for v in vs if THOROUGH else (vs[(m + len(cases)) % 3],):
                    cases.append((f"grid:{x['cell']}:{x['grid']}:{t}:{v}", grid_case, (x, m, v),
                                  dict(cell=x["cell"], grid=x["grid"], tol=t)))
    traces = []
    for s in SHAPES:
        for turn, n in ((0, 8), (1, 16)) + (((2, 12), (3, 20)) if THOROUGH else ()):
            t = chk.case(f"points:{s.name}:{turn}:{n}", record, s.name, turn, n, f"{turn}:{n}",
                         sample=dict(shape=s.name, turn=turn, n=n))
            if t:
                traces.append(t)
    for t in traces:
        t["id"] = t["shape"]
    j = chk.tlc("InteriorJudge", cfg(spec="JSpec", invariants=["Verdict"]), name="judge",
                consts=dict(Cells=cells, Grids="={<<3, 3>>}",
                            Tols="=<<<<<<1, 10>>, <<1, 10>>>>>>", Probes=3),
                files={"trace.json": json.dumps(traces)})
    if len(j.records) < len(traces):
        raise MachineryError(f"{len(j.records)} verdicts for {len(traces)} recordings")
    for x in j.records:
        if x["rep"]:
            chk.violation("points:" + x["id"], "representative point",
                          f"contours {x['rep']}: point not strictly inside", x)
        if x["tri"]:
            chk.violation("points:" + x["id"], "triangulation",
                          f"{len(x['tri'])} unmasked triangles outside the cell", x)
    chk.run_cases(cases)
    for k, m in (("grid", 100), ("probe", 30), ("points", 20)):
        chk.need(k, m)
