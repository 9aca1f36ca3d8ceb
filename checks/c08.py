"""C08: every library mesh is a subdivision of its domain."""
import json

import numpy as np

from harness.core import THOROUGH, MachineryError, Mismatch, cfg, close, expect, same


def meshes():
    import puncturedfem as pf
    out = {"square_circular_hole": (lambda: pf.meshlib.square_circular_hole(verbose=False), 1, 1, 1000, None),
           "pacman": (lambda: pf.meshlib.pacman(verbose=False), 4, 1, 1000, None),
           "pacman_subdiv": (lambda: pf.meshlib.pacman_subdiv(verbose=False), 4, 1, 1000, None)}
    top = 6 if THOROUGH else 4
    radii = (0, 0.05, 0.1, 0.25, 0.4, 0.49) if THOROUGH else (0, 0.1, 0.25, 0.4)
    for nx in range(1, top + 1):
        for ny in range(1, top + 1):
            for k, r in enumerate(radii):
                if not THOROUGH and (nx * ny + k) % 2 and nx * ny > 4:
                    continue
                out[f"pegboard({nx},{ny},{r})"] = (
                    lambda nx=nx, ny=ny, r=r: pf.meshlib.pegboard(size=(nx, ny), radius=r, verbose=False),
                    nx, ny, 2, r)
    out["pegboard-default"] = (lambda: pf.meshlib.pegboard((2, 3), verbose=False), 2, 3, 2, 0.25)
    out["pegboard-negative"] = (lambda: pf.meshlib.pegboard((2, 1), radius=-1, verbose=False), 2, 1, 2, 0)
    return out


def record(name):
    """Edges, cells and probe points of one library mesh."""
    import puncturedfem as pf
    build, w, h, unit, radius = meshes()[name]
    peg = radius is not None
    T = build()
    scale = 1000 if peg else 1
    big = max(w, h)

    def pt(x, y):
        f = unit * big if peg else unit
        return [int(round(f * x)), int(round(f * y))]
    q = pf.get_quad_dict(n=64 if not peg else 16)
    f2 = (unit * big if peg else unit) ** 2 * scale
    edges, samples = [], {}
    for e in T.edges:
        e.parameterize(q)
        x, y = np.array(e.get_sampled_points(ignore_endpoint=False))
        samples[e.idx] = (x.copy(), y.copy())
        if e.is_loop:
            p = pt(e.anchor.x, e.anchor.y) if peg else pt(x[0], y[0])
            qq, chord = p, 0.0
        else:
            close([x[0], y[0], x[-1], y[-1]], [e.anchor.x, e.anchor.y, e.endpnt.x, e.endpnt.y],
                  1e-9, "ends of an edge")
            p, qq = pt(x[0], y[0]), pt(x[-1], y[-1])
            chord = x[0] * y[-1] - x[-1] * y[0]
        # twice the area swept from the origin, by the trapezoidal rule
        nx, ny = e.unit_normal
        g = (x * nx + y * ny) * e.dx_norm
        a2 = (np.sum(g[:-1]) + 0.5 * (g[-1] - g[0])) * 2 * np.pi / (len(x) - 1) - chord
        edges.append(dict(p=p, q=qq, ai=int(e.anchor.idx), bi=int(e.endpnt.idx),
                          pos=int(e.pos_cell_idx), neg=int(e.neg_cell_idx),
                          loop=bool(e.is_loop), a2=int(round(a2 * f2))))
    cells = [int(c) for c in T.cell_idx_list]
    W, H = (w / big, h / big) if peg else (float(w), float(h))
    px, py = np.meshgrid(np.linspace(-0.07 * W, 1.06 * W, 40), np.linspace(-0.05 * H, 1.08 * H, 23))
    px, py = px.ravel(), py.ravel()
    dist = np.full(px.shape, np.inf)
    for x, y in samples.values():
        # distance to the polygon through the samples
        a, b = (x + 1j * y)[:-1], (x + 1j * y)[1:]
        z = (px + 1j * py)[:, None]
        d = b - a
        t = np.clip((((z - a) * d.conj()).real) / np.maximum(np.abs(d) ** 2, 1e-300), 0, 1)
        dist = np.minimum(dist, np.min(np.abs(z - a - t * d), axis=1))
    member = [[] for _ in px]
    holes, used = [], {}
    for c in cells:
        K = T.get_cell(c)
        K.parameterize(pf.get_quad_dict(n=32 if not peg else 16), compute_interior_points=False)
        holes.append(int(K.num_holes))
        for i in np.flatnonzero(K.is_in_interior(px, py)):
            member[i].append(c)
        for comp in K.components:
            for e in comp.edges:
                used.setdefault(e.idx, []).append((c, e.x.copy()))
    for idx, us in used.items():
        same(len(us), 1 + (not T.edge_is_on_boundary(idx)), f"cells beside edge {idx}")
        if len(us) == 2:
            close(us[0][1], us[1][1][:, ::-1], 1e-12, "neighbours sample a shared edge at the same points")
    same(sorted(used), list(range(T.num_edges)), "every edge belongs to a cell")
    same(int(T.num_cells), len(cells), "number of cells")
    hole = 0
    if peg and radius > 0:
        hole = int(round(2 * np.pi * radius ** 2 * unit ** 2 * scale))
    wi, hi = (unit * w, unit * h)
    probes = [dict(cells=m, near=bool(d < 0.01 * H), inside=bool(0 < x < W and 0 < y < H))
              for m, d, x, y in zip(member, dist, px, py)]
    return dict(id=name, edges=edges, cells=cells, holes=holes, w=wi, h=hi, scale=scale,
                tol=4 * len(edges), probes=probes, peg=[w, h, hole] if peg else [])


def areas(name):
    """Cell areas by boundary integration against the specified sizes."""
    import puncturedfem as pf
    build, w, h, unit, radius = meshes()[name]
    T = build()
    tot = 0.0
    got = []
    for c in T.cell_idx_list:
        K = T.get_cell(c)
        K.parameterize(pf.get_quad_dict(n=64), compute_interior_points=False)
        x, y = K.get_boundary_points()
        got.append(0.5 * K.integrate_over_boundary(K.dot_with_normal(x, y)))
        tot += got[-1]
    big = max(w, h)
    if radius is not None:
        s = (1 / big) ** 2
        n = w * h
        r = max(radius, 0)
        want = [s * (1 - np.pi * r * r)] * n + ([s * np.pi * r * r] * n if r else [])
        close(sorted(got), sorted(want), 1e-7, "areas of the cells")
        close(tot, w * h * s, 1e-7, "area of the domain")
    else:
        close(tot, w * h, 1e-6, "area of the domain")


def run(chk):
    base = dict(Sizes="={<<1, 1>>, <<3, 2>>, <<2, 4>>}", Holes="={0, 1571}")
    chk.tlc("Subdivision", cfg(invariants=["ModelValid"]), name="pegboard-model",
            consts=dict(base, Source="model"))
    traces = []
    todo = meshes()
    for name in todo:
        t = chk.case(f"record:{name}", record, name, sample=dict(mesh=name))
        if t:
            traces.append(t)
        chk.case(f"areas:{name}", areas, name, sample=dict(mesh=name))
    if traces:
        r = chk.tlc("Subdivision", cfg(invariants=["Verdict"]), name="judge",
                    consts=dict(base, Source="trace"), files={"trace.json": json.dumps(traces)})
        got = {x["id"]: x["faults"] for x in r.records}
        if set(got) != {t["id"] for t in traces}:
            raise MachineryError("missing verdicts")
        for k in sorted(got):
            if got[k]:
                chk.violation(k, "subdivision", "; ".join(sorted(got[k])), next(t for t in traces if t["id"] == k))
    chk.need("record", 30)
    chk.need("areas", 30)
