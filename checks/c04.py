"""C04: decomposition of cell boundaries."""
import numpy as np

from harness.core import (SEED, THOROUGH, Mismatch, cfg, close, expect,
                          rejected, same)
from harness.shapes import BY_NAME, SHAPES, TOUCHING


def cyc(w):
    """A cyclic sequence from its smallest element."""
    i = w.index(min(w))
    return tuple(w[i:] + w[:i])


SCALES = [1.0, 2.0 ** -13, 1.0, 1000.0]


def make(pf, d, side, cell, other, scale):
    e = d.edge(pf, side, cell, other)
    if scale == 1.0:
        return e
    if d.loop:
        e.dilate(scale)
        return e
    ends = [pf.Vert(v.x * scale, v.y * scale) for v in (e.anchor, e.endpnt)]
    return pf.Edge(*ends, pos_cell_idx=e.pos_cell_idx,
                   neg_cell_idx=e.neg_cell_idx, curve_type=e.curve_type,
                   quad_type=e.quad_type, **e.curve_opts)


def replay(rec):
    import puncturedfem as pf
    from puncturedfem.mesh.mesh_exceptions import EmbeddingError
    shape = BY_NAME[rec["shape"]]
    cell, other = 7, (-1 if len(rec["list"]) % 2 else 3)
    scale = SCALES[sum((k + 1) * (r["e"] + r["side"]) for k, r in enumerate(rec["list"])) % 4]
    edges = []
    for r in rec["list"]:
        side = r["side"] or 1
        if r.get("wrong"):
            e = make(pf, shape.edges[r["e"] - 1], side, cell, other, scale)
            e.set_cells(e.neg_cell_idx, e.pos_cell_idx)
        else:
            e = make(pf, shape.edges[r["e"] - 1], side, cell, other, scale)
        if r["side"] == 0:
            e.set_cells(4, 5)
        edges.append(e)
    if rec["fault"] == "twice":
        last = rec["list"][-1]
        if sum(last["e"] for _ in edges) % 2:   # sometimes the same object
            edges[-1] = edges[[x["e"] for x in rec["list"]].index(last["e"])]
    if not rec["valid"]:
        with rejected(f"{rec['fault']} edges", EmbeddingError):
            pf.MeshCell(cell, edges)
        return
    K = pf.MeshCell(cell, edges)

    def contours():
        out = set()
        for c in K.components:
            ids = []
            for e in c.edges:
                hit = [i for i, x in enumerate(edges) if x is e]
                same(len(hit), 1, "each contour edge is one of the given edges")
                ids.append(hit[0] + 1)
            out.add(cyc(ids))
        return out
    want = {cyc(list(w)) for w in rec["contours"]}
    same(len(K.components), len(want), "number of contours")
    same(contours(), want, "contours")
    same(int(K.num_holes), rec["holes"], "number of holes")
    same(int(K.num_edges), len(edges), "number of edges")
    same(sorted(map(id, K.get_edges())), sorted(map(id, edges)), "edges")
    sides = {id(e): r["side"] for e, r in zip(edges, rec["list"])}
    for c in K.components:
        same([int(o) for o in c.edge_orients], [sides[id(e)] for e in c.edges],
             "orientation of edges in a contour")
        same(int(c.num_edges), len(c.edges), "edges of a contour")
    K.parameterize(pf.get_quad_dict(n=8), compute_interior_points=False)
    same(contours(), want, "contours after sampling")
    first = [[i for i, x in enumerate(edges) if x is e][0] + 1
             for e in K.components[0].edges]
    same(cyc(first), cyc(list(rec["outer"])), "outer contour first")
    for j, c in enumerate(K.components):
        for a, b in zip(c.edges, c.edges[1:] + c.edges[:1]):
            close(a.x[:, -1], b.x[:, 0], 1e-9 * scale, "edges meet head to tail")
        x, y = c.get_sampled_points()
        a2 = float(np.sum(x * np.roll(y, -1) - np.roll(x, -1) * y))
        expect((a2 > 0) == (j == 0),
               f"contour {j} is traversed "
               f"{'counterclockwise' if a2 > 0 else 'clockwise'}")
    # the same answer when the cell is sampled again
    K.deparameterize()
    K.parameterize(pf.get_quad_dict(n=5), compute_interior_points=False)
    same(contours(), want, "contours after sampling again")
    again = [[i for i, x in enumerate(edges) if x is e][0] + 1
             for e in K.components[0].edges]
    same(cyc(again), cyc(list(rec["outer"])), "outer contour first, again")


def run(chk):
    inv = ["Emit", "DesignValid", "TouchingInvalid", "FaultInvalid", "DesignContours", "OuterUnique"]
    small = [s for s in SHAPES if len(s.edges) <= 5]
    mid = [s for s in SHAPES if len(s.edges) == 6]

    def shp(ss):
        return "=<<" + ", ".join(s.tla() for s in ss) + ">>"
    r1 = chk.tlc("CellTopology", cfg(invariants=inv), name="up-to-5-edges",
                 consts=dict(Shapes=shp([s for s in small if len(s.edges) <= 4] + TOUCHING[:1] + TOUCHING[2:])))
    r2 = chk.tlc("CellTopology", cfg(invariants=inv), name="5-or-more-edges",
                 consts=dict(Shapes=shp([s for s in SHAPES if len(s.edges) > 4] + TOUCHING[1:2])),
                 simulate=20000 if THOROUGH else 900, depth=18, seed=SEED)
    cases = []
    for kind, recs, k in (("all", r1.records, 10**6 if THOROUGH else 1800),
                          ("big", r2.records, 60000 if THOROUGH else 1800)):
        ok = [x for x in recs if x["valid"]]
        bad = [x for x in recs if not x["valid"]]
        for x in chk.pick(ok, k * 2 // 3) + chk.pick(bad, k // 3):
            nm = ",".join(f"{r['e']}{'+' if r['side'] > 0 else '-'}" for r in x["list"])
            cases.append((f"{kind}-{'ok' if x['valid'] else 'bad'}:{x['shape']}:{x['fault']}:{nm}",
                          replay, (x,), x))
    if THOROUGH:
        r3 = chk.tlc("CellTopology", cfg(invariants=inv), name="6-edges-all",
                     consts=dict(Shapes=shp(mid[:2])))
        for x in chk.pick(r3.records, 30000):
            cases.append((f"all-6:{x['shape']}:{x['fault']}", replay, (x,), x))
    chk.run_cases(cases)
    for k, m in (("all-ok", 300), ("all-bad", 300), ("big-ok", 500), ("big-bad", 300)):
        chk.need(k, m)
