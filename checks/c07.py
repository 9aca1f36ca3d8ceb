"""C07: tables and queries of a planar mesh."""
import numpy as np

from harness.core import SEED, THOROUGH, cfg, rejected, same

VERT_IDX = [0, 2, 5, 7, -1]


def replay(rec):
    import puncturedfem as pf
    from puncturedfem.mesh.mesh_exceptions import EmbeddingError
    n = len(rec["given"])
    verts = [pf.Vert(float(np.cos(k * 1.1) * (k + 2)), float(np.sin(k * 1.1) * (k + 1)), idx=i)
             for k, i in enumerate(VERT_IDX)]
    objs, given = [], []
    for k, e in enumerate(rec["given"]):
        if e["same"]:
            given.append(given[e["same"] - 1])
            continue
        a, b = verts[e["a"] - 1], verts[e["b"] - 1]
        kw = dict(idx=17 * (k + 1)) if (k + n) % 2 else {}
        if e["a"] == e["b"]:
            x = pf.Edge(a, a, pos_cell_idx=e["pos"], neg_cell_idx=e["neg"],
                        curve_type="circle", quad_type="trap", radius=0.01 * (k + 1), **kw)
        else:
            x = pf.Edge(a, b, pos_cell_idx=e["pos"], neg_cell_idx=e["neg"], **kw)
        given.append(x)
        objs.append(x)
    if rec["fault"] == "nocell":
        bad = pf.Edge(verts[0], verts[1], pos_cell_idx=-1, neg_cell_idx=-3)
        with rejected("an edge beside no cell", ValueError):
            pf.PlanarMesh(given + [bad], verbose=False)
        with rejected("an edge beside no cell", ValueError):
            pf.PlanarMesh(given, verbose=False).add_edge(bad)
        return
    if rec["fault"] == "noedge":
        for bad in (None, 3, verts[0], "edge"):
            with rejected(f"{bad!r} as an edge", TypeError):
                pf.PlanarMesh(given[:1] + [bad] + given[1:], verbose=False)
        return
    before = list(given)
    mesh = pf.PlanarMesh(given, verbose=n % 2 == 0)
    same([id(e) for e in given], [id(e) for e in before], "the caller's list")
    same([id(e) for e in mesh.edges], [id(e) for e in objs], "edges of the mesh")
    same(int(mesh.num_edges), rec["num"], "number of edges")
    same([int(e.idx) for e in mesh.edges], list(range(rec["num"])), "edge indices")
    same([int(v) for v in mesh.vert_idx_list], rec["verts"], "vertex list")
    same(int(mesh.num_verts), len(rec["verts"]), "number of vertices")
    same([int(c) for c in mesh.cell_idx_list], rec["cells"], "cell list")
    same(int(mesh.num_cells), len(rec["cells"]), "number of cells")
    for e, g in zip(objs, [e for e in rec["given"] if not e["same"]]):
        same((e.pos_cell_idx, e.neg_cell_idx, e.anchor.idx, e.endpnt.idx),
             (g["pos"], g["neg"], VERT_IDX[g["a"] - 1], VERT_IDX[g["b"] - 1]),
             "cells and vertices of an edge")
    same([bool(mesh.edge_is_on_boundary(k)) for k in range(rec["num"])], rec["eb"],
         "edges on the boundary")
    same([bool(e.is_on_mesh_boundary) for e in objs], rec["eb"], "is_on_mesh_boundary")
    same([bool(mesh.vert_is_on_boundary(v)) for v in rec["verts"]], rec["vb"],
         "vertices on the boundary")
    for i, c in enumerate(rec["cells"]):
        same(int(mesh.get_abs_cell_idx(c)), i, f"position of cell {c}")
        want = sorted(rec["edges"][i])
        if rec["closed"][i]:
            K = mesh.get_cell(c)
            same(K.idx, c, "index of the cell")
            same(sorted(int(e.idx) + 1 for e in K.get_edges()), want, f"edges of cell {c}")
        else:
            with rejected(f"cell {c} without closed contours", EmbeddingError):
                mesh.get_cell(c)
    for c in range(-2, 8):
        if c not in rec["cells"]:
            with rejected(f"get_cell({c})", IndexError):
                mesh.get_cell(c)
            with rejected(f"get_abs_cell_idx({c})", ValueError, IndexError):
                mesh.get_abs_cell_idx(c)
    with rejected("boundary query for an edge out of range", IndexError):
        mesh.edge_is_on_boundary(rec["num"])
    # asking does not change the mesh
    same([int(v) for v in mesh.vert_idx_list], rec["verts"], "vertex list, again")
    same([int(c) for c in mesh.cell_idx_list], rec["cells"], "cell list, again")


def run(chk):
    inv = ["Emit", "TablesOK"]
    base = dict(VertIdx=VERT_IDX)
    r1 = chk.tlc("MeshTables", cfg(invariants=inv), name="up-to-two-edges", consts=dict(
        base, CellIdx="={-1, 0, 3}", MaxEdges=2, Exhaustive=True))
    r2 = chk.tlc("MeshTables", cfg(invariants=inv), name="many-edges", consts=dict(
        base, CellIdx="={-2, -1, 0, 1, 4}", MaxEdges=9, Exhaustive=False),
        simulate=2000 if THOROUGH else 25, depth=10, seed=SEED)
    cases = []
    for kind, recs, k in (("small", r1.records, 10 ** 6 if THOROUGH else 2000),
                          ("many", r2.records, 30000 if THOROUGH else 4000)):
        for x in chk.pick(recs, k):
            nm = " ".join(f"{e['a']}{e['b']}:{e['pos']}/{e['neg']}{'=' if e['same'] else ''}"
                          for e in x["given"])
            cases.append((f"{kind}:{x['fault']}:{nm}", replay, (x,), x))
    closed = [x for x in r2.records if any(x["closed"]) and x["fault"] == "none"
              and len(x["given"]) > 2]
    for x in chk.pick(closed, 20000 if THOROUGH else 600, 2):
        cases.append((f"closed:{len(x['given'])}:{x['given']}", replay, (x,), x))
    chk.run_cases(cases)
    for k, m in (("small", 1500), ("many", 1000), ("closed", 100)):
        chk.need(k, m)
