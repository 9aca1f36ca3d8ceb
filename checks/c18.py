"""C18: polynomial spaces on edges and local spaces on cells."""
import numpy as np

from harness import fespace as fs
from harness.core import THOROUGH, cfg, close, expect, rejected, same
from harness.edgecase import BY_ID, TABLE, cx
from harness.meshes import MESHES

CLASS = {"line": "line", "circular_arc": "conic", "circular_arc_deg": "conic", "ellipse": "conic", "circle": "conic",
         "bean": "quartic", "teardrop": "quartic"}
# position, angle in degrees, size
PLACES = [(0, 0, 1), (1 + 2j, 37, 1), (-0.03 + 0.01j, 200, 1e-3), (40 - 30j, 117, 1), (500 + 200j, 300, 100), (2j, 90, 0.03), (1, 45, 1e3)]


def edge(cid, place, n):
    import puncturedfem as pf
    i, curve, opts, tb, qt, p0, p1, loop = BY_ID[cid]
    t, deg, s = place
    w = s * np.exp(1j * np.pi * deg / 180)
    a, b = cx(p0) * w + t, cx(p1) * w + t
    if loop:
        # a loop is placed by its anchor
        a = complex(t)
    va = pf.Vert(a.real, a.imag, idx=7)
    vb = va if loop else pf.Vert(b.real, b.imag, idx=3)
    e = pf.Edge(va, vb, curve_type=curve, quad_type=qt, idx=5, t_bounds=(tb[0] * np.pi, tb[1] * np.pi), **opts)
    if loop:
        e.translate(pf.Vert(-a.real, -a.imag))
        e.rotate(deg)
        e.dilate(s)
        e.translate(va)
    e.parameterize(pf.get_quad_dict(n))
    return e


def normalized(x, y):
    cx_, cy = (x.max() + x.min()) / 2, (y.max() + y.min()) / 2
    h = max(x.max() - x.min(), y.max() - y.min()) / 2
    return (x - cx_) / h, (y - cy) / h


def monomials(x, y, p):
    u, v = normalized(x, y)
    return np.array([u ** i * v ** j for i in range(p + 1) for j in range(p + 1 - i)]).T


def conditioning(e, p, dim):
    """Smallest relative size, in the mean square over the edge, of the
    independent directions of the polynomials of degree p."""
    x, y = (np.array(c) for c in e.get_sampled_points(ignore_endpoint=False))
    w = np.full(len(x), 1.0 / (len(x) - 1)) * e.dx_norm
    w[0] *= 0.5
    w[-1] *= 0.5
    A = monomials(x, y, p) * np.sqrt(w / w.sum())[:, None]
    s = np.linalg.svd(A, compute_uv=False)
    return s[dim - 1] / s[0] if dim <= len(s) else 0.0


def edge_space(cid, place, n, rec, chk_extra=None):
    import puncturedfem as pf
    from puncturedfem.locfun.edge_space import EdgeSpace
    p = rec["deg"]
    e = edge(cid, place, n)
    before = e.x.copy(), e.dx_norm.copy(), e.unit_normal.copy()
    S = EdgeSpace(e, p)
    for u, v in zip(before, (e.x, e.dx_norm, e.unit_normal)):
        close(v, u, 0, "data of the edge after building its space")
    cond = conditioning(edge(cid, place, 48), p, rec["dim"])
    fine = cond > 2e-3
    same((S.num_vert_funs, S.num_edge_funs, S.num_funs),
         (len(S.vert_fun_traces), len(S.edge_fun_traces), len(S.vert_fun_traces) + len(S.edge_fun_traces)), "counts of an edge space")
    same(S.num_vert_funs, rec["vert"], "number of vertex functions")
    expect(S.num_edge_funs <= rec["edge"], f"{S.num_edge_funs} edge functions, at most {rec['edge']} are independent")
    if fine:
        same(S.num_edge_funs, rec["edge"], "number of edge functions")
    # keys
    same([(k.fun_type, k.vert_idx) for k in S.vert_fun_global_keys],
         [] if rec["loop"] else [("vert", 7), ("vert", 3)], "keys of the vertex functions")
    same([(k.fun_type, k.edge_idx, k.edge_space_idx) for k in S.edge_fun_global_keys],
         [("edge", 5, k) for k in range(S.num_edge_funs)], "keys of the edge functions")
    funs = S.vert_fun_traces + S.edge_fun_traces
    for f in funs:
        expect(max((m.alpha.x + m.alpha.y for m in f.monos if m.coef), default=0) <= p, "degree of a trace")
    # values at the ends and away from the samples
    noise = 1e-10 * max(1.0, (abs(place[0]) / place[2]) ** p)
    if not rec["loop"]:
        ends = np.array([[f(*e.x[:, 0]), f(*e.x[:, -1])] for f in funs])
        close(ends[:2], np.eye(2), noise, "vertex functions at the vertices")
        close(ends[2:], np.zeros((len(funs) - 2, 2)), noise, "edge functions at the vertices")
    d = edge(cid, place, 23)
    x, y = (np.array(c) for c in d.get_sampled_points(ignore_endpoint=False))
    B = np.array([f(x, y) for f in funs]).T
    A = monomials(x, y, p)
    A = A / np.maximum(np.abs(A).max(0), 1e-3)
    c, *_ = np.linalg.lstsq(B, A, rcond=None)
    close(B @ c, A, max(1e-6, 100 * noise) if fine else 0.05, "polynomials on the edge as combinations of its functions")
    s = np.linalg.svd(B / np.abs(B).max(0), compute_uv=False)
    expect(s[-1] > 1e-5 * s[0], "functions of the edge are independent")
    # again: the same functions
    T = EdgeSpace(e, p)
    for f, g in zip(funs, T.vert_fun_traces + T.edge_fun_traces):
        close(np.array(g(x, y)), np.array(f(x, y)), 0, "functions of the edge, built again")


def reversed_space(cid, rec):
    """The space does not depend on the direction in which the edge runs."""
    from puncturedfem.locfun.edge_space import EdgeSpace
    e = edge(cid, PLACES[1], 16)
    if conditioning(e, rec["deg"], rec["dim"]) < 2e-3:
        return
    S = EdgeSpace(e, rec["deg"])
    e.reverse_orientation()
    T = EdgeSpace(e, rec["deg"])
    same(T.num_edge_funs, S.num_edge_funs, "number of edge functions of the reversed edge")
    x, y = (np.array(c) for c in e.get_sampled_points(ignore_endpoint=False))
    A, B = (np.array([f(x, y) for f in s.vert_fun_traces + s.edge_fun_traces]).T for s in (S, T))
    c, *_ = np.linalg.lstsq(A, B, rcond=None)
    close(A @ c, B, 1e-7, "functions of the reversed edge")


def refuse():
    from puncturedfem.locfun.edge_space import EdgeSpace
    import puncturedfem as pf
    e = edge("line", PLACES[1], 8)
    for deg in (0, -1):
        with rejected(f"degree {deg}", ValueError):
            EdgeSpace(e, deg)
    for deg in (1.0, "1", None):
        with rejected(f"degree {deg!r}", TypeError):
            EdgeSpace(e, deg)
    for x in (None, e.x, pf.Vert(0, 0)):
        with rejected(f"{type(x).__name__} as an edge", TypeError):
            EdgeSpace(x, 1)
    K = MESHES[0].build(pf).get_cell(0)
    K.parameterize(pf.get_quad_dict(8), compute_interior_points=False)
    for deg in (0, -1):
        with rejected(f"local space of degree {deg}", ValueError):
            pf.LocalPoissonSpace(K, deg=deg, verbose=False, compute_interior_values=False)
    for deg in (1.0, "1"):
        with rejected(f"local space of degree {deg!r}", TypeError):
            pf.LocalPoissonSpace(K, deg=deg, verbose=False, compute_interior_values=False)


def cells(rec, own, given=0):
    """Every visited cell of a mesh: its basis, and agreement across edges."""
    import puncturedfem as pf
    V = fs.space(rec)
    p = rec["deg"]
    want = {w["cell"]: w for w in rec["cells"]}
    shared = {}
    for c in rec["visits"]:
        w = want[c]
        if own:  # each cell chooses its own functions on a shared edge
            shared = {}
            K = V.mesh.get_cell(c)
            K.parameterize(pf.get_quad_dict(fs.N_PTS), compute_interior_points=False)
            L = pf.LocalPoissonSpace(K, deg=p, verbose=False, compute_interior_values=False)
            bl, basis = fs.blocks(K), L.get_basis()
            what = [fs.measure(f, K, bl) for f in basis]
        elif given:  # the spaces of the edges are handed over, in any order
            K = V.mesh.get_cell(c)
            K.parameterize(pf.get_quad_dict(fs.N_PTS), compute_interior_points=False)
            es = [V.edge_spaces[e.idx] for e in K.get_edges()]
            es = es[::-1] if given == 1 else es[given % len(es):] + es[:given % len(es)]
            L = pf.LocalPoissonSpace(K, es, deg=p, verbose=False, compute_interior_values=False)
            bl, basis = fs.blocks(K), L.get_basis()
            what = [fs.measure(f, K, bl) for f in basis]
        else:
            L, bl, basis, what = fs.visit(V, c)
        K = L.nyst.K
        nedge = sum(e["n"] for e in w["edges"])
        same((L.num_vert_funs, L.num_edge_funs, L.num_bubb_funs, L.num_funs),
             (len(w["verts"]), nedge, w["bubb"], len(w["verts"]) + nedge + w["bubb"]), f"counts of cell {c}")
        same([len(x) for x in (L.vert_funs, L.edge_funs, L.bubb_funs, basis)],
             [len(w["verts"]), nedge, w["bubb"], L.num_funs], f"functions of cell {c}")
        expect(all(a is b for a, b in zip(basis, L.vert_funs + L.edge_funs + L.bubb_funs)), "the basis lists the functions")
        same(sorted((t, e) for t, e, _ in what),
             sorted([("vert", v["v"]) for v in w["verts"]] + [("edge", e["e"] - 1) for e in w["edges"] for _ in range(e["n"])]
                    + [("bubb", -1)] * w["bubb"]), f"what the functions of cell {c} are")
        check_cell(c, w, p, K, bl, basis, what, shared, rec["deg"])


def check_cell(c, w, p, K, bl, basis, what, shared, deg):
    laps, on_edges = [], {b["idx"]: [] for b in bl}
    total = np.zeros(len(bl[-1]["z"]) + bl[-1]["sl"].start)
    for f, (kind, ent, _) in zip(basis, what):
        vals = np.array(f.get_trace_values())
        lap = fs.lap_terms(f)
        expect(f.mesh_cell is K, "cell of a function")
        if kind == "bubb":
            close(vals, np.zeros(vals.shape), 1e-9, "a bubble on the boundary")
            close(np.array(f.harm.trace.values) + np.array(f.poly.trace.values), np.zeros(vals.shape), 1e-9, "parts of a bubble on the boundary")
            laps.append(lap)
            continue
        close(lap, np.zeros(lap.shape), 1e-12, f"Laplacian of a {kind} function")
        if kind == "vert":
            total += vals
        for b in bl:
            v = vals[b["sl"]]
            if kind == "vert":
                star = next(x["star"] for x in w["verts"] if x["v"] == ent)
                if b["idx"] + 1 not in star:
                    close(v, np.zeros(v.shape), 1e-12, "a vertex function on an edge away from its vertex")
                    continue
                close(v[0], float(b["a"].idx == ent), 1e-9, "a vertex function at a vertex")
                ident = (b["idx"], "vert", ent)
            else:
                if b["idx"] != ent:
                    close(v, np.zeros(v.shape), 1e-12, "an edge function on another edge")
                    continue
                if not b["e"].is_loop:
                    close(v[0], 0.0, 1e-9, "an edge function at a vertex")
                ident = (b["idx"], "edge", f.key.edge_space_idx)
            z, u = fs.canonical(b["z"], v)
            on_edges[b["idx"]].append(v)
            if ident in shared:
                close(np.array([z.real, z.imag]), np.array([shared[ident][0].real, shared[ident][0].imag]), 1e-9, "samples of a shared edge")
                close(u, shared[ident][1], 1e-9, f"traces of the two cells on edge {ident}")
            else:
                shared[ident] = z, u
    straight = {e["e"] - 1 for e in w["edges"] if e["straight"]}
    for b in bl:
        if b["idx"] in straight:
            v = total[b["sl"]]
            close(v, np.ones(v.shape), 1e-9, "sum of the vertex functions on a straight edge")
        # on every edge: exactly the polynomials
        x, y = b["z"].real, b["z"].imag
        A, B = monomials(x, y, p), np.array(on_edges[b["idx"]]).T
        co, *_ = np.linalg.lstsq(B, A, rcond=None)
        close(B @ co, A, 1e-6, "polynomials on an edge of the cell")
        co, *_ = np.linalg.lstsq(A, B, rcond=None)
        close((A @ co) / max(1, np.abs(B).max()), B / max(1, np.abs(B).max()), 1e-6, "traces on an edge are polynomials")
    if laps:
        Lm = np.array([m.ravel() for m in laps])
        s = np.linalg.svd(Lm / np.abs(Lm).max(1)[:, None], compute_uv=False)
        expect(s[-1] > 1e-8 * s[0], "Laplacians of the bubbles are independent")
        for m in laps:
            for i, j in zip(*np.nonzero(np.abs(m) > 1e-12 * np.abs(m).max())):
                expect(i + j <= p - 2, "degree of a bubble's Laplacian")


def run(chk):
    chk.case("refuse:arguments", refuse, sample=dict(op="refuse"))
    dims = chk.tlc("EdgeDim", cfg(dict(Prime=10007, MaxDeg=4, Count=36), invariants=["DimOK", "DropOK", "EndsOK", "Emit"]))
    fs.visit(fs.space(dict(mesh="rings", deg=1, listing=[(1, False), (2, False)])), 3)
    table = {(r["curve"], r["deg"], r["loop"]): r for r in dims.records}
    cases = []
    for row in TABLE:
        cls = CLASS.get(row[1], "general")
        for p in (1, 2, 3, 4):
            rec = table[(cls, p, row[7])]
            for k, place in enumerate(PLACES):
                if p == 4 and place[2] not in (1, 0.03) or not THOROUGH and p == 4 and k > 1:
                    continue
                for n in ((8, 16, 32, 64) if THOROUGH else ((8, 16)[(k + p) % 2],)):
                    if p > 2:
                        n = max(n, 16)
                    cases.append((f"edge:{row[0]}-deg{p}-place{k}-n{n}", edge_space, (row[0], place, n, rec),
                                  dict(curve=row[0], place=str(place), spec=rec)))
            if p <= 3:
                cases.append((f"reversed:{row[0]}-deg{p}", reversed_space, (row[0], rec), dict(curve=row[0], spec=rec)))
    chk.run_cases(cases)
    meshes = "=<<" + ", ".join(m.tla() for m in MESHES) + ">>"
    r = chk.tlc("GlobalDofs", cfg(invariants=["OK", "Emit"]), consts=dict(
        Meshes=meshes, Degs="={1, 2, 3, 4}" if THOROUGH else "={1, 2, 3}", MaxOps="=1", Orders="={<<0, 0, 0>>, <<1, 2, 1>>, <<0, 1, 2>>}"))
    full = [x for x in r.records if x["visits"] == sorted(x["allcells"])]
    todo = full if THOROUGH else chk.pick(full, 40, 5)
    cases = [(f"cells:{x['mesh']}-deg{x['deg']}-{i}", cells, (x, i % 3 == 2, (1 + i // 3 % 3) * (i % 3 == 1)), x) for i, x in enumerate(todo)]
    chk.run_cases(cases, few=2)
    chk.need("cells", 30)
    chk.need("edge", 300)
