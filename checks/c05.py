"""C05: boundary sampling, indexing and integration."""
import json

import numpy as np

from harness.core import (SEED, THOROUGH, cfg, close, expect, frac, rejected,
                          same)
from harness.shapes import (BY_NAME, EXACT, SHAPES, build_cell, exact_tla,
                            geometry)


def quads(pf, n):
    """A quad dict with separate parameters for the two rules."""
    d = pf.get_quad_dict(n=n[0])
    if n[1] != n[0]:
        d["kress"] = pf.get_quad_dict(n=n[1])["kress"]
    return d


def listing(shape, lay):
    m = len(shape.edges)
    order = [(k + lay["turn"]) % m for k in range(m)]
    if lay["flip"]:
        order = order[::-1]
    qt = [None] * m
    if lay["qt"] != "own":
        qt = ["kress" if lay["qt"] == "kress" or k % 2 else "trap" for k in range(m)]
    return order, qt


def make(rec):
    import puncturedfem as pf
    shape, lay = BY_NAME[rec["shape"]], rec["layout"]
    order, qt = listing(shape, lay)
    edges = [shape.edges[k].edge(pf, s, 2, 5, q)
             for k, s, q in zip(order, lay["sides"], qt)]
    return pf, shape, pf.MeshCell(2, edges), edges, order


def observe(rec):
    """Play the history; the boundary tables after the last sampling."""
    pf, shape, K, edges, order = make(rec)
    last = None
    for h in rec["hist"]:
        if h["op"] == "sample":
            K.parameterize(quads(pf, h["n"]), compute_interior_points=False)
            last = h["n"]
        else:
            K.deparameterize()
            last = None
    if last is None:
        return None
    ref, cs = [], []
    for c in K.components:
        g = []
        for e in c.edges:
            k = order[[i for i, x in enumerate(edges) if x is e][0]]
            n = last[0] if e.quad_type == "trap" else last[1]
            g.append(geometry(shape.edges[k], n, e.quad_type))
        ref.append(g)
        cs.append([(len(x.z) - 1) // 2 for x in g])
    x, y = K.get_boundary_points()
    z = np.asarray(x) + 1j * np.asarray(y)
    cand = [[] for _ in z]
    for ci, g in enumerate(ref):
        for ei, r in enumerate(g):
            d = np.abs(z[:, None] - r.z[None, :-1]) < 1e-10
            for k, j in zip(*np.nonzero(d)):
                cand[k].append([ci + 1, ei + 1, int(j)])
    obs = dict(cs=cs, num_pts=int(K.num_pts),
               start=[int(i) for i in K.component_start_idx],
               vert=[[int(i) for i in c.vert_idx] for c in K.components],
               len=[int(c.num_pts) for c in K.components],
               closest=[int(i) for i in K.closest_vert_idx], cand=cand)
    for a, c in zip(obs["cs"], K.components):
        same([int(e.num_pts) for e in c.edges], [2 * n + 1 for n in a],
             "points of each edge")
    values(K, ref)
    return obs


def values(K, ref):
    """Everything sampled or computed on the boundary, entry by entry."""
    def cat(f):
        return np.concatenate([f(r)[:-1] for g in ref for r in g])
    z, t, nn, w = (cat(lambda r, a=a: getattr(r, a))
                   for a in ("z", "tan", "nor", "dxn"))
    N = len(z)
    rnd = np.random.default_rng(N)
    u, v = rnd.normal(size=N), rnd.normal(size=N)
    close(K.get_boundary_points(), [z.real, z.imag], 1e-9, "boundary points")
    close(K.get_unit_tangent(), [t.real, t.imag], 1e-9, "unit tangent")
    close(K.get_unit_normal(), [nn.real, nn.imag], 1e-9, "unit normal")
    close(K.get_dx_norm(), w, 1e-9, "weights")
    close(K.dot_with_tangent(u, v), u * t.real + v * t.imag, 1e-9, "dot with tangent")
    close(K.dot_with_normal(u, v), u * nn.real + v * nn.imag, 1e-9, "dot with normal")
    close(K.multiply_by_dx_norm(u), u * w, 1e-9, "multiply by dx_norm")
    f = lambda a, b: a * a - 3 * b + a * b  # noqa: E731
    close(K.evaluate_function_on_boundary(f), f(z.real, z.imag), 1e-9, "evaluate")
    h = np.concatenate([np.full(len(r.z) - 1, 2 * np.pi / (len(r.z) - 1))
                        for g in ref for r in g])
    want = float(np.sum(h * u * w))
    close(K.integrate_over_boundary(u), want, 1e-10, "integrate over boundary")
    close(K.integrate_over_boundary_preweighted(u * w), want, 1e-10,
          "integrate preweighted")
    i, total = 0, 0.0
    for c, g in zip(K.components, ref):
        m = sum(len(r.z) - 1 for r in g)
        sl = slice(i, i + m)
        close(c.get_sampled_points(), [z[sl].real, z[sl].imag], 1e-9, "contour points")
        close(c.evaluate_function_on_contour(f), f(z.real, z.imag)[sl], 1e-9, "contour evaluate")
        close(c.dot_with_tangent(u[sl], v[sl]), (u * t.real + v * t.imag)[sl], 1e-9, "contour tangent")
        close(c.dot_with_normal(u[sl], v[sl]), (u * nn.real + v * nn.imag)[sl], 1e-9, "contour normal")
        close(c.multiply_by_dx_norm(u[sl]), (u * w)[sl], 1e-9, "contour weights")
        a = c.integrate_over_closed_contour(u[sl])
        close(a, float(np.sum((h * u * w)[sl])), 1e-10, "contour integral")
        close(c.integrate_over_closed_contour_preweighted((u * w)[sl]), a, 1e-12,
              "contour integral, preweighted")
        total += a
        for e, r in zip(c.edges, g):
            edge_values(e, r, u, v)
        for bad in (m - 1, m + 1):
            with rejected("contour array of the wrong length"):
                c.multiply_by_dx_norm(np.ones(bad))
            with rejected("contour array of the wrong length"):
                c.integrate_over_closed_contour(np.ones(bad))
            with rejected("contour array of the wrong length"):
                c.integrate_over_closed_contour_preweighted(np.ones(bad))
        i += m
    close(total, want, 1e-10, "sum over contours")
    for bad in (np.ones(N - 1), np.ones(N + 1), np.ones(0)):
        for name in ("dot_with_tangent", "dot_with_normal"):
            for args in ((bad, u), (u, bad)):
                with rejected(f"{name} with an array of length {len(bad)} for {N}"):
                    getattr(K, name)(*args)
        for name in ("multiply_by_dx_norm", "integrate_over_boundary",
                     "integrate_over_boundary_preweighted"):
            with rejected(f"{name} with an array of length {len(bad)} for {N}"):
                getattr(K, name)(bad)


def edge_values(e, r, u, v):
    """Edge-level operations, with and without the endpoint."""
    M = len(r.z)
    u, v = np.resize(u, M), np.resize(v, M)
    h = 2 * np.pi / (M - 1)
    f = lambda a, b: 1 + a - 2 * b * b  # noqa: E731
    for ign, k in ((True, M - 1), (False, M)):
        s = slice(0, k)
        x, y = e.get_sampled_points(ignore_endpoint=ign)
        close([x, y], [r.z[s].real, r.z[s].imag], 1e-9, "edge points")
        close(e.evaluate_function(f, ignore_endpoint=ign), f(r.z.real, r.z.imag)[s], 1e-9, "edge evaluate")
        close(e.dot_with_tangent(u[s], v[s], ignore_endpoint=ign),
              (u * r.tan.real + v * r.tan.imag)[s], 1e-9, "edge tangent")
        close(e.dot_with_normal(u[s], v[s], ignore_endpoint=ign),
              (u * r.nor.real + v * r.nor.imag)[s], 1e-9, "edge normal")
        close(e.multiply_by_dx_norm(u[s], ignore_endpoint=ign), (u * r.dxn)[s], 1e-9, "edge weights")
        y = (u * r.dxn)[s]
        want = h * float(np.sum(y)) if ign else \
            h * float(np.sum(y) - 0.5 * y[0] - 0.5 * y[-1])
        close(e.integrate_over_edge(u[s], ignore_endpoint=ign), want, 1e-10, "edge integral")
        close(e.integrate_over_edge_preweighted(y, ignore_endpoint=ign), want, 1e-10,
              "edge integral, preweighted")
        for bad in (k - 1, k + 1):
            o = np.ones(bad)
            for name, args in (("dot_with_tangent", (o, u[s])), ("dot_with_normal", (u[s], o)),
                               ("multiply_by_dx_norm", (o,)), ("integrate_over_edge", (o,)),
                               ("integrate_over_edge_preweighted", (o,))):
                with rejected(f"edge {name} with {bad} values for {k}"):
                    getattr(e, name)(*args, ignore_endpoint=ign)


def arc(parts):
    return sum(frac(s["f"]) * np.sqrt(frac(s["len2"])) for s in parts["sides"]) \
        + np.pi * frac(parts["pi"])


def val(v):
    return frac(v[0]) + np.pi * frac(v[1])


def divergence(name, table, turn, sides, n):
    """Boundary integrals of monomials, and of monomial fields dotted with the
    normal and tangent, equal the exact ones."""
    import puncturedfem as pf
    shape = BY_NAME[name]
    m = len(shape.edges)
    order = [(k + turn) % m for k in range(m)]
    K, _ = build_cell(shape, order, sides)
    K.parameterize(pf.get_quad_dict(n=n), compute_interior_points=False)
    x, y = K.get_boundary_points()
    T = {(r["a"], r["b"]): r for r in table}
    zero = np.zeros_like(x)

    def area(a, b):
        return val(T[a, b]["area"]) if a >= 0 and b >= 0 else 0.0
    tol = 1e-7
    for (a, b), r in T.items():
        g = x ** a * y ** b
        scale = max(1, abs(area(a, b)))
        close(K.integrate_over_boundary(g), sum(arc(p) for p in r["arc"]), tol,
              f"arc length integral of x^{a} y^{b}")
        close(K.integrate_over_boundary(K.dot_with_normal(g, zero)) / scale,
              a * area(a - 1, b) / scale, tol, f"flux of (x^{a} y^{b}, 0)")
        close(K.integrate_over_boundary(K.dot_with_normal(zero, g)) / scale,
              b * area(a, b - 1) / scale, tol, f"flux of (0, x^{a} y^{b})")
        close(K.integrate_over_boundary(K.dot_with_tangent(g, zero)) / scale,
              -b * area(a, b - 1) / scale, tol, f"circulation of (x^{a} y^{b}, 0)")
        close(K.integrate_over_boundary(K.dot_with_tangent(zero, g)) / scale,
              a * area(a - 1, b) / scale, tol, f"circulation of (0, x^{a} y^{b})")


def run(chk):
    shapes = "=<<" + ", ".join(
        f'[id |-> "{s.name}", ne |-> {len(s.edges)}, cell |-> <<>>]'
        for s in SHAPES) + ">>"
    base = dict(Shapes=shapes, Degree=3)
    r1 = chk.tlc("BoundaryIndex", cfg(invariants=["Emit", "IndexOK"]), name="layouts",
                 consts=dict(base, Depth=1, Params="={<<4, 4>>, <<6, 5>>}"))
    r2 = chk.tlc("BoundaryIndex", cfg(invariants=["Emit"]), name="histories",
                 consts=dict(base, Depth=4, Params="={<<4, 4>>, <<5, 5>>, <<8, 8>>, <<4, 6>>, <<7, 5>>}"),
                 simulate=6000 if THOROUGH else 400, depth=6, seed=SEED)
    recs = [("layout", x) for x in chk.pick(r1.records, 6000 if THOROUGH else 700)]
    recs += [("history", x) for x in chk.pick(
        [x for x in r2.records if len(x["hist"]) > 1 and x["hist"][-1]["op"] == "sample"],
        8000 if THOROUGH else 300, 1)]
    traces = []
    for i, (kind, x) in enumerate(recs):
        nm = f"{kind}:{x['shape']}:{x['layout']['turn']}{'f' if x['layout']['flip'] else ''}" \
             f"{x['layout']['qt']}:{'-'.join(str(h.get('n', 'clear')) for h in x['hist'])}"
        o = chk.case(nm, observe, x, sample=x)
        if o:
            traces.append(dict(id=nm, obs=o))
    judged = {}
    if traces:
        j = chk.tlc("BoundaryJudge", cfg(spec="JSpec", invariants=["Verdict"]), name="judge",
                    consts=dict(base, Depth=1, Params="={<<4, 4>>}"),
                    files={"trace.json": json.dumps(traces)})
        judged = {x["id"]: x["faults"] for x in j.records}
    for t in traces:
        if t["id"] not in judged:
            from harness.core import MachineryError
            raise MachineryError("no verdict for " + t["id"])
    for k, f in sorted(judged.items()):
        if f:
            chk.violation(k, "boundary index", "; ".join(sorted(f)),
                          [t for t in traces if t["id"] == k][0])
    chk.extra["tables_judged"] = len(judged)
    ex = "=<<" + ", ".join(
        exact_tla(s)[:-1] + f", ne |-> {len(s.edges)}]" for s in EXACT) + ">>"
    r3 = chk.tlc("BoundaryIndex", cfg(invariants=["GreenAgrees", "EmitIntegrals"]),
                 name="integrals", consts=dict(Shapes=ex, Degree=5 if THOROUGH else 4,
                                               Depth=0, Params="={}"))
    seen, cases = set(), []
    for x in r3.records:
        if x["shape"] in seen:
            continue
        seen.add(x["shape"])
        m = len(BY_NAME[x["shape"]].edges)
        pats = [[1] * m, [-1] * m, [1 if k % 2 else -1 for k in range(m)]]
        for turn in range(m if THOROUGH else min(m, 2)):
            for s in pats:
                cases.append((f"integral:{x['shape']}:{turn}:{s}", divergence,
                              (x["shape"], x["integrals"], turn, s, 40),
                              dict(shape=x["shape"])))
    chk.run_cases(cases)
    for k, m in (("layout", 600), ("history", 200), ("integral", 60)):
        chk.need(k, m)
