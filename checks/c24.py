"""C24: interfaces kept for older programs."""
import warnings

import numpy as np

from checks import c15
from checks.c14 import ACUTE
from harness import locfun as lf
from harness.core import SEED, THOROUGH, cfg, close, expect, frac, rejected, same
from harness.shapes import BY_NAME, EXACT, build_cell

SHAPE = "x-tri-circ"           # three segments and a circle
NS = [(8, 8), (6, 9), (11, 4)]  # n of the two rules
P = dict(p=[(1.0, 2, 0), (-0.5, 0, 1)], q=[(2.0, 0, 0), (1.0, 1, 1)], r=[(0.25, 0, 3), (-1.0, 1, 0)])
P["0"] = []
FUNS = c15.FUNS


def old(f, *a, **kw):
    """Call something deprecated: it works and says so."""
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        v = f(*a, **kw)
    expect(any(issubclass(x.category, DeprecationWarning) for x in w), f"{getattr(f, '__name__', f)}: deprecation warning")
    return v


def quiet(f, *a, **kw):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f(*a, **kw)


def value(name, x, y):
    v = np.zeros(np.shape(x))
    for c, i, j in P[name]:
        v = v + c * x ** i * y ** j
    return v


def rule(r):
    import puncturedfem as pf
    d = pf.get_quad_dict(n=NS[r][0])
    d["kress"] = pf.get_quad_dict(n=NS[r][1])["kress"]
    return d


def points(shape):
    """Points of each edge for each rule, as text for TLC."""
    def n(r, e):
        return 2 * NS[r][0 if e.qt == "trap" else 1] + 1
    return "=<<" + ", ".join("<<" + ", ".join(str(n(r, e)) for e in shape.edges) + ">>" for r in range(len(NS))) + ">>"


def piecewise(rec):
    import puncturedfem as pf
    from puncturedfem.locfun.poly import poly_eval
    s = BY_NAME[SHAPE]
    K, E = build_cell(s, None, None, cell=0, other=1)
    K.parameterize(rule(0), compute_interior_points=False)
    edges = list(K.get_edges())
    start = [(e.x[:, 0].copy(), e.x[:, 1].copy()) for e in edges]
    poly = {k: pf.Polynomial(v) for k, v in P.items()}
    obj, back = {}, set()
    for h in rec["hist"]:
        op, k = h["op"], h.get("k")
        l = [poly[x] for x in h["l"]] if h.get("l") else None
        if op == "new":
            obj[k] = old(pf.PiecewisePolynomial, num_polys=h["n"], polys=l, idx=h["idx"])
        elif op == "polys": obj[k].set_polys(l)
        elif op == "resize":
            obj[k].set_num_polys(h["n"])
            obj[k].set_polys(polys=l)
        elif op == "idx": obj[k].set_idx(h["i"])
        elif op == "turn":
            edges[h["e"] - 1].reverse_orientation()
            back ^= {h["e"]}
        elif op == "sample":
            q = rule(h["r"] - 1)
            for i, e in enumerate(edges):
                e.parameterize(q)
                if i + 1 in back:
                    e.reverse_orientation()
        else: raise KeyError(op)
    for k, now in enumerate(rec["now"]):
        for r in now:
            x = obj[k + 1]
            same((x.num_polys, x.idx, len(x.polys)), (r["n"], r["idx"], r["n"]), f"object {k + 1}")
            for a, b in zip(x.polys, r["l"]):
                expect(a == poly[b], f"object {k + 1}: polynomials")
            for ev in r["evals"]:
                check(x, [edges[e - 1] for e in ev["es"]], ev["want"], lambda es: x.eval_on_edges(es))
            check(x, list(K.get_edges()), r["cell"], lambda es: x.eval_on_mesh_boundary(K))
            for name, kw in (("number of polynomials", (x.set_num_polys, 0)), ("number of polynomials", (x.set_num_polys, 1.5)),
                             ("index", (x.set_idx, -1)), ("index", (x.set_idx, "1"))):
                with rejected(name):
                    kw[0](kw[1])
            same((x.num_polys, x.idx), (r["n"], r["idx"]), f"object {k + 1} after refusals")
            e = edges[r["n"] % len(edges)]
            got = quiet(poly_eval.get_poly_traces_edge, e, x.polys)
            same(got.shape, (r["n"], e.num_pts), "rows of a list of polynomials")
            for row, b in zip(got, r["l"]):
                close(row, value(b, e.x[0], e.x[1]), 1e-12, "row of a list of polynomials")
    same([(e.x[:, 0].tolist(), e.x[:, 1].tolist()) for i, e in enumerate(edges) if not rec_changes(rec)],
         [(a.tolist(), b.tolist()) for i, (a, b) in enumerate(start) if not rec_changes(rec)], "samples of the edges")


def rec_changes(rec):
    return any(h["op"] in ("turn", "sample") for h in rec["hist"])


def check(x, es, want, call):
    from puncturedfem.locfun.poly.poly_exceptions import PolynomialError
    if not want:
        with rejected("edges of another number", PolynomialError):
            call(es)
        return
    got = np.asarray(call(es))
    same([e.num_pts for e in es], [b["pts"] for b in want], "points of the edges")
    ref = np.concatenate([value(b["poly"], e.x[0], e.x[1]) for e, b in zip(es, want)])
    same(got.shape, ref.shape, "number of values")
    close(got, ref, 1e-12, f"values of {[(b['poly'], b['edge']) for b in want]}")


def lists():
    """Polynomials at points."""
    import puncturedfem as pf
    from puncturedfem.locfun.poly import poly_eval
    rnd = np.random.default_rng(SEED)
    for n in (1, 2, 7):
        x, y = rnd.normal(size=n), rnd.normal(size=n)
        a, b = x.copy(), y.copy()
        for names in ((), ("p",), ("0", "q"), ("r", "r", "p", "q")):
            l = [pf.Polynomial(P[k]) for k in names]
            got = old(poly_eval.get_poly_vals, x, y, l)
            same(len(got), len(names), "number of rows")
            for row, k in zip(got, names):
                close(row, value(k, x, y), 1e-12, "row")
                close(old(pf.Polynomial(P[k])._eval, x, y), value(k, x, y), 1e-12, "_eval on arrays")
                close(old(pf.Polynomial(P[k])._eval, float(x[0]), float(y[0])), value(k, x[0], y[0]), 1e-12, "_eval at a point")
        with rejected("points of different numbers"):
            quiet(poly_eval.get_poly_vals, x, rnd.normal(size=n + 1), [pf.Polynomial(P["p"])])
        same((x.tolist(), y.tolist()), (a.tolist(), b.tolist()), "the points given")
    with rejected("number of polynomials"):
        quiet(pf.PiecewisePolynomial, num_polys=0)
    with rejected("index"):
        quiet(pf.PiecewisePolynomial, idx=-1)


def function(name, n, listing, nq, antilap):
    """Old local functions against their exact values and the new ones."""
    import puncturedfem as pf
    s = BY_NAME[name]
    K, ny = lf.cell(name, n, listing, nq, antilap)
    x, y = lf.boundary(K)
    X, Y = K.int_x1, K.int_x2
    tol = 1e-3 if name in ACUTE else 3e-5
    pairs = []
    for rec in FUNS[s.holes]:
        F = lf.Fun.of(s, rec)
        vals = F(x, y)
        tag = f"function {rec['i']}"
        lap = F.poly({(i, j): frac(c) for c, i, j in rec["lap"]})
        given = [vals.copy(), pf.DirichletTrace(K, values=vals.copy())][rec["i"] % 2]
        v = quiet(pf.LocalFunction, ny, laplacian=lap, trace=given, compute_int_vals=True, compute_int_grad=True)
        w = lf.local(ny, F, evaluate_gradient=True)
        big = c15.size(F, K) + np.abs(v.poly_part_trace.values).max()
        close(np.array(v.harm_part_trace.values) + v.poly_part_trace.values, vals, 1e-12 * big, f"{tag}: trace")
        close(np.array(v.log_coef) / big, lf.log_coefs(K, s, F) / big, tol / 30, f"{tag}: logarithmic coefficients")
        wnd = np.array(v.harm_part_trace.w_norm_deriv) + v.poly_part_trace.w_norm_deriv
        close(wnd / big, lf.normal_derivative(K, F) / big, 2 * tol, f"{tag}: normal derivative")
        g1, g2 = F.grad(X, Y)
        for a, b, t, what in ((v.int_vals, F(X, Y), tol / 30, "values"), (v.int_grad1, g1, tol / 5, "x derivative"),
                              (v.int_grad2, g2, tol / 5, "y derivative")):
            same(np.shape(a), np.shape(X), f"{tag}: interior {what}, size")
            close(np.array(a) / big, b / big, t, f"{tag}: interior {what}")
        for a, b in ((v.int_vals, w.int_vals), (v.int_grad1, w.int_grad1), (v.int_grad2, w.int_grad2),
                     (v.harm_part_trace.values, w.harm.trace.values), (v.harm_conj_trace.values, w.harm.conj_trace.values),
                     (v.biharmonic_trace.values, w.harm.biharmonic_trace.values),
                     (v.biharmonic_trace.w_norm_deriv, w.harm.biharmonic_trace.w_norm_deriv)):
            close(np.array(a) / big, np.array(b) / big, 1e-9, f"{tag}: old and new")
        pairs.append((v, w, big))
    for v, w, a in pairs:
        for v2, w2, b in pairs[::2]:
            z = a * b
            close(v.get_h1_semi_inner_prod(v2) / z, w.get_h1_semi_inner_prod(w2) / z, 1e-8, "old and new H1 product")
            close(v.get_l2_inner_prod(v2) / z, w.get_l2_inner_prod(w2) / z, 1e-8, "old and new L2 product")
    with rejected("the product with something else", TypeError):
        pairs[0][0].get_l2_inner_prod(pairs[0][1])
    with rejected("the product with something else", TypeError):
        pairs[0][0].get_h1_semi_inner_prod(1.0)


def asked(rec, name):
    """What was computed, after a history of requests."""
    import puncturedfem as pf
    from puncturedfem.solver.globkey import GlobalKey
    s = BY_NAME[name]
    K, ny = lf.cell(name)
    F = lf.Fun(s, {(0, 0): 1.0, (1, 0): -0.5, (1, 1): 0.3, (2, 1): 0.1, (0, 2): 0.4}, [0.7, -1.2][:s.holes])
    x, y = lf.boundary(K)
    big = c15.size(F, K)
    for h in rec["hist"]:
        if h["op"] == "new":
            key = GlobalKey("vert", vert_idx=1)
            v = old(pf.LocalFunction, ny, F.poly(F.lap_poly()), F(x, y), compute_for_l2=h["l2"], compute_int_vals=h["v"],
                    compute_int_grad=h["g"], key=key)
            expect(v.key is key, "key of the function")
        else:
            v.compute_interior_values(compute_int_grad=h["g"])
    w = lf.local(ny, F)
    close(v.get_h1_semi_inner_prod(v), w.get_h1_semi_inner_prod(w), 1e-8 * big ** 2, "energy")
    if rec["l2"]:
        close(v.get_l2_inner_prod(v), w.get_l2_inner_prod(w), 1e-8 * big ** 2, "mass")
    else:
        with rejected("the L2 product of a function without the data for it", ValueError):
            v.get_l2_inner_prod(v)
    if rec["vals"]:
        close(np.array(v.int_vals) / big, F(K.int_x1, K.int_x2) / big, 1e-5, "interior values")
    else:
        expect(not hasattr(v, "int_vals") or v.int_vals is None, "interior values that were not asked for")
    if rec["grad"]:
        for a, b in zip((v.int_grad1, v.int_grad2), F.grad(K.int_x1, K.int_x2)):
            close(np.array(a) / big, b / big, 3e-5, "interior gradient")


def space(name, deg):
    """The local space by its old name."""
    import puncturedfem as pf
    out = []
    for cls in (pf.LocalFunctionSpace, pf.LocalPoissonSpace):
        s = BY_NAME[name]
        K, _ = build_cell(s, None, None, cell=0, other=1)
        seen = []
        for i, e in enumerate(K.get_edges()):
            e.set_idx(i)
            for v in (e.anchor, e.endpnt):
                if not e.is_loop and not any(v is u for u in seen):
                    v.set_idx(len(seen))
                    seen.append(v)
        K.parameterize(pf.get_quad_dict(n=12))
        sp = quiet(cls, K, deg=deg, compute_interior_values=True, compute_interior_gradient=deg == 1, verbose=False)
        expect(isinstance(sp, pf.LocalPoissonSpace), "old spaces are spaces")
        out.append(([(v.key.fun_type, v.key.vert_idx, v.key.edge_idx, v.key.edge_space_idx, v.key.bubb_space_idx)
                     for v in sp.get_basis()], [v.get_trace_values() for v in sp.get_basis()],
                    [v.int_vals for v in sp.get_basis()], [v.int_grad1 is None for v in sp.get_basis()]))
    a, b = out
    same(a[0], b[0], "keys of the old and the new space")
    for u, v in zip(a[1] + a[2], b[1] + b[2]):
        close(u, v, 1e-12, "functions of the old and the new space")
    same(a[3], b[3], "gradients of the old and the new space")


def run(chk):
    s = BY_NAME[SHAPE]
    base = dict(Edges=len(s.edges), Rules=points(s))
    short = chk.tlc("Legacy", cfg(invariants=["Laws", "Emit"]), name="short", consts=dict(base, MaxOps=3 if THOROUGH else 2, EmitAll=True)).records
    long = chk.tlc("Legacy", cfg(invariants=["Laws", "Emit"]), name="long", consts=dict(base, MaxOps=7, EmitAll=False),
                   simulate=400 if THOROUGH else 60, depth=8, seed=SEED).records
    r = chk.tlc("LocalFun", cfg(invariants=["Laws", "Emit"]), name="functions", consts=dict(
        Kinds={"fun"}, Holes={0, 1, 2, 3}, TopDegree=4 if THOROUGH else 3, Mixes=2, Shapes="=<<>>", Monos="=<<>>"))
    for x in r.records:
        FUNS.setdefault(x["h"], []).append(x)
    for v in FUNS.values():
        v.sort(key=lambda x: x["i"])
    ask = chk.tlc("LegacyFun", cfg(invariants=["Laws", "Emit"]), name="requests", consts={}).records
    cases = [("lists:", lists, (), None)]
    for i, e in enumerate(EXACT):
        opts = [(32, i % 4, [None, 40][i % 2], ["fft", "direct"][i % 3 == 1 and e.holes > 0])]
        if THOROUGH:
            opts += [(40, 3, 48, "fft"), (32, 0, None, "direct")]
        cases += [(f"function:{e.name} {o}", function, (e.name, *o), dict(shape=e.name, options=str(o))) for o in opts]
    for i, x in enumerate(ask):
        for name in ("x-square", "x-annulus", "x-circ-2")[i % 3:] if not THOROUGH else ("x-square", "x-annulus", "x-circ-2"):
            cases.append((f"asked:{i} {name}", asked, (x, name), x))
    for name in ("triangle", "sq-circ", "disc") + (("annulus", "lens", "tri-tri") if THOROUGH else ()):
        cases += [(f"space:{name} {d}", space, (name, d), dict(shape=name, deg=d)) for d in (1, 2)]
    for kind, recs, k in (("short", short, 10 ** 6 if THOROUGH else 700), ("long", long, 4000 if THOROUGH else 700)):
        for i, x in enumerate(chk.pick(recs, k, len(kind))):
            nm = " ".join("".join(str(h.get(y, "")) for y in ("op", "k", "n", "l", "i", "e", "r")) for h in x["hist"])
            cases.append((f"{kind}:{i} {nm}", piecewise, (x,), x))
    lf.cell("x-annulus", 8)           # compiles the kernels before forking
    chk.run_cases(cases, timeout=300)
    for k, m in (("short", 300), ("long", 300), ("function", 12), ("asked", 40), ("space", 6)):
        chk.need(k, m)
