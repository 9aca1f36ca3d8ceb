"""C15: local Poisson problems with a known solution."""
import numpy as np

from checks.c14 import ACUTE
from harness import locfun as lf
from harness.core import THOROUGH, cfg, close, expect, frac, rejected, same
from harness.shapes import BY_NAME, EXACT, build_cell

FUNS = {}       # holes -> records


def terms(poly):
    out = {}
    for m in poly.monos:
        k = (m.alpha.x, m.alpha.y)
        out[k] = out.get(k, 0.0) + m.coef
    return {k: c for k, c in out.items() if c}


def near_poly(got, want, what):
    for k in set(got) | set(want):
        expect(abs(got.get(k, 0.0) - want.get(k, 0.0)) <= 1e-11 * (1 + abs(want.get(k, 0.0))),
               f"{what}: coefficient of x^{k[0]} y^{k[1]} is {got.get(k, 0.0)!r}, specified {want.get(k, 0.0)!r}")


def combine(*pairs):
    out = {}
    for c, d in pairs:
        for k, v in d.items():
            out[k] = out.get(k, 0.0) + c * v
    return {k: v for k, v in out.items() if v}


def size(F, K):
    x, y = lf.boundary(K)
    return 1 + np.abs(F(x, y)).max() + np.hypot(*F.grad(x, y)).max()


def poly_part(pf, K, s, v, lap, tag):
    """The polynomial part and all that is kept with it."""
    P = v.poly
    p = terms(P.exact_form)
    fp = lf.Fun(s, p)
    near_poly(fp.lap_poly(), lap, f"{tag}: Laplacian of the polynomial part")
    near_poly(terms(P.grad1), {(i - 1, j): i * c for (i, j), c in p.items() if i}, f"{tag}: x derivative")
    near_poly(terms(P.grad2), {(i, j - 1): j * c for (i, j), c in p.items() if j}, f"{tag}: y derivative")
    a = terms(P.antilap)
    fa = lf.Fun(s, a)
    near_poly(fa.lap_poly(), p, f"{tag}: Laplacian of the anti-Laplacian")
    x, y = lf.boundary(K)
    for t, f, name in ((P.trace, fp, "polynomial part"), (P.antilap_trace, fa, "anti-Laplacian")):
        sc = size(f, K)
        close(np.array(t.values) / sc, f(x, y) / sc, 1e-12, f"{tag}: trace of the {name}")
        close(np.array(t.w_norm_deriv) / sc, lf.normal_derivative(K, f) / sc, 1e-11, f"{tag}: normal derivative of the {name}")
    sc = size(fp, K)
    close(np.array(P.trace.w_tang_deriv) / sc, lf.tangential_derivative(K, fp) / sc, 1e-11,
          f"{tag}: tangential derivative of the polynomial part")
    return fp


def interior(K, v, F, big, tag, tol, tolg):
    x, y = K.int_x1, K.int_x2
    if v.int_vals is not None:
        close(np.array(v.int_vals) / big, F(x, y) / big, tol, f"{tag}: interior values")
    if v.int_grad1 is not None:
        g, h = F.grad(x, y)
        close(np.array(v.int_grad1) / big, g / big, tolg, f"{tag}: interior x derivative")
        close(np.array(v.int_grad2) / big, h / big, tolg, f"{tag}: interior y derivative")


def solve(name, n, listing, nq, antilap):
    import puncturedfem as pf
    s = BY_NAME[name]
    K, ny = lf.cell(name, n, listing, nq, antilap)
    x, y = lf.boundary(K)
    tol = 1e-3 if name in ACUTE else 3e-5
    expect(len(K.int_x1) > 3 or name == "x-disc-kress", "points to look at")
    for rec in FUNS[s.holes]:
        F = lf.Fun.of(s, rec)
        lap = {(i, j): frac(c) for c, i, j in rec["lap"]}
        tag = f"function {rec['i']}"
        vals = F(x, y)
        q = F.poly(lap)
        given, how = vals.copy(), rec["i"] % 3
        if rec["i"] == 1:
            given = 1.0 if listing % 2 else 1
        elif how == 1:
            given = pf.DirichletTrace(edges=K.get_edges(), values=vals.copy())
        elif how == 2:
            given = pf.DirichletTrace(K, funcs=F)
        kw = dict(evaluate_gradient=True) if listing % 2 == 0 else dict(evaluate_interior=False, evaluate_gradient=True)
        if lap or listing % 2 == 0:
            v = pf.LocalPoissonFunction(ny, laplacian=q, trace=given, **kw)
        else:
            v = pf.LocalPoissonFunction(ny, trace=given, **kw)
        same(terms(q), lap, f"{tag}: the Laplacian given")
        if isinstance(given, np.ndarray):
            same(given.tolist(), vals.tolist(), f"{tag}: the values given")
        elif how and rec["i"] != 1:
            close(given.values, vals, 1e-13, f"{tag}: the trace given")
        fp = poly_part(pf, K, s, v, lap, tag)
        fh = lf.Fun(s, combine((1, F.p), (-1, fp.p)), F.l)
        big = size(F, K) + size(fp, K)
        close(v.get_trace_values(), vals, 1e-12 * big, f"{tag}: trace")
        close(np.array(v.harm.trace.values) / big, fh(x, y) / big, 1e-12, f"{tag}: trace of the harmonic part")
        logs = lf.log_coefs(K, s, F)
        close(np.array(v.harm.log_coef) / big, logs / big, tol / 30, f"{tag}: logarithmic coefficients")
        psi = fh(x, y)
        for c, comp in zip(logs, K.components[1:]):
            u = comp.interior_point
            psi = psi - 0.5 * c * np.log((x - u.x) ** 2 + (y - u.y) ** 2)
        close(np.array(v.harm.psi.values) / big, psi / big, tol, f"{tag}: part without logarithms")
        close(np.array(v.harm.trace.w_norm_deriv) / big, lf.normal_derivative(K, fh) / big, 2 * tol,
              f"{tag}: normal derivative of the harmonic part")
        close(np.array(v.harm.trace.w_tang_deriv) / big, lf.tangential_derivative(K, fh) / big, tol / 10,
              f"{tag}: tangential derivative of the harmonic part")
        expect(v.int_vals is not None and v.int_grad1 is not None and v.int_grad2 is not None, f"{tag}: interior values asked for")
        same((len(v.int_vals), len(v.int_grad1), len(v.int_grad2)), (len(K.int_x1),) * 3, f"{tag}: sizes of the interior arrays")
        interior(K, v, F, big, tag, tol / 30, tol / 5)


def known(rec, name):
    """What is known after a history of requests, and that it is right."""
    from puncturedfem.solver.globkey import GlobalKey
    import puncturedfem as pf
    s = BY_NAME[name]
    K, ny = lf.cell(name)
    F = lf.Fun(s, {(0, 0): 1.0, (1, 0): -0.5, (1, 1): 0.3, (2, 1): 0.1, (0, 2): 0.4}, [0.7, -1.2][:s.holes])
    big = size(F, K)
    key = None
    for r in rec["r"]:
        if r["op"] == "new":
            key = GlobalKey("vert", vert_idx=3) if r["v"] else None
            v = lf.local(ny, F, evaluate_interior=r["v"], evaluate_gradient=r["g"], **({"key": key} if key else {}))
        else:
            v.compute_interior_values(r["g"])
    same(dict(v=v.int_vals is not None, g=v.int_grad1 is not None and v.int_grad2 is not None), rec["want"], "interior data known")
    same((v.int_grad1 is None), (v.int_grad2 is None), "both components")
    interior(K, v, F, big, "known", 1e-5, 3e-5)
    if key is not None:
        expect(v.key is key, "key of the function")
    expect(v.mesh_cell is K, "cell of the function")


def own_points(name):
    """At the cell's own interior points, not too near the boundary."""
    import puncturedfem as pf
    s = BY_NAME[name]
    K, _ = build_cell(s, None, None, cell=2, other=0)
    K.set_interior_mesh_size(9, 10)
    K.parameterize(pf.get_quad_dict(n=48))
    for debug in (False, True):
        ny = pf.NystromSolver(K, verbose=debug, debug=debug, antilap_strategy="direct" if debug else "fft")
        F = lf.Fun(s, {(0, 0): 2.0, (1, 0): 1.0, (1, 1): -0.3, (3, 0): 0.2, (0, 2): 0.25}, [0.5] * s.holes)
        v = lf.local(ny, F, evaluate_interior=True, evaluate_gradient=True)
        x, y = np.array(K.int_x1), np.array(K.int_x2)
        same(len(x), len(v.int_vals), "number of interior values")
        bx, by = lf.boundary(K)
        h = 3 * max(np.hypot(*(np.roll(p, -1, 1) - p)).max() for p in (np.array(c.get_sampled_points()) for c in K.components))
        far = np.hypot(x[:, None] - bx, y[:, None] - by).min(1) > h
        expect(far.sum() > 5, "interior points of the cell")
        g1, g2 = F.grad(x, y)
        close(np.array(v.int_vals)[far], F(x, y)[far], 1e-4, "interior values")
        close(np.array(v.int_grad1)[far], g1[far], 1e-3, "interior x derivative")
        close(np.array(v.int_grad2)[far], g2[far], 1e-3, "interior y derivative")


def refuse():
    import puncturedfem as pf
    K, ny = lf.cell("x-annulus")
    with rejected("a solver without a cell", TypeError):
        pf.NystromSolver("K")
    with rejected("an unknown strategy", ValueError):
        pf.NystromSolver(K, antilap_strategy="magic")
    with rejected("an unknown preconditioner", ValueError):
        pf.NystromSolver(K, precond_type="magic")
    with rejected("a key that is none", TypeError):
        pf.LocalPoissonFunction(ny, key="k")


def run(chk):
    consts = dict(Kinds={"fun", "known"}, Holes={0, 1, 2, 3}, TopDegree=5 if THOROUGH else 4, Mixes=6 if THOROUGH else 3,
                  Shapes="=<<>>", Monos="=<<>>")
    r = chk.tlc("LocalFun", cfg(invariants=["Laws", "Emit"]), consts=consts)
    chk.exhaustive = True
    for x in r.records:
        if x["kind"] == "fun":
            FUNS.setdefault(x["h"], []).append(x)
    for v in FUNS.values():
        v.sort(key=lambda x: x["i"])
    cases = []
    for k, s in enumerate(EXACT):
        opts = [(32, 0, None, "fft"), (32, 1 + 2 * (k % 3), 40, "fft")]
        if s.holes:
            opts.append((32, 2 + 2 * (k % 3), None, "direct"))
        if THOROUGH:
            opts += [(48, 3, 32, "fft"), (64, 8, None, "fft"), (40, 9, None, "direct"), (32, 7, 48, "direct")]
        cases += [(f"solve:{s.name} {o}", solve, (s.name, *o), dict(shape=s.name, options=str(o))) for o in opts]
    cases.sort(key=lambda c: -len(BY_NAME[c[2][0]].edges))
    for i, x in enumerate(x for x in r.records if x["kind"] == "known"):
        for name in ("x-square", "x-annulus", "x-circ-2"):
            cases.append((f"known:{i} {name}", known, (x, name), x))
    for name in ("disc", "annulus", "square") + (("x-concentric", "x-kite") if THOROUGH else ()):
        cases.append((f"own:{name}", own_points, (name,), dict(shape=name)))
    cases.append(("refuse:", refuse, (), None))
    lf.cell("x-annulus", 8)           # compiles the kernels before forking
    chk.run_cases(cases)
    chk.need("solve", 28)
    chk.need("known", 50)
