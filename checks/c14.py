"""C14: tangential and normal derivatives on the boundary."""
import numpy as np

from harness import locfun as lf
from harness.core import SEED, THOROUGH, cfg, close, expect, frac, same
from harness.shapes import BY_NAME, EXACT, build_cell

RECS = {}


# ---- trigonometric polynomials ---------------------------------------------
def trig(modes, e, n):
    """Values at the n samples of an interval of length 2 pi e."""
    s = 2 * np.pi * np.arange(n) / n
    return sum(frac(m["a"]) * np.cos(m["k"] * s) + frac(m["b"]) * np.sin(m["k"] * s) for m in modes)


def vec(rec, fun):
    return [trig(m, frac(c["e"]), c["n"]) for m, c in zip(fun, rec["lay"])]


def scale_of(rec):
    big = 1.0
    for m in (rec["f"], rec["f0"]):
        for c in m:
            for x in c:
                big = max(big, abs(frac(x["a"])), abs(frac(x["b"])))
    top = max(c["n"] for c in rec["lay"])
    return big * top ** 2


def fourier(rec, cellname, n):
    """A history of derivatives and antiderivatives, contour by contour and,
    for the layouts of real cells, over the whole boundary."""
    from puncturedfem.locfun.fft_deriv import (
        fft_antiderivative, fft_antiderivative_on_each_component, fft_derivative,
        get_weighted_tangential_derivative_from_trace)
    want = vec(rec, rec["f"])
    tol = 1e-13 * scale_of(rec)

    def play(d, a):
        x = vec(rec, rec["f0"])
        for h in rec["hist"]:
            keep = [y.copy() for y in x]
            if h["op"] == "d":
                new = d(x)
            elif h["op"] == "a":
                new = a(x)
            elif h["op"] == "add":
                new = [y + z for y, z in zip(x, vec(rec, rec["seeds"][h["s"]]))]
            else:
                new = [frac(h["c"]) * y for y in x]
            for p, q in zip(keep, x):
                same(p.tolist(), q.tolist(), "the values given")
            x = new
        return x

    lens = [2 * np.pi * frac(c["e"]) for c in rec["lay"]]
    got = play(lambda x: [fft_derivative(y, L) for y, L in zip(x, lens)],
               lambda x: [fft_antiderivative(y, L) for y, L in zip(x, lens)])
    for g, w in zip(got, want):
        close(g, w, tol, "derivative history on a contour")
    if cellname:
        K = plain(cellname, n)
        cut = np.cumsum([0] + [c["n"] for c in rec["lay"]])

        def split(y):
            return [y[a:b] for a, b in zip(cut[:-1], cut[1:])]
        got = play(lambda x: split(get_weighted_tangential_derivative_from_trace(K, np.concatenate(x))),
                   lambda x: split(fft_antiderivative_on_each_component(K, np.concatenate(x))))
        for g, w in zip(got, want):
            close(g, w, tol, "derivative history on a cell")


PLAIN = {}


def plain(name, n):
    import puncturedfem as pf
    if (name, n) not in PLAIN:
        K, _ = build_cell(BY_NAME[name], None, None, cell=0, other=1)
        d = pf.get_quad_dict(n=n[0])
        d["kress"] = pf.get_quad_dict(n=n[1])["kress"]
        K.parameterize(d, compute_interior_points=False)
        PLAIN[name, n] = K
    return PLAIN[name, n]


def layout(name, n):
    K = plain(name, n)
    return [(c.num_edges, sum(e.num_pts - 1 for e in c.edges)) for c in K.components]


# ---- harmonic functions ----------------------------------------------------
def spread(F, K):
    """Size of the function and its derivatives, for tolerances."""
    x, y = lf.boundary(K)
    return 1 + np.abs(F(x, y)).max() + np.hypot(*F.grad(x, y)).max()


ACUTE = ("x-tri", "x-tri-circ")


def tolerance(name, n):
    t = 1e-3 if name in ACUTE else 3e-5
    return t


def harmonic(name, n, listing, nq):
    """Every harmonic function of the specification on one cell."""
    from puncturedfem.locfun.local_harmonic import LocalHarmonic
    import puncturedfem as pf
    s = BY_NAME[name]
    K, ny = lf.cell(name, n, listing, nq)
    x, y = lf.boundary(K)
    N = len(x)
    w = lf.boundary_weights(K)
    ds = w * np.array(K.get_dx_norm())

    def near(a, b, t, what):
        close(np.asarray(a) / big, np.asarray(b) / big, t, what)

    cut = list(np.cumsum([0] + [sum(e.num_pts - 1 for e in c.edges) for c in K.components]))
    order = lf.hole_order(K, s)
    tol = tolerance(name, n)
    out, size = [], []
    for rec in RECS[s.holes]:
        F = lf.Fun.of(s, rec)
        q = {(i, j): frac(c) for c, i, j in rec["q"]}
        big = spread(F, K)
        tag = f"harmonic function {rec['i']}"
        vals = F(x, y)
        given = vals.copy()
        psi_hat, logs = ny.get_harmonic_conjugate(vals)
        same(vals.tolist(), given.tolist(), "the values given")
        near(np.array(logs), lf.log_coefs(K, s, F), tol / 50, f"{tag}: logarithmic coefficients")
        d = psi_hat - lf.conjugate(K, s, F, q)
        near(d, np.full(N, np.sum(d * ds) / np.sum(ds)), tol, f"{tag}: harmonic conjugate")
        h = LocalHarmonic(pf.DirichletTrace(edges=K.get_edges(), values=given.copy()), ny)
        wn, wt = np.array(h.trace.w_norm_deriv), np.array(h.trace.w_tang_deriv)
        exact_n, exact_t = lf.normal_derivative(K, F), lf.tangential_derivative(K, F)
        near(h.trace.values, given, 0, f"{tag}: trace")
        near(wt, exact_t, tol / 10, f"{tag}: tangential derivative")
        near(wn, exact_n, 2 * tol, f"{tag}: normal derivative")
        expect(np.sum(np.abs(wn - exact_n) * w) <= tol * big * np.sum(ds), f"{tag}: normal derivative on average")
        # fluxes through every contour
        want = [frac(rec["flux"][0])] + [frac(rec["flux"][1 + k]) for k in order]
        flux = [np.sum(wn[a:b] * w[a:b]) / (2 * np.pi) for a, b in zip(cut[:-1], cut[1:])]
        near(np.array(flux), np.array(want), tol / 50, f"{tag}: fluxes")
        zero = [np.sum(wt[a:b] * w[a:b]) for a, b in zip(cut[:-1], cut[1:])]
        near(np.array(zero), np.zeros(len(zero)), 1e-10, f"{tag}: circulation")
        # back from the normal derivative
        u = ny.solve_neumann_zero_average(exact_n)
        near(u, given - np.sum(given * ds) / np.sum(ds), tol, f"{tag}: Neumann problem")
        if rec["i"] == 1:    # constants have no derivatives
            close(wn, np.zeros(N), 1e-9, "normal derivative of a constant")
            close(wt, np.zeros(N), 1e-10, "tangential derivative of a constant")
            close(psi_hat, np.zeros(N), 1e-9, "conjugate of a constant")
        # the computed map itself is linear
        if rec["mix"]:
            c = [frac(m) for m in rec["mix"]]
            lin = sum(a * v for a, v in zip(c, out))
            close(wn, lin, 1e-8 * (1 + sum(abs(a) * b for a, b in zip(c, size))) * N, f"{tag}: linearity")
        out.append(wn)
        size.append(big)


def run(chk):
    top = 3 if THOROUGH else 2
    cells = [("disc", (6, 6)), ("annulus", (5, 5)), ("x-tri-circ", (8, 5)), ("x-ell-3", (6, 4)), ("x-circ-2", (7, 4))]
    if THOROUGH:
        cells += [("x-sq-2", (9, 6)), ("triangle", (4, 11)), ("x-circ-tri", (16, 8))]
    raw = [[(1, 8)], [(3, 21)], [((5, 2), 15)], [((1, 2), 10), (4, 9)]]
    lays = [(None, None, r) for r in raw] + [(a, b, layout(a, b)) for a, b in cells]

    def tla(r):
        return "<<" + ", ".join(f"[e |-> <<{e[0] if isinstance(e, tuple) else e}, {e[1] if isinstance(e, tuple) else 1}>>, n |-> {n}]"
                                for e, n in r) + ">>"
    r = chk.tlc("Fourier", cfg(invariants=["Laws", "Emit"]), consts=dict(
        Layouts="=<<" + ", ".join(tla(x[2]) for x in lays) + ">>", Depth=top, EmitAll=False))
    chk.exhaustive = True
    home = {}
    for a, b, x in lays:
        key = tuple(((e if isinstance(e, tuple) else (e, 1)), m) for e, m in x)
        home.setdefault(key, (a, b))
    cases = []
    for i, rec in enumerate(r.records):
        a, b = home[tuple((tuple(c["e"]), c["n"]) for c in rec["lay"])]
        cases.append((f"fourier:{i}", fourier, (rec, a, b), dict(layout=rec["lay"], hist=rec["hist"])))
    h = chk.tlc("LocalFun", cfg(invariants=["Laws", "Emit"]), name="harm", consts=dict(
        Kinds={"harm"}, Holes={0, 1, 2, 3}, TopDegree=1, Mixes=5 if THOROUGH else 2, Shapes="=<<>>", Monos="=<<>>"))
    for x in sorted(h.records, key=lambda x: x["i"]):
        RECS.setdefault(x["h"], []).append(x)
    work = []
    for k, s in enumerate(EXACT):
        opts = [(32, 0, None), (32, 1 + k % 5, 40)]
        if THOROUGH:
            opts += [(64, 2, None), (32, 3, None), (48, 4, 32)]
        for o in opts:
            work.append((f"harmonic:{s.name} {o}", harmonic, (s.name, *o), dict(shape=s.name, options=str(o))))
    lf.cell("x-annulus", 8)           # compiles the kernels before forking
    chk.run_cases(work + cases)
    chk.need("fourier", 1000)
    chk.need("harmonic", 28)
