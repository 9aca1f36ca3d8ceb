"""C16: inner products of local functions."""
import warnings

import numpy as np

from checks.c14 import ACUTE
from checks.c15 import combine, terms
from harness import locfun as lf
from harness.core import THOROUGH, cfg, close, expect, frac, rejected
from harness.shapes import BY_NAME, EXACT, exact_tla

FUNS, PAIRS, MONO = {}, {}, {}
REF = {}


def mono(shape, i, j):
    v = MONO[shape.name].get((i, j))
    if v is None:
        return None
    return frac(v[0]) + np.pi * frac(v[1])


def ref(kind, shape, *a):
    """The products with logarithms, by boundary quadrature of our own."""
    key = (kind, shape.name) + a
    if key not in REF:
        REF[key] = dict(l2ml=lf.mono_log_l2, l2ll=lf.log_log_l2, h1ml=lf.mono_log_h1, h1ll=lf.log_log_h1)[kind](shape, *a)
    return REF[key]


def value(shape, x, kind):
    """Value of an expanded inner product; None if a monomial is not known."""
    out = 0.0
    for c, i, j in x["pp"]:
        m = mono(shape, i, j)
        if m is None:
            return None
        out += frac(c) * m
    for c, i, j, k in x["pl"]:
        out += frac(c) * ref(kind + "ml", shape, i, j, k - 1)
    for c, k, m in x["ll"]:
        if c[0]:
            out += frac(c) * ref(kind + "ll", shape, min(k, m) - 1, max(k, m) - 1)
    return out


def product(shape, F, G, kind):
    """The same expansion of a product that involves the parts of a function
    found by the code (its particular polynomial is not specified)."""
    out = 0.0
    if kind == "l2":
        pp = [(a * b, i + k, j + m) for (i, j), a in F.p.items() for (k, m), b in G.p.items()]
    else:
        pp = [(a * b * i * k, i + k - 2, j + m) for (i, j), a in F.p.items() for (k, m), b in G.p.items() if i and k]
        pp += [(a * b * j * m, i + k, j + m - 2) for (i, j), a in F.p.items() for (k, m), b in G.p.items() if j and m]
    for c, i, j in pp:
        m = mono(shape, i, j)
        if m is None:
            return None
        out += c * m
    for A, B in ((F, G), (G, F)):
        for (i, j), a in A.p.items():
            for k, b in enumerate(B.l):
                if b:
                    out += a * b * ref(kind + "ml", shape, i, j, k)
    for k, a in enumerate(F.l):
        for m, b in enumerate(G.l):
            if a and b:
                out += a * b * ref(kind + "ll", shape, min(k, m), max(k, m))
    return out


def prods(v):
    return dict(l2=v.get_l2_inner_prod, h1=v.get_h1_semi_inner_prod)


def products(name, n, listing, nq, antilap, old=False):
    import puncturedfem as pf
    from puncturedfem.locfun.inner_prod import h1_semi_inner_prod, l2_inner_prod
    s = BY_NAME[name]
    K, ny = lf.cell(name, n, listing, nq, antilap)
    tol = 5e-6 if name in ACUTE else 2e-7
    x, y = lf.boundary(K)
    F, V, parts, norm = [], [], [], []
    for rec in FUNS[s.holes]:
        f = lf.Fun.of(s, rec)
        lap = f.poly({(i, j): frac(c) for c, i, j in rec["lap"]})
        if old:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                v = pf.locfun.locfun.LocalFunction(ny, laplacian=lap, trace=f(x, y))
        else:
            v = pf.LocalPoissonFunction(ny, laplacian=lap, trace=f(x, y), evaluate_interior=False)
            p = lf.Fun(s, terms(v.poly.exact_form))
            parts.append((v.harm, lf.Fun(s, combine((1, f.p), (-1, p.p)), f.l), v.poly, p))
        F.append(f)
        V.append(v)
        norm.append(max(np.abs(f(x, y)).max() + np.hypot(*f.grad(x, y)).max(), 1e-3) *
                    np.sqrt(abs(mono(s, 0, 0))))
    m = len(F)
    got = {k: np.full((m, m), np.nan) for k in ("l2", "h1")}
    for a in range(m):
        for b in range(m):
            rec = PAIRS[s.holes][min(a, b) + 1, max(a, b) + 1]
            for kind, f in prods(V[a]).items():
                g = f(V[b])
                expect(isinstance(g, float), f"type of the product: {type(g).__name__}")
                got[kind][a, b] = g
                want = value(s, rec[kind], kind)
                if want is not None:
                    z = norm[a] * norm[b]
                    close(g / z, want / z, tol, f"functions {a + 1} and {b + 1}: {kind} product over {z:.3g}")
    # symmetric, bilinear, positive; constants have no energy
    N = np.outer(norm, norm)
    gens = len([r for r in FUNS[s.holes]]) - MIXES - 1
    for kind, A in got.items():
        expect(np.all(np.isfinite(A)), f"{kind} products are finite")
        close(A / N, A.T / N, 2 * tol, f"symmetry of the {kind} product")
        expect(np.all(np.diag(A) >= -1e-9 * np.diag(N)), f"{kind} squares")
        for q in range(MIXES):
            w = np.array([frac(c) for c in WEIGHTS[s.holes][q]])
            size = np.abs(w) @ np.array(norm[:gens])
            close(w @ A[:gens] / (size * np.array(norm)), A[gens + q] / (size * np.array(norm)), 1e-8,
                  f"linearity of the {kind} product in its first argument")
            close(A[:, :gens] @ w / (size * np.array(norm)), A[:, gens + q] / (size * np.array(norm)), 1e-8,
                  f"linearity of the {kind} product in its second argument")
    close(got["h1"][0] / norm[0], np.zeros(m), 1e-8 * max(norm), "energy of a constant with another")
    close(got["h1"][:, 0] / norm[0], np.zeros(m), 1e-8 * max(norm), "energy of another with a constant")
    # parts of functions against each other
    for a in range(0 if old else 0, 0 if old else m):
        for b in range((a * 5) % 3, m, 3):
            ha, fa, pa, qa = parts[a]
            hb, fb, pb, qb = parts[b]
            for kind, pr in (("l2", l2_inner_prod), ("h1", h1_semi_inner_prod)):
                for u, fu, v, fv, what in ((ha, fa, hb, fb, "harmonic, harmonic"), (ha, fa, pb, qb, "harmonic, polynomial"),
                                           (pa, qa, hb, fb, "polynomial, harmonic"), (pa, qa, pb, qb, "polynomial, polynomial"),
                                           (V[a], F[a], hb, fb, "whole, harmonic"), (V[a], F[a], pb, qb, "whole, polynomial")):
                    want = product(s, fu, fv, kind)
                    g = prods(u)[kind](v) if what[:5] == "whole" else pr(u, v, K)
                    if want is not None:
                        sz = [np.abs(f(x, y)).max() + np.hypot(*f.grad(x, y)).max() for f in (fu, fv)]
                        z = mono(s, 0, 0) * max(sz[0], 1e-3) * max(sz[1], 1e-3)
                        close(g / z, want / z, tol, f"parts of functions {a + 1} and {b + 1} ({what}): {kind} product over {z:.3g}")


def refuse():
    import puncturedfem as pf
    _, ny = lf.cell("x-annulus")
    v = pf.LocalPoissonFunction(ny, trace=1.0, evaluate_interior=False)
    for bad in (None, 1.0, pf.Polynomial([(1.0, 0, 0)]), v.harm.trace):
        with rejected("the L2 product with something else", TypeError):
            v.get_l2_inner_prod(bad)
        with rejected("the H1 product with something else", TypeError):
            v.get_h1_semi_inner_prod(bad)


MIXES = 4 if THOROUGH else 2
WEIGHTS = {}


def run(chk):
    monos = [(d - j, j) for d in range(9) for j in range(d + 1)]
    big = [s for s in EXACT if s.name in ("x-ell-3",)]
    consts = dict(Kinds={"fun", "pair"}, Holes={0, 1, 2, 3}, TopDegree=3, Mixes=MIXES, Shapes="=<<>>", Monos="=<<>>")
    r = chk.tlc("LocalFun", cfg(invariants=["Laws", "Emit"]), name="pairs", consts=consts)
    recs = r.records
    for name, shapes, ms in (("table", [s for s in EXACT if s not in big], monos), ("big", big, [m for m in monos if sum(m) <= 4])):
        recs += chk.tlc("LocalFun", cfg(invariants=["Emit"]), name=name, consts=dict(
            consts, Kinds={"mono"}, Shapes="=<<" + ", ".join(exact_tla(s) for s in shapes) + ">>", Monos=ms)).records
    chk.exhaustive = True
    for x in recs:
        if x["kind"] == "fun":
            FUNS.setdefault(x["h"], []).append(x)
        elif x["kind"] == "pair":
            PAIRS.setdefault(x["h"], {})[x["i"], x["j"]] = x
        else:
            MONO.setdefault(x["id"], {})[x["a"], x["b"]] = x["v"]
    for h, v in FUNS.items():
        v.sort(key=lambda x: x["i"])
        # the weights of the mixtures, read off the functions themselves
        gens = v[:-MIXES - 1]
        WEIGHTS[h] = []
        for mix in v[-MIXES - 1:-1]:
            t = {(i, j): c for c, i, j in mix["p"]}
            WEIGHTS[h].append([t.get(tuple(g["p"][0][1:]), [0, 1]) if g["p"] else
                               mix["l"][[k for k, c in enumerate(g["l"]) if c[0]][0]] for g in gens])
    cases = []
    for k, s in enumerate(EXACT):
        opts = [(32, k % 4, None, "fft")] + ([(32, 1, 40, "direct")] if s.holes else [(40, 3, None, "fft")])
        if THOROUGH:
            opts += [(64, 2, None, "fft"), (48, 5, 32, "fft"), (64, 0, None, "direct")]
        cases += [(f"products:{s.name} {o}", products, (s.name, *o), dict(shape=s.name, options=str(o))) for o in opts]
    for name in ("x-square", "x-annulus", "x-sq-2"):
        cases.append((f"old:{name}", products, (name, 32, 0, None, "fft", True), dict(shape=name)))
    cases.append(("refuse:", refuse, (), None))
    cases.sort(key=lambda c: -len(BY_NAME[c[2][0]].edges) if c[2] else 0)
    lf.cell("x-annulus", 8)           # compiles the kernels before forking
    chk.run_cases(cases, timeout=400)
    chk.need("products", 28)
