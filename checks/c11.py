"""C11: calculus of polynomials."""
from fractions import Fraction

import numpy as np

from harness.core import (SEED, THOROUGH, Mismatch, cfg, close, expect, frac,
                          rejected, same)
from checks.c10 import check_poly, terms

POINTS = [((0, 1), (0, 1)), ((2, 1), (-1, 1)), ((1, 2), (3, 1)), ((-3, 2), (1, 4)), ((1, 1), (1, 1))]


def qt(c):
    f = Fraction(c)
    return f"<<{f.numerator}, {f.denominator}>>"


def tlist(t):
    return "<<" + ", ".join(f"<<{qt(c)}, {i}, {j}>>" for c, i, j in t) + ">>"


def polys(top):
    out = [[]]
    for d in range(top + 1):
        for j in range(d + 1):
            out.append([(Fraction((-1) ** j * (1 + (d + j) % 3)), d - j, j)])
    rnd = np.random.default_rng(7)
    for k in range(40 if THOROUGH else 14):
        m = 2 + k % 5
        t = []
        for _ in range(m):
            d = int(rnd.integers(0, 6))
            j = int(rnd.integers(0, d + 1))
            t.append((Fraction(int(rnd.integers(-9, 10)), int(2 ** rnd.integers(0, 3))), d - j, j))
        out.append(t)
    return out


SUBS = [([(1, 1, 0)], [(1, 0, 1)]), ([(1, 0, 1)], [(-1, 1, 0)]),
        ([(1, 1, 0), (-2, 0, 0)], [(Fraction(1, 2), 0, 1), (1, 0, 0)]),
        ([(1, 1, 0), (1, 0, 1)], [(1, 1, 0), (-1, 0, 1)]),
        ([(3, 0, 0)], [(-1, 0, 0)]), ([], [(1, 2, 0)]),
        ([(1, 2, 0), (-1, 0, 2)], [(2, 1, 1)])]
TRIANGLES = [((0, 0), (1, 0), (0, 1)), ((0, 0), (0, 1), (1, 0)), ((-2, 1), (3, 2), (1, 5)), ((3, 2), (-2, 1), (1, 5)),
             ((0, 0), (7, 0), (3, 1)), ((5, 5), (5, 6), (4, 5)), ((0, 0), (1, 1), (2, 2)), ((1, 1), (1, 1), (2, 0)),
             ((0, 0), (2, 0), (2, 0)), ((-1, 3), (2, 3), (5, 3)), ((10, -7), (-4, 6), (0, 0)), ((-3, -3), (4, -3), (-3, 4))]


def mk(t):
    import puncturedfem as pf
    return pf.Polynomial([(frac(c), i, j) for c, i, j in t])


def calc(rec):
    import puncturedfem as pf
    p = mk(rec["p"])
    check_poly(p.partial_deriv("x"), rec["dx"], "x derivative")
    check_poly(p.partial_deriv("y"), rec["dy"], "y derivative")
    g = p.grad()
    check_poly(g[0], rec["dx"], "gradient")
    check_poly(g[1], rec["dy"], "gradient")
    check_poly(p.laplacian(), rec["lap"], "Laplacian")
    for m, (c, i, j) in zip(p.monos, rec["p"]):
        close(m.partial_deriv("x").coef, frac(c) * i, 1e-13, "derivative of a term")
        close(m.partial_deriv("y").coef, frac(c) * j, 1e-13, "derivative of a term")
    xs, ys = ([frac(q[k]) for q in POINTS] for k in (0, 1))
    want = [frac(v) for v in rec["at"]]
    scale = 1e-12
    for x, y, w in zip(xs, ys, want):
        for a, b in ((x, y), (np.float64(x), np.float64(y)), (np.array(x), np.array(y))):
            got = p(a, b)
            same(np.shape(got), (), "shape of a value")
            close(got, w, scale, f"value at ({x}, {y})")
    X, Y = np.array(xs), np.array(ys)
    keep = X.copy(), Y.copy()
    close(p(X, Y), want, scale, "values at an array")
    close(p(x=X, y=Y), want, scale, "values at an array")
    close(p(X[:, None] + 0 * X, Y[:, None] + 0 * X), np.array(want)[:, None] + 0 * X, scale, "values at a matrix")
    close(p(np.array([2, 1]), np.array([-1, 1])), [want[1], want[4]], scale, "values at integers")
    close([X, Y], keep, 0, "the caller's points")
    close(p(np.zeros(0), np.zeros(0)), np.zeros(0), 0, "no points")
    # one coordinate shared by all points
    for k in range(len(xs)):
        on = [sum(frac(c) * xs[k] ** i * y ** j for c, i, j in rec["p"]) for y in ys]
        close(on[k], want[k], scale, "reference")
        close(p(xs[k], Y), on, 1e-11, "values on a vertical line")
        close(p(np.float64(xs[k]), Y), on, 1e-11, "values on a vertical line")
        close(p(X, ys[k]), [sum(frac(c) * x ** i * ys[k] ** j for c, i, j in rec["p"]) for x in xs], 1e-11,
              "values on a horizontal line")
    check_poly(p, rec["p"], "the operand")


def compose(rec):
    p, q1, q2 = mk(rec["p"]), mk(rec["q1"]), mk(rec["q2"])
    r = p.compose(q1, q2)
    for t in rec["r"]:
        check_poly(r, t, "composition")
    for x, y in ((0.3, -0.7), (1.1, 0.4), (-0.9, 0.8)):
        close(r(x, y), p(q1(x, y), q2(x, y)), 1e-11, "value of a composition")
    check_poly(p, rec["p"], "the operand")
    check_poly(q1, rec["q1"], "the operand")
    check_poly(q2, rec["q2"], "the operand")


def bary(rec):
    import puncturedfem as pf
    from puncturedfem.locfun.poly.barycentric import barycentric_products
    z = [np.array(a, dtype=float) for a in rec["z"]]
    if rec["flat"]:
        with rejected("a degenerate triangle"):
            pf.barycentric_coordinates(*z)
        return
    ell = pf.barycentric_coordinates(*z)
    same(len(ell), 3, "number of coordinates")
    for p, t in zip(ell, rec["ell"]):
        got = {(i, j): c for c, i, j in terms(p)}
        want = {(i, j): frac(c) for c, i, j in t}
        for m in set(got) | set(want):
            close(got.get(m, 0.0), want.get(m, 0.0), 1e-11, f"barycentric coefficient of {m}")
    # the triangle of an edge: first two coordinates belong to its ends
    for a, b in ((0, 1), (1, 2), (2, 0), (1, 0)):
        e = pf.Edge(pf.Vert(*z[a]), pf.Vert(*z[b]), pos_cell_idx=0, curve_type="sine_wave", amp=0.3, freq=1)
        e.parameterize(pf.get_quad_dict(n=8))
        le = pf.barycentric_coordinates_edge(e)
        close([[p(*z[a]), p(*z[b])] for p in le], [[1, 0], [0, 1], [0, 0]], 1e-11, "coordinates at the ends of an edge")
        s = (le[0] + le[1] + le[2])
        close(s(3.3, -1.2), 1.0, 1e-10, "sum of the coordinates of an edge")
        # the older products: coordinates, then four times the pairs, then 27 times all three
        L = [p(e.x[0], e.x[1]) for p in le]
        want = L + [4 * L[i] * L[j] for i, j in ((0, 1), (0, 2), (1, 2))] + [27 * L[0] * L[1] * L[2]]
        for deg, count, known in ((1, 3, 3), (2, 6, 6), (3, 10, 7)):
            got = barycentric_products(e, deg)
            same(len(got), count, f"number of products of degree {deg}")
            close(got[:known], want[:known], 1e-11, f"products of degree {deg}")
        with rejected("products of degree 4"):
            barycentric_products(e, 4)
        mid = (z[a] + z[b]) / 2
        d = np.array([-(z[b] - z[a])[1], (z[b] - z[a])[0]]) * np.sqrt(3) / 2
        close(sorted(float(le[2](*(mid + s * d))) for s in (1, -1)), [-1, 1], 1e-10, "apex of an equilateral triangle")


def legendre(recs):
    from puncturedfem.locfun.poly import legendre as L
    top = len(recs) - 1
    for deg in range(1, top + 1):
        P, Q = L.legendre_polynomials(deg), L.integrated_legendre_polynomials(deg)
        same((len(P), len(Q)), (deg + 1, deg + 1), "number of Legendre polynomials")
        for n in range(deg + 1):
            check_poly(P[n], recs[n]["p"], f"Legendre polynomial {n}")
            s = np.sqrt(recs[n]["sq"])
            check = Q[n] * s
            check_poly(check, recs[n]["q"], f"integrated Legendre polynomial {n}")
            sw = L.swap_coordinates_of_poly_argument(P[n])
            check_poly(sw, [[c, j, i] for c, i, j in recs[n]["p"]], "swapped argument")
        for fam, ten in ((P, L.legendre_tensor_products(deg)), (Q, L.integrated_legendre_tensor_products(deg))):
            same(len(ten), (deg + 1) * (deg + 2) // 2, "number of tensor products")
            k = 0
            for m in range(deg + 1):
                for n in range(deg + 1 - m):
                    x, y = 0.37, -0.81
                    close(ten[k](x, y), fam[m](x, 0.0) * fam[n](y, 0.0), 1e-12, f"tensor product ({m}, {n})")
                    k += 1


def antilap_num(t):
    """High degrees: the Laplacian of the anti-Laplacian, by differentiating
    the recorded terms."""
    p = mk(t)
    a = p.anti_laplacian()
    check_poly(p, t, "the operand")
    got = {}
    for c, i, j in terms(a):
        for w, m in ((i * (i - 1), (i - 2, j)), (j * (j - 1), (i, j - 2))):
            if w:
                got[m] = got.get(m, 0.0) + c * w
    want = {(i, j): frac(c) for c, i, j in t}
    for m in set(got) | set(want):
        close(got.get(m, 0.0), want.get(m, 0.0), 1e-11, f"Laplacian of the anti-Laplacian, term {m}")


def record_anti(t):
    """Terms of an anti-Laplacian as rationals, when they are recognizable."""
    import puncturedfem as pf
    p = pf.Polynomial([(float(c), i, j) for c, i, j in t])
    out = []
    for c, i, j in terms(p.anti_laplacian()):
        f = Fraction(c).limit_denominator(200000)
        if abs(float(f) - c) > 1e-14 * max(1, abs(c)):
            return None
        out.append((f, i, j))
    parts = {}
    for f, i, j in out:     # within the 32-bit integers of TLC
        for w, m in ((i * (i - 1), (i - 2, j)), (j * (j - 1), (i, j - 2))):
            if w:
                parts.setdefault(m, []).append(f * w)
                if abs(f.numerator) * w >= 2 ** 31:
                    return None
    for fs in parts.values():
        a, b = (fs + [Fraction(0)])[:2]
        if abs(a.numerator) * b.denominator + abs(b.numerator) * a.denominator >= 2 ** 31 \
                or a.denominator * b.denominator >= 2 ** 31 or len(fs) > 2:
            return None
    return out


def verdict(rec):
    expect(rec["ok"], f"the Laplacian of the anti-Laplacian of {rec['id']} is another polynomial")


def run(chk):
    ps = polys(9 if THOROUGH else 7)
    anti = []

    def record_all():
        for t in ps:
            a = record_anti(t)
            if a is not None:
                anti.append((t, a))
    chk.case("record:", record_all, timeout=60)
    txt = "=<<" + ", ".join(
        f'[id |-> "{" ".join(f"{c}x{i}y{j}" for c, i, j in t)}", p |-> {tlist(t)}, a |-> {tlist(a)}]' for t, a in anti) + ">>"
    r = chk.tlc("PolyCalc", cfg(invariants=["Laws", "Emit"]), consts=dict(
        Polys="=<<" + ", ".join(tlist(t) for t in ps) + ">>",
        Subs="=<<" + ", ".join(f"<<{tlist(a)}, {tlist(b)}>>" for a, b in SUBS) + ">>",
        Points=[[list(a), list(b)] for a, b in POINTS], Triangles=[list(map(list, t)) for t in TRIANGLES],
        LegDeg=6, Anti=txt))
    chk.exhaustive = True
    by = {}
    for x in r.records:
        by.setdefault(x["kind"], []).append(x)
    cases = []
    for kind, fn in (("calc", calc), ("compose", compose), ("bary", bary), ("anti", verdict)):
        for x in by.get(kind, []):
            nm = x.get("id") or f"{x.get('p', x.get('z'))} {x.get('q1', '')} {x.get('q2', '')}"
            cases.append((f"{kind}:{nm}", fn, (x,), x))
    for x in by["calc"]:
        cases.append((f"antilap:{x['p']}", antilap_num, (x["p"],), x["p"]))
    rnd = np.random.default_rng(SEED)
    for k in range(200 if THOROUGH else 60):
        t = {}
        for _ in range(int(rnd.integers(1, 6))):
            d = int(rnd.integers(0, 13))
            j = int(rnd.integers(0, d + 1))
            t[(d - j, j)] = [[int(rnd.integers(1, 9)) * (-1) ** d, 1], d - j, j]
        t = sorted(t.values(), key=lambda m: (m[1] + m[2], m[2]))
        cases.append((f"antilap:{t}", antilap_num, (t,), t))
    leg = sorted(by["leg"], key=lambda x: x["n"])
    cases.append(("legendre:", legendre, (leg,), leg[-1]))
    chk.run_cases(cases, timeout=30)
    for k, m in (("calc", 40), ("compose", 250), ("bary", 12), ("antilap", 90), ("legendre", 1)):
        chk.need(k, m)
