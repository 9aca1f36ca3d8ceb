"""C12: polynomials integrated over cells."""
import numpy as np

from harness.core import SEED, THOROUGH, cfg, expect, frac, same
from harness.shapes import BY_NAME, EXACT, Circ, Shape, build_cell, exact_tla, ring

SQUARE = [(0, 0), (4, 0), (4, 3), (0, 3)]
CUTS = [("square", SQUARE, 0, 2), ("square2", SQUARE, 1, 3), ("kite", [(0, -2), (3, 1), (0, 2), (-1, 0)], 1, 3),
        ("tri4", [(0, 0), (3, 0), (3, 4), (1, 3)], 0, 2)]
VALUE = {}
# small cells, for monomials of high degree (TLC's integers have 32 bits)
SMALL = [Shape("u-square", ring([(0, 0), (1, 0), (1, 1), (0, 1)])), Shape("u-diamond", ring([(-1, 0), (0, -1), (1, 0), (0, 1)])),
         Shape("u-tri", ring([(1, 0), (0, 1), (-1, -1)])), Shape("u-disc", [Circ((0, 0), 1, False)]),
         Shape("u-disc2", [Circ((1, 0), 1, False)])]
SHAPE = dict(BY_NAME, **{s.name: s for s in SMALL})


def value(v):
    return frac(v[0]) + np.pi * frac(v[1])


def poly_of(terms):
    import puncturedfem as pf
    return pf.Polynomial([(c, i, j) for c, i, j in terms])


def integral(K, terms):
    from puncturedfem.locfun.poly.integrate_poly import integrate_poly_over_mesh_cell
    return integrate_poly_over_mesh_cell(poly_of(terms), K)


def tol_for(shape, n, ref):
    return (1e-9 if n >= 64 else 1e-7 if n >= 32 else 2e-5) * max(ref, 1e-3)


def magnitude(shape, a, b):
    """An upper bound for the integral of |x|^a |y|^b, for tolerances."""
    pts = []
    for e in shape.edges:
        pts += [(e.p[0] + s * (e.r if e.loop else 0), e.p[1] + t * (e.r if e.loop else 0)) for s in (-1, 1) for t in (-1, 1)]
    p = np.abs(np.array(pts))
    return max(1.0, float(np.ptp(np.array(pts)[:, 0]) * np.ptp(np.array(pts)[:, 1]))) * max(1, p[:, 0].max()) ** a * max(1, p[:, 1].max()) ** b


def listing(rec):
    """All monomials and seeded combinations over one listing of a cell."""
    import puncturedfem as pf
    shape, l = SHAPE[rec["id"]], rec["l"]
    m = len(shape.edges)
    order = [(k * (l["step"] if np.gcd(l["step"], m) == 1 else 1) + l["turn"]) % m for k in range(m)]
    sides = [1 if (k + l["side"]) % 2 or l["side"] == 2 else -1 for k in range(m)]
    K, _ = build_cell(shape, order, sides, cell=3, other=7)
    for n in ((64, 32, 64) if not THOROUGH else (64, 32, 20, 48, 64)):
        K.parameterize(pf.get_quad_dict(n=n), compute_interior_points=False)
        vals = {}
        for (a, b), v in VALUE[rec["id"]].items():
            if n < 32 and a + b > 3:
                continue
            want = value(v)
            mag = magnitude(shape, a, b)
            got = integral(K, [(1.0, a, b)])
            expect(abs(got - want) <= tol_for(shape, n, mag),
                   f"integral of x^{a} y^{b} with n={n}: {got!r}, specified {want!r}")
            vals[(a, b)] = (got, mag)
        rnd = np.random.default_rng(SEED + n)
        keys = list(vals)
        for _ in range(4):
            t = {keys[i]: float(rnd.integers(-5, 6)) / 2 for i in rnd.integers(0, len(keys), 4)}
            got = integral(K, [(c, *k) for k, c in t.items()])
            want = sum(c * value(VALUE[rec["id"]][k]) for k, c in t.items())
            expect(abs(got - want) <= sum(abs(c) * tol_for(shape, n, vals[k][1]) for k, c in t.items()) + 1e-12,
                   f"integral of {t}: {got!r}, specified {want!r}")
        same(float(integral(K, [])), 0.0, "integral of zero")


def mono(rec):
    """Nothing left out of the table."""
    expect((rec["a"], rec["b"]) in VALUE[rec["id"]], "value of a monomial")


def cut(rec):
    """The two halves of a polygon cut along a curve."""
    import puncturedfem as pf
    _, pts, i, j = [c for c in CUTS if c[0] == rec["id"]][0]
    want = value(rec["v"])
    verts = [pf.Vert(float(x), float(y)) for x, y in pts]
    m = len(pts)
    scale = 6 * max(max(abs(c) for c in p) for p in pts) ** (rec["a"] + rec["b"] + 2)
    for opts in (dict(curve_type="line"), dict(curve_type="sine_wave", amp=0.15, freq=1),
                 dict(curve_type="sine_wave", amp=-0.1, freq=2), dict(curve_type="circular_arc_deg", theta0=60)):
        def side(k):
            return 0 if i <= k < j else 1
        edges = [pf.Edge(verts[k], verts[(k + 1) % m], pos_cell_idx=side(k), neg_cell_idx=-1) for k in range(m)]
        edges.append(pf.Edge(verts[j], verts[i], pos_cell_idx=0, neg_cell_idx=1, **opts))
        mesh = pf.PlanarMesh(edges, verbose=False)
        got = 0.0
        for c in (0, 1):
            K = mesh.get_cell(c)
            K.parameterize(pf.get_quad_dict(n=64), compute_interior_points=False)
            got += integral(K, [(1.0, rec["a"], rec["b"])])
        expect(abs(got - want) <= 1e-9 * scale, f"halves cut along {opts}: {got!r}, specified {want!r}")


def run(chk):
    top = 8 if THOROUGH else 6
    monos = [(d - j, j) for d in range(top + 1) for j in range(d + 1)]
    high = [(d - j, j) for d in range(13 if THOROUGH else 11) for j in range(d + 1)]
    big = [s for s in EXACT if s.name == "x-ell-3"]
    listings = "={[turn |-> 0, step |-> 1, side |-> 2], [turn |-> 1, step |-> 5, side |-> 0], " \
               "[turn |-> 2, step |-> 7, side |-> 1]}"
    cuts = "=<<" + ", ".join(exact_tla(Shape(c[0], ring(c[1]))) for c in CUTS) + ">>"
    recs = []
    for name, shapes, ms in (("all", [s for s in EXACT if s not in big], monos if not THOROUGH else monos[:36]),
                             ("big", big, [m for m in monos if sum(m) <= 3]), ("small", SMALL, high)):
        r = chk.tlc("PolyIntegral", cfg(invariants=["Laws", "Emit"]), name=name, consts=dict(
            Shapes="=<<" + ", ".join(exact_tla(s) for s in shapes) + ">>", Monos=ms,
            Listings=listings, Cuts=cuts if name == "all" else "=<<>>"))
        recs += r.records
    chk.exhaustive = True
    for x in recs:
        if x["kind"] == "mono":
            VALUE.setdefault(x["id"], {})[(x["a"], x["b"])] = x["v"]
    fn = dict(mono=mono, listing=listing, cut=cut)
    chk.run_cases([(f"{x['kind']}:{x['id']} {x.get('a', '')} {x.get('b', '')} {x.get('l', '')}", fn[x["kind"]], (x,), x)
                   for x in recs])
    for k, m in (("mono", 300), ("listing", 42), ("cut", 80)):
        chk.need(k, m)
