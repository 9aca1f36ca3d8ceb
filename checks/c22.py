"""C22: bilinear forms against BilForm.tla."""
from fractions import Fraction

import numpy as np

from harness import locfun as lf
from harness.core import THOROUGH, cfg, close, expect, frac, same
from harness.shapes import BY_NAME, exact_tla

CELLS = ["x-square", "x-annulus", "x-tri-circ", "x-sq-2", "x-circ-2", "x-kite", "x-disc"]
FUNS = [[(1, 0, 0)], [(1, 1, 0), (-2, 0, 1)], [(1, 2, 0), (-1, 0, 2), (3, 0, 0)], [(2, 1, 1), (1, 1, 0)], [(1, 2, 0), (1, 0, 1)], [(1, 0, 3), (-1, 2, 1)]]
LOADS = [[(1, 0, 0)], [], [(2, 1, 0), (-1, 0, 1)], [(1, 1, 1), (-3, 0, 0), (1, 2, 0)], [(-2, 0, 0)], [(-3, 0, 2)], [(1, 3, 0), (2, 0, 2)]]
STARTS = [((1, 1), (0, 1), 1), ((0, 1), (1, 1), 3), ((5, 2), (-3, 4), 4), ((-2, 1), (3, 1), 2), ((0, 1), (0, 1), 1)]
CACHE = {}


def terms(p):
    return "<<" + ", ".join(f"<<<<{c}, 1>>, {i}, {j}>>" for c, i, j in p) + ">>"


def setup(name):
    if name not in CACHE:
        import puncturedfem as pf
        s = BY_NAME[name]
        K, ny = lf.cell(name, 32)
        x, y = lf.boundary(K)
        out = []
        for p in FUNS:
            f = lf.Fun(s, {(i, j): float(c) for c, i, j in p})
            out.append(pf.LocalPoissonFunction(ny, laplacian=f.poly(f.lap_poly()), trace=f(x, y), evaluate_interior=False))
        CACHE[name] = out
    return CACHE[name]


def num(v):
    return float(frac(v[0])) + np.pi * float(frac(v[1]))


def number(v, k):
    """A constant as users give it: int, float or a numpy number."""
    v = Fraction(*v)
    if v.denominator == 1 and k % 2:
        return int(v)
    return [float(v), np.float64(v)][k % 3 == 0]


def load(pf, k):
    return pf.Polynomial([(float(c), i, j) for c, i, j in LOADS[k - 1]])


def replay(rec, k):
    import puncturedfem as pf
    V = setup(rec["cell"])
    n = len(V)
    traces = [np.array(v.get_trace_values()) for v in V]
    forms, polys = [None, None], [None, None]
    for h in rec["hist"]:
        s = h["s"] - 1
        if h["op"] == "new":
            D, R, f = h["v"]
            polys[s] = load(pf, f)
            forms[s] = pf.BilinearForm(number(D, k), number(R, k + 1), polys[s]) if k % 2 else pf.BilinearForm(
                diffusion_constant=number(D, k), reaction_constant=number(R, k + 1), rhs_poly=polys[s])
        elif h["op"] == "D":
            forms[s].set_diffusion_constant(number(h["v"], k))
        elif h["op"] == "R":
            forms[s].set_reaction_constant(number(h["v"], k))
        else:
            polys[s] = load(pf, h["v"])
            forms[s].set_rhs_poly(polys[s])
        if k % 3 == 0 and forms[0] is not None:      # used in between
            forms[0].eval(V[1], V[2]), forms[0].eval_rhs(V[1])
    h1 = np.array([[num(x) for x in r] for r in rec["h1"]])
    l2 = np.array([[num(x) for x in r] for r in rec["l2"]])
    e, m = np.sqrt(np.maximum(np.diag(h1), 1)), np.sqrt(np.diag(l2))
    vol = num(rec["l2"][0][0])
    for s in (0, 1):
        if not rec["now"][s]:
            continue
        w, B = rec["now"][s][0], forms[s]
        D, R = float(frac(w["D"])), float(frac(w["R"]))
        H, L, A = np.zeros((n, n)), np.zeros((n, n)), np.zeros((n, n))
        for i in range(n):
            for j in range(n):
                H[i, j], L[i, j], A[i, j] = B.eval_h1(V[i], V[j]), B.eval_l2(V[i], V[j]), B.eval(V[i], V[j])
        want = np.array([[num(x) for x in r] for r in w["a"]])
        zh, zl = np.outer(e, e), np.outer(m, m)
        close(H / zh, h1 / zh, 1e-6, "H1 part")
        close(L / zl, l2 / zl, 1e-6, "L2 part")
        close((A - want) / (abs(D) * zh + abs(R) * zl + 1e-300), 0 * A, 1e-6, "value of the form")
        close(A, A.T, 1e-5 * (abs(D) * zh.max() + abs(R) * zl.max()) + 1e-300, "symmetry of the form")
        close((A - D * H - R * L) / (abs(D) * zh + abs(R) * zl + 1e-300), 0 * A, 1e-13, "the form and its parts")
        same((float(B.diffusion_constant), float(B.reaction_constant)), (D, R), "constants of the form")
        for p, q in ((0.0, 0.0), (1.0, 0.0), (0.0, 1.0), (-3.5, 2.25), (1e8, -1e-3), (7, -2)):
            close(B.eval_with_h1_and_l2(p, q), D * p + R * q, 1e-14 * (abs(D * p) + abs(R * q)), f"the form from its parts {p}, {q}")
        b = np.array([B.eval_rhs(v) for v in V])
        wb = np.array([num(x) for x in w["b"]])
        sz = m * np.sqrt(vol) * (1 + max([abs(c) * 4.0 ** (i + j) for c, i, j in LOADS[w["f"] - 1]], default=0))
        close(b / sz, wb / sz, 1e-6, "right-hand side")
        for val in (B.eval_rhs(V[0]), B.eval(V[0], V[1])):
            expect(isinstance(val, (float, int)), f"type of a value: {type(val).__name__}")
        text = str(B)
        expect(str(B.diffusion_constant) in text and str(B.reaction_constant) in text, f"the description names the constants: {text!r}")
        expect(str(load(pf, w["f"])) in text, f"the description names the right-hand side: {text!r}")
        for c, name in (("D", "set_diffusion_constant"), ("R", "set_reaction_constant")):
            T = pf.BilinearForm(B.diffusion_constant, B.reaction_constant, B.rhs_poly)
            same(str(T), text, "description of an equal form")
            getattr(T, name)(-777.125)
            expect("-777.125" in str(T) and str(T) != text, f"{c} is described")
        t = [(float(c), i, j) for c, i, j in LOADS[w["f"] - 1]]
        same(sorted((float(mm.coef), int(mm.alpha.x), int(mm.alpha.y)) for mm in polys[s].monos if mm.coef), sorted(t), "the given right-hand side")
    for v, t in zip(V, traces):
        close(v.get_trace_values(), t, 0, "trace of a function after it was used")


def qs(vs):
    return "={" + ", ".join(f"<<{a}, {b}>>" for a, b in vs) + "}"


def run(chk):
    r = chk.tlc("BilForm", cfg(invariants=["LawsOnce", "Emit"]), consts=dict(
        Cells="=<<" + ", ".join(exact_tla(BY_NAME[c]) for c in CELLS) + ">>",
        Funs="=<<" + ", ".join(map(terms, FUNS)) + ">>", Loads="=<<" + ", ".join(map(terms, LOADS)) + ">>",
        Starts="=<<" + ", ".join(f"<<<<{a}, {b}>>, <<{c}, {d}>>, {f}>>" for (a, b), (c, d), f in STARTS) + ">>",
        Ds=qs([(0, 1), (1, 1), (-7, 4)]), Rs=qs([(0, 1), (2, 1), (-1, 8)]), MaxOps="=3"))
    recs = sorted(r.records, key=lambda x: str(x["hist"]))
    for c in CELLS:
        setup(c)
    todo = [x for x in recs if len(x["hist"]) == 1] + chk.pick([x for x in recs if len(x["hist"]) > 1], 3000 if THOROUGH else 250, 2)
    chk.run_cases([(f"form:{x['cell']}-{k}", replay, (x, k), dict(hist=x["hist"], cell=x["cell"])) for k, x in enumerate(todo)])
    chk.need("form", 200)
