"""C25: vertices and monomials as values."""
import numpy as np

from harness.core import SEED, THOROUGH, cfg, close, expect, frac, rejected, same


def q(n, d=1):
    return f"<<{n}, {d}>>"


def vert(x, y, k=-1):
    return f"[x |-> {x}, y |-> {y}, idx |-> {k}]"


def mono(c, i, j):
    return f"[c |-> {c}, i |-> {i}, j |-> {j}]"


VERTS = [[vert(q(3), q(4), 5), vert(q(-1, 2), q(2)), vert(q(0), q(1), 0)],
         [vert(q(5), q(-12), 2), vert(q(5), q(-12), 9), vert(q(0), q(0))]]
MONOS = [[mono(q(3), 2, 1), mono(q(-1, 2), 2, 1), mono(q(1), 0, 0)],
         [mono(q(5), 0, 3), mono(q(0), 1, 1), mono(q(5), 3, 0)],
         [mono(q(2), 0, 9), mono(q(1, 2), 8, 1), mono(q(-3), 9, 0)]]


def num(c, k=0):
    """A rational as one of the numbers a program may use."""
    v = frac(c)
    if v == int(v):
        return (int(v), float(v))[k % 2]
    return float(v)


def step(v, h, make, bad, k):
    """One operation; the operands keep their values."""
    op, a, b = h["op"], v.get(h.get("a")), v.get(h.get("b"))
    c = num(h["c"], k) if "c" in h else None
    ops = {
        "add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "div": lambda: a / b,
        "muls": lambda: a * c, "rmuls": lambda: c * a, "divs": lambda: a / c, "neg": lambda: -a,
        "copy": lambda: a.copy(), "deriv": lambda: a.partial_deriv(h["v"]),
        "grad": lambda: a.grad()["xy".index(h["v"])],
    }
    if op in ops:
        if h.get("bad"):
            with rejected(f"{op} {h}", bad):
                ops[op]()
            return
        r = ops[op]()
        expect(all(r is not x for x in v.values()), f"{op} returned an operand")
        v[h["d"]] = r
    elif op == "alias":
        v[h["d"]] = a
    elif op == "setc":
        a.set_coord(c, num(h["e"], k + 1))
    elif op == "seti":
        a.set_idx(h["k"])
    elif op == "badset":
        for f in (lambda: a.set_coord("1", 2.0), lambda: a.set_coord(1.0, None), lambda: a.set_idx(1.5),
                  lambda: a.set_idx("1"), lambda: a.set_coord(1.0, [2.0])):
            with rejected("setting a vertex", TypeError):
                f()
    elif op == "setcoef":
        a.set_coef(float(c))
    elif op == "setidx":
        a.set_multidx_from_idx(h["k"])
    elif op == "swap":
        from puncturedfem.locfun.poly.multi_index import MultiIndex
        a.set_multidx(MultiIndex([b.alpha.y, b.alpha.x]))
    else:
        raise KeyError(op)


def replay_vert(rec):
    import puncturedfem as pf
    v = {}
    for k, h in enumerate(rec["hist"]):
        if h["op"] == "start":
            v = {i + 1: pf.Vert(num(p["x"], i), num(p["y"], i), p["idx"]) if p["idx"] >= 0 else pf.Vert(num(p["x"], i), num(p["y"]))
                 for i, p in enumerate(h["p"])}
        else:
            step(v, h, None, (ZeroDivisionError, TypeError), k)
    for k, p in enumerate(rec["now"]):
        a = v[k + 1]
        x, y = frac(p["x"]), frac(p["y"])
        expect(isinstance(a.x, float) and isinstance(a.y, float), "coordinates are floats")
        close([a.x, a.y], [x, y], 1e-13, "coordinates")
        close(a.get_coord(), [x, y], 1e-13, "get_coord")
        arr = a.get_coord_array()
        same(arr.shape, (2,), "shape of get_coord_array")
        close(arr, [x, y], 1e-13, "get_coord_array")
        arr += 1.0
        close([a.x, a.y], [x, y], 1e-13, "coordinates after changing the array")
        same(a.idx, p["idx"], "number of a vertex")
        for n2 in rec["more"][k]["n2"]:
            close(a.norm() ** 2, frac(n2), 1e-12 * max(1, frac(n2)), "norm")
        expect(str(a) == repr(a) and str(a.x) in str(a) and str(a.y) in str(a) and str(a.idx) in str(a), f"description {a}")
        # equality ignores what rounding leaves, and nothing else
        near, far = pf.Vert(a.x + 4e-13, a.y - 4e-13), pf.Vert(a.x + 4e-11, a.y)
        expect(a == near and not a != near and a != far and not a == far and a != pf.Vert(a.x, a.y - 4e-11), "equality up to rounding")
        expect(not a == (a.x, a.y) and a != "vertex" and not a == None, "a vertex is not something else")  # noqa: E711
        for name, f in {"v + 1": lambda: a + 1, "v - 1": lambda: a - 1.0, "v * str": lambda: a * "x", "v / str": lambda: a / "x",
                        "str * v": lambda: "x" * a, "v * None": lambda: a * None, "v + None": lambda: a + None}.items():
            with rejected(name, TypeError):
                f()
    for a in v:
        for b in v:
            same(bool(v[a] == v[b]), rec["eq"][a - 1][b - 1], f"{a} == {b}")
            same(bool(v[a] != v[b]), not rec["eq"][a - 1][b - 1], f"{a} != {b}")
            same(v[a] is v[b], rec["ref"][a - 1] == rec["ref"][b - 1], f"{a} is {b}")


def replay_mono(rec):
    from puncturedfem.locfun.poly.monomial import Monomial
    from puncturedfem.locfun.poly.multi_index import MultiIndex
    from puncturedfem.locfun.poly.poly_exceptions import InvalidVariableError
    v = {}
    for k, h in enumerate(rec["hist"]):
        if h["op"] == "start":
            v = {i + 1: Monomial(MultiIndex([m["i"], m["j"]]), float(frac(m["c"]))) for i, m in enumerate(h["p"])}
        else:
            step(v, h, None, (ValueError, InvalidVariableError), k)
    x, y = np.array([2.0, 0.0, -1.0, 0.5]), np.array([-3.0, 0.0, 1.0, 0.0])
    for k, m in enumerate(rec["now"]):
        a, c, w = v[k + 1], frac(m["c"]), rec["more"][k]
        same((a.alpha.x, a.alpha.y, a.alpha.order, a.alpha.idx), (m["i"], m["j"], m["i"] + m["j"], w["idx"]), "multi-index")
        close(a.coef, c, 1e-13, "coefficient")
        same(bool(a.is_zero()), c == 0, "zero")
        for t in w["at"]:
            close(a.eval(2.0, -3.0), frac(t), 1e-12 * max(1, abs(frac(t))), "value at a point")
            val = a.eval(x, y)
            same(np.shape(val), x.shape, "shape of the values")
            close(val, c * x ** m["i"] * y ** m["j"], 1e-12 * max(1, abs(frac(t))), "values at points")
            close(a.eval(x, -3.0), c * x ** m["i"] * (-3.0) ** m["j"], 1e-12 * max(1, abs(frac(t))), "values on a horizontal line")
            close(a.eval(2.0, y), c * 2.0 ** m["i"] * y ** m["j"], 1e-12 * max(1, abs(frac(t))), "values on a vertical line")
        for name, f in {"m + 1": lambda: a + 1, "m * str": lambda: a * "x", "str * m": lambda: "x" * a, "m == 1": lambda: a == 1,
                        "m > 1": lambda: a > 1, "m + None": lambda: a + None, "alpha + 1": lambda: a.alpha + 1,
                        "alpha == list": lambda: a.alpha == [m["i"], m["j"]]}.items():
            with rejected(name, TypeError):
                f()
        same((a.alpha.x, a.alpha.y), (m["i"], m["j"]), "multi-index after all")
    for a in v:
        for b in v:
            same(bool(v[a] == v[b]), rec["eq"][a - 1][b - 1], f"{a} == {b}")
            same(bool(v[a] > v[b]), rec["gt"][a - 1][b - 1], f"{a} > {b}")
            same(v[a] is v[b], rec["ref"][a - 1] == rec["ref"][b - 1], f"{a} is {b}")


def run(chk):
    cases = []
    for kind, seeds, fn in (("vert", VERTS, replay_vert), ("mono", MONOS, replay_mono)):
        sd = "=<<" + ", ".join("<<" + ", ".join(s) + ">>" for s in seeds) + ">>"
        base = dict(Kind=kind, Seeds=sd, Exact=60)
        one = chk.tlc("Values", cfg(invariants=["Laws", "Emit"]), name=f"{kind}: one operation", consts=dict(base, MaxLen=1, EmitAll=True))
        two = chk.tlc("Values", cfg(invariants=["Laws", "Emit"]), name=f"{kind}: two operations", consts=dict(base, MaxLen=2, EmitAll=False))
        sim = chk.tlc("Values", cfg(invariants=["Emit"]), name=f"{kind}: histories", consts=dict(base, MaxLen=7, EmitAll=False),
                      simulate=400 if THOROUGH else 40, depth=9, seed=SEED)
        for name, recs, k in (("one", one.records, 10 ** 6), ("two", two.records, 10 ** 6 if THOROUGH else 4000),
                              ("long", sim.records, 40000 if THOROUGH else 3000)):
            for x in chk.pick(recs, k):
                nm = " ".join("".join(str(h.get(f, "")) for f in ("op", "d", "a", "b", "k", "v")) + str(h.get("c", "")) for h in x["hist"][1:])
                cases.append((f"{kind}-{name}:{nm}", fn, (x,), x))
    chk.run_cases(cases, timeout=20)
    for k in ("vert", "mono"):
        chk.need(f"{k}-one", 60)
        chk.need(f"{k}-two", 2000)
        chk.need(f"{k}-long", 1000)
