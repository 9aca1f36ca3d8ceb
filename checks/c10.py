"""C10: polynomial arithmetic over histories with shared objects."""
import numpy as np

from harness.core import (SEED, THOROUGH, Mismatch, cfg, close, expect, frac,
                          rejected, same)

SEEDS = [
    [[((1, 1), 1, 0), ((-2, 1), 0, 0)], [((1, 1), 1, 0), ((1, 1), 0, 1)], []],
    [[((1, 2), 2, 0), ((-1, 2), 0, 2)], [((3, 1), 1, 1), ((1, 1), 0, 0)], [((1, 1), 0, 1), ((1, 1), 0, 1)]],
    [[((5, 1), 0, 0)], [((-5, 1), 0, 0)], [((1, 1), 0, 3), ((2, 1), 3, 0), ((-1, 1), 0, 3), ((7, 4), 1, 1)]],
]


def num(c):
    v = frac(c)
    return int(v) if v == int(v) and c[0] % 3 == 0 else v


def terms(p):
    return [(float(m.coef), m.alpha.x, m.alpha.y) for m in p.monos]


def want_terms(t):
    return [(frac(c), i, j) for c, i, j in t]


def check_poly(p, t, what):
    got, want = terms(p), want_terms(t)
    same([x[1:] for x in got], [x[1:] for x in want], what + ": terms")
    close([x[0] for x in got], [x[0] for x in want], 1e-13, what + ": coefficients")
    for m in p.monos:
        a = m.alpha
        same((a.order, a.idx), (a.x + a.y, a.y + (a.x + a.y) * (a.x + a.y + 1) // 2), what + ": multi-index")


def play(hist):
    import puncturedfem as pf
    P = pf.Polynomial
    v = {}
    for h in hist:
        op = h["op"]
        if op == "start":
            v = {k + 1: P([(frac(c), i, j) for c, i, j in t]) for k, t in enumerate(h["p"])}
            continue
        a, b = v.get(h.get("a")), v.get(h.get("b"))
        c = num(h["c"]) if "c" in h else None
        d = h.get("d")
        old = a
        if op == "add": v[d] = a + b
        elif op == "sub": v[d] = a - b
        elif op == "mul": v[d] = a * b
        elif op == "adds": v[d] = a + c
        elif op == "radds": v[d] = c + a
        elif op == "subs": v[d] = a - c
        elif op == "rsubs": v[d] = c - a
        elif op == "muls": v[d] = a * c
        elif op == "rmuls": v[d] = c * a
        elif op == "divs": v[d] = a / c
        elif op == "neg": v[d] = -a
        elif op == "pow": v[d] = a.pow(h["k"])
        elif op == "**": v[d] = a ** h["k"]
        elif op == "copy": v[d] = a.copy()
        elif op == "alias": v[d] = a
        elif op == "iadd":
            a += b
            expect(a is old, "+= makes a new object")
            v[h["a"]] = a
        elif op == "iadds":
            a += c
            expect(a is old, "+= makes a new object")
            v[h["a"]] = a
        elif op == "isub":
            a -= b
            v[h["a"]] = a
        elif op == "imul":
            a *= b
            v[h["a"]] = a
        elif op == "imuls":
            a *= c
            v[h["a"]] = a
        elif op == "addmonos": a.add_monomials(b.monos)
        elif op == "set": a.set([(frac(x), i, j) for x, i, j in h["l"]])
        elif op == "addidx": a.add_monomial_with_idx(c, h["k"])
        elif op == "addidxs": a.add_monomials_with_idxs([frac(x) for x, _ in h["l"]], [k for _, k in h["l"]])
        elif op == "zero": a.set_to_zero()
        else: raise KeyError(op)
        if d:
            expect(op == "alias" or all(v[d] is not x for k, x in v.items() if k != d),
                   f"{op} returned one of its operands")
    return v


def replay(rec):
    import puncturedfem as pf
    v = play(rec["hist"])
    for k, t in enumerate(rec["now"]):
        check_poly(v[k + 1], t, f"variable {k + 1}")
    for a in v:
        for b in v:
            same(bool(v[a] == v[b]), rec["eq"][a - 1][b - 1], f"{a} == {b}")
            same(bool(v[a] != v[b]), not rec["eq"][a - 1][b - 1], f"{a} != {b}")
        for x in rec["at"][a - 1]:
            close(v[a](2.0, -1.0), frac(x), 1e-13, f"variable {a} at (2, -1)")
        same(v[a].is_zero(), rec["now"][a - 1] == [], f"variable {a} is zero")
    # the same polynomial built in other ways is equal to it
    for k, t in enumerate(rec["now"]):
        q = pf.Polynomial([(frac(c) / 2, i, j) for c, i, j in reversed(t)] + [(frac(c) / 2, i, j) for c, i, j in t])
        expect(q == v[k + 1] and v[k + 1] == q, "equality with the polynomial built from halves")
        check_poly(q, t, "built from halves")
        r = pf.Polynomial()
        for c, i, j in reversed(t):
            for m in pf.Polynomial([(frac(c) / 4, i, j)]).monos:
                for _ in range(4):
                    r.add_monomial(m)
        expect(r == v[k + 1] and v[k + 1] == r, "equality before the terms are collected")
        check_poly(r.copy(), t, "copy of uncollected terms")
        if t:
            expect(not v[k + 1] == v[k + 1] + 1 and not v[k + 1] == 2 * v[k + 1], "inequality")
        # negating the terms leaves the polynomial alone
        neg = [-m for m in v[k + 1].monos]
        check_poly(v[k + 1], t, "after negating its terms")
        close([m.coef for m in neg], [-frac(c) for c, _, _ in t], 1e-13, "negated terms")
    for k, t in enumerate(rec["now"]):
        check_poly(v[k + 1], t, f"variable {k + 1} at the end")


def faults(_):
    import puncturedfem as pf
    from puncturedfem.locfun.poly.multi_index import MultiIndex
    P = pf.Polynomial
    mk = lambda: P([(1, 1, 0), (2, 0, 1)])  # noqa: E731
    bad = {
        "p + str": lambda p: p + "x", "str + p": lambda p: "x" + p, "p + None": lambda p: p + None,
        "p * None": lambda p: p * None, "p * list": lambda p: p * [1, 2], "p / p": lambda p: p / p,
        "p / str": lambda p: p / "2", "p - str": lambda p: p - "x", "p ** -1": lambda p: p ** -1,
        "p ** 0.5": lambda p: p ** 0.5, "p.pow(-2)": lambda p: p.pow(-2), "p == 3": lambda p: p == 3,
        "p += str": lambda p: p.__iadd__("x"), "pair": lambda p: P([(1.0, 2)]),
        "negative exponent": lambda p: P([(1.0, -1, 0)]), "float exponent": lambda p: P([(1.0, 0.5, 0)]),
        "idx lists": lambda p: p.add_monomials_with_idxs([1.0], [1, 2]),
        "deriv z": lambda p: p.partial_deriv("z"), "index of 3": lambda p: MultiIndex([1, 2, 3]),
        "index tuple": lambda p: MultiIndex((1, 2)), "negative index": lambda p: MultiIndex([0, -1]),
    }
    for name, f in bad.items():
        p = mk()
        with rejected(name):
            f(p)
        check_poly(p, [((1, 1), 1, 0), ((2, 1), 0, 1)], f"operand after {name}")
    expect(P() == P([]) and P().is_zero() and P([(0.0, 1, 1)]).is_zero(), "zero polynomial")
    expect(repr(P()) and repr(mk()) and str(mk()), "repr")
    seen = {}
    for k in range(0, 3000):
        a = MultiIndex()
        a.set_from_idx(k)
        same(a.idx, k, "index of a numbered multi-index")
        same(a.order, a.x + a.y, "order")
        seen[(a.x, a.y)] = k
        b = a.copy()
        expect(a == b and b is not a, "copy of a multi-index")
        s = a + b
        same((s.x, s.y), (2 * a.x, 2 * a.y), "sum of multi-indices")
    same(len(seen), 3000, "numbered multi-indices")
    order = sorted(seen, key=lambda m: (m[0] + m[1], m[1]))
    same([seen[m] for m in order], list(range(3000)), "graded order")


def run(chk):
    seeds = "=<<" + ", ".join("<<" + ", ".join("<<" + ", ".join(
        f"<<<<{c[0]}, {c[1]}>>, {i}, {j}>>" for c, i, j in t) + ">>" for t in s) + ">>" for s in SEEDS) + ">>"
    base = dict(Seeds=seeds, MaxDeg=6)
    inv = ["RingLaws", "IdxBijection", "Emit"]
    r1 = chk.tlc("PolyHeap", cfg(invariants=inv), name="one operation", consts=dict(base, MaxLen=1, EmitAll=True))
    r2 = chk.tlc("PolyHeap", cfg(invariants=["Emit"]), name="histories", consts=dict(base, MaxLen=6, EmitAll=False),
                 simulate=600 if THOROUGH else 60, depth=8, seed=SEED)
    r3 = chk.tlc("PolyHeap", cfg(invariants=["Emit"]), name="long histories",
                 consts=dict(base, MaxLen=14, EmitAll=False),
                 simulate=300 if THOROUGH else 20, depth=16, seed=SEED + 1)
    cases = [("faults:", faults, (None,), None)]
    for kind, recs, k in (("one", r1.records, 10 ** 6), ("some", r2.records, 60000 if THOROUGH else 5000),
                          ("long", r3.records, 40000 if THOROUGH else 2500)):
        for x in chk.pick(recs, k):
            nm = " ".join("".join(str(h.get(f, "")) for f in ("op", "d", "a", "b", "k")) + (str(h["c"]) if "c" in h else "")
                          for h in x["hist"][1:])
            cases.append((f"{kind}:{x['now'] and nm}", replay, (x,), x))
    chk.run_cases(cases, timeout=20)
    for k, m in (("one", 500), ("some", 2000), ("long", 1000), ("faults", 1)):
        chk.need(k, m)
