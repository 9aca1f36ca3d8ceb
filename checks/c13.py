"""C13: histories of assignments and arithmetic on Dirichlet traces."""
import numpy as np

from harness.core import SEED, THOROUGH, cfg, close, expect, frac, rejected, same
from harness.shapes import BY_NAME, build_cell

BY_EDGES = {1: ["disc"], 2: ["annulus", "lens"], 3: ["triangle"], 4: ["x-tri-circ", "square"], 6: ["tri-tri"]}


def f(x, y):
    return np.sin(x) + 0.3 * y


def g(x, y):
    return 2.0 if x > 1 else x * y - 1.0


def one_arg(x):
    return x


class World:
    def __init__(self, shape, n, order_seed):
        import puncturedfem as pf
        self.pf = pf
        s = BY_NAME[shape]
        rnd = np.random.default_rng(order_seed)
        m = len(s.edges)
        order = list(rnd.permutation(m))
        self.K, _ = build_cell(s, order, [int(x) for x in rnd.choice([1, -1], m)])
        self.fun = dict(f=f, g=g, p=pf.Polynomial([(1.0, 2, 0), (-0.5, 0, 1)]), q=pf.Polynomial([(2.0, 0, 0), (1.0, 1, 1)]))
        self.sample(n)

    def sample(self, n):
        d = self.pf.get_quad_dict(n=n)
        d["kress"] = self.pf.get_quad_dict(n=4 + n * 5 % 7)["kress"]    # the two rules need not agree
        self.K.parameterize(d, compute_interior_points=False)
        self.edges = self.K.get_edges()
        x, y = self.K.get_boundary_points()
        N = len(x)
        rnd = np.random.default_rng(N)
        val = {k: np.array([float(h(a, b)) for a, b in zip(x, y)]) for k, h in self.fun.items()}
        val["one"] = np.ones(N)
        val["a"], val["b"] = rnd.normal(size=N), rnd.normal(size=N)
        self.atom, self.N = val, N
        cut = np.cumsum([0] + [e.num_pts - 1 for e in self.edges])
        same(int(cut[-1]), N, "points of the edges and of the cell")
        self.sl = [slice(int(a), int(b)) for a, b in zip(cut[:-1], cut[1:])]

    def want(self, vecs):
        out = np.zeros(self.N)
        for sl, v in zip(self.sl, vecs):
            for name, c in v:
                out[sl] += frac(c) * self.atom[name][sl]
        return out

    def items(self, l):
        return [2.5 if x == "#" else self.atom[x][sl].copy() for x, sl in zip(l, self.sl)]


def num(c):
    v = frac(c)
    return int(v) if c[0] == 3 else v


def play(w, hist):
    DT = w.pf.DirichletTrace
    t = {}
    for h in hist:
        op, k = h["op"], h.get("t")
        x = t.get(k)
        F = w.fun.get(h.get("x"))
        A = w.atom[h["x"]].copy() if h.get("x") in ("a", "b") else None
        e = h["e"] - 1 if "e" in h else None
        c = num(h["c"]) if "c" in h else None
        fl = [w.fun[y] for y in h["l"]] if "l" in h and "#" not in h["l"] and h["l"][0] in w.fun else None
        keep = list(fl) if fl else None
        vl = w.items(h["l"]) if "l" in h and not fl else None
        if op == "new-fun": t[k] = DT(w.K if h["via"] == "cell" else w.edges, funcs=F)
        elif op == "new-funs": t[k] = DT(w.K, funcs=fl)
        elif op == "new-const": t[k] = DT(edges=w.edges, values=c)
        elif op == "new-array": t[k] = DT(w.K, values=A)
        elif op == "new-list": t[k] = DT(w.K, values=vl)
        elif op == "new-default":
            t[k] = DT(w.K)
            t[k].find_values()
        elif op == "new-custom":
            t[k] = DT(w.edges, custom=True)
            t[k].set_trace_values(A)
        elif op == "set-fun": x.set_funcs(F)
        elif op == "set-funs":
            x.set_funcs(fl, compute_vals=not h["lazy"])
            if h["lazy"]:
                x.find_values()
        elif op == "set-poly": x.set_funcs_from_polys(F)
        elif op == "set-polys": x.set_funcs_from_polys(fl)
        elif op == "poly-on": x.set_func_from_poly_on_edge(e, F)
        elif op == "set-const": x.set_trace_values(c)
        elif op == "set-array": x.set_trace_values(A)
        elif op == "set-list": x.set_trace_values(vl)
        elif op == "const-on": x.set_trace_values_on_edge(e, c)
        elif op == "array-on": x.set_trace_values_on_edge(edge_index=e, values=A[w.sl[e]])
        elif op == "fun-on":
            x.set_func_on_edge(e, F)
            x.find_values()
        elif op == "deriv":
            (x.set_weighted_normal_derivative if h["w"] == "wn" else x.set_weighted_tangential_derivative)(A)
        elif op == "deriv-on":
            (x.set_weighted_normal_derivative_on_edge if h["w"] == "wn" else
             x.set_weighted_tangential_derivative_on_edge)(e, c)
        elif op == "add": t[k] = t[h["a"]] + t[h["b"]]
        elif op == "sub": t[k] = t[h["a"]] - t[h["b"]]
        elif op == "mul": t[k] = t[h["a"]] * c
        elif op == "rmul": t[k] = c * t[h["a"]]
        elif op == "div": t[k] = t[h["a"]] / c
        elif op == "resample":
            w.sample(h["n"])
            for y in t.values():
                y.find_values()
        elif op == "resample-poly":
            w.sample(h["n"])
            for y in t.values():
                y.set_func_from_poly_on_edge(e, F)
        else: raise KeyError(op)
        if A is not None:       # the caller's array stays his own
            close(A, w.atom[h["x"]], 0, "the caller's array")
            A[:] = np.nan
        if keep:
            expect(len(fl) == len(keep) and all(a is b for a, b in zip(fl, keep)), "the caller's list of functions")
        for a in vl or []:
            if isinstance(a, np.ndarray):
                a[:] = np.nan
    return t


def verify(w, t, now):
    for k, rec in enumerate(now):
        for r in rec:
            x = t[k + 1]
            what = f"trace {k + 1}: "
            same((x.num_edges, int(x.num_pts)), (len(w.edges), w.N), what + "size")
            same([tuple(map(int, x.get_edge_sampled_point_indices(e))) for e in range(len(w.edges))],
                 [(s.start, s.stop) for s in w.sl], what + "edge indices")
            close(x.values, w.want(r["vals"]), 1e-12, what + "values")
            for name, attr in (("wn", "w_norm_deriv"), ("wt", "w_tang_deriv")):
                got = getattr(x, attr)
                if r[name]:
                    expect(got is not None, what + attr + " is lost")
                    close(got, w.want(r[name][0]), 1e-12, what + attr)
                else:
                    expect(got is None, what + attr + " appears")


def replay(rec, shape, n, salt):
    w = World(shape, n, salt)
    t = play(w, rec["hist"])
    verify(w, t, rec["now"])
    if rec["bad"]:
        k = max(i + 1 for i, r in enumerate(rec["now"]) if r)
        for b in rec["bad"]:
            spoil(w, t[k], b)
        verify(w, {j: y for j, y in t.items() if j != k}, [[] if i + 1 == k else r for i, r in enumerate(rec["now"])])


def spoil(w, x, b):
    DT, N, m = w.pf.DirichletTrace, w.N, len(w.edges)
    P = w.fun["p"]
    set_wn, set_wt = x.set_weighted_normal_derivative_on_edge, x.set_weighted_tangential_derivative_on_edge
    calls = {
        "long-array": [lambda: DT(w.K, values=np.zeros(N + 1)), lambda: x.set_trace_values(np.zeros(N + 1))],
        "short-array": [lambda: DT(w.K, values=np.zeros(N - 1)), lambda: x.set_trace_values(np.zeros(N - 1))],
        "short-list": [lambda: x.set_trace_values([np.zeros(w.sl[0].stop)] * (m - 1)), lambda: x.set_trace_values([1.0] * (m - 1))],
        "long-list": [lambda: x.set_trace_values([1.0] * (m + 1)), lambda: DT(w.K, values=[0.5] * (m + 1))],
        "str-item": [lambda: x.set_trace_values(["1"] * m), lambda: x.set_trace_values([None] * m), lambda: x.set_trace_values("1")],
        "edge-high": [lambda: x.set_trace_values_on_edge(m, 1.0), lambda: x.set_func_on_edge(m, f),
                      lambda: x.set_func_from_poly_on_edge(m, P)],
        "edge-negative": [lambda: x.set_trace_values_on_edge(-1, 1.0), lambda: x.set_func_on_edge(-1, f),
                          lambda: x.set_func_from_poly_on_edge(-1, P)],
        "edge-float": [lambda: x.set_func_on_edge(0.0, f), lambda: x.set_func_from_poly_on_edge(0.5, P)],
        "few-funs": [lambda: x.set_funcs([f] * (m - 1)), lambda: DT(w.K, funcs=[P] * (m - 1))],
        "many-funs": [lambda: x.set_funcs([f] * (m + 1)), lambda: DT(w.K, funcs=[P] * (m + 1))],
        "one-argument": [lambda: x.set_funcs(one_arg), lambda: x.set_funcs([one_arg] * m)],
        "not-callable": [lambda: x.set_funcs(3.0), lambda: x.set_funcs([1.0] * m), lambda: DT(w.K, funcs="f")],
        "long-on": [lambda: x.set_trace_values_on_edge(0, np.zeros(w.sl[0].stop + 1))],
        "short-on": [lambda: x.set_trace_values_on_edge(m - 1, np.zeros(w.sl[-1].stop - w.sl[-1].start - 1))],
        "not-poly": [lambda: x.set_func_from_poly_on_edge(0, f), lambda: x.set_func_from_poly_on_edge(0, 1.0)],
        "add-number": [lambda: x + 1], "add-none": [lambda: x + None], "mul-trace": [lambda: x * x],
        "div-zero": [lambda: x / 0, lambda: x / 0.0], "mul-str": [lambda: x * "2"],
        "edges-str": [lambda: DT("edges"), lambda: DT(None)], "edges-mixed": [lambda: DT(w.edges[:1] + [3])],
        "deriv-short": [lambda: x.set_weighted_normal_derivative(np.zeros(N - 1)),
                        lambda: x.set_weighted_tangential_derivative(np.zeros(N + 1))],
        "deriv-edge": [lambda: x.set_weighted_normal_derivative_on_edge(m, 1.0),
                       lambda: x.set_weighted_tangential_derivative_on_edge(-1, 1.0)],
        "polys-mixed": [lambda: x.set_funcs_from_polys([P] * (m - 1) + [f])],
        "unit-on": [lambda: x.set_trace_values_on_edge(0, np.ones(1))],
        "list-short-item": [lambda: x.set_trace_values([1.0] * (m - 1) + [np.ones(1)]), lambda: x.set_trace_values([np.zeros(3)] + [1.0] * (m - 1))],
        "str-on": [lambda: x.set_trace_values_on_edge(m - 1, "1"), lambda: x.set_trace_values_on_edge(0, [1.0]), lambda: x.set_trace_values_on_edge(0, None)],
        "deriv-on-short": [lambda: set_wn(0, np.ones(1)), lambda: set_wt(0, np.ones(1)), lambda: set_wt(m - 1, np.zeros(3)), lambda: set_wn(m - 1, np.zeros(3))],
        "deriv-on-str": [lambda: set_wn(0, "1"), lambda: set_wt(m - 1, None), lambda: set_wt(0, [0.0]), lambda: set_wn(0, [0.0])],
        "deriv-list": [lambda: x.set_weighted_normal_derivative([1.0] * (m + 1)), lambda: x.set_weighted_tangential_derivative([1.0] * (m - 1)),
                       lambda: x.set_weighted_tangential_derivative([1.0] * (m - 1) + [np.ones(1)]),
                       lambda: x.set_weighted_normal_derivative([np.ones(1)] + [1.0] * (m - 1))],
        "first-fun": [lambda: x.set_funcs([one_arg] + [f] * (m - 1)), lambda: x.set_funcs([3.0] + [P] * (m - 1)),
                      lambda: x.set_funcs([f] * (m - 1) + [one_arg])],
        "polys-none": [lambda: x.set_funcs_from_polys(None)],
    }
    for call in calls[b]:
        with rejected(b):
            call()


def run(chk):
    cases = []
    for m, shapes in BY_EDGES.items():
        if m == 6 and not THOROUGH:
            continue
        base = dict(NumEdges=m)
        small = m in (2, 3, 4)
        r1 = chk.tlc("Trace", cfg(invariants=["Laws", "Emit"]), name=f"{m} edges, short",
                     consts=dict(base, MaxLen=2, EmitAll=True))
        rs = [("short", r1.records, 10 ** 6 if THOROUGH else 400)]
        if small or THOROUGH:
            r2 = chk.tlc("Trace", cfg(invariants=["Emit"]), name=f"{m} edges, long", consts=dict(base, MaxLen=8, EmitAll=False),
                         simulate=200 if THOROUGH else 40, depth=9, seed=SEED + m)
            rs.append(("long", r2.records, 10000 if THOROUGH else 1000))
        for kind, recs, k in rs:
            for i, x in enumerate(chk.pick(recs, k, m)):
                s = shapes[i % len(shapes)]
                nm = " ".join("".join(str(h.get(y, "")) for y in ("op", "t", "a", "b", "e", "x", "c", "n")) for h in x["hist"])
                cases.append((f"{kind}:{s} {nm}", replay, (x, s, 4 + i % 5, i % 7), x))
    chk.run_cases(cases, timeout=30)
    for k, m in (("short", 1200), ("long", 1200)):
        chk.need(k, m)
