"""C17: histories of arithmetic on local functions."""
import numpy as np

from checks.c15 import terms
from harness import locfun as lf
from harness.core import SEED, THOROUGH, cfg, close, expect, frac, rejected, same
from harness.shapes import BY_NAME

BASE = {}


def funs(s):
    return [lf.Fun(s, {(0, 0): 1.0, (1, 0): 2.0, (2, 0): 0.5, (1, 1): -0.5}, [0.7, -0.3, 0.2][:s.holes]),
            lf.Fun(s, {(0, 1): 1.0, (3, 0): 0.25, (0, 2): -0.5}, [-1.1, 0.0, 0.6][:s.holes]),
            lf.Fun(s, {(2, 0): 1.0, (0, 2): -1.0}, [0.0, 0.5, 0.0][:s.holes])]


def make(ny, b, full=True):
    F = funs(BY_NAME[ny.name])[b - 1]
    kw = [(True, True), (True, False), (False, False)][0 if full else b - 1]
    return lf.local(ny, F, evaluate_interior=kw[0], evaluate_gradient=kw[1])


def data(f, kind):
    """All data of a function, by name; None for what it does not know."""
    out = {}

    def trace(name, t, wn=True, wt=True):
        out[name + " values"] = t.values
        if wn:
            out[name + " normal derivative"] = t.w_norm_deriv
        if wt:
            out[name + " tangential derivative"] = t.w_tang_deriv
    if kind == "whole":
        for k, v in data(f.harm, "harm").items():
            out["harmonic part: " + k] = v
        for k, v in data(f.poly, "poly").items():
            out["polynomial part: " + k] = v
        out["interior values"], out["interior x derivative"], out["interior y derivative"] = f.int_vals, f.int_grad1, f.int_grad2
        out["trace values"] = f.get_trace_values()
    elif kind == "harm":
        trace("trace", f.trace)
        trace("single-valued part", f.psi, False, False)
        trace("conjugate", f.conj_trace, False, False)
        trace("anti-Laplacian", f.biharmonic_trace, wt=False)
        out["logarithmic coefficients"] = np.array(f.log_coef, dtype=float)
    else:
        out["polynomial"], out["x derivative"], out["y derivative"], out["anti-Laplacian"] = (
            terms(p) for p in (f.exact_form, f.grad1, f.grad2, f.antilap))
        trace("trace", f.trace)
        trace("anti-Laplacian", f.antilap_trace, wt=False)
    return out


def copy(d):
    return {k: v.copy() if v is not None else None for k, v in d.items()}


def base(name, n, antilap):
    key = (name, n, antilap)
    if key not in BASE:
        _, ny = lf.cell(name, n, 1, None, antilap)
        ny.name = name
        fs = [make(ny, b) for b in (1, 2, 3)]
        data_ = {k: [copy(data(f if k == "whole" else getattr(f, k), k)) for f in fs] for k in ("whole", "harm", "poly")}
        gram = {p: np.array([[getattr(f, p)(g) for g in fs] for f in fs]) for p in ("get_l2_inner_prod", "get_h1_semi_inner_prod")}
        BASE[key] = ny, fs, data_, gram
    return BASE[key]


def want_item(vec, items):
    if isinstance(items[0], dict):
        out = {}
        for c, d in zip(vec, items):
            for k, v in d.items():
                out[k] = out.get(k, 0.0) + c * v
        return out
    return sum(c * v for c, v in zip(vec, items))


def check(f, rec, bases, what):
    kind, vec = rec["kind"], [frac(c) for c in rec["vec"]]
    got = data(f, kind)
    for k in got:
        name = f"{what}: {k}"
        if kind == "whole" and k.startswith("interior"):
            known = rec["known"]["v" if k == "interior values" else "g"]
            if not known:
                expect(got[k] is None, name + " appears")
                continue
        expect(got[k] is not None, name + " is lost")
        want = want_item(vec, [b[k] for b in bases[kind]])
        size = 1 + sum(abs(c) * (np.max(np.abs(b[k]), initial=0) if not isinstance(b[k], dict) else 1) for c, b in zip(vec, bases[kind]))
        if isinstance(want, dict):
            for t in set(want) | set(got[k]):
                expect(abs(want.get(t, 0) - got[k].get(t, 0)) <= 1e-11 * size, f"{name}: x^{t[0]} y^{t[1]} has {got[k].get(t, 0)!r}, specified {want.get(t, 0)!r}")
        else:
            close(np.array(got[k]) / size, want / size, 1e-11, name)


def arrays(f, kind):
    if kind == "whole":
        return arrays(f.harm, "harm") + arrays(f.poly, "poly") + [a for a in (f.int_vals, f.int_grad1, f.int_grad2) if a is not None]
    ts = [f.trace, f.psi, f.conj_trace, f.biharmonic_trace] if kind == "harm" else [f.trace, f.antilap_trace]
    return [a for t in ts for a in (t.values, t.w_norm_deriv, t.w_tang_deriv) if isinstance(a, np.ndarray)]


def scribble(f, kind):
    for a in arrays(f, kind):
        a[:] = np.nan
    harm, poly = (f.harm, f.poly) if kind == "whole" else (f, None) if kind == "harm" else (None, f)
    if harm is not None:
        for i in range(len(harm.log_coef)):
            harm.log_coef[i] = np.nan
    if poly is not None:
        for p in (poly.exact_form, poly.grad1, poly.grad2, poly.antilap):
            for m in p.monos:
                m.coef = np.nan


def num(c):
    v = frac(c)
    return int(v) if c[0] == 3 else v


def play(ny, fs, hist):
    v, kind = {}, {}
    for h in hist:
        op, x, y = h["op"], h["x"], h.get("y")
        k = kind.get(y)
        if op == "new":
            v[x], kind[x] = make(ny, h["b"], h["full"]), "whole"
        elif op == "part":
            v[x], kind[x] = getattr(v[y], h["k"]), h["k"]
        elif op == "name":
            v[x], kind[x] = v[y], k
        elif op in ("add", "sub"):
            if h["inplace"]:
                if op == "add":
                    v[x] += v[h["z"]]
                else:
                    v[x] -= v[h["z"]]
            else:
                v[x] = v[y] + v[h["z"]] if op == "add" else v[y] - v[h["z"]]
            kind[x] = k
        elif op in ("mul", "rmul", "div"):
            c = num(h["c"])
            v[x] = v[y] * c if op == "mul" else c * v[y] if op == "rmul" else v[y] / c
            kind[x] = k
        elif op == "scribble":
            scribble(v[x], kind[x])
        elif op == "use":
            use(v[x], kind[x], fs, ny.K)
        else:
            raise KeyError(op)
    return v


def use(f, kind, fs, K):
    from puncturedfem.locfun.inner_prod import h1_semi_inner_prod, l2_inner_prod
    if kind == "whole":
        return [(g.get_l2_inner_prod(f), g.get_h1_semi_inner_prod(f), f.get_l2_inner_prod(g), f.get_h1_semi_inner_prod(g)) for g in fs]
    return [(l2_inner_prod(f, getattr(g, kind), K), h1_semi_inner_prod(f, getattr(g, kind), K)) for g in fs]


def replay(rec, name, n, antilap):
    ny, fs, bases, gram = base(name, n, antilap)
    v = play(ny, fs, rec["hist"])
    live = {k + 1: r[0] for k, r in enumerate(rec["now"]) if r}
    for k, r in live.items():
        check(v[k], r, bases, f"function {k}")
        if r["kind"] == "whole":
            expect(v[k].mesh_cell is ny.K, "cell of the function")
            vec = np.array([frac(c) for c in r["vec"]])
            got = np.array(use(v[k], "whole", fs, ny.K))
            for col, p in enumerate(("get_l2_inner_prod", "get_h1_semi_inner_prod")):
                size = 1 + np.abs(vec) @ np.abs(gram[p]).max(1)
                close(got[:, col] / size, gram[p] @ vec / size, 1e-10, "products with the function")
                close(got[:, col + 2] / size, vec @ gram[p] / size, 1e-10, "products of the function")
    for b in rec["bad"]:
        for k, r in live.items():
            spoil(v[k], r["kind"], b, fs)
    for k, r in live.items():
        check(v[k], r, bases, f"function {k} at the end")
    for kind in bases:
        for b, f in enumerate(fs):
            check(f if kind == "whole" else getattr(f, kind),
                  dict(kind=kind, vec=[[int(i == b), 1] for i in range(3)], known=dict(v=True, g=True)), bases, "the other functions")


def spoil(f, kind, b, fs):
    import puncturedfem as pf
    other = {"whole": fs[0].poly, "harm": fs[0].poly, "poly": fs[0].harm}[kind]
    calls = {"add-number": [lambda: f + 1, lambda: 1.0 + f], "add-none": [lambda: f + None],
             "add-poly-object": [lambda: f + pf.Polynomial([(1.0, 0, 0)])],
             "add-other-kind": [lambda: f + other, lambda: f - other],
             "sub-number": [lambda: f - 1.0], "div-zero": [lambda: f / 0, lambda: f / 0.0],
             "div-fun": [lambda: f / f], "mul-str": [lambda: f * "2", lambda: f * None], "mul-fun": [lambda: f * f]}
    for c in calls[b]:
        with rejected(b):
            c()


def run(chk):
    cases = []
    cells = [("x-square", 16, "fft"), ("x-annulus", 16, "fft"), ("x-circ-2", 16, "direct"), ("x-circ-tri", 16, "fft")]
    if THOROUGH:
        cells += [("x-ell-3", 16, "fft"), ("x-disc", 24, "direct"), ("x-sq-2", 16, "direct")]
    for c in cells:
        base(*c)                      # before forking
    i = 0
    for name, consts, kw in (
            ("short", dict(MaxLen=3 if THOROUGH else 2, EmitAll=True), {}),
            ("medium", dict(MaxLen=4, EmitAll=False), dict(simulate=60 if THOROUGH else 15, depth=5, seed=SEED + 2)),
            ("long", dict(MaxLen=9, EmitAll=False), dict(simulate=20 if THOROUGH else 5, depth=10, seed=SEED)),
            ("longer", dict(MaxLen=14, EmitAll=False), dict(simulate=12 if THOROUGH else 3, depth=15, seed=SEED + 1))):
        inv = ["Emit"] if kw else ["Laws", "Emit"]
        r = chk.tlc("LocalAlg", cfg(invariants=inv), name=name, consts=consts, **kw)
        recs = r.records
        if name == "short":
            recs = [x for x in recs if len(x["hist"]) < 3] + chk.pick([x for x in recs if len(x["hist"]) == 3], 8000)
        for x in recs:
            cases.append((f"{name}:{i}", replay, (x, *cells[i % len(cells)]), dict(hist=x["hist"])))
            i += 1
    chk.exhaustive = True
    chk.run_cases(cases)
    chk.need("short", 500)
    chk.need("long", 300)

