"""C21: solutions and linear combinations."""
import numpy as np

from checks import c20
from harness import fem
from harness import fespace as fs
from harness.core import THOROUGH, cfg, close, expect, frac, rejected, same
from harness.meshes import BY_NAME, MESHES


def poly(*pts):
    return '[kind |-> "poly", v |-> <<' + ", ".join(f"<<<<{x}, 1>>, <<{y}, 1>>>>" for x, y in pts) + ">>]"


SQ2, SQ4 = poly((0, 0), (2, 0), (2, 2), (0, 2)), poly((0, 0), (4, 0), (4, 4), (0, 4))


def disc(x, y, r, d=1):
    return f'[kind |-> "disc", c |-> <<<<{x}, 1>>, <<{y}, 1>>>>, r |-> <<{r}, {d}>>]'


# what each mesh covers: pieces, each an outer contour and holes
DOMAINS = {
    "diagonal": [[SQ2]], "rings": [[disc(0, 0, 2)]], "halves": [[disc(0, 0, 1)]], "islands": [[SQ4, disc(3, 3, 1, 2)]],
    "four": [[SQ4]], "frame": [[SQ4]], "drop": [[poly((-6, 0), (6, 0), (0, 6))]], "triangle": [[poly((0, 0), (1, 0), (0, 1))]],
    "apart": [['[kind |-> "ell", c |-> <<<<0, 1>>, <<0, 1>>>>, rx |-> <<3, 2>>, ry |-> <<1, 1>>]'], [poly((3, 0), (5, 0), (3, 2))]],
    "sector": [['[kind |-> "half", r |-> <<1, 1>>]']],
}
# points of the unit circle
CIRCLE = [((1 - t * t, 1 + t * t), (2 * t, 1 + t * t)) for t in range(-4, 5)]
SEG = [(k, 5) for k in range(6)]
# solutions that vanish on the boundary: id, mesh domain, terms, boundary points
PROBLEMS = [
    ("disc2", "rings", [(4, 0, 0), (-1, 2, 0), (-1, 0, 2)], [((2 * a, b), (2 * c, d)) for (a, b), (c, d) in CIRCLE]),
    ("disc1", "halves", [(3, 0, 0), (-3, 2, 0), (-3, 0, 2)], CIRCLE),
    ("triangle", "triangle", [(1, 1, 1), (-1, 2, 1), (-1, 1, 2)],
     [(s, (0, 1)) for s in SEG] + [((0, 1), s) for s in SEG] + [(s, (5 - s[0], 5)) for s in SEG]),
    ("sector", "sector", [(2, 0, 1), (-2, 2, 1), (-2, 0, 3)], [p for p in CIRCLE if p[1][0] >= 0] + [((k, 4), (0, 1)) for k in range(-4, 5)]),
    ("zero", "diagonal", [], []),
]
CONST = [(1, 0), (2, 3), (1, -1), (5, 1)]


def tla():
    doms = "=<<" + ", ".join(f'[id |-> "{k}", deg |-> {min(3, BY_NAME[k].top)}, pieces |-> <<' + ", ".join("<<" + ", ".join(p) + ">>" for p in v) + ">>]" for k, v in DOMAINS.items()) + ">>"
    probs = "=<<" + ", ".join(
        f'[id |-> "{i}", dom |-> "{d}", u |-> <<' + ", ".join(f"<<<<{c}, 1>>, {a}, {b}>>" for c, a, b in u) + f">>, D |-> {D}, R |-> {R}, pts |-> <<"
        + ", ".join(f"<<Q({x[0]}, {x[1]}), Q({y[0]}, {y[1]})>>" for x, y in pts) + ">>]"
        for i, d, u, pts in PROBLEMS for D, R in CONST) + ">>"
    return doms, probs


def num(v):
    return float(frac(v[0])) + np.pi * float(frac(v[1]))


def value(terms, x, y):
    out = np.zeros(np.shape(x))
    for c, i, j in terms:
        out = out + c * x ** i * y ** j
    return out


def gradient(terms, x, y):
    return (value([(c * i, i - 1, j) for c, i, j in terms if i], x, y), value([(c * j, i, j - 1) for c, i, j in terms if j], x, y))


def coefficients(V, terms, top=6):
    """Global coefficients of a polynomial: its values at the vertices, what is
    left on the edges, and its Laplacian on the cells."""
    n = V.num_funs
    out, seen = np.zeros(n), np.zeros(n, dtype=bool)
    lap = np.zeros((top, top))
    for c, i, j in terms:
        if i > 1:
            lap[i - 2, j] += c * i * (i - 1)
        if j > 1:
            lap[i, j - 2] += c * j * (j - 1)

    def put(f, c):
        g = f.key.glob_idx
        if seen[g]:
            close(c, out[g], 1e-6 * max(1, abs(out[g])), "coefficient of a function in two cells")
        out[g], seen[g] = c, True
    for c in V.mesh.cell_idx_list:
        L, bl, basis, what = fs.visit(V, c)
        at = {int(b["a"].idx): (b["z"][0].real, b["z"][0].imag) for b in bl if not b["e"].is_loop}
        rest = {b["idx"]: value(terms, b["z"].real, b["z"].imag) for b in bl}
        vals = [np.array(f.get_trace_values()) for f in basis]
        for f, v, (kind, ent, _) in zip(basis, vals, what):
            if kind == "vert":
                u = float(value(terms, *at[ent]))
                put(f, u)
                for b in bl:
                    rest[b["idx"]] = rest[b["idx"]] - u * v[b["sl"]]
        for b in bl:
            mine = [(f, v[b["sl"]]) for f, v, (kind, ent, _) in zip(basis, vals, what) if kind == "edge" and ent == b["idx"]]
            if mine:
                A = np.array([v for _, v in mine]).T
                co, *_ = np.linalg.lstsq(A, rest[b["idx"]], rcond=None)
                rest[b["idx"]] = rest[b["idx"]] - A @ co
                for (f, _), x in zip(mine, co):
                    put(f, x)
            close(rest[b["idx"]], np.zeros(len(rest[b["idx"]])), 1e-7 * max(1, np.abs(value(terms, b["z"].real, b["z"].imag)).max()), "a polynomial on an edge")
        bub = [f for f, (kind, _, _) in zip(basis, what) if kind == "bubb"]
        if bub:
            A = np.array([fs.lap_terms(f, top).ravel() for f in bub]).T
            co, *_ = np.linalg.lstsq(A, lap.ravel(), rcond=None)
            close(A @ co, lap.ravel(), 1e-9 * max(1, np.abs(lap).max()), "Laplacian of a polynomial")
            for f, x in zip(bub, co):
                put(f, x)
    expect(seen.all(), "every function belongs to a cell")
    return out


def exact(space, table, n):
    """Energies and masses of all pairs of monomials."""
    import puncturedfem as pf
    V = fs.space(space, n)
    S = fem.solver(V, pf.BilinearForm(1, 0, pf.Polynomial([(1.0, 0, 0)])))
    K, M = S.stiff_mat, S.mass_mat
    mono = sorted({tuple(r["u"]) for r in table if sum(r["u"]) <= space["deg"]})
    co = {m: coefficients(V, [(1.0, *m)]) for m in mono}
    one = co[0, 0]
    close(K @ one, np.zeros(V.num_funs), 1e-5 * np.abs(K).max(), "energy of the constants")
    size = {m: (max(1.0, num(next(r for r in table if tuple(r["u"]) == m == tuple(r["v"]))["h1"])) ** .5,
                num(next(r for r in table if tuple(r["u"]) == m == tuple(r["v"]))["l2"]) ** .5) for m in mono}
    tol = TOL.get(space["mesh"], 3e-5)
    for r in table:
        u, v = tuple(r["u"]), tuple(r["v"])
        if u in co and v in co:
            for mat, key, k in ((K, "h1", 0), (M, "l2", 1)):
                s = max(size[u][k] * size[v][k], 1e-3)
                close(float(co[u] @ (mat @ co[v])) / s, num(r[key]) / s, tol, f"{'energy' if k == 0 else 'mass'} of x^{u[0]} y^{u[1]} and x^{v[0]} y^{v[1]} over")


TOL = {"drop": 1e-3, "four": 1e-4, "islands": 1e-4, "apart": 1e-4}


def solve(space, rec, n, keep):
    """A polynomial solution is found, and evaluated on every cell."""
    import puncturedfem as pf
    V = fs.space(space, n)
    f = pf.Polynomial([(float(frac(c)), i, j) for c, i, j in rec["f"]])
    S = fem.solver(V, pf.BilinearForm(rec["D"], rec["R"], f), keep=keep, grad=keep)
    if (rec["D"] + rec["R"]) % 2:
        S.solve()
    c = np.array(S.get_solution())
    terms = [(float(frac(a)), i, j) for a, i, j in rec["u"]]
    want = coefficients(V, terms)
    s = max(1.0, np.abs(want).max())
    close(c.shape, want.shape, 0, "size of the solution")
    close(c / s, want / s, 2e-4, "coefficients of the solution")
    close(float(c @ (S.stiff_mat @ c)), num(rec["h1"]), 1e-4 * max(1, num(rec["h1"])), "energy of the solution")
    close(float(c @ (S.mass_mat @ c)), num(rec["l2"]), 1e-4 * max(1, num(rec["l2"])), "mass of the solution")
    if keep:
        for cell in V.mesh.cell_idx_list:
            on_cell(S, V, cell, c, terms, 1e-3 * s)


def boundary(K, V):
    """The points of the boundary, in the order of the traces on the cell.
    (The edges are shared: other cells may have turned them round since.)"""
    K.parameterize(V.quad_dict, compute_interior_points=False)
    x, y = K.get_boundary_points()
    return np.array(x) + 1j * np.array(y)


def on_cell(S, V, cell, c, terms, tol):
    w = S.compute_linear_combo_on_mesh_cell(cell, c)
    K = w.mesh_cell
    same(int(K.idx), int(cell), "cell of a combination")
    x, y = np.array(K.int_x1), np.array(K.int_x2)
    z = boundary(K, V)
    close(w.get_trace_values(), value(terms, z.real, z.imag), tol, "trace of the solution")
    d = np.min(np.abs((x + 1j * y)[:, None] - z[None, :]), 1)
    ok = d > 0.1 * max(np.ptp(x), np.ptp(y))
    expect(ok.any(), "there are points inside")
    close(w.int_vals[ok], value(terms, x, y)[ok], tol, "interior values of the solution")
    g = gradient(terms, x, y)
    close(w.int_grad1[ok], g[0][ok], 20 * tol, "x derivative of the solution")
    close(w.int_grad2[ok], g[1][ok], 20 * tol, "y derivative of the solution")


def combos(space, scale, seed, n=8):
    """Any coefficient vector: the sum of the basis, on every cell."""
    import puncturedfem as pf
    V = fs.space(space, n)
    S = fem.solver(V, pf.BilinearForm(1, 1, pf.Polynomial([(1.0, 0, 0)])), keep=True, grad=seed % 2 == 0)
    rng = np.random.default_rng(seed)
    N = V.num_funs
    vecs = [rng.integers(-4, 5, N) * scale, np.eye(N)[seed % N] * scale, rng.standard_normal(N) * 10.0 ** rng.integers(-9, 1, N) * scale, np.zeros(N)]
    basis = {c: S.local_function_spaces[k].get_basis() for k, c in enumerate(V.mesh.cell_idx_list)}
    before = {c: [(np.array(f.get_trace_values()), np.array(f.int_vals)) for f in b] for c, b in basis.items()}
    for vec in vecs:
        ref = {}
        keep = vec.copy()
        for c in V.mesh.cell_idx_list[::-1] if seed % 3 == 0 else V.mesh.cell_idx_list:
            loc = S.get_coef_on_mesh_cell(c, vec)
            close(loc, [vec[f.key.glob_idx] for f in basis[c]], 0, "local coefficients")
            w = S.compute_linear_combo_on_mesh_cell(c, vec)
            t = sum((a * f.get_trace_values() for a, f in zip(loc, basis[c])), 0 * basis[c][0].get_trace_values())
            s = max(np.abs(vec).max(), 1e-300)
            close(w.get_trace_values() / s, t / s, 1e-10, "trace of a combination")
            v = sum((a * f.int_vals for a, f in zip(loc, basis[c])), 0 * basis[c][0].int_vals)
            close(w.int_vals / s, v / s, 1e-9 * (1 + max(np.abs(f.int_vals).max() for f in basis[c])), "interior values of a combination")
            if seed % 2 == 0:
                for name in ("int_grad1", "int_grad2"):
                    g = sum((a * getattr(f, name) for a, f in zip(loc, basis[c])), 0 * basis[c][0].int_vals)
                    expect(getattr(w, name) is not None, f"a combination has {name}")
                    close(getattr(w, name) / s, g / s, 1e-9 * (1 + max(np.abs(getattr(f, name)).max() for f in basis[c])), f"{name} of a combination")
            lap = sum((a * fs.lap_terms(f) for a, f in zip(loc, basis[c])), np.zeros((6, 6)))
            # (a polynomial drops terms below 1e-12)
            close(fs.lap_terms(w), lap, 1e-9 * (s + np.abs(lap).max()) + 1e-10, "Laplacian of a combination")
            boundary(w.mesh_cell, V)
            for b in fs.blocks(w.mesh_cell):
                z, u = fs.canonical(b["z"], w.get_trace_values()[b["sl"]])
                if b["idx"] in ref:
                    close(u / s, ref[b["idx"]] / s, 1e-9 * (1 + np.abs(u / s).max()), "a combination on a shared edge")
                ref[b["idx"]] = u
        close(vec, keep, 0, "the coefficients given")
    for c, b in basis.items():
        for f, (t, v) in zip(b, before[c]):
            close(f.get_trace_values(), t, 0, "the basis after a combination")
            close(f.int_vals, v, 0, "the basis after a combination")


def after(S, h, want, k):
    """After each operation of a history: the solution read now."""
    if h["op"] not in ("solve", "read"):
        return
    c = np.array(S.soln if h["op"] == "solve" else S.get_solution(), dtype=float)
    b = np.array(want["rhs"], dtype=float)
    K, M = np.array(want["stiff"], dtype=float), np.array(want["mass"], dtype=float)
    inner = np.array(sorted(want["interior"]), dtype=int)
    outer = np.array(sorted(set(range(len(b))) - set(want["interior"])), dtype=int)
    same(c.shape, b.shape, "size of the solution")
    close(c[outer], np.zeros(len(outer)), 1e-14, "the solution at boundary functions")
    if len(inner):
        A = (want["form"]["D"] * K + want["form"]["R"] * M)[np.ix_(inner, inner)]
        x = np.linalg.solve(A, b[inner])
        close(c[inner], x, 1e-9 * max(np.abs(x).max(), 1e-3), f"after {k + 1} operations: solution of the current system")


def evaluated(rec, pair, table):
    """Replay; then the local spaces are there exactly if they were kept."""
    import puncturedfem as pf
    box = {}

    def look(S, h, want, k):
        after(S, h, want, k)
        box["S"] = S
    c20.history(rec, pair, table, look)
    S = box["S"]
    if tuple(rec["set"]) != tuple(rec["asm"]):
        return
    V = S.glob_fun_sp
    vec = np.arange(V.num_funs) % 3 - 1.0
    for c in V.mesh.cell_idx_list:
        if rec["kept"]:
            w = S.compute_linear_combo_on_mesh_cell(c, vec)
            L = S.local_function_spaces[V.mesh.cell_idx_list.index(c)]
            t = sum(vec[f.key.glob_idx] * f.get_trace_values() for f in L.get_basis())
            close(w.get_trace_values(), t, 1e-10, "trace of a combination")
        else:
            with rejected("evaluation without local spaces", ValueError):
                S.compute_linear_combo_on_mesh_cell(c, vec)
        close(S.get_coef_on_mesh_cell(c, vec), [vec[k.glob_idx] for k in V.cell_dofs[V.mesh.cell_idx_list.index(c)]], 0, "local coefficients")
    for c in (-1, max(V.mesh.cell_idx_list) + 1):
        with rejected(f"cell {c}", IndexError, ValueError):
            S.compute_linear_combo_on_mesh_cell(c, vec)
        with rejected(f"cell {c}", IndexError, ValueError):
            S.get_coef_on_mesh_cell(c, vec)


def stale(hist):
    ops = [h["op"] for h in hist]
    return (ops[-1] == "read" and ops[-2] == "assemble" and not any(h.get("keep") for h in hist)
            and ops[1] in ("read", "solve") and ops[2] in ("form", "space"))


def run(chk):
    import puncturedfem as pf
    fem.solver(fs.space(c20.plain("diagonal", 1)), pf.BilinearForm(1, 1, pf.Polynomial([(1.0, 0, 0)])), keep=True, grad=True)
    doms, probs = tla()
    r = chk.tlc("Galerkin", cfg(dict(MaxDeg=3), invariants=["Vanishes", "Work", "Constant", "Emit"]), consts=dict(Domains=doms, Problems=probs))
    pairs = {d: [x for x in r.records if x["kind"] == "pair" and x["dom"] == d] for d in DOMAINS}
    cases = []
    for d in DOMAINS:
        for p in (1, 2, 3):
            if p > BY_NAME[d].top or not THOROUGH and d == "four" and p == 3:
                continue
            n = 64 if d in ("drop", "four") else 32
            if not THOROUGH and p < 3 and (d, p) not in (("four", 2), ("drop", 2), ("rings", 1), ("apart", 2)):
                continue
            cases.append((f"exact:{d}-deg{p}", exact, (c20.plain(d, p), pairs[d], n), dict(mesh=d, deg=p)))
    solves = [x for x in r.records if x["kind"] == "solve"]
    for k, x in enumerate(solves):
        for p in (1, 2, 3):
            if p < x["deg"] or not THOROUGH and p == 3 and (k + p) % 2 and x["deg"] < 3:
                continue
            cases.append((f"solve:{x['id']}-D{x['D']}-R{x['R']}-deg{p}", solve, (c20.plain(x["dom"], p), x, 32, k % 4 == 0 or THOROUGH), x))
    chk.run_cases(cases, few=4)
    chk.need("exact", 8)
    chk.need("solve", 16)
    cases = []
    for k, (name, p) in enumerate([("diagonal", 2), ("rings", 2), ("triangle", 3), ("lens", 2), ("apart", 2), ("halves", 2), ("frame", 1), ("islands", 1), ("sector", 2)]
                                  + ([(m.name, q) for m in MESHES for q in (1, 2, 3) if q <= m.top] if THOROUGH else [])):
        for s in ((1.0, 1e-6) if k % 2 else (1e-3, 1e8)):
            cases.append((f"combo:{name}-deg{p}-{s}-{k}", combos, (c20.plain(name, p), s, k), dict(mesh=name, deg=p, scale=s)))
    pair_spaces = [c20.plain(*x) for q in c20.PAIRS for x in q]
    table = c20.systems(chk, pair_spaces)
    if table:
        hs = [h for h in c20.histories(chk, 4) if any(o["op"] in ("solve", "read") for o in h["hist"]) or h["hist"][-1]["op"] == "assemble"]
        keeps = [h for h in hs if any(o.get("keep") for o in h["hist"])]
        bare = [h for h in hs if h not in keeps]
        # a solution, then another system, then the solution again
        again = [h for h in c20.histories(chk, 5) if len(h["hist"]) == 5 and stale(h["hist"])]
        for k, h in enumerate(chk.pick(bare, 800 if THOROUGH else 36, 7) + chk.pick(keeps, 800 if THOROUGH else 14, 8)
                              + chk.pick(again, 800 if THOROUGH else 16, 9)):
            q = k % len(c20.PAIRS)
            tab = {(s, f): table[2 * q + s - 1, f - 1] for s in (1, 2) for f in range(1, 4)}
            cases.append((f"history:{k}", evaluated, (h, pair_spaces[2 * q:2 * q + 2], tab), h))
    chk.run_cases(cases, few=4)
    chk.need("combo", 16)
    chk.need("history", 50)
