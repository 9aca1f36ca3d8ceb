"""C20: the assembled system against Assembly.tla."""
import json

import numpy as np

from harness import fem
from harness import fespace as fs
from harness.core import THOROUGH, MachineryError, cfg, close, expect, rejected, same
from harness.meshes import BY_NAME, MESHES

FORMS = [dict(D=1, R=0, s=1), dict(D=2, R=3, s=2), dict(D=1, R=1, s=5), dict(D=7, R=-2, s=3), dict(D=0, R=1, s=4)]
FORMS_TLA = "=<<" + ", ".join(f"[D |-> {f['D']}, R |-> {f['R']}, s |-> {f['s']}]" for f in FORMS) + ">>"
# the two spaces of the histories
PAIRS = [(("diagonal", 2), ("halves", 1)), (("rings", 2), ("triangle", 2)), (("lens", 1), ("islands", 1)), (("frame", 1), ("apart", 2))]


def plain(name, deg):
    return dict(mesh=name, deg=deg, listing=[(k + 1, False) for k in range(len(BY_NAME[name].edges))])


def systems(chk, spaces, forms=FORMS_TLA):
    """Number the spaces with the code, let TLC predict the systems."""
    import puncturedfem as pf
    out = chk.run_cases([(f"space:{x['mesh']}-deg{x['deg']}-{k}", lambda x=x, k=k: (k, fem.numbering(x)), (), None)
                         for k, x in enumerate(spaces)], few=4)
    num = [v for _, v in sorted(out)]
    if len(num) != len(spaces):
        return None
    r = chk.tlc("Assembly", cfg(invariants=["Symmetric", "Sizes", "Emit"]), consts=dict(
        File="spaces.json", Forms=forms, MaxOps="=1", Mode="systems"), files={"spaces.json": json.dumps(num)})
    table = {(x["space"] - 1, FORMS.index(x["form"])): x for x in r.records}
    if len(table) != len(spaces) * len(FORMS):
        raise MachineryError("systems are missing")
    return table


def histories(chk, ops):
    r = chk.tlc("Assembly", cfg(invariants=["Fresh", "Emit"]), consts=dict(
        File="none.json", Forms="=<<[D |-> 1, R |-> 0, s |-> 1], [D |-> 2, R |-> 3, s |-> 2], [D |-> 1, R |-> 1, s |-> 5]>>", MaxOps=f"={ops}", Mode="histories"),
        files={"none.json": "[]"})
    return r.records


def one(space, want, keep, verbose):
    import puncturedfem as pf
    V = fs.space(space)
    S = fem.solver(V, fem.coded(pf, want["form"]), keep=keep, verbose=verbose)
    fem.check_system(S, want)


def history(rec, pair, table, check=lambda S, rec, want, k: None):
    """Replay; the system is looked at after every operation."""
    import puncturedfem as pf
    V = [fs.space(x) for x in pair]
    forms = [fem.coded(pf, f) for f in FORMS]
    S, asm = None, None
    for k, h in enumerate(rec["hist"]):
        op = h["op"]
        if op == "make":
            S = fem.solver(V[h["s"] - 1], forms[h["f"] - 1], keep=h["keep"])
            cur = [h["s"], h["f"]]
            asm = tuple(cur)
        elif op == "form":
            cur[1] = h["f"]
            S.set_bilinear_form(forms[h["f"] - 1])
        elif op == "space":
            cur[0] = h["s"]
            S.set_global_function_space(V[h["s"] - 1])
        elif op == "assemble":
            fem.quiet(S.assemble, verbose=False, compute_interior_values=h["keep"])
            asm = tuple(cur)
        elif op == "solve":
            S.solve()
        elif op == "read":
            S.get_solution()
        expect(op in ("make", "form", "space", "assemble", "solve", "read"), op)
        fem.check_system(S, table[asm], f"after {k + 1} operations: ")
        check(S, h, table[asm], k)
    same(asm, tuple(rec["asm"]), "the replayed system")



def refuse():
    import puncturedfem as pf
    V = fs.space(plain("triangle", 1))
    form = pf.BilinearForm(1, 1, pf.Polynomial([(1.0, 0, 0)]))
    for bad in (None, V.mesh, form):
        with rejected("a space of another type", TypeError):
            fem.solver(bad, form)
    for bad in (None, V, pf.Polynomial([(1.0, 0, 0)])):
        with rejected("a form of another type", TypeError):
            fem.solver(V, bad)
    S = fem.solver(V, form)
    with rejected("a form of another type", TypeError):
        S.set_bilinear_form(3)
    with rejected("a space of another type", TypeError):
        S.set_global_function_space("mesh")


def real(space, form, keep):
    """The real form: sums over cells of products of the local functions, both
    orders of the arguments; linear in the constants; the same again."""
    import puncturedfem as pf
    from puncturedfem.locfun.local_polynomial import LocalPolynomial
    D, R, f = form
    n_pts = 64 if space["mesh"] in ("bean", "drop") else 32
    V = fs.space(space, n_pts)
    B = pf.BilinearForm(D, R, pf.Polynomial(f))
    S = fem.solver(V, B, keep=keep)
    K, M, A, b = (fem.dense(x) for x in (S.stiff_mat, S.mass_mat, S.glob_mat, S.glob_rhs))
    n = V.num_funs
    wk, wm, wb, outer = np.zeros((n, n)), np.zeros((n, n)), np.zeros(n), set()
    W = fs.space(space, n_pts)
    for c in W.mesh.cell_idx_list:
        L = W.build_local_function_space(c, verbose=False, compute_interior_values=False, compute_interior_gradient=False)
        fun = LocalPolynomial(pf.Polynomial(f), L.nyst.K)
        for v in L.get_basis():
            i = v.key.glob_idx
            wb[i] += v.get_l2_inner_prod(fun)
            if v.key.is_on_boundary:
                outer.add(i)
            for w in L.get_basis():
                wk[w.key.glob_idx, i] += w.get_h1_semi_inner_prod(v)
                wm[w.key.glob_idx, i] += w.get_l2_inner_prod(v)
    sk, sm = np.abs(wk).max(), np.abs(wm).max()
    close(K / sk, wk / sk, 1e-3, "stiffness matrix")
    close(M / sm, wm / sm, 1e-3, "mass matrix")
    close(K, K.T, 1e-13 * sk, "symmetry of the stiffness matrix")
    close(M, M.T, 1e-13 * sm, "symmetry of the mass matrix")
    inner = sorted(set(range(n)) - outer)
    sa = abs(D) * sk + abs(R) * sm
    close(A[inner] / sa, (D * K + R * M)[inner] / sa, 1e-12, "rows of interior functions")
    want = np.where(np.isin(np.arange(n), inner), wb, 0)
    close(b.ravel(), want, 1e-9 * max(1, np.abs(wb).max()), "right-hand side")
    for i in outer:
        row = A[i].copy()
        expect(row[i] > 0, "diagonal of a boundary function")
        row[i] = 0
        close(row, np.zeros(n), 0, "row of a boundary function")
    # again: the same system
    fem.quiet(S.assemble, verbose=False, compute_interior_values=False)
    for x, y, what in ((K, S.stiff_mat, "stiffness"), (M, S.mass_mat, "mass"), (A, S.glob_mat, "system")):
        close(fem.dense(y), x, 1e-12 * max(sk, sm, sa), f"{what} matrix, assembled again")
    close(fem.dense(S.glob_rhs), b, 1e-12 * max(1, np.abs(wb).max()), "right-hand side, assembled again")


def run(chk):
    import puncturedfem as pf
    chk.case("refuse:types", refuse, sample=dict(op="refuse"))
    fem.solver(fs.space(plain("diagonal", 1)), pf.BilinearForm(1, 1, pf.Polynomial([(1.0, 0, 0)])), keep=True)
    spaces = [plain(m.name, p) for m in MESHES for p in ((1, 2, 3) if THOROUGH else (1, 2)) if p <= m.top]
    # other listings of the edges
    for name, p in (("four", 1), ("diagonal", 2), ("frame", 2), ("lens", 3), ("halves", 2)):
        m = BY_NAME[name]
        N = len(m.edges)
        spaces.append(dict(mesh=name, deg=p, listing=[((5 * k if N % 5 else 3 * k) % N + 1, m.edges[(5 * k if N % 5 else 3 * k) % N].flippable()) for k in range(N)]))
    first = len(spaces)
    spaces += [plain(*x) for pair in PAIRS for x in pair]
    table = systems(chk, spaces)
    if table:
        cases = []
        for k, x in enumerate(spaces[:first]):
            for f in range(len(FORMS)):
                if THOROUGH or (k + f) % 3 == 0:
                    keep = x["mesh"] in ("triangle", "lens", "rings", "diagonal") and (k + f) % 2 == 0 and x["deg"] == 1
                    cases.append((f"system:{x['mesh']}-deg{x['deg']}-{k}-form{f}", one, (x, table[k, f], keep, (k + f) % 5 == 0),
                                  dict(space=x, form=FORMS[f])))
        hs = histories(chk, 4 if THOROUGH else 3)
        hs = [h for h in hs if any(o["op"] == "assemble" for o in h["hist"])]
        for k, h in enumerate(chk.pick(hs, 1500 if THOROUGH else 60, 3)):
            q = k % len(PAIRS)
            pair = spaces[first + 2 * q:first + 2 * q + 2]
            tab = {(s, f): table[first + 2 * q + s - 1, f - 1] for s in (1, 2) for f in range(1, len(FORMS) + 1)}
            h = dict(h, hist=[dict(o, keep=o["keep"] and k % 7 == 0) if "keep" in o else o for o in h["hist"]])
            cases.append((f"history:{k}", history, (h, pair, tab), h))
        chk.run_cases(cases)
        chk.need("system", 40)
        chk.need("history", 40)
    one_ = [(1.0, 0, 0)]
    cases = []
    for k, (x, keep) in enumerate([(plain("diagonal", 2), True), (plain("rings", 3), True), (plain("islands", 1), False), (plain("four", 1), False),
                                   (plain("lens", 2), False), (plain("apart", 2), True), (plain("frame", 2), False), (plain("bean", 1), False)]
                                  + ([(plain(m.name, p), p == 1) for m in MESHES for p in (1, 2, 3) if p <= m.top] if THOROUGH else [])):
        form = [(1.0, 0.0, one_), (2.5, 0.75, [(1.0, 1, 0), (-2.0, 0, 1)]), (0.0, 1.0, [(0.5, 2, 0), (1.0, 0, 0)]), (1.0, -0.1, [(3.0, 1, 1)])][k % 4]
        cases.append((f"real:{x['mesh']}-deg{x['deg']}-{k}", real, (x, form, keep), dict(space=x, form=str(form))))
    chk.run_cases(cases, few=2)
    chk.need("real", 8)
