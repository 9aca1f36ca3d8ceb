"""Solvers on the meshes of harness/meshes.py."""
import contextlib
import io

import numpy as np

from . import fespace as fs
from .core import expect, same


def coded(pf, form):
    """A bilinear form with the integer values of Assembly.tla."""
    D, R, s = form["D"], form["R"], form["s"]

    def mix(s, c, i, j):
        return float((s * 7 + c * 13 + (i + j) * 5 + i * j * 3 + (i + j) * (i + j) * c) % 101 + 1)

    class Coded(pf.BilinearForm):
        def where(self, u, v):
            c = int(u.mesh_cell.idx)
            same(int(v.mesh_cell.idx), c, "cell of a pair of functions")
            return c, int(u.key.glob_idx), int(v.key.glob_idx)

        def eval_h1(self, u, v):
            c, i, j = self.where(u, v)
            return mix(s, c, i, j) + (9000 if i == j else 0)

        def eval_l2(self, u, v):
            c, i, j = self.where(u, v)
            return mix(s + 11, c + 5, i + 3, j + 3) + (8000 if i == j else 0)

        def eval(self, u, v):
            return self.eval_with_h1_and_l2(self.eval_h1(u, v), self.eval_l2(u, v))

        def eval_rhs(self, v):
            c, i, _ = self.where(v, v)
            return mix(s + 17, c + 9, i, 2) - 50
    return Coded(D, R, pf.Polynomial([(float(s), 0, 0)]))


def quiet(fn, *a, **kw):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        return fn(*a, **kw)


def solver(V, form, keep=False, grad=False, verbose=False):
    import puncturedfem as pf
    return quiet(pf.Solver, V, form, verbose=verbose, compute_interior_values=keep, compute_interior_gradient=grad)


def numbering(rec):
    """The numbering of a space: what Assembly.tla calls a space."""
    V = fs.space(rec)
    for c in V.mesh.cell_idx_list:
        V.build_local_function_space(c, verbose=False, compute_interior_values=False, compute_interior_gradient=False)
    return dict(n=int(V.num_funs), cells=[
        dict(cell=int(c), glob=[int(k.glob_idx) for k in ks], bdry=[bool(k.is_on_boundary) for k in ks])
        for c, ks in zip(V.mesh.cell_idx_list, V.cell_dofs)])


def dense(m):
    return np.asarray(m.toarray() if hasattr(m, "toarray") else m, dtype=float)


def check_system(S, want, what=""):
    """The matrices of a solver against those of Assembly.tla (exactly)."""
    n = len(want["rhs"])
    K, M, A, b = dense(S.stiff_mat), dense(S.mass_mat), dense(S.glob_mat), dense(S.glob_rhs)
    same((K.shape, M.shape, A.shape, b.size, int(S.num_funs)), ((n, n), (n, n), (n, n), n, n), what + "sizes")
    wk, wm, wb = (np.array(want[k], dtype=float) for k in ("stiff", "mass", "rhs"))
    f = want["form"]
    inner = np.array(sorted(want["interior"]), dtype=int)
    outer = np.array(sorted(set(range(n)) - set(want["interior"])), dtype=int)
    exactly(K, wk, what + "stiffness matrix")
    exactly(M, wm, what + "mass matrix")
    exactly(A[inner], (f["D"] * wk + f["R"] * wm)[inner], what + "rows of interior functions")
    exactly(b.ravel(), wb, what + "right-hand side")
    for i in outer:
        row = A[i].copy()
        expect(row[i] > 0, f"{what}diagonal of boundary function {i} is {row[i]}")
        row[i] = 0
        exactly(row, np.zeros(n), f"{what}row of boundary function {i}")


def exactly(got, want, what):
    bad = np.argwhere(np.abs(got - want) > 1e-9)
    expect(len(bad) == 0, f"{what}: " + (f"entry {tuple(int(x) for x in bad[0])} is {got[tuple(bad[0])]}, specified {want[tuple(bad[0])]}"
                                       f" ({len(bad)} entries differ)" if len(bad) else ""))
