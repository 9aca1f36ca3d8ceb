"""Finite element spaces on the meshes of harness/meshes.py: building them
along a behaviour of GlobalDofs.tla and measuring what each function is."""
import numpy as np

from .core import expect
from .meshes import BY_NAME

N_PTS = 8


def space(rec, n=N_PTS, **kw):
    import puncturedfem as pf
    mesh = BY_NAME[rec["mesh"]].build(pf, [tuple(x) for x in rec["listing"]])
    return pf.GlobalFunctionSpace(mesh, rec["deg"], pf.get_quad_dict(n), verbose=False)


def blocks(K):
    """For each edge of the cell: index, samples of the boundary it covers,
    its points, and its start and end vertex as the cell runs along it."""
    x, y = (np.array(c) for c in K.get_boundary_points())
    out, at = [], 0
    for e in K.get_edges():
        sl = slice(at, at + e.num_pts - 1)
        at = sl.stop
        a, b = e.anchor, e.endpnt
        if not e.is_loop and abs(x[sl.start] - a.x) + abs(y[sl.start] - a.y) > 1e-9:
            a, b = b, a
        if not e.is_loop:
            expect(abs(x[sl.start] - a.x) + abs(y[sl.start] - a.y) < 1e-9, "an edge starts at one of its vertices")
        out.append(dict(e=e, idx=int(e.idx), sl=sl, z=x[sl] + 1j * y[sl], a=a, b=b))
    expect(at == len(x), "samples of the boundary")
    return out


def canonical(z, v):
    """Values at the inner samples of an edge, in a direction that does not
    depend on the cell."""
    z, v = z[1:], v[1:]
    first, last = [(round(w.real, 9), round(w.imag, 9)) for w in (z[0], z[-1])]
    return (z, v) if first <= last else (z[::-1], v[::-1])


def measure(f, K, bl):
    """What the function is: type, entity, values on its support."""
    vals = np.array(f.get_trace_values())
    size = np.array([np.abs(vals[b["sl"]]).max() for b in bl])
    at_vertex = {}
    for b in bl:
        if not b["e"].is_loop:
            at_vertex.setdefault(int(b["a"].idx), []).append(vals[b["sl"].start])
    on = [v for v, w in at_vertex.items() if max(np.abs(w)) > 1e-7]
    support = [k for k in range(len(bl)) if size[k] > 1e-7]
    if not support:
        return "bubb", -1, None
    if len(on) == 1:
        return "vert", on[0], None
    if not on and len(support) == 1:
        b = bl[support[0]]
        return "edge", b["idx"], canonical(b["z"], vals[b["sl"]])
    return "none", -1, None


class Classes:
    """Numbers for functions, the same exactly when they agree."""

    def __init__(self):
        self.known = {}

    def of(self, where, v, tol=1e-8):
        for k, w in enumerate(self.known.setdefault(where, [])):
            if w.shape == v.shape and np.max(np.abs(w - v)) <= tol * max(1.0, np.max(np.abs(w))):
                return k
        self.known[where].append(v)
        return len(self.known[where]) - 1


def lap_terms(f, top=6):
    """Coefficients of the Laplacian of a function, by exponents."""
    out = np.zeros((top, top))
    for m in f.poly.exact_form.monos:
        i, j = m.alpha.x, m.alpha.y
        if i > 1:
            out[i - 2, j] += m.coef * i * (i - 1)
        if j > 1:
            out[i, j - 2] += m.coef * j * (j - 1)
    return out


def visit(V, cell, **kw):
    """Local space of a cell, its functions measured."""
    kw = dict(dict(verbose=False, compute_interior_values=False, compute_interior_gradient=False), **kw)
    L = V.build_local_function_space(cell, **kw)
    bl = blocks(L.nyst.K)
    basis = L.get_basis()
    return L, bl, basis, [measure(f, L.nyst.K, bl) for f in basis]
