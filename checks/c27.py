"""C27: requests are granted with their stated effect, or refused without any."""
import contextlib
import io
import os
import tempfile

import numpy as np

from harness import fem, shapes
from harness.core import SEED, THOROUGH, cfg, close, expect, rejected, same
from harness.meshes import BY_NAME
from harness.ref import Geometry, c2


def datum(x):
    if not isinstance(x, dict):
        return x
    return {"int": x["v"], "float": x["v"] / 2, "text": "3", "none": None, "turn": 2 * np.pi}[x["k"]]


def halves(v):
    """Numbers of the model count halves; 13 of them stand for a full turn."""
    return 2 * np.pi if v == 13 else v / 2


class World:
    def __init__(self):
        import puncturedfem as pf
        self.pf = pf
        from puncturedfem.mesh.closed_contour import ClosedContour
        from puncturedfem.solver.globkey import GlobalKey
        self.Contour, self.Key = ClosedContour, GlobalKey
        self.p, self.q = pf.Vert(0.0, 0.0), pf.Vert(2.0, 1.0)
        self.edge = self.new_edge(None, 2.0, "kress")
        K, _ = shapes.build_cell(shapes.BY_NAME["triangle"])
        self.tri = list(K.get_edges())
        self.cell = pf.MeshCell(0, self.tri, rtol=1.0, atol=0.5)
        self.contour = self.Contour(0)
        self.vert = pf.Vert(1.0, -1.5)
        self.key = self.Key("vert", vert_idx=5)
        self.curve = "line"

    def new_edge(self, idx, b, quad):
        return self.pf.Edge(self.p, self.q, pos_cell_idx=0, curve_type="line", quad_type=quad, idx=idx, t_bounds=(0, b))

    def ask(self, on, op, args):
        pf, a = self.pf, [datum(x) for x in args]
        if on == "edge" and op == "new":
            e = self.new_edge(*a)
            e.set_cells(self.edge.pos_cell_idx, self.edge.neg_cell_idx)
            e.set_curve_type(self.edge.curve_type)
            self.edge = e
        elif on == "edge" and op == "parameterize":
            n, p = a
            self.edge.parameterize(pf.get_quad_dict(n=n, p=p))
        elif on == "edge" and op == "set_t_bounds":
            self.edge.set_t_bounds(tuple(a))
        elif on == "cell" and op == "set_interior_point_tolerance":
            self.cell.set_interior_point_tolerance(rtol=a[0], atol=a[1])
        elif on == "contour" and op == "add_edge":
            self.contour.add_edge(self.tri[a[0] - 1], a[1])
        elif on == "contour" and op == "add_edges":
            self.contour.add_edges([self.tri[a[0] - 1], self.tri[a[1] - 1]], [1, -1, 1][:a[2]])
        elif on == "contour" and op == "new":
            self.contour = self.Contour(4, [self.tri[a[0] - 1]], [1, -1][:a[1]])
        elif on == "vert" and op == "new":
            self.vert = pf.Vert(a[0], 0.5, idx=a[1])
        elif on == "key" and op == "new":
            self.key = self.Key(a[0], edge_idx=a[1], vert_idx=a[1], bubb_space_idx=a[1], edge_space_idx=a[1])
        else:
            getattr(getattr(self, on), op)(*a)

    def verify(self, o, what):
        e, w = self.edge, o["edge"]
        same(list([e.idx] if hasattr(e, "idx") else []), w["idx"], what + "number of the edge")
        close(e.t_bounds, [halves(w["ta"]), halves(w["tb"])], 0, what + "parameter interval")
        same((e.pos_cell_idx, e.neg_cell_idx), (w["pos"], w["neg"]), what + "cells of the edge")
        same(bool(e.is_on_mesh_boundary), w["pos"] < 0 or w["neg"] < 0, what + "edge on the mesh boundary")
        same(e.curve_type, w["curve"], what + "curve type")
        same(bool(e.is_parameterized), bool(w["sample"]), what + "edge is sampled")
        for s in w["sample"]:
            g = Geometry(s["curve"], {}, (halves(s["ta"]), halves(s["tb"])), s["quad"], s["n"], p=s["p"])
            a = (2 + 1j) / (g.z[-1] - g.z[0])
            g = Geometry(s["curve"], {}, (halves(s["ta"]), halves(s["tb"])), s["quad"], s["n"], a=a, b=-a * g.z[0], p=s["p"])
            same(int(e.num_pts), 2 * s["n"] + 1, what + "number of points")
            close(e.x, c2(g.z), 1e-9, what + "points")
            close(e.dx_norm, g.dxn, 1e-8 * max(1, np.abs(g.dxn).max()), what + "weights")
            close(e.unit_normal, c2(g.nor), 1e-8, what + "normals")
        c, w = self.cell, o["cell"]
        same((c.idx, c.rtol * 2, c.atol * 2), (w["idx"], w["rtol"], w["atol"]), what + "cell")
        c, w = self.contour, o["contour"]
        same((c.mesh_id, [self.tri.index(x) + 1 for x in c.edges], list(c.edge_orients), c.num_edges),
             (w["id"], w["edges"], w["orients"], len(w["edges"])), what + "contour")
        v, w = self.vert, o["vert"]
        same((v.idx, v.x * 2, v.y * 2), (w["idx"], w["x"], w["y"]), what + "vertex")
        expect(isinstance(v.x, float) and isinstance(v.y, float), what + "coordinates are floats")
        k, w = self.key, o["key"]
        same((k.fun_type, {p: getattr(k, p) for p in w["idx"]}), (w["type"], w["idx"]), what + "key")
        same([k.glob_idx] if hasattr(k, "glob_idx") else [], w["glob"], what + "global number")


def replay(x):
    w = World()
    for k, h in enumerate(x["hist"]):
        if h["ok"]:
            w.ask(h["on"], h["op"], h["args"])
        else:
            with rejected(f"step {k}: {h['on']}.{h['op']}({', '.join(repr(datum(a)) for a in h['args'])})"):
                w.ask(h["on"], h["op"], h["args"])
    w.verify(x["obj"], "")


class Computation:
    """The stages of Phases.tla."""

    def __init__(self, mesh, deg):
        import puncturedfem as pf
        self.pf, self.deg, self.n = pf, deg, 8
        self.results = []
        self.M = BY_NAME[mesh].build(pf)
        self.quad = pf.get_quad_dict(n=self.n)
        self.stage = 0
        self.done("mesh")

    def done(self, what):
        self.stage += 1
        self.results.append(self.look(what))

    def look(self, what):
        if what == "mesh":
            m = self.M
            return [np.array([m.num_verts, m.num_edges, m.num_cells]), np.array(m.cell_idx_list), np.array(m.vert_idx_list),
                    np.array([(e.idx, e.pos_cell_idx, e.neg_cell_idx, e.anchor.x, e.anchor.y, e.endpnt.x, e.endpnt.y) for e in m.edges])]
        if what == "space":
            V, t = self.V, np.linspace(-1, 1, 5)
            return [np.array([V.deg, V.num_funs, V.num_vert_funs, V.num_edge_funs, V.num_bubb_funs]), np.array([V.mesh is self.M]),
                    np.array([f(t, 0.3 * t) * np.ones(5) for E in V.edge_spaces for f in E.vert_fun_traces + E.edge_fun_traces])]
        if what == "local":
            return [np.array([v.key.glob_idx for v in self.basis]), np.array([v.get_trace_values() for v in self.basis]),
                    np.array([v.harm.trace.w_norm_deriv for v in self.basis]), np.array([v.poly.trace.values for v in self.basis]),
                    np.array([[v.get_l2_inner_prod(w) for v in self.basis] for w in self.basis[:2]])]
        S = self.S
        out = [S.glob_mat.toarray(), S.glob_rhs.toarray(), S.stiff_mat.toarray(), S.mass_mat.toarray(),
               np.array([S.glob_fun_sp is self.V, S.bilinear_form is self.B])]
        if what in ("solution", "kept"):
            out.append(np.array(S.get_solution()))
        if what == "kept":
            w = S.compute_linear_combo_on_mesh_cell(self.M.cell_idx_list[-1], S.soln)
            out += [np.array(w.get_trace_values()), np.array(w.int_vals)]
        return out

    def advance(self):
        pf = self.pf
        if self.stage == 1:
            self.V = fem.quiet(pf.GlobalFunctionSpace, self.M, self.deg, self.quad, verbose=False)
            self.done("space")
        elif self.stage == 2:
            self.L = self.V.build_local_function_space(self.M.cell_idx_list[0], verbose=False, compute_interior_values=False)
            self.N, self.basis = self.L.nyst, self.L.get_basis()
            self.done("local")
        elif self.stage == 3:
            self.B = pf.BilinearForm(2.0, 1.0, pf.Polynomial([(1.0, 0, 0)]))
            self.S = fem.solver(self.V, self.B)
            self.done("system")
        elif self.stage == 4:
            self.S.solve()
            self.done("solution")
        elif self.stage == 5:
            get = self.M.get_cell

            def small(i):
                K = get(i)
                K.set_interior_mesh_size(9, 10)
                return K
            self.M.get_cell = small
            self.S.assemble(verbose=False)
            self.S.solve()
            self.done("kept")

    def improper(self, b):
        pf, M = self.pf, self.M
        from puncturedfem.locfun.edge_space import EdgeSpace
        from puncturedfem.locfun.inner_prod import h1_semi_inner_prod, l2_inner_prod
        from puncturedfem.mesh.split_edge import split_edge
        from puncturedfem.plot import GlobalFunctionPlot, LocalFunctionPlot
        from puncturedfem.solver.globkey import GlobalKey
        P, e, q = pf.Polynomial([(1.0, 1, 0)]), M.edges[0], self.quad
        c0 = M.cell_idx_list[0]
        V, N, S = (getattr(self, k, None) for k in "VNS")
        v = self.basis[0] if self.stage >= 3 else None
        n = V.num_funs if V else 0

        def joined():
            pf.Edge(pf.Vert(0.0, 0.0), pf.Vert(1.0, 0.0), pos_cell_idx=0, curve_type="circle").parameterize(q)
        def drawn():
            with tempfile.TemporaryDirectory() as d:
                GlobalFunctionPlot(S).draw(show_plot=False, filename=os.path.join(d, "a.png"), plot_type="x")
        return {
            "space-nomesh": lambda: pf.GlobalFunctionSpace(None, 1, q), "space-deg0": lambda: pf.GlobalFunctionSpace(M, 0, q),
            "space-deg-half": lambda: pf.GlobalFunctionSpace(M, 1.5, q), "space-deg-text": lambda: pf.GlobalFunctionSpace(M, "2", q),
            "cell-unknown": lambda: M.get_cell(99), "edge-number": lambda: M.add_edge(3), "mesh-of-text": lambda: pf.PlanarMesh(["e"]),
            "edge-no-cell": lambda: M.add_edge(pf.Edge(pf.Vert(0.0, 0.0), pf.Vert(1.0, 0.0))), "split-none": lambda: split_edge(e),
            "split-one": lambda: split_edge(e, num_edges=1), "split-text": lambda: split_edge(e, t_split="1"),
            "edgespace-deg0": lambda: EdgeSpace(e, 0), "edgespace-float": lambda: EdgeSpace(e, 2.0), "edgespace-text": lambda: EdgeSpace("e", 1),
            "nystrom-text": lambda: pf.NystromSolver("K"), "nystrom-unsampled": lambda: pf.NystromSolver(M.get_cell(c0)),
            "quad-n3": lambda: pf.get_quad_dict(n=3), "quad-text": lambda: pf.Quad("trap", "8"), "quad-p1": lambda: pf.get_quad_dict(n=8, p=1),
            "circle-joined": joined,
            "deg-0": lambda: V.set_deg(0), "deg-text": lambda: V.set_deg("1"), "mesh-none": lambda: V.set_mesh(None),
            "local-unknown": lambda: V.build_local_function_space(99, verbose=False), "solver-nospace": lambda: pf.Solver(None, 1),
            "solver-noform": lambda: pf.Solver(V, 3), "key-vert": lambda: V.get_global_idx(GlobalKey("vert", vert_idx=777), 0),
            "key-edge": lambda: V.get_global_idx(GlobalKey("edge", edge_idx=0, edge_space_idx=777), 0),
            "key-bubb": lambda: V.get_global_idx(GlobalKey("bubb", bubb_space_idx=777), 0), "key-type": lambda: GlobalKey("face"),
            "cellspace-deg0": lambda: pf.LocalPoissonSpace(M.get_cell(c0), deg=0), "cellspace-text": lambda: pf.LocalPoissonSpace(M.get_cell(c0), deg="1"),
            "mul-text": lambda: v * "2", "add-number": lambda: v + 1, "sub-number": lambda: v - 1, "div-zero": lambda: v / 0, "div-text": lambda: v / "2",
            "inner-number": lambda: v.get_l2_inner_prod(3), "inner-none": lambda: v.get_h1_semi_inner_prod(None), "poly-div0": lambda: v.poly / 0,
            "poly-add": lambda: v.poly + 1, "poly-mul": lambda: v.poly * "2", "harm-div0": lambda: v.harm / 0, "harm-mul": lambda: v.harm * "2",
            "harm-add": lambda: v.harm + 1, "harm-trace": lambda: v.harm.set_trace(np.zeros(8)), "key-number": lambda: pf.LocalPoissonFunction(N, key=3),
            "nyst-text": lambda: pf.LocalPoissonFunction("N"), "trace-text": lambda: pf.LocalPoissonFunction(N, trace="t"),
            "poly-text": lambda: pf.LocalPoissonFunction(N, laplacian="p"), "product-types": lambda: h1_semi_inner_prod(v, v.harm, N.K),
            "product-cell": lambda: l2_inner_prod(v.harm, v.poly, 3), "conj-short": lambda: N.get_harmonic_conjugate(np.zeros(3)),
            "neumann-short": lambda: N.solve_neumann_zero_average(np.zeros(3)), "precond": lambda: pf.NystromSolver(N.K, precond_type="magic"),
            "antilap": lambda: pf.NystromSolver(N.K, antilap_strategy="magic"), "plot-text": lambda: LocalFunctionPlot("v"),
            "plot-interp": lambda: LocalFunctionPlot(v, use_interp=1), "plot-type": lambda: LocalFunctionPlot(v).draw(show_plot=False, plot_type="x"),
            "edge-short": lambda: N.K.get_edges()[0].integrate_over_edge(np.ones(3)), "cell-short": lambda: N.K.integrate_over_boundary(np.ones(3)),
            "combo-missing": lambda: S.compute_linear_combo_on_mesh_cell(c0, np.zeros(n)), "coef-unknown": lambda: S.get_coef_on_mesh_cell(99, np.zeros(n)),
            "plot-unsolved": lambda: GlobalFunctionPlot(S), "plot-list": lambda: GlobalFunctionPlot(S, coef=[0.0] * n),
            "plot-short": lambda: GlobalFunctionPlot(S, coef=np.zeros(n + 1)), "plot-number": lambda: GlobalFunctionPlot(3),
            "space-none": lambda: S.set_global_function_space(None), "form-none": lambda: S.set_bilinear_form(P),
            "coef-short": lambda: S.get_coef_on_mesh_cell(c0, np.zeros(0)), "combo-unknown": lambda: S.compute_linear_combo_on_mesh_cell(99, np.zeros(n)),
            "combo-short": lambda: S.compute_linear_combo_on_mesh_cell(c0, np.zeros(0)),
            "plot-type-glob": drawn,
        }[b]


PLAIN = {}


def compute(mesh, deg, hist):
    w = Computation(mesh, deg)
    for k, b in enumerate(hist):
        if b == "+":
            w.advance()
        else:
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), rejected(f"step {k}: {b}"):
                w.improper(b)()
    import matplotlib.pyplot as plt
    plt.close("all")
    return w


def staged(mesh, deg, hist):
    key = mesh, deg
    if key not in PLAIN:
        PLAIN[key] = compute(mesh, deg, [b for b in hist if b == "+"]).results
    w = compute(mesh, deg, hist)
    for k, stage in enumerate(["mesh", "space", "local", "system", "solution", "kept"]):
        for i, (a, b) in enumerate(zip(w.results[k], PLAIN[key][k])):
            same(np.shape(a), np.shape(b), f"{stage}, result {i}: size")
            close(np.array(a, dtype=float), np.array(b, dtype=float), 1e-11 * max(1.0, float(np.abs(b).max()) if np.size(b) else 1.0),
                  f"{stage}: result {i}, with and without improper requests")
    # what came early is still there at the end
    for stage, k in (("mesh", 0), ("space", 1)):
        for a, b in zip(w.look(stage), PLAIN[key][k]):
            close(np.array(a, dtype=float), np.array(b, dtype=float), 0, f"{stage} at the end")


def text(names):
    return "={" + ", ".join(f'"{x}"' for x in names) + "}"


def run(chk):
    inv = ["Sound", "Emit"]
    props = ["RefusedChangesNothing", "OneAtATime"]
    objects = ["edge", "cell", "contour", "vert", "key"]
    both = dict(invariants=inv, properties=props)
    recs = [("one", x) for x in chk.tlc("Requests", cfg(**both), name="one request", consts=dict(
        MaxLen=1, EmitAll=True, Focus=text(objects))).records]
    for o in objects:
        if o != "edge" or THOROUGH:
            r = chk.tlc("Requests", cfg(**both), name=f"pairs, {o}", consts=dict(MaxLen=2, EmitAll=True, Focus=text([o])))
            recs += [("pair", x) for x in chk.pick([x for x in r.records if len(x["hist"]) == 2], 20000 if THOROUGH else 500, SEED)]
    r = chk.tlc("Requests", cfg(**both), name="sampling", consts=dict(MaxLen=4, EmitAll=False, Focus=text(["sampling"])))
    refused = [x for x in r.records if x["hist"][-1]["op"] == "parameterize" and not x["hist"][-1]["ok"]]
    recs += [("sampling", x) for x in chk.pick(refused, 5000 if THOROUGH else 400, SEED) + chk.pick(r.records, 5000 if THOROUGH else 200, SEED)]
    for k, f in enumerate([["edge"], ["edge", "contour"], objects]):
        r = chk.tlc("Requests", cfg(**both), name=f"long, {' '.join(f)}", consts=dict(MaxLen=14, EmitAll=False, Focus=text(f)),
                    simulate=800 if THOROUGH else (120 if k < 2 else 60), depth=15, seed=SEED + k)
        recs += [("long", x) for x in chk.pick(r.records, 20000 if THOROUGH else 2500, SEED)]
    cases = []
    for kind, x in recs:
        nm = " ".join(f"{h['on']}.{h['op']}({','.join(str(datum(y)) for y in h['args'])})" for h in x["hist"])
        cases.append((f"{kind}:{nm}", replay, (x,), x))
    p = chk.tlc("Phases", cfg(invariants=["SameResults", "Emit"]), name="stages", consts=dict(MaxBad=8, Total=45),
                simulate=600 if THOROUGH else 60, depth=55, seed=SEED)
    p1 = chk.tlc("Phases", cfg(invariants=["SameResults", "Emit"]), name="stages, one improper request", consts=dict(MaxBad=1, Total=1))
    full = [x for x in p.records if len(x["hist"]) >= 20]
    staged_cases = []
    for m, d, k in [("halves", 1, 12), ("rings", 1, 10), ("lens", 2, 8)] + ([("frame", 1, 100)] if THOROUGH else []):
        for x in chk.pick(full, 20 * k if THOROUGH else k, SEED + k) + chk.pick(p1.records, 400 if THOROUGH else k, SEED + k):
            staged_cases.append((f"stages:{m}-{d} {' '.join(x['hist'])}", staged, (m, d, x["hist"]), dict(mesh=m, deg=d, spec=x)))
    tried = {b for c in staged_cases for b in c[2][2]}
    if len(tried) < 70:
        raise RuntimeError(f"only {len(tried)} kinds of improper requests tried")
    chk.run_cases(cases, timeout=30)
    chk.run_cases(staged_cases, few=2, timeout=300)
    chk.need("stages", 45)
    for k, m in (("one", 300), ("pair", 1500), ("sampling", 500), ("long", 200)):
        chk.need(k, m)
