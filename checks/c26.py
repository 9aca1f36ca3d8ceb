"""C26: options that only report, or ask for more data, change nothing else."""
import contextlib
import io
import re

import numpy as np

from harness import shapes
from harness.core import SEED, THOROUGH, cfg, close, expect, same
from harness.meshes import BY_NAME

REPORT = '{"silent", "verbose"}'
ALL = '{"silent", "verbose", "debug", "both"}'
EXTRAS = '{"none", "values", "gradients", "both"}'
NONE = '{"none"}'


def stages(*rows):
    return "=<<" + ", ".join(f'[name |-> "{n}", report |-> {r}, extras |-> {x}, uses |-> {u}]' for n, r, x, u in rows) + ">>"


GLOBAL = stages(("mesh", REPORT, NONE, "{}"), ("space", REPORT, NONE, "{1}"), ("local", REPORT, EXTRAS, "{2}"),
                ("solver", REPORT, EXTRAS, "{2}"), ("again", REPORT, EXTRAS, "{4}"))
LOCAL = stages(("nystrom", ALL, NONE, "{}"), ("function", '{"silent"}', EXTRAS, "{1}"), ("basis", REPORT, EXTRAS, "{}"))
EXTRA_KW = {"none": (False, False), "values": (True, False), "gradients": (False, True), "both": (True, True)}


@contextlib.contextmanager
def heard():
    out, err = io.StringIO(), io.StringIO()
    box = {}
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        yield box
    box["out"], box["err"] = out.getvalue(), err.getvalue()


def spoken(box, said, what):
    if not said:
        same((box["out"], box["err"]), ("", ""), f"{what}: messages of a silent run")


def counts(text, what, **true):
    """Numbers that a message states."""
    for name, n in re.findall(r"num_(\w+): *(-?\d+)", text):
        if name in true:
            same(int(n), true[name], f"{what}: the message on {name}")


def system(S):
    return dict(A=S.glob_mat.toarray(), b=S.glob_rhs.toarray().ravel(), K=S.stiff_mat.toarray(), M=S.mass_mat.toarray(),
                u=np.array(S.get_solution()))


def agree(got, want, what, tol=1e-13):
    same(sorted(got), sorted(want), f"{what}: what there is")
    for k in want:
        sc = max(1.0, float(np.abs(want[k]).max()) if np.size(want[k]) else 1.0)
        close(np.array(got[k]) / sc, np.array(want[k]) / sc, tol, f"{what}: {k}")


def function(f):
    out = dict(trace=np.array(f.get_trace_values()), harm=np.array(f.harm.trace.values), poly=np.array(f.poly.trace.values),
               conj=np.array(f.harm.conj_trace.values), log=np.array(f.harm.log_coef), wn=np.array(f.harm.trace.w_norm_deriv),
               wt=np.array(f.harm.trace.w_tang_deriv))
    return out


def inside(f):
    return dict(v=np.array(f.int_vals), g1=np.array(f.int_grad1), g2=np.array(f.int_grad2))


def kept(f, k, full, what):
    """What was asked for is there, and right."""
    for name, attrs in (("values", ("v",)), ("gradients", ("g1", "g2"))):
        if k[name]:
            got = inside(f)
            for a in attrs:
                ref = full[a]
                same(got[a].shape, ref.shape, f"{what}: number of interior points")
                sc = max(1.0, float(np.abs(ref).max()) if ref.size else 1.0)
                close(got[a] / sc, ref / sc, 1e-13, f"{what}: interior {name}")


PLAIN = {}


def small_grids(M):
    """Cells with few interior points, to save time."""
    real = M.get_cell

    def get_cell(cell_idx):
        K = real(cell_idx)
        K.set_interior_mesh_size(9, 10)
        return K
    M.get_cell = get_cell


def play_global(mesh, deg, n, o, kk):
    import puncturedfem as pf
    rec = {}
    opt = {x["stage"]: x for x in o}
    keep = dict(zip([x["stage"] for x in o], kk))
    m = BY_NAME[mesh]
    loud = {s: x["report"] != "silent" for s, x in opt.items()}
    edges = list(m.build(pf).edges)
    with heard() as box:
        M = pf.PlanarMesh(edges, verbose=loud["mesh"])
    spoken(box, loud["mesh"], "mesh")
    small_grids(M)
    counts(box["out"] + str(M), "mesh", verts=M.num_verts, edges=M.num_edges, cells=M.num_cells)
    rec["mesh"] = dict(cells=np.array(M.cell_idx_list), verts=np.array(M.vert_idx_list), idx=np.array([e.idx for e in M.edges]))
    with heard() as box:
        V = pf.GlobalFunctionSpace(M, deg, pf.get_quad_dict(n), verbose=loud["space"])
    spoken(box, loud["space"], "space")
    counts(box["out"] + str(V), "space", verts=M.num_verts, edges=M.num_edges, cells=M.num_cells, funs=V.num_funs,
           bubb_funs=V.num_bubb_funs, vert_funs=V.num_vert_funs, edge_funs=V.num_edge_funs)
    expect(not any(e.is_parameterized for e in M.edges), "no edge is sampled once the space is built")
    t = np.linspace(-1, 1, 7)
    rec["space"] = dict(n=np.array([V.num_funs, V.num_bubb_funs, V.num_vert_funs, V.num_edge_funs]),
                        edges=np.array([f(t, 0.3 * t) * np.ones(7) for E in V.edge_spaces for f in E.vert_fun_traces + E.edge_fun_traces]))
    cell = M.cell_idx_list[-1]
    iv, ig = EXTRA_KW[opt["local"]["extras"]]
    with heard() as box:
        L = V.build_local_function_space(cell, verbose=loud["local"], compute_interior_values=iv, compute_interior_gradient=ig)
    spoken(box, loud["local"], "local space")
    basis = L.get_basis()
    rec["local"] = {f"{i} {k}": x for i, f in enumerate(basis) for k, x in function(f).items()}
    rec["local"]["keys"] = np.array([(f.key.glob_idx, f.key.is_on_boundary) for f in basis])
    rec["basis"] = basis
    rec["systems"] = []
    S = None
    for s in ("solver", "again"):
        iv, ig = EXTRA_KW[opt[s]["extras"]]
        with heard() as box:
            kw = dict(verbose=loud[s], compute_interior_values=iv, compute_interior_gradient=ig)
            if S is None:
                B = pf.BilinearForm(2.0, 3.0, pf.Polynomial([(1.0, 0, 0), (-1.0, 1, 0)]))
                S = pf.Solver(V, B, **kw)
            else:
                S.assemble(**kw)
        spoken(box, loud[s], s)
        counts(box["out"] + str(S), s, verts=M.num_verts, edges=M.num_edges, cells=M.num_cells)
        for num, of in re.findall(r"Cell +(\d+) */ *(\d+)", box["out"]):
            same(int(of), M.num_cells, "progress: number of cells")
            expect(1 <= int(num) <= M.num_cells, "progress: number of the cell")
        with heard() as box:
            rec["systems"].append(system(S))
        same((box["out"], box["err"]), ("", ""), "messages of reading the solution")
        have = [x is not None for x in S.local_function_spaces]
        if iv:
            same(have, [True] * M.num_cells, "local functions that were asked for")
            rec.setdefault("combos", {})[s] = S.compute_linear_combo_on_mesh_cell(cell, rec["systems"][-1]["u"])
    return rec, keep


def run_global(mesh, deg, n, x):
    key = mesh, deg, n
    if key not in PLAIN:
        silent = [dict(stage=o["stage"], report="silent", extras="none") for o in x["opts"]]
        full = [dict(stage=o["stage"], report="silent", extras="none" if o["stage"] in ("mesh", "space") else "both") for o in x["opts"]]
        PLAIN[key] = play_global(mesh, deg, n, silent, x["kept"])[0], play_global(mesh, deg, n, full, x["kept"])[0]
    plain, full = PLAIN[key]
    got, keep = play_global(mesh, deg, n, x["opts"], x["kept"])
    for s in ("mesh", "space", "local"):
        agree(got[s], plain[s], s)
    agree(got["local"], full["local"], "local")
    for i, f in enumerate(got["basis"]):
        kept(f, keep["local"], inside(full["basis"][i]), f"function {i}")
    for k, s in enumerate(("solver", "again")):
        agree(got["systems"][k], plain["systems"][0], s)
        if s in got.get("combos", {}):
            f = got["combos"][s]
            agree(function_values(f), function_values(full["combos"][s]), f"solution of {s}", 1e-12)
            kept(f, keep[s], inside(full["combos"][s]), f"solution of {s}")


def function_values(f):
    return dict(trace=np.array(f.get_trace_values()), log=np.array(f.harm.log_coef))


def play_local(shape, n, opts):
    import puncturedfem as pf
    opt = {x["stage"]: x for x in opts}
    rec = {}
    K = shapes.build_cell(shapes.BY_NAME[shape], int_mesh_size=(9, 10))[0]
    K.parameterize(pf.get_quad_dict(n))
    rep = opt["nystrom"]["report"]
    with heard() as box:
        N = pf.NystromSolver(K, verbose=rep in ("verbose", "both"), debug=rep in ("debug", "both"))
    spoken(box, rep != "silent", "solver of a cell")
    for a, b in re.findall(r"(\d+) sampled points on (\d+) edge", box["out"]):
        same((int(a), int(b)), (K.num_pts, len(K.get_edges())), "message on the cell")
    for c in re.findall(r"[Cc]ondition number = ([-\w.+]+)", box["out"]):
        expect(float(c) >= 1.0, f"condition number {c}")
    x, y = (np.array(c) for c in K.get_boundary_points())
    phi = x * x - y + 0.25 * np.sin(x + 2 * y)
    conj, log = N.get_harmonic_conjugate(phi)
    rec["nystrom"] = dict(S=N.single_layer_mat, D=N.double_layer_mat, conj=conj, log=log, z=N.solve_neumann_zero_average(phi - phi.mean()))
    iv, ig = EXTRA_KW[opt["function"]["extras"]]
    with heard() as box:
        f = pf.LocalPoissonFunction(N, pf.Polynomial([(1.0, 0, 0), (2.0, 1, 1)]), pf.DirichletTrace(K.get_edges(), values=phi),
                                    evaluate_interior=iv, evaluate_gradient=ig)
    spoken(box, False, "function")
    rec["function"] = dict(function(f), h1=np.array(f.get_h1_semi_inner_prod(f)), l2=np.array(f.get_l2_inner_prod(f)))
    rec["f"] = f
    iv, ig = EXTRA_KW[opt["basis"]["extras"]]
    loud = opt["basis"]["report"] != "silent"
    for k, e in enumerate(K.get_edges()):
        e.set_idx(k)
    number = {}
    for e in K.get_edges():
        for v in (e.anchor, e.endpnt):
            v.set_idx(number.setdefault((round(v.x, 6), round(v.y, 6)), len(number)))
    with heard() as box:
        L = pf.LocalPoissonSpace(K, deg=2, verbose=loud, compute_interior_values=iv, compute_interior_gradient=ig)
    spoken(box, loud, "local space")
    rec["basis"] = {f"{i} {k}": v for i, g in enumerate(L.get_basis()) for k, v in function(g).items()}
    rec["b"] = L.get_basis()
    return rec


def run_local(shape, n, x):
    key = shape, n
    if key not in PLAIN:
        mk = lambda e: [dict(stage=o["stage"], report="silent", extras=e if o["stage"] != "nystrom" else "none") for o in x["opts"]]  # noqa: E731
        PLAIN[key] = play_local(shape, n, mk("none")), play_local(shape, n, mk("both"))
    plain, full = PLAIN[key]
    got = play_local(shape, n, x["opts"])
    for s in ("nystrom", "function", "basis"):
        agree(got[s], plain[s], s)
        agree(got[s], full[s], s)
    keep = dict(zip([o["stage"] for o in x["opts"]], x["kept"]))
    kept(got["f"], keep["function"], inside(full["f"]), "function")
    for i, g in enumerate(got["b"]):
        kept(g, keep["basis"], inside(full["b"][i]), f"basis function {i}")


def run(chk):
    inv = ["SameResults", "SilentWhenAsked", "KeepsAsked", "Emit"]
    g = chk.tlc("Options", cfg(invariants=inv), name="spaces and systems", consts=dict(Stages=GLOBAL))
    lo = chk.tlc("Options", cfg(invariants=inv), name="cells", consts=dict(Stages=LOCAL))
    cases = []
    meshes = [("diagonal", 2), ("rings", 2), ("sector", 1), ("halves", 3), ("lens", 2)] + ([("frame", 1), ("panes", 1), ("islands", 1)] if THOROUGH else [])
    name = lambda x: " ".join(f"{o['stage']}:{o['report']}:{o['extras']}" for o in x["opts"])  # noqa: E731
    for k, (m, d) in enumerate(meshes):
        for x in chk.pick(g.records, 200 if THOROUGH else 20, SEED + k):
            cases.append((f"global:{m}-{d} {name(x)}", run_global, (m, d, 8, x), dict(mesh=m, deg=d, spec=x)))
    for k, s in enumerate(SHAPES):
        for x in (lo.records if THOROUGH else chk.pick(lo.records, 24, SEED + k)):
            cases.append((f"cell:{s} {name(x)}", run_local, (s, 8, x), dict(shape=s, spec=x)))
    chk.run_cases(cases, few=2, timeout=300)
    chk.need("global", 90)
    chk.need("cell", 80)


SHAPES = ["disc", "sq-circ", "tri-tri", "tri-lens-circ"]
