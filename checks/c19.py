"""C19: the numbering of the degrees of freedom, judged by DofJudge.tla."""
import json

import numpy as np

from harness import fespace as fs
from harness import locfun as lf
from harness.core import THOROUGH, MachineryError, Mismatch, cfg, expect, rejected, same
from harness.meshes import BY_NAME, MESHES


def integer(x):
    expect(isinstance(x, (int, np.integer)) and not isinstance(x, bool), f"{x!r} is no integer")
    return int(x)


def record(rec, i):
    V = fs.space(rec)
    classes, visits = fs.Classes(), []
    for c in rec["visits"]:
        L, bl, basis, what = fs.visit(V, c, compute_interior_values=False)
        funs = []
        for f, (kind, ent, data) in zip(basis, what):
            k = f.key
            if kind == "bubb":
                ent, cls = c, classes.of(("bubb", c), fs.lap_terms(f))
            elif kind == "edge":
                cls = classes.of(("edge", ent), data[1])
            else:
                cls = 0
            kk = {"edge": k.edge_space_idx, "bubb": k.bubb_space_idx}.get(k.fun_type, -1)
            funs.append(dict(type=kind, ent=ent, **{"class": cls}, glob=integer(k.glob_idx),
                             flag=bool(k.is_on_boundary), ktype=k.fun_type, kvert=integer(k.vert_idx),
                             kedge=integer(k.edge_idx), kk=integer(kk)))
            same(V.get_global_idx(k, V.mesh.get_abs_cell_idx(c)), k.glob_idx, "global index of a key")
            same(bool(V.fun_is_on_boundary(k)), bool(k.is_on_boundary), "boundary flag of a key")
        visits.append(dict(cell=c, funs=funs, dofs=[]))
    # the space's own lists, once everything has been visited
    pos = {c: k for k, c in enumerate(V.mesh.cell_idx_list)}
    for v in visits:
        v["dofs"] = [int(k.glob_idx) for k in V.cell_dofs[pos[v["cell"]]]]
    for c, k in pos.items():
        if c not in rec["visits"]:
            same(len(V.cell_dofs[k]), 0, f"keys of cell {c}, which was not built")
    probe_keys(V, rec)
    return dict(id=i, visits=visits, cells=rec["cells"], allcells=rec["allcells"],
                total=rec["total"], nvert=rec["nvert"], nedge=rec["nedge"], nbubb=rec["nbubb"],
                gtotal=int(V.num_funs), gvert=int(V.num_vert_funs), gedge=int(V.num_edge_funs), gbubb=int(V.num_bubb_funs))


def probe_keys(V, rec):
    """Keys beyond what there is are refused."""
    from puncturedfem.solver.globkey import GlobalKey
    num = rec["deg"] * (rec["deg"] - 1) // 2
    last = V.mesh.num_cells - 1
    with rejected("a bubble beyond the last", IndexError):
        V.get_global_idx(GlobalKey("bubb", bubb_space_idx=num), last)
    with rejected("an unknown vertex", ValueError, IndexError):
        V.get_global_idx(GlobalKey("vert", vert_idx=max(V.mesh.vert_idx_list, default=0) + 1), 0)
    with rejected("an edge beyond the last", IndexError):
        V.get_global_idx(GlobalKey("edge", edge_idx=V.mesh.num_edges, edge_space_idx=0), 0)


def keys():
    """Keys keep exactly the indices of their type."""
    from puncturedfem.solver.globkey import GlobalKey
    k = GlobalKey("vert", edge_idx=3, vert_idx=4, bubb_space_idx=5, edge_space_idx=6)
    same((k.fun_type, k.vert_idx, k.edge_idx, k.bubb_space_idx, k.edge_space_idx), ("vert", 4, -1, -1, -1), "vertex key")
    k = GlobalKey("edge", edge_idx=3, vert_idx=4, bubb_space_idx=5, edge_space_idx=6)
    same((k.fun_type, k.vert_idx, k.edge_idx, k.bubb_space_idx, k.edge_space_idx), ("edge", -1, 3, -1, 6), "edge key")
    k = GlobalKey("bubb", edge_idx=3, vert_idx=4, bubb_space_idx=5, edge_space_idx=6)
    same((k.fun_type, k.vert_idx, k.edge_idx, k.bubb_space_idx, k.edge_space_idx), ("bubb", -1, -1, 5, -1), "bubble key")
    for bad in ("", "Vert", "cell", None, 0):
        with rejected(f"function type {bad!r}", ValueError, TypeError):
            GlobalKey(bad)
    for bad in (1.0, "1", None):
        for name in ("edge_idx", "vert_idx", "bubb_space_idx", "edge_space_idx"):
            for t in ("vert", "edge", "bubb"):
                with rejected(f"{name} = {bad!r}", TypeError):
                    GlobalKey(t, **{name: bad})
        with rejected(f"global index {bad!r}", TypeError):
            k.set_glob_idx(bad)
    with rejected("a negative global index", ValueError):
        k.set_glob_idx(-1)
    k.set_glob_idx(0)
    same(k.glob_idx, 0, "global index")


def arguments():
    import puncturedfem as pf
    mesh = MESHES[0].build(pf)
    q = pf.get_quad_dict(8)
    for deg in (0, -1):
        with rejected(f"degree {deg}", ValueError):
            pf.GlobalFunctionSpace(mesh, deg, q, verbose=False)
    for deg in (1.0, "2", None):
        with rejected(f"degree {deg!r}", TypeError):
            pf.GlobalFunctionSpace(mesh, deg, q, verbose=False)
    for m in (mesh.edges, None, mesh.get_cell(0)):
        with rejected("a mesh of another type", Exception):
            pf.GlobalFunctionSpace(m, 1, q, verbose=False)
    V = pf.GlobalFunctionSpace(mesh, 1, q, verbose=False)
    for c in (2, -1, 17):
        with rejected(f"cell {c}", IndexError, ValueError):
            V.build_local_function_space(c, verbose=False)


def library(name):
    """The library's own meshes, all cells."""
    import puncturedfem as pf
    mesh = {"pacman_subdiv": lambda: pf.meshlib.pacman_subdiv(verbose=False),
            "pegboard": lambda: pf.meshlib.pegboard((2, 2), verbose=False)}[name]()
    V = pf.GlobalFunctionSpace(mesh, 1, pf.get_quad_dict(8), verbose=False)
    classes, seen, owner = fs.Classes(), {}, {}
    for c in mesh.cell_idx_list:
        L, bl, basis, what = fs.visit(V, c)
        for f, (kind, ent, data) in zip(basis, what):
            expect(kind in ("vert", "edge"), "kind of a function")
            if kind == "edge":
                on = mesh.edge_is_on_boundary(ent)
                ident = (kind, ent, classes.of(("edge", ent), data[1]))
            else:
                on = mesh.vert_is_on_boundary(ent)
                ident = (kind, ent, 0)
            g = f.key.glob_idx
            same(seen.setdefault(ident, g), g, f"number of {ident}")
            same(owner.setdefault(g, ident), ident, f"function number {g}")
            same(bool(f.key.is_on_boundary), bool(on), f"boundary flag of {ident}")
    same(sorted(owner), list(range(V.num_funs)), "numbers in use")


def run(chk):
    chk.case("keys:indices", keys, sample=dict(op="keys"))
    chk.case("keys:arguments", arguments, sample=dict(op="arguments"))
    fs.visit(fs.space(dict(mesh="rings", deg=1, listing=[(1, False), (2, False)])), 3)
    meshes = "=<<" + ", ".join(m.tla() for m in MESHES) + ">>"
    orders = "={<<0, 0, 0>>, <<1, 1, 2>>, <<0, 3, 1>>}"
    r = chk.tlc("GlobalDofs", cfg(invariants=["OK", "Emit"]), consts=dict(
        Meshes=meshes, Degs="={1, 2, 3}", MaxOps="=2", Orders=orders))
    full = [x for x in r.records if set(x["visits"]) == set(x["allcells"])]
    part = [x for x in r.records if set(x["visits"]) != set(x["allcells"])]
    todo = [x for x in full if x["visits"] == sorted(x["allcells"])]
    todo = chk.pick(todo, 400 if THOROUGH else 36, 1) + chk.pick([x for x in full if x not in todo], 600 if THOROUGH else 22, 2) \
        + chk.pick(part, 600 if THOROUGH else 22, 3)
    cases = [(f"numbering:{x['mesh']}-deg{x['deg']}-{i}", record, (x, i), x) for i, x in enumerate(todo)]
    got = chk.run_cases(cases, few=2)
    chk.run_cases([(f"library:{n}", library, (n,), dict(mesh=n)) for n in ("pacman_subdiv", "pegboard")], few=2)
    chk.need("numbering", 60)
    if got:
        r = chk.tlc("DofJudge", cfg(invariants=["Verdict"]), consts=dict(File="cases.json"),
                    files={"cases.json": json.dumps(got)})
        if len(r.records) != len(got):
            raise MachineryError("the judge did not answer for every case")
        for x in r.records:
            for f in x["faults"]:
                rec = todo[x["id"]]
                chk.violation(f"numbering:{rec['mesh']}-deg{rec['deg']}", f, f"specified: {f}; behaviour {rec['listing']} {rec['visits']}",
                              dict(data=rec, recorded=[g for g in got if g["id"] == x["id"]]))
