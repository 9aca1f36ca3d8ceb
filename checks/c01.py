"""C01: edge geometry under every history of transformations."""
import numpy as np

from harness.core import SEED, THOROUGH, cfg, close, same, rejected
from harness.edgecase import (BY_ID, PI, compare, cx, geometry, tla_curves,
                              vert)
from harness.ref import c2

INV = ["Emit", "NonDegenerate", "EndsOK"]
PROPS = ["SamplingIsObservation", "IsometryLaw"]


def near(v, g, what):
    close([v.x, v.y], [cx(g).real, cx(g).imag], 1e-9, what)


def on_points(h, X):
    """The same step on an array of points (mesh/transform.py)."""
    import puncturedfem as pf
    from puncturedfem.mesh import transform as T
    op, X = h["op"], X.copy()
    if op == "translate":
        return T.translate(X, vert(h["v"]))
    if op == "rotate":
        u = cx(h["u"])
        return T.rotate(X, h["deg"] if h["deg"] != 999 else float(np.degrees(np.arctan2(u.imag, u.real))))
    if op == "reflect":
        return (T.reflect_across_x_axis if h["axis"] == "x" else T.reflect_across_y_axis)(X)
    if op == "dilate":
        return T.dilate(X, h["f"][0] / h["f"][1])
    if op == "orth":
        u, d = cx(h["u"]), h["det"]
        return T.apply_orthogonal_transformation(X, np.array([[u.real, -d * u.imag], [u.imag, d * u.real]]))
    if op == "join":
        return T.join_points(X, vert(h["p"]), vert(h["q"]))
    if op == "bad":
        kind = h["kind"]
        if kind == "dilate0":
            T.dilate(X, 0.0)
        elif kind == "joinsame":
            T.join_points(X, pf.Vert(1.0, 2.0), pf.Vert(1.0, 2.0))
        elif kind == "joinloop":
            T.join_points(X, pf.Vert(0.0, 0.0), pf.Vert(1.0, 2.0))
        else:
            T.apply_orthogonal_transformation(X, dict(
                shear=np.array([[1.0, 1.0], [0.0, 1.0]]), scaled=np.array([[2.0, 0.0], [0.0, 2.0]]), shape=np.eye(3))[kind])
    return X


def points_replay(rec):
    from puncturedfem.mesh.mesh_exceptions import EdgeTransformationError as ETE
    hist, cid = rec["hist"], rec["curve"]
    X = c2(geometry(cid, 5, hist[0]["map"]).z)
    for k, h in enumerate(hist[1:], 1):
        if h["op"] == "bad":
            with rejected(f"step {k}: {h['kind']} on points", ETE):
                on_points(h, X)
        else:
            X = on_points(h, X)
        close(X, c2(geometry(cid, 5, h["map"]).z), 1e-9, f"step {k}: points after {h['op']}")


def replay(rec):
    points_replay(rec)
    import puncturedfem as pf
    from puncturedfem.mesh.mesh_exceptions import EdgeTransformationError as ETE
    cid = rec["curve"]
    _, curve, opts, tb, qt, p0, p1, loop = BY_ID[cid]
    hist = rec["hist"]
    h0 = hist[0]
    a = vert(h0["p"])
    b = a if loop else vert(h0["q"])
    e = pf.Edge(a, b, pos_cell_idx=0, curve_type=curve, quad_type=qt,
                t_bounds=(tb[0] * PI, tb[1] * PI), **opts)
    n_last = None
    for k, h in enumerate(hist[1:], 1):
        op = h["op"]
        if op == "translate":
            e.translate(vert(h["v"]))
        elif op == "rotate":
            u = cx(h["u"])
            e.rotate(h["deg"] if h["deg"] != 999 else
                     float(np.degrees(np.arctan2(u.imag, u.real))))
        elif op == "reflect":
            if h["axis"] == "x":
                e.reflect_across_x_axis()
            else:
                e.reflect_across_y_axis()
        elif op == "dilate":
            e.dilate(h["f"][0] / h["f"][1])
        elif op == "orth":
            u, d = cx(h["u"]), h["det"]
            e.apply_orthogonal_transformation(
                np.array([[u.real, -d * u.imag], [u.imag, d * u.real]]))
        elif op == "join":
            e.join_points(vert(h["p"]), vert(h["q"]))
        elif op == "parameterize":
            e.parameterize(pf.get_quad_dict(n=h["n"]))
            n_last = h["n"]
        elif op == "deparameterize":
            e.deparameterize()
        elif op == "bad":
            kind = h["kind"]
            with rejected(f"step {k}: {kind}", ETE):
                if kind == "dilate0":
                    e.dilate(0.0)
                elif kind == "joinsame":
                    e.join_points(pf.Vert(1.0, 2.0), pf.Vert(1.0, 2.0))
                elif kind == "joinloop":
                    e.join_points(pf.Vert(0.0, 0.0), pf.Vert(1.0, 2.0))
                elif kind == "shear":
                    e.apply_orthogonal_transformation(
                        np.array([[1.0, 1.0], [0.0, 1.0]]))
                elif kind == "scaled":
                    e.apply_orthogonal_transformation(
                        np.array([[2.0, 0.0], [0.0, 2.0]]))
                elif kind == "shape":
                    e.apply_orthogonal_transformation(np.eye(3))
        else:
            raise RuntimeError(op)
        if h["sampled"]:
            same(h["sampled"], n_last, "sampling (harness)")
            compare(e, geometry(cid, n_last, h["map"]), n_last)
        else:
            same(bool(e.is_parameterized), False, f"step {k}: sampled flag")
        near(e.anchor, h["anchor"], f"step {k}: anchor")
        near(e.endpnt, h["endpnt"], f"step {k}: endpoint")
        same(bool(e.is_loop), loop, "is_loop")
    # re-sampling, at the same and at another resolution, gives the same curve
    for n in (n_last or 5, 6):
        e.parameterize(pf.get_quad_dict(n=n))
        compare(e, geometry(cid, n, hist[-1]["map"]), n)


def run(chk):
    pts = [(0, 0, 1), (2, 0, 1), (1, 3, 1), (-2, 1, 1)]
    # every history of two calls, from one open and one closed curve
    r = chk.tlc("EdgeGeom", cfg(invariants=INV, properties=PROPS),
                name="exhaustive", consts=dict(
                    Curves="=" + curves_text(tla_curves({"sine-half", "teardrop"})),
                    InitPts="={<<0,0,1>>, <<1,3,1>>}", Depth=2, MaxBig=2))
    recs = [("pair", x) for x in chk.pick(r.records, 10**6 if THOROUGH else 1800)]
    # random long histories over all curves
    r = chk.tlc("EdgeGeom", cfg(invariants=INV, properties=PROPS),
                name="simulation", consts=dict(
                    Curves="=" + curves_text(tla_curves()),
                    InitPts="={" + ",".join(f"<<{p[0]},{p[1]},{p[2]}>>" for p in pts) + "}",
                    Depth=8, MaxBig=2),
                simulate=1500 if THOROUGH else 150, depth=10, seed=SEED)
    recs += [("long", x) for x in chk.pick(r.records, 40000 if THOROUGH else 3000)]
    chk.run_cases([
        (f"{kind}:{x['curve']}:{'-'.join(h['op'] for h in x['hist'])}",
         replay, (x,), x) for kind, x in recs])
    chk.need("pair", 1000)
    chk.need("long", 500)


def curves_text(cs):
    def g(p):
        return f"<<{p[0]},{p[1]},{p[2]}>>"
    return "{" + ", ".join(
        f'[id |-> "{c["id"]}", p0 |-> {g(c["p0"])}, p1 |-> {g(c["p1"])}, '
        f'loop |-> {str(c["loop"]).upper()}]' for c in cs) + "}"
