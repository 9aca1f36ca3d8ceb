"""C28: named curves are the curves their parameters describe."""
import copy

import numpy as np

from harness.core import SEED, THOROUGH, cfg, close, expect, rejected, same
from harness.edgecase import PI
from harness.ref import Geometry, c2

PTS = {"stairs": [[0, 2, 2, 4, 4], [0, 0, 2, 2, 4]], "mirror": [[0, 0, 2, 2, 4], [0, 2, 2, 4, 4]],
       "uneven": [[0, 3, 3, 5, 5], [0, 0, 1, 1, -1]],
       "back": [[1, 1, -2, -2], [1, 3, 3, 0]]}
DEFAULTS = {"circle": {"radius": 1.0}, "teardrop": {"alpha": 1.5}}


def num(x):
    return x["r"][0] / x["r"][1] + x["s"] * (x["q"][0] / x["q"][1]) ** 0.5


def pt(m):
    return complex(num(m["x"]), num(m["y"]))


def options(o):
    out = {}
    for k, v in dict(o or {}).items():
        out[k] = np.array(PTS[v], dtype=float) if k == "pts" else (v[0] if v[1] == 1 else v[0] / v[1])
    return out


def replay(x):
    for r in x["runs"]:
        one(r)


def one(x):
    import puncturedfem as pf
    from puncturedfem.mesh.mesh_exceptions import NotParameterizedError as NPE
    req, out = x["req"], x["out"]
    curve, rule, (t0, t1) = req["curve"], req["rule"], req["part"]
    mx, my, cx, cy = req["place"]
    m, c = complex(mx, my), complex(cx, cy)
    opts = options(req["opts"])
    given = copy.deepcopy(opts)
    span = (t0 * PI / 4, t1 * PI / 4)
    n = max(4, 4 * (t1 - t0))
    quad = pf.get_quad_dict(n=n)

    def vert(z):
        return pf.Vert(x=float(z.real), y=float(z.imag))

    def edge(a, b):
        return pf.Edge(a, b, pos_cell_idx=0, curve_type=curve, quad_type=rule, t_bounds=span, **opts)

    if not out["ok"]:
        # refused, and the edge is left unsampled
        for a, b in ((vert(c), vert(c + m)), (vert(c), vert(c))):
            try:
                e = edge(a, b)
            except Exception:
                continue
            with rejected(f"{curve} with {opts}, rule {rule}"):
                e.parameterize(quad)
            same(bool(e.is_parameterized), False, "sampled after a refusal")
            with rejected("points of an edge whose sampling was refused", NPE):
                e.get_sampled_points()
            if rule != "gauss" and not e.is_loop:
                # the request can be mended
                e.set_curve_type("line")
                e.parameterize(quad)
                g = Geometry("line", {}, span, rule, n)
                s = m / (g.z[-1] - g.z[0])
                g = Geometry("line", {}, span, rule, n, a=s, b=c - s * g.z[0])
                close(e.x, c2(g.z), 1e-10, "line in place of the refused curve")
        return
    marks = sorted(out["marks"], key=lambda y: y["t"])
    if out["closed"]:
        m = 1.0 + 0j
        a = b = vert(c)
    else:
        a, b = vert(m * pt(marks[0]) + c), vert(m * pt(marks[-1]) + c)
    e = edge(a, b)
    same(bool(e.is_loop), out["closed"], "closed")
    for again in range(2):
        e.parameterize(quad)
        same(int(e.num_pts), 2 * n + 1, "number of points")
        z, tan, nor = (v[0] + 1j * v[1] for v in (e.x, e.unit_tangent, e.unit_normal))
        hit = 0
        for y in marks:
            k, rest = divmod((y["t"] - t0) * 2 * n, t1 - t0)
            expect(rest == 0, "landmark at a node (harness)")
            if rule == "kress" and k not in (0, n, 2 * n):
                continue
            hit += 1
            w = f"{curve} {opts} at {y['t']}/8 of a turn: "
            close([z[k].real, z[k].imag], [(m * pt(y) + c).real, (m * pt(y) + c).imag], 1e-10, w + "point")
            if y["dir"]:
                d = m * complex(num(y["dir"][0]), num(y["dir"][1]))
                d /= abs(d)
                close([tan[k].real, tan[k].imag], [d.real, d.imag], 1e-9, w + "direction")
                close([nor[k].real, nor[k].imag], [d.imag, -d.real], 1e-9, w + "normal")
        expect(hit >= 2, "landmarks met (harness)")
        g = Geometry(curve, dict(DEFAULTS.get(curve, {}), **opts), span, rule, n, a=m, b=c)
        close(e.x, c2(g.z), 1e-9, "points between the landmarks")
        close(e.dx_norm, g.dxn, 1e-9 * max(1.0, np.abs(g.dxn).max()), "speed")
        close(e.curvature, g.cur, 1e-8 * max(1.0, np.abs(g.cur).max()), "curvature")
    same(sorted(e.curve_opts), sorted(given), "options kept")
    for k, v in given.items():
        close(np.array(e.curve_opts[k], dtype=float), np.array(v, dtype=float), 0, f"option {k} after sampling")


def name(x):
    q = x["req"]
    o = ",".join(f"{k}={v if isinstance(v, str) else (v[0] if v[1] == 1 else '%d/%d' % tuple(v))}" for k, v in dict(q["opts"] or {}).items())
    return f"{q['curve']}({o}) {q['part'][0]}-{q['part'][1]} {q['rule']} at {q['place']}"


def run(chk):
    inv = ["Tied", "ClosedWhole", "OneAtATime", "NoMemory", "Emit"]
    consts = dict(
        Parts="={<<0, 8>>, <<0, 4>>, <<4, 8>>, <<2, 6>>, <<0, 2>>, <<1, 3>>, <<1, 8>>, <<2, 4>>, <<6, 8>>, <<5, 6>>}",
        Places="={<<1, 0, 0, 0>>, <<0, -2, 3, 1>>" + (", <<-3, 4, -1, 2>>, <<1, 1, 0, -5>>" if THOROUGH else "") + "}")
    r = chk.tlc("Curves", cfg(invariants=inv), name="one edge", consts=dict(consts, MaxPast=0))
    cases = [(f"{'granted' if x['runs'][0]['out']['ok'] else 'refused'}:{name(x['runs'][0])}", replay, (x,), x)
             for x in r.records]
    r = chk.tlc("Curves", cfg(invariants=inv), name="several edges", consts=dict(consts, MaxPast=3),
                simulate=6000 if THOROUGH else 220, depth=9, seed=SEED)
    cases += [(f"several:{'; '.join(map(name, x['runs']))}", replay, (x,), x) for x in chk.pick(r.records, 10**6 if THOROUGH else 1500, SEED)]
    chk.run_cases(cases, timeout=30)
    chk.need("granted", 500)
    chk.need("refused", 90)
    chk.need("several", 150)
