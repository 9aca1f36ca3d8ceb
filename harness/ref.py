"""Reference curves and quadrature, written from their documentation and
independent of the code under test.  Derivatives come from truncated Taylor
arithmetic (jets), not from hand-copied formulas."""
import numpy as np


class Jet:
    """Value and first two derivatives along the parameter."""

    def __init__(self, v, d=0.0, e=0.0):
        self.v, self.d, self.e = v, d, e

    @staticmethod
    def lift(o):
        return o if isinstance(o, Jet) else Jet(np.asarray(o, dtype=float))

    def __add__(self, o):
        o = Jet.lift(o)
        return Jet(self.v + o.v, self.d + o.d, self.e + o.e)
    __radd__ = __add__

    def __neg__(self):
        return Jet(-self.v, -self.d, -self.e)

    def __sub__(self, o):
        return self + (-Jet.lift(o))

    def __rsub__(self, o):
        return Jet.lift(o) - self

    def __mul__(self, o):
        o = Jet.lift(o)
        return Jet(self.v * o.v, self.d * o.v + self.v * o.d,
                   self.e * o.v + 2 * self.d * o.d + self.v * o.e)
    __rmul__ = __mul__

    def __truediv__(self, c):
        return self * (1.0 / c)

    def __pow__(self, k):
        r = Jet(1.0)
        for _ in range(k):
            r = r * self
        return r


def jsin(x):
    s, c = np.sin(x.v), np.cos(x.v)
    return Jet(s, c * x.d, c * x.e - s * x.d ** 2)


def jcos(x):
    s, c = np.sin(x.v), np.cos(x.v)
    return Jet(c, -s * x.d, -s * x.e - c * x.d ** 2)


def _line(t):
    return t / (2 * np.pi), 0.0 * t


def _circle(t, radius=1):
    return radius * jcos(t), radius * jsin(t)


def _ellipse(t, a, b):
    return a * jcos(t), b * jsin(t)


def _bean(t):
    return jcos(t) + 0.65 * jcos(2 * t), 1.5 * jsin(t)


def _cartioid(t, a):
    r = 1 + a * (1 - t / np.pi) ** 8
    return r * jcos(t), r * jsin(t)


def _teardrop(t, alpha=1.5):
    beta = np.tan(np.pi / (2 * alpha))
    return 2 * jsin(t / 2), -beta * jsin(t)


def _sine_wave(t, amp, freq):
    return t / (2 * np.pi), amp * jsin(freq * t / 2)


def _arc(t, H):
    # arc from (0, 0) to (1, 0) on the circle centred at (1/2, H)
    R = np.hypot(0.5, H)
    t0 = np.arctan2(H, 0.5)
    th = (t0 + np.pi) - (np.pi + 2 * t0) * t / (2 * np.pi)
    return 0.5 + R * jcos(th), H + R * jsin(th)


def _arc_deg(t, theta0):
    th = theta0 / 360.0 * t
    return jcos(th), jsin(th)


def _spline(t, pts):
    from scipy import interpolate
    tck = interpolate.splprep(pts, s=0)[0]
    u = t.v / (2 * np.pi)
    k = 1 / (2 * np.pi)
    v, d, e = (interpolate.splev(u, tck, der=i) for i in range(3))
    return tuple(Jet(np.array(v[i]), k * t.d * np.array(d[i]),
                     k * k * t.d ** 2 * np.array(e[i])) for i in range(2))


CURVES = dict(line=_line, circle=_circle, ellipse=_ellipse, bean=_bean,
              cartioid=_cartioid, teardrop=_teardrop, sine_wave=_sine_wave,
              circular_arc=_arc, circular_arc_deg=_arc_deg, spline=_spline)


def nodes(qtype, n, p=7):
    """Nodes t and weights dt/ds of the trapezoid or Kress rule."""
    s = 2 * np.pi * np.arange(2 * n + 1) / (2 * n)
    if qtype == "trap":
        return s, np.ones(2 * n + 1)
    # Kress (1990): w = 2 pi v^p / (v^p + v(2pi - s)^p)
    sig = Jet(s, np.ones_like(s), np.zeros_like(s))

    def v(x):
        y = (np.pi - x) / np.pi
        return (1.0 / p - 0.5) * y ** 3 - y / p + 0.5

    a, b = v(sig) ** p, v(2 * np.pi - sig) ** p
    den = a + b
    t = 2 * np.pi * a.v / den.v
    w = 2 * np.pi * (a.d * b.v - a.v * b.d) / den.v ** 2
    return t, w


class Geometry:
    """Sampled curve: points, tangent, normal, speed*weight, curvature."""

    def __init__(self, curve, opts, t_bounds, qtype, n, a=1.0, b=0.0,
                 flip=False, p=7):
        s, w = nodes(qtype, n, p)
        lo, hi = t_bounds
        dt = (hi - lo) / (2 * np.pi)
        t = Jet(lo + dt * s, dt * np.ones_like(s), np.zeros_like(s))
        x, y = CURVES[curve](t, **opts)
        z = x.v + 1j * y.v
        dz = x.d + 1j * y.d
        ddz = x.e + 1j * y.e
        if flip:
            z, dz, ddz = z.conj(), dz.conj(), ddz.conj()
        z, dz, ddz = a * z + b, a * dz, a * ddz
        self.z = z
        sp = np.abs(dz)
        self.tan = dz / sp
        self.nor = -1j * self.tan
        self.dxn = sp * w
        # signed curvature in the library's convention: second derivative
        # dotted with the (right-hand) unit normal over the squared speed
        self.cur = (ddz * self.nor.conj()).real / sp ** 2

    def reversed(self):
        self.z = self.z[::-1]
        self.tan = -self.tan[::-1]
        self.nor = -self.nor[::-1]
        self.dxn = self.dxn[::-1]
        self.cur = -self.cur[::-1]
        return self


def c2(z):
    return np.array([z.real, z.imag])
