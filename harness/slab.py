"""Independent slab-waveguide solver: exact mode counting by oscillation (Sturm)
theory, bisection, then root refinement.  Nothing here is taken from legume.

One polarisation is the Sturm-Liouville problem  (p u')' = q u  with
    TE: p = 1,     q = g^2 - eps w^2         (u ~ E along q)
    TM: p = 1/eps, q = g^2/eps - w^2         (u ~ H along q)
"""
import numpy as np
from math import sqrt, sin, cos, sinh, cosh, pi, atan2, exp
from scipy.optimize import brentq


def _layer(u, v, k2, p, d):
    """Propagate (u, v=p u') through a homogeneous layer; return (u, v, zeros)."""
    if k2 > 0:
        k = sqrt(k2)
        # u = R sin(theta), v = R p k cos(theta); theta advances by k d
        th = atan2(u * p * k, v)
        z = int(np.floor((th + k * d) / pi) - np.floor(th / pi))
        c, s = cos(k * d), sin(k * d)
        return u * c + v / (p * k) * s, -p * k * u * s + v * c, z
    k = sqrt(-k2)
    if k * d < 1e-12:
        return u + v / p * d, v, int(u * (u + v / p * d) < 0)
    # scaled by exp(-kd) so that nothing overflows
    e = exp(-2 * k * d)
    c, s = (1 + e) / 2, (1 - e) / 2
    u1 = u * c + v / (p * k) * s
    v1 = p * k * u * s + v * c
    return u1, v1, int(u * u1 < 0 or (u1 == 0 and u != 0))


def shoot(w, g, eps, d, pol):
    """(zeros of the solution decaying downwards, mismatch at the top)."""
    P = [1.] * len(eps) if pol == "te" else [1. / e for e in eps]
    g0 = sqrt(g * g - eps[0] * w * w)
    u, v = 1., P[0] * g0
    n = 0
    for i in range(len(d)):
        u, v, z = _layer(u, v, eps[i + 1] * w * w - g * g, P[i + 1], d[i])
        n += z
        r = max(abs(u), abs(v), 1e-300)
        u, v = u / r, v / r
    gt = sqrt(g * g - eps[-1] * w * w)
    F = v + P[-1] * gt * u        # coefficient of the growing exponential
    if u * F < 0:
        n += 1
    return n, F


def count_at_cutoff(g, eps, d, pol, rel=0.):
    ub = g / sqrt(max(eps[0], eps[-1])) * (1 - rel)
    return shoot(min(ub, g / sqrt(max(eps[0], eps[-1])) * (1 - 1e-15)), g, eps, d, pol)[0]


def modes(g, eps, d, pol, nmax, rel=0.):
    """The lowest nmax guided-mode frequencies below the light line."""
    eps = [float(e) for e in eps]
    d = [float(x) for x in d]
    lb = g / sqrt(max(eps[1:-1]))
    ub = g / sqrt(max(eps[0], eps[-1])) * (1 - 1e-14 - rel)
    if lb >= ub:
        return []
    tot = shoot(ub, g, eps, d, pol)[0]
    out = []
    for n in range(1, min(nmax, tot) + 1):
        lo, hi = lb, ub
        for _ in range(60):
            mid = .5 * (lo + hi)
            if shoot(mid, g, eps, d, pol)[0] >= n:
                hi = mid
            else:
                lo = mid
            if hi - lo < 1e-7 * hi:
                break
        f = lambda w: shoot(w, g, eps, d, pol)[1]
        try:
            fl, fh = f(lo), f(hi)
            if fl * fh < 0:
                r = brentq(f, lo, hi, xtol=1e-15, rtol=1e-14)
            else:
                raise ValueError
        except ValueError:
            for _ in range(60):
                mid = .5 * (lo + hi)
                if mid in (lo, hi):
                    break
                if shoot(mid, g, eps, d, pol)[0] >= n:
                    hi = mid
                else:
                    lo = mid
            r = .5 * (lo + hi)
        out.append(r)
    return out


class Mode(object):
    """Field u(z) of one guided mode (given its frequency), normalised so that
    TE: int u'^2 + g^2 u^2 = 1,  TM: int u^2 = 1.

    Stored piecewise: in layer i, u = a cosh-like exact solutions anchored at the
    layer bottom; the upper part is propagated downwards from the top so that
    both tails decay, matched where the field is large."""

    def __init__(self, w, g, eps, d, pol):
        self.w, self.g, self.pol = w, g, pol
        self.eps = [float(e) for e in eps]
        self.d = [float(x) for x in d]
        self.z = np.concatenate([[0.], np.cumsum(self.d)])
        P = [1.] * len(eps) if pol == "te" else [1. / e for e in self.eps]
        self.P = P
        self.g0 = sqrt(max(g * g - eps[0] * w * w, 0))
        self.gt = sqrt(max(g * g - eps[-1] * w * w, 0))
        N = len(d)
        up = [np.array([1., P[0] * self.g0])]           # (u, p u') at interfaces
        for i in range(N):
            up.append(self._prop(up[-1], i, self.d[i]))
        dn = [None] * (N + 1)
        dn[N] = np.array([1., -P[-1] * self.gt])
        for i in range(N - 1, -1, -1):
            dn[i] = self._prop(dn[i + 1], i, -self.d[i])
        # match at the interface where both are best conditioned
        best, jb = -1, 0
        for j in range(N + 1):
            q = abs(np.dot(up[j], dn[j])) / (np.linalg.norm(up[j]) * np.linalg.norm(dn[j]))
            sc = abs(up[j][0]) / max(abs(x[0]) for x in up[:j + 1])
            if sc * q > best:
                best, jb = sc * q, j
        f = np.dot(up[jb], dn[jb]) / np.dot(dn[jb], dn[jb])
        self.bot = [up[j] if j <= jb else f * dn[j] for j in range(N + 1)]
        self.match = jb
        self.dn = [f * x for x in dn]
        self.up = up
        self.scale = 1.
        self.scale = 1. / sqrt(self.norm())

    def _prop(self, y, i, h):
        k2 = self.eps[i + 1] * self.w ** 2 - self.g ** 2
        p = self.P[i + 1]
        k = sqrt(abs(k2))
        if k * abs(h) < 1e-9:
            return np.array([y[0] + y[1] / p * h, y[1]])
        if k2 > 0:
            c, s = cos(k * h), sin(k * h)
            return np.array([y[0] * c + y[1] / (p * k) * s, -p * k * y[0] * s + y[1] * c])
        c, s = cosh(k * h), sinh(k * h)
        return np.array([y[0] * c + y[1] / (p * k) * s, p * k * y[0] * s + y[1] * c])

    def eval(self, z):
        """(u, du/dz) at the points z."""
        z = np.atleast_1d(np.asarray(z, float))
        u = np.zeros(z.shape)
        du = np.zeros(z.shape)
        lo = z < 0
        e = np.exp(self.g0 * z[lo])
        u[lo] = self.bot[0][0] * e
        du[lo] = self.g0 * u[lo]
        hi = z >= self.z[-1]
        e = np.exp(-self.gt * (z[hi] - self.z[-1]))
        u[hi] = self.bot[-1][0] * e
        du[hi] = -self.gt * u[hi]
        for i in range(len(self.d)):
            m = (z >= self.z[i]) & (z < self.z[i + 1])
            if not m.any():
                continue
            # anchored at the end nearer to the matching interface's stable side
            if i < self.match:
                y0, h = self.bot[i], z[m] - self.z[i]
            else:
                y0, h = self.bot[i + 1], z[m] - self.z[i + 1]
            k2 = self.eps[i + 1] * self.w ** 2 - self.g ** 2
            p = self.P[i + 1]
            k = sqrt(abs(k2))
            if k < 1e-9:
                uu, vv = y0[0] + y0[1] / p * h, y0[1] + 0 * h
            elif k2 > 0:
                c, s = np.cos(k * h), np.sin(k * h)
                uu, vv = y0[0] * c + y0[1] / (p * k) * s, -p * k * y0[0] * s + y0[1] * c
            else:
                c, s = np.cosh(k * h), np.sinh(k * h)
                uu, vv = y0[0] * c + y0[1] / (p * k) * s, p * k * y0[0] * s + y0[1] * c
            u[m], du[m] = uu, vv / p
        return u * self.scale, du * self.scale

    def norm(self):
        t, wq = np.polynomial.legendre.leggauss(40)
        s = 0.
        f = (lambda u, du: du ** 2 + self.g ** 2 * u ** 2) if self.pol == "te" else (lambda u, du: u ** 2)
        for i in range(len(self.d)):
            a, b = self.z[i], self.z[i + 1]
            zz = .5 * (a + b) + .5 * (b - a) * t * (1 - 1e-13)
            s += .5 * (b - a) * np.sum(wq * f(*self.eval(zz)))
        ul, dl = self.eval([-1e-300])
        uu, du = self.eval([self.z[-1]])
        s += f(ul, dl)[0] / (2 * self.g0) + f(uu, du)[0] / (2 * self.gt)
        return s
