"""Independent guided-mode expansion: Maxwell's curl (1/eps) curl operator
projected on exactly computed slab modes, plus golden-rule losses.  Uses only
the JSON structure description; nothing is taken from legume."""
import numpy as np
from . import geom, slab


class Skip(Exception):
    """The case is ambiguous for the documented numerical options."""


def eff_eps(spec, which, custom=None):
    lays = geom.all_layers(spec)
    if which == "average":
        return np.array([geom.layer_avg(spec["lattice"], l[2], l[3]) for l in lays])
    if which == "background":
        return np.array([l[2] for l in lays], float)
    return np.array(custom, float)


def inv_mats(spec, G):
    """Inverse permittivity matrices of every layer over the plane waves G."""
    lat = spec["lattice"]
    N = G.shape[1]
    d = (G[:, :, None] - G[:, None, :]).reshape(2, -1)
    out = []
    for (z0, z1, eb, shs) in geom.all_layers(spec):
        e = geom.layer_ft(lat, eb, shs, d).reshape(N, N)
        out.append(np.linalg.inv(e))
    return out


def guard(eps, d, gs, inds, step, gmin=1e-4):
    """Raise Skip when the slab modes at |k+G| = gs depend on the numerical options
    (closer than the search step, at the cutoff); returns the number of guided states."""
    eps, d = np.asarray(eps, float), np.asarray(d, float)
    cut_eps = max(eps[0], eps[-1])
    if eps[1:-1].max() <= cut_eps:
        raise Skip("no guiding layer")
    n = 0
    for pol, off in (("te", 0), ("tm", 1)):
        nn = max([m // 2 + 1 for m in inds if m % 2 == off] or [0])
        if nn == 0:
            continue
        seen = {}
        for g in np.maximum(np.asarray(gs, float), gmin):
            key = round(float(g), 9)
            if key not in seen:
                w = slab.modes(g, eps, d, pol, nn + 1)
                cut = g / np.sqrt(cut_eps)
                if len(w) > 1 and np.min(np.diff(w)) < 1.001 * step:
                    raise Skip("slab modes closer than the search step")
                if len(w) and abs(w[-1] / cut - 1) < 1e-7:
                    raise Skip("slab mode at cutoff")
                if len(w) and abs(w[0] * np.sqrt(eps[1:-1].max()) / g - 1) < 1e-7:
                    raise Skip("slab mode at the lower bound")
                n1 = slab.shoot(cut * (1 - 1e-7), g, list(eps), list(d), pol)[0]
                n2 = slab.shoot(cut * (1 - 1e-14), g, list(eps), list(d), pol)[0]
                if n1 != n2:
                    raise Skip("slab mode at cutoff")
                seen[key] = len(w)
            n += sum(1 for m in inds if m % 2 == off and m // 2 < seen[key])
    if n == 0:
        raise Skip("no guided modes")
    return n


class Ref(object):
    def __init__(self, spec, G, k, inds, eps, step=1e-2, nq=24, gmin=1e-4, only=None, amb=True):
        """only: drop the patterning (uniform layers of the average)."""
        self.spec, self.G, self.k = spec, np.asarray(G, float), np.asarray(k, float)
        self.eps = np.asarray(eps, float)
        self.d = np.array([l["d"] for l in spec["layers"]], float)
        self.zi = np.concatenate([[0.], np.cumsum(self.d)])
        kg = self.G + self.k[:, None]
        self.kg = kg
        self.g = np.hypot(*kg)
        self.inds = list(inds)
        gg = np.maximum(self.g, gmin)
        safe = np.where(self.g > 1e-12, self.g, 1.)
        self.p = np.where(self.g > 1e-12, kg / safe, np.array([[1.], [0.]]))
        self.q = np.array([self.p[1], -self.p[0]])
        self.cond = 0.
        cache = {}
        nte = max([m // 2 + 1 for m in self.inds if m % 2 == 0] or [0])
        ntm = max([m // 2 + 1 for m in self.inds if m % 2 == 1] or [0])
        cut_eps = max(self.eps[0], self.eps[-1])
        if self.eps[1:-1].max() <= cut_eps:
            raise Skip("no guiding layer")
        basis = []
        for pol, nn, off in (("te", nte, 0), ("tm", ntm, 1)):
            if nn == 0:
                continue
            for iG, g in enumerate(gg):
                key = (pol, round(g, 9))
                if key not in cache:
                    w = slab.modes(g, self.eps, self.d, pol, nn + 1)
                    cut = g / np.sqrt(cut_eps)
                    if amb:
                        if len(w) > 1 and np.min(np.diff(w)) < 1.001 * step:
                            raise Skip("slab modes closer than the search step")
                        if len(w) and abs(w[-1] / cut - 1) < 1e-7:
                            raise Skip("slab mode at cutoff")
                        if len(w) and abs(w[0] * np.sqrt(self.eps[1:-1].max()) / g - 1) < 1e-7:
                            raise Skip("slab mode at the lower bound")
                        # is a further mode just about to appear?
                        n1 = slab.shoot(cut * (1 - 1e-7), g, list(self.eps), list(self.d), pol)[0]
                        n2 = slab.shoot(cut * (1 - 1e-14), g, list(self.eps), list(self.d), pol)[0]
                        if n1 != n2:
                            raise Skip("slab mode at cutoff")
                    cache[key] = [slab.Mode(x, g, self.eps, self.d, pol) for x in w]
        # the fundamental of every requested order, by library order of blocks
        self.blocks = []
        for m in self.inds:
            pol = "te" if m % 2 == 0 else "tm"
            rows = []
            for iG, g in enumerate(gg):
                ms = cache[(pol, round(g, 9))]
                if len(ms) > m // 2:
                    rows.append((iG, ms[m // 2]))
            if rows:
                self.blocks.append((m, rows))
        self.basis = [(m, iG, md) for m, rows in self.blocks for iG, md in rows]
        self.N = len(self.basis)
        if self.N == 0:
            raise Skip("no guided modes")
        self.nq = nq
        self._tab()
        if only:
            av = eff_eps(spec, "average")
            self.eta = [np.eye(self.G.shape[1]) / e for e in av]
        else:
            self.eta = inv_mats(spec, self.G)

    def _nodes(self, il):
        """Quadrature of inner layer il (1-based)."""
        kmax = np.sqrt(self.eps[1:-1].max()) * max([b[2].w for b in self.basis])
        n = int(min(400, self.nq + 1.2 * max(kmax, self.g.max()) * self.d[il - 1]))
        t, w = np.polynomial.legendre.leggauss(n)
        a, b = self.zi[il - 1], self.zi[il]
        return .5 * (a + b) + .5 * (b - a) * t, .5 * (b - a) * w

    def _curl(self, md, iG, il, z):
        """(cx, cy, cz) of curl H of one guided basis state at points z of layer il."""
        u, du = md.eval(z)
        if md.pol == "te":
            c = self.eps[il] * md.w ** 2 * u
            return c * self.q[0, iG], c * self.q[1, iG], 0 * c
        return du * self.p[0, iG], du * self.p[1, iG], -1j * md.g * u

    def _tab(self):
        self.iG = np.array([b[1] for b in self.basis])
        L = len(self.d)
        self.tab = {}
        for il in range(1, L + 1):
            z, w = self._nodes(il)
            C = np.zeros((3, len(z), self.N), complex)
            for n, (m, iG, md) in enumerate(self.basis):
                for c, v in enumerate(self._curl(md, iG, il, z)):
                    C[c, :, n] = v
            self.tab[il] = (z, w, C)
        # claddings: value at the interface and decay constant
        for il, z0 in ((0, -1e-300), (L + 1, self.zi[-1])):
            C = np.zeros((3, self.N), complex)
            kap = np.zeros(self.N)
            for n, (m, iG, md) in enumerate(self.basis):
                v = self._curl(md, iG, il, np.array([z0]))
                C[:, n] = [x[0] for x in v]
                kap[n] = md.g0 if il == 0 else md.gt
            self.tab[il] = (C, kap)

    def matrix(self):
        M = np.zeros((self.N, self.N), complex)
        ix = np.ix_(self.iG, self.iG)
        L = len(self.d)
        for il in range(L + 2):
            if il in (0, L + 1):
                C, kap = self.tab[il]
                ov = sum(np.outer(C[c].conj(), C[c]) for c in range(3)) / (kap[:, None] + kap[None, :])
            else:
                z, w, C = self.tab[il]
                ov = sum((C[c].conj() * w[:, None]).T @ C[c] for c in range(3))
            M += self.eta[il][ix] * ov
        return M

    def solve(self):
        M = self.matrix()
        self.herm = np.max(np.abs(M - M.conj().T)) / np.max(np.abs(M))
        w2, v = np.linalg.eigh(.5 * (M + M.conj().T))
        self.M = M
        self.w2 = w2
        self.v = v
        return np.sqrt(np.abs(w2)) / (2 * np.pi)

    # ------------------------------------------------------------- radiation
    def rad_state(self, w, iG, clad, pol, z_in=None, kind="out"):
        """Curl of H of the radiative slab state with unit outgoing (or, kind
        'in', incoming) magnetic amplitude in cladding clad (0/1), at the
        quadrature nodes of every layer, and its cladding waves."""
        g = max(self.g[iG], 1e-9)
        eps = self.eps
        L = len(self.d)
        ka = np.sqrt((eps * w ** 2 - g ** 2).astype(complex))   # Im >= 0
        P = np.ones(L + 2) if pol == "te" else 1 / eps
        # amplitudes (a, b): a exp(i ka (z - zr)) + b exp(-i ka (z - zr)), anchored zr
        zr = np.concatenate([[0.], self.zi[:-1], [self.zi[-1]]])
        # transfer of (u, P u') from bottom to top
        T = np.eye(2, dtype=complex)
        mats = [T]
        for i in range(1, L + 1):
            k, d, p = ka[i], self.d[i - 1], P[i]
            c, s = np.cos(k * d), (np.sin(k * d) / k if abs(k) > 1e-12 else d)
            mats.append(np.array([[c, s / p], [-p * k * k * s, c]]) @ mats[-1])
        Tt = mats[-1]
        # unknown: lower (aL, bL), upper (aU, bU);
        # u = a+b ; P u' = i ka P (a-b)
        lo = np.array([[1, 1], [1j * ka[0] * P[0], -1j * ka[0] * P[0]]])
        up = np.array([[1, 1], [1j * ka[-1] * P[-1], -1j * ka[-1] * P[-1]]])
        S = np.linalg.solve(up, Tt @ lo)        # (aU,bU) = S (aL,bL)
        prop = [abs(ka[0].imag) < 1e-12 * abs(ka[0]), abs(ka[-1].imag) < 1e-12 * abs(ka[-1])]
        # outgoing: lower b, upper a.  incoming: lower a, upper b
        if kind == "out":
            # unit outgoing in clad, nothing outgoing in the other (if it is propagating)
            if clad == 1:      # aU = 1, bL = 0 (prop) / aL = 0 (evanescent: decaying is b)
                v = np.array([1, 0]) if prop[0] else np.array([0, 1])
                x = v / (S @ v)[0]
            else:              # bL = 1, aU = 0 (prop) ; evanescent upper: decaying is a -> bU = 0
                r = S[0] if prop[1] else S[1]
                x = np.array([-r[1] / r[0], 1.])
        else:
            if clad == 1:      # bU = 1, aL = 0
                v = np.array([0, 1])
                x = v / (S @ v)[1]
            else:              # aL = 1, bU = 0
                r = S[1]
                x = np.array([1., -r[0] / r[1]])
        aU = S @ x
        out = {}
        y0 = lo @ x
        # magnetic amplitude: TM u = H; TE |H|^2 = |u'|^2+g^2|u|^2 = eps w^2 |u|^2
        nrm = 1. if pol == "tm" else 1. / (np.sqrt(eps[0 if clad == 0 else -1]) * w)
        for il in range(1, L + 1):
            z = self.tab[il][0]
            k, p = ka[il], P[il]
            y = mats[il - 1] @ y0
            h = z - self.zi[il - 1]
            c = np.cos(k * h)
            s = np.sin(k * h) / k if abs(k) > 1e-12 else h
            u = y[0] * c + y[1] / p * s
            du = (-p * k * k * s * y[0] + c * y[1]) / p
            out[il] = self._rc(u * nrm, du * nrm, w, iG, il, pol)
        cl = {}
        for il, (a, b), z0 in ((0, x, 0.), (L + 1, aU, self.zi[-1])):
            k = ka[il]
            cl[il] = (self._rc(np.array([a * nrm]), np.array([1j * k * a * nrm]), w, iG, il, pol),
                      self._rc(np.array([b * nrm]), np.array([-1j * k * b * nrm]), w, iG, il, pol), k)
        return out, cl

    def _rc(self, u, du, w, iG, il, pol):
        if pol == "te":
            c = self.eps[il] * w ** 2 * u
            return c * self.q[0, iG], c * self.q[1, iG], 0 * c
        return du * self.p[0, iG], du * self.p[1, iG], -1j * max(self.g[iG], 1e-9) * u

    def couplings(self, w, evec, kind="out"):
        """{'l_te': [...], ...} and the list of orders per cladding."""
        L = len(self.d)
        res, orders = {}, {}
        mid = {}
        # Psi* eta for every layer: row vectors over G
        NG = self.G.shape[1]
        for il in range(1, L + 1):
            z, wq, C = self.tab[il]
            A = np.zeros((3, len(z), NG), complex)
            for n in range(self.N):
                A[:, :, self.iG[n]] += C[:, :, n] * evec[n]
            mid[il] = np.einsum("czg,gh->czh", A.conj(), self.eta[il]) * wq[None, :, None]
        for clad, cn in ((0, "l"), (1, "u")):
            e = self.eps[0 if clad == 0 else -1]
            sel = [i for i in range(NG) if self.g[i] ** 2 <= e * w ** 2]
            orders[cn] = sel
            for pol in ("te", "tm"):
                cs = []
                for iG in sel:
                    ins, cl = self.rad_state(w, iG, clad, pol, kind=kind)
                    t = 0.
                    for il in range(1, L + 1):
                        for c in range(3):
                            t += np.sum(mid[il][c, :, iG] * ins[il][c])
                    for il in (0, L + 1):
                        C, kap = self.tab[il]
                        (ca, cb, k) = cl[il]
                        sgn = -1 if il == 0 else 1
                        for amp, kk in ((ca, k), (cb, -k)):
                            for c in range(3):
                                # lower: int_{-inf}^0 exp(kap z + i kk z) = 1/(kap + i kk)
                                den = kap + 1j * kk if il == 0 else kap - 1j * kk
                                # evanescent growing component has zero amplitude
                                val = np.where(np.abs(den) > 1e-14, 1 / np.where(np.abs(den) > 1e-14, den, 1), 0)
                                row = np.conj(C[c] * evec) * val
                                if abs(amp[c][0]) > 1e-13:
                                    t += np.sum(row * self.eta[il][self.iG, iG]) * amp[c][0]
                    chi = np.sqrt(e * w ** 2 - self.g[iG] ** 2)
                    dos = e / (4 * np.pi * chi)
                    cs.append(np.sqrt(np.pi * dos) * t)
                res["%s_%s" % (cn, pol)] = np.array(cs, complex)
        return res, orders
