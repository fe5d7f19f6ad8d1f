import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import core, geom
import numpy as np
from scipy.optimize import brentq

PROPERTY = "C15"
QUICK_REPS = 30
RULE = ("random 2D layers (all lattice kinds, all shape classes, 0-3 shapes, eps_eff given or not) x polarisation (any case) x "
        "cutoff x k (generic, Gamma, zone edge): frequencies, eigenvectors and fields against an independently assembled "
        "plane-wave operator; uniform layers against folded light lines; lamellar stacks against transfer-matrix bands; "
        "scaling, translation and k-reversal pairs. Distinct: layer, k, polarisation.")
ASSUMPTIONS = ["frequencies below 1e-3 only get an absolute check (square root of rounding errors)",
               "time dependence exp(i omega t): D = curl H/(i omega)"]


def cases(rng, tier):
    n = 120 if tier == "quick" else 3000
    out = []
    lk = ("square", "hexagonal", "rect", "oblique", "rotsq")
    for i in range(n):
        lat = geom.gen_lattice(rng, kinds=(lk[i % 5],))
        ns = int(rng.integers(0, 4)) if i % 6 else 0
        ks = [[round(float(x), 4) for x in rng.uniform(-4, 4, 2)] for _ in range(int(rng.integers(1, 4)))]
        if i % 4 == 0:
            ks.append([0., 0.])
        if i % 5 == 0:
            b = geom.recip(lat)
            ks.append([float(x) for x in .5 * np.asarray(b[0])])
        shs = [geom.gen_shape(rng, round(float(rng.uniform(1, 13)), 3), size=.22) for _ in range(ns)]
        f = geom.gen_units(rng, .2)
        gm = round(float(rng.uniform(1.1, 3.4)), 3)
        if f != 1.:
            lat, shs, ks, gm = geom.scale_lattice(lat, f), [geom.scale_shape(s, f) for s in shs], [[x / f for x in k] for k in ks], gm / f
        out.append(dict(kind="ops", f=f, lattice=lat, eps_b=round(float(rng.uniform(1, 13)), 3),
                        shapes=shs, ks=ks, pol=str(rng.choice(["te", "tm", "TE", "Tm"])), gmax=gm,
                        numeig=int(rng.integers(1, 14)), seed=int(rng.integers(1 << 30)),
                        eps_eff=round(float(rng.uniform(1, 13)), 3) if i % 4 == 1 else None))
        if f == 1.:
            geom.spice(rng, out[-1], kinds=("tiny", "manyk"))
    for i in range(6 if tier == "quick" else 60):
        out.append(dict(kind="stack", f=round(float(rng.uniform(.2, .8)), 3), e1=round(float(rng.uniform(1, 6)), 3),
                        e2=round(float(rng.uniform(6, 13)), 3), L=round(float(rng.uniform(.6, 1.6)), 3), pol=("te", "tm")[i % 2],
                        k=round(float(rng.uniform(.1, .95)), 3), flip=bool(rng.random() < .5)))
    for i in range(12 if tier == "quick" else 200):
        out.append(dict(kind="inv", lattice=geom.gen_lattice(rng, kinds=(lk[i % 5],)), eps_b=round(float(rng.uniform(1, 13)), 3),
                        shapes=[geom.gen_shape(rng, round(float(rng.uniform(1, 13)), 3), size=.2,
                                               kinds=("circle", "ellipse", "poly", "square")) for _ in range(2)],
                        k=[round(float(x), 4) for x in rng.uniform(-4, 4, 2)], pol=("te", "tm")[i % 2],
                        gmax=round(float(rng.uniform(1.3, 3.)), 3), s=round(float(rng.uniform(.4, 3)), 3),
                        seed=int(rng.integers(1 << 30))))
    return out


def build(lat, eps_b, shapes):
    import legume
    lay = legume.ShapesLayer(geom.build_lattice(lat), eps_b=eps_b)
    for s in shapes:
        lay.add_shape(geom.build_shape(s))
    return lay


def tm_bands(e1, e2, f, L, k, pol, nb):
    """Lowest bands of the lamellar stack at normal propagation (pol irrelevant)."""
    n1, n2, d1, d2 = np.sqrt(e1), np.sqrt(e2), f * L, (1 - f) * L

    def F(w):
        a, b = n1 * w * d1, n2 * w * d2
        return np.cos(a) * np.cos(b) - .5 * (n1 / n2 + n2 / n1) * np.sin(a) * np.sin(b) - np.cos(k * L)
    ws = np.linspace(1e-6, 2 * np.pi * 2.5 / L, 40001)
    v = F(ws)
    i = np.flatnonzero(v[1:] * v[:-1] < 0)[:nb]
    return np.array([brentq(F, ws[j], ws[j + 1], xtol=1e-14) for j in i]) / 2 / np.pi


def ops(case, mon):
    import legume
    rng = np.random.default_rng(case["seed"])
    lat, shs = case["lattice"], case["shapes"]
    lay = build(lat, case["eps_b"], shs)
    ks = np.array(case["ks"]).T
    kw = {} if case["eps_eff"] is None else dict(eps_eff=case["eps_eff"])
    pwe = legume.PlaneWaveExp(lay, gmax=case["gmax"], **kw)
    for a in ("freqs", "eigvecs", "kpoints"):
        mon.check("empty-before-run", len(getattr(pwe, a)) == 0, a)
    G = geom.gset(lat, case["gmax"], "tbt")
    gv = np.asarray(pwe.gvec)
    mon.check("plane-waves", G is None or gv.shape == G.shape, gv.shape)
    numeig = min(case["numeig"], gv.shape[1])
    pwe.run(kpoints=ks.copy(), pol=case["pol"], numeig=numeig)
    NG = gv.shape[1]
    d = (gv[:, :, None] - gv[:, None, :]).reshape(2, -1)
    eb = case["eps_eff"] or case["eps_b"]
    eta = np.linalg.inv(geom.layer_ft(lat, eb, shs, d).reshape(NG, NG))
    te = case["pol"].lower() == "te"
    f = np.asarray(pwe.freqs)
    mon.check("shape", f.shape == (ks.shape[1], numeig), f.shape)
    mon.close("kpoints", pwe.kpoints, ks, rtol=0, atol=0)
    A = geom.cell_area(lat)
    for ik in range(ks.shape[1]):
        kg = gv + ks[:, [ik]]
        g = np.hypot(*kg)
        M = (kg.T @ kg if te else np.outer(g, g)) * eta
        w2 = np.linalg.eigvalsh(.5 * (M + M.conj().T))
        if w2[0] < -1e-7 * (1 + w2[-1]):
            mon.skip("truncated permittivity matrix not positive (overlapping shapes)")
            continue
        # the library takes |.| of the (tiny negative) zero mode
        want = np.sort(np.abs(w2))[:numeig]
        mon.check("ascending", np.all(np.diff(f[ik]) >= -1e-9), f[ik])
        mon.close("freqs", (2 * np.pi * f[ik]) ** 2, want, rtol=1e-7, atol=1e-8 * (1 + abs(w2).max()), msg="k=%s" % ks[:, ik])
        mon.event("frequencies_compared", numeig)
        if not shs:
            # empty lattice: folded light lines
            mon.close("folded-light-line", f[ik], np.sort(g)[:numeig] / 2 / np.pi / np.sqrt(eb), rtol=1e-7, atol=1e-5)
            mon.event("uniform_layers")
        ev = np.asarray(pwe.eigvecs[ik])
        if not mon.check("eigvec-shape", ev.shape == (NG, numeig), ev.shape):
            continue
        mon.close("orthonormal", ev.conj().T @ ev, np.eye(numeig), rtol=0, atol=1e-8)
        mon.close("eigvec", M @ ev, ev * (2 * np.pi * f[ik]) ** 2, rtol=1e-7, atol=1e-8 * (1 + abs(w2).max()))
        if g.min() < 1e-9:
            for fld in ("H", "D", "E"):
                F = np.array(pwe.ft_field_xy(fld, ik, 0))
                mon.check("gamma-finite", np.all(np.isfinite(F)), "%s of the zero-frequency mode" % fld)
            mon.event("zero_frequency_modes")
        for m in sorted(set(int(x) for x in rng.integers(0, numeig, 3))):
            om = 2 * np.pi * f[ik][m]
            if om < 1e-2:
                continue
            H, D, E = [np.array(pwe.ft_field_xy(c, ik, m)) for c in ("H", "D", "e")]
            if not mon.check("field-shape", H.shape == D.shape == E.shape == (3, NG), H.shape):
                continue
            gs = g.max()
            mon.close("transverse", kg[0] * H[0] + kg[1] * H[1], 0 * H[0], rtol=0, atol=1e-7 * gs)
            mon.check("te-tm", (np.abs(H[:2]).max() < 1e-12 if te else np.abs(H[2]).max() < 1e-12), "wrong components")
            curl = 1j * np.array([kg[1] * H[2], -kg[0] * H[2], kg[0] * H[1] - kg[1] * H[0]])
            mon.close("D-curl-H", D, curl / (1j * om), rtol=0, atol=1e-7 * gs / om)
            mon.close("E-eta-D", E, D @ eta.T, rtol=1e-7, atol=1e-8 * np.abs(eta).max() * np.abs(D).max())
            mon.close("H-norm", np.sum(np.abs(H) ** 2), 1., rtol=1e-9, atol=0)
            mon.close("energy", np.sum(E.conj() * D), 1., rtol=1e-6, atol=0)
            # sources: curl E reproduces H
            cE = 1j * np.array([kg[1] * E[2], -kg[0] * E[2], kg[0] * E[1] - kg[1] * E[0]])
            mon.close("H-curl-E", H, cE / (-1j * om), rtol=0, atol=1e-6 * max(1, gs * gs / om ** 2))
            mon.event("fields")
            c = str(rng.choice(["x", "y", "z", "xyz", "zx"]))
            fld = str(rng.choice(["H", "d", "E"]))
            Nx, Ny = int(rng.integers(2, 7)), int(rng.integers(2, 7))
            fi, xg, yg = pwe.get_field_xy(fld, ik, m, component=c, Nx=Nx, Ny=Ny)
            mon.check("components", sorted(fi) == sorted(set(c)), list(fi))
            ex = pwe.layer.lattice.xy_grid(Nx=Nx, Ny=Ny)
            mon.close("grid", xg, ex[0], rtol=0, atol=0)
            mon.close("grid", yg, ex[1], rtol=0, atol=0)
            ft = dict(H=H, d=D, E=E)[fld]
            ph = np.exp(1j * (gv[0] * xg[None, :, None] + gv[1] * yg[:, None, None]))
            for q in fi:
                v = ft["xyz".index(q)]
                mon.close("real-space", fi[q], ph @ v, rtol=0, atol=1e-9 * (1e-9 + np.abs(v).sum()))
    mon.event("k_points", ks.shape[1])


def run_case(case, mon):
    import legume
    if case["kind"] == "ops":
        return ops(case, mon)
    if case["kind"] == "stack":
        L, f = case["L"], case["f"]
        ay = .04 * L          # no plane wave in the stack's invariant direction
        a1, a2 = ([L, 0.], [0., ay]) if not case["flip"] else ([0., L], [-ay, 0.])
        lay = legume.ShapesLayer(legume.Lattice(a1, a2), eps_b=case["e2"])
        u = np.array([-.5 * f * L, .5 * f * L, .5 * f * L, -.5 * f * L])
        v = .5 * ay * np.array([-1, -1, 1, 1.])
        if case["flip"]:
            u, v = -v, u
        lay.add_shape(legume.Poly(eps=case["e1"], x_edges=u, y_edges=v))
        k = case["k"] * np.pi / L
        want = tm_bands(case["e1"], case["e2"], f, L, k, case["pol"], 3)
        err = []
        for gm in (5.05 / L, 21.05 / L):
            pwe = legume.PlaneWaveExp(lay, gmax=gm)
            kv = np.array([[k], [0.]]) if not case["flip"] else np.array([[0.], [k]])
            # field in the plane of the layers both ways: TE has E in the xy-plane, along the invariant direction
            pwe.run(kpoints=kv, pol=case["pol"], numeig=3)
            err.append(np.abs(pwe.freqs[0] - want) / want)
        mon.check("stack-basis", pwe.gvec.shape[1] == 43, pwe.gvec.shape)
        # both polarisations see E along the interfaces; the inverse matrix rule converges like 1/N
        mon.check("stack-converged", np.all(err[1] < 1.2e-2), "relative error %s" % err[1])
        mon.check("stack-converging", np.all(err[1] <= err[0] + 1e-6), "%s then %s" % tuple(err))
        mon.event("stacks")
        return
    rng = np.random.default_rng(case["seed"])
    lat, shs, k, pol = case["lattice"], case["shapes"], np.array(case["k"]), case["pol"]

    def freqs(lat_, eb, sh, kk, gm):
        pwe = legume.PlaneWaveExp(build(lat_, eb, sh), gmax=gm)
        pwe.run(kpoints=np.array([kk]).T.copy(), pol=pol, numeig=6)
        return np.asarray(pwe.freqs[0])

    def mv(sh, dx, dy, s=1.):
        o = []
        for q in sh:
            q = dict(q)
            for a in ("x", "y", "xs", "ys"):
                if a in q:
                    dd = dx if a[0] == "x" else dy
                    q[a] = [s * v + dd for v in q[a]] if isinstance(q[a], list) else s * q[a] + dd
            for a in ("r", "rx", "ry", "a"):
                if a in q:
                    q[a] = s * q[a]
            o.append(q)
        return o
    A = np.array(geom.vecs(lat))
    vlat = {"kind": "vec", "a1": list(A[0]), "a2": list(A[1])}
    f0 = freqs(vlat, case["eps_b"], shs, k, case["gmax"])
    s = case["s"]
    f1 = freqs({"kind": "vec", "a1": list(s * A[0]), "a2": list(s * A[1])}, case["eps_b"], mv(shs, 0, 0, s), k / s, case["gmax"] / s)
    mon.close("scaling", f1 * s, f0, rtol=1e-7, atol=1e-6)
    dx, dy = rng.uniform(-1, 1, 2)
    mon.close("translation", freqs(vlat, case["eps_b"], mv(shs, dx, dy), k, case["gmax"]), f0, rtol=1e-7, atol=1e-6)
    mon.close("k-reversal", freqs(vlat, case["eps_b"], shs, -k, case["gmax"]), f0, rtol=1e-7, atol=1e-6)
    es = [dict(q, eps=q["eps"] * 2.25) for q in shs]
    mon.close("eps-scaling", freqs(vlat, case["eps_b"] * 2.25, es, k, case["gmax"]) * 1.5, f0, rtol=1e-7, atol=1e-6)
    mon.event("pairs", 4)


if __name__ == "__main__":
    core.main(sys.modules[__name__])
