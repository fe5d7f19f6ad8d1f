import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import core, geom
import numpy as np

PROPERTY = "C16"
QUICK_REPS = 24
RULE = ("random crystals (all lattices and shape classes, 1-3 layers, 0-3 shapes) x well position x potential (negative, zero, positive, over "
        "decades) x mass, lattice constant, loss x truncation x k: energies, eigenvectors, wavefunctions against an independently assembled "
        "Schroedinger matrix; free-exciton parabolas; k-reversal, translation, potential-offset and kinetic scaling pairs. Distinct: crystal, well, k.")
ASSUMPTIONS = ["independent constants: CODATA hbar, e, m_e as given by scipy are re-typed here",
               "overlapping shapes add their potentials, as the Fourier sums define"]
HBAR, QE = 1.054571817e-34, 1.602176634e-19


def cases(rng, tier):
    n = 140 if tier == "quick" else 30000
    out = []
    lk = ("square", "hexagonal", "rect", "oblique", "rotsq")
    for i in range(n):
        spec = geom.gen_spec(rng, nlay=1 + i % 3, nshapes=3, lat=geom.gen_lattice(rng, kinds=(lk[i % 5],)))
        if i % 11 == 0:
            for l in spec["layers"]:
                l["shapes"] = []
        ks = [[round(float(x), 4) for x in rng.uniform(-4, 4, 2)] for _ in range(int(rng.integers(1, 4)))]
        if i % 4 == 0:
            ks.append([0., 0.])
        V = 0. if i % 9 == 0 else float(rng.choice([-1, 1])) * 10 ** float(rng.uniform(-4, 0))
        out.append(dict(spec=spec, ks=ks, V=V, a=10 ** float(rng.uniform(-7.5, -6)), M=9.1e-31 * float(rng.uniform(.05, 1)),
                        E0=round(float(rng.uniform(.5, 3)), 4), loss=float(rng.choice([0, 10 ** rng.uniform(-6, -2)])),
                        gmax=round(float(rng.uniform(1.1, 3.3)), 3), trunc=("abs", "tbt")[i % 2], numeig=int(rng.integers(1, 12)),
                        zf=float(rng.uniform(.02, .98)), il=int(rng.integers(0, 1 + i % 3)), seed=int(rng.integers(1 << 30))))
        geom.spice(rng, out[-1], kinds=("tiny", "manyk"))
    return out


def run_case(case, mon):
    import legume
    rng = np.random.default_rng(case["seed"])
    spec = case["spec"]
    lat = spec["lattice"]
    lays = geom.all_layers(spec)
    il = case["il"]
    z0, z1, eb, shs = lays[il + 1]
    z = z0 + case["zf"] * (z1 - z0)
    V, a, M, E0, loss = (case[q] for q in ("V", "a", "M", "E0", "loss"))
    ks = np.array(case["ks"]).T
    A = geom.cell_area(lat)

    def make(sp=spec, V=V, a=a, M=M, E0=E0, loss=loss, g=case["gmax"]):
        return legume.ExcitonSchroedEq(geom.build_phc(sp), z=z, V_shapes=V, a=a, M=M, E0=E0, loss=loss, gmax=g, truncate_g=case["trunc"])
    ese = make()
    for q in ("eners", "eigvecs", "kpoints"):
        mon.check("empty-before-run", len(getattr(ese, q)) == 0, q)
    gv = np.asarray(ese.gvec)
    NG = gv.shape[1]
    G = geom.gset(lat, case["gmax"], case["trunc"])
    mon.check("plane-waves", G is None or gv.shape == G.shape, gv.shape)
    n = min(case["numeig"], NG)
    ese.run(kpoints=ks.copy(), numeig_ex=n, verbose_ex=False)
    d = (gv[:, :, None] - gv[:, None, :]).reshape(2, -1)
    pot = sum((V * geom.shape_ft(s, d) / A for s in shs), np.zeros(d.shape[1], complex)).reshape(NG, NG)
    if V < 0 and shs:
        pot = pot + abs(V) * np.eye(NG)
    en = np.asarray(ese.eners)
    if not mon.check("shape", en.shape == (ks.shape[1], n), en.shape):
        return
    mon.close("kpoints", ese.kpoints, ks, rtol=0, atol=0)
    mon.close("loss", en.imag, np.full(en.shape, loss), rtol=1e-12, atol=1e-300)
    free = []
    for ik in range(ks.shape[1]):
        kg = gv + ks[:, [ik]]
        kin = HBAR ** 2 * (kg[0] ** 2 + kg[1] ** 2) / a ** 2 / (2 * M) / QE
        H = np.diag(kin).astype(complex) + pot
        w = np.linalg.eigvalsh(H)
        sc = 1 + abs(w).max()
        mon.check("ascending", np.all(np.diff(en[ik].real) >= -1e-12 * sc), en[ik])
        mon.close("energies", en[ik].real, E0 + w[:n], rtol=0, atol=1e-7 * abs(V) + 2e-9 * kin.max() + 1e-13 * sc, msg="k=%s" % ks[:, ik])
        if V == 0 or not shs:
            mon.close("parabolas", en[ik].real, E0 + np.sort(kin)[:n], rtol=0, atol=2e-9 * kin.max() + 1e-13 * sc)
            mon.event("free_excitons")
        if shs:
            # bounds of the described potential (an upper bound by the mean, a lower one for non-negative potentials)
            av = np.real(pot[0, 0])
            mon.check("below-average", en[ik][0].real <= E0 + kin.min() + av + 1e-9 * sc, "%g > %g" % (en[ik][0].real, E0 + kin.min() + av))
        ev = np.asarray(ese.eigvecs[ik])
        if not mon.check("eigvec-shape", ev.shape == (NG, n), ev.shape):
            return
        mon.close("orthonormal", ev.conj().T @ ev, np.eye(n), rtol=0, atol=1e-9)
        mon.close("eigvec", H @ ev, ev * (en[ik].real - E0), rtol=0, atol=1e-8 * abs(V) * NG + 1e-8 * kin.max() + 1e-12 * sc)
        m = int(rng.integers(n))
        ft = np.asarray(ese.ft_wavef_xy(ik, m))
        mon.close("wavefunction-ft", ft, ev[:, m], rtol=0, atol=1e-15)
        Nx, Ny = int(rng.integers(2, 8)), int(rng.integers(2, 8))
        wf, xg, yg = ese.get_wavef_xy(ik, m, Nx=Nx, Ny=Ny)
        ex = ese.layer.lattice.xy_grid(Nx=Nx, Ny=Ny)
        mon.close("grid", xg, ex[0], rtol=0, atol=0)
        mon.close("grid", yg, ex[1], rtol=0, atol=0)
        ph = np.exp(1j * (gv[0] * xg[None, :, None] + gv[1] * yg[:, None, None]))
        mon.close("wavefunction", wf, ph @ ft, rtol=0, atol=1e-9 * np.abs(ft).sum())
        mon.event("levels_compared", n)
    # metamorphic pairs
    sc = np.abs(en.real - E0).max() + abs(V)
    tl = dict(rtol=0, atol=1e-7 * sc + 1e-12)
    r = make()
    r.run(kpoints=-ks, numeig_ex=n, verbose_ex=False)
    mon.close("k-reversal", np.asarray(r.eners).real, en.real, **tl)
    s = float(rng.uniform(.5, 2))
    r = make(V=V / s ** 2, a=a * s)
    r.run(kpoints=ks.copy(), numeig_ex=n, verbose_ex=False)
    mon.close("length-scaling", (np.asarray(r.eners).real - E0) * s ** 2, en.real - E0, rtol=0, atol=1e-7 * sc + 1e-11)
    r = make(V=V / s, M=M * s)
    r.run(kpoints=ks.copy(), numeig_ex=n, verbose_ex=False)
    mon.close("mass-scaling", (np.asarray(r.eners).real - E0) * s, en.real - E0, rtol=0, atol=1e-7 * sc + 1e-11)
    mon.event("pairs", 3)
    mon.event("shapes_%d" % len(shs))
    mon.event("k_points", ks.shape[1])


if __name__ == "__main__":
    core.main(sys.modules[__name__])
