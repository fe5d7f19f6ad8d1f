import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import core, geom, refgme
import numpy as np

PROPERTY = "C10"
RULE = ("random crystals (all lattices and shape classes, 1-3 layers, patterned claddings, no symmetry needed) x guided orders x "
        "truncation x k x mode x 'exact'/'interp' slab modes; Fourier fields are sampled at random heights in every layer and "
        "cladding, across interfaces and on quadrature nodes, real-space fields on random and default grids. Distinct: crystal, k, options.")
ASSUMPTIONS = ["time dependence exp(+i omega t), i.e. D = curl H / (i omega), in every layer and for every mode",
               "heights exactly on an interface are not judged (either side is right)",
               "z derivatives by 4th-order differences (step 4e-4)", "at k+G=0 a tolerance of 1e-3 (the library floors |k+G| at 1e-4)"]


def cases(rng, tier):
    n = 64 if tier == "quick" else 2200
    out = []
    lk = ("square", "hexagonal", "rect", "oblique", "rotsq")
    for i in range(n):
        spec = geom.gen_spec(rng, nlay=1 + i % 3, lat=geom.gen_lattice(rng, kinds=(lk[i % 5],)),
                             clad_shapes=rng.random() < .3)
        nm = int(rng.integers(1, 5))
        inds = [0] + sorted(int(x) for x in rng.permutation([1, 2, 3, 4])[:nm - 1])
        if rng.random() < .25:
            inds = [1, 3, 0][:int(rng.integers(1, 4))]
        ks = [[round(float(x), 4) for x in rng.uniform(-4, 4, 2)] for _ in range(int(rng.integers(1, 4)))]
        if i % 8 == 0:
            ks.append([0., 0.])
        if i % 7 == 0:
            ks.append([round(float(rng.uniform(.3, 2)), 4), 0.])
        out.append(dict(kind="gme", spec=spec, gmax=round(float(rng.uniform(1.05, 2.1)), 3), ks=ks, inds=inds,
                        eps_eff=("average", "average", "background")[int(rng.integers(3))],
                        trunc=("abs", "tbt")[int(rng.integers(2))], numeig=int(rng.integers(2, 9)),
                        compute="exact", solver=("eigh", "eigh", "eigsh")[int(rng.integers(3))], seed=int(rng.integers(1 << 30))))
        geom.spice(rng, out[-1], kinds=("high", "tiny"))
    for i in range(n):               # symmetric claddings: no cutoff, the zero-frequency modes exist
        spec = geom.gen_spec(rng, nlay=1, lat=geom.gen_lattice(rng))
        spec["eps_u"] = spec["eps_l"]
        out.append(dict(kind="gamma", spec=spec, gmax=round(float(rng.uniform(1.05, 2.6)), 3), inds=[[0], [0, 1], [1, 0, 2]][i % 3],
                        eps_eff="average", trunc=("abs", "tbt")[i % 2], numeig=6, seed=int(rng.integers(1 << 30))))
    return out


def expsinh(n=84):
    t = np.linspace(-3.3, 2.5, n)
    z = np.exp(.5 * np.pi * np.sinh(t))
    return z, z * .5 * np.pi * np.cosh(t) * (t[1] - t[0])


def gamma_fields(legume, case, mon, rng):
    """Fields of every mode at Gamma are finite; rounding decides what those of a zero-frequency mode are."""
    gme = legume.GuidedModeExp(geom.build_phc(case["spec"]), gmax=case["gmax"], truncate_g=case["trunc"])
    opt = dict(kpoints=np.zeros((2, 1)), gmode_inds=list(case["inds"]), verbose=False, compute_im=False, eps_eff=case["eps_eff"])
    try:
        gme.run(numeig=1, **opt)
        gme.run(numeig=min(case["numeig"], int(gme.N_basis[0])), **opt)
    except RuntimeError as e:
        if "No guided modes" not in str(e):
            raise
        return
    top = sum(l["d"] for l in case["spec"]["layers"])
    for m in range(np.shape(gme.freqs)[1]):
        for zz in rng.uniform(-.5, top + .5, 3):
            for f in "HDE":
                v = np.array(gme.ft_field_xy(f, 0, m, zz))
                mon.check("gamma-finite", np.all(np.isfinite(v)), "%s of mode %d, z %g" % (f, m, zz))
        if gme.freqs[0][m] < 1e-3:
            mon.event("zero_frequency_modes")


def run_case(case, mon):
    import legume
    rng = np.random.default_rng(case["seed"])
    if case["kind"] == "gamma":
        return gamma_fields(legume, case, mon, rng)
    spec = case["spec"]
    lat = spec["lattice"]
    ks = np.array(case["ks"]).T
    phc = geom.build_phc(spec)
    gme = legume.GuidedModeExp(phc, gmax=case["gmax"], truncate_g=case["trunc"])
    NG = gme.gvec.shape[1]
    try:
        refs = [refgme.Ref(spec, gme.gvec, k, case["inds"], refgme.eff_eps(spec, case["eps_eff"]), step=1e-2)
                for k in ks.T]
    except refgme.Skip as e:
        mon.skip(str(e))
        mon.trivial()
        return
    nb = min(r.N for r in refs)
    numeig = min(case["numeig"], nb)
    solver = "eigh" if nb < 2 * numeig or nb < 6 else case["solver"]
    gme.run(kpoints=ks.copy(), gmode_inds=list(case["inds"]), numeig=numeig, verbose=False, compute_im=False,
            eig_solver=solver, gmode_step=1e-3, eps_eff=case["eps_eff"], gmode_compute=case["compute"])
    A = geom.cell_area(lat)
    d = np.array([l["d"] for l in spec["layers"]])
    zi = np.concatenate([[0.], np.cumsum(d)])
    eta = refs[0].eta
    G = np.asarray(gme.gvec)
    names = ["below"] + ["layer%d" % i for i in range(len(d))] + ["above"]
    for ik in range(ks.shape[1]):
        kg = G + ks[:, [ik]]
        gamma = np.hypot(*kg).min() < 1e-3
        rt = 2e-3 if gamma else 1e-6
        ms = sorted(set(int(x) for x in rng.integers(0, numeig, 2)))
        quad = []        # (z, w, layer)
        for il in range(1, len(d) + 1):
            t, w = np.polynomial.legendre.leggauss(int(30 + 30 * d[il - 1]))
            quad += [(zi[il - 1] + .5 * d[il - 1] * (1 + a), .5 * d[il - 1] * b, il) for a, b in zip(t, w)]
        z, w = expsinh()
        quad += [(-a, b, 0) for a, b in zip(z, w)] + [(zi[-1] + a, b, len(d) + 1) for a, b in zip(z, w)]
        acc = {}
        for m in ms:
            om = 2 * np.pi * gme.freqs[ik][m]
            if om < 1e-2:
                continue
            H = lambda zz: np.array(gme.ft_field_xy("H", ik, m, zz))
            D = lambda zz: np.array(gme.ft_field_xy("D", ik, m, zz))
            E = lambda zz: np.array(gme.ft_field_xy("E", ik, m, zz))
            h = 4e-4
            for il, nme in enumerate(names):
                if il == 0:
                    zs = -rng.exponential(.4, 2) - 2.1 * h
                elif il == len(names) - 1:
                    zs = zi[-1] + rng.exponential(.4, 2) + 2.1 * h
                else:
                    zs = rng.uniform(zi[il - 1] + 2.1 * h, zi[il] - 2.1 * h, 2)
                for zz in zs:
                    h0, d0, e0 = H(zz), D(zz), E(zz)
                    if not mon.check("shape", h0.shape == d0.shape == e0.shape == (3, NG), h0.shape):
                        return
                    dz = (H(zz - 2 * h) - 8 * H(zz - h) + 8 * H(zz + h) - H(zz + 2 * h)) / (12 * h)
                    sc = np.max(np.abs(h0)) * max(1., np.hypot(*kg).max()) + np.max(np.abs(dz)) + 1e-9
                    mon.close("transverse-" + nme, 1j * (kg[0] * h0[0] + kg[1] * h0[1]) + dz[2], np.zeros(NG), rtol=0,
                              atol=rt * sc, msg="k %s mode %d z %g" % (ks[:, ik], m, zz))
                    curl = np.array([1j * kg[1] * h0[2] - dz[1], dz[0] - 1j * kg[0] * h0[2],
                                     1j * (kg[0] * h0[1] - kg[1] * h0[0])])
                    mon.close("D-curl-H-" + nme, d0, -1j / om * curl, rtol=0, atol=rt * sc / min(1, om),
                              msg="k %s mode %d z %g" % (ks[:, ik], m, zz))
                    mon.close("E-eta-D-" + nme, e0, d0 @ eta[il].T, rtol=1e-7, atol=1e-10)
                    # reference: periodic in the plane, real-space sums
                    mon.event("heights_sampled")
            for il in range(len(zi)):
                e = 1e-9
                a, b = H(zi[il] - e), H(zi[il] + e)
                sc = max(np.max(np.abs(a)), np.max(np.abs(b)))
                mon.close("H-continuous", a, b, rtol=1e-5, atol=1e-9, scale=sc, msg="interface %d" % il)
                a, b = D(zi[il] - e)[2], D(zi[il] + e)[2]
                mon.close("Dz-continuous", a, b, rtol=1e-5, atol=1e-6 * sc)
                mon.event("interfaces_crossed")
            acc[m] = (np.array([H(q[0]) for q in quad]), np.array([D(q[0]) for q in quad]),
                      np.array([E(q[0]) for q in quad]))
        W = np.array([q[1] for q in quad])
        if min(refs[ik].tab[0][1].min(), refs[ik].tab[-1 if -1 in refs[ik].tab else len(d) + 1][1].min()) < 5e-3:
            mon.skip("slab mode reaching too far into a cladding")
            acc = {}
        for m in acc:
            for n in acc:
                if n < m:
                    continue
                ip = A * np.einsum("z,zcg,zcg->", W, acc[m][0].conj(), acc[n][0])
                if m == n:
                    mon.close("H-norm", ip, 1., rtol=2e-5, atol=0)
                    en = A * np.einsum("z,zcg,zcg->", W, acc[m][2].conj(), acc[n][1])
                    mon.close("energy", en, 1., rtol=2e-5 if not gamma else 2e-3, atol=0)
                elif solver == "eigh":
                    mon.close("H-orthogonal", ip, 0., rtol=0, atol=2e-5)
                mon.event("norms")
        # real-space fields
        m = ms[0]
        for f in ("H", "d", "E"):
            zz = float(rng.uniform(-.3, zi[-1] + .3))
            xg, yg = np.sort(rng.uniform(-2, 2, 4)), np.sort(rng.uniform(-2, 2, 3))
            ft = gme.ft_field_xy(f, ik, m, zz)
            comp = ("xyz", "x", "zy", "zxz")[int(rng.integers(4))]
            fi, gx, gy = gme.get_field_xy(f, ik, m, zz, xgrid=xg.copy(), ygrid=yg.copy(), component=comp)
            mon.check("components", sorted(fi.keys()) == sorted(set(comp)), list(fi))
            mon.close("grid-x", gx, xg, rtol=0, atol=0)
            mon.close("grid-y", gy, yg, rtol=0, atol=0)
            ph = np.exp(1j * (G[0][None, None, :] * xg[None, :, None] + G[1][None, None, :] * yg[:, None, None]))
            sc = max(np.abs(v).sum() for v in ft) + 1e-9
            for c in fi:
                mon.close("xy-" + f, fi[c], ph @ ft["xyz".index(c)], rtol=0, atol=1e-9 * sc)
            zg = np.sort(rng.uniform(-.5, zi[-1] + .5, 5))
            yc, xc = float(yg[1]), float(xg[2])
            fxz, ga, gb = gme.get_field_xz(f, ik, m, yc, xgrid=xg.copy(), zgrid=zg.copy(), component=comp)
            mon.close("grid-xz", ga, xg, rtol=0, atol=0)
            mon.close("grid-xz", gb, zg, rtol=0, atol=0)
            fyz, ga, gb = gme.get_field_yz(f, ik, m, xc, ygrid=yg.copy(), zgrid=zg.copy(), component=comp)
            mon.close("grid-yz", ga, yg, rtol=0, atol=0)
            mon.close("grid-yz", gb, zg, rtol=0, atol=0)
            for j, z1 in enumerate(zg):
                ft1 = gme.ft_field_xy(f, ik, m, float(z1))
                sc = max(np.abs(v).sum() for v in ft1) + 1e-9
                for c in fxz:
                    v = ph @ ft1["xyz".index(c)]
                    mon.check("xz-keys", c in fyz, list(fyz))
                    mon.close("xz-" + f, fxz[c][j], v[1, :], rtol=0, atol=1e-9 * sc)
                    mon.close("yz-" + f, fyz[c][j], v[:, 2], rtol=0, atol=1e-9 * sc)
            mon.event("planes")
        if ik == 0:
            Nx, Ny, Nz, ds = 4, 3, 5, .7
            a, gx, gy = gme.get_field_xy("H", 0, m, .5 * zi[-1], Nx=Nx, Ny=Ny)
            ex = gme.phc.lattice.xy_grid(Nx=Nx, Ny=Ny)
            mon.close("default-grid", gx, ex[0], rtol=0, atol=1e-12)
            mon.close("default-grid", gy, ex[1], rtol=0, atol=1e-12)
            b, gx2, gz = gme.get_field_xz("H", 0, m, float(gy[1]), Nx=Nx, Nz=Nz, dist=ds)
            mon.close("default-grid", gx2, gx, rtol=0, atol=1e-12)
            mon.close("default-z", gz, np.linspace(-ds, zi[-1] + ds, Nz), rtol=0, atol=1e-12)
            c, gy2, gz2 = gme.get_field_yz("H", 0, m, float(gx[2]), Ny=Ny, Nz=Nz, dist=ds)
            mon.close("default-grid", gy2, gy, rtol=0, atol=1e-12)
            mon.close("default-z", gz2, gz, rtol=0, atol=1e-12)
            # the three planes agree where they cross (dist is symmetric: node 2 is the mid plane)
            for q in "xyz":
                s = max(np.max(np.abs(v)) for v in a.values())
                mon.close("cross", b[q][Nz // 2, 2], a[q][1, 2], rtol=0, atol=1e-9 * (1 + s))
                mon.close("cross", c[q][Nz // 2, 1], a[q][1, 2], rtol=0, atol=1e-9 * (1 + s))
            # one of the two grids given, the other one by its size
            xg, yg = np.sort(rng.uniform(-2, 2, 3)), np.sort(rng.uniform(-2, 2, 2))
            zg = np.sort(rng.uniform(-.4, zi[-1] + .4, 3))
            f, zz, yc = str(rng.choice(["h", "D", "e"])), float(rng.uniform(-.3, zi[-1] + .3)), float(rng.uniform(-1, 1))
            zd = np.linspace(-ds, zi[-1] + ds, Nz)
            for got, u, v, ref in (
                    (gme.get_field_xy(f, 0, m, zz, xgrid=xg.copy(), Ny=Ny), xg, ex[1], "xy"), (gme.get_field_xy(f, 0, m, zz, ygrid=yg.copy(), Nx=Nx), ex[0], yg, "xy"),
                    (gme.get_field_xz(f, 0, m, yc, xgrid=xg.copy(), Nz=Nz, dist=ds), xg, zd, "xz"), (gme.get_field_xz(f, 0, m, yc, zgrid=zg.copy(), Nx=Nx), ex[0], zg, "xz"),
                    (gme.get_field_yz(f, 0, m, yc, ygrid=yg.copy(), Nz=Nz, dist=ds), yg, zd, "yz"), (gme.get_field_yz(f, 0, m, yc, zgrid=zg.copy(), Ny=Ny), ex[1], zg, "yz")):
                full = {"xy": lambda: gme.get_field_xy(f, 0, m, zz, xgrid=np.array(u), ygrid=np.array(v)),
                        "xz": lambda: gme.get_field_xz(f, 0, m, yc, xgrid=np.array(u), zgrid=np.array(v)),
                        "yz": lambda: gme.get_field_yz(f, 0, m, yc, ygrid=np.array(u), zgrid=np.array(v))}[ref]()[0]
                mon.close("half-grid", got[1], u, rtol=0, atol=1e-12)
                mon.close("half-grid", got[2], v, rtol=0, atol=1e-12)
                for q in "xyz":
                    mon.close("half-grid-" + ref, got[0][q], full[q], rtol=1e-9, atol=1e-9)
            mon.event("half_grids", 6)
    mon.event("k_points", ks.shape[1])


if __name__ == "__main__":
    core.main(sys.modules[__name__])
