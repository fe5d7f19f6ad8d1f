import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import core, geom
import numpy as np

PROPERTY = "C05"
QUICK_REPS = 40
RULE = ("random crystals (multi-layer, cladding shapes, all lattice kinds, all shape classes) x truncation x solver; "
        "the reported real-space permittivity/potential is compared point by point with the Fourier series over the "
        "differences of the solver's own reciprocal vectors with independently computed coefficients, on default "
        "grids and on caller-supplied grids, in every layer. Distinct: crystal, cutoff, truncation.")


def cases(rng, tier):
    n = 36 if tier == "quick" else 300
    out = []
    lk = ("square", "hexagonal", "rect", "oblique", "rotsq")
    for i in range(n):
        spec = geom.gen_spec(rng, nlay=1 + i % 3, nshapes=2, lat=geom.gen_lattice(rng, kinds=(lk[i % 5],)),
                             clad_shapes=True)
        f = geom.gen_units(rng)
        out.append(dict(kind=("gme-abs", "gme-tbt", "pwe", "ese-abs", "ese-tbt")[(i // 5 + i) % 5], spec=geom.scale_spec(spec, f) if f != 1. else spec,
                        gmax=round(float(rng.uniform(1.1, 3.3) if rng.random() < .93 else rng.uniform(.02, .8)), 3) / f, f=f, seed=int(rng.integers(1 << 30))))
    return out


def series(n, coef, B, X, Y):
    out = np.zeros(X.shape, complex)
    G = B.T @ n
    for j in range(n.shape[1]):
        out += coef[j] * np.exp(1j * (G[0, j] * X + G[1, j] * Y))
    return out


def run_case(case, mon):
    import legume
    rng = np.random.default_rng(case["seed"])
    spec = case["spec"]
    lat = spec["lattice"]
    phc = geom.build_phc(spec)
    A = np.array(geom.vecs(lat))
    B = np.array(geom.recip(lat))
    lays = geom.all_layers(spec)
    kind = case["kind"]
    gmax = case["gmax"]
    tr = kind.split("-")[-1]

    def diffs(gvec):
        n = np.round(A @ np.asarray(gvec) / (2 * np.pi)).astype(int)
        d = (n[:, :, None] - n[:, None, :]).reshape(2, -1)
        return np.unique(d, axis=1)

    if kind.startswith("gme"):
        sim = legume.GuidedModeExp(phc, gmax=gmax, truncate_g=tr)
        nd = diffs(sim.gvec)
        for il, (z0, z1, eb, shs) in enumerate(lays):
            lo = z0 if np.isfinite(z0) else -2.
            hi = z1 if np.isfinite(z1) else z0 + 2.
            z = float(rng.uniform(lo + 1e-3 * (hi - lo), hi - 1e-3 * (hi - lo)))
            coef = geom.layer_ft(lat, eb, shs, B.T @ nd)
            variants = [dict(Nx=int(rng.integers(3, 13)), Ny=int(rng.integers(3, 13)))]
            xg, yg = case.get("f", 1.) * rng.uniform(-2, 2, 5), case.get("f", 1.) * rng.uniform(-2, 2, 7)
            variants += [dict(xgrid=xg.copy(), ygrid=yg.copy()),
                         [dict(xgrid=xg.copy(), Ny=6), dict(ygrid=yg.copy(), Nx=4)][il % 2]]
            for v in variants:
                er, x, y = sim.get_eps_xy(z, **v)
                check_grid(mon, phc, v, x, y)
                want = series(nd, coef, B, *np.meshgrid(x, y))
                mon.close("gme-eps", er, want, rtol=2e-4, atol=1e-6, msg="layer %d %s" % (il, kind))
                mon.close("gme-eps-real", np.imag(er), 0 * np.real(er), rtol=0, atol=1e-4 * np.abs(want).max())
                mon.event("planes")
            # average over the cell
            N = 2 * int(np.abs(nd).max()) + 3
            f = np.arange(N) / N
            av = 0
            # sample on the cell through 1-point grids along a random line instead of
            # trusting a rectangular grid: x,y of the cell points
            pts = A.T @ np.array([[0.1, .37, .62, .9], [.2, .55, .83, .05]])
            for p in pts.T:
                e, _, _ = sim.get_eps_xy(z, xgrid=np.array([p[0]]), ygrid=np.array([p[1]]))
                t = A.T @ rng.integers(-2, 3, 2)
                e2, _, _ = sim.get_eps_xy(z, xgrid=np.array([p[0] + t[0]]), ygrid=np.array([p[1] + t[1]]))
                mon.close("gme-eps-periodic", e2, e, rtol=1e-6)
        return
    if kind == "pwe":
        il = int(rng.integers(0, len(phc.layers)))
        z0, z1, eb, shs = lays[il + 1]
        sim = legume.PlaneWaveExp(phc.layers[il], gmax=gmax)
        nd = diffs(sim.gvec)
        coef = geom.layer_ft(lat, eb, shs, B.T @ nd)
        for v in (dict(Nx=int(rng.integers(3, 15)), Ny=int(rng.integers(3, 15))),
                  dict(Nx=5, Ny=4, z=float(rng.uniform(-1, 1)))):
            er, x, y = sim.get_eps_xy(**v)
            check_grid(mon, phc, v, x, y)
            want = series(nd, coef, B, *np.meshgrid(x, y))
            mon.close("pwe-eps", er, want, rtol=2e-4, atol=1e-6, msg=str(lat))
            mon.event("planes")
        return
    # exciton potential
    il = int(rng.integers(0, len(phc.layers)))
    z0, z1, eb, shs = lays[il + 1]
    V = float(rng.choice([-1, 1])) * 10 ** float(rng.uniform(-4, -1))
    sim = legume.ExcitonSchroedEq(phc, z=(z0 + z1) / 2, V_shapes=V, a=10 ** float(rng.uniform(-7, -6)), M=2e-31,
                                  E0=1.4, loss=1e-4, gmax=gmax, truncate_g=tr)
    nd = diffs(sim.gvec)
    G = B.T @ nd
    coef = np.zeros(G.shape[1], complex)
    for s in shs:
        coef += V * geom.shape_ft(s, G) / geom.cell_area(lat)
    if V < 0 and shs:
        coef += abs(V) * (np.hypot(*G) < 1e-9)
    v = dict(Nx=int(rng.integers(3, 15)), Ny=int(rng.integers(3, 15)))
    pr, x, y = sim.get_pot_xy(**v)
    check_grid(mon, phc, v, x, y)
    want = series(nd, coef, B, *np.meshgrid(x, y))
    mon.event("potential_shapes_%d" % len(shs))
    mon.close("ese-pot", pr, want, rtol=2e-4, atol=1e-6 * abs(V), scale=abs(V), msg="%s V=%g nshapes=%d area=%g" %
              (lat, V, len(shs), geom.cell_area(lat)))
    mon.event("planes")


def check_grid(mon, phc, v, x, y):
    gx, gy = phc.lattice.xy_grid(Nx=v.get("Nx", 100), Ny=v.get("Ny", 100))
    mon.close("grid-x", x, v.get("xgrid", gx), rtol=1e-14)
    mon.close("grid-y", y, v.get("ygrid", gy), rtol=1e-14)


if __name__ == "__main__":
    core.main(sys.modules[__name__])
