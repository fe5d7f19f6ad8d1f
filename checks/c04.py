import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import core, geom
import numpy as np

PROPERTY = "C04"
QUICK_REPS = 32
RULE = ("random lattices (incl. strongly oblique, anisotropic, rotated) x cutoffs (small, large, exactly on a "
        "shell of reciprocal vectors) x solver (guided-mode, plane-wave, exciton) x truncation; "
        "the set used is compared with exhaustive enumeration. Distinct: lattice, cutoff, solver.")


def cases(rng, tier):
    n = 60 if tier == "quick" else 500
    out = []
    for i in range(n):
        kinds = ("square", "hexagonal", "rect", "oblique", "rotsq", "skew")
        k = kinds[i % 6]
        if k == "skew":
            b = rng.uniform(.6, 2.2) * rng.choice([-1, 1])
            lat = {"kind": "vec", "a1": [1., 0.], "a2": [round(float(b), 3), round(float(rng.uniform(.35, .9)), 3)]}
        else:
            lat = geom.gen_lattice(rng, kinds=(k,))
        g = round(float(rng.uniform(.3, 4.5)), 3)
        mode = "free"
        if i % 3 == 0:
            mode = "shell"
        f = geom.gen_units(rng, .2)
        if f != 1.:
            lat, g = geom.scale_lattice(lat, f), g / f
        out.append(dict(kind="gset", lat=lat, gmax=g, f=f, mode=mode, seed=int(rng.integers(1 << 30))))
    return out


def run_case(case, mon):
    import legume
    rng = np.random.default_rng(case["seed"])
    lat = case["lat"]
    gmax = case["gmax"]
    if case["mode"] == "shell":
        _, G, _ = geom.gset_circ(lat, gmax + 2.5 / case.get("f", 1.))
        ab = np.unique(np.round(np.hypot(*G) * case.get("f", 1.), 12)) / case.get("f", 1.)
        ab = ab[ab * case.get("f", 1.) > 1e-9]
        gmax = float(ab[rng.integers(len(ab))] / (2 * np.pi))
        # what a user would type: the length of one member of the shell
        r = np.hypot(*G)
        j = int(rng.choice(np.flatnonzero(np.abs(r / (2 * np.pi * gmax) - 1) < 1e-9)))
        gmax = float(np.sqrt(G[0, j] ** 2 + G[1, j] ** 2) / (2 * np.pi))
        if rng.random() < .3:
            gmax = round(gmax, 6) if case.get("f", 1.) <= 1. else float("%.7g" % gmax)
    spec = dict(lattice=lat, eps_l=1., eps_u=1., layers=[dict(d=.3, eps_b=12., shapes=[
        dict(t="circle", eps=1., x=0., y=0., r=.1)])])
    phc = geom.build_phc(spec)
    nc, Gc, edge = geom.gset_circ(lat, gmax)
    if Gc.shape[1] > 260:
        gmax *= np.sqrt(200 / Gc.shape[1])
        nc, Gc, edge = geom.gset_circ(lat, gmax)
    shell = edge < 1e-9
    mon.event("cutoff_on_shell", int(shell))
    npar, Gp = geom.gset_par(lat, gmax)
    b1, b2 = geom.recip(lat)
    par_edge = min(abs(q - round(q)) if round(q) > 0 else 1 for q in
                   (2 * np.pi * gmax / np.linalg.norm(b) for b in (b1, b2)))
    if Gp.shape[1] > 900:
        mon.skip("parallelogram too large")
    sims = {}
    ex = dict(z=.15, V_shapes=.01, a=3e-7, M=2e-31, E0=1.5, loss=0.)
    sims["gme-abs"] = lambda: legume.GuidedModeExp(phc, gmax=gmax, truncate_g="abs")
    sims["ese-abs"] = lambda: legume.ExcitonSchroedEq(phc, gmax=gmax, truncate_g="abs", **ex)
    if Gp.shape[1] <= 900 and par_edge > 1e-9:
        sims["gme-tbt"] = lambda: legume.GuidedModeExp(phc, gmax=gmax, truncate_g="tbt")
        sims["ese-tbt"] = lambda: legume.ExcitonSchroedEq(phc, gmax=gmax, truncate_g="tbt", **ex)
        sims["pwe"] = lambda: legume.PlaneWaveExp(phc.layers[0], gmax=gmax)
    A = np.array(geom.vecs(lat))
    for nm, fn in sims.items():
        G = np.asarray(fn().gvec)
        mon.event("sets")
        mon.event("gvectors", G.shape[1])
        # integer coordinates n_i = G.a_i / 2pi
        nn = A @ G / (2 * np.pi)
        ni = np.round(nn).astype(int)
        mon.check("on-lattice", np.abs(nn - ni).max() < 1e-8, nm)
        got = [tuple(x) for x in ni.T]
        gs = set(got)
        mon.check("unique", len(gs) == len(got), nm)
        want = set(tuple(x) for x in (nc if nm.endswith("abs") else npar).T)
        if nm.endswith("abs") and shell:
            # the members of the boundary shell differ from the cutoff by rounding
            # only: all of them or none of them
            inner = set(tuple(x) for x in nc.T[np.hypot(*Gc) < 2 * np.pi * gmax * (1 - 1e-9)])
            if gs == inner:
                want = inner
                mon.event("shell_left_out")
        mon.check("complete-" + ("abs" if nm.endswith("abs") else "par"), gs == want,
                  "%s: %d vectors, expected %d; missing %s extra %s (gmax=%r)" %
                  (nm, len(gs), len(want), sorted(want - gs)[:4], sorted(gs - want)[:4], gmax))
        mon.check("has-zero", (0, 0) in gs, nm)
        mon.check("inversion", all((-a, -b) in gs for a, b in gs), nm)
        if nm.endswith("abs") and lat["kind"] in ("square", "hexagonal"):
            n = 4 if lat["kind"] == "square" else 6
            for M in point_ops(n):
                R = M @ G
                r = np.round(A @ R / (2 * np.pi)).astype(int)
                mon.check("point-symmetry", set(tuple(x) for x in r.T) == gs, "%s gmax=%r" % (nm, gmax))


def point_ops(n):
    out = []
    for j in range(n):
        c, s = np.cos(2 * np.pi * j / n), np.sin(2 * np.pi * j / n)
        out.append(np.array([[c, -s], [s, c]]))
        out.append(np.array([[c, s], [s, -c]]))
    return out


if __name__ == "__main__":
    core.main(sys.modules[__name__])
