import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import core, geom, refgme
import numpy as np

PROPERTY = "C07"
RULE = ("random crystals (all lattice kinds, 1-3 layers, all shape classes, shapes in claddings) x guided-mode index lists "
        "(any order, gaps, orders beyond cutoff) x eps_eff (average/background/custom) x truncation x target frequency x "
        "several k; every frequency is compared with the eigenvalues of an independently assembled projected operator "
        "(exact slab modes from oscillation theory, quadrature in z, independently transformed permittivity). "
        "Distinct: crystal, k, options.")
ASSUMPTIONS = ["cases where two slab modes are closer than gmode_step, or one sits exactly at cutoff, are skipped (documented limitation of the search)",
               "at k+G=0 the library evaluates the slab modes at 1e-4; compared there with a tolerance of 2e-4"]


def cases(rng, tier):
    n = 300 if tier == "quick" else 9000
    out = []
    lk = ("square", "hexagonal", "rect", "oblique", "rotsq")
    for i in range(n):
        spec = geom.gen_spec(rng, nlay=1 + i % 3, lat=geom.gen_lattice(rng, kinds=(lk[i % 5],)),
                             clad_shapes=rng.random() < .25)
        nm = int(rng.integers(1, 5))
        inds = [int(x) for x in rng.permutation([0, 1, 2, 3, 4, 5, 6])[:nm]]
        if 0 not in inds and rng.random() < .8:
            inds.insert(int(rng.integers(len(inds) + 1)), 0)
        if rng.random() < .3:
            inds = [0, 1, 2, 3]
        if rng.random() < .15:
            inds = [inds[0]]
        ee = ("average", "background", "custom", "average")[int(rng.integers(4))]
        cust = None
        if ee == "custom":
            cust = [round(float(rng.uniform(1, 2.5)), 3)] + [round(float(rng.uniform(5, 13)), 3) for _ in spec["layers"]] + \
                   [round(float(rng.uniform(1, 2.5)), 3)]
        ks = [[round(float(x), 4) for x in rng.uniform(-4, 4, 2)] for _ in range(int(rng.integers(1, 4)))]
        if i % 13 == 4:             # close to Gamma
            s = 10 ** rng.uniform(-2.6, -1)
            ks.append([round(float(x), 6) for x in rng.uniform(-s, s, 2)])
        if i % 8 == 0:
            ks.append([0., 0.])
        if i % 7 == 0:
            ks.append([round(float(rng.uniform(.3, 3)), 4), 0.])
        out.append(dict(kind="gme", spec=spec, gmax=round(float(rng.uniform(1.05, 2.4)), 3), ks=ks, inds=inds,
                        eps_eff=ee, custom=cust, trunc=("abs", "abs", "tbt")[int(rng.integers(3))],
                        numeig=int(rng.integers(1, 13)), sigma=float(rng.choice([0., 0., 0., .35, .8])),
                        solver=str(rng.choice(["eigh", "eigh", "eigsh"])), step=float(rng.choice([1e-2, 1e-3])),
                        seed=int(rng.integers(1 << 30))))
        geom.spice(rng, out[-1])
    return out


def setup(case):
    import legume
    spec = case["spec"]
    phc = geom.build_phc(spec)
    if case["eps_eff"] == "custom":
        for la, e in zip([phc.claddings[0]] + phc.layers + [phc.claddings[1]], case["custom"]):
            la.eps_eff = e
    return phc


def run_case(case, mon):
    import legume
    spec = case["spec"]
    ks = np.array(case["ks"]).T
    eps = refgme.eff_eps(spec, case["eps_eff"], case["custom"])
    refs = []
    G = geom.gset(spec["lattice"], case["gmax"], case["trunc"])
    if G is None:
        mon.skip("a reciprocal vector on the cutoff")
        mon.trivial()
        return
    try:
        for k in ks.T:
            r = refgme.Ref(spec, G, k, case["inds"], eps, step=case["step"])
            r.freqs = r.solve()
            refs.append(r)
    except refgme.Skip as e:
        mon.skip(str(e))
        mon.trivial()
        return
    nb = min(r.N for r in refs)
    numeig = min(case["numeig"], nb if case["solver"] == "eigh" else max(1, nb // 2))
    if nb < 6:            # ARPACK needs k << N
        case = dict(case, solver="eigh")
    phc = setup(case)
    gme = legume.GuidedModeExp(phc, gmax=case["gmax"], truncate_g=case["trunc"])
    mon.check("plane-waves", gme.gvec.shape[1] == G.shape[1], "%s vs %s" % (gme.gvec.shape, G.shape))
    gme.run(kpoints=ks.copy(), gmode_inds=list(case["inds"]), numeig=numeig, eps_eff=case["eps_eff"],
            eig_solver=case["solver"], eig_sigma=case["sigma"], gmode_step=case["step"], verbose=False,
            compute_im=False)
    mon.check("shape", np.shape(gme.freqs) == (len(refs), numeig), np.shape(gme.freqs))
    mon.close("kpoints", gme.kpoints, ks, rtol=0, atol=0)
    for ik, r in enumerate(refs):
        f = np.asarray(gme.freqs[ik])
        gamma = r.g.min() < 1e-3
        mon.event("basis_states", r.N)
        mon.event("orders_left_out", len(case["inds"]) - len(r.blocks))
        mon.check("hermitian-reference", r.herm < 1e-9, "")
        mon.check("ascending", np.all(np.diff(f) >= -1e-12), f)
        s = case["sigma"]
        # the numeig nearest to the target: by frequency (dense) / by frequency squared (iterative)
        for metric in ((lambda x: abs(x - s)), (lambda x: abs(x * x - s * s))):
            o = np.argsort(metric(r.freqs), kind="stable")
            gap = (metric(r.freqs[o[numeig]]) - metric(r.freqs[o[numeig - 1]])) if numeig < r.N else 1.
            want = np.sort(r.freqs[o[:numeig]])
            if gap < 1e-5 or (gamma and gap < 1e-3):
                want = None
                break
            if case["solver"] == "eigh" or s == 0:
                break
        if s and want is not None:
            a = np.sort(r.freqs[np.argsort(abs(r.freqs - s), kind="stable")[:numeig]])
            b = np.sort(r.freqs[np.argsort(abs(r.freqs ** 2 - s * s), kind="stable")[:numeig]])
            if np.max(np.abs(a - b)) > 1e-9:
                if case["solver"] == "eigsh":
                    mon.skip("nearest in frequency and in squared frequency differ")
                    want = None
        if want is None:
            mon.skip("ambiguous choice of stored eigenvalues")
        else:
            tol = 2e-4 if gamma else (2e-6 if case["solver"] == "eigh" else 5e-6)
            # errors of omega^2 are absolute; small frequencies lose digits
            mon.close("freqs", f ** 2, want ** 2, rtol=0, atol=tol * (want.max() ** 2 + .05),
                      msg="k=%s N=%d %s" % (ks[:, ik], r.N, case["solver"]))
            mon.event("frequencies_compared", len(f))
        ev = np.asarray(gme.eigvecs[ik])
        if mon.check("eigvec-shape", ev.shape == (r.N, numeig), "%s vs %s" % (ev.shape, (r.N, numeig))):
            gram = ev.conj().T @ ev
            mon.close("orthonormal", gram, np.eye(numeig), rtol=0, atol=1e-8)
        if mon.check("orders", list(gme.gmode_include[ik]) == [b[0] for b in r.blocks],
                     "%s vs %s" % (gme.gmode_include[ik], [b[0] for b in r.blocks])):
            pass
    mon.event("k_points", len(refs))


if __name__ == "__main__":
    core.main(sys.modules[__name__])
