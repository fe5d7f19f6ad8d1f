import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import core, geom
import numpy as np

PROPERTY = "C17"
QUICK_REPS = 3
RULE = ("random crystals (all lattices, 1-3 layers) with 1-3 wells (random height, mass, energy, loss, oscillator strength vector, potential) x "
        "guided orders x k: every polariton energy, loss, fraction and eigenvector against a generalised Hopfield matrix assembled from "
        "separately run photonic and exciton solvers; zero-oscillator-strength, well-order, twin-well and k-batch relations. "
        "Distinct: crystal, wells, k.")
ASSUMPTIONS = ["the coupling is pref*sum_G sqrt(osc).E(G) conj(W(G)), pref = -i sqrt(hbar^2 e^2/(4 m_e eps0))/e/sqrt(a), at the well's height",
               "number kept: half the matrix size minus one (as the code documents)",
               "photon and exciton solvers themselves are judged by C07/C09/C10 and C16"]
H, HBAR, QE, C0 = 6.62607015e-34, 1.054571817e-34, 1.602176634e-19, 299792458.
ME, EPS0 = 9.1093837015e-31, 8.8541878128e-12


def cases(rng, tier):
    n = 120 if tier == "quick" else 9000
    out = []
    lk = ("square", "hexagonal", "rect", "oblique", "rotsq")
    for i in range(n):
        spec = geom.gen_spec(rng, nlay=1 + i % 3, nshapes=2, lat=geom.gen_lattice(rng, kinds=(lk[i % 5],)))
        D = sum(l["d"] for l in spec["layers"])
        a = round(float(rng.uniform(2.5, 9)), 3) * 1e-7
        conv = H * C0 / QE / a
        nw = 1 + i % 3
        wells = []
        for w in range(nw):
            wells.append(dict(z=float(rng.uniform(.03, .97)) * D, V_shapes=float(rng.choice([0, 1, -1])) * 10 ** float(rng.uniform(-4, -1)),
                              a=a, M=9.1e-31 * float(rng.uniform(.1, 1)), E0=float(conv * rng.uniform(.1, .5)),
                              loss=float(rng.choice([0., 10 ** rng.uniform(-5, -3)])),
                              osc_str=[float(x) * 1e17 for x in rng.uniform(0, 5, 3)]))
            if rng.random() < .4:
                wells[-1]["osc_str"][2] = 0.
        if i % 5 == 0:
            for w in wells:
                w["osc_str"] = [0., 0., 0.]
        ks = [[round(float(x), 4) for x in rng.uniform(-3.2, 3.2, 2)] for _ in range(1 + i % 2)]
        if i % 10 == 3:
            ks.append([0., 0.])
        out.append(dict(kind="ops", spec=spec, wells=wells, ks=ks, a=a, gmax=round(float(rng.uniform(1.1, 2.1)), 3),
                        trunc=("abs", "tbt")[int(rng.integers(2))], inds=[[0], [0, 1], [0, 1, 2, 3], [0, 3], [1]][int(rng.integers(5))],
                        numeig=int(rng.integers(2, 7)), numex=int(rng.integers(1, 5)), arr=bool(rng.random() < .5),
                        seed=int(rng.integers(1 << 30))))
        geom.spice(rng, out[-1], .15)
    return out


def run_case(case, mon):
    import legume
    rng = np.random.default_rng(case["seed"])
    spec, wells, a = case["spec"], case["wells"], case["a"]
    ks = np.array(case["ks"]).T
    conv = H * C0 / QE / a
    go = dict(gmode_inds=list(case["inds"]), verbose=False, gmode_step=5e-3)

    def phc_of(ws):
        p = geom.build_phc(spec)
        for w in ws:
            w = dict(w)
            w["osc_str"] = np.array(w["osc_str"]) if case["arr"] else list(w["osc_str"])
            p.add_qw(**w)
        return p

    def pol_of(ws, k=ks):
        p = legume.HopfieldPol(phc_of(ws), case["gmax"], truncate_g=case["trunc"])
        for q in ("eners", "eners_im", "eigvecs", "fractions_ex", "fractions_ph", "kpoints"):
            mon.check("empty-before-run", len(getattr(p, q)) == 0, q)
        p.run(gme_options=dict(go, numeig=N), exc_options=dict(numeig_ex=M, verbose_ex=False), kpoints=k.copy(), verbose=False)
        return p
    gme = legume.GuidedModeExp(phc_of([]), gmax=case["gmax"], truncate_g=case["trunc"])
    try:
        gme.run(kpoints=ks.copy(), numeig=1, compute_im=False, **go)
    except RuntimeError as e:
        if "No guided modes" in str(e):
            mon.skip("requested slab modes below cutoff")
            mon.trivial()
            return
        raise
    N = min(case["numeig"], min(int(x) for x in gme.N_basis))
    gme.run(kpoints=ks.copy(), numeig=N, **go)
    M = min(case["numex"], gme.gvec.shape[1])
    es = []
    for w in wells:
        e = legume.ExcitonSchroedEq(phc_of([]), z=w["z"], V_shapes=w["V_shapes"], a=a, M=w["M"], E0=w["E0"], loss=w["loss"],
                                    osc_str=np.array(w["osc_str"]), gmax=case["gmax"], truncate_g=case["trunc"])
        e.run(kpoints=ks.copy(), numeig_ex=M, verbose_ex=False)
        es.append(e)
    pol = pol_of(wells)
    Q = len(wells)
    T = 2 * (N + M * Q)
    keep = T // 2 - 1
    en, im = np.asarray(pol.eners), np.asarray(pol.eners_im)
    fx, fp = np.asarray(pol.fractions_ex), np.asarray(pol.fractions_ph)
    nk = ks.shape[1]
    if not mon.check("shape", en.shape == im.shape == fx.shape == fp.shape == (nk, keep), (en.shape, keep)):
        return
    mon.close("kpoints", pol.kpoints, ks, rtol=0, atol=0)
    mon.close("gvec", pol.gvec, gme.gvec, rtol=1e-14)
    mon.check("fraction-range", np.all(fx > -1e-9) and np.all(fx < 1 + 1e-9) and np.all(fp > -1e-9) and np.all(fp < 1 + 1e-9), (fx, fp))
    mon.close("fraction-sum", fx + fp, np.ones_like(fx), rtol=0, atol=1e-9)
    pref = -1j * np.sqrt(HBAR ** 2 * QE ** 2 / (4 * ME * EPS0)) / QE / np.sqrt(a)
    sep_all = []
    bare = []
    for ik in range(nk):
        C = np.zeros((N, M * Q), complex)
        Eex = np.concatenate([np.asarray(e.eners)[ik] for e in es])
        for q, (w, e) in enumerate(zip(wells, es)):
            so = np.sqrt(np.array(w["osc_str"]))
            W = np.array([e.ft_wavef_xy(ik, nu) for nu in range(M)])
            for n in range(N):
                E = np.array(gme.ft_field_xy("E", ik, n, w["z"]))
                C[n, q * M:(q + 1) * M] = pref * (W.conj() @ (so @ E))
        D = (C / Eex.real) @ C.conj().T
        Eph = np.diag(conv * (np.asarray(gme.freqs[ik]) + 1j * np.asarray(gme.freqs_im[ik])))
        Ch = C.conj().T
        X = np.diag(Eex)
        Z = 0 * X
        mat = np.block([[Eph + 2 * D, -1j * C, -2 * D, -1j * C], [1j * Ch, X, -1j * Ch, Z],
                        [2 * D, -1j * C, -Eph - 2 * D, -1j * C], [-1j * Ch, Z, 1j * Ch, -X]])
        w, v = np.linalg.eig(mat)
        gamma = np.hypot(*ks[:, ik]) < 1e-9
        tol = 1e-7 if not gamma else 1e-5
        order = np.argsort(w.real)
        w, v = w[order], v[:, order]
        g = en[ik]
        mon.check("ascending", np.all(np.diff(g) >= -1e-9), g)
        if gamma:
            # the zero-frequency photons have rounding-dominated energies: the levels are counted from the middle
            mon.check("positive", np.all(g >= -1e-5), g)
            mon.close("energies-gamma", g, w.real[T // 2:][:keep], rtol=0, atol=1e-5)
            mon.event("gamma_compared", keep)
            continue
        mon.check("positive", np.all(g >= -1e-9), g)
        pos = w.real > 1e-9
        wp, vp = w[pos], v[:, pos]
        # the two-sided spectrum is +-: the positive half has T/2 members
        mon.check("positive-half", wp.size == T // 2, wp.size)
        mon.close("energies", g, wp.real[:keep], rtol=0, atol=tol, msg="k=%s" % ks[:, ik])
        ev = np.asarray(pol.eigvecs[ik])
        if mon.check("eigvec-shape", ev.shape == (T, keep), ev.shape):
            mon.close("eigvec", mat_apply(mat, ev, gme, pol, ik), ev * (g + 1j * im[ik]), rtol=0, atol=1e-6)
            mon.close("eigvec-norm", np.sum(np.abs(ev) ** 2, axis=0), np.ones(keep), rtol=0, atol=1e-9)
        for j in range(keep):
            d = np.abs(wp.real - wp.real[j])
            d[j] = 1
            if d.min() < 1e-6:
                mon.skip("degenerate polaritons")
                continue
            mon.close("losses", im[ik][j], wp.imag[j], rtol=1e-6, atol=1e-8)
            sh = np.abs(vp[:, j]) ** 2
            sh = sh / sh.sum()
            ph = sh[:N].sum() + sh[N + M * Q:2 * N + M * Q].sum()
            mon.close("fraction-ph", fp[ik][j], ph, rtol=0, atol=1e-5)
            mon.close("fraction-ex", fx[ik][j], 1 - ph, rtol=0, atol=1e-5)
            mon.event("polaritons_compared")
        if all(max(q["osc_str"]) == 0 for q in wells):
            un = np.concatenate([np.diag(Eph), Eex])
            un = un[np.argsort(un.real)]
            mon.close("uncoupled", g, un.real[:keep], rtol=0, atol=1e-9)
            mon.close("uncoupled-losses", np.sort(im[ik] + 1e-3 * g), np.sort((un.imag + 1e-3 * un.real)[:keep]), rtol=0, atol=1e-8)
            mon.event("uncoupled")
    if not any(np.hypot(*k) < 1e-9 for k in ks.T):
        # order of the wells, k points one by one
        if Q > 1:
            p2 = pol_of(wells[::-1])
            mon.close("well-order", p2.eners, en, rtol=0, atol=1e-7)
            mon.event("reorderings")
        if nk > 1:
            p3 = pol_of(wells, k=ks[:, ::-1])
            mon.close("k-order", np.asarray(p3.eners)[::-1], en, rtol=0, atol=1e-7)
        # twin wells
        w = wells[0]
        M0 = M
        tw = np.asarray(pol_of([w, w]).eners)
        one = np.asarray(pol_of([dict(w, osc_str=[2 * x for x in w["osc_str"]])]).eners)
        e0 = np.asarray(es[0].eners).real
        for ik in range(nk):
            # 'one' drops its highest level: compare what both keep
            cut = one[ik][-1] if one.shape[1] else -1
            want = np.sort(np.concatenate([one[ik], e0[ik][e0[ik] < cut - 1e-6]]))
            got = tw[ik][tw[ik] < cut + 1e-7]
            m = min(len(want), len(got))
            if m:
                mon.close("twin-wells", got[:m], want[:m], rtol=0, atol=5e-6)   # exactly degenerate dark states
                mon.event("twin_wells")
    mon.event("wells", Q)
    mon.event("k_points", nk)


def mat_apply(mat, ev, gme, pol, ik):
    return mat @ ev


if __name__ == "__main__":
    core.main(sys.modules[__name__])
