import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import core, geom, refgme
import numpy as np

PROPERTY = "C09"
QUICK_REPS = 2
RULE = ("random crystals without any in-plane symmetry (all lattices and shape classes, 1-3 layers, patterned claddings, "
        "equal or different claddings) x guided orders x truncation x k inside and outside the light cones; the coupling of "
        "every mode to every diffraction order, cladding and polarisation is recomputed by quadrature with independently "
        "built outgoing slab states; freqs_im, unbalance, channel lists, subset calls are compared. Distinct: crystal, k, options.")
ASSUMPTIONS = ["per-channel comparison only for modes separated from the others by 1e-4 in frequency (otherwise the level's summed loss is compared)",
               "couplings are defined up to one phase per mode; the relative phase of all channels is compared",
               "time dependence exp(+i omega t) (the sign relating D and H in ft_field_xy, and a decay for Im omega > 0): "
               "the outgoing wave of the upper cladding is exp(-i chi z)"]
CH = ("l_te", "l_tm", "u_te", "u_tm")


def cases(rng, tier):
    n = 130 if tier == "quick" else 4500
    out = []
    lk = ("square", "hexagonal", "rect", "oblique", "rotsq")
    for i in range(n):
        spec = geom.gen_spec(rng, nlay=1 + i % 3, lat=geom.gen_lattice(rng, kinds=(lk[i % 5],)),
                             clad_shapes=rng.random() < .2)
        if rng.random() < .15:      # very different claddings: one cone inside the other
            spec["eps_u"] = 3.5
        nm = int(rng.integers(1, 5))
        inds = [0] + sorted(int(x) for x in rng.permutation([1, 2, 3, 4])[:nm - 1])
        if rng.random() < .2:
            inds = [1, 3]
        if rng.random() < .2:
            inds = inds[::-1]
        ks = []
        for _ in range(int(rng.integers(1, 3))):
            s = rng.choice([.5, 2.5, 5.])
            ks.append([round(float(x), 4) for x in rng.uniform(-s, s, 2)])
        if i % 9 == 0:
            ks.append([round(float(rng.uniform(.3, 2)), 4), 0.])
        if i % 7 == 4:              # close to Gamma
            s = 10 ** rng.uniform(-2.6, -1)
            ks.append([round(float(x), 6) for x in rng.uniform(-s, s, 2)])
        if i % 11 == 0:
            ks.append([0., 0.])
        out.append(dict(kind="gme", spec=spec, gmax=round(float(rng.uniform(1.05, 2.2)), 3), ks=ks, inds=inds,
                        eps_eff=("average", "average", "background")[int(rng.integers(3))],
                        trunc=("abs", "tbt")[int(rng.integers(2))], numeig=int(rng.integers(2, 13)),
                        sigma=float(rng.choice([0., 0., .6])), solver=("eigh", "eigh", "eigsh")[int(rng.integers(3))],
                        step=1e-3, how=("run", "after", "rad", "radsp")[i % 4], seed=int(rng.integers(1 << 30))))
        geom.spice(rng, out[-1])
        if i % 5 == 3:
            out[-1]["graze"] = [round(float(x), 3) for x in rng.uniform(0, 1, 3)] + [float("%.3g" % 10 ** rng.uniform(-4.3, -2))]
    return out


def graze(case, spec, G, eps):
    """A wave vector along the first one at which a mode is just inside the light line of some channel."""
    u, v, c, dl = case["graze"]
    k0 = np.array(case["ks"][0], float)
    clad = 0 if c < .5 else -1

    def h(t, m, q):
        r = refgme.Ref(spec, G, t * k0, case["inds"], eps, step=case["step"])
        w = r.solve()[m] * 2 * np.pi
        return np.sum((G[:, q] + t * k0) ** 2) / (eps[clad] * w * w) - 1 + dl
    ts = np.linspace(.6, 1.6, 9)
    sol = []
    for t in ts:
        r = refgme.Ref(spec, G, t * k0, case["inds"], eps, step=case["step"])
        sol.append((r.solve()[:case["numeig"]] * 2 * np.pi, r.g ** 2))
    n = min(len(a) for a, _ in sol)
    F = np.array([g[None, :] / (eps[clad] * w[:n, None] ** 2) - 1 + dl for w, g in sol])
    cand = np.argwhere(F[:-1] * F[1:] < 0)
    if len(cand) == 0:
        return None
    i, m, q = cand[int(u * len(cand))]
    a, b = ts[i], ts[i + 1]
    fa = F[i, m, q]
    for _ in range(40):
        c = .5 * (a + b)
        fc = h(c, m, q)
        if (fc > 0) == (fa > 0):
            a, fa = c, fc
        else:
            b = c
        if b - a < 1e-3 * dl:
            break
    return .5 * (a + b) * k0


def run_case(case, mon):
    import legume
    rng = np.random.default_rng(case["seed"])
    spec = case["spec"]
    ks = np.array(case["ks"]).T
    eps = refgme.eff_eps(spec, case["eps_eff"])
    G = geom.gset(spec["lattice"], case["gmax"], case["trunc"])
    if G is None:
        mon.skip("a reciprocal vector on the cutoff")
        mon.trivial()
        return
    refs = []
    try:
        if "graze" in case and np.hypot(*ks[:, 0]) > .05:
            kg = graze(case, spec, G, eps)
            if kg is not None:
                ks[:, 0] = kg
                mon.event("grazing_wave_vectors")
        for k in ks.T:
            r = refgme.Ref(spec, G, k, case["inds"], eps, step=case["step"])
            r.freqs = r.solve()
            refs.append(r)
    except refgme.Skip as e:
        mon.skip(str(e))
        mon.trivial()
        return
    nb = min(r.N for r in refs)
    solver = case["solver"] if nb >= 6 else "eigh"
    numeig = min(case["numeig"], nb if solver == "eigh" else max(1, nb // 2))
    gme = legume.GuidedModeExp(geom.build_phc(spec), gmax=case["gmax"], truncate_g=case["trunc"])
    how = case["how"]
    gme.run(kpoints=ks.copy(), gmode_inds=list(case["inds"]), numeig=numeig, eps_eff=case["eps_eff"],
            eig_solver=solver, eig_sigma=case["sigma"], gmode_step=case["step"], verbose=False,
            compute_im=how == "run")
    if how != "run":
        mon.check("no-losses-before", np.size(gme.freqs_im) == 0, gme.freqs_im)
    if how in ("rad", "radsp"):
        # subsets, repeated and in any order, before any full computation
        sub = {}
        for ik in rng.permutation(len(refs)):
            mi = [int(x) for x in rng.permutation(numeig)[:int(rng.integers(1, numeig + 1))]]
            if how == "rad":
                fi, rc, rg = gme.compute_rad(int(ik), mi)
                te = tm = None
            else:
                fi, te, tm, rc, rg = gme.compute_rad_sp(int(ik), mi)
            sub[int(ik)] = (mi, fi, te, tm, rc, rg)
    if how != "run":
        gme.run_im()
    mon.check("im-shape", np.shape(gme.freqs_im) == np.shape(gme.freqs), np.shape(gme.freqs_im))
    mon.check("unbalance-shape", np.shape(gme.unbalance_sp) == np.shape(gme.freqs), np.shape(gme.unbalance_sp))
    if how in ("rad", "radsp"):
        for ik, (mi, fi, te, tm, rc, rg) in sub.items():
            mon.close("subset-im", fi, np.asarray(gme.freqs_im)[ik][mi], rtol=1e-10, atol=1e-14)
            for c in CH:
                for j, m in enumerate(mi):
                    mon.close("subset-coup", rc[c][j], gme.rad_coup[c][ik][m], rtol=1e-9, atol=1e-12)
            for c in "lu":
                for j, m in enumerate(mi):
                    mon.close("subset-gvec", rg[c][j], gme.rad_gvec[c][ik][m], rtol=0, atol=1e-12)
            if te is not None:
                for j, m in enumerate(mi):
                    w = 2 * np.pi * gme.freqs[ik][m]
                    for got, pol in ((te, "te"), (tm, "tm")):
                        s = sum(np.sum(np.abs(gme.rad_coup[cl + pol][ik][m]) ** 2) for cl in ("l_", "u_"))
                        mon.close("sp-im", got[j], np.sqrt(w * w + 1j * s).imag / 2 / np.pi, rtol=1e-9, atol=1e-14)
    for ik, r in enumerate(refs):
        f = np.asarray(gme.freqs[ik])
        gamma = r.g.min() < 1e-3
        for m in range(numeig):
            w = 2 * np.pi * f[m]
            im = float(gme.freqs_im[ik][m])
            got = {c: np.asarray(gme.rad_coup[c][ik][m]) for c in CH}
            tot = sum(np.sum(np.abs(v) ** 2) for v in got.values())
            te = sum(np.sum(np.abs(got[c]) ** 2) for c in ("l_te", "u_te"))
            mon.check("non-negative", im >= 0, im)
            mon.close("golden-rule", im, np.sqrt(w * w + 1j * tot).imag / 2 / np.pi, rtol=1e-9, atol=1e-14)
            # channels
            edge = False
            for clad, cn in ((0, "l"), (-1, "u")):
                x = r.g ** 2 / (eps[clad] * w * w)
                if np.any(np.abs(x - 1) < 3e-5):
                    edge = True
                    continue
                want = G[:, x < 1]
                gg = np.asarray(gme.rad_gvec[cn][ik][m])
                ok = gg.shape == want.shape and (want.size == 0 or np.all(np.min(
                    np.abs(gg[:, :, None] - want[:, None, :]).max(0), axis=1) < 1e-9))
                mon.check("channels", ok, "cladding %s: %s expected %s" % (cn, gg, want))
                for pol in ("te", "tm"):
                    mon.check("coup-length", got[cn + "_" + pol].shape == (gg.shape[1],), got[cn + "_" + pol].shape)
            if edge:
                mon.skip("order at the edge of the light cone")
                continue
            below = w <= r.g.min() / np.sqrt(max(eps[0], eps[-1]))
            ub = float(gme.unbalance_sp[ik][m])
            mon.check("unbalance-range", -1e-12 <= ub <= 1 + 1e-12, ub)
            if below:
                mon.event("lossless_modes")
                mon.check("lossless", im == 0 and abs(ub - .5) < 1e-12, (im, ub))
                continue
            mon.event("lossy_modes")
            if im > 1e-9:
                i2 = [np.sqrt(w * w + 1j * t).imag for t in (te, tot - te)]
                a, b = te / tot, i2[0] / (i2[0] + i2[1])
                mon.check("unbalance", min(a, b) - 1e-5 <= ub <= max(a, b) + 1e-5, "%g, s share %g" % (ub, a))
            # independent couplings
            j = int(np.argmin(abs(r.freqs - f[m])))
            near = np.abs(r.freqs - f[m]) < 1e-4
            if abs(r.freqs[j] - f[m]) > (1e-6 if not gamma else 1e-3):
                mon.check("mode-known", gamma or solver == "eigsh", "frequency %g not in the projected spectrum" % f[m])
                continue
            if gamma:
                continue
            if near.sum() > 1:
                ml = np.flatnonzero(np.abs(f - f[m]) < 1e-4)
                mon.event("degenerate_levels")
                if solver == "eigsh" or len(ml) != near.sum() or f[ml].max() - f[ml].min() > 1e-8 or m != ml[0]:
                    continue
                wt = 0
                for q in np.flatnonzero(near):
                    c, o = r.couplings(w, r.v[:, q], "in")
                    wt += sum(np.sum(np.abs(v) ** 2) for v in c.values())
                gt = sum(np.sum(np.abs(gme.rad_coup[c][ik][q]) ** 2) for c in CH for q in ml)
                mon.close("level-loss", gt, wt, rtol=1e-5, atol=1e-10)
                continue
            c, o = r.couplings(w, r.v[:, j], "in")
            # same order of channels as the library
            vg, vw = [], []
            for q in CH:
                gg = np.asarray(gme.rad_gvec[q[0]][ik][m])
                for n, iG in enumerate(o[q[0]]):
                    p = np.flatnonzero(np.abs(gg - G[:, [iG]]).max(0) < 1e-9)
                    if len(p) == 1 and got[q].shape == (gg.shape[1],):
                        vg.append(got[q][p[0]])
                        vw.append(c[q][n] * (-1j if q[2:] == "tm" else 1))
            vg, vw = np.array(vg), np.array(vw)
            sc = np.max(np.abs(vw))
            if sc < 1e-12:
                mon.close("coup-zero", vg, 0 * vw, rtol=0, atol=1e-5)
                continue
            # conditioning: mode frequency relative to its neighbours and nearness of a cone edge
            gap = np.sort(np.abs(r.freqs - f[m]))[1] if r.N > 1 else 1.
            near_edge = min(np.min(np.abs(r.g ** 2 / (e * w * w) - 1)) for e in (eps[0], eps[-1]))
            tol = 1e-5 + 1e-7 / gap + 1e-7 / near_edge
            mon.close("coupling-size", np.abs(vg), np.abs(vw), rtol=tol, atol=3e-7, msg="mode %d k %s" % (m, ks[:, ik]))
            ph = np.vdot(vw, vg)
            ph = ph / abs(ph) if abs(ph) > 1e-12 else 1.
            mon.close("coupling-phase", vg, vw * ph, rtol=2 * tol, atol=3e-7, msg="mode %d k %s" % (m, ks[:, ik]))
            mon.event("couplings_compared", len(vw))
    mon.event("k_points", len(refs))


if __name__ == "__main__":
    core.main(sys.modules[__name__])
