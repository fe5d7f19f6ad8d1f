import os, sys, copy
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import core, geom, refgme, cmp
import numpy as np

PROPERTY = "C12"
RULE = ("random asymmetric crystals (and mirror-symmetric ones for the symmetry variants), all three photonic/excitonic "
        "solvers and the polariton solver; each case compares a base run with one variant that is documented as an "
        "implementation choice or a mere rearrangement: solver, interpolation, gradients, back end, truncation with the same "
        "plane waves, sparse/dense, losses during/after, k points alone/permuted/duplicated, fewer modes, explicit defaults, "
        "argument types. Distinct: crystal, options, variant.")
ASSUMPTIONS = ["interpolated guided modes are compared within an error measured against the step and away from cutoffs",
               "degenerate levels are compared as subspaces"]
GME = ("eigsh", "eigsh-sigma", "interp", "interp", "interp", "approx", "approx-im", "autograd", "autograd-eigsh", "trunc", "trunc", "after", "rad", "kone", "kperm",
       "fewer", "defaults", "types", "step", "kone-interp", "tbt-autograd", "abs-both", "dup")
SYM = ("sparse", "sparse-autograd", "sym-kperm", "sym-after")
OTHER = ("pwe-kone", "pwe-autograd", "pwe-kperm", "ese-kone", "ese-trunc", "ese-kperm", "pol-kone", "pol-trunc", "pol-solver", "pol-kperm",
         "call-defaults", "whole-numbers")


def cases(rng, tier):
    rep = 9 if tier == "quick" else 170
    out = []
    for i in range(rep * (len(GME) + len(SYM))):
        v = (GME + SYM)[i % (len(GME) + len(SYM))]
        spec = geom.gen_spec(rng, nlay=1 + int(rng.integers(3)), clad_shapes=rng.random() < .15)
        gmax = round(float(rng.uniform(1.05, 2.1)), 3)
        if v == "trunc":
            k = str(rng.choice(["square", "rect", "rotsq", "oblique"]))
            while True:
                lat = geom.gen_lattice(rng, kinds=(k,))
                gmax = round(float(rng.uniform(1.05, 2.6)), 3)
                A, B = geom.gset(lat, gmax, "abs"), geom.gset(lat, gmax, "tbt")
                if A is not None and B is not None and A.shape[1] > 5 and {tuple(x) for x in np.round(A.T, 5)} == {tuple(x) for x in np.round(B.T, 5)}:
                    break
            spec["lattice"] = lat
        nm = int(rng.integers(1, 5))
        inds = [0] + sorted(int(x) for x in rng.permutation([1, 2, 3, 4])[:nm - 1])
        s = rng.choice([.6, 2.5, 5.])
        nk = int(rng.integers(2, 5)) if v in ("kone", "kperm", "kone-interp", "dup") else int(rng.integers(1, 3))
        ks = [[round(float(x), 4) for x in rng.uniform(-s, s, 2)] for _ in range(nk)]
        out.append(dict(var=v, spec=spec, inds=inds, trunc=("abs", "tbt")[int(rng.integers(2))], ks=ks, gmax=gmax,
                        eps_eff=("average", "average", "background")[int(rng.integers(3))],
                        numeig=int(rng.integers(3, 12)), sigma=float(rng.choice([0., 0., .5, 1.])), seed=int(rng.integers(1 << 30))))
        if v in ("interp", "kone-interp") and i % 2:
            # wave vectors along the longest reciprocal vectors reach the end of the interpolation grid
            gmax = round(float(rng.uniform(1.02, 1.6)), 3)
            G = geom.gset(spec["lattice"], gmax, out[-1]["trunc"])
            if G is not None and G.shape[1] > 1:
                g = np.hypot(*G)
                u = G[:, int(rng.choice(np.flatnonzero(g >= .999 * g.max())))] / g.max()
                out[-1].update(gmax=gmax, numeig=1000,
                               ks=[[round(float(x), 4) for x in t * u + rng.uniform(-.1, .1, 2)] for t in rng.uniform(1., 4.5, nk)])
        if v in ("kone", "kperm", "dup", "eigsh", "autograd", "after", "rad", "fewer", "eigsh-sigma"):
            geom.spice(rng, out[-1], .3, kinds=("high", "manyk") if v in ("kone", "kperm") else ("high",))
        if v in SYM:
            sp, ks, ang = sym_spec(rng)
            out[-1].update(spec=sp, ks=ks, angles=ang, inds=sorted({0, 1} | set(inds)), gmax=round(float(rng.uniform(1.1, 1.9)), 3),
                           trunc="abs")
    for i in range((rep // 2 + 1) * len(OTHER)):
        v = OTHER[i % len(OTHER)]
        spec = geom.gen_spec(rng, nlay=1 + int(rng.integers(2)))
        gmax = round(float(rng.uniform(1.2, 2.3)), 3)
        if v.endswith("trunc"):
            spec["lattice"] = {"kind": "square"}
            gmax = float(rng.choice([1.5, 1.9]))
        ks = [[round(float(x), 4) for x in rng.uniform(-3, 3, 2)] for _ in range(int(rng.integers(2, 5)))]
        out.append(dict(var=v, spec=spec, ks=ks, gmax=gmax, pol=("te", "tm")[int(rng.integers(2))], numeig=int(rng.integers(3, 9)),
                        trunc=("abs", "tbt")[int(rng.integers(2))], seed=int(rng.integers(1 << 30)), inds=[0, 1],
                        qw=dict(V=float(rng.choice([-.01, .02, 0.])), a=float(rng.uniform(2e-7, 6e-7)), M=float(rng.uniform(1e-33, 1e-31)),
                                E0=float(rng.uniform(1., 2.)), loss=float(rng.choice([0., 1e-4])), f=float(rng.uniform(1e18, 1e20)))))
        if v.endswith(("kone", "kperm")):
            geom.spice(rng, out[-1], .3, kinds=("manyk",))
    return out


def sym_spec(rng):
    k = str(rng.choice(["square", "hexagonal"]))
    ang = float(rng.choice([0, 45, 90, 180] if k == "square" else [0, 30, 60, 90]))
    r = np.array([.13, .28])
    sp = dict(lattice={"kind": k}, eps_l=round(float(rng.uniform(1, 2)), 3), eps_u=1.,
              layers=[dict(d=round(float(rng.uniform(.2, .5)), 3), eps_b=round(float(rng.uniform(8, 12)), 3),
                           shapes=[dict(t="circle", eps=round(float(rng.uniform(1, 3)), 3), x=0., y=0., r=round(float(rng.uniform(*r)), 3))])])
    m = [float(x) for x in rng.uniform(.2, 2.5, int(rng.integers(1, 4)))]
    c, s = np.cos(np.radians(ang)), np.sin(np.radians(ang))
    return sp, [[round(x, 3) * float(c), round(x, 3) * float(s)] for x in m], [ang] * len(m)


def use(name):
    import legume
    legume.set_backend(name)


def run_case(case, mon):
    use("numpy")
    try:
        if case["var"] in OTHER:
            other(case, mon)
        else:
            gme_case(case, mon)
    finally:
        use("numpy")


def gme_case(case, mon):
    import legume
    rng = np.random.default_rng(case["seed"])
    v = case["var"]
    spec, ks, inds = case["spec"], np.array(case["ks"], float).T, list(case["inds"])
    trunc = case["trunc"]
    if v in ("trunc",):
        trunc = "tbt"
    if v == "tbt-autograd":
        trunc = "tbt"
    if v == "abs-both":
        trunc = "abs"
    step = 1e-3
    G = geom.gset(spec["lattice"], case["gmax"], trunc)
    eps = refgme.eff_eps(spec, case["eps_eff"])
    if G is None:
        mon.skip("a reciprocal vector on the cutoff")
        return mon.trivial()
    gs = [np.hypot(*(G + k[:, None])) for k in ks.T]
    d = [l["d"] for l in spec["layers"]]
    try:
        nb = min(refgme.guard(eps, d, g, inds, 1e-2 if v == "step" else step) for g in gs)
    except refgme.Skip as e:
        mon.skip(str(e))
        return mon.trivial()
    numeig = min(case["numeig"], nb)
    if "eigsh" in v:
        if nb < 6:
            mon.skip("basis too small for the iterative solver")
            return mon.trivial()
        numeig = min(numeig, nb // 2)
    opts = dict(gmode_inds=inds, numeig=numeig, eps_eff=case["eps_eff"], gmode_step=step, verbose=False)
    if v in ("eigsh-sigma", "kone", "autograd"):
        opts["eig_sigma"] = case["sigma"]
    ang = None
    if v in SYM:
        opts.update(kz_symmetry=str(rng.choice(["both", "even", "odd"])), symm_thr=1e-6)
        ang = np.array(case["angles"])
    mon.sig(case)

    def go(kk=ks, gm=None, tr=None, an="same", **over):
        g = gm or legume.GuidedModeExp(geom.build_phc(spec), gmax=case["gmax"], truncate_g=tr or trunc)
        o = dict(opts)
        o.update(over)
        a = {} if ang is None else {"angles": ang if isinstance(an, str) else an}
        g.run(kpoints=np.array(kk, float), **a, **o)
        return g

    try:
        base = go()
    except ValueError as e:
        if v in SYM:        # a refusal of the separation is C11's subject
            mon.skip("separation refused: %s" % str(e)[:60])
            return mon.trivial()
        raise
    nk = ks.shape[1]
    kw = dict(msg="%s %s" % (v, trunc))

    def same(b, ika=None, ikb=None, tol=2e-7, key=None, cut=False, vecs=True, n=None):
        for i in (range(nk) if ika is None else ika):
            j = i if ikb is None else ikb[list(ika).index(i)]
            A, B = cmp.take(base, i), cmp.take(b, j)
            if n is not None:
                A = {q: (x[..., :n]) for q, x in A.items()}
            cmp.compare(mon, key or v, A, B, gs[i], eps, tol=tol, vecs=vecs, cut_top=cut, amp=2e-6 + 5 * (tol - 2e-7), **kw)

    if v in ("eigsh", "eigsh-sigma"):
        # nearest in frequency and nearest in squared frequency differ in general
        b = go(eig_solver="eigsh")
        full = go(numeig=nb, compute_im=False, eig_sigma=0.) if v == "eigsh-sigma" else None
        for i in range(nk):
            if full is not None:
                w = np.asarray(full.freqs[i])
                o1 = np.argsort(np.abs(w - case["sigma"]))
                o2 = np.argsort(np.abs(w ** 2 - case["sigma"] ** 2))
                amb = abs(abs(w[o2[numeig - 1]] ** 2 - case["sigma"] ** 2) - abs(w[o2[numeig]] ** 2 - case["sigma"] ** 2)) < 1e-6 if nb > numeig else False
                if set(o1[:numeig]) != set(o2[:numeig]) or amb:
                    mon.event("selection_differs")
                    continue
            same(b, [i], [i], cut=False)
    elif v == "interp":
        interp(case, mon, go, base, same, eps, d, gs, inds, ks)
    elif v == "kone-interp":
        if not all(away(eps, d, g, inds, 5 * (max(map(np.max, gs)) + 9) / 1500) for g in gs):
            mon.skip("a slab mode appears within the interpolation step")
            return mon.trivial()
        a = go(gmode_compute="interp", gmode_npts=1500)
        for i in range(nk):
            b = go(ks[:, [i]], gmode_compute="interp", gmode_npts=1500)
            mon.close("freqs-kone-interp", b.freqs[0], a.freqs[i], rtol=0, atol=2e-3)
            mon.event("levels", numeig)
    elif v in ("approx", "approx-im"):
        same(go(gradients="approx"))
        if v == "approx-im":
            use("autograd")
            same(go(gradients="approx"), key="approx-autograd")
    elif v == "autograd":
        use("autograd")
        b = go()
        same(b)
        mon.check("plain-arrays", type(np.asarray(b.freqs).flat[0]) in (float, np.float64), str(type(b.freqs)))
    elif v == "tbt-autograd":
        use("autograd")
        same(go())
    elif v == "autograd-eigsh":
        use("autograd")
        same(go(eig_solver="eigsh"))
    elif v == "abs-both":
        use("autograd")
        same(go(gradients="approx", eig_solver="eigh"))
    elif v == "trunc":
        b = go(tr="abs")
        if mon.check("same-plane-waves", b.gvec.shape == base.gvec.shape, "%s %s" % (b.gvec.shape, base.gvec.shape)):
            same(b, vecs=False)
    elif v == "after":
        b = go(compute_im=False)
        if rng.random() < .5:
            b.compute_rad(0, [0])
        b.run_im()
        same(b)
        for c in ("l_te", "l_tm", "u_te", "u_tm"):
            for i in range(nk):
                for m in range(numeig):
                    x, y = np.abs(np.asarray(base.rad_coup[c][i][m])), np.abs(np.asarray(b.rad_coup[c][i][m]))
                    mon.close("coupling-after", y, x, rtol=1e-9, atol=1e-12)
        mon.event("couplings", 4 * nk * numeig)
    elif v == "rad":
        b = go(compute_im=False)
        for i in range(nk):
            mi = [int(x) for x in rng.permutation(numeig)[:int(rng.integers(1, numeig + 1))]]
            fi, rc, rg = b.compute_rad(i, mi)
            mon.close("rad-subset", fi, np.asarray(base.freqs_im[i])[mi], rtol=1e-9, atol=1e-14)
            fs, te, tm, rc2, rg2 = b.compute_rad_sp(i, mi)
            mon.close("rad-sp-subset", fs, np.asarray(base.freqs_im[i])[mi], rtol=1e-9, atol=1e-14)
            mon.event("subset_modes", len(mi))
    elif v in ("kone", "sym-kone"):
        for i in rng.permutation(nk):
            same(go(ks[:, [i]]), [i], [0])
    elif v == "dup":
        q = [0, 0] + list(range(nk)) + [nk - 1]
        b = go(ks[:, q])
        for j, i in enumerate(q):
            same(b, [i], [j])
    elif v in ("kperm", "sym-kperm"):
        p = [int(x) for x in rng.permutation(nk)]
        b = go(ks[:, p], an=None if ang is None else ang[p])
        for j, i in enumerate(p):
            same(b, [i], [j])
            if v == "sym-kperm":
                mon.check("labels", np.array_equal(np.asarray(b.kz_symms)[j], np.asarray(base.kz_symms)[i]) or
                          cmp_deg(base.freqs[i]), "%s %s" % (b.kz_symms[j], base.kz_symms[i]))
    elif v == "sym-after":
        b = go(compute_im=False)
        b.run_im()
        same(b)
    elif v in ("sparse", "sparse-autograd"):
        if v == "sparse-autograd":
            use("autograd")
        b = go(use_sparse=True)
        same(b)
        for i in range(nk):
            mon.check("labels", np.array_equal(np.asarray(b.kz_symms)[i], np.asarray(base.kz_symms)[i]) or
                      cmp_deg(base.freqs[i]), "%s %s" % (b.kz_symms[i], base.kz_symms[i]))
    elif v == "fewer":
        n = int(rng.integers(1, numeig + 1))
        same(go(numeig=n), n=n)
    elif v == "defaults":
        g = legume.GuidedModeExp(geom.build_phc(spec), gmax=case["gmax"], truncate_g=trunc)
        o1 = dict(gmode_inds=inds, numeig=numeig, verbose=False, gmode_step=step)
        g.run(kpoints=ks.copy(), **o1)
        h = legume.GuidedModeExp(geom.build_phc(spec), case["gmax"], trunc)
        h.run(ks.copy(), gmode_compute="exact", gmode_npts=1000, gmode_tol=1e-10, compute_im=True, gradients="exact",
              eig_solver="eigh", eig_sigma=0., eps_eff="average", kz_symmetry=None, symm_thr=1e-8, delta_gx=1e-15,
              delta_gabs=1e-15, use_sparse=False, only_gmodes=False, **o1)
        for i in range(nk):
            mon.close("defaults-freqs", h.freqs[i], g.freqs[i], rtol=1e-9)
            mon.close("defaults-losses", h.freqs_im[i], g.freqs_im[i], rtol=1e-6, atol=1e-12)
    elif v == "types":
        b = go(gmode_inds=np.array(inds), numeig=np.int64(numeig))
        same(b)
        same(go(gmode_inds=tuple(inds)))
    elif v == "step":
        same(go(gmode_step=8e-3, gmode_tol=1e-9))
    else:
        raise KeyError(v)


def cmp_deg(f):
    """levels close enough for the order within a pair to be arbitrary"""
    return np.min(np.diff(np.sort(np.asarray(f))), initial=1.) < 1e-7


def away(eps, d, gs, inds, h):
    """No |k+G| within h of where one of the requested slab modes appears, or (3 h) where it
    turns from oscillating to evanescent in a layer (its two amplitudes diverge there)."""
    from harness import slab
    for off, pol in ((0, "te"), (1, "tm")):
        nn = max([m // 2 + 1 for m in inds if m % 2 == off] or [0])
        if nn == 0:
            continue
        for g in gs:
            lo = max(g - h, 1e-4)
            a, b = (np.asarray(slab.modes(x, eps, d, pol, nn), float)[:nn] for x in (lo, g + h))
            if len(a) != len(b):
                return False
            ka, kb = (eps[1:-1, None] * w[None, :] ** 2 - x * x for w, x in ((a, lo), (b, g + h)))
            m, s = .5 * (ka + kb), 1.5 * (kb - ka)
            if np.any((m + s) * (m - s) <= 0):
                return False
    return True


def interp(case, mon, go, base, same, eps, d, gs, inds, ks):
    rng = np.random.default_rng(case["seed"])
    n1 = int(rng.choice([250, 400]))
    h = (max(map(np.max, gs)) + 9.) / n1
    if not all(away(np.asarray(eps), np.asarray(d), g, inds, 3 * h) for g in gs):
        mon.skip("a slab mode appears within the interpolation step")
        return mon.trivial()
    a, b = go(gmode_compute="interp", gmode_npts=n1), go(gmode_compute="interp", gmode_npts=8 * n1)
    for i in range(len(gs)):
        ref = np.asarray(base.freqs[i])
        ea = np.max(np.abs(np.asarray(a.freqs[i]) - ref))
        eb = np.max(np.abs(np.asarray(b.freqs[i]) - ref))
        mon.event("interp_levels", len(ref))
        mon.check("interp-error", ea < 2e-2, "error %.2e with %d points" % (ea, n1))
        mon.check("interp-converges", eb < max(ea / 6., 1e-5), "errors %.2e (%d points), %.2e (%d points)" % (ea, n1, eb, 8 * n1))
        A = cmp.take(base, i)
        B = cmp.take(b, i)
        cmp.compare(mon, "interp", A, B, gs[i], eps, tol=2e-7 + 2 * eb, amp=1e-4 + 50 * eb, vecs=False, msg="n=%d" % n1, thr=1e-5)


# --------------------------------------------------------------- other solvers
def call_defaults(case, mon, rng):
    """Leaving out an argument is the same as passing the default of its documented signature."""
    import legume
    import contextlib
    import io
    spec, q = case["spec"], case["qw"]
    mon.sig(case)

    def same(name, a, b):
        a, b = [list(x.values()) if isinstance(x, dict) else x for x in (a, b)]
        if isinstance(a, (tuple, list)) and not isinstance(a, np.ndarray):
            if mon.check("call-defaults", len(a) == len(b), name):
                for x, y in zip(a, b):
                    same(name, x, y)
            return
        a, b = np.asarray(a), np.asarray(b)
        if mon.check("call-defaults", a.shape == b.shape, "%s: shape %s, %s" % (name, a.shape, b.shape)):
            mon.close("call-defaults", a, b, rtol=1e-9, atol=1e-12, msg=name)
        mon.event("defaults_compared")
    phc = geom.build_phc(spec)
    lat = phc.lattice
    same("xy_grid", lat.xy_grid(), lat.xy_grid(Nx=100, Ny=100))
    same("z_grid", phc.z_grid(), phc.z_grid(Nz=100, dist=1))
    p0 = legume.PhotCryst(lat)
    p0.add_layer(.3)
    p1 = legume.PhotCryst(lat, eps_l=1., eps_u=1.)
    p1.add_layer(d=.3, eps_b=1., layer_type="shapes")
    for p in (p0, p1):
        p.add_layer(.2, 3.)
    p0.add_shape(legume.Circle(r=.2, x_cent=.1, eps=4.))
    p1.add_shape(legume.Circle(eps=4., x_cent=.1, y_cent=0., r=.2), layer=1, cladding=None)
    pts = rng.uniform(-1.5, 1.5, (2, 40))
    for z in (-1., .15, .4, 1.):
        same("crystal z=%g" % z, p0.get_eps((pts[0], pts[1], np.full(40, z))), p1.get_eps((pts[0], pts[1], np.full(40, z))))
    g = rng.uniform(-9, 9, (2, 5))
    shp = legume.Square
    for a, b in ((legume.Circle(r=.3), legume.Circle(eps=1., x_cent=0., y_cent=0., r=.3)),
                 (legume.Ellipse(rx=.3, ry=.2), legume.Ellipse(eps=1., x_cent=0., y_cent=0., rx=.3, ry=.2, phi=0.)),
                 (shp(a=.3), shp(eps=1, x_cent=0, y_cent=0, a=.3)), (legume.Hexagon(a=.3), legume.Hexagon(eps=1, x_cent=0, y_cent=0, a=.3)),
                 (legume.Poly(x_edges=[0., .3, 0.], y_edges=[0., 0., .2]), legume.Poly(eps=1., x_edges=[0., .3, 0.], y_edges=[0., 0., .2])),
                 (legume.FourierShape(f_as=np.array([.2, .01])), legume.FourierShape(eps=1, x_cent=0., y_cent=0., f_as=np.array([.2, .01]),
                                                                                    f_bs=np.array([]), npts=100))):
        same(type(a).__name__, (a.compute_ft(g), a.eps), (b.compute_ft(g), b.eps))
    la, lb = legume.ShapesLayer(lat), legume.ShapesLayer(lat, z_min=0, z_max=0, eps_b=1.)
    same("ShapesLayer", (la.z_min, la.z_max, la.eps_b), (lb.z_min, lb.z_max, lb.eps_b))
    # slab modes
    eps, d = np.array([1., float(rng.uniform(5, 12)), float(rng.uniform(1, 2.5))]), np.array([float(rng.uniform(.3, 1.))])
    gs = np.sort(rng.uniform(2, 8, 4))
    same("guided_modes", legume.guided_modes(gs, eps, d)[0], legume.guided_modes(gs, eps, d, n_modes=1, step=1e-3, tol=1e-4, pol="TE")[0])
    gr = rng.uniform(0, 2.5, 3)
    same("rad_modes", legume.rad_modes(3., gr, eps, d), legume.rad_modes(3., gr, eps, d, pol="TE", clad=0))
    # solvers: gmax=3 and the default truncation are costly, so only their plane waves are compared
    with contextlib.redirect_stdout(io.StringIO()):      # the cutoff warning
        same("GuidedModeExp", legume.GuidedModeExp(phc).gvec, legume.GuidedModeExp(phc, gmax=3., truncate_g="abs").gvec)
        pw, pw1 = legume.PlaneWaveExp(phc.layers[0]), legume.PlaneWaveExp(phc.layers[0], gmax=3., eps_eff=None)
        same("PlaneWaveExp", pw.gvec, pw1.gvec)
        ex = dict(z=spec["layers"][0]["d"] / 3, V_shapes=q["V"], a=q["a"], M=q["M"], E0=q["E0"], loss=q["loss"])
        e0, e1 = legume.ExcitonSchroedEq(phc, **ex), legume.ExcitonSchroedEq(phc, osc_str=None, gmax=3., truncate_g="abs", **ex)
        same("ExcitonSchroedEq", e0.gvec, e1.gvec)
        pq = geom.build_phc(spec)
        pq.add_qw(osc_str=[q["f"], q["f"], 0.], **ex)
        same("HopfieldPol", legume.HopfieldPol(pq, case["gmax"]).gvec, legume.HopfieldPol(pq, gmax=case["gmax"], truncate_g="abs").gvec)
        pw, pw1 = [legume.PlaneWaveExp(phc.layers[0], gmax=1.6) for _ in range(2)]
        pw.run(), pw1.run(kpoints=np.array([[0], [0]]), pol="te", numeig=10)
        same("PlaneWaveExp.run", pw.freqs, pw1.freqs)
        e0, e1 = [legume.ExcitonSchroedEq(phc, gmax=2., **ex) for _ in range(2)]
        e0.run(), e1.run(kpoints=np.array([[0], [0]]), numeig_ex=10, verbose_ex=True)
        same("ExcitonSchroedEq.run", e0.eners, e1.eners)
    k = np.array(case["ks"], float).T[:, :1]
    pw.run(kpoints=k)
    e0.run(kpoints=k, verbose_ex=False)
    full = dict(Nx=100, Ny=100)
    same("pwe eps", pw.get_eps_xy(), pw.get_eps_xy(z=0, **full))
    same("pwe field", pw.get_field_xy("h", 0, 1), pw.get_field_xy("h", 0, 1, z=0, component="xyz", **full))
    same("exc pot", e0.get_pot_xy(), e0.get_pot_xy(**full))
    same("exc wavef", e0.get_wavef_xy(0, 1), e0.get_wavef_xy(0, 1, **full))
    gme = legume.GuidedModeExp(phc, gmax=1.5)
    try:
        gme.run(kpoints=k, numeig=1, verbose=False, compute_im=False)
    except RuntimeError as e:
        if "No guided modes" not in str(e):
            raise
        return
    z = spec["layers"][0]["d"] / 3
    same("gme eps", gme.get_eps_xy(z), gme.get_eps_xy(z, xgrid=None, ygrid=None, **full))
    same("gme xy", gme.get_field_xy("h", 0, 0, z), gme.get_field_xy("h", 0, 0, z, component="xyz", **full))
    same("gme xz", gme.get_field_xz("h", 0, 0, .1), gme.get_field_xz("h", 0, 0, .1, component="xyz", Nx=100, Nz=100, dist=1.))
    same("gme yz", gme.get_field_yz("h", 0, 0, .1), gme.get_field_yz("h", 0, 0, .1, component="xyz", Ny=100, Nz=100, dist=1.))
    from legume import minimize as minim
    x0, W = rng.uniform(-1, 1, 3), rng.uniform(.5, 2, 3)
    import autograd.numpy as npa
    ob = lambda x: npa.sum(W * (x - .2) ** 4)
    legume.set_backend("autograd")
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            same("adam", minim.Minimize(ob).adam(x0.copy()),
                 minim.Minimize(ob).adam(x0.copy(), Nepochs=50, bounds=None, step_size=1e-2, beta1=.9, beta2=.999, args=(), pass_self=False))
            same("lbfgs", minim.Minimize(ob).lbfgs(x0.copy()),
                 minim.Minimize(ob).lbfgs(x0.copy(), Nepochs=50, bounds=None, maxfun=15000, args=(), pass_self=False, res=False))
    finally:
        legume.set_backend("numpy")


def whole_numbers(case, mon, rng):
    """Whole numbers may be given as int, numpy integer or float."""
    import legume
    from legume import Circle, Square, Poly, Ellipse, Hexagon, FourierShape
    mon.sig(case)
    ri = lambda a, b: int(rng.integers(a, b + 1))
    lv = [[4, 0], [0, 5]] if rng.random() < .3 else [[ri(3, 5), ri(-1, 1)], [ri(-1, 1), ri(4, 6)]]
    sh = lambda: [("c", ri(-1, 2), ri(-1, 1), 1), ("s", ri(-1, 2), ri(-1, 1), 2), ("e", ri(-1, 1), 0, 1, 2, ri(0, 2)),
                  ("h", 1, ri(-1, 1), 1), ("p", [0, 2, 1], [0, 0, 2]), ("f", 1, 0, [2])][ri(0, 5)]
    # whole-number permittivities; one shape per layer, layers one unit thick
    eb = [ri(6, 12) for _ in range(ri(1, 3))]
    lay = [(e, [(sh(), ri(1, 5))]) for e in eb]
    el, eu = ri(1, 2), ri(1, 2)
    kk = np.array([[ri(-2, 2), ri(0, 2)] for _ in range(ri(1, 3))]).T
    z, y = 0 if rng.random() < .5 else len(eb) + 1, ri(-1, 1)
    zi = ri(0, len(eb) - 1)
    k2 = kk.copy()
    k2[:, 0] += 1 if not kk[:, 0].any() else 0
    q = dict(M=case["qw"]["M"], a=case["qw"]["a"], loss=0, V_shapes=0 if rng.random() < .5 else ri(1, 3), E0=ri(1, 2))

    def run(c, ar):
        """c converts a number, ar a list of numbers"""
        phc = legume.PhotCryst(legume.Lattice(*[ar(v) for v in lv]), eps_l=c(el), eps_u=c(eu))
        for e, shs in lay:
            phc.add_layer(d=c(1), eps_b=c(e))
            for w, es in shs:
                t, a = w[0], w[1:]
                es = c(es)
                o = {"c": lambda: Circle(eps=es, x_cent=c(a[0]), y_cent=c(a[1]), r=c(a[2])),
                     "s": lambda: Square(eps=es, x_cent=c(a[0]), y_cent=c(a[1]), a=c(a[2])),
                     "e": lambda: Ellipse(eps=es, x_cent=c(a[0]), y_cent=c(a[1]), rx=c(a[2]), ry=c(a[3]), phi=c(a[4])),
                     "h": lambda: Hexagon(eps=es, x_cent=c(a[0]), y_cent=c(a[1]), a=c(a[2])),
                     "p": lambda: Poly(eps=es, x_edges=ar(a[0]), y_edges=ar(a[1])),
                     "f": lambda: FourierShape(eps=es, x_cent=c(a[0]), y_cent=c(a[1]), f_as=ar(a[2]), f_bs=ar([]))}[t]()
                if t in "pshf" and rot:
                    o.rotate(c(rot))
                phc.add_shape(o)
        out = {}
        k = np.array([ar(r) for r in kk])
        g = legume.GuidedModeExp(phc, gmax=c(1), truncate_g=case["trunc"])
        g.run(kpoints=k, gmode_inds=ar(case["inds"]) if ar is not fl else case["inds"], numeig=n, verbose=False, eig_sigma=c(0), compute_im=False)
        out["freqs"] = g.freqs
        out["eigvecs"] = [np.abs(np.asarray(x)) if cmp_ok(f) else 0 for x, f in zip(g.eigvecs, g.freqs)]
        out["eps"] = g.get_eps_xy(z=c(z), xgrid=np.array(ar([-1, 0, 2])), ygrid=np.array(ar([0, 1])))[0]
        m = 0
        if cmp_ok(g.freqs[0]):
            f = g.get_field_xy("E", 0, m, c(z), xgrid=np.array(ar([-1, 0, 2])), ygrid=np.array(ar([0, 1])))[0]
            out["E"] = [np.abs(f[x]) for x in "xyz"]
            f = g.get_field_xz("H", 0, m, c(y), xgrid=np.array(ar([-1, 0, 2])), zgrid=np.array(ar([-1, 0, 1])))[0]
            out["H"] = [np.abs(f[x]) for x in "xyz"]
        p = legume.PlaneWaveExp(phc.layers[zi], gmax=c(1))
        p.run(kpoints=k, numeig=n, pol=case["pol"])
        out["pwe"] = p.freqs
        e = legume.ExcitonSchroedEq(phc, z=zi + .5, gmax=c(1), truncate_g=case["trunc"], osc_str=np.array(ar([1, 1, 0])),
                                    V_shapes=c(q["V_shapes"]), E0=c(q["E0"]), loss=c(q["loss"]), M=q["M"], a=q["a"])
        e.run(kpoints=k, numeig_ex=n, verbose_ex=False)
        out["ese"] = e.eners
        # losses away from Gamma
        kl = np.array([ar(r) for r in k2])
        g.run(kpoints=kl, gmode_inds=case["inds"], numeig=n, verbose=False)
        out["losses"] = [np.sort(i) if cmp_ok(f) else 0 for i, f in zip(g.freqs_im, g.freqs)]
        return {a: np.array([np.asarray(x, float) for x in b]) if a not in ("eigvecs", "losses") else b for a, b in out.items()}

    rot = ri(0, 1)
    n = 4
    cmp_ok = lambda f: np.min(np.diff(np.sort(np.asarray(f))), initial=1.) > 1e-4
    fl = lambda v: [float(x) for x in v]
    try:
        with core.Quiet():
            a = run(float, fl)
    except RuntimeError as e:
        if "No guided modes" not in str(e):
            raise
        mon.skip("no guided modes")
        return mon.trivial()
    for nm, c, ar in (("int", int, list), ("numpy-int", np.int64, lambda v: [np.int64(x) for x in v]), ("numpy-float", np.float64, fl)):
        with core.Quiet():
            b = run(c, ar)
        for key in a:
            if key in ("eigvecs", "losses"):
                for x, w in zip(a[key], b[key]):
                    mon.close("whole-numbers-" + key, w, x, rtol=1e-6, atol=1e-7, msg=nm)
            else:
                mon.close("whole-numbers-" + key, b[key], a[key], rtol=1e-6, atol=1e-7, msg=nm)
        mon.event("number_types")


def other(case, mon):
    import legume
    rng = np.random.default_rng(case["seed"])
    v = case["var"]
    if v == "call-defaults":
        return call_defaults(case, mon, rng)
    if v == "whole-numbers":
        return whole_numbers(case, mon, rng)
    sol, var = v.split("-")
    ks = np.array(case["ks"], float).T
    spec = case["spec"]
    nk = ks.shape[1]
    G = geom.gset(spec["lattice"], case["gmax"], "tbt" if sol == "pwe" or var == "trunc" else case["trunc"])
    if G is None:
        mon.skip("a reciprocal vector on the cutoff")
        return mon.trivial()
    mon.sig(case)
    N = G.shape[1]
    n = min(case["numeig"], N)
    if sol == "pwe":
        def go(kk):
            p = legume.PlaneWaveExp(geom.build_phc(spec).layers[0], gmax=case["gmax"])
            p.run(kpoints=kk, pol=case["pol"], numeig=n)
            return p, p.freqs, p.eigvecs
    elif sol == "ese":
        q = case["qw"]
        z = spec["layers"][0]["d"] / 2

        def go(kk, trunc=case["trunc"]):
            e = legume.ExcitonSchroedEq(geom.build_phc(spec), z=z, V_shapes=q["V"], a=q["a"], M=q["M"], E0=q["E0"], loss=q["loss"],
                                        osc_str=np.array([q["f"], q["f"], 0]), gmax=case["gmax"], truncate_g=trunc)
            e.run(kpoints=kk, numeig_ex=n, verbose_ex=False)
            return e, e.eners, e.eigvecs
    else:
        q = case["qw"]
        z = spec["layers"][0]["d"] / 2
        sp = dict(spec, qws=[dict(z=z, V_shapes=q["V"], a=q["a"], M=q["M"], E0=q["E0"], loss=q["loss"], osc_str=[q["f"], q["f"], 0])])
        eps = refgme.eff_eps(spec, "average")
        try:
            nb = min(refgme.guard(eps, [l["d"] for l in spec["layers"]], np.hypot(*(G + k[:, None])), case["inds"], 1e-3) for k in ks.T)
        except refgme.Skip as e:
            mon.skip(str(e))
            return mon.trivial()
        ne = min(n, nb // 2)
        if nb < 6:
            mon.skip("basis too small")
            return mon.trivial()

        def go(kk, trunc=case["trunc"], solver="eigh"):
            p = legume.HopfieldPol(geom.build_phc(sp), gmax=case["gmax"], truncate_g=trunc)
            p.run(gme_options=dict(gmode_inds=case["inds"], numeig=ne, verbose=False, gmode_step=1e-3, eig_solver=solver),
                  exc_options=dict(numeig_ex=n, verbose_ex=False), kpoints=kk, verbose=False)
            return p, p.eners, None
    kw = dict(trunc="tbt") if var == "trunc" else {}
    with core.Quiet():
        base, E, V = go(ks.copy(), **kw)
    E = np.asarray(E)
    sc = np.max(np.abs(E))
    tol = 1e-7 if sol != "pol" else 1e-5

    def same(E2, i, j, V2=None):
        mon.close(v, np.asarray(E2)[j], E[i], rtol=0, atol=tol * sc)
        mon.event("levels", E.shape[1])
        if V2 is not None and var != "trunc":
            for lo, hi in cmp.clusters(np.real(E[i]), 1e-6 * sc):
                if hi == E.shape[1]:
                    continue
                s = np.linalg.svd(np.asarray(V[i])[:, lo:hi].conj().T @ np.asarray(V2[j])[:, lo:hi], compute_uv=False)
                mon.check(v + "-vecs", s.min() > 1 - 1e-6, "overlap %s" % s)
                mon.event("subspaces")

    with core.Quiet():
        if var == "kone":
            for i in range(nk):
                _, e, w = go(ks[:, [i]])
                same(e, i, 0, w)
        elif var == "kperm":
            p = [int(x) for x in rng.permutation(nk)]
            _, e, w = go(ks[:, p])
            for j, i in enumerate(p):
                same(e, i, j, w)
        elif var == "autograd":
            use("autograd")
            _, e, w = go(ks.copy())
            for i in range(nk):
                same(e, i, i, w)
        elif var == "trunc":
            b, e, w = go(ks.copy(), trunc="abs")
            if mon.check("same-plane-waves", b.gvec.shape == base.gvec.shape, "%s %s" % (b.gvec.shape, base.gvec.shape)):
                for i in range(nk):
                    same(e, i, i)
        elif var == "solver":
            _, e, w = go(ks.copy(), solver="eigsh")
            for i in range(nk):
                same(e, i, i)


if __name__ == "__main__":
    core.main(sys.modules[__name__])
