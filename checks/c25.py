import os, sys, warnings
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import core, geom, refgme, slab
import numpy as np

PROPERTY = "C25"
QUICK_REPS = 2
RULE = ("random lattice constants over twenty decades (Python and numpy numbers, the limits of the documented range); physical constants against CODATA; "
        "free-exciton dispersion, uncoupled polaritons, band plots in eV and the exciton-photon splitting of uniform slabs (analytic modes, both "
        "polarisations, random oscillator strengths, heights and losses) against SI formulas; loss onset against the light line for random claddings. "
        "Distinct: kind and parameters.")
ASSUMPTIONS = ["constants agree to 1e-7 with CODATA 2018 or 2022",
               "splitting at resonance is sqrt(hbar^2 e^2 f/(eps0 m0 a)) |E(z)|, from the sheet susceptibility e^2 f/(eps0 m0)/(w0^2-w^2), to first order",
               "light line uses the average permittivity of a patterned cladding unless eps_eff says otherwise"]
CASE_TIMEOUT = 60
H, HBAR, QE, C0, ME, EPS0 = 6.62607015e-34, 1.0545718176461565e-34, 1.602176634e-19, 299792458., 9.1093837015e-31, 8.8541878128e-12
KINDS = ("conv", "free-exciton", "uncoupled", "plot", "splitting", "onset")


def cases(rng, tier):
    out = [dict(kind="constants", seed=0)]
    n = 250 if tier == "quick" else 8000
    for i in range(n):
        out += [dict(kind=k, seed=int(rng.integers(1 << 30))) for k in KINDS]
    return out


def conv_of(a):
    return H * C0 / (QE * a)


def constants(case, mon, rng):
    import legume
    c = legume.constants
    for name, ref in dict(e=QE, m_e=ME, epsilon_0=EPS0, c=C0, h=H, hbar=H / (2 * np.pi), h_eV_Hz=H / QE).items():
        mon.close("constant-" + name, [getattr(c, name) / ref], [1.], rtol=1e-7, atol=0)
    import scipy.constants as sc
    for name, ref in dict(e=sc.e, m_e=sc.m_e, epsilon_0=sc.epsilon_0, c=sc.c, h=sc.h, hbar=sc.hbar).items():
        mon.close("constant-codata-" + name, [getattr(c, name) / ref], [1.], rtol=1e-7, atol=0)
        mon.event("constants")


def conv(case, mon, rng):
    from legume.utils import from_freq_to_e
    import warnings
    w = int(rng.integers(6))
    if w == 0:
        a = float(rng.choice([5e-8, 5e-6]) * (1 + float(rng.choice([-1, 1])) * 10 ** rng.uniform(-9, -1)))
    elif w == 1:
        a = float(10 ** rng.uniform(-12, -1))
    elif w == 2:
        a = -float(10 ** rng.uniform(-12, 0))
    elif w == 3:
        a = [0, 0., -1, np.float64(0), np.float64(-1e-7), -np.inf][int(rng.integers(6))]
    else:
        a = float(rng.uniform(5.001e-8, 4.999e-6))
        a = np.float64(a) if w == 5 else a
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        if a <= 0:
            mon.raises("conv-refused", ValueError, lambda: from_freq_to_e(a), "a=%r" % (a,))
            mon.event("refusals")
            return
        v = from_freq_to_e(a)
    mon.close("conv", [v / conv_of(a)], [1.], rtol=1e-7, atol=0, msg="a=%g" % a)
    user = [x for x in ws if issubclass(x.category, UserWarning)]
    inside = 5e-8 <= a <= 5e-6
    mon.check("conv-warning", bool(user) == (not inside), "%d warnings for a=%.12g" % (len(user), a))
    mon.event("conversions")


def well(rng, spec, **kw):
    D = sum(l["d"] for l in spec["layers"])
    a = float(rng.uniform(2.5e-7, 9e-7))
    w = dict(z=float(rng.uniform(.05, .95)) * D, V_shapes=0., a=a, M=ME * float(rng.uniform(.05, 1)),
             E0=float(conv_of(a) * rng.uniform(.1, .6)), loss=float(rng.choice([0., 10 ** rng.uniform(-5, -3)])), osc_str=[0., 0., 0.])
    w.update(kw)
    return w


def free_exciton(case, mon, rng):
    """No potential: E0 + hbar^2 |k+G|^2/(2 M a^2), one level per plane wave."""
    import legume
    spec = geom.gen_spec(rng, nlay=1, nshapes=2)
    w = well(rng, spec)
    if rng.random() < .5:
        w["a"] *= 10 ** float(rng.uniform(-1, 1))
    e = legume.ExcitonSchroedEq(geom.build_phc(spec), gmax=float(rng.uniform(1.1, 2)), **dict(w, osc_str=np.array(w["osc_str"])))
    k = rng.uniform(-3, 3, (2, 3))
    e.run(kpoints=k.copy(), numeig_ex=4, verbose_ex=False)
    E = np.array(e.eners)
    g = np.array(e.gvec)
    for i in range(3):
        kin = HBAR ** 2 * np.sum((g + k[:, [i]]) ** 2, axis=0) / w["a"] ** 2 / (2 * w["M"]) / QE
        kin = np.sort(kin)[:4]
        mon.close("free-exciton", E[i].real - w["E0"], kin[:E.shape[1]], rtol=1e-7, atol=1e-12 * (1 + w["E0"]), scale=kin.max())
        mon.event("exciton_levels", len(kin))


def uncoupled(case, mon, rng):
    """No oscillator strength: photons in eV and excitons side by side."""
    import legume
    spec = geom.gen_spec(rng, nlay=int(rng.integers(1, 3)), nshapes=1)
    w = well(rng, spec)
    spec["qws"] = [w]
    k = rng.uniform(-2.5, 2.5, (2, 1))
    o = dict(gmode_inds=[0, 1], numeig=int(rng.integers(1, 5)), verbose=False)
    try:
        g = legume.GuidedModeExp(geom.build_phc(spec), gmax=1.2)
        g.run(kpoints=k.copy(), **o)
        h = legume.HopfieldPol(geom.build_phc(spec), gmax=1.2)
        h.run(gme_options=o, exc_options=dict(numeig_ex=2, verbose_ex=False), kpoints=k.copy(), verbose=False)
    except (ValueError, RuntimeError):
        mon.skip("no guided modes")
        return
    f = np.array(g.freqs)[0] * conv_of(w["a"])
    ex = np.sort(np.sum((np.array(g.gvec) + k) ** 2, axis=0))[:2] * HBAR ** 2 / w["a"] ** 2 / (2 * w["M"]) / QE + w["E0"]
    want = np.sort(np.concatenate([f, ex]))
    E = np.array(h.eners)[0]
    mon.close("uncoupled", E, want[:len(E)], rtol=1e-7, atol=1e-9)
    fr = np.array(h.fractions_ex)[0]
    for j, v in enumerate(E):
        df, dx = np.min(np.abs(f - v)), np.min(np.abs(ex - v))
        if max(df, dx) > 1e-4:
            mon.close("uncoupled-fraction", [fr[j]], [1. if dx < df else 0.], rtol=0, atol=1e-6)
    mon.event("uncoupled_levels", len(E))


def plot(case, mon, rng):
    """viz.bands in eV, light line included, for any lattice constant."""
    import legume
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    plt.close("all")
    spec = geom.gen_spec(rng, nlay=1, nshapes=1, clad_shapes=rng.random() < .3)
    spec["eps_l"], spec["eps_u"] = [float(x) for x in rng.permutation([1., round(float(rng.uniform(1, 3)), 3)])]
    g = legume.GuidedModeExp(geom.build_phc(spec), gmax=1.2)
    k = rng.uniform(-2.5, 2.5, (2, 2))
    try:
        g.run(kpoints=k.copy(), gmode_inds=[0], numeig=2, verbose=False, compute_im=False)
    except (ValueError, RuntimeError):
        mon.skip("no guided modes")
        return
    a = float(10 ** rng.uniform(-7.2, -5.4))
    ax = legume.viz.bands(g, cone=True, eV=True, a=a)
    f = np.sort(np.array(g.freqs).ravel()) * conv_of(a)
    from matplotlib.collections import PathCollection, PolyCollection
    y = [np.ma.getdata(c.get_offsets())[:, 1] for c in ax.collections if isinstance(c, PathCollection)] + [np.asarray(l.get_ydata()).ravel() for l in ax.lines]
    got = np.sort(np.concatenate(y))
    if mon.check("plot-markers", len(got) == len(f), "%d markers" % len(got)):
        mon.close("plot-eV", got, f, rtol=1e-7, atol=1e-12)
    e = refgme.eff_eps(spec, "average")
    ll = conv_of(a) * np.hypot(*k) / (2 * np.pi * np.sqrt(max(e[0], e[-1])))
    v = [np.vstack([p.vertices for p in c.get_paths()]) for c in ax.collections if isinstance(c, PolyCollection)]
    if mon.check("plot-cone", len(v) == 1, "%d light cones" % len(v)):
        for i in range(2):
            yy = v[0][np.abs(v[0][:, 0] - i) < 1e-9, 1]
            mon.close("plot-light-line", [yy.min()], [ll[i]], rtol=1e-7, atol=1e-12)
            mon.event("light_line_points")
    plt.close("all")


def slab_mode(pol, order, g, e, d):
    """frequency and |E| components (transverse or longitudinal, z) of a uniform slab's guided mode, normalised to unit energy."""
    el, es, eu = e
    f = lambda w: phase(w, pol, g, e, d) - order * np.pi
    lo, hi = g / np.sqrt(es) * (1 + 1e-12), g / np.sqrt(max(el, eu)) * (1 - 1e-12)
    if f(hi) < 0:
        return None
    from scipy.optimize import brentq
    w = brentq(f, lo, hi, xtol=1e-15, rtol=1e-14)
    q, cl, cu = np.sqrt(es * w * w - g * g), np.sqrt(g * g - el * w * w), np.sqrt(g * g - eu * w * w)
    t = 1 if pol == "te" else es / el
    ph = np.arctan(t * cl / q)
    n, wt = np.polynomial.legendre.leggauss(80)
    z, wz = .5 * d * (n + 1), .5 * d * wt
    F, dF = (lambda z: np.cos(q * z - ph)), (lambda z: -q * np.sin(q * z - ph))
    if pol == "te":
        U = es * np.sum(wz * F(z) ** 2) + el * F(0) ** 2 / (2 * cl) + eu * F(d) ** 2 / (2 * cu)
        return w, lambda z: (F(z) / np.sqrt(U), 0.)
    U = np.sum(wz * (dF(z) ** 2 + g * g * F(z) ** 2)) / (w * w * es) + F(0) ** 2 * (cl ** 2 + g * g) / (w * w * el) / (2 * cl) \
        + F(d) ** 2 * (cu ** 2 + g * g) / (w * w * eu) / (2 * cu)
    return w, lambda z: (dF(z) / (w * es) / np.sqrt(U), g * F(z) / (w * es) / np.sqrt(U))


def phase(w, pol, g, e, d):
    el, es, eu = e
    q = np.sqrt(es * w * w - g * g)
    r = (1, 1) if pol == "te" else (es / el, es / eu)
    return q * d - np.arctan(r[0] * np.sqrt(g * g - el * w * w) / q) - np.arctan(r[1] * np.sqrt(g * g - eu * w * w) / q)


def splitting(case, mon, rng):
    """Uniform slab, exciton tuned to a guided mode."""
    import legume
    while True:
        e = (float(rng.uniform(1, 3)), float(rng.uniform(8, 13)), float(rng.uniform(1, 3)))
        d = float(rng.uniform(.4, .9))
        pol = str(rng.choice(["te", "tm"]))
        g = float(rng.uniform(1.5, 3.))
        m0, m1 = slab_mode(pol, 0, g, e, d), slab_mode(pol, 1, g, e, d)
        if m0 and m1 and m1[0] - m0[0] > .15 * m0[0]:
            break
    th = float(rng.uniform(0, 2 * np.pi))
    k = g * np.array([[np.cos(th)], [np.sin(th)]])
    a = float(rng.uniform(2.5e-7, 9e-7))
    w, E = m0
    M = ME * float(rng.uniform(.05, 1))
    Eph = conv_of(a) * w / (2 * np.pi)
    kin = HBAR ** 2 * g * g / a ** 2 / (2 * M) / QE
    z = float(rng.uniform(.1, .9)) * d
    osc = np.zeros(3)
    for j in np.flatnonzero(rng.random(3) < .6):
        osc[j] = rng.uniform(.2, 5)
    et, ez = E(z)
    u = np.array([-np.sin(th), np.cos(th), 0]) if pol == "te" else np.array([np.cos(th), np.sin(th), 0])
    # transverse/longitudinal and vertical parts of a TM mode are a quarter period apart
    amp = np.abs(np.sum(np.sqrt(osc) * (et * u + 1j * ez * np.array([0, 0, 1]))))
    pref = np.sqrt(HBAR ** 2 * QE ** 2 / (EPS0 * ME) / a) / QE
    # scale the strength so that the splitting is a small, known part of the energy
    frac = 10 ** float(rng.uniform(-4, -3))
    if amp < 1e-3:
        osc *= 1e17
    else:
        osc *= (frac * Eph / (pref * amp)) ** 2
    split = pref * np.abs(np.sum(np.sqrt(osc) * (et * u + 1j * ez * np.array([0, 0, 1]))))
    loss = float(rng.choice([0., .02])) * split
    spec = dict(lattice={"kind": "square"}, eps_l=e[0], eps_u=e[2], layers=[dict(d=d, eps_b=e[1], shapes=[])],
                qws=[dict(z=z, V_shapes=0., a=a, M=M, E0=Eph - kin, loss=loss, osc_str=osc)])
    h = legume.HopfieldPol(geom.build_phc(spec), gmax=.3)
    inds = [0, 2] if pol == "te" else [1, 3]
    h.run(gme_options=dict(gmode_inds=inds, numeig=2, verbose=False), exc_options=dict(numeig_ex=1, verbose_ex=False), kpoints=k, verbose=False)
    E2 = np.array(h.eners)[0]
    if not mon.check("splitting-levels", len(E2) == 2, "%d levels" % len(E2)):
        return
    # the next mode of the same polarisation is coupled as well
    e1t, e1z = m1[1](z)
    V = [.5 * pref * np.sum(np.sqrt(osc) * (t_ * u + 1j * z_ * np.array([0, 0, 1]))) for t_, z_ in ((et, ez), (e1t, e1z))]
    Hm = np.array([[Eph, 0, V[0]], [0, conv_of(a) * m1[0] / (2 * np.pi), V[1]], [np.conj(V[0]), np.conj(V[1]), Eph + 1j * loss]])
    lam, vec = np.linalg.eig(Hm)
    o = np.argsort(lam.real)[:2]
    lam, fx = lam[o], np.abs(vec[2, o]) ** 2 / np.sum(np.abs(vec[:, o]) ** 2, axis=0)
    tol = 3e-9 * Eph + 5 * sum(abs(v) for v in V) ** 2 / Eph
    mon.close("splitting-levels", E2, lam.real, rtol=0, atol=tol, msg="%s, osc %s, z/d=%g" % (pol, osc, z / d))
    mon.close("splitting", [E2[1] - E2[0]], [lam[1].real - lam[0].real], rtol=1e-3, atol=tol, msg="%s, osc %s, z/d=%g" % (pol, osc, z / d))
    mon.close("splitting-loss", np.array(h.eners_im)[0], lam.imag, rtol=.01, atol=1e-9 * Eph + tol * loss / max(split, 1e-30) if split else 1e-9 * Eph)
    if split > 1e-5 * Eph:
        mon.close("splitting-fractions", np.array(h.fractions_ex)[0], fx, rtol=0, atol=.01 + tol / split)
    mon.event("max_splitting_over_tolerance_ge_30", int(split > 30 * tol))
    mon.event("splittings")
    mon.event("splittings_" + pol)


def onset(case, mon, rng):
    """Modes below the light line of the denser cladding are lossless, those above radiate (no lossless guided mode above it)."""
    import legume
    spec = geom.gen_spec(rng, nlay=1, nshapes=1, clad_shapes=rng.random() < .25, lat=geom.gen_lattice(rng, kinds=("square", "hexagonal", "rect", "oblique")))
    spec["eps_l"], spec["eps_u"] = [float(x) for x in rng.permutation([1., round(float(rng.uniform(1, 3)), 3)])]
    # displaced noncircular inclusion: no mode is protected by symmetry
    eb = spec["layers"][0]["eps_b"]
    spec["layers"][0]["shapes"] = [dict(t="poly", eps=1.3 if eb > 3 else 9., xs=[-.3, .2, .1], ys=[-.25, -.2, .22])]
    k = rng.uniform(-2.5, 2.5, (2, 3))
    g = legume.GuidedModeExp(geom.build_phc(spec), gmax=1.6)
    try:
        g.run(kpoints=k.copy(), gmode_inds=[0, 1], numeig=8, verbose=False)
    except (ValueError, RuntimeError):
        mon.skip("no guided modes")
        return
    e = refgme.eff_eps(spec, "average")
    for i in range(3):
        # reduced to the first Brillouin zone
        kk = np.min(np.hypot(*(np.array(g.gvec) + k[:, [i]])))
        ll = kk / (2 * np.pi * np.sqrt(max(e[0], e[-1])))
        for f, fi in zip(np.array(g.freqs)[i], np.array(g.freqs_im)[i]):
            if f < ll * (1 - 1e-6):
                mon.check("onset-below", fi == 0 or abs(fi) < 1e-14, "mode at %.8g below the light line %.8g loses %g" % (f, ll, fi))
                mon.event("modes_below")
            elif f > ll * (1 + 1e-6):
                mon.check("onset-above", abs(fi) > 1e-14, "lossless mode at %.8g above the light line %.8g" % (f, ll))
                mon.event("modes_above")


def run_case(case, mon):
    rng = np.random.default_rng(case["seed"])
    dict(constants=constants, conv=conv, uncoupled=uncoupled, plot=plot, splitting=splitting, onset=onset,
         **{"free-exciton": free_exciton})[case["kind"]](case, mon, rng)


if __name__ == "__main__":
    core.main(sys.modules[__name__])
