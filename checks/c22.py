import os, sys, copy
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import core, geom, refgme
import numpy as np

PROPERTY = "C22"
QUICK_REPS = 2
RULE = ("random structures and every plotting function of legume.viz with random option combinations (solver kinds, quality factors, parity, "
        "fractions, eV, k units, clipping, supplied axes/gridspecs, planes, components, parts, Bloch phase); the artists of the resulting figures "
        "are read back and compared with the solver's data and with an independent description of the structure. Distinct: function, options, structure.")
ASSUMPTIONS = ["the figure's artists (images, lines, collections) are what the user sees; the Agg canvas is drawn in a part of the cases",
               "field, wavefunction and reconstructed-permittivity images are compared with the solver's own getters, which C05/C10/C15/C16 decide",
               "light line with the average permittivity of the claddings"]
CASE_TIMEOUT = 90

KINDS = ("bands", "bands-sym", "bands-pwe", "pol", "eps", "eps-planes", "shapes", "structure", "eps-ft", "pot-ft", "field", "field-pwe", "wavef",
         "reciprocal")


def cases(rng, tier):
    n = 45 if tier == "quick" else 400
    return [dict(kind=k, seed=int(rng.integers(1 << 30))) for i in range(n) for k in KINDS]


def rk(rng, n):
    return rng.uniform(-2.5, 2.5, (2, n))


def points(ax):
    """Every marker drawn in the axes."""
    from matplotlib.collections import PathCollection
    out = [np.array(l.get_xydata(), float) for l in ax.lines]
    out += [np.ma.getdata(c.get_offsets()).astype(float) for c in ax.collections if isinstance(c, PathCollection)]
    return np.vstack(out) if out else np.zeros((0, 2))


def same_points(mon, key, got, want, tol=1e-9):
    if not mon.check(key + "-count", len(got) == len(want), "%d markers for %d (k, frequency) pairs" % (len(got), len(want))):
        return
    sc = 1 + np.abs(want).max()
    a = got[np.lexsort((np.round(got[:, 1] / sc, 10), np.round(got[:, 0], 8)))]
    b = want[np.lexsort((np.round(want[:, 1] / sc, 10), np.round(want[:, 0], 8)))]
    mon.close(key, a, b, rtol=0, atol=tol * sc * 10)
    mon.event("markers", len(want))


def x_axis(k, units):
    if not units:
        return np.arange(k.shape[1]).astype(float)
    d = np.hypot(*np.diff(k, axis=1))
    return np.concatenate([[0.], np.cumsum(d)]) / max(np.sum(d), 1e-300)


def check_cone(mon, ax, X0, LL, ytop, want):
    from matplotlib.collections import PolyCollection, PathCollection
    cones = [c for c in ax.collections if isinstance(c, PolyCollection) and not isinstance(c, PathCollection)]
    if not mon.check("cone-present", len(cones) == int(want), "%d shaded regions, cone=%s" % (len(cones), want)) or not want:
        return
    v = np.vstack([p.vertices for p in cones[0].get_paths()])
    for x, l in zip(X0, LL):
        y = v[np.abs(v[:, 0] - x) < 1e-9, 1]
        if not mon.check("cone-x", len(y) > 0, "no light-cone boundary at x=%g" % x):
            return
        if np.sum(np.abs(X0 - x) < 1e-9) == 1:
            mon.close("cone-line", [y.min()], [l], rtol=1e-9, atol=1e-10, msg="light line at x=%g" % x)
            mon.check("cone-top", y.max() >= ytop * (1 - 1e-9), "cone ends at %g below the data %g" % (y.max(), ytop))
            mon.event("light_line_points")


def light_line(spec, k, conv=1.):
    e = refgme.eff_eps(spec, "average")
    return conv * np.hypot(*k) / (2 * np.pi * np.sqrt(max(e[0], e[-1])))


def limits(mon, ax, X0, ytop):
    x, y = ax.get_xlim(), ax.get_ylim()
    if len(X0) > 1:
        mon.close("xlim", x, [0, X0.max()], rtol=0, atol=1e-9)
    mon.check("ylim", y[0] <= 1e-12 and y[1] >= ytop * (1 - 1e-9), "y limits %s, data up to %g" % (y, ytop))


def q_values(mon, arr, f, fi, tol=1e-6):
    got = np.ma.getdata(arr).ravel()
    if not mon.check("Q-size", got.size == f.size, "%d colours for %d modes" % (got.size, f.size)):
        return
    f, fi = f.ravel(), fi.ravel()
    m = np.abs(fi) > 1e-9
    mon.close("Q-values", 1 / got[m], 2 * fi[m] / f[m], rtol=1e-6, atol=1e-12) if m.any() else None
    lo = np.abs(fi) < 1e-15
    mon.check("Q-lossless", np.all(got[lo & (f > 1e-3)] > 1e11), "finite quality factor of a lossless mode")
    mon.event("quality_factors", int(m.sum()))


def draw(rng, fig):
    if rng.random() < .25:
        fig.canvas.draw()


# ------------------------------------------------------------------- structures
def one_layer(rng, nlay=1):
    spec = geom.gen_spec(rng, nlay=nlay, nshapes=2)
    return spec


def solve_gme(rng, mon, nk=None, sym=None, **kw):
    import legume
    while True:
        lat = {"kind": str(rng.choice(["square", "hexagonal"]))} if sym else geom.gen_lattice(rng)
        spec = geom.gen_spec(rng, nlay=int(rng.integers(1, 3)), nshapes=1 if sym else 2, lat=lat, clad_shapes=rng.random() < .3 and not sym)
        if sym:
            for l in spec["layers"]:
                l["shapes"] = [dict(t="circle", eps=s["eps"], x=0., y=0., r=.2) for s in l["shapes"]]
        inds = [[0], [0, 1], [1]][int(rng.integers(3))]
        k = rk(rng, nk or int(rng.integers(1, 5)))
        extra = {}
        if sym:
            k = np.array([np.sort(rng.uniform(.3, 2.4, k.shape[1])), np.zeros(k.shape[1])])
            if rng.random() < .4:
                k[0, 0] = .5      # fixed point shared by runs
            extra = dict(kz_symmetry=sym, angles=np.zeros(k.shape[1]))
            if len(inds) == 1 and sym == "both" and rng.random() < .6:
                inds = [0, 1]
        g = legume.GuidedModeExp(geom.build_phc(spec), gmax=1.2)
        n = int(rng.integers(1, 6))
        try:
            g.run(kpoints=k.copy(), gmode_inds=list(inds), numeig=n, verbose=False, **extra, **kw)
        except (ValueError, RuntimeError):
            continue
        return spec, g, k, n


# ------------------------------------------------------------------------ cases
def bands(case, mon, rng):
    import legume
    import matplotlib.pyplot as plt
    sym = None
    if case["kind"] == "bands-sym":
        sym = str(rng.choice(["odd", "even", "both", "both", "both"]))
    lazy = rng.random() < .4
    spec, g, k, n = solve_gme(rng, mon, sym=sym, compute_im=not lazy)
    o = dict(Q=bool(rng.random() < .5), cone=bool(rng.random() < .7), k_units=bool(rng.random() < .5))
    conv = 1.
    if rng.random() < .4:
        o.update(eV=True, a=float(rng.uniform(1e-7, 9e-7)))
        conv = 6.62607015e-34 * 299792458. / (1.602176634e-19 * o["a"])
    if rng.random() < .4:
        o["Q_clip"] = float(rng.choice([1e2, 1e4, 1e8]))
    if rng.random() < .4:
        o["show_symmetry"] = False
    if rng.random() < .3:
        o.update(markersize=4, markeredgecolor="k", markeredgewidth=1., conecolor="#ff0000", Q_cmap="plasma", figsize=(3, 3))
    figs = None
    if rng.random() < .5:
        fig, ax = plt.subplots()
        o["ax"] = ax
        figs = plt.get_fignums()
    f0 = np.array(g.freqs)
    r = legume.viz.bands(g, **o)
    ax = r
    if figs is not None:
        mon.check("ax-returned", r is o["ax"], "another axes returned")
        mon.check("no-new-figure", plt.get_fignums() == figs, "a figure was opened although axes were given")
    mon.close("freqs-kept", g.freqs, f0, rtol=0, atol=0)
    X0 = x_axis(k, o["k_units"])
    f = np.array(g.freqs)
    X = np.repeat(X0[:, None], f.shape[1], axis=1)
    same_points(mon, "bands", points(ax), np.array([X.ravel(), conv * f.ravel()]).T)
    check_cone(mon, ax, X0, light_line(spec, k, conv), conv * f.max(), o["cone"])
    limits(mon, ax, X0, conv * f.max())
    mon.check("ylabel", ("eV" in ax.get_ylabel()) == bool(o.get("eV")), "label %r" % ax.get_ylabel())
    from matplotlib.collections import PathCollection
    sc = [c for c in ax.collections if isinstance(c, PathCollection)]
    ordered = len(sc) == 1 and len(sc[0].get_offsets()) == f.size
    ms = [np.sqrt(np.max(c.get_sizes())) for c in sc] + [l.get_markersize() for l in ax.lines]
    mon.close("markersize", ms, [o.get("markersize", 6)] * len(ms), rtol=1e-9, atol=0)
    if o["Q"]:
        if mon.check("Q-drawn", ordered and sc[0].get_array() is not None, "no quality factors in the plot"):
            off = np.ma.getdata(sc[0].get_offsets())
            # match the markers to the modes
            idx = match(off, X, conv * f)
            if mon.check("Q-match", idx is not None, "markers do not match the modes"):
                fi = np.array(g.freqs_im).ravel()[idx]
                q_values(mon, sc[0].get_array(), f.ravel()[idx], fi)
            mon.check("Q-log", "Log" in type(sc[0].norm).__name__, "linear colour scale")
            q = .5 * f.ravel() / np.maximum(np.abs(np.array(g.freqs_im).ravel()), 1e-16)
            low = q[q < o.get("Q_clip", 1e10)]
            if len(low) and q.min() < low.max() * (1 - 1e-6):        # matplotlib widens a range of no extent
                mon.check("Q-clip", sc[0].norm.vmax <= o.get("Q_clip", 1e10) * (1 + 1e-12), "colour scale up to %g" % sc[0].norm.vmax)
            mon.check("Q-colorbar", len(ax.figure.axes) > 1, "no colour bar")
    if sym == "both" and o.get("show_symmetry", True):
        ax.figure.canvas.draw()
        if mon.check("symmetry-drawn", ordered, "no symmetry colours"):
            off = np.ma.getdata(sc[0].get_offsets())
            idx = match(off, X, conv * f)
            col = sc[0].get_edgecolors() if o["Q"] else sc[0].get_facecolors()
            if mon.check("symmetry-colours", idx is not None and len(col) in (1, f.size), "%d colours" % len(col)):
                kz = np.array(g.kz_symms, float).ravel()[idx]
                col = np.broadcast_to(col, (f.size, 4))
                ok = np.where(kz > 0, (col[:, 0] > .8) & (col[:, 2] < .2), (col[:, 2] > .8) & (col[:, 0] < .2))
                mon.check("symmetry-colours", np.all(ok), "odd modes must be blue, even ones red: %s for %s" % (col[~ok][:2], kz[~ok][:2]))
                mon.event("symmetry_colours", f.size)
    elif not o["Q"]:
        mon.check("single-colour", all(len(np.unique(np.atleast_2d(c.get_facecolors()), axis=0)) <= 1 for c in sc), "")
    draw(rng, ax.figure)


def match(off, X, Y):
    """index of the mode drawn at each marker (a permutation)."""
    X, Y = X.ravel(), Y.ravel()
    if len(off) != len(X):
        return None
    if np.allclose(off[:, 0], X, atol=1e-9) and np.allclose(off[:, 1], Y, rtol=1e-9, atol=1e-12):
        return np.arange(len(X))
    idx, used = [], set()
    for p in off:
        d = np.abs(p[0] - X) + np.abs(p[1] - Y)
        d[list(used)] = np.inf
        i = int(np.argmin(d))
        if d[i] > 1e-8 * (1 + abs(p[1])):
            return None
        used.add(i)
        idx.append(i)
    return np.array(idx)


def bands_pwe(case, mon, rng):
    import legume
    spec = one_layer(rng)
    p = legume.PlaneWaveExp(geom.build_phc(spec).layers[0], gmax=2.1)
    k = rk(rng, int(rng.integers(1, 5)))
    p.run(kpoints=k.copy(), pol=str(rng.choice(["te", "tm"])), numeig=int(rng.integers(1, 6)))
    o = dict(k_units=bool(rng.random() < .5))
    if rng.random() < .5:
        o["cone"] = bool(rng.random() < .5)
    conv = 1.
    if rng.random() < .4:
        o.update(eV=True, a=float(rng.uniform(1e-7, 9e-7)))
        conv = 6.62607015e-34 * 299792458. / (1.602176634e-19 * o["a"])
    ax = legume.viz.bands(p, **o)
    X0 = x_axis(k, o["k_units"])
    f = np.array(p.freqs)
    X = np.repeat(X0[:, None], f.shape[1], axis=1)
    same_points(mon, "bands-pwe", points(ax), np.array([X.ravel(), conv * f.ravel()]).T)
    limits(mon, ax, X0, conv * f.max())
    draw(rng, ax.figure)


def make_pol(rng, nq=1):
    import legume
    while True:
        spec = geom.gen_spec(rng, nlay=1, nshapes=1)
        d = spec["layers"][0]["d"]
        a = float(rng.uniform(2e-7, 6e-7))
        spec["qws"] = [dict(z=round(float(rng.uniform(.1, .9) * d), 4), V_shapes=float(rng.choice([-.02, .02])), a=a, M=1e-31,
                            E0=float(rng.uniform(.8, 2.)), loss=1e-4, osc_str=[1e19, 1e19, 0.]) for _ in range(nq)]
        h = legume.HopfieldPol(geom.build_phc(spec), gmax=1.2)
        k = rk(rng, int(rng.integers(1, 4)))
        try:
            h.run(gme_options=dict(gmode_inds=[0], numeig=int(rng.integers(1, 4)), verbose=False),
                  exc_options=dict(numeig_ex=int(rng.integers(1, 4)), verbose_ex=False), kpoints=k.copy(), verbose=False)
        except (ValueError, RuntimeError):
            continue
        return spec, h, k, a


def pol(case, mon, rng):
    import legume
    from matplotlib.collections import PathCollection
    spec, h, k, a = make_pol(rng, int(rng.integers(1, 3)))
    o = dict(k_units=bool(rng.random() < .5), cone=bool(rng.random() < .7), Q=bool(rng.random() < .6), fraction=bool(rng.random() < .5))
    if rng.random() < .4:
        o.update(Q_min=float(rng.choice([1., 50.])), Q_max=float(rng.choice([3e3, 1e9])))
    ax = legume.viz.pol_bands(h, **o)
    E = np.array(h.eners)
    X0 = x_axis(k, o["k_units"])
    X = np.repeat(X0[:, None], E.shape[1], axis=1)
    same_points(mon, "pol-bands", points(ax), np.array([X.ravel(), E.ravel()]).T)
    limits(mon, ax, X0, E.max())
    conv = 6.62607015e-34 * 299792458. / (1.602176634e-19 * a)
    check_cone(mon, ax, X0, light_line(spec, k, conv), E.max(), o["cone"])
    sc = [c for c in ax.collections if isinstance(c, PathCollection)]
    if o["fraction"] or o["Q"]:
        if mon.check("pol-coloured", len(sc) == 1 and sc[0].get_array() is not None, "no colours"):
            idx = match(np.ma.getdata(sc[0].get_offsets()), X, E)
            if mon.check("pol-match", idx is not None, "markers do not match the modes"):
                arr = np.ma.getdata(sc[0].get_array()).ravel()
                if o["fraction"]:
                    mon.close("pol-fractions", arr, np.array(h.fractions_ex).ravel()[idx], rtol=0, atol=1e-9)
                    mon.close("pol-fraction-scale", [sc[0].norm.vmin, sc[0].norm.vmax], [0, 1], rtol=0, atol=1e-12)
                else:
                    q_values(mon, arr, E.ravel()[idx], np.array(h.eners_im).ravel()[idx])
                    mon.close("pol-Q-scale", [sc[0].norm.vmin, sc[0].norm.vmax], [o.get("Q_min", 1e2), o.get("Q_max", 1e4)], rtol=1e-12, atol=0)
                mon.event("polariton_colours", E.size)
    draw(rng, ax.figure)


# ------------------------------------------------------------------ permittivity
def image_ref(spec, plane, im, coord):
    """Reference permittivity under every pixel and whether it is unambiguous."""
    A = np.ma.getdata(im.get_array())
    ny, nx = A.shape
    e = im.get_extent()
    u, v = np.linspace(e[0], e[1], nx), np.linspace(e[2], e[3], ny)
    U, V = np.meshgrid(u, v)
    C = np.full(U.shape, float(coord))
    x, y, z = dict(xy=(U, V, C), xz=(U, C, V), yz=(C, U, V))[plane]
    ref = np.full(U.shape, np.nan)
    ok = np.zeros(U.shape, bool)
    for (z0, z1, eb, shs) in geom.all_layers(spec):
        sel = (z >= z0) & (z < z1)
        if sel.any():
            ee, m = geom.layer_eps(spec["lattice"], eb, shs, x[sel], y[sel])
            ref[sel] = ee
            ok[sel] = (m > 1e-5) & (np.abs(z[sel] - z0) > 1e-6) & (np.abs(z[sel] - z1) > 1e-6)
    return A, ref, ok


def check_image(mon, key, spec, plane, im, coord):
    A, ref, ok = image_ref(spec, plane, im, coord)
    mon.check(key + "-origin", im.origin == "lower", "image drawn upside down")
    if ok.any():
        mon.close(key, A[ok], ref[ok], rtol=0, atol=1e-9, msg="%s at %g" % (plane, coord))
    mon.event("pixels", int(ok.sum()))


def cell_extent(spec):
    return None


def images(fig):
    return [ax.images[0] for ax in fig.axes if ax.images]


def eps_layer(case, mon, rng):
    import legume
    import matplotlib.pyplot as plt
    spec = geom.gen_spec(rng, nshapes=2, clad_shapes=rng.random() < .4)
    phc = geom.build_phc(spec)
    i = int(rng.integers(len(spec["layers"])))
    o = dict(Nx=int(rng.integers(5, 30)), Ny=int(rng.integers(5, 30)), cbar=bool(rng.random() < .5))
    if rng.random() < .4:
        o["clim"] = [[1., 9.], [4., 5.], [0., 30.]][int(rng.integers(3))]
    if rng.random() < .5:
        o["ax"] = plt.subplots()[1]
    legume.viz.eps(phc.layers[i], **o)
    fig = plt.gcf()
    ims = images(fig)
    if mon.check("eps-image", len(ims) == 1, "%d images" % len(ims)):
        im = ims[0]
        sp = dict(lattice=spec["lattice"], eps_l=1., eps_u=1., layers=[spec["layers"][i]])
        mon.check("eps-shape", np.shape(im.get_array()) == (o["Ny"], o["Nx"]), "%s" % (np.shape(im.get_array()),))
        check_image(mon, "eps", sp, "xy", im, sp["layers"][0]["d"] / 2)
        if "clim" in o:
            mon.check("clim", tuple(im.get_clim()) == tuple(o["clim"]), "%s for %s" % (im.get_clim(), o["clim"]))
        if "ax" in o:
            mon.check("eps-ax", im.axes is o["ax"], "drawn elsewhere")
    draw(rng, fig)


def eps_planes(case, mon, rng):
    import legume
    import matplotlib.pyplot as plt
    spec = geom.gen_spec(rng, nshapes=2, clad_shapes=rng.random() < .4)
    phc = geom.build_phc(spec)
    D = sum(l["d"] for l in spec["layers"])
    for plane in ("xy", "xz", "yz"):
        plt.close("all")
        names = dict(x="Nx", y="Ny", z="Nz")
        o = {names[c]: int(rng.integers(5, 28)) for c in plane}
        third = [c for c in "xyz" if c not in plane][0]
        c0 = float(rng.uniform(-.6, .6)) if third != "z" else float(rng.uniform(-.5, D + .5))
        o[third] = c0
        if rng.random() < .3:
            o.pop(third)
            c0 = 0.
            if third == "z":
                c0 = 1e-7      # z = 0 is an interface: layer above or below
                o["z"] = c0
        o["plot"] = bool(rng.random() < .8)
        o["cbar"] = bool(rng.random() < .5)
        if rng.random() < .4:
            o["clim"] = [[1., 9.], [4., 5.], [0., 30.]][int(rng.integers(3))]
        if rng.random() < .4:
            o["ax"] = plt.subplots()[1]
            if not o["plot"]:
                plt.close("all")
        r = getattr(legume.viz, "eps_" + plane)(phc, **o)
        if not o["plot"]:
            mon.check("no-plot", not plt.get_fignums(), "plot=False opened a figure")
            mon.check("no-plot-values", np.shape(r) == (o[names[plane[1]]], o[names[plane[0]]]), "%s" % (np.shape(r),))
            continue
        ims = images(plt.gcf())
        if mon.check("plane-image", len(ims) == 1, "%d images" % len(ims)):
            im = ims[0]
            mon.check("plane-return", np.array_equal(np.ma.getdata(im.get_array()), r), "returned array is not the one drawn")
            check_image(mon, "eps-" + plane, spec, plane, im, c0)
            if "clim" in o:
                mon.check("clim", tuple(im.get_clim()) == tuple(o["clim"]), "%s for %s" % (im.get_clim(), o["clim"]))
            if "ax" in o:
                mon.check("eps-ax", im.axes is o["ax"], "drawn elsewhere")
            e = im.get_extent()
            if "z" in plane:
                mon.check("z-range", e[2] < 0 and e[3] > D, "z range %s of a structure from 0 to %g" % (e[2:], D))
    draw(rng, plt.figure())


def shapes(case, mon, rng):
    import legume
    import matplotlib.pyplot as plt
    spec = one_layer(rng)
    kk = [None, ("circle",), ("ellipse",)][int(rng.integers(3))]
    shs = [geom.gen_shape(rng, 2., size=.2, kinds=kk) for _ in range(int(rng.integers(1, 4)))]
    spec["layers"][0]["shapes"] = shs
    phc = geom.build_phc(spec)
    o = dict(pad=bool(rng.random() < .6))
    if rng.random() < .5:
        o["ax"] = plt.subplots()[1]
    if rng.random() < .5:
        o.update(npts=int(rng.integers(60, 200)), color="r", lw=2)
    legume.viz.shapes(phc.layers[0], **o)
    ax = o.get("ax") or plt.gcf().axes[0]
    lines = [l.get_xydata() for l in ax.lines]
    a1, a2 = geom.vecs(spec["lattice"])
    tr = [np.zeros(2)] + ([a1, -a1, a2, -a2] if o["pad"] else [])
    left = list(range(len(lines)))
    for s in shs:
        for t in tr:
            hit = None
            for j in left:
                v = lines[j] - t
                _, m = geom.shape_inside(s, v[:, 0], v[:, 1])
                if s["t"] == "ellipse":      # margin in units of the smaller axis
                    ok = np.max(m) < 1e-6
                elif s["t"] == "circle":
                    ok = np.max(m) < 1e-6
                else:
                    ok = np.max(m) < 1e-7
                if ok and np.allclose(v[0], v[-1], atol=1e-9) and abs(abs(geom.poly_area(v[:-1])) / geom.shape_area(s) - 1) < 1e-2:
                    hit = j
                    break
            mon.check("shape-outline", hit is not None, "%s translated by %s is not outlined" % (s, t))
            if hit is not None:
                left.remove(hit)
                mon.event("outlines")
    xg, yg = phc.lattice.xy_grid(Nx=2, Ny=2)
    mon.close("shapes-window", [*ax.get_xlim(), *ax.get_ylim()], [*xg, *yg], rtol=0, atol=1e-9)
    mon.check("shapes-aspect", ax.get_aspect() in (1, 1., "equal"), "aspect %s" % ax.get_aspect())
    mon.check("no-other-lines", all(on_some(spec, shs, lines[j]) for j in left), "%d lines that outline nothing" % len(left))
    draw(rng, ax.figure)


def on_some(spec, shs, xy):
    """periodic images outside of the padded set are fine"""
    _, m = geom.layer_eps(spec["lattice"], 1., shs, xy[:, 0], xy[:, 1])
    return np.max(m) < 1e-5


def titles(mon, key, got, planes, cladding):
    for t, p in zip(got, planes):
        mon.check(key + "-title", p in t and not any(q in t for q in ("xy", "xz", "yz") if q != p), "title %r over a %s section" % (t, p))
    xy = [t for t, p in zip(got, planes) if p == "xy"]
    if cladding and xy:
        mon.check(key + "-title", "lower" in xy[0] and "upper" in xy[-1] and not any("cladding" in t for t in xy[1:-1]), "titles %s" % xy)
    else:
        mon.check(key + "-title", not any("cladding" in t for t in xy), "titles %s" % xy)


def structure(case, mon, rng):
    import legume
    import matplotlib.pyplot as plt
    import matplotlib as mpl
    w = int(rng.integers(3))
    if w == 2:
        spec, st, k, a = make_pol(rng, int(rng.integers(1, 3)))
    else:
        spec = geom.gen_spec(rng, nshapes=2, clad_shapes=rng.random() < .4)
        if w == 0 and rng.random() < .5:
            spec["qws"] = [dict(z=round(float(rng.uniform(.1, .9) * spec["layers"][0]["d"]), 4), V_shapes=0., a=4e-7, M=1e-31, E0=1.5, loss=1e-4,
                                osc_str=[1e19, 0, 0]) for _ in range(int(rng.integers(1, 3)))]
        st = geom.build_phc(spec)
        if w == 1:
            st = legume.GuidedModeExp(st, gmax=1.2)
    qz = [q["z"] for q in spec.get("qws", [])] if w != 1 else []
    o = dict(Nx=int(rng.integers(5, 24)), Ny=int(rng.integers(5, 24)), Nz=int(rng.integers(5, 24)), cladding=bool(rng.random() < .5),
             cbar=bool(rng.random() < .5), xy=bool(rng.random() < .7), xz=bool(rng.random() < .6), yz=bool(rng.random() < .6))
    if not (o["xy"] or o["xz"] or o["yz"]):
        o["xz"] = True
    fs = rng.random()
    if fs < .3:
        o["figsize"] = [3, 5., (3, 6)][int(rng.integers(3))]
    fig0 = None
    if rng.random() < .3:
        fig0 = plt.figure()
        o["fig"] = fig0
        o["gridspec"] = mpl.gridspec.GridSpec(1, 2, figure=fig0)[0]
    legume.viz.structure(st, **o)
    fig = plt.gcf()
    if fig0 is not None:
        mon.check("structure-fig", plt.get_fignums() == [fig0.number], "drawn in another figure")
    lays = geom.all_layers(spec)
    zmid = []
    D = sum(l["d"] for l in spec["layers"])
    use = lays if o["cladding"] else lays[1:-1]
    for z0, z1, _, _ in use:
        zmid.append(-.5 if z0 == -np.inf else D + .5 if z1 == np.inf else .5 * (z0 + z1))
    want = [("xz", 0.)] * o["xz"] + [("yz", 0.)] * o["yz"] + [("xy", z) for z in zmid] * o["xy"]
    ims = images(fig)
    if not mon.check("structure-images", len(ims) == len(want), "%d images for %d sections" % (len(ims), len(want))):
        return
    lims = set()
    for im, (pl, c) in zip(ims, want):
        check_image(mon, "structure-" + pl, spec, pl, im, c)
        A = np.ma.getdata(im.get_array())
        cl = im.get_clim()
        mon.check("structure-clim", cl[0] <= A.min() + 1e-9 and cl[1] >= A.max() - 1e-9, "colour limits %s, data %g..%g" % (cl, A.min(), A.max()))
        lims.add(tuple(np.round(cl, 9)))
        if pl in ("xz", "yz"):
            z = sorted(float(s[0][1]) for col in im.axes.collections if hasattr(col, "get_segments") for s in col.get_segments())
            mon.check("wells-drawn", len(z) == len(qz) and np.allclose(z, sorted(qz)), "lines at z=%s, wells at %s" % (z, qz))
            e = im.get_extent()
            mon.check("wells-span", all(np.allclose([s[:, 0].min(), s[:, 0].max()], e[:2]) for col in im.axes.collections if hasattr(col, "get_segments")
                                        for s in col.get_segments()), "the line of a well does not span the image")
            mon.event("wells", len(qz))
    titles(mon, "structure", [im.axes.get_title() for im in ims], [w[0] for w in want], o["cladding"])
    mon.check("structure-common-scale", len(lims) == 1, "colour limits differ: %s" % lims)
    mon.check("structure-colorbars", len(fig.axes) == len(want) * (2 if o["cbar"] else 1), "%d axes" % len(fig.axes))
    draw(rng, fig)


def eps_ft(case, mon, rng):
    import legume
    import matplotlib.pyplot as plt
    import matplotlib as mpl
    pwe = rng.random() < .4
    spec = geom.gen_spec(rng, nlay=1 if pwe else None, nshapes=2, clad_shapes=rng.random() < .4)
    phc = geom.build_phc(spec)
    st = legume.PlaneWaveExp(phc.layers[0], gmax=2.) if pwe else legume.GuidedModeExp(phc, gmax=1.6, truncate_g=str(rng.choice(["abs", "tbt"])))
    if rng.random() < .5:
        st.run(kpoints=np.array([[.3], [.4]]), numeig=1, **({} if pwe else dict(verbose=False, gmode_inds=[0], eps_eff="custom") and
               dict(verbose=False, gmode_inds=[0]))) if pwe or refgme.eff_eps(spec, "average")[1:-1].max() > 1.5 * refgme.eff_eps(spec, "average")[[0, -1]].max() else None
    o = dict(Nx=int(rng.integers(4, 20)), Ny=int(rng.integers(4, 20)), cladding=bool(rng.random() < .5), cbar=bool(rng.random() < .5))
    if rng.random() < .3:
        o["figsize"] = [3, 5., (3, 6)][int(rng.integers(3))]
    if rng.random() < .3:
        f0 = plt.figure()
        o.update(fig=f0, gridspec=mpl.gridspec.GridSpec(1, 2, figure=f0)[0])
    legume.viz.eps_ft(st, **o)
    fig = plt.gcf()
    lays = [l for l in geom.all_layers(spec)]
    D = sum(l["d"] for l in spec["layers"])
    use = lays if o["cladding"] and not pwe else lays[1:-1]
    ims = images(fig)
    if not mon.check("eps_ft-images", len(ims) == len(use), "%d images for %d layers" % (len(ims), len(use))):
        return
    lims = set()
    for im, (z0, z1, eb, shs) in zip(ims, use):
        z = -.5 if z0 == -np.inf else D + .5 if z1 == np.inf else .5 * (z0 + z1)
        e, xg, yg = st.get_eps_xy(Nx=o["Nx"], Ny=o["Ny"], z=z)
        A = np.ma.getdata(im.get_array())
        mon.close("eps_ft", A, np.real(e), rtol=1e-10, atol=1e-10)
        mon.close("eps_ft-extent", im.get_extent(), [xg[0], xg[-1], yg[0], yg[-1]], rtol=0, atol=1e-12)
        mon.check("eps_ft-origin", im.origin == "lower", "upside down")
        # and it is that layer: the cell average of the drawn reconstruction over a full period
        cl = im.get_clim()
        mon.check("eps_ft-clim", cl[0] <= A.min() + 1e-9 and cl[1] >= A.max() - 1e-9, "colour limits %s, data %g..%g" % (cl, A.min(), A.max()))
        lims.add(tuple(np.round(cl, 9)))
        mon.event("reconstructions")
    titles(mon, "eps_ft", [im.axes.get_title() for im in ims], ["xy"] * len(ims), o["cladding"] and not pwe)
    mon.check("eps_ft-common-scale", len(lims) == 1, "colour limits differ")
    draw(rng, fig)


def make_exc(rng):
    import legume
    spec = one_layer(rng)
    V = float(rng.choice([-.02, .03]))
    e = legume.ExcitonSchroedEq(geom.build_phc(spec), gmax=1.6, truncate_g=str(rng.choice(["abs", "tbt"])), z=spec["layers"][0]["d"] / 2, V_shapes=V,
                                a=4e-7, M=1e-31, E0=1.5, loss=1e-4, osc_str=np.array([1e19, 0, 0]))
    k = rk(rng, int(rng.integers(1, 4)))
    e.run(kpoints=k.copy(), numeig_ex=int(rng.integers(1, 5)), verbose_ex=False)
    return spec, e, k, V


def pot_ft(case, mon, rng):
    import legume
    import matplotlib.pyplot as plt
    import matplotlib as mpl
    spec, e, k, V = make_exc(rng)
    o = dict(Nx=int(rng.integers(4, 20)), Ny=int(rng.integers(4, 20)), cbar=bool(rng.random() < .5))
    if rng.random() < .3:
        f0 = plt.figure()
        o.update(fig=f0, gridspec=mpl.gridspec.GridSpec(1, 2, figure=f0)[0])
    legume.viz.pot_ft(e, **o)
    ims = images(plt.gcf())
    if mon.check("pot-image", len(ims) == 1, "%d images" % len(ims)):
        v, xg, yg = e.get_pot_xy(Nx=o["Nx"], Ny=o["Ny"])
        mon.close("pot", np.ma.getdata(ims[0].get_array()), np.real(v), rtol=1e-10, atol=1e-12)
        mon.close("pot-extent", ims[0].get_extent(), [xg[0], xg[-1], yg[0], yg[-1]], rtol=0, atol=1e-12)
        cl = ims[0].get_clim()
        # background 0 and the potential of the shapes
        mon.check("pot-clim", cl[0] <= min(0, V) + 1e-12 and cl[1] >= max(0, V) - 1e-12, "colour limits %s for a potential of %g" % (cl, V))
        mon.check("pot-origin", ims[0].origin == "lower", "upside down")
        mon.event("potentials")
    draw(rng, plt.gcf())


# ------------------------------------------------------------------------ fields
def part(f, val):
    return dict(re=np.real, im=np.imag, abs=np.abs, abs2=lambda u: np.abs(u) ** 2)[val](f)


def outline(mon, spec, plane, coord, g1, g2, level, segs):
    """The contour of the permittivity on the plot's own grid: a vertex on every grid edge that crosses the level, nowhere else."""
    U, V = np.meshgrid(g1, g2)
    C = np.full(U.shape, float(coord))
    x, y, z = dict(xy=(U, V, C), xz=(U, C, V), yz=(C, U, V))[plane]
    E, ok = np.zeros(U.shape), np.zeros(U.shape, bool)
    for (z0, z1, eb, shs) in geom.all_layers(spec):
        sel = (z >= z0) & (z < z1)
        if sel.any():
            E[sel], m = geom.layer_eps(spec["lattice"], eb, shs, x[sel], y[sel])
            ok[sel] = (m > 1e-6) & (np.abs(z[sel] - z0) > 1e-9) & (np.abs(z[sel] - z1) > 1e-9)
    v = np.vstack(segs) if segs else np.zeros((0, 2))
    v = v[np.isfinite(v).all(axis=1)]
    want, sure = [], []
    for ax in (0, 1):
        a, b = (E[:-1], E[1:]) if ax == 0 else (E[:, :-1], E[:, 1:])
        ka, kb = (ok[:-1], ok[1:]) if ax == 0 else (ok[:, :-1], ok[:, 1:])
        pa = np.array([U[:-1], V[:-1]] if ax == 0 else [U[:, :-1], V[:, :-1]])
        pb = np.array([U[1:], V[1:]] if ax == 0 else [U[:, 1:], V[:, 1:]])
        c = (a > level) != (b > level)
        w = pa + np.where(c, (level - a) / np.where(c, b - a, 1.), 0.) * (pb - pa)
        want.append(w[:, c])
        sure.append((ka & kb)[c])
    want, sure = np.hstack(want).T, np.hstack(sure)
    tol = 1e-6 * (1 + np.abs(g1).max() + np.abs(g2).max())

    def far(p, q):
        if not len(p):
            return np.zeros(0)
        return np.min(np.abs(p[:, None] - q[None]).max(axis=2), axis=1) if len(q) else np.full(len(p), np.inf)
    m = far(want[sure], v) > tol
    mon.check("field-outline", not m.any(), "%d of %d points of the material boundary (level %g) are not outlined" % (m.sum(), m.size, level))
    if ok.all():
        m = far(v, want) > tol
        mon.check("field-outline", not m.any(), "%d of %d points of the outline are not on the material boundary" % (m.sum(), m.size))
    mon.event("outline_points", len(v))


def a_level(rng, es):
    es = sorted(set(es))
    i = int(rng.integers(max(1, len(es) - 1)))
    return [.5 * (es[i] + es[i + 1])] if len(es) > 1 else [es[0] + .5]


def field_images(mon, fig, spec, fi, g1, g2, comps, val, ph, o, plane, coord, f, named, shown):
    ims = images(fig)
    if not mon.check("field-images", len(ims) == len(comps), "%d images for components %r" % (len(ims), comps)):
        return
    mon.check("field-colorbars", len(fig.axes) == len(comps) * (2 if o["cbar"] else 1), "%d axes for %d components" % (len(fig.axes), len(comps)))
    for im, c in zip(ims, comps):
        A = np.ma.getdata(im.get_array())
        F = np.asarray(fi[c]) * ph
        Z = part(F, val)
        mon.close("field-data", A, Z, rtol=1e-8, atol=1e-9 * (1 + np.abs(F).max()), scale=np.abs(F).max(),
                  msg="component %s, part %s, options %s" % (c, val, {k: v for k, v in o.items()}))
        mon.close("field-extent", im.get_extent(), [g1[0], g1[-1], g2[0], g2[-1]], rtol=0, atol=1e-12)
        mon.check("field-origin", im.origin == "lower", "upside down")
        cl = im.get_clim()
        if np.abs(Z).max() > 1e-12:
            mon.check("field-clim", cl[0] <= Z.min() + 1e-9 and cl[1] >= Z.max() - 1e-9 and (val == "abs" and cl[0] == 0 or abs(cl[0] + cl[1]) < 1e-9),
                      "colour limits %s" % (cl,))
        t = im.axes.get_title()
        mon.check("field-title", "%.2f" % f in t, "title %r for the mode at %g" % (t, f))
        third = dict(xy="z", xz="y", yz="x")[plane]
        fld, ki, mi, q = named
        want = ["%s-plane" % plane, "%s_{%s%d}" % (fld.upper(), c, mi), "k_{%d}" % ki, val.capitalize() + "$("]
        if shown is not None:
            want.append("%s = %1.2f" % (third, shown))
        if q is not None:
            want.append("Q = %.2E" % q if np.isfinite(q) else "Q = Inf")
        else:
            mon.check("field-title-q", "Q =" not in t, "a quality factor in the title %r of modes without losses" % t)
        for u in want:
            mon.check("field-title", u in t, "no %r in the title %r" % (u, t))
        # outline of the permittivity
        segs = [p.vertices for col in im.axes.collections if hasattr(col, "levels") or "Contour" in type(col).__name__ for p in col.get_paths()]
        if not o.get("eps", True):
            mon.check("field-no-outline", not segs, "permittivity outline although eps=False")
        elif o.get("eps_levels"):
            outline(mon, spec, plane, coord, g1, g2, o["eps_levels"][0], segs)
        mon.event("field_images")


def quality(g, i, m):
    im = np.array(g.freqs_im)
    if im.size == 0:
        return None
    return float(np.array(g.freqs)[i, m] / 2 / im[i, m]) if abs(im[i, m]) > 1e-20 else np.inf


def field(case, mon, rng):
    import legume
    import matplotlib.pyplot as plt
    spec, g, k, n = solve_gme(rng, mon, compute_im=bool(rng.random() < .5))
    i, m = int(rng.integers(k.shape[1])), int(rng.integers(n))
    D = sum(l["d"] for l in spec["layers"])
    fld = str(rng.choice(["h", "d", "e", "H", "D", "E"]))
    comps = str(rng.choice(["xyz", "x", "yz", "z", "zx", "xx", "zyz"]))
    val = str(rng.choice(["re", "im", "abs"]))
    o = dict(component=comps, val=val, N1=int(rng.integers(4, 18)), N2=int(rng.integers(4, 18)), cbar=bool(rng.random() < .5),
             eps=bool(rng.random() < .6), periodic=bool(rng.random() < .5))
    if rng.random() < .2:
        o.pop("component")
        comps = "xyz"
    plane = str(rng.choice(["xy", "xz", "yz"], p=[.5, .25, .25]))
    third = dict(xy="z", xz="y", yz="x")[plane]
    z = float([rng.uniform(-.3, 0), rng.uniform(0, D), rng.uniform(D, D + .3)][int(rng.choice(3, p=[.3, .45, .25]))])
    while min(abs(z - zi) for zi in np.concatenate([[0], np.cumsum([l["d"] for l in spec["layers"]])])) < 1e-3:
        z += .01
    c0 = z if third == "z" else float(rng.uniform(-.5, .5))
    o[third] = c0
    if o["eps"] and rng.random() < .8:
        lays = [l for l in geom.all_layers(spec) if plane != "xy" or l[0] <= c0 < l[1]]
        o["eps_levels"] = a_level(rng, [e for l in lays for e in [l[2]] + [s["eps"] for s in l[3]]])
        o["N1"], o["N2"] = o["N1"] + 10, o["N2"] + 10
    fig = legume.viz.field(g, fld, i, m, **o)
    if mon.check("field-figure", fig is plt.gcf() or fig in [plt.figure(n) for n in plt.get_fignums()], "no figure returned"):
        ph = 1.
        if plane == "xy":
            fi, g1, g2 = g.get_field_xy(fld, i, m, c0, component="xyz", Nx=o["N1"], Ny=o["N2"])
            P = np.exp(1j * (k[0, i] * g1[None, :] + k[1, i] * g2[:, None]))
        elif plane == "xz":
            fi, g1, g2 = g.get_field_xz(fld, i, m, c0, component="xyz", Nx=o["N1"], Nz=o["N2"])
            P = np.exp(1j * (k[0, i] * g1 + k[1, i] * c0))[None, :]
        else:
            fi, g1, g2 = g.get_field_yz(fld, i, m, c0, component="xyz", Ny=o["N1"], Nz=o["N2"])
            P = np.exp(1j * (k[1, i] * g1 + k[0, i] * c0))[None, :]
        if not o["periodic"]:
            ph = P
        field_images(mon, fig, spec, fi, g1, g2, comps, val, ph, o, plane, c0, float(np.array(g.freqs)[i, m]),
                     (fld, i, m, quality(g, i, m)), c0)
        draw(rng, fig)


def field_pwe(case, mon, rng):
    import legume
    spec = one_layer(rng)
    p = legume.PlaneWaveExp(geom.build_phc(spec).layers[0], gmax=2.1)
    k = rk(rng, int(rng.integers(1, 4)))
    n = int(rng.integers(1, 5))
    p.run(kpoints=k.copy(), pol=str(rng.choice(["te", "tm"])), numeig=n)
    i, m = int(rng.integers(k.shape[1])), int(rng.integers(n))
    comps = str(rng.choice(["xyz", "x", "yz", "z", "zz", "xyx"]))
    val = str(rng.choice(["re", "im", "abs"]))
    fld = str(rng.choice(["h", "d", "e"]))
    o = dict(component=comps, val=val, N1=int(rng.integers(4, 18)), N2=int(rng.integers(4, 18)), eps=bool(rng.random() < .6),
             periodic=bool(rng.random() < .5), cbar=bool(rng.random() < .5))
    if rng.random() < .4:
        o["z"] = .1
    lay = spec["layers"][0]
    if o["eps"] and rng.random() < .8:
        o["eps_levels"] = a_level(rng, [lay["eps_b"]] + [s["eps"] for s in lay["shapes"]])
        o["N1"], o["N2"] = o["N1"] + 10, o["N2"] + 10
    fig = legume.viz.field(p, fld, i, m, **o)
    fi, g1, g2 = p.get_field_xy(fld, i, m, component="xyz", Nx=o["N1"], Ny=o["N2"])
    ph = 1. if o["periodic"] else np.exp(1j * (k[0, i] * g1[None, :] + k[1, i] * g2[:, None]))
    sp = dict(lattice=spec["lattice"], eps_l=1., eps_u=1., layers=[lay])
    field_images(mon, fig, sp, fi, g1, g2, comps, val, ph, o, "xy", lay["d"] / 2, float(np.array(p.freqs)[i, m]), (fld, i, m, None), o.get("z"))
    draw(rng, fig)


def wavef(case, mon, rng):
    import legume
    spec, e, k, V = make_exc(rng)
    i, m = int(rng.integers(k.shape[1])), int(rng.integers(np.shape(e.eners)[1]))
    val = str(rng.choice(["re", "im", "abs2"]))
    o = dict(val=val, N1=int(rng.integers(4, 18)), N2=int(rng.integers(4, 18)), cbar=bool(rng.random() < .5))
    fig = legume.viz.wavef(e, i, m, **o)
    w, g1, g2 = e.get_wavef_xy(i, m, Nx=o["N1"], Ny=o["N2"])
    ims = images(fig)
    if mon.check("wavef-image", len(ims) == 1, "%d images" % len(ims)):
        Z = part(np.asarray(w), val)
        mon.close("wavef", np.ma.getdata(ims[0].get_array()), Z, rtol=1e-8, atol=1e-10)
        mon.close("wavef-extent", ims[0].get_extent(), [g1[0], g1[-1], g2[0], g2[-1]], rtol=0, atol=1e-12)
        mon.check("wavef-origin", ims[0].origin == "lower", "upside down")
        cl = ims[0].get_clim()
        mon.check("wavef-clim", cl[0] <= Z.min() + 1e-9 and cl[1] >= Z.max() - 1e-9, "%s" % (cl,))
        t = ims[0].axes.get_title()
        for u in ("%.2E" % np.real(e.eners[i, m]), "k_{%d}" % i, "band %d" % m, dict(re="Re(", im="Im(", abs2="|^2")[val]):
            mon.check("wavef-title", u in t, "no %r in the title %r" % (u, t))
        mon.event("wavefunctions")
    draw(rng, fig)


def reciprocal(case, mon, rng):
    import legume
    import matplotlib.pyplot as plt
    spec = one_layer(rng)
    phc = geom.build_phc(spec)
    w = int(rng.integers(4))
    gm = float(rng.choice([1.2, 1.7, 2.3]))
    tr = str(rng.choice(["abs", "tbt"]))
    if w == 0:
        st = legume.GuidedModeExp(phc, gmax=gm, truncate_g=tr)
    elif w == 1:
        st = legume.PlaneWaveExp(phc.layers[0], gmax=gm)
    elif w == 2:
        st = make_exc(rng)[1]
    else:
        st = make_pol(rng)[1]
    legume.viz.reciprocal(st)
    pts = points(plt.gcf().axes[0])
    same_points(mon, "reciprocal", pts, np.array(st.gvec).T)
    draw(rng, plt.gcf())


def run_case(case, mon):
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    plt.close("all")
    rng = np.random.default_rng(case["seed"])
    {"bands": bands, "bands-sym": bands, "bands-pwe": bands_pwe, "pol": pol, "eps": eps_layer, "eps-planes": eps_planes, "shapes": shapes,
     "structure": structure, "eps-ft": eps_ft, "pot-ft": pot_ft, "field": field, "field-pwe": field_pwe, "wavef": wavef,
     "reciprocal": reciprocal}[case["kind"]](case, mon, rng)
    mon.event("plots_" + case["kind"])


if __name__ == "__main__":
    core.main(sys.modules[__name__])
