import os, sys, string
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import core, geom
import numpy as np

PROPERTY = "C23"
QUICK_REPS = 2
RULE = ("histories of refused and valid requests on crystals, layers, lattices, the four solvers, plots, optimiser and back ends: each refused request "
        "must raise the documented exception with a message, and the valid requests that follow, on the same objects, must give bit-identical results "
        "to objects that never saw a refusal. Random crystals, random unknown words and malformed arrays. Distinct: kind and history.")
ASSUMPTIONS = ["documented type: ValueError for values, TypeError for wrong types and unknown keywords, RuntimeError for results asked for before a run "
               "or without guided modes, IndexError or ValueError for indices out of range",
               "a refused run may discard the results of an earlier one"]
CASE_TIMEOUT = 90
KINDS = ("lattice", "shapes", "crystal", "gme", "gme-sym", "pwe", "ese", "pol", "viz", "minimize", "backend", "kpath", "slab")


def cases(rng, tier):
    n = 30 if tier == "quick" else 900
    return [dict(kind=k, seed=int(rng.integers(1 << 30))) for i in range(n) for k in KINDS]


def word(rng, avoid):
    while True:
        w = "".join(rng.choice(list(string.ascii_lowercase), int(rng.integers(1, 8))))
        if w not in avoid:
            return w


def refuse(mon, name, exc, fn, msg=""):
    e = mon.raises("refused-" + name, exc, fn, msg)
    if e is not None:
        mon.check("informative-" + name, len(str(e)) > 8, "message %r" % str(e))
        mon.event("refusals")
        mon.event("refused_" + name)
    return e


V = ValueError
IX = (IndexError, ValueError)


# ---------------------------------------------------------------------- builders
def lattice(case, mon, rng):
    import legume
    L = legume.Lattice
    t = rng.uniform(0, 2 * np.pi)
    v = rng.uniform(.3, 2) * np.array([np.cos(t), np.sin(t)])
    c = float(rng.choice([-2, .5, 1, 3]))
    bad = [("unknown-lattice", lambda: L(word(rng, ("square", "hexagonal")))),
           ("lattice-arguments", lambda: L()),
           ("lattice-arguments", lambda: L([1, 0], [0, 1], [1, 1])),
           ("dependent-vectors", lambda: L(list(v), list(c * v))),
           ("dependent-vectors", lambda: L([0., 0.], list(v))),
           ("dependent-vectors", lambda: L(np.array([c, 0.]), np.array([1., 0.])))]
    for n, f in bad:
        refuse(mon, n, V, f)
    # slender but regular cells stay accepted
    h = 10 ** float(rng.uniform(-4, 0))
    l = L([1., 0.], [float(rng.uniform(-1, 1)), h])
    mon.close("accepted-area", [l.ec_area], [h], rtol=1e-9, atol=0)


def kpath(case, mon, rng):
    import legume
    kind = str(rng.choice(["square", "hexagonal", "rect", "custom"]))
    lat = dict(square=lambda: legume.Lattice("square"), hexagonal=lambda: legume.Lattice("hexagonal"),
               rect=lambda: legume.Lattice([1., 0.], [0., 1.7]), custom=lambda: legume.Lattice([1., 0.], [.3, 1.1]))[kind]
    l = lat()
    ok = dict(square=["G", "X", "M"], hexagonal=["G", "K", "M"], rect=["G"], custom=["G"])[kind]
    good = [ok[0], [1., 0.], np.array([1., 2.])] + ok[1:]
    ref = lat().bz_path(list(good), [3])
    for p in "XMK":
        if p not in ok:
            refuse(mon, "unknown-point", V, lambda: l.bz_path(["G", p], [3]), "%s in %s" % (p, kind))
            if ok != ["G"]:
                refuse(mon, "unknown-gamma-symmetry", V, lambda: l.bz_path(["G", [1., 0.]], [3], symm_g=p))
        else:
            mon.event("points_accepted", int(len(l.bz_path(["G", p.lower()], [3])["kpoints"][0]) == 4))
    w = word(rng, ("g", "x", "m", "k", "gamma"))
    refuse(mon, "unknown-point", V, lambda: l.bz_path(["G", w], [3]))
    refuse(mon, "point-type", (V, TypeError), lambda: l.bz_path(["G", int(rng.integers(9))], [3]))
    refuse(mon, "too-few-points", V, lambda: l.bz_path(["G"], [3]))
    refuse(mon, "too-few-points", V, lambda: l.bz_path([], [3]))
    n = len(good)
    for m in {0, 2, n, n + 1} - {1, n - 1}:
        refuse(mon, "ns-length", V, lambda: l.bz_path(list(good), [2] * m), "%d for %d points" % (m, n))
    r = l.bz_path(list(good), [3])
    mon.close("after-kpath", r["kpoints"], ref["kpoints"], rtol=0, atol=0)


def shapes(case, mon, rng):
    import legume
    n = int(rng.integers(3, 9))
    ph = np.sort(rng.uniform(0, 2 * np.pi, n))
    while np.max(np.diff(np.append(ph, ph[0] + 2 * np.pi))) > 3:
        ph = np.sort(rng.uniform(0, 2 * np.pi, n))
    x, y = .3 * np.cos(ph), .3 * np.sin(ph)
    refuse(mon, "clockwise", V, lambda: legume.Poly(eps=2., x_edges=list(x[::-1]), y_edges=list(y[::-1])))
    refuse(mon, "edge-counts", V, lambda: legume.Poly(eps=2., x_edges=list(x), y_edges=list(y[:-1])))
    a0 = float(rng.uniform(.1, .3))
    refuse(mon, "negative-radius", V, lambda: legume.FourierShape(eps=2., f_as=np.array([a0, 2.1 * a0]), f_bs=np.array([0.])))
    s = [legume.Circle(eps=3., r=.2), legume.Ellipse(eps=3., rx=.1, ry=.2, phi=.3), legume.Poly(eps=2., x_edges=list(x), y_edges=list(y)),
         legume.Square(eps=2., a=.3), legume.Hexagon(eps=2., a=.2)][int(rng.integers(5))]
    g = rng.uniform(-9, 9, (2, 5))
    ref = np.array(s.compute_ft(g))
    refuse(mon, "gvec-shape", V, lambda: s.compute_ft(rng.uniform(-1, 1, 4)))
    refuse(mon, "gvec-shape", V, lambda: s.compute_ft(rng.uniform(-1, 1, (3, 4))))
    refuse(mon, "gvec-shape", V, lambda: s.compute_ft(rng.uniform(-1, 1, (2, 2, 2))))
    refuse(mon, "gvec-type", TypeError, lambda: s.compute_ft("gvec"))
    refuse(mon, "gvec-type", TypeError, lambda: s.compute_ft(3.))
    mon.close("after-ft", s.compute_ft(g), ref, rtol=0, atol=0)


def crystal(case, mon, rng):
    """Building a crystal with refused steps in between."""
    import legume
    spec = geom.gen_spec(rng, nlay=int(rng.integers(1, 3)), nshapes=2, clad_shapes=rng.random() < .5)
    ref = geom.build_phc(spec)
    p = legume.PhotCryst(geom.build_lattice(spec["lattice"]), eps_l=spec["eps_l"], eps_u=spec["eps_u"])

    def sh():
        return legume.Circle(eps=7., x_cent=.1, r=.15)

    def bad(nl):
        u = rng.integers(10)
        D = sum(l["d"] for l in spec["layers"][:nl])
        if u == 0:
            refuse(mon, "layer-type", V, lambda: p.add_layer(d=.3, eps_b=4., layer_type=word(rng, ("shapes", "freeform"))))
        elif u == 1:
            refuse(mon, "layer-index", IX, lambda: p.add_shape(sh(), layer=nl + int(rng.integers(3))))
        elif u == 2:
            refuse(mon, "layer-index", IX, lambda: p.add_shape([sh()], layer=-nl - 1 - int(rng.integers(3))))
        elif u == 3:
            c = [2, -1, "x", word(rng, ("l", "u")), 7][int(rng.integers(5))]
            refuse(mon, "cladding", V, lambda: p.add_shape(sh(), cladding=c))
        elif u in (4, 5) and nl:
            lst = [[sh(), "circle"], [sh(), sh(), 3], [None, sh()], ["a"], (sh(), .5)][int(rng.integers(5))]
            if rng.random() < .5:
                refuse(mon, "not-a-shape", V, lambda: p.add_shape(lst, layer=int(rng.integers(nl))))
            elif rng.random() < .5:
                refuse(mon, "not-a-shape", V, lambda: p.layers[0].add_shape(lst))
            else:
                refuse(mon, "not-a-shape", V, lambda: p.add_shape(lst, cladding=["l", "u", 0, 1][int(rng.integers(4))]))
        elif u == 6 and nl:
            refuse(mon, "not-a-shape", (V, TypeError), lambda: p.add_shape([3, 2.5, "x"][int(rng.integers(3))]))
        elif u in (7, 8) and nl:
            z = [-float(rng.uniform(1e-9, 2)), D + float(rng.uniform(1e-9, 2)), 0., float(p.layers[-1].z_max)][int(rng.integers(4))]
            refuse(mon, "well-in-cladding", V, lambda: p.add_qw(z=z, V_shapes=.01, a=4e-7, M=1e-31, E0=1., loss=0., osc_str=[0, 0, 0]), "z=%g" % z)
        elif u == 9 and nl:
            m = [np.ones((2, 3)) for _ in range(3)]
            m[int(rng.integers(3))] = np.ones((3, 2))
            refuse(mon, "mesh-shapes", V, lambda: p.get_eps(tuple(m)))
            refuse(mon, "mesh-shapes", V, lambda: p.layers[0].get_eps((np.ones(3), np.ones(4))))

    for _ in range(3):
        bad(0)
    for i, l in enumerate(spec["layers"]):
        p.add_layer(d=l["d"], eps_b=l["eps_b"])
        for _ in range(2):
            bad(i + 1)
        for s in l["shapes"]:
            p.add_shape(geom.build_shape(s))
            bad(i + 1)
    for c, shs in spec.get("clad", {}).items():
        for s in shs:
            p.add_shape(geom.build_shape(s), cladding=c)
            bad(len(spec["layers"]))
    mon.check("after-layers", len(p.layers) == len(ref.layers) and len(p.qws) == 0, "%d layers, %d wells" % (len(p.layers), len(p.qws)))
    D = sum(l["d"] for l in spec["layers"])
    x, y, z = rng.uniform(-1, 1, (2, 40)), rng.uniform(-1, 1, (2, 40)), rng.uniform(-.3, D + .3, (2, 40))
    mon.close("after-crystal-eps", p.get_eps((x, y, z)), ref.get_eps((x, y, z)), rtol=0, atol=0)
    for a, b in zip([p.claddings[0]] + p.layers + [p.claddings[1]], [ref.claddings[0]] + ref.layers + [ref.claddings[1]]):
        mon.close("after-crystal-average", [float(a.eps_avg)], [float(b.eps_avg)], rtol=0, atol=0)
        mon.check("after-crystal-shapes", len(a.shapes) == len(b.shapes), "%d shapes for %d" % (len(a.shapes), len(b.shapes)))
    mon.event("crystals")


# ----------------------------------------------------------------------- solvers
def bad_k(rng, k):
    return [k[0], np.vstack([k, k[:1]]), k[:1], np.ones((4, 2)), k[:, :, None], np.ones((3, 2)), np.float64(1.)][int(rng.integers(7))]


def same(mon, key, a, b):
    a, b = np.asarray(a), np.asarray(b)
    if mon.check(key + "-shape", a.shape == b.shape, "%s for %s" % (a.shape, b.shape)):
        mon.close(key, a, b, rtol=0, atol=0)


def small(rng, **kw):
    o = dict(nlay=int(rng.integers(1, 3)), nshapes=1)
    o.update(kw)
    return geom.gen_spec(rng, **o)


def gme(case, mon, rng, sym=False):
    import legume
    for attempt in range(20):
        lat = {"kind": str(rng.choice(["square", "hexagonal"]))} if sym else geom.gen_lattice(rng)
        spec = small(rng, lat=lat)
        if sym:
            for l in spec["layers"]:
                l["shapes"] = [dict(t="circle", eps=s["eps"], x=0., y=0., r=.2) for s in l["shapes"]]
        trunc = "abs" if sym else str(rng.choice(["abs", "tbt"]))
        k = rng.uniform(-2.5, 2.5, (2, int(rng.integers(1, 3))))
        opt = dict(gmode_inds=[[0], [0, 1]][int(rng.integers(2))], numeig=int(rng.integers(1, 4)), verbose=False)
        if sym:
            k = np.array([np.sort(rng.uniform(.3, 2.4, 2)), np.zeros(2)])
            opt.update(gmode_inds=[0, 1])
        if rng.random() < .4:
            opt.update(gmode_compute="interp", gmode_npts=300)
        # the documented requirement on the basis of each parity is met by a large enough cut
        new = lambda: legume.GuidedModeExp(geom.build_phc(spec), gmax=1.2, truncate_g=trunc)
        r = new()
        try:
            r.run(kpoints=k.copy(), **opt)
            break
        except (ValueError, RuntimeError):
            continue
    else:
        mon.skip("no guided modes")
        return
    refuse(mon, "truncation", V, lambda: legume.GuidedModeExp(geom.build_phc(spec), gmax=1.2, truncate_g=word(rng, ("abs", "tbt"))))
    g = new()
    if rng.random() < .6:
        R = RuntimeError
        w = int(rng.integers(6))
        D = sum(l["d"] for l in spec["layers"])
        refuse(mon, "before-run", R, [lambda: g.run_im(), lambda: g.compute_rad(0, [0]), lambda: g.compute_rad_sp(0, [0]),
                                      lambda: g.get_field_xy("E", 0, 0, D / 3), lambda: g.get_field_xz("H", 0, 0, 0.),
                                      lambda: g.ft_field_xy("D", 0, 0, D / 3)][w], "request %d" % w)

    def run_bad():
        o = dict(opt, kpoints=k.copy())
        u = int(rng.integers(16 if not sym else 12))
        exc = V
        if sym and u < 8:
            o.update(gmode_inds=[0, 1], gmode_compute="exact")
            if u == 0:
                n = "symmetry-unknown"; o.update(kz_symmetry=word(rng, ("odd", "even", "both")), angles=np.zeros(2))
            elif u == 1:
                n = "symmetry-without-angles"; o.update(kz_symmetry=str(rng.choice(["odd", "even", "both"])))
            elif u in (2, 3):
                step = 45 if spec["lattice"]["kind"] == "square" else 30
                a = (float(rng.uniform(.05, .95)) + int(rng.integers(-3, 3))) * step
                n = "symmetry-off-line"
                o.update(kz_symmetry=str(rng.choice(["odd", "even", "both"])), angles=np.array([0., a]), kpoints=np.array([[1., np.cos(np.deg2rad(a))], [0., np.sin(np.deg2rad(a))]]))
            elif u == 4:
                n = "symmetry-solver"; o.update(kz_symmetry="both", angles=np.zeros(2), eig_solver="eigsh", numeig=1)
            elif u == 5:
                n = "symmetry-basis"; o.update(kz_symmetry=str(rng.choice(["odd", "even"])), angles=np.zeros(2), numeig=len(np.array(g.gvec)[0]) * 2)
            else:
                # a crystal that breaks the symmetry
                sp = dict(spec, layers=[dict(l) for l in spec["layers"]])
                sp["layers"][0] = dict(sp["layers"][0], shapes=[dict(t="circle", eps=1.2 if sp["layers"][0]["eps_b"] > 2 else 6., x=.05, y=.13, r=.2)])
                h = legume.GuidedModeExp(geom.build_phc(sp), gmax=1.2)
                refuse(mon, "symmetry-broken", V, lambda: h.run(kpoints=k.copy(), angles=np.zeros(2), kz_symmetry="both", gmode_inds=[0, 1],
                                                                numeig=1, verbose=False, use_sparse=bool(rng.random() < .5)))
                return
        elif u % 12 in (0, 1):
            n = "kpoints"; o["kpoints"] = bad_k(rng, k)
        elif u % 12 == 2:
            n = "eps_eff"; o["eps_eff"] = word(rng, ("average", "background", "custom"))
        elif u % 12 == 3:
            n = "eps_eff-unset"; o["eps_eff"] = "custom"
        elif u % 12 == 4:
            n = "eig_solver"; o["eig_solver"] = word(rng, ("eigh", "eigsh"))
        elif u % 12 == 5:
            n = "gradients"; o["gradients"] = word(rng, ("exact", "approx"))
        elif u % 12 == 6:
            n = "gmode_compute"; o["gmode_compute"] = word(rng, ("exact", "interp"))
        elif u % 12 == 7:
            n = "unknown-option"; o[word(rng, ("angles",)) + "_x"] = 3; exc = TypeError
        elif u % 12 == 8:
            n = "numeig"; o["numeig"] = len(np.array(g.gvec)[0]) * len(opt["gmode_inds"]) + 1 + int(rng.integers(50))
        elif u % 12 == 9:
            n = "gmode_inds"; o["gmode_inds"] = [[0, 0], [0, -1], [1, 0, 1], [-2], [0, -2], np.array([2, 2])][int(rng.integers(6))]
        elif u % 12 == 10:
            n = "no-modes"; o["gmode_inds"] = [60 + int(rng.integers(40))]; exc = RuntimeError
        else:
            n = "options-truncation"
            h = legume.GuidedModeExp(geom.build_phc(spec), gmax=1.2, truncate_g="tbt")
            refuse(mon, n, V, lambda: h.run(kpoints=k.copy(), only_gmodes=True, verbose=False))
            return
        refuse(mon, n, exc, lambda: g.run(**o), str({q: v for q, v in o.items() if q != "kpoints"}))

    for step in range(int(rng.integers(1, 5))):
        run_bad()
    if sym and rng.random() < .5:
        # separated modes after refusals
        o = dict(opt, gmode_inds=[0, 1], numeig=1, kz_symmetry="both", angles=np.zeros(2))
        r = new()
        try:
            r.run(kpoints=k.copy(), **o)
            opt = o
        except ValueError:
            r.run(kpoints=k.copy(), **opt)
    if opt["gmode_compute"] == "interp" if "gmode_compute" in opt else False:
        r = new()
        r.run(kpoints=k.copy(), **opt)
    g.run(kpoints=k.copy(), **opt)
    same(mon, "after-freqs", g.freqs, r.freqs)
    same(mon, "after-losses", g.freqs_im, r.freqs_im)
    D = sum(l["d"] for l in spec["layers"])
    z = .37 * D
    nk, nm = np.shape(g.freqs)
    for _ in range(2):
        u = int(rng.integers(9))
        if u == 0:
            refuse(mon, "mode-range", IX, lambda: g.compute_rad(0, [nm + int(rng.integers(4))]))
        elif u == 1:
            refuse(mon, "k-range", IX, lambda: g.compute_rad(nk + int(rng.integers(4)), [0]))
        elif u == 2:
            refuse(mon, "field", V, lambda: g.get_field_xy(word(rng, "hde"), 0, 0, z, Nx=3, Ny=3))
        elif u == 3:
            refuse(mon, "field", V, lambda: g.ft_field_xy(word(rng, "hde"), 0, 0, z))
        elif u == 4:
            refuse(mon, "component", V, lambda: g.get_field_xy("e", 0, 0, z, component="x" * int(rng.integers(2)) + word(rng, "xyz")[0].translate(str.maketrans("xyz", "abc")), Nx=3, Ny=3))
        elif u == 5:
            refuse(mon, "component", V, lambda: g.get_field_xz("h", 0, 0, .1, component="q", Nx=3, Nz=3))
            refuse(mon, "component", V, lambda: g.get_field_yz("d", 0, 0, .1, component="y1", Ny=3, Nz=3))
        elif u == 6:
            refuse(mon, "field", V, lambda: g.get_field_xz(word(rng, "hde"), 0, 0, .1, Nx=3, Nz=3))
            refuse(mon, "field", V, lambda: g.get_field_yz(word(rng, "hde"), 0, 0, .1, Ny=3, Nz=3))
        elif u == 7:
            refuse(mon, "mode-range", IX, lambda: g.get_field_xy("e", 0, nm, z, Nx=3, Ny=3))
        else:
            refuse(mon, "k-range", IX, lambda: g.get_field_xy("e", nk, 0, z, Nx=3, Ny=3))
    a, b = g.get_field_xy("e", 0, nm - 1, z, Nx=4, Ny=3)[0], r.get_field_xy("e", 0, nm - 1, z, Nx=4, Ny=3)[0]
    for c in "xyz":
        same(mon, "after-field", a[c], b[c])
    same(mon, "after-rad", g.compute_rad(0, [0])[0], r.compute_rad(0, [0])[0])
    mon.event("valid_runs")


def pwe(case, mon, rng):
    import legume
    spec = small(rng, nlay=1)
    new = lambda: legume.PlaneWaveExp(geom.build_phc(spec).layers[0], gmax=1.6)
    p, r = new(), new()
    k = rng.uniform(-2.5, 2.5, (2, 2))
    refuse(mon, "before-run", RuntimeError, [lambda: p.get_field_xy("h", 0, 0), lambda: p.ft_field_xy("e", 0, 0)][int(rng.integers(2))])
    for _ in range(3):
        pol = str(rng.choice(["te", "tm", "TE"]))
        if rng.random() < .5:
            refuse(mon, "kpoints", V, lambda: p.run(kpoints=bad_k(rng, k), pol=pol))
        else:
            refuse(mon, "polarisation", V, lambda: p.run(kpoints=k, pol=word(rng, ("te", "tm"))))
        if rng.random() < .6:
            p.run(kpoints=k.copy(), pol=pol, numeig=3)
            r.run(kpoints=k.copy(), pol=pol, numeig=3)
            same(mon, "after-freqs", p.freqs, r.freqs)
            u = int(rng.integers(4))
            if u == 0:
                refuse(mon, "component", V, lambda: p.get_field_xy("h", 0, 0, component="xq", Nx=3, Ny=3))
            elif u == 1:
                refuse(mon, "field", V, lambda: p.get_field_xy(word(rng, "hde"), 0, 0, Nx=3, Ny=3))
            elif u == 2:
                refuse(mon, "mode-range", IX, lambda: p.get_field_xy("h", 0, 99, Nx=3, Ny=3))
            else:
                refuse(mon, "k-range", IX, lambda: p.get_field_xy("h", 5, 0, Nx=3, Ny=3))
            a, b = p.get_field_xy("d", 1, 2, Nx=4, Ny=3)[0], r.get_field_xy("d", 1, 2, Nx=4, Ny=3)[0]
            for c in "xyz":
                same(mon, "after-field", a[c], b[c])
            mon.event("valid_runs")


def exargs(rng, spec, **kw):
    D = sum(l["d"] for l in spec["layers"])
    o = dict(z=float(rng.uniform(.1, .9)) * D, V_shapes=float(rng.choice([-.02, .02])), a=4e-7, M=1e-31, E0=1.5, loss=1e-4, osc_str=[1e19, 1e19, 0.])
    o.update(kw)
    return o


def ese(case, mon, rng):
    import legume
    spec = small(rng)
    D = sum(l["d"] for l in spec["layers"])
    phc = geom.build_phc(spec)
    args = exargs(rng, spec)
    mk = lambda p=None, **kw: legume.ExcitonSchroedEq(p or phc, gmax=1.6, **dict(args, **kw))
    for _ in range(2):
        u = int(rng.integers(5))
        if u == 0:
            refuse(mon, "well-in-cladding", V, lambda: mk(z=[-float(rng.uniform(1e-6, 1)), D + float(rng.uniform(1e-6, 1))][int(rng.integers(2))]))
        elif u == 1:
            refuse(mon, "oscillator-type", TypeError, lambda: mk(osc_str=[1e19, (1., 0., 0.), "x"][int(rng.integers(3))]))
        elif u == 2:
            n = [1, 2, 4][int(rng.integers(3))]
            refuse(mon, "oscillator-size", V, lambda: mk(osc_str=[[1.] * n, np.ones(n), [[1., 2., 3.]], np.ones((1, 3))][int(rng.integers(4))]))
        elif u == 3:
            refuse(mon, "truncation", V, lambda: mk(truncate_g=word(rng, ("abs", "tbt"))))
        else:
            refuse(mon, "keyword", TypeError, lambda: mk(foo=1))
    e, r = mk(), mk(geom.build_phc(spec))
    k = rng.uniform(-2.5, 2.5, (2, 2))
    refuse(mon, "before-run", RuntimeError, [lambda: e.get_wavef_xy(0, 0), lambda: e.ft_wavef_xy(0, 0)][int(rng.integers(2))])
    if any(l["shapes"] for l in spec["layers"]) and rng.random() < .4:
        # a potential with an absorbing part is no Hermitian problem
        zs = np.concatenate([[0.], np.cumsum([l["d"] for l in spec["layers"]])])
        j = [i for i, l in enumerate(spec["layers"]) if l["shapes"]][0]
        cx = mk(z=float(.5 * (zs[j] + zs[j + 1])), V_shapes=complex(rng.choice([-.02, .02]), rng.choice([-.01, .01])))
        refuse(mon, "complex-potential", V, lambda: cx.run(kpoints=k.copy(), verbose_ex=False))
    refuse(mon, "kpoints", V, lambda: e.run(kpoints=bad_k(rng, k), verbose_ex=False))
    refuse(mon, "unknown-option", TypeError, lambda: e.run(kpoints=k, numeig=3, verbose_ex=False))
    o = dict(kpoints=k.copy(), numeig_ex=3, verbose_ex=False)
    e.run(**o)
    r.run(**o)
    same(mon, "after-energies", e.eners, r.eners)
    refuse(mon, "mode-range", IX, lambda: e.get_wavef_xy(0, 99, Nx=3, Ny=3))
    same(mon, "after-wavefunction", e.get_wavef_xy(1, 1, Nx=4, Ny=3)[0], r.get_wavef_xy(1, 1, Nx=4, Ny=3)[0])
    refuse(mon, "kpoints", V, lambda: e.run(kpoints=bad_k(rng, k), verbose_ex=False))
    mon.check("no-stale-energies", len(e.eners) == 0 or np.array_equal(np.shape(e.eners)[0], np.shape(e.kpoints)[1] if np.ndim(e.kpoints) == 2 else -1),
              "energies without wave vectors")
    e.run(**o)
    same(mon, "after-energies", e.eners, r.eners)
    mon.event("valid_runs", 2)


def pol(case, mon, rng):
    import legume
    for attempt in range(20):
        spec = small(rng, nlay=1)
        spec["qws"] = [exargs(rng, spec)]
        new = lambda: legume.HopfieldPol(geom.build_phc(spec), gmax=1.2)
        k = rng.uniform(-2.5, 2.5, (2, 1))
        o = dict(gme_options=dict(gmode_inds=[0], numeig=2, verbose=False), exc_options=dict(numeig_ex=2, verbose_ex=False), kpoints=k.copy(), verbose=False)
        r = new()
        try:
            r.run(**o)
            break
        except (ValueError, RuntimeError):
            continue
    else:
        mon.skip("no guided modes")
        return
    bare = {q: v for q, v in spec.items() if q != "qws"}
    refuse(mon, "no-wells", V, lambda: legume.HopfieldPol(geom.build_phc(bare), gmax=1.2))
    two = dict(spec, qws=spec["qws"] + [dict(spec["qws"][0], a=4.4e-7)])
    refuse(mon, "different-a", V, lambda: legume.HopfieldPol(geom.build_phc(two), gmax=1.2))
    refuse(mon, "truncation", V, lambda: legume.HopfieldPol(geom.build_phc(spec), gmax=1.2, truncate_g=word(rng, ("abs", "tbt"))))
    h = new()
    for _ in range(int(rng.integers(1, 4))):
        u = int(rng.integers(5))
        if u == 0:
            refuse(mon, "kpoints", V, lambda: h.run(**dict(o, kpoints=bad_k(rng, k))))
        elif u == 1:
            refuse(mon, "unknown-option", TypeError, lambda: h.run(**dict(o, gme_options=dict(o["gme_options"], foo=1))))
        elif u == 2:
            refuse(mon, "unknown-option", TypeError, lambda: h.run(**dict(o, exc_options=dict(o["exc_options"], foo=1))))
        elif u == 3:
            refuse(mon, "numeig", V, lambda: h.run(**dict(o, gme_options=dict(o["gme_options"], numeig=500))))
        else:
            refuse(mon, "eps_eff", V, lambda: h.run(**dict(o, gme_options=dict(o["gme_options"], eps_eff="x"))))
        mon.check("no-stale-energies", len(h.eners) == 0, "energies after a refused run")
    h.run(**o)
    same(mon, "after-energies", h.eners, r.eners)
    same(mon, "after-losses", h.eners_im, r.eners_im)
    same(mon, "after-fractions", h.fractions_ex, r.fractions_ex)
    # the losses are needed, whether the photonic options ask for them or not
    h.run(**dict(o, gme_options=dict(o["gme_options"], compute_im=False)))
    same(mon, "without-compute-im", h.eners_im, r.eners_im)
    mon.event("valid_runs", 2)


# ------------------------------------------------------------------------- plots
def viz(case, mon, rng):
    import legume
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    plt.close("all")
    v = legume.viz
    for attempt in range(20):
        spec = small(rng, nlay=1)
        g = legume.GuidedModeExp(geom.build_phc(spec), gmax=1.2)
        k = rng.uniform(-2.5, 2.5, (2, 2))
        refuse(mon, "before-run", RuntimeError, [lambda: v.bands(g), lambda: v.field(g, "e", 0, 0, z=.01)][int(rng.integers(2))])
        try:
            g.run(kpoints=k, gmode_inds=[0], numeig=2, verbose=False)
            break
        except (ValueError, RuntimeError):
            continue
    else:
        mon.skip("no guided modes")
        return
    z = spec["layers"][0]["d"] / 3
    phc = geom.build_phc(spec)
    p = legume.PlaneWaveExp(phc.layers[0], gmax=1.6)
    p.run(kpoints=k, numeig=2)
    e = legume.ExcitonSchroedEq(phc, gmax=1.2, **exargs(rng, spec))
    e.run(kpoints=k, numeig_ex=2, verbose_ex=False)
    S = dict(N1=4, N2=5)
    f0 = np.array(g.freqs)
    junk = [3, "phc", None, [1]][int(rng.integers(4))]
    todo = [("plane-missing", V, lambda: v.field(g, "e", 0, 0, **S)),
            ("plane-twice", V, lambda: v.field(g, "e", 0, 0, x=0, z=z, **S)),
            ("plane-twice", V, lambda: v.field(g, "e", 0, 0, x=0, y=0, **S)),
            ("plane-pwe", NotImplementedError, lambda: v.field(p, "e", 0, 0, x=0, **S)),
            ("plane-pwe", NotImplementedError, lambda: v.field(p, "e", 0, 0, y=0, **S)),
            ("part", V, lambda: v.field(g, "e", 0, 0, z=z, val=word(rng, ("re", "im", "abs")), **S)),
            ("component", V, lambda: v.field(g, "e", 0, 0, z=z, component="xq", **S)),
            ("field", V, lambda: v.field(g, word(rng, "hde"), 0, 0, z=z, **S)),
            ("struct", V, lambda: v.field(junk, "e", 0, 0, z=z)),
            ("struct", V, lambda: v.structure(junk)),
            ("struct", V, lambda: v.eps_ft(junk)),
            ("struct", V, lambda: v.pot_ft(junk)),
            ("struct", V, lambda: v.wavef(junk, 0, 0)),
            ("part", V, lambda: v.wavef(e, 0, 0, val=word(rng, ("re", "im", "abs2")), **S)),
            ("eV-without-a", V, lambda: v.bands(g, eV=True)),
            ("mode-range", IX, lambda: v.field(g, "e", 0, 9, z=z, **S))]
    for i in rng.permutation(len(todo))[:6]:
        refuse(mon, *todo[i])
    plt.close("all")
    fig = v.field(g, "e", 0, 0, z=z, val="abs", component="x", eps=False, **S)
    im = [a.images[0] for a in fig.axes if a.images]
    ref = np.abs(g.get_field_xy("e", 0, 0, z, component="x", Nx=4, Ny=5)[0]["x"])
    if mon.check("after-plot", len(im) == 1, "%d images" % len(im)):
        mon.close("after-plot", np.ma.getdata(im[0].get_array()), ref, rtol=1e-12, atol=1e-12)
    same(mon, "after-freqs", g.freqs, f0)
    plt.close("all")
    mon.event("valid_plots")


# ------------------------------------------------------------------------ others
def minimize(case, mon, rng):
    from legume.minimize import Minimize
    import legume
    n = int(rng.integers(2, 5))
    x0 = rng.uniform(-1, 1, n)
    t = rng.uniform(-1, 1, n)
    npa = __import__("autograd.numpy", fromlist=["numpy"])
    obj = lambda x: npa.sum((x - t) ** 2)
    bad = [[1.], [1., 2., 3.], [(0., 1.)] * (n + 1), [(0., 1.)] * (n - 1), [(0., 1., 2.)] * n, [(0., 1.)] * (n - 1) + [(0.,)], 3., "x" * 3, []]
    m = Minimize(obj)
    kw = dict(Nepochs=3, disp_p=False)
    for i in rng.permutation(len(bad))[:3]:
        if rng.random() < .5:
            refuse(mon, "bounds", V, lambda: m.adam(x0.copy(), bounds=bad[i], **kw), str(bad[i]))
        else:
            refuse(mon, "bounds", V, lambda: m.lbfgs(x0.copy(), bounds=bad[i], **kw), str(bad[i]))
    with core.Quiet():
        a = m.adam(x0.copy(), bounds=[-.5, .5], step_size=.1, **kw)
        b = Minimize(obj).adam(x0.copy(), bounds=[-.5, .5], step_size=.1, **kw)
    same(mon, "after-adam", a[0], b[0])
    same(mon, "after-adam-history", a[1], b[1])
    mon.event("valid_optimisations")


def backend(case, mon, rng):
    import legume
    try:
        for name in [["numpy"], ["autograd"], ["numpy", "autograd"]][int(rng.integers(3))]:
            legume.set_backend(name)
        was = type(legume.backend)
        cls = legume.backend.__class__
        refuse(mon, "backend", V, lambda: legume.set_backend(word(rng, ("numpy", "autograd"))))
        mon.check("backend-kept", legume.backend.__class__ is cls, "%s after the refusal, %s before" % (legume.backend.__class__, cls))
        pn = str(rng.choice(["rich", "base"]))
        try:
            legume.set_print_backend(pn)
        except ValueError:
            pn = None
        cls = legume.print_backend.__class__
        refuse(mon, "print-backend", V, lambda: legume.set_print_backend(word(rng, ("rich", "base"))))
        mon.check("print-backend-kept", legume.print_backend.__class__ is cls, "changed")
        c = legume.Circle(eps=2., r=.2)
        mon.close("after-backend", [float(np.ravel(c.area)[0])], [np.pi * .04], rtol=1e-12)
    finally:
        legume.set_backend("numpy")


def slab(case, mon, rng):
    from legume.gme import slab_modes as sm
    import legume
    eps = np.array([1., float(rng.uniform(4, 12)), 1.5])
    d = np.array([float(rng.uniform(.2, .6))])
    g = np.array([float(rng.uniform(2, 6))])
    ref = legume.guided_modes(g, eps, d, pol="TE")
    A = (V, AssertionError)
    refuse_any = lambda n, f: mon.raises("refused-" + n, A + (Exception,) if n == "rad-polarisation" else A, f)
    refuse(mon, "slab-polarisation", V, lambda: legume.guided_modes(g, eps, d, pol=word(rng, ("te", "tm"))))
    refuse_any("slab-thicknesses", lambda: legume.rad_modes(3., g, eps, np.append(d, .1), "TE"))
    r = legume.guided_modes(g, eps, d, pol="TE")
    same(mon, "after-slab", np.concatenate([np.ravel(x) for x in r[0]]), np.concatenate([np.ravel(x) for x in ref[0]]))


def run_case(case, mon):
    rng = np.random.default_rng(case["seed"])
    k = case["kind"]
    with np.errstate(all="ignore"):
        if k == "gme-sym":
            gme(case, mon, rng, sym=True)
        else:
            globals()[k](case, mon, rng)


if __name__ == "__main__":
    core.main(sys.modules[__name__])
