import os, sys, copy, inspect, tempfile, shutil, warnings
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
os.environ.setdefault("MPLBACKEND", "Agg")
from harness import core, geom, refgme
import numpy as np

PROPERTY = "C14"
RULE = ("random histories of 5-9 public calls (constructors, shape and crystal queries, all solvers with their queries, slab modes, plots, exports, optimisers, "
        "gradients) that share crystals and argument objects (arrays, lists, dictionaries, tuples; partly read-only arrays); every call is "
        "bracketed by deep snapshots of all argument objects, of all crystals of the session, of finished solvers, of the default arguments and class attributes of "
        "the package and of the process state; at the end each call is repeated on freshly built crystals with pristine copies of the arguments and must "
        "give the same numbers. Distinct: the history.")
ASSUMPTIONS = ["private attributes (leading underscore) may be used as caches", "plots may leave new figures open"]
CASE_TIMEOUT = 120
SIMPLE = (int, float, complex, str, bytes, bool, type(None), np.generic)


# ----------------------------------------------------------------- snapshots
def freeze(v, depth=0, seen=()):
    if isinstance(v, SIMPLE):
        return (type(v).__name__, repr(v))
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            return ("oarray", v.shape, tuple(freeze(x, depth + 1, seen) for x in v.ravel()))
        return ("array", str(v.dtype), v.shape, v.tobytes())
    if id(v) in seen or depth > 12:
        return ("ref", type(v).__name__)
    seen = seen + (id(v),)
    if isinstance(v, dict):
        return ("dict", tuple((freeze(k), freeze(x, depth + 1, seen)) for k, x in sorted(v.items(), key=lambda kv: repr(kv[0]))))
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, tuple(freeze(x, depth + 1, seen) for x in v))
    if isinstance(v, (set, frozenset)):
        return ("set", tuple(sorted(map(repr, v))))
    if type(v).__module__.startswith("legume") and hasattr(v, "__dict__"):
        return ("obj", type(v).__name__, tuple((n, freeze(x, depth + 1, seen)) for n, x in sorted(vars(v).items()) if n[:1] != "_" and not callable(x)))
    return ("opaque", type(v).__name__)


def diff(a, b, path=""):
    if a == b:
        return None
    if isinstance(a, tuple) and isinstance(b, tuple) and a[:1] == b[:1] and len(a) == len(b) and a and a[0] != "array":
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, path + (".%s" % x[0] if isinstance(x, tuple) and x and isinstance(x[0], str) else "[%d]" % i))
            if d:
                return d
    return "%s: %s -> %s" % (path[-80:], str(a)[:80], str(b)[:80])


def crystal_state(phc):
    """What a user sees of a crystal."""
    return ("phc", freeze(phc), repr(phc), tuple(repr(l) for l in phc.layers), tuple((l.z_min, l.z_max) for l in phc.layers),
            tuple(tuple(id(s) for s in l.shapes) for l in list(phc.layers) + [c for c in phc.claddings]))


def package_state():
    out = {}
    for mn, m in sorted(sys.modules.items()):
        if mn != "legume" and not mn.startswith("legume."):
            continue
        for n, o in sorted(vars(m).items()):
            if inspect.isfunction(o) and o.__module__.startswith("legume"):
                out[mn, n] = freeze([o.__defaults__, o.__kwdefaults__])
            elif inspect.isclass(o) and o.__module__.startswith("legume"):
                for an, a in sorted(vars(o).items()):
                    f = a.__func__ if isinstance(a, (staticmethod, classmethod)) else a
                    if inspect.isfunction(f):
                        out[mn, n, an] = freeze([f.__defaults__, f.__kwdefaults__])
                    elif an[:1] != "_" and isinstance(a, (list, dict, np.ndarray, set) + SIMPLE):
                        out[mn, n, an] = freeze(a)
            elif n[:1] != "_" and isinstance(o, (list, dict, set, np.ndarray, float, int, str)):
                out[mn, n] = freeze(o)
    return out


def process_state():
    import legume
    import matplotlib
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        rc = {k: repr(v) for k, v in matplotlib.rcParams.items() if not k.startswith("backend")}
    st = np.random.get_state()
    return dict(cwd=os.getcwd(), env=dict(os.environ), geterr=np.geterr(), rc=rc, random=(st[1].tobytes(), st[2]), prt=repr(np.get_printoptions()),
                backend=repr(legume.backend), printer=repr(legume.print_backend), rec=sys.getrecursionlimit())


def where(a, b):
    return [k for k in a if a[k] != b.get(k)] + [k for k in b if k not in a]


# ---------------------------------------------------------------- results
def flat(r, out=None, path=""):
    out = [] if out is None else out
    if isinstance(r, dict):
        for k in sorted(r, key=repr):
            flat(r[k], out, path + "/%s" % (k,))
    elif isinstance(r, (list, tuple)) and not all(isinstance(x, (int, float)) for x in r):
        for i, x in enumerate(r):
            flat(x, out, path + "/%d" % i)
    elif isinstance(r, (str, type(None))):
        out.append((path, r))
    else:
        out.append((path, np.asarray(r)))
    return out


def same(mon, key, A, B, msg):
    a, b = flat(A), flat(B)
    if not mon.check("repeat-shape-" + key, [(p, np.shape(x)) for p, x in a] == [(p, np.shape(x)) for p, x in b], "results of another shape (%s)" % msg):
        return
    for (p, x), (_, y) in zip(a, b):
        if isinstance(x, str) or x is None:
            mon.check("repeat-" + key, x == y, "%s: %r -> %r (%s)" % (p, x, y, msg))
        elif not np.array_equal(x, y, equal_nan=x.dtype.kind in "fc"):
            mon.event("not_bit_identical")
            mon.close("repeat-" + key, y, x, rtol=1e-7, atol=1e-7, msg=p + " " + msg)
    mon.event("repeated_calls")


# ---------------------------------------------------------------- operations
# op(session, phc, args) -> result ; args are made by mk_<op>(rng, spec)
def arr(rng, x):
    x = np.array(x)
    if rng.random() < .3:
        x.flags.writeable = False
    return x


def rk(rng, n=None):
    return arr(rng, np.round(rng.uniform(-3, 3, (2, n or int(rng.integers(1, 4)))), 4))


def mk_lattice(rng, spec):
    a1, a2 = [np.round(v[:2], 6) for v in geom.vecs(spec["lattice"])[:2]]
    a2 = [float(x) for x in a2] if rng.random() < .5 else arr(rng, a2)
    pts = [["G", "X", "M", "G"], ["G", "K", "M"], ["M", arr(rng, [.3, .4]), "G"], [arr(rng, [0., 0.]), arr(rng, [1., .2]), "G", arr(rng, [.1, .1])]][int(rng.integers(4))]
    return dict(a1=arr(rng, a1), a2=a2, name=str(rng.choice(["square", "hexagonal"])), pts=pts,
                ns=[int(x) for x in rng.integers(1, 6, len(pts) - 1)] if rng.random() < .7 else [int(rng.integers(2, 6))],
                symm_g=[float(x) for x in rng.uniform(-3, 3, 2)], periods=[int(rng.integers(1, 4)), int(rng.integers(1, 4))])


def op_lattice(phc, a):
    import legume
    r = []
    l = legume.Lattice(a["a1"], a["a2"])
    r += [l.a1, l.a2, l.b1, l.b2, l.xy_grid(Nx=4, Ny=5), l.xy_grid(Nx=4, Ny=5, periods=a["periods"])]
    n = legume.Lattice(a["name"])
    for lat in (n, phc.lattice):
        try:
            p = lat.bz_path(a["pts"], a["ns"])
            r += [p["kpoints"], p["indexes"], p["angles"], list(map(str, p["labels"]))]
            r += [lat.bz_path(a["pts"], a["ns"], symm_g=a["symm_g"])["kpoints"]]
        except ValueError:
            r.append("refused")
    return r


def mk_shapes(rng, spec):
    v = geom.vertices(geom.gen_shape(rng, 3., kinds=("poly",)))
    xs, ys = [float(x) for x in v[:, 0]], [float(y) for y in v[:, 1]]
    ar = rng.random() < .5
    g = rng.uniform(-9, 9, (2, 6))
    return dict(xs=arr(rng, xs) if ar else xs, ys=arr(rng, ys) if ar else ys, fa=arr(rng, [.5, .05, .02]), fb=arr(rng, [.03, .01]),
                gvec=arr(rng, g) if rng.random() < .7 else g.tolist(), x=arr(rng, rng.uniform(-.5, .5, (3, 4))), y=arr(rng, rng.uniform(-.5, .5, (3, 4))),
                rot=float(rng.uniform(-3, 3)), rotate=bool(rng.random() < .5), bad=bool(rng.random() < .3))


def op_shapes(phc, a):
    import legume
    r = []
    ss = [legume.Poly(eps=2., x_edges=a["xs"], y_edges=a["ys"]), legume.FourierShape(3., .1, .2, f_as=a["fa"], f_bs=a["fb"], npts=20), legume.FourierShape(eps=2., f_as=np.array([.4])),
          legume.Circle(2., .1, .1, .2), legume.Ellipse(3., .1, 0, .2, .1, .4), legume.Square(3., .1, .1, .2), legume.Hexagon(2., 0, .1, .2)]
    if a["rotate"]:
        ss[0].rotate(a["rot"])
    for s in ss:
        r += [s.compute_ft(a["gvec"]), s.is_inside(a["x"], a["y"]), s.extent()]
    lay = legume.ShapesLayer(phc.lattice, eps_b=4.)
    L = list(ss[:3])
    lay.add_shape(L)
    lay.add_shape(ss[3])
    lay.add_shape(tuple(ss[4:6]))
    if a["bad"]:
        try:
            lay.add_shape([ss[6], "disc"])
        except ValueError:
            pass
    r += [len(L), len(lay.shapes), lay.compute_ft(np.array(a["gvec"])), lay.get_eps((a["x"], a["y"]))]
    return r


def mk_crystal(rng, spec):
    p = [arr(rng, rng.uniform(-1, 1, (3, 3))) for _ in range(3)]
    return dict(points=tuple(p) if rng.random() < .5 else list(p), g=arr(rng, np.hstack([rng.uniform(-9, 9, (2, 5)), np.zeros((2, 1))])),
                osc=[1e17, 2e17, 0.] if rng.random() < .5 else arr(rng, [1e17, 1e17, 2e16]), vmax=.01)


def op_crystal(phc, a):
    r = [phc.get_eps(a["points"]), phc.get_eps_bounds(), phc.z_grid(Nz=4)]
    for l in phc.layers:
        r += [l.compute_ft(a["g"]), l.compute_exc_ft(a["g"], a["vmax"]), l.get_eps(a["points"][:2])]
    import legume
    q = legume.PhotCryst(phc.lattice)         # another crystal over the same lattice
    q.add_layer(d=.4, eps_b=3.)
    q.add_shape([legume.Circle(2., r=.1), legume.Circle(4., r=.05)])
    q.add_shape(legume.Circle(2., r=.1), cladding=0)
    q.add_qw(z=.2, V_shapes=0., a=5e-7, M=1e-31, E0=1., loss=1e-4, osc_str=a["osc"])
    q.add_qw(z=.3, V_shapes=0., a=5e-7, M=1e-31, E0=1., loss=1e-4, osc_str=a["osc"])
    r += [repr(q).replace("\n", " "), len(q.qws), len(q.layers[0].shapes), [list(map(float, w.osc_str)) for w in q.qws]]
    return r


def mk_gme(rng, spec):
    inds = [[0], [1, 0], [0, 1, 2], [2, 0, 1]][int(rng.integers(4))]
    k = rk(rng)
    o = dict(gmode_inds=inds if rng.random() < .6 else arr(rng, inds), numeig=int(rng.integers(1, 5)), verbose=False, gmode_step=1e-3)
    if rng.random() < .4:
        o["compute_im"] = False
    if rng.random() < .3:
        o.update(gmode_compute="interp", gmode_npts=80)
    if rng.random() < .2:
        o["eps_eff"] = "background"
    if rng.random() < .2:
        o["gradients"] = "approx"
    return dict(k=k, o=o, gmax=round(float(rng.uniform(1.05, 1.7)), 3), trunc=str(rng.choice(["abs", "tbt"])), ik=int(rng.integers(k.shape[1])),
                minds=[0] if rng.random() < .5 else arr(rng, [0]), z=float(rng.uniform(-.2, .5)), xg=arr(rng, np.linspace(-.4, .4, 4)), yg=arr(rng, np.linspace(-.5, .3, 3)),
                zg=arr(rng, np.linspace(-.3, .6, 5)), twice=bool(rng.random() < .3), fld=str(rng.choice(["h", "d", "e"])), comp=str(rng.choice(["xyz", "xz", "y"])))


def gme_res(g):
    return dict(f=np.array(g.freqs), fi=np.array(g.freqs_im), u=np.array(g.unbalance_sp), k=np.array(g.kpoints), gvec=np.array(g.gvec), s=np.array(g.kz_symms),
                rc=[np.abs(x) for c in sorted(g.rad_coup) for r in g.rad_coup[c] for x in r] and "coupled")


def op_gme(phc, a, keep=None):
    import legume
    g = legume.GuidedModeExp(phc, gmax=a["gmax"], truncate_g=a["trunc"])
    try:
        for _ in range(1 + a["twice"]):
            g.run(kpoints=a["k"], **a["o"])
    except (ValueError, RuntimeError) as e:
        return type(e).__name__
    r = [gme_res(g)]
    b = freeze(r)
    vb = freeze([np.array(v) for v in g.eigvecs])
    i = a["ik"]
    r2 = [g.compute_rad(i, a["minds"])[0], g.get_eps_xy(a["z"], xgrid=a["xg"], ygrid=a["yg"])[0], g.get_eps_xy(a["z"], Nx=3, Ny=4)[0]]
    for f in (lambda **kw: g.get_field_xy(a["fld"], i, 0, a["z"], component=a["comp"], **kw)[0],):
        r2 += [np.abs(v) for _, v in sorted(f(xgrid=a["xg"], ygrid=a["yg"]).items())] if gap(g, i) else []
    for f in (g.get_field_xz, g.get_field_yz):
        fi = f(a["fld"], i, 0, .1, a["xg"], a["zg"], component=a["comp"])[0]
        r2 += [np.abs(v) for _, v in sorted(fi.items())] if gap(g, i) else []
    if keep is not None:
        keep.append((g, gme_res))
    r.append("reads-changed-results" if freeze([gme_res(g)]) != b or freeze([np.array(v) for v in g.eigvecs]) != vb else "ok")
    return r + r2


def gap(g, i):
    f = np.array(g.freqs)[i]
    return (len(f) < 2 or f[1] - f[0] > 1e-4) and f[0] > 1e-3 and len(f) > 1


def mk_sym(rng, spec):
    lat = spec["lattice"]["kind"]
    pts = {"square": ["G", "X"], "hexagonal": ["G", "M"]}.get(lat, ["G", np.array([1.1, 0.])])
    return dict(pts=pts, ns=[int(rng.integers(2, 5))], symm=str(rng.choice(["odd", "even", "both"])), inds=[[0, 1], [1, 0]][int(rng.integers(2))],
                sparse=bool(rng.random() < .5), thr=1e-6)


def op_sym(phc, a, keep=None):
    import legume
    g = legume.GuidedModeExp(phc, gmax=1.2, truncate_g="abs")
    path = phc.lattice.bz_path(a["pts"], a["ns"])
    b = freeze(path)
    try:
        g.run(kpoints=path["kpoints"], angles=path["angles"], kz_symmetry=a["symm"], gmode_inds=a["inds"], numeig=2, verbose=False, use_sparse=a["sparse"], symm_thr=a["thr"])
    except (ValueError, RuntimeError) as e:
        return [type(e).__name__, freeze(path) == b]
    return [gme_res(g), "ok" if freeze(path) == b else "path-changed"]


def mk_pwe(rng, spec):
    return dict(k=rk(rng), pol=str(rng.choice(["te", "tm"])), n=int(rng.integers(1, 4)), layer=int(rng.integers(len(spec["layers"]))), comp=str(rng.choice(["xyz", "xy", "z"])))


def op_pwe(phc, a, keep=None):
    import legume
    p = legume.PlaneWaveExp(phc.layers[a["layer"]], gmax=2.05)
    p.run(kpoints=a["k"], pol=a["pol"], numeig=a["n"])
    res = lambda q: dict(f=np.array(q.freqs), k=np.array(q.kpoints), g=np.array(q.gvec))
    r = [res(p), p.get_eps_xy(Nx=4, Ny=3)[0]]
    b = freeze(res(p))
    p.get_field_xy("h", 0, 0, component=a["comp"], Nx=4, Ny=3)
    r.append("ok" if freeze(res(p)) == b else "reads-changed-results")
    if keep is not None:
        keep.append((p, res))
    return r


def well(rng, spec):
    D = sum(l["d"] for l in spec["layers"])
    return dict(z=float(rng.uniform(.05, .95)) * D, V_shapes=float(rng.uniform(-.02, .02)), a=float(rng.uniform(2e-7, 8e-7)), M=9e-32, E0=float(rng.uniform(.6, 2)),
                loss=1e-4, osc_str=[1e18, 2e18, 1e17] if rng.random() < .5 else arr(rng, [1e18, 1e18, 0.]))


def mk_ese(rng, spec):
    return dict(w=well(rng, spec), k=rk(rng), n=int(rng.integers(1, 4)), trunc=str(rng.choice(["abs", "tbt"])))


def op_ese(phc, a, keep=None):
    import legume
    w = a["w"]
    e = legume.ExcitonSchroedEq(phc, z=w["z"], V_shapes=w["V_shapes"], a=w["a"], M=w["M"], E0=w["E0"], loss=w["loss"], osc_str=w["osc_str"], gmax=1.3, truncate_g=a["trunc"])
    e.run(kpoints=a["k"], numeig_ex=a["n"], verbose_ex=False)
    res = lambda q: dict(e=np.array(q.eners), k=np.array(q.kpoints), g=np.array(q.gvec))
    b = freeze(res(e))
    r = [res(e), e.get_pot_xy(Nx=4, Ny=4)[0]]
    e.get_wavef_xy(0, 0, Nx=3, Ny=4)
    r.append("ok" if freeze(res(e)) == b else "reads-changed-results")
    if keep is not None:
        keep.append((e, res))
    return r


def mk_pol(rng, spec):
    return dict(ws=[well(rng, spec) for _ in range(1 + int(rng.integers(2)))], k=rk(rng), k2=rk(rng, 1), go=dict(gmode_inds=[[0], [1, 0]][int(rng.integers(2))], numeig=2, verbose=False),
                eo=dict(numeig_ex=2, verbose_ex=False), default=bool(rng.random() < .25), kp=bool(rng.random() < .3))


def op_pol(phc, a, keep=None):
    import legume
    ws = [dict(w, a=a["ws"][0]["a"]) for w in a["ws"]]
    q = legume.PhotCryst(phc.lattice, eps_l=1., eps_u=1.)
    q.add_layer(d=sum(l.d for l in phc.layers), eps_b=9.)
    q.add_shape(legume.Circle(2., r=.2))
    for w in ws:
        q.add_qw(**w)
    b = crystal_state(q)
    go, eo = a["go"], a["eo"]
    if a["kp"]:
        go = dict(go, kpoints=a["k2"])
    gb = freeze([go, eo])
    h = legume.HopfieldPol(q, gmax=1.1)
    res = lambda p: dict(e=np.array(p.eners), i=np.array(p.eners_im), x=np.array(p.fractions_ex), p=np.array(p.fractions_ph), k=np.array(p.kpoints))
    out = []
    try:
        h.run(gme_options=go, exc_options=eo, kpoints=a["k"], verbose=False)
        out.append(res(h))
        h2 = legume.HopfieldPol(q, gmax=1.1)
        f0 = freeze(res(h))
        if a["default"]:
            h2.run(kpoints=a["k2"])
        else:
            h2.run(gme_options=go, exc_options=eo, kpoints=a["k2"], verbose=False)
        out += [res(h2), "ok" if freeze(res(h)) == f0 else "second solver changed the first"]
    except (ValueError, RuntimeError) as e:
        out.append(type(e).__name__)
    if freeze([go, eo]) != gb:
        out.append("options-changed")
    if crystal_state(q) != b:
        out.append("crystal-changed")
    if keep is not None and len(out) > 2:
        keep.append((h, res))
    return out


def mk_slab(rng, spec):
    n = 1 + int(rng.integers(3))
    return dict(g=arr(rng, np.sort(rng.uniform(.5, 8, int(rng.integers(1, 5))))), eps=arr(rng, np.concatenate([[1.2], rng.uniform(4, 12, n), [2.]])), d=arr(rng, rng.uniform(.2, .6, n)),
                pol=str(rng.choice(["TE", "tm"])), n=int(rng.integers(1, 4)), om=float(rng.uniform(3, 6)), gr=arr(rng, [.3, .8]))


def op_slab(phc, a):
    import legume
    om, co = legume.guided_modes(a["g"], a["eps"], a["d"], n_modes=a["n"], pol=a["pol"])
    r = [np.array(x) for x in om] + [np.abs(np.array(c)) for c in co]
    for c in (0, 1):
        r += [np.abs(np.array(legume.rad_modes(a["om"], a["gr"], a["eps"], a["d"], a["pol"].lower(), c)[j])) for j in (0, 1)]
    return r


def mk_viz(rng, spec):
    return dict(which=str(rng.choice(["bands", "bandspwe", "eps", "eps3", "shapes", "structure", "epsft", "field", "reciprocal", "wavef"])), k=rk(rng, 2), inds=[1, 0],
                clim=[1., 9.], figsize=[3., 3.] if rng.random() < .5 else (3., 3.), levels=[2., 4.] if rng.random() < .5 else arr(rng, [3., 5.]), b=[bool(x) for x in rng.random(6) < .5], w=well(rng, spec))


def op_viz(phc, a):
    import legume
    import matplotlib.pyplot as plt
    v, b, w = legume.viz, a["b"], a["which"]
    ax = plt.subplots()[1] if b[0] else None
    if w == "eps":
        v.eps(phc.layers[0], Nx=5, Ny=5, ax=ax, clim=a["clim"], cbar=b[1])
        return ["drawn"]
    if w == "eps3":
        kw = dict(Nx=5, Ny=5) if b[1] else dict(Nx=4, Ny=4)
        v.eps_xy(phc, z=.1, ax=ax, clim=a["clim"], plot=b[2] or True, **kw)
        v.eps_xz(phc, y=.1, Nx=4, Nz=4, clim=a["clim"])
        v.eps_yz(phc, x=.1, Ny=4, Nz=4, clim=a["clim"])
        return ["drawn"]
    if w == "shapes":
        v.shapes(phc.layers[0], ax=ax)
        return ["drawn"]
    if w == "structure":
        v.structure(phc, Nx=5, Ny=5, Nz=5, cladding=b[1], xz=b[2], cbar=b[3], figsize=a["figsize"])
        return ["drawn"]
    if w == "bandspwe":
        p = legume.PlaneWaveExp(phc.layers[0], gmax=2.05)
        p.run(kpoints=a["k"], numeig=2)
        s = freeze([np.array(p.freqs), np.array(p.kpoints)])
        v.bands(p, k_units=b[1])
        v.field(p, "h", 0, 0, component="z", N1=4, N2=4, eps_levels=a["levels"])
        v.eps_ft(p, Nx=5, Ny=5, figsize=a["figsize"])
        return ["ok" if freeze([np.array(p.freqs), np.array(p.kpoints)]) == s else "solver-changed"]
    if w == "wavef":
        q = a["w"]
        e = legume.ExcitonSchroedEq(phc, z=q["z"], V_shapes=q["V_shapes"], a=q["a"], M=q["M"], E0=q["E0"], loss=q["loss"], osc_str=q["osc_str"], gmax=1.3)
        e.run(kpoints=a["k"], numeig_ex=2, verbose_ex=False)
        s = freeze([np.array(e.eners), np.array(e.kpoints)])
        v.wavef(e, 0, 0, N1=4, N2=4)
        v.pot_ft(e, Nx=5, Ny=5, figsize=a["figsize"])
        return ["ok" if freeze([np.array(e.eners), np.array(e.kpoints)]) == s else "solver-changed"]
    g = legume.GuidedModeExp(phc, gmax=1.2)
    if w == "reciprocal":
        v.reciprocal(g)
        return ["drawn"]
    if w == "epsft":
        v.eps_ft(g, Nx=5, Ny=5, cladding=b[1], figsize=a["figsize"])
        return ["drawn"]
    try:
        g.run(kpoints=a["k"], gmode_inds=a["inds"], numeig=2, verbose=False, compute_im=b[4])
    except (ValueError, RuntimeError) as e:
        return type(e).__name__
    im = np.array(g.freqs_im).size
    s = freeze(gme_res(g)) if im else None
    s2 = freeze([np.array(g.freqs), np.array(g.kpoints), [np.array(x) for x in g.eigvecs]])
    if w == "bands":
        v.bands(g, Q=b[1], cone=b[2], k_units=b[3], ax=ax, figsize=a["figsize"])
    else:
        v.field(g, "d", 0, 0, z=.1, component="xz", N1=5, N2=4, eps=b[1], eps_levels=a["levels"], periodic=b[2])
        v.field(g, "h", 0, 0, y=.1, N1=5, N2=4)
    ok = freeze([np.array(g.freqs), np.array(g.kpoints), [np.array(x) for x in g.eigvecs]]) == s2 and (not im or freeze(gme_res(g)) == s)
    return ["ok" if ok else "solver-changed"]


def mk_gds(rng, spec):
    return dict(raster=rng.random((8, 9)).round(3), levels=[.5] if rng.random() < .5 else [.3, .6], lv=arr(rng, [.4, .5]), which=int(rng.integers(3)))


def op_gds(phc, a):
    from legume import gds
    d = tempfile.mkdtemp()
    try:
        fn = os.path.join(d, "a.gds")
        if a["which"] == 0:
            gds.generate_gds(phc, fn)
        else:
            gds.generate_gds_raster(phc.lattice, a["raster"], fn, levels=a["levels"] if a["which"] == 1 else a["lv"])
        return ["written" if os.listdir(d) == ["a.gds"] else "other files"]
    finally:
        shutil.rmtree(d)


def mk_optim(rng, spec):
    n = 3
    bd_ = [None, [-1., 1.], (-1., 1.), [(-1., .5), (-.5, 1.), (-2., 2.)]][int(rng.integers(4))]
    return dict(p=rng.uniform(-.4, .4, n) if rng.random() < .5 else arr(rng, rng.uniform(-.4, .4, n)), bounds=bd_, args=[(), (rng.normal(size=n),), [rng.normal(size=n)]][int(rng.integers(3))],
                A=rng.normal(size=(4, n)), self_=bool(rng.random() < .3), N=int(rng.integers(1, 6)), order=bool(rng.random() < .5))


def op_optim(phc, a):
    from legume.minimize import Minimize
    import autograd.numpy as npa

    def of(p, *args):
        c = args[0] if args and isinstance(args[0], np.ndarray) else 0.
        return npa.sum((npa.dot(a["A"], p) - .3)**2) + npa.sum((p - c)**4)
    opt = Minimize(of)
    r = []
    for how in (("adam", "lbfgs") if a["order"] else ("lbfgs", "adam")) * 2:
        args = tuple(a["args"]) if how == "lbfgs" else a["args"]
        x, l = getattr(opt, how)(a["p"], Nepochs=a["N"], bounds=a["bounds"], args=args, pass_self=a["self_"])[:2]
        r += [np.array(x), np.array(l)]
    for i in (0, 1):
        r.append("same" if np.array_equal(r[2 * i], r[2 * i + 4]) and np.array_equal(r[2 * i + 1], r[2 * i + 5]) else "second start differs")
    return r


def mk_grad(rng, spec):
    return dict(p=arr(rng, rng.uniform(.1, .3, 2)), k=rk(rng, 1), inds=[[0], [1, 0]][int(rng.integers(2))], g=str(rng.choice(["exact", "approx"])), x=arr(rng, rng.normal(size=(2, 2))))


def op_grad(phc, a):
    import legume
    import autograd
    import autograd.numpy as npa
    legume.set_backend("autograd")
    try:
        def f(p):
            q = legume.PhotCryst(phc.lattice)
            q.add_layer(d=.5, eps_b=10.)
            q.add_shape(legume.Circle(2., r=p[0], x_cent=p[1] - .2))
            g = legume.GuidedModeExp(q, gmax=1.1)
            g.run(kpoints=a["k"], gmode_inds=a["inds"], numeig=1, verbose=False, compute_im=False, gradients=a["g"])
            return g.freqs[0, 0]
        v, d = autograd.value_and_grad(f)(a["p"])
        num = legume.utils.grad_num(lambda x: np.sum(x**2), a["x"])
        return [v, d, num]
    except (ValueError, RuntimeError) as e:
        return type(e).__name__
    finally:
        legume.set_backend("numpy")


OPS = ["lattice", "shapes", "crystal", "gme", "gme", "sym", "pwe", "ese", "pol", "slab", "viz", "viz", "gds", "optim", "grad"]
KEEPERS = {"gme", "sym", "pwe", "ese", "pol"}


def cases(rng, tier):
    n = 220 if tier == "quick" else 1500
    out = []
    for i in range(n):
        specs = [geom.gen_spec(rng, nlay=1 + int(rng.integers(2)), clad_shapes=rng.random() < .3) for _ in range(1 + int(rng.integers(2)))]
        if rng.random() < .4:
            specs[0] = dict(lattice={"kind": ("square", "hexagonal")[int(rng.integers(2))]}, eps_l=1., eps_u=round(float(rng.uniform(1, 2)), 3),
                            layers=[dict(d=.4, eps_b=10., shapes=[dict(t="circle", eps=2., x=0., y=0., r=.2)])])
        ops = [OPS[int(x)] for x in rng.integers(0, len(OPS), int(rng.integers(5, 10)))]
        if i < len(OPS):
            ops[0] = OPS[i]
        out.append(dict(specs=specs, ops=ops, on=[int(rng.integers(len(specs))) for _ in ops], seed=int(rng.integers(1 << 30)), share=bool(rng.random() < .6)))
    return out


def bless(v):
    """A deep copy with writeable arrays."""
    return copy.deepcopy(v)


def run_case(case, mon):
    import legume
    import legume.minimize
    import matplotlib.pyplot as plt
    legume.set_backend("numpy")
    rng = np.random.default_rng(case["seed"])
    mon.sig(case)
    for s in case["specs"]:
        if geom.gset(s["lattice"], 1.1, "abs") is None:
            mon.skip("a reciprocal vector on the cutoff")
            return mon.trivial()
    np.random.seed(case["seed"] % (1 << 31))
    with warnings.catch_warnings(), core.Quiet():
        warnings.simplefilter("ignore")
        phcs = [geom.build_phc(s) for s in case["specs"]]
        args, pristine, results, keep = {}, {}, [], []
        plt.close("all")
        for j, (op, c) in enumerate(zip(case["ops"], case["on"])):
            if not (case["share"] and (op, c) in args):
                args[op, c] = globals()["mk_" + op](rng, case["specs"][c])
                pristine[op, c] = bless(args[op, c])
            fn = globals()["op_" + op]
            mine = []
            kept = [(o, f, freeze(f(o))) for o, f in keep[-3:]]
            A0 = {k: freeze(v) for k, v in args.items()}
            C0 = [crystal_state(p) for p in phcs]
            P0, S0 = package_state(), process_state()
            r = fn(phcs[c], args[op, c], mine) if op in KEEPERS else fn(phcs[c], args[op, c])
            if r is None:
                r = []
            for k, v in args.items():
                d = diff(A0[k], freeze(v))
                mon.check("args-" + op, d is None, "%s changed an argument of %s: %s" % (op, k[0], d))
            for i, p in enumerate(phcs):
                d = diff(C0[i], crystal_state(p))
                mon.check("crystal-" + op, d is None, "%s on crystal %d changed crystal %d: %s" % (op, c, i, d))
            for o, f, s in kept:
                d = diff(s, freeze(f(o)))
                mon.check("solver-" + op, d is None, "%s changed the results of an earlier %s: %s" % (op, type(o).__name__, d))
            P1, S1 = package_state(), process_state()
            mon.check("defaults-" + op, P0 == P1, "defaults or attributes changed: %s" % where(P0, P1)[:4])
            for k in S0:
                if not (k == "random" and op == "grad"):
                    mon.check("process-" + k + "-" + op, S0[k] == S1[k], "%s changed" % k + (": %s" % where(S0[k], S1[k])[:3] if isinstance(S0[k], dict) else ""))
            for _, x in flat(r):
                if isinstance(x, str):
                    mon.check("inside-" + op, not any(w in x for w in ("changed", "differs", "other")), "%s: %s (args %s)" % (op, x, core.jsonable(pristine[op, c])))
            results.append(r)
            keep += mine
            mon.event("watched_calls")
            mon.event("watched_" + op)
            mon.event("snapshots", len(A0) + len(C0) + len(kept) + len(P0) + len(S0))
            plt.close("all")
        # repetition on fresh crystals with pristine arguments
        order = [int(x) for x in rng.permutation(len(results))[:5]]
        seen = {}
        for j in order:
            op, c = case["ops"][j], case["on"][j]
            if case["share"] is False and [(o, d) for o, d in zip(case["ops"], case["on"])].count((op, c)) > 1:
                continue        # arguments were made anew
            fresh = geom.build_phc(case["specs"][c])
            r = globals()["op_" + op](fresh, bless(pristine[op, c])) or []
            same(mon, op, r, results[j], "%s, call %d of %s" % (op, j, case["ops"]))
            plt.close("all")


if __name__ == "__main__":
    core.main(sys.modules[__name__])
