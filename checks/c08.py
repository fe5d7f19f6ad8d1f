import os, sys, copy
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import core, geom, refgme
import numpy as np

PROPERTY = "C08"
RULE = ("random asymmetric crystals (all lattices, shape classes, 1-3 layers, patterned claddings, wells of options) and the "
        "same physical crystal described differently (length scale, translation, rotation, mirror, turned upside down, k "
        "reversed, k shifted by a reciprocal vector with a complete set, other primitive vectors, layers split, shapes "
        "reordered or written as other classes or moved by lattice vectors, permittivity scale, double cell); frequencies, "
        "losses and unbalance of the two runs are compared. Distinct: crystal, transformation, k, options.")
ASSUMPTIONS = ["k is not exactly 0 for transformations that turn the arbitrary polarisation axis at k+G=0",
               "levels closer than 1e-6 are compared through the summed radiation rate"]
KINDS = ("scale", "translate", "rotate", "mirror", "flip", "minusk", "primitive", "split", "reorder", "shapes", "lattvec",
         "epsscale", "supercell", "combo")


def cases(rng, tier):
    n = 13 * len(KINDS) if tier == "quick" else 320 * len(KINDS)
    out = []
    for i in range(n):
        kind = KINDS[i % len(KINDS)]
        spec = geom.gen_spec(rng, nlay=1 + (i // len(KINDS)) % 3, clad_shapes=rng.random() < .25)
        nm = int(rng.integers(1, 5))
        inds = [0] + sorted(int(x) for x in rng.permutation([1, 2, 3, 4])[:nm - 1])
        if rng.random() < .15:
            inds = [1]
        trunc = ("abs", "tbt")[int(rng.integers(2))]
        if kind in ("primitive", "supercell"):
            trunc = "abs"
        s = rng.choice([.6, 2.5, 5.])
        ks = [[round(float(x), 4) for x in rng.uniform(-s, s, 2)] for _ in range(int(rng.integers(1, 3)))]
        out.append(dict(kind=kind, spec=spec, inds=inds, trunc=trunc, ks=ks,
                        gmax=round(float(rng.uniform(1.1, 2.1)), 3),
                        eps_eff=("average", "average", "background")[int(rng.integers(3))],
                        compute=("exact", "exact", "exact", "interp")[int(rng.integers(4))] if kind != "supercell" else "exact",
                        numeig=int(rng.integers(3, 14)), seed=int(rng.integers(1 << 30))))
    return out


# ------------------------------------------------------------ transformations
def map_shape(s, R, t):
    """Shape under r -> R r + t (R orthogonal, maybe improper)."""
    R = np.asarray(R, float)
    det = np.linalg.det(R)
    sc = np.sqrt(abs(det))
    o = dict(s)
    if s["t"] in ("circle", "ellipse"):
        c = R @ [s["x"], s["y"]] + t
        o["x"], o["y"] = float(c[0]), float(c[1])
        if s["t"] == "circle":
            o["r"] = s["r"] * sc
        else:
            ax = R @ [np.cos(s["phi"]), np.sin(s["phi"])]
            o.update(rx=s["rx"] * sc, ry=s["ry"] * sc, phi=float(np.arctan2(ax[1], ax[0])))
        return o
    v = geom.vertices(s) @ R.T + t
    if det < 0:
        v = v[::-1]
    return dict(t="poly", eps=s["eps"], xs=[float(x) for x in v[:, 0]], ys=[float(x) for x in v[:, 1]])


def each_shape(spec, f):
    for la in spec["layers"]:
        la["shapes"] = [f(s) for s in la.get("shapes", [])]
    for c in list(spec.get("clad", {})):
        spec["clad"][c] = [f(s) for s in spec["clad"][c]]


def affine(spec, R, t=(0., 0.)):
    spec = copy.deepcopy(spec)
    a1, a2 = geom.vecs(spec["lattice"])
    R = np.asarray(R, float)
    spec["lattice"] = dict(kind="vec", a1=[float(x) for x in R @ a1], a2=[float(x) for x in R @ a2])
    each_shape(spec, lambda s: map_shape(s, R, np.asarray(t, float)))
    return spec


def equivalent(s, rng):
    """The same region written differently."""
    t = s["t"]
    if t == "circle":
        u = rng.random()
        if u < .5:
            return dict(t="ellipse", eps=s["eps"], x=s["x"], y=s["y"], rx=s["r"], ry=s["r"], phi=float(rng.uniform(-3, 3)))
        return dict(s)
    if t == "ellipse":
        if rng.random() < .5:
            return dict(s, phi=s["phi"] + np.pi * float(rng.choice([-1, 1])))
        return dict(s, rx=s["ry"], ry=s["rx"], phi=s["phi"] + np.pi / 2)
    v = geom.vertices(s)
    j = int(rng.integers(len(v)))
    v = np.roll(v, j, axis=0)
    if rng.random() < .5:       # an extra vertex on an edge
        f = float(rng.uniform(.2, .8))
        v = np.vstack([v, v[-1] * f + v[0] * (1 - f)])
    return dict(t="poly", eps=s["eps"], xs=[float(x) for x in v[:, 0]], ys=[float(x) for x in v[:, 1]])


def halves(s, rng):
    """A convex polygon as two polygons."""
    v = geom.vertices(s)
    n = len(v)
    e = np.roll(v, -1, axis=0) - v
    cr = e[:, 0] * np.roll(e[:, 1], -1) - e[:, 1] * np.roll(e[:, 0], -1)
    if n < 4 or (cr < 0).any():
        return [s]
    i = int(rng.integers(n))
    v = np.roll(v, i, axis=0)
    j = int(rng.integers(2, n - 1))
    mk = lambda w: dict(t="poly", eps=s["eps"], xs=[float(x) for x in w[:, 0]], ys=[float(x) for x in w[:, 1]])
    return [mk(v[:j + 1]), mk(np.vstack([v[j:], v[:1]]))]


def transform(kind, spec, ks, gmax, rng):
    """-> spec2, ks2, gmax2, factor of the frequencies, how points and field amplitudes map"""
    sp = copy.deepcopy(spec)
    ks = np.array(ks, float).T
    if kind == "scale":
        f = float(rng.choice([.35, 2., 1.7, 5., round(10 ** rng.uniform(-2, 2), 4)]))
        sp = affine(sp, f * np.eye(2))
        for la in sp["layers"]:
            la["d"] *= f
        return sp, ks / f, gmax / f, 1 / f, dict(R=f * np.eye(2), z=f, H=f ** -1.5, D=f ** -1.5, E=f ** -1.5)
    if kind == "translate":
        t = rng.uniform(-.6, .6, 2)
        each_shape(sp, lambda s: map_shape(s, np.eye(2), t))
        return sp, ks, gmax, 1., dict(t=t)
    if kind == "rotate":
        a = float(rng.choice([np.pi / 2, np.pi, rng.uniform(-3, 3), rng.uniform(-3, 3)]))
        R = np.array([[np.cos(a), -np.sin(a)], [np.sin(a), np.cos(a)]])
        return affine(sp, R), R @ ks, gmax, 1., dict(R=R)
    if kind == "mirror":
        a = float(rng.choice([0, np.pi / 2, rng.uniform(0, 3)]))
        R = np.array([[np.cos(2 * a), np.sin(2 * a)], [np.sin(2 * a), -np.cos(2 * a)]])
        return affine(sp, R), R @ ks, gmax, 1., dict(R=R)
    if kind == "flip":
        sp["layers"] = sp["layers"][::-1]
        sp["eps_l"], sp["eps_u"] = spec.get("eps_u", 1.), spec.get("eps_l", 1.)
        cl = spec.get("clad", {})
        sp["clad"] = {"l": cl.get("u", []), "u": cl.get("l", [])}
        return sp, ks, gmax, 1., dict(z=-1., z0=sum(l["d"] for l in sp["layers"]))
    if kind == "minusk":
        return sp, -ks, gmax, 1., {}
    if kind == "primitive":
        a1, a2 = geom.vecs(sp["lattice"])
        M = [((1, 1), (0, 1)), ((1, 0), (1, 1)), ((0, 1), (-1, 0)), ((1, 0), (-1, 1)), ((0, 1), (1, 0)), ((2, 1), (1, 1)),
             ((-1, 0), (0, -1))][int(rng.integers(7))]
        n1, n2 = (np.array(m) @ np.array([a1, a2]) for m in M)
        sp["lattice"] = dict(kind="vec", a1=[float(x) for x in n1], a2=[float(x) for x in n2])
        return sp, ks, gmax, 1., {}
    if kind == "split":
        new = []
        for la in sp["layers"]:
            m = int(rng.integers(1, 4))
            fr = rng.dirichlet(np.ones(m) * 3)
            for x in fr:
                new.append(dict(copy.deepcopy(la), d=float(la["d"] * x)))
        if len(new) == len(sp["layers"]):
            la = new[0]
            new = [dict(copy.deepcopy(la), d=.3 * la["d"]), dict(copy.deepcopy(la), d=.7 * la["d"])] + new[1:]
        sp["layers"] = new
        return sp, ks, gmax, 1., {}
    if kind == "reorder":
        for la in sp["layers"]:
            sh = la.get("shapes", [])
            la["shapes"] = [sh[i] for i in rng.permutation(len(sh))]
        for c in sp.get("clad", {}):
            sh = sp["clad"][c]
            sp["clad"][c] = [sh[i] for i in rng.permutation(len(sh))]
        return sp, ks, gmax, 1., {}
    if kind == "shapes":
        def f(shs):
            out = []
            for s in shs:
                if s["t"] not in ("circle", "ellipse") and rng.random() < .4:
                    out += halves(s, rng)
                else:
                    out.append(equivalent(s, rng))
            return out
        for la in sp["layers"]:
            la["shapes"] = f(la.get("shapes", []))
        for c in sp.get("clad", {}):
            sp["clad"][c] = f(sp["clad"][c])
        return sp, ks, gmax, 1., {}
    if kind == "lattvec":
        a1, a2 = geom.vecs(sp["lattice"])
        each_shape(sp, lambda s: map_shape(s, np.eye(2), int(rng.integers(-3, 4)) * a1 + int(rng.integers(-3, 4)) * a2))
        return sp, ks, gmax, 1., {}
    if kind == "epsscale":
        f = float(rng.choice([.6, 2., 3.3]))
        sp["eps_l"] *= f
        sp["eps_u"] *= f
        for la in sp["layers"]:
            la["eps_b"] *= f
        each_shape(sp, lambda s: dict(s, eps=s["eps"] * f))
        return sp, ks, gmax, 1 / np.sqrt(f), dict(D=np.sqrt(f), E=1 / np.sqrt(f))
    raise KeyError(kind)


# --------------------------------------------------------------------- running
def solve(spec, ks, gmax, trunc, inds, eps_eff, compute, numeig, step):
    import legume
    gme = legume.GuidedModeExp(geom.build_phc(spec), gmax=gmax, truncate_g=trunc)
    gme.run(kpoints=np.array(ks, float), gmode_inds=list(inds), numeig=numeig, eps_eff=eps_eff, gmode_compute=compute,
            gmode_npts=400, gmode_step=step, verbose=False)
    return gme


def rate(f, fi):
    """sum |c|^2 (in units of (2 pi)^2) from the imaginary frequency."""
    return 2 * fi * np.sqrt(f ** 2 + fi ** 2)


def run_case(case, mon):
    rng = np.random.default_rng(case["seed"])
    spec, ks, inds = case["spec"], case["ks"], case["inds"]
    kinds = [case["kind"]]
    if case["kind"] == "combo":
        kinds = [str(x) for x in rng.permutation(["scale", "translate", "rotate", "mirror", "flip", "minusk", "split",
                                                  "shapes", "lattvec", "epsscale"])[:3]]
    step = 1e-3
    G = geom.gset(spec["lattice"], case["gmax"], case["trunc"])
    eps = refgme.eff_eps(spec, case["eps_eff"])
    if G is None:
        mon.skip("a reciprocal vector on the cutoff")
        return mon.trivial()
    gs = [np.hypot(*(G + np.array(k)[:, None])) for k in ks]
    try:
        nb = min(refgme.guard(eps, [l["d"] for l in spec["layers"]], g, inds, step) for g in gs)
    except refgme.Skip as e:
        mon.skip(str(e))
        return mon.trivial()
    mon.sig((case["kind"], spec, ks, inds))
    if case["kind"] == "supercell":
        return supercell(case, mon, nb, eps, step)
    sp2, k2, g2, f = copy.deepcopy(spec), np.array(ks, float).T, case["gmax"], 1.
    pm = dict(R=np.eye(2), t=np.zeros(2), z=1., z0=0., H=1., D=1., E=1.)
    for kd in kinds:
        sp2, k2, g2, ff, q = transform(kd, sp2, k2.T, g2, rng)
        f *= ff
        R, zf = q.get("R", np.eye(2)), q.get("z", 1.)
        pm = dict(R=R @ pm["R"], t=R @ pm["t"] + q.get("t", 0.), z=zf * pm["z"], z0=zf * pm["z0"] + q.get("z0", 0.),
                  **{c: pm[c] * q.get(c, 1.) for c in "HDE"})
    numeig = min(case["numeig"], nb)
    # the interpolation error depends on the layers' own centres, and interpolated fields are no longer real
    # up to a phase where a mode turns evanescent in a layer
    if "split" in kinds or "minusk" in kinds:
        case = dict(case, compute="exact")
    a = solve(spec, np.array(ks).T, case["gmax"], case["trunc"], inds, case["eps_eff"], case["compute"], numeig, step)
    b = solve(sp2, k2, g2, case["trunc"], inds, case["eps_eff"], case["compute"], numeig, step * f)
    # the library may keep a different number of plane waves only if the set is on its edge
    if a.gvec.shape != b.gvec.shape:
        mon.check("plane-waves", False, "%s %s: %d and %d plane waves" % (kinds, case["trunc"], a.gvec.shape[1], b.gvec.shape[1]))
        return
    compare(mon, case, kinds, a, b, f, eps, gs, numeig, tol=2e-7 if case["compute"] == "exact" else 1e-6,
            flip="flip" in kinds)
    if case["compute"] == "exact":
        fields(mon, case, kinds, a, b, pm, rng)


def strength(gme, f, ik, m, r, z):
    """Length of the field vector at the points r (2, n), z."""
    ft = np.array(gme.ft_field_xy(f, ik, m, z))
    F = ft @ np.exp(1j * (np.asarray(gme.gvec).T @ r))
    return np.sqrt(np.sum(np.abs(F) ** 2, axis=0))


def fields(mon, case, kinds, a, b, pm, rng):
    """The same mode has the same field, at the transformed points."""
    ik = int(rng.integers(len(case["ks"])))
    fa = np.asarray(a.freqs[ik])
    d = np.cumsum([0.] + [l["d"] for l in case["spec"]["layers"]])
    for m in range(len(fa)):
        # the last one has an unknown neighbour
        gap = min([abs(fa[m] - x) for i, x in enumerate(fa) if i != m], default=1.)
        if gap < 2e-3 or m == len(fa) - 1 or fa[m] < 1e-2 or rng.random() < .5:
            continue
        r = rng.uniform(-1, 1, (2, 4))
        z = float(rng.uniform(-.3, d[-1] + .3))
        if np.min(np.abs(z - d)) < 1e-3:
            continue
        for c in "HDE":
            x = strength(a, c, ik, m, r, z)
            y = strength(b, c, ik, m, pm["R"] @ r + pm["t"][:, None], pm["z"] * z + pm["z0"]) / pm[c]
            mon.close("field-" + c + "-" + "+".join(kinds), y, x, rtol=2e-5, atol=1e-9, scale=x.max(), msg="mode %d, z=%.3f" % (m, z))
        mon.event("fields_compared")


def compare(mon, case, kinds, a, b, f, eps, gs, numeig, tol, flip):
    for ik in range(len(gs)):
        fa, fb = np.asarray(a.freqs[ik]), np.asarray(b.freqs[ik]) / f
        ok = mon.close("freqs-" + "+".join(kinds), fb, fa, rtol=tol, atol=tol,
                       msg="%s k%d" % (case["trunc"], ik))
        mon.event("levels", len(fa))
        if not ok:
            continue
        ra = rate(fa, np.asarray(a.freqs_im[ik]))
        rb = rate(fb, np.asarray(b.freqs_im[ik]) / f)
        ua, ub = np.asarray(a.unbalance_sp[ik]), np.asarray(b.unbalance_sp[ik])
        lo, n = 0, len(fa)
        while lo < n:
            hi = lo + 1
            while hi < n and fa[hi] - fa[hi - 1] < 1e-6:
                hi += 1
            if hi == n and hi - lo > 1:     # maybe cut by numeig
                mon.event("cut_levels")
                break
            edge = min(np.min(np.abs(gs[ik] / (2 * np.pi * fa[lo] * np.sqrt(e)) - 1)) for e in (eps[0], eps[-1]))
            gap = 1.
            if lo:
                gap = min(gap, fa[lo] - fa[lo - 1])
            if hi < n:
                gap = min(gap, fa[hi] - fa[hi - 1])
            if edge < 1e-4:
                mon.event("levels_at_light_line")
            else:
                sa, sb = ra[lo:hi].sum(), rb[lo:hi].sum()
                t = 2e-6 + 1e-9 / gap       # error of an amplitude
                mon.close("losses-" + "+".join(kinds), [sb], [sa], rtol=1e-5, atol=2 * np.sqrt(abs(sa)) * t + t * t,
                          msg="f=%.6f %s" % (fa[lo], case["trunc"]))
                mon.event("losses_compared")
                if hi - lo == 1 and sa > 1e-6 and case["compute"] == "exact":
                    mon.close("unbalance-" + "+".join(kinds), [ub[lo]], [ua[lo]], rtol=0, atol=1e-5 + 4 * t / np.sqrt(sa))
                    mon.event("unbalance_compared")
            lo = hi


def supercell(case, mon, nb, eps, step):
    """A doubled cell contains every level of the single cell at the same k."""
    spec, ks, inds = case["spec"], np.array(case["ks"], float).T, case["inds"]
    rng = np.random.default_rng(case["seed"])
    a1, a2 = geom.vecs(spec["lattice"])
    n1, n2 = [(2 * a1, a2), (a1, 2 * a2), (a1 + a2, a1 - a2)][int(rng.integers(3))]
    sh = a1 if n1[0] != a1[0] or n1[1] != a1[1] else a2
    sp = copy.deepcopy(spec)
    sp["lattice"] = dict(kind="vec", a1=[float(x) for x in n1], a2=[float(x) for x in n2])
    for la in sp["layers"]:
        la["shapes"] = [s2 for s in la.get("shapes", []) for s2 in (dict(s), map_shape(s, np.eye(2), sh))]
    for c in sp.get("clad", {}):
        sp["clad"][c] = [s2 for s in sp["clad"][c] for s2 in (dict(s), map_shape(s, np.eye(2), sh))]
    G2 = geom.gset(sp["lattice"], case["gmax"], "abs")
    if G2 is None:
        mon.skip("a reciprocal vector on the cutoff")
        return mon.trivial()
    gs = [np.hypot(*(G2 + k[:, None])) for k in ks.T]
    try:
        nbs = [refgme.guard(eps, [l["d"] for l in spec["layers"]], g, inds, step) for g in gs]
        nb2 = min(nbs)
    except refgme.Skip as e:
        mon.skip(str(e))
        return mon.trivial()
    numeig = min(case["numeig"], nb)
    a = solve(spec, ks, case["gmax"], "abs", inds, case["eps_eff"], "exact", numeig, step)
    b = solve(sp, ks, case["gmax"], "abs", inds, case["eps_eff"], "exact", nb2, step)
    for ik in range(ks.shape[1]):
        fb = np.asarray(b.freqs[ik])
        for i, w in enumerate(np.asarray(a.freqs[ik])):
            j = int(np.argmin(np.abs(fb - w)))
            if nbs[ik] > nb2 and w > fb[-1] - 1e-6:      # beyond the levels asked for
                mon.event("levels_beyond")
                continue
            mon.close("supercell-freqs", [fb[j]], [w], rtol=2e-7, atol=2e-7)
            mon.event("folded_levels")
            near = np.sum(np.abs(fb - w) < 1e-6)
            edge = min(np.min(np.abs(gs[ik] / (2 * np.pi * w * np.sqrt(e)) - 1)) for e in (eps[0], eps[-1]))
            gap = np.min(np.abs(np.delete(fb, j) - fb[j])) if len(fb) > 1 else 1.
            if near == 1 and edge > 1e-4:
                ra, rb = rate(w, a.freqs_im[ik][i]), rate(fb[j], b.freqs_im[ik][j])
                mon.close("supercell-losses", [rb], [ra], rtol=0, atol=1e-5 * ra + 5e-6 * np.sqrt(abs(ra)) + 1e-11 + 1e-9 / gap * ra)
                mon.event("losses_compared")


if __name__ == "__main__":
    core.main(sys.modules[__name__])
