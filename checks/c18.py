import os, sys, copy
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import core, geom, refgme
import numpy as np

PROPERTY = "C18"
RULE = ("random structures (1-2 layers, every shape kind, patterned claddings, both truncations) x solver options (exact/interpolated guided "
        "modes, eigh/eigsh, parity, effective permittivities, plane-wave solver) x objectives (frequencies, losses, couplings, unbalance, "
        "fields, permittivity coefficients); autograd gradient with respect to all structure parameters at once against Richardson-extrapolated "
        "central differences of the plain back end, along a random direction of the whole parameter space and along single parameters. "
        "Distinct: structure, options, objective.")
ASSUMPTIONS = ["non-degenerate modes (gap > 2e-3); cases whose differences do not converge (a guided mode appearing, level crossing) are skipped and counted",
               "objectives are independent of the arbitrary phase of the modes",
               "k-vector gradients are only offered by the plane-wave solver"]
CASE_TIMEOUT = 100

OBJ = ("freq", "loss", "rad", "unb", "field", "ft", "pwe-freq", "pwe-field", "eps")


def cases(rng, tier):
    n = 30 if tier == "quick" else 260
    out = []
    for i in range(n):
        for o in OBJ:
            out.append(dict(kind=o, seed=int(rng.integers(1 << 30)), special=("none", "inversion", "uniform", "none", "parity")[i % 5]))
    return out


# --------------------------------------------------------------- parameters
def slots(spec, d=True):
    """Paths of all the real parameters of a structure."""
    out = [("eps_l",), ("eps_u",)]
    def shp(base, s):
        for k in ("eps", "x", "y", "r", "rx", "ry", "phi", "a", "rot"):
            if k in s:
                out.append(base + (k,))
        for k in ("xs", "ys", "as", "bs"):
            for i in range(len(s.get(k, []))):
                out.append(base + (k, i))
    for i, l in enumerate(spec["layers"]):
        if d:
            out.append(("layers", i, "d"))
        out.append(("layers", i, "eps_b"))
        for j, s in enumerate(l.get("shapes", [])):
            shp(("layers", i, "shapes", j), s)
    for c, ss in spec.get("clad", {}).items():
        for j, s in enumerate(ss):
            shp(("clad", c, j), s)
    return out


def get(spec, p):
    for k in p:
        spec = spec[k]
    return spec


def put(spec, paths, vals):
    s = copy.deepcopy(spec)
    for p, v in zip(paths, vals):
        o = s
        for k in p[:-1]:
            o = o[k]
        o[p[-1]] = v
    return s


def shape(s, xp):
    import legume
    t, e = s["t"], s["eps"]
    if t == "circle":
        return legume.Circle(eps=e, x_cent=s["x"], y_cent=s["y"], r=s["r"])
    if t == "ellipse":
        return legume.Ellipse(eps=e, x_cent=s["x"], y_cent=s["y"], rx=s["rx"], ry=s["ry"], phi=s["phi"])
    if t == "poly":
        o = legume.Poly(eps=e, x_edges=xp.array(s["xs"]), y_edges=xp.array(s["ys"]))
    elif t == "square":
        o = legume.Square(eps=e, x_cent=s["x"], y_cent=s["y"], a=s["a"])
    elif t == "hexagon":
        o = legume.Hexagon(eps=e, x_cent=s["x"], y_cent=s["y"], a=s["a"])
    else:
        o = legume.FourierShape(eps=e, x_cent=s["x"], y_cent=s["y"], f_as=xp.array(s["as"]), f_bs=xp.array(s["bs"]), npts=s["npts"])
    if "rot" in s:
        o.rotate(s["rot"])
    return o


def build(spec, xp):
    import legume
    phc = legume.PhotCryst(geom.build_lattice(spec["lattice"]), eps_l=spec["eps_l"], eps_u=spec["eps_u"])
    for l in spec["layers"]:
        phc.add_layer(d=l["d"], eps_b=l["eps_b"])
        for s in l.get("shapes", []):
            phc.add_shape(shape(s, xp))
    for c, ss in spec.get("clad", {}).items():
        for s in ss:
            phc.add_shape(shape(s, xp), cladding=c)
    return phc


# -------------------------------------------------------------------- cases
def setup(case, rng):
    kind, special = case["kind"], case["special"]
    lat = geom.gen_lattice(rng)
    parity = special == "parity" and kind in ("freq", "loss")
    if parity:
        lat = {"kind": "square"}
    nlay = 1 if kind.startswith("pwe") or rng.random() < .6 else 2
    spec = geom.gen_spec(rng, nlay=nlay, nshapes=2, lat=lat, clad_shapes=rng.random() < .25 and not parity and not kind.startswith("pwe"))
    for l in spec["layers"]:
        l["d"] = round(float(rng.uniform(.25, .6)), 4)
    if parity:
        # circles and unrotated squares at the origin: the mirror is kept by all varied parameters
        for l in spec["layers"]:
            l["shapes"] = [geom.gen_shape(rng, s["eps"], size=.25, kinds=("circle", "square")) for s in l["shapes"][:1]]
            for s in l["shapes"]:
                s["x"] = s["y"] = 0.
                s.pop("rot", None)
    elif special == "inversion":
        for l in spec["layers"]:
            if l["shapes"]:
                l["shapes"] = l["shapes"][:1]
                s = geom.gen_shape(rng, l["shapes"][0]["eps"], size=.25, kinds=("circle", "ellipse", "square", "hexagon"))
                s["x"] = s["y"] = 0.
                l["shapes"] = [s]
        spec.pop("clad", None)
    elif special == "uniform":
        # a shape of the background permittivity: the derivative is that of switching on a perturbation
        for s in spec["layers"][0]["shapes"]:
            s["eps"] = spec["layers"][0]["eps_b"]
    for l in [dict(shapes=v) for v in spec.get("clad", {}).values()] + spec["layers"]:
        for s in l.get("shapes", []):
            if s["t"] in ("poly", "square", "hexagon") and not parity and rng.random() < .5:
                s.setdefault("rot", 0.)
    opt = dict(gradients="exact", verbose=False, gmode_tol=1e-12, gmode_step=5e-3,
               gmode_inds=[[0], [0, 1], [1], [0, 1, 2]][int(rng.integers(4))],
               eps_eff=str(rng.choice(["average", "average", "background"])),
               gmode_compute="interp" if rng.random() < .25 else "exact")
    if opt["gmode_compute"] == "interp":
        opt["gmode_npts"] = int(rng.integers(40, 120))
    if rng.random() < .2 and not parity:
        opt["eig_solver"] = "eigsh"
        opt["eig_sigma"] = round(float(rng.uniform(0., .4)), 3)
    if parity:
        opt["kz_symmetry"] = str(rng.choice(["odd", "even", "both"]))
        opt["use_sparse"] = bool(rng.random() < .5)
    trunc = str(rng.choice(["abs", "tbt"] if special == "inversion" else ["abs", "abs", "tbt"]))
    gmax = 1.15 if trunc == "abs" or kind.startswith("pwe") else 1.05
    return spec, opt, trunc, gmax


def run_case(case, mon):
    import legume
    import autograd
    import autograd.numpy as npa
    rng = np.random.default_rng(case["seed"])
    spec, opt, trunc, gmax = setup(case, rng)
    kind = case["kind"]
    parity = "kz_symmetry" in opt
    paths = slots(spec, d=not kind.startswith("pwe"))
    if parity:
        paths = [p for p in paths if p[-1] not in ("x", "y", "rot", "phi")]
    # average eps of clads must stay guiding; slots drawn at random (all of them for the gradient)
    th0 = np.array([float(get(spec, p)) for p in paths])
    pwe = kind.startswith("pwe")
    if pwe and rng.random() < .5:
        paths_k = 2
    else:
        paths_k = 0
    if parity:
        k0 = np.array([rng.uniform(.4, 2.4), 0.])
    else:
        k0 = rng.uniform(.3, 2.4, 2) * rng.choice([-1, 1], 2)
        if kind in ("loss", "rad", "unb"):
            k0 = k0 / 3
    G = geom.gset(spec["lattice"], gmax, trunc if not pwe else "tbt")
    if G is None:
        mon.skip("cutoff on a reciprocal vector")
        mon.trivial()
        return
    numeig = int(max(1, min(6, G.shape[1] // 2)))
    if parity:
        numeig = min(numeig, 2)
    if opt.get("eig_solver") == "eigsh" and (numeig < 2 or G.shape[1] < 6):
        opt.pop("eig_solver")
        opt.pop("eig_sigma")
    x0 = np.concatenate([th0, k0]) if paths_k else th0
    # guided-mode structure must be unambiguous
    if not pwe and kind not in ("ft", "eps"):
        try:
            refgme.guard(refgme.eff_eps(spec, opt["eps_eff"]), [l["d"] for l in spec["layers"]],
                         np.hypot(*(G + k0[:, None])), opt["gmode_inds"], opt["gmode_step"])
        except refgme.Skip as e:
            mon.skip(str(e))
            mon.trivial()
            return
    r = rng.uniform(size=64)         # fixed random numbers used inside the objectives
    sel = {}
    run_im = kind in ("loss", "unb") and rng.random() < .5

    def solve(x, xp):
        phc = build(put(spec, paths, list(x[:len(paths)])), xp)
        g = legume.GuidedModeExp(phc, gmax=gmax, truncate_g=trunc)
        kw = dict(opt)
        if parity:
            kw["angles"] = np.array([0.])
        g.run(kpoints=k0[:, None].copy(), numeig=numeig, compute_im=run_im, **kw)
        return g

    def pick(g):
        """An isolated mode of the unperturbed structure."""
        f = np.array(g.freqs[0])
        gap = np.minimum(np.diff(f, prepend=-1), np.diff(f, append=f[-1] + 5e-2))
        ok = [m for m in range(len(f)) if gap[m] > 4e-3 and f[m] > 2e-2]
        if opt.get("eig_solver") == "eigsh":
            ok = [m for m in ok if 0 < m < len(f) - 1]
        return ok

    def objective(x, xp):
        if kind == "ft":
            phc = build(put(spec, paths, list(x)), xp)
            o = 0.
            lays = [phc.claddings[0]] + phc.layers + [phc.claddings[1]]
            for i, l in enumerate(lays):
                ft = l.compute_ft(np.array(sel["g"]))
                w = np.array(sel["w"])[i]
                o = o + xp.sum(xp.real(ft) * w[0] + xp.imag(ft) * w[1])
            return o
        if kind == "eps":
            phc = build(put(spec, paths, list(x)), xp)
            lays = [phc.claddings[0]] + phc.layers + [phc.claddings[1]]
            o = 0.
            for i, l in enumerate(lays):
                o = o + r[i] * l.eps_avg
                for s in getattr(l, "shapes", []):
                    o = o + r[8 + i] * xp.sum(s.area)
            for i, l in enumerate(phc.layers):
                o = o + r[20 + i] * l.d * l.eps_b + r[30 + i] * l.z_mid
            return xp.sum(o)
        if pwe:
            phc = build(put(spec, paths, list(x[:len(paths)])), xp)
            p = legume.PlaneWaveExp(phc.layers[0], gmax=gmax)
            kk = xp.reshape(x[len(paths):], (2, 1)) if paths_k else k0[:, None].copy()
            p.run(kpoints=kk, pol=sel["pol"], numeig=numeig)
            if kind == "pwe-freq":
                return xp.sum(p.freqs[0][np.array(sel["modes"])] * r[:len(sel["modes"])])
            fld, comps = sel["field"]
            F = p.ft_field_xy(fld, 0, sel["m"])
            gv = np.array(sel["gv"])
            ph = np.exp(1j * (gv[0] * sel["x"] + gv[1] * sel["y"]))
            return sum(xp.abs(xp.sum(F[c] * ph)) ** 2 for c in comps)
        g = solve(x, xp)
        if kind == "freq":
            return xp.sum(g.freqs[0][np.array(sel["modes"])] * r[:len(sel["modes"])])
        m = sel["m"]
        if kind == "loss":
            if run_im:
                return g.freqs_im[0][m] * 10
            return g.compute_rad(0, [m])[0][0] * 10
        if kind == "unb":
            if run_im:
                return g.unbalance_sp[0][m]
            out = g.compute_rad_sp(0, [m])
            return (out[1][0] - .5 * out[2][0]) / out[0][0]
        if kind == "rad":
            out = g.compute_rad(0, [m])
            c = out[1][sel["chan"]][0]
            return xp.sum(xp.abs(c) ** 2 * r[:len(sel["nc"])]) * 10
        fld, comps = sel["field"]
        F = g.ft_field_xy(fld, 0, m, sel["z"])
        gv = np.array(sel["gv"])
        ph = np.exp(1j * (gv[0] * sel["x"] + gv[1] * sel["y"]))
        return sum(xp.abs(xp.sum(F[c] * ph)) ** 2 for c in comps)

    # ------------------------------------------------------------ choices
    if kind == "ft":
        b1, b2 = geom.recip(spec["lattice"])
        n = rng.integers(-3, 4, (2, 7))
        n[:, 0] = 0
        n[:, 1] = (0, 2)
        n[:, 2] = (1, 0)
        gg = np.outer(b1, n[0]) + np.outer(b2, n[1])
        # general vectors, exactly zero or clearly non-zero components
        sel["g"] = gg.tolist()
        if np.any((np.abs(gg) < 1e-7) & (np.abs(gg) > 0)):
            sel["g"] = np.where(np.abs(gg) < 1e-7, 0., gg).tolist()
        sel["w"] = rng.standard_normal((len(spec["layers"]) + 2, 2, 7)).tolist()
    elif pwe:
        sel["pol"] = str(rng.choice(["te", "tm"]))
        p = legume.PlaneWaveExp(build(spec, np).layers[0], gmax=gmax)
        p.run(kpoints=k0[:, None].copy(), pol=sel["pol"], numeig=numeig)
        f = np.array(p.freqs[0])
        gap = np.minimum(np.diff(f, prepend=-1), np.diff(f, append=f[-1] + 5e-2))
        ok = [m for m in range(len(f)) if gap[m] > 4e-3 and f[m] > 2e-2]
        if not ok:
            mon.skip("no isolated mode")
            mon.trivial()
            return
        sel["modes"] = ok
        sel["m"] = int(rng.choice(ok))
        sel["field"] = (str(rng.choice(["H", "D", "E"])), [0, 1, 2])
        sel["x"], sel["y"] = rng.uniform(-.4, .4, 2)
        sel["gv"] = np.array(p.gvec)
    elif kind not in ("eps",):
        try:
            g = solve(th0, np)
        except ValueError as e:
            if not parity or "eigenvalues 'numeig' larger" not in str(e):
                raise
            mon.skip("too few modes of one parity")
            mon.trivial()
            return
        ok = pick(g)
        if not ok:
            mon.skip("no isolated mode")
            mon.trivial()
            return
        sel["modes"] = ok
        m = sel["m"] = int(rng.choice(ok))
        if kind in ("loss", "rad", "unb"):
            f = np.array(g.freqs[0])
            # the losses of a mode far enough from every light line, with open channels
            eps = refgme.eff_eps(spec, opt["eps_eff"])
            gs = np.hypot(*(np.array(g.gvec) + k0[:, None]))
            good = []
            for mm in ok:
                q = np.array([gs / (2 * np.pi * f[mm] * np.sqrt(e)) for e in (eps[0], eps[-1])])
                if np.min(np.abs(q - 1)) > 2e-2 and np.any(q < 1):
                    good.append(mm)
            if not good:
                mon.skip("no radiating mode")
                mon.trivial()
                return
            m = sel["m"] = int(rng.choice(good))
            out = g.compute_rad(0, [m])
            if np.abs(out[0][0]) < 1e-7:
                mon.skip("loss too small")
                mon.trivial()
                return
            if kind == "rad":
                ch = [c for c in ("l_te", "l_tm", "u_te", "u_tm") if len(np.ravel(out[1][c][0])) and np.max(np.abs(out[1][c][0])) > 1e-4]
                if not ch:
                    mon.skip("no radiating mode")
                    mon.trivial()
                    return
                sel["chan"] = str(rng.choice(ch))
                sel["nc"] = list(range(len(np.ravel(out[1][sel["chan"]][0]))))
        else:
            sel["field"] = (str(rng.choice(["H", "D", "E"])), [0, 1, 2])
            sel["x"], sel["y"] = rng.uniform(-.4, .4, 2)
            zs = np.concatenate([[0], np.cumsum([l["d"] for l in spec["layers"]])])
            lo, hi = [(-.4, -.05), (zs[-1] + .05, zs[-1] + .4)][int(rng.integers(2))]
            if rng.random() < .7:
                i = int(rng.integers(len(zs) - 1))
                lo, hi = zs[i] + .03, zs[i + 1] - .03
            sel["z"] = float(rng.uniform(lo, hi))
            sel["gv"] = np.array(g.gvec)

    # ----------------------------------------------------------- gradient
    legume.set_backend("autograd")
    try:
        val, grad = autograd.value_and_grad(lambda x: objective(x, npa))(x0)
    finally:
        legume.set_backend("numpy")
    F = lambda x: float(np.real(objective(np.asarray(x), np)))
    plain = F(x0)
    # the eigensolver's own tolerance enters both values
    mon.close("value-" + kind, [float(np.real(val))], [plain], rtol=1e-6, atol=1e-8, msg="autograd against plain back end")
    if not mon.check("finite-" + kind, np.all(np.isfinite(grad)), "gradient %s for %s" % (grad, paths)):
        return
    mon.check("real-" + kind, np.isrealobj(grad), "complex gradient")

    names = [".".join(map(str, p)) for p in paths] + ["kx", "ky"] * (paths_k > 0)
    dirs = [("all", rng.standard_normal(len(x0)))]
    for i in rng.permutation(len(x0))[:4]:
        e = np.zeros(len(x0))
        e[i] = 1.
        dirs.append((names[i], e))
    for nm, d in dirs:
        # keep what must stay fixed: parameters at a kink of the derivative
        got = float(np.dot(grad, d))
        h = 4e-4 / max(1., np.max(np.abs(d)))
        try:
            D = lambda e: (F(x0 + e * d) - F(x0 - e * d)) / (2 * e)
            a, b, c = D(h), D(h / 2), D(h / 4)
        except (ValueError, RuntimeError):
            mon.skip("not solvable on both sides")
            continue
        r1, r2 = (4 * b - a) / 3, (4 * c - b) / 3
        sc = max(abs(got), abs(r2))
        tol = (1e-4 if kind in ("unb", "rad", "loss", "field", "pwe-field") else 2e-5)
        noise = 1e-8 if kind in ("ft", "eps") else 3e-7
        if kind in ("field", "pwe-field"):
            noise *= 1 + abs(plain)
        if opt.get("eig_solver") == "eigsh":      # its eigenvector derivative solves a linear system iteratively (1e-5)
            noise += 1e-4 * np.max(np.abs(grad)) * max(1., np.max(np.abs(d)))
        if abs(r1 - r2) > .2 * (tol * sc + noise):
            mon.skip("differences not converged")
            continue
        what = [p for p in str(nm).split(".") if not p.isdigit()][-1]
        mon.close("grad-" + kind, [got], [r2], rtol=tol, atol=noise, scale=sc,
                  msg="d/d(%s), options %s %s, special %s" % (nm, trunc, {k: v for k, v in opt.items() if k != "verbose"}, case["special"]))
        mon.event("derivatives_" + kind)
        mon.event("parameter_" + what)
        if abs(r2) > 10 * noise:
            mon.event("nonzero_derivatives")
    mon.event("mode_" + opt["gmode_compute"])
    mon.event("solver_" + opt.get("eig_solver", "eigh"))
    mon.event("truncation_" + trunc)


if __name__ == "__main__":
    core.main(sys.modules[__name__])
