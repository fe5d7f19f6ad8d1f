import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import core, geom
import numpy as np

PROPERTY = "C11"
RULE = ("mirror-symmetric random crystals (square/hexagonal/rectangular lattices, 1-2 layers and claddings, shapes on the mirror or in "
        "mirrored pairs) x every high-symmetry direction (also through bz_path) x guided orders x truncation x dense/sparse; even, odd, both "
        "and plain runs are compared and the parity is measured on the returned fields; asymmetric crystals, off-line wave vectors, "
        "wrong lattices/angles/solvers must be refused. Distinct: crystal, line, options.")
ASSUMPTIONS = ["parity +1 (even): E(r) = S E(S r) and H(r) = -S H(S r) for the mirror S containing k and z",
               "at k=0 with a mirror not containing the x axis a refusal is accepted (gauge of the G=0 slab mode)",
               "losses of modes closer than 1e-7 in frequency only compared as sums"]


def _mirror(s, th):
    """Mirror image of a shape description at the line through the origin at angle th."""
    c, si = np.cos(2 * th), np.sin(2 * th)
    q = dict(s)
    if s["t"] in ("circle", "ellipse"):
        q["x"], q["y"] = float(c * s["x"] + si * s["y"]), float(si * s["x"] - c * s["y"])
        if s["t"] == "ellipse":
            q["phi"] = 2 * th - s["phi"]
        return q
    v = geom.vertices(s)
    w = np.array([c * v[:, 0] + si * v[:, 1], si * v[:, 0] - c * v[:, 1]]).T[::-1]
    return dict(t="poly", eps=s["eps"], xs=[float(a) for a in w[:, 0]], ys=[float(a) for a in w[:, 1]])


def _onaxis(rng, th, eps):
    """A shape that is its own mirror image."""
    d = float(rng.uniform(-.25, .25))
    x, y = d * np.cos(th), d * np.sin(th)
    t = rng.choice(["circle", "ellipse", "poly"])
    if t == "circle":
        return dict(t="circle", eps=eps, x=float(x), y=float(y), r=float(rng.uniform(.08, .25)))
    if t == "ellipse":
        return dict(t="ellipse", eps=eps, x=float(x), y=float(y), rx=float(rng.uniform(.08, .25)), ry=float(rng.uniform(.08, .25)),
                    phi=float(th + rng.choice([0, .5 * np.pi])))
    # isosceles triangle with its axis along the line
    h, w = rng.uniform(.1, .25, 2)
    loc = np.array([[-h, -w], [h, 0], [-h, w]])
    R = np.array([[np.cos(th), -np.sin(th)], [np.sin(th), np.cos(th)]])
    v = loc @ R.T + [x, y]
    return dict(t="poly", eps=eps, xs=[float(a) for a in v[:, 0]], ys=[float(a) for a in v[:, 1]])


def _shapes(rng, th, lo, hi, n):
    out = []
    for _ in range(n):
        e = round(float(rng.uniform(lo, hi)), 3)
        if rng.random() < .5:
            out.append(_onaxis(rng, th, e))
        else:
            s = geom.gen_shape(rng, e, size=.17, kinds=("circle", "ellipse", "poly", "square"))
            out += [s, _mirror(s, th)]
    return out


def _full(rng, lk):
    """Shapes around the origin that have every mirror line of the lattice."""
    e = round(float(rng.uniform(1, 6)), 3)
    r = round(float(rng.uniform(.12, .3)), 3)
    t = int(rng.integers(3))
    if t == 0:
        return [dict(t="circle", eps=e, x=0., y=0., r=r)]
    n = {"square": 4, "hexagonal": 6, "rect": 2}[lk]
    if t == 1 and n == 2:
        return [dict(t="ellipse", eps=e, x=0., y=0., rx=r, ry=.2, phi=0.)]
    if t == 1:
        a = 2 * np.pi * np.arange(n) / n + float(rng.choice([0, np.pi / n]))
        return [dict(t="poly", eps=e, xs=[float(x) for x in r * np.cos(a)], ys=[float(x) for x in r * np.sin(a)])]
    a = 2 * np.pi * np.arange(n) / n + float(rng.choice([0, np.pi / n]))
    return [dict(t="circle", eps=e, x=float(.25 * np.cos(b)), y=float(.25 * np.sin(b)), r=.09) for b in a]


def cases(rng, tier):
    n = 60 if tier == "quick" else 1500
    out = []
    for i in range(n):
        lk = ("square", "hexagonal", "rect")[i % 3]
        lat = geom.gen_lattice(rng, kinds=(lk,))
        step = {"square": 45, "hexagonal": 30, "rect": 90}[lk]
        ang = int(rng.integers(-360 // step, 360 // step + 1)) * step if i % 2 else int(rng.choice([0, step, 90, 2 * step]))
        th = np.radians(ang)
        lays = [dict(d=round(float(rng.uniform(.2, .6)), 3), eps_b=round(float(rng.uniform(7, 13)), 3),
                     shapes=_shapes(rng, th, 1., 6., int(rng.integers(1, 3)))) for _ in range(1 + i % 2)]
        spec = dict(lattice=lat, eps_l=round(float(rng.uniform(1, 2.5)), 3), eps_u=round(float(rng.uniform(1, 2.5)), 3), layers=lays)
        if i % 5 == 0:
            spec["clad"] = {str(rng.choice(["l", "u"])): _shapes(rng, th, 1., 3., 1)}
        nm = int(rng.integers(1, 5))
        inds = sorted(int(x) for x in rng.permutation(5)[:nm])
        if i % 7 == 0:
            inds = [1, 0]
        kk = [round(float(x), 4) for x in rng.uniform(.15, 4.5, int(rng.integers(1, 3)))]
        if i % 6 == 0:
            kk.append(0.)
        out.append(dict(kind="sym", spec=spec, ang=ang, kk=kk, inds=inds, gmax=round(float(rng.uniform(1.25, 2.3)), 3),
                        trunc="tbt" if (lk != "hexagonal" or ang % 180 == 0 or ang % 180 == 90) and rng.random() < .3 else "abs",
                        numeig=int(rng.integers(2, 7)), compute="exact" if rng.random() < .8 else "interp",
                        path=bool(rng.random() < .3), seed=int(rng.integers(1 << 30))))
    # one run along several mirror lines of a crystal that has them all
    for i in range(14 if tier == "quick" else 250):
        lk = ("square", "hexagonal", "rect")[i % 3]
        step = {"square": 45, "hexagonal": 30, "rect": 90}[lk]
        lays = [dict(d=round(float(rng.uniform(.2, .6)), 3), eps_b=round(float(rng.uniform(7, 13)), 3),
                     shapes=_full(rng, lk)) for _ in range(1 + i % 2)]
        spec = dict(lattice=geom.gen_lattice(rng, kinds=(lk,)), eps_l=round(float(rng.uniform(1, 2.5)), 3),
                    eps_u=round(float(rng.uniform(1, 2.5)), 3), layers=lays)
        if i % 5 == 0:
            spec["clad"] = {str(rng.choice(["l", "u"])): _full(rng, lk)}
        nm = int(rng.integers(2, 5))
        na = int(rng.integers(2, 5))
        angs = [int(a) * step for a in rng.integers(-360 // step, 360 // step + 1, na)]
        angs[1] = angs[0] + (step if angs[0] <= 0 else -step)
        out.append(dict(kind="sym", spec=spec, ang=angs[0], angs=angs, kk=[round(float(x), 4) for x in rng.uniform(.3, 3.5, na)],
                        inds=sorted(int(x) for x in rng.permutation(5)[:nm]), gmax=round(float(rng.uniform(1.25, 2.1)), 3), trunc="abs",
                        numeig=int(rng.integers(2, 7)), compute="exact" if rng.random() < .8 else "interp", path=False,
                        bz=bool(i % 3 == 1), seed=int(rng.integers(1 << 30))))
    for i in range(24 if tier == "quick" else 400):
        lk = ("square", "hexagonal", "rect")[i % 3]
        lat = geom.gen_lattice(rng, kinds=(lk,), long=0.)
        step = {"square": 45, "hexagonal": 30, "rect": 90}[lk]
        ang = int(rng.integers(-4, 5)) * step
        th = np.radians(ang)
        e = round(float(rng.uniform(1, 5)), 3)
        if i % 2:
            s = dict(t="circle", eps=e, x=float(-.17 * np.sin(th)), y=float(.17 * np.cos(th)), r=.15)
            other = _onaxis(rng, th, 3.)
            shs = [s, other][:1 + i // 2 % 2]
            extra = s
        else:
            # a rotated ellipse whose axes are off the line (inversion symmetric, so the matrix stays real)
            a = float(rng.uniform(.3, 1.2))
            shs = [dict(t="ellipse", eps=e, x=0., y=0., rx=.3, ry=.14, phi=float(th + a))]
        out.append(dict(kind="refuse", lattice=lat, ang=ang, shapes=shs, sparse=bool(i % 4 > 1), mode=str(rng.choice(["both", "even", "odd"])),
                        seed=int(rng.integers(1 << 30))))
    return out


def parity(gv, F, th, axial):
    """best-fitting parity and residual: F (3,NG) Fourier components of a vector field."""
    c, s = np.cos(2 * th), np.sin(2 * th)
    S = np.array([[c, s, 0], [s, -c, 0], [0, 0, 1.]])
    Sg = S[:2, :2] @ gv
    idx = np.argmin((gv[0][None, :] - Sg[0][:, None]) ** 2 + (gv[1][None, :] - Sg[1][:, None]) ** 2, axis=1)
    if np.max(np.abs(gv[:, idx] - Sg)) > 1e-6:
        return None, None
    T = np.zeros_like(F)
    T[:, idx] = S @ F
    if axial:
        T = -T
    n = np.max(np.abs(F)) + 1e-30
    r = [np.max(np.abs(T - F)) / n, np.max(np.abs(T + F)) / n]
    return (1, r[0]) if r[0] < r[1] else (-1, r[1])


def near(f, sigma, n):
    f = np.asarray(f)
    return np.sort(f[np.argsort(np.abs(f - sigma), kind="stable")[:n]])


def run_case(case, mon):
    import legume
    rng = np.random.default_rng(case["seed"])
    if case["kind"] == "refuse":
        return refuse(case, mon, rng)
    spec, ang = case["spec"], case["ang"]
    th = np.radians(ang)
    kk = list(case["kk"])
    angles = np.array([float(a) for a in case.get("angs", [ang] * len(kk))])
    k = np.array([np.array(kk) * np.cos(np.radians(angles)), np.array(kk) * np.sin(np.radians(angles))])
    k[np.abs(k) < 1e-15] = 0.
    phc = geom.build_phc(spec)
    if case["path"]:
        lat = phc.lattice
        p0, p1 = float(rng.uniform(.3, .6)), float(rng.uniform(1.2, 3))
        pth = lat.bz_path([[p0 * np.cos(th), p0 * np.sin(th)], [p1 * np.cos(th), p1 * np.sin(th)]], [2])
        k, angles = pth["kpoints"], pth["angles"]
        kk = list(np.hypot(*k))
    if case.get("bz"):
        # two pieces of path, with the angles legume itself reports
        seg = {"square": ([[.4, 0.], "X"], ["M", [.3, .3]]), "hexagonal": ([[0., .4], [0., 1.2]], ["K", [.4, 0.]])}
        seg = seg.get(spec["lattice"]["kind"])
        if seg:
            ps = [phc.lattice.bz_path(q, [n]) for q, n in zip(seg, (2, 1))]
            k = np.hstack([q["kpoints"] for q in ps])
            angles = np.concatenate([q["angles"] for q in ps])
            kk = list(np.hypot(*k))
    angles = np.asarray(angles, dtype=float)
    ths = np.radians(angles)
    if len(set(np.round(angles % 180, 6))) > 1:
        mon.event("runs_over_several_lines")
    gme = legume.GuidedModeExp(phc, gmax=case["gmax"], truncate_g=case["trunc"])
    if kk[-1] == 0:
        NGG = gme.gvec.shape[1]
    sigma = float(rng.choice([0., 0., .2, .45, .8]))
    opt = dict(gmode_inds=list(case["inds"]), verbose=False, gmode_step=5e-3, gmode_compute=case["compute"], eig_sigma=sigma)
    numeig = case["numeig"]
    try:
        gme.run(kpoints=k.copy(), numeig=1, compute_im=False, **opt)
    except RuntimeError as e:
        if "No guided modes" in str(e):
            mon.skip("requested slab modes below cutoff")      # judged by C07
            mon.trivial()
            return
        raise
    N = min(int(x) for x in gme.N_basis)
    if N < 3:
        mon.trivial()
        return
    numeig = min(numeig, N)
    gme.run(kpoints=k.copy(), numeig=numeig, compute_im=True, **opt)
    f0, l0, u0 = np.array(gme.freqs), np.array(gme.freqs_im), np.array(gme.unbalance_sp)
    mon.check("plain-labels", len(gme.kz_symms) == 0, gme.kz_symms)
    gme.run(kpoints=k.copy(), numeig=N, compute_im=False, **opt)
    fall = np.array(gme.freqs)
    gamma = min(kk) < 1e-9
    thr = 1e-6      # the documented default 1e-8 is within rounding for some structures
    if gamma and ang % 180:
        thr = 1e-5

    def run(mode, sparse, n, im=True):
        g = legume.GuidedModeExp(phc, gmax=case["gmax"], truncate_g=case["trunc"])
        g.run(kpoints=k.copy(), angles=angles, kz_symmetry=mode, use_sparse=sparse, numeig=n, compute_im=im, symm_thr=thr, **opt)
        return g
    gm = {}
    try:
        for sp in (False, True):
            gm["both", sp] = run("both", sp, numeig)
    except ValueError as e:
        if "purely odd or even" in str(e):
            mon.skip("one parity empty")
            mon.trivial()
            return
        if gamma and ang % 180:
            mon.skip("refused at Gamma")
            mon.trivial()
            return
        mon.check("symmetric-refused", False, "%s" % e)
        return
    at = 2e-4 if gamma else 1e-6 if case["compute"] == "exact" else 1e-6
    zi = np.concatenate([[0.], np.cumsum([l["d"] for l in spec["layers"]])])

    def cmp_loss(tag, f, li, un, ref=None):
        rf, rl, ru = ref or (f0, l0, u0)
        for ik in range(len(kk)):
            if kk[ik] < 1e-9:
                continue
            fa = rf[ik]
            gap = np.diff(fall[ik][:fa.size + 1]) if fall.shape[1] > fa.size else np.append(np.diff(fall[ik]), 1.)
            for m in range(fa.size):
                d = np.min(np.abs(np.delete(fall[ik], np.argmin(np.abs(fall[ik] - fa[m]))) - fa[m])) if N > 1 else 1.
                if d < 1e-6:
                    mon.skip("near-degenerate modes")
                    continue
                mon.close(tag + "-losses", li[ik][m], rl[ik][m], rtol=1e-5, atol=1e-9)
                if rl[ik][m] > 1e-9:
                    mon.close(tag + "-unbalance", un[ik][m], ru[ik][m], rtol=0, atol=1e-5)
                mon.event("losses_compared")

    for sp in (False, True):
        g = gm["both", sp]
        tag = "both-sparse" if sp else "both-dense"
        mon.close(tag + "-freqs", g.freqs, f0, rtol=1e-7, atol=at)
        mon.check(tag + "-ascending", np.all(np.diff(np.array(g.freqs), axis=1) >= -1e-9), g.freqs)
        s = np.array(g.kz_symms)
        if mon.check(tag + "-labels", s.shape == f0.shape and np.all(np.abs(s) == 1), s):
            cmp_loss(tag, np.array(g.freqs), np.array(g.freqs_im), np.array(g.unbalance_sp))
    gb = run("both", bool(rng.random() < .5), N, im=False)
    mon.close("union-freqs", gb.freqs, fall, rtol=1e-7, atol=at)
    sb = np.array(gb.kz_symms)
    fb = np.array(gb.freqs)
    cnt = {1: min(int(np.sum(x == 1)) for x in sb), -1: min(int(np.sum(x == -1)) for x in sb)}
    fams = [("both", gm["both", False]), ("both", gm["both", True])]
    for mode, s in (("even", 1), ("odd", -1)):
        n = min(numeig, cnt[s])
        if n < 1:
            continue
        for sp in ((False, True) if rng.random() < .5 else (True,)):
            g = run(mode.upper() if rng.random() < .2 else mode, sp, n)
            fams.append((mode, g))
            want = np.array([near(fb[ik][sb[ik] == s], sigma, n) for ik in range(len(kk))])
            mon.close(mode + "-freqs", g.freqs, want, rtol=1e-7, atol=at)
            ss = np.array(g.kz_symms)
            mon.check(mode + "-labels", ss.shape == want.shape and np.all(ss == s), ss)
            # losses of the even/odd runs against those of the 'both' run
            gd = gm["both", False]
            for ik in range(len(kk)):
                if kk[ik] < 1e-9:
                    continue
                sel = np.flatnonzero(np.array(gd.kz_symms)[ik] == s)
                for m in sel:
                    j = int(np.argmin(np.abs(np.array(g.freqs)[ik] - gd.freqs[ik][m])))
                    if abs(g.freqs[ik][j] - gd.freqs[ik][m]) > 1e-6:
                        continue        # outside the selection of the one-parity run
                    same = [q for q in range(fb.shape[1]) if sb[ik][q] == s]
                    ff = fb[ik][same]
                    o = np.delete(ff, np.argmin(np.abs(ff - gd.freqs[ik][m])))
                    if o.size and np.min(np.abs(o - gd.freqs[ik][m])) < 1e-6:
                        continue
                    mon.close(mode + "-losses", g.freqs_im[ik][j], gd.freqs_im[ik][m], rtol=1e-5, atol=1e-9)
                    if gd.freqs_im[ik][m] > 1e-9:
                        mon.close(mode + "-unbalance", g.unbalance_sp[ik][j], gd.unbalance_sp[ik][m], rtol=0, atol=1e-5)
            mon.event("even_odd_runs")
    for mode, g in fams:
        lab = np.array(g.kz_symms)
        nn = np.array(g.freqs).shape[1]
        for ik in range(len(kk)):
            ev = np.array(g.eigvecs[ik])
            mon.close("orthonormal", ev.conj().T @ ev, np.eye(ev.shape[1]), rtol=0, atol=1e-8)
            for m in range(nn):
                if g.freqs[ik][m] < 1e-3:
                    continue
                z = float(rng.uniform(-.3, zi[-1] + .3))
                for fld, ax in (("H", True), ("D", False), ("E", False)):
                    if fld == "E" and rng.random() < .7:
                        continue
                    F = np.array(g.ft_field_xy(fld, ik, m, z))
                    p, r = parity(np.asarray(g.gvec), F, ths[ik], ax)
                    if p is None:
                        mon.skip("plane waves not mirror symmetric")
                        continue
                    if np.max(np.abs(F)) < 1e-6:
                        continue
                    tol = 5e-3 if kk[ik] < 1e-9 else 1e-4
                    mon.check("parity-" + fld, r < tol, "%s mode %d k %s: residual %.3g" % (mode, m, k[:, ik], r))
                    if r < tol:
                        mon.check("label-" + fld, p == lab[ik][m], "%s mode %d k %s: field parity %d, label %s" % (mode, m, k[:, ik], p, lab[ik][m]))
                        mon.event("parities_measured")
    mon.event("k_points", len(kk))


def refuse(case, mon, rng):
    import legume
    lat, ang = case["lattice"], case["ang"]
    th = np.radians(ang)

    def phc_of(lattice, shapes):
        p = legume.PhotCryst(lattice)
        p.add_layer(d=.4, eps_b=11.)
        for s in shapes:
            p.add_shape(geom.build_shape(s))
        return p
    kk = 1.1
    k = np.array([[kk * np.cos(th)], [kk * np.sin(th)]])
    opt = dict(gmode_inds=[0, 1, 2], numeig=3, verbose=False, gmode_step=5e-3)
    L = geom.build_lattice(lat)
    g = legume.GuidedModeExp(phc_of(L, case["shapes"]), gmax=2.05)
    a = np.array([float(ang)])
    sp, mode = case["sparse"], case["mode"]
    mon.raises("asymmetric-crystal", ValueError, lambda: g.run(kpoints=k, angles=a, kz_symmetry=mode, use_sparse=sp, **opt))
    mon.check("nothing-stored", len(g.freqs) == 0 and len(g.kz_symms) == 0, "results after refusal")
    # symmetric crystal but a wave vector off the line
    sym = [dict(t="circle", eps=2., x=0., y=0., r=.25)]
    g = legume.GuidedModeExp(phc_of(L, sym), gmax=2.05)
    off = np.radians(ang + float(rng.uniform(7, 13)))
    ko = np.array([[kk * np.cos(off)], [kk * np.sin(off)]])
    mon.raises("off-line-k", ValueError, lambda: g.run(kpoints=ko, angles=a, kz_symmetry=mode, use_sparse=sp, **opt))
    # an angle that is no high-symmetry direction
    mon.raises("off-line-angle", ValueError,
               lambda: g.run(kpoints=ko, angles=np.array([float(np.degrees(off))]), kz_symmetry=mode, use_sparse=sp, **opt))
    # half-way between the high-symmetry lines, and just beside one
    step = {"square": 45, "hexagonal": 30}.get(lat["kind"], 90)
    wrong = [ang + float(rng.choice([.5, -.5])) * step, ang + float(rng.choice([.5, -.5])) * 30 if step != 30 else ang + 45.,
             ang + float(rng.choice([.3, -.3]))]
    for w in wrong:
        if min(abs((w % step)), abs(step - w % step)) < 1e-6:
            continue
        kw = kk * np.array([[np.cos(np.radians(w))], [np.sin(np.radians(w))]])
        mon.raises("wrong-angle", ValueError, lambda: g.run(kpoints=kw, angles=np.array([float(w)]), kz_symmetry=mode, use_sparse=sp, **opt))
        # one good and one bad wave vector in the same run
        mon.raises("one-wrong-angle", ValueError, lambda: g.run(kpoints=np.hstack((k, kw)), angles=np.array([float(ang), float(w)]),
                                                                kz_symmetry=mode, use_sparse=sp, **opt))
    mon.raises("no-angles", ValueError, lambda: g.run(kpoints=k, kz_symmetry=mode, **opt))
    mon.raises("bad-symmetry", ValueError, lambda: g.run(kpoints=k, angles=a, kz_symmetry="evn", **opt))
    mon.raises("eigsh", ValueError, lambda: g.run(kpoints=k, angles=a, kz_symmetry=mode, eig_solver="eigsh", **opt))
    g.run(kpoints=k, angles=a, kz_symmetry="both", use_sparse=sp, **opt)
    fr = np.array(g.freqs)
    h = legume.GuidedModeExp(phc_of(L, sym), gmax=2.05)
    h.run(kpoints=k, **opt)
    mon.close("after-refusals", fr, h.freqs, rtol=1e-7, atol=1e-7)
    # lattice without the mirror
    ob = legume.Lattice([1., 0.], [.37, .8])
    g = legume.GuidedModeExp(phc_of(ob, sym), gmax=2.05)
    mon.raises("oblique-lattice", ValueError, lambda: g.run(kpoints=k, angles=a, kz_symmetry=mode, use_sparse=sp, **opt))
    mon.event("refusals", 7)


if __name__ == "__main__":
    core.main(sys.modules[__name__])
