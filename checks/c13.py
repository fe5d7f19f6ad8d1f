import os, sys, copy
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import core, geom, refgme, cmp
import numpy as np

PROPERTY = "C13"
RULE = ("random histories (3-7 calls) on one guided-mode, plane-wave, exciton or polariton solver: runs with different k "
        "points, options and outputs, refused runs of several kinds (at different depths), reads of fields, permittivities, "
        "losses of subsets; after every successful run - and again after the reads - all public results are compared with a "
        "freshly built solver that only does the last run. Distinct: the history.")
ASSUMPTIONS = ["after a refused run the solver may show either nothing or exactly the results of the previous run"]


def cases(rng, tier):
    n = 320 if tier == "quick" else 5500
    out = []
    for i in range(n):
        sol = ("gme", "gme", "gme", "gmesym", "pwe", "ese", "gme", "pol")[i % 8]
        spec = geom.gen_spec(rng, nlay=1 + int(rng.integers(2)), clad_shapes=rng.random() < .2)
        if sol == "gmesym":
            spec["lattice"] = {"kind": str(rng.choice(["square", "hexagonal"]))}
            for l in spec["layers"]:
                l["shapes"] = [dict(t="circle", eps=1.5, x=0., y=0., r=round(float(rng.uniform(.15, .3)), 3))]
            spec.pop("clad", None)
        out.append(dict(sol=sol, spec=spec, gmax=round(float(rng.uniform(1.05, 1.8)), 3),
                        trunc=("abs", "tbt")[int(rng.integers(2))], steps=int(rng.integers(3, 8)),
                        seed=int(rng.integers(1 << 30))))
    return out


def run_case(case, mon):
    import legume
    G = geom.gset(case["spec"]["lattice"], case["gmax"], case["trunc"])
    if G is None:
        mon.skip("a reciprocal vector on the cutoff")
        return mon.trivial()
    legume.set_backend("numpy")
    rng = np.random.default_rng(case["seed"])
    mon.sig(case)
    with core.Quiet():
        {"gme": gme_hist, "gmesym": gme_hist, "pwe": pwe_hist, "ese": ese_hist, "pol": pol_hist}[case["sol"]](case, mon, rng, G)


def rk(rng, n=None):
    n = n or int(rng.integers(1, 4))
    return np.round(rng.uniform(-3, 3, (2, n)), 4)


# --------------------------------------------------------------------- GME
def gme_run_args(case, rng, G):
    """A valid run request (kwargs of run)."""
    inds = [0] + sorted(int(x) for x in rng.permutation([1, 2, 3, 4])[:int(rng.integers(0, 4))])
    o = dict(gmode_inds=inds if rng.random() < .7 else [1, 0][:int(rng.integers(1, 3))], numeig=int(rng.integers(1, 7)), verbose=False, gmode_step=1e-3)
    if rng.random() < .5:
        o["compute_im"] = bool(rng.random() < .5)
    if rng.random() < .25:
        o["gmode_compute"] = "interp"
        o["gmode_npts"] = int(rng.choice([60, 120]))
    if rng.random() < .25:
        o["eps_eff"] = "background"
    if rng.random() < .25:
        o["gradients"] = "approx"
    if rng.random() < .3:
        o["eig_sigma"] = float(rng.choice([.3, .7]))
    if rng.random() < .15:
        o["eig_solver"] = "eigsh"
    if rng.random() < .2 and case["trunc"] == "abs":
        o["only_gmodes"] = True
    if rng.random() < .15:
        o["delta_gx"] = 1e-9
    o["kpoints"] = rk(rng)
    if case["sol"] == "gmesym" and rng.random() < .6:
        ang = float(rng.choice([0., 90.] if case["spec"]["lattice"]["kind"] == "hexagonal" else [0., 45., 90.]))
        m = rng.uniform(.3, 2.5, o["kpoints"].shape[1])
        o["kpoints"] = np.array([m * np.cos(np.radians(ang)), m * np.sin(np.radians(ang))])
        o["angles"] = [ang] * len(m)
        o["kz_symmetry"] = str(rng.choice(["both", "even", "odd"]))
        o["use_sparse"] = bool(rng.random() < .5)
        o["symm_thr"] = 1e-6
        o["gmode_inds"] = sorted({0, 1} | set(o["gmode_inds"]))
        o.pop("eig_solver", None)
        o.pop("only_gmodes", None)
    return o


REFUSED = ("numeig", "kz-noangles", "solver", "epseff", "trunc-only", "unknown", "kzname", "highmode", "kz-offline")


def spoil(o, how, case):
    o = dict(o)
    if how == "numeig":
        o["numeig"] = 100000
    elif how == "kz-noangles":
        o["kz_symmetry"] = "both"
        o.pop("angles", None)
    elif how == "solver":
        o["eig_solver"] = "lanczos"
    elif how == "epseff":
        o["eps_eff"] = "mean"
    elif how == "trunc-only":
        if case["trunc"] != "tbt":
            o["eig_solver"] = "lanczos"
        o["only_gmodes"] = True
    elif how == "unknown":
        o["no_such_option"] = 1
    elif how == "kzname":
        o["kz_symmetry"] = "sigma"
        o["angles"] = [0.] * o["kpoints"].shape[1]
    elif how == "highmode":
        o["gmode_inds"] = [40]
    elif how == "kz-offline":
        o["kz_symmetry"] = "even"
        o["angles"] = [17.] * o["kpoints"].shape[1]
    return o


def gme_state(g):
    d = {}
    for a in ("freqs", "freqs_im", "unbalance_sp", "kz_symms", "kpoints"):
        d[a] = np.array(getattr(g, a))
    d["eigvecs"] = [np.array(v) for v in g.eigvecs]
    d["rad_coup"] = {k: [[np.array(x) for x in r] for r in v] for k, v in g.rad_coup.items()}
    d["rad_gvec"] = {k: [[np.array(x) for x in r] for r in v] for k, v in g.rad_gvec.items()}
    return d


def run_gme(g, o):
    o = dict(o)
    k = o.pop("kpoints").copy()
    a = o.pop("angles", None)
    kw = {} if a is None else {"angles": np.array(a)}
    o["gmode_inds"] = list(o["gmode_inds"])
    g.run(kpoints=k, **kw, **o)


def gme_compare(mon, g, f, o, case, G, tag, rng):
    """g: used solver, f: fresh solver, both after the same last run."""
    A, B = gme_state(f), gme_state(g)
    for a in ("freqs", "freqs_im", "unbalance_sp", "kz_symms", "kpoints"):
        if not mon.check("shape-" + a + tag, A[a].shape == B[a].shape, "%s instead of %s (%s)" % (B[a].shape, A[a].shape, o)):
            return
    mon.check("shape-eigvecs" + tag, [v.shape for v in A["eigvecs"]] == [v.shape for v in B["eigvecs"]], str(o))
    for a in ("rad_coup", "rad_gvec"):
        ok = sorted(A[a]) == sorted(B[a]) and all([[x.shape for x in r] for r in A[a][c]] == [[x.shape for x in r] for r in B[a][c]] for c in A[a])
        mon.check("shape-" + a + tag, ok, "%s" % o)
    mon.check("kpoints" + tag, np.array_equal(A["kpoints"], B["kpoints"]), "")
    eps = refgme.eff_eps(case["spec"], o.get("eps_eff", "average"))
    im = A["freqs_im"].size > 0
    for i in range(A["freqs"].shape[0]):
        gs = np.hypot(*(G + A["kpoints"][:, [i]]))
        a = dict(freqs=A["freqs"][i], vecs=A["eigvecs"][i])
        b = dict(freqs=B["freqs"][i], vecs=B["eigvecs"][i])
        if im:
            a.update(freqs_im=A["freqs_im"][i], unb=A["unbalance_sp"][i])
            b.update(freqs_im=B["freqs_im"][i], unb=B["unbalance_sp"][i])
        cmp.compare(mon, "gme" + tag, a, b, gs, eps, tol=1e-9, amp=1e-7, cut_top=o.get("eig_solver") == "eigsh", msg=str(o))
        if A["kz_symms"].size and np.min(np.diff(a["freqs"]), initial=1.) > 1e-8:
            mon.check("kz_symms" + tag, np.array_equal(A["kz_symms"][i], B["kz_symms"][i]), "%s" % o)
        if im:
            for c in A["rad_coup"]:
                for m in range(len(a["freqs"])):
                    if cmp.gaps(a["freqs"], m, m + 1) > 1e-5:
                        mon.close("rad_coup" + tag, np.abs(B["rad_coup"][c][i][m]), np.abs(A["rad_coup"][c][i][m]), rtol=1e-6, atol=1e-8)
    # fields of one isolated mode (up to its phase)
    i = int(rng.integers(A["freqs"].shape[0]))
    m = int(rng.integers(A["freqs"].shape[1]))
    if cmp.gaps(A["freqs"][i], m, m + 1) > 1e-5 and A["freqs"][i][m] > 1e-3 and not (o.get("eig_solver") == "eigsh"):
        z = float(rng.uniform(-.3, sum(l["d"] for l in case["spec"]["layers"]) + .3))
        fld = str(rng.choice(["H", "D", "E"]))
        fa = np.concatenate([np.asarray(x) for x in f.ft_field_xy(fld, i, m, z)])
        fb = np.concatenate([np.asarray(x) for x in g.ft_field_xy(fld, i, m, z)])
        j = int(np.argmax(np.abs(fa)))
        if abs(fa[j]) > 1e-9 and abs(fb[j]) > 0:
            fb = fb * (fa[j] / fb[j]) * abs(fb[j] / fa[j])
        mon.close("field" + tag, fb, fa, rtol=1e-6, atol=1e-7, scale=np.abs(fa).max(), msg=str(o))
        mon.event("fields")
    mon.event("runs_compared")


def same_state(A, B):
    def flat(x):
        if isinstance(x, dict):
            return [(k,) + t for k in sorted(x) for t in flat(x[k])]
        if isinstance(x, (list, tuple)):
            return [(i,) + t for i, v in enumerate(x) for t in flat(v)]
        return [(np.asarray(x),)]
    a, b = flat(A), flat(B)
    return len(a) == len(b) and all(u[:-1] == w[:-1] and np.array_equal(u[-1], w[-1]) for u, w in zip(a, b))


def gme_hist(case, mon, rng, G):
    import legume
    phc = geom.build_phc(case["spec"])
    mk = lambda: legume.GuidedModeExp(geom.build_phc(case["spec"]), gmax=case["gmax"], truncate_g=case["trunc"])
    g = legume.GuidedModeExp(phc, gmax=case["gmax"], truncate_g=case["trunc"])
    last = None
    hist = []
    for s in range(case["steps"]):
        o = gme_run_args(case, rng, G)
        if rng.random() < .25:      # a refused run in between
            how = str(rng.choice(REFUSED))
            prev = gme_state(g)
            try:
                run_gme(g, spoil(o, how, case))
                refused = False
            except Exception as e:
                if not isinstance(e, (ValueError, RuntimeError, TypeError)):
                    raise
                refused = True
            hist.append("refused:" + how)
            mon.event("refused_runs" if refused else "not_refused")
            now = gme_state(g)
            if refused:
                if now["freqs"].size:
                    mon.check("after-refusal", same_state(prev, now), "results neither empty nor those of the previous run after %s" % how)
                else:
                    left = [a for a in ("freqs_im", "unbalance_sp", "kz_symms") if now[a].size] + \
                        [a for a in ("rad_coup", "rad_gvec") if any(len(v) for v in now[a].values())]
                    mon.check("after-refusal", not left, "%s left over after a refused run (%s)" % (left, how))
                    mon.raises("after-refusal-losses", (RuntimeError, ValueError, IndexError), lambda: g.run_im())
                last = None
            else:
                last = None
            continue
        # a request this cell can answer?
        f = mk()
        try:
            run_gme(f, o)
            fresh_err = None
        except (ValueError, RuntimeError) as e:
            fresh_err = e
        try:
            run_gme(g, o)
            err = None
        except (ValueError, RuntimeError) as e:
            err = e
        if o.get("eig_solver") == "eigsh" and np.shape(f.freqs)[-1] != o["numeig"]:
            mon.skip("ARPACK on a basis of a few modes returns them all")
            hist.append("run")
            continue
        hist.append("run")
        mon.check("same-refusal", type(err) == type(fresh_err), "fresh solver: %r, used solver: %r (%s)" % (fresh_err, err, o))
        if err is not None or fresh_err is not None:
            mon.event("requests_refused_by_both")
            continue
        gme_compare(mon, g, f, o, case, G, "", rng)
        # reads
        if rng.random() < .6:
            before = gme_state(g)
            n, nk = before["freqs"].shape[1], before["freqs"].shape[0]
            for _ in range(int(rng.integers(1, 4))):
                w = int(rng.integers(5))
                ik, im = int(rng.integers(nk)), int(rng.integers(n))
                if before["freqs"][ik, im] < 1e-3:
                    continue
                if w == 0:
                    g.compute_rad(ik, [im])
                elif w == 1:
                    g.get_field_xy(str(rng.choice(["h", "e", "d"])), ik, im, .1, Nx=3, Ny=4)
                elif w == 2:
                    g.get_field_xz("e", ik, im, 0., Nx=3, Nz=4)
                elif w == 3:
                    g.get_eps_xy(z=.1, Nx=3, Ny=3)
                else:
                    repr(g)
                mon.event("reads")
            mon.check("reads-change-nothing", same_state(before, gme_state(g)), "")
            gme_compare(mon, g, f, o, case, G, "-after-reads", rng)
        if not o.get("compute_im", True) and rng.random() < .6:
            g.run_im()
            f2 = mk()
            run_gme(f2, dict(o, compute_im=True))
            gme_compare(mon, g, f2, dict(o, compute_im=True), case, G, "-run_im", rng)
    mon.event("history_" + case["sol"])


# --------------------------------------------------------------- plane waves
def pwe_hist(case, mon, rng, G):
    import legume
    lay = geom.build_phc(case["spec"]).layers[0]
    extra = []

    def mk():
        l = geom.build_phc(case["spec"]).layers[0]
        for q in extra:
            l.add_shape(geom.build_shape(q))
        return legume.PlaneWaveExp(l, gmax=case["gmax"])
    g = legume.PlaneWaveExp(lay, gmax=case["gmax"])
    for s in range(case["steps"] + 2):
        o = dict(kpoints=rk(rng), pol=str(rng.choice(["te", "tm", "TE", "TM"])), numeig=int(rng.integers(1, 8)))
        if rng.random() < .25:
            try:
                g.run(**dict(o, pol="te+tm"))
                mon.check("refused", False, "pol='te+tm' accepted")
            except ValueError:
                mon.event("refused_runs")
            mon.check("after-refusal", np.size(g.freqs) == 0 and len(g.eigvecs) == 0, "results of an earlier run visible")
            continue
        if s and rng.random() < .3:
            # the layer gets another shape between two runs: the next run is that of the new layer
            e = float(rng.uniform(2, 9))
            q = dict(t="circle", eps=round(e, 3), x=round(float(rng.uniform(-.3, .3)), 3), y=round(float(rng.uniform(-.3, .3)), 3), r=.05)
            lay.add_shape(geom.build_shape(q))
            extra.append(q)
            mon.event("layer_changed")
        f = mk()
        f.run(**{k: (v.copy() if k == "kpoints" else v) for k, v in o.items()})
        g.run(**{k: (v.copy() if k == "kpoints" else v) for k, v in o.items()})
        for again in range(2):
            if not mon.check("pwe-shape", np.shape(f.freqs) == np.shape(g.freqs), "%s %s" % (np.shape(g.freqs), np.shape(f.freqs))):
                return
            mon.close("pwe-freqs", g.freqs, f.freqs, rtol=1e-10, atol=1e-9)
            i, m = int(rng.integers(f.freqs.shape[0])), int(rng.integers(f.freqs.shape[1]))
            if cmp.gaps(np.asarray(f.freqs[i]), m, m + 1) > 1e-5 and f.freqs[i][m] > 1e-3 and m < f.freqs.shape[1] - 1:
                fld = str(rng.choice(["h", "d", "e"]))
                A = np.concatenate([np.asarray(x) for x in f.ft_field_xy(fld, i, m)])
                B = np.concatenate([np.asarray(x) for x in g.ft_field_xy(fld, i, m)])
                mon.close("pwe-field", np.abs(B), np.abs(A), rtol=1e-6, atol=1e-8)
                mon.event("fields")
            g.get_eps_xy(Nx=3, Ny=3)
            mon.event("runs_compared")
    mon.event("history_pwe")


# ------------------------------------------------------------------ excitons
def qw(rng, d):
    return dict(z=round(float(rng.uniform(.2, .8) * d), 4), V_shapes=float(rng.choice([-.01, .02])), a=4e-7,
                M=float(rng.choice([1e-32, 1e-31])), E0=1.5, loss=1e-4, osc_str=[1e19, 5e18, 0.])


def ese_hist(case, mon, rng, G):
    import legume
    q = qw(rng, case["spec"]["layers"][0]["d"])
    mk = lambda: legume.ExcitonSchroedEq(geom.build_phc(case["spec"]), gmax=case["gmax"], truncate_g=case["trunc"],
                                         **dict(q, osc_str=np.array(q["osc_str"])))
    g = mk()
    for s in range(case["steps"] + 2):
        o = dict(kpoints=rk(rng), numeig_ex=int(rng.integers(1, 8)))
        if rng.random() < .3:
            o.pop("numeig_ex")
        if rng.random() < .2:
            try:
                g.run(numeig=3, verbose_ex=False, **o)
                mon.check("refused", False, "an unknown option was accepted")
            except TypeError:
                mon.event("refused_runs")
            continue
        f = mk()
        f.run(verbose_ex=False, **o)
        g.run(verbose_ex=False, **o)
        if not mon.check("ese-shape", np.shape(f.eners) == np.shape(g.eners), "%s %s" % (np.shape(g.eners), np.shape(f.eners))):
            return
        mon.close("ese-eners", g.eners, f.eners, rtol=1e-12)
        mon.close("ese-vecs", np.abs(g.eigvecs), np.abs(f.eigvecs), rtol=1e-6, atol=1e-6) if \
            np.min(np.diff(np.sort(np.real(f.eners)), axis=1), initial=1.) > 1e-7 else None
        g.get_pot_xy(Nx=3, Ny=3)
        g.get_wavef_xy(0, 0, Nx=3, Ny=3)
        mon.event("runs_compared")
    mon.event("history_ese")


# ---------------------------------------------------------------- polaritons
def pol_hist(case, mon, rng, G):
    import legume
    sp = copy.deepcopy(case["spec"])
    q = qw(rng, sp["layers"][0]["d"])
    sp["qws"] = [q] if rng.random() < .6 else [q, dict(q, z=q["z"] * .7)]
    mk = lambda: legume.HopfieldPol(geom.build_phc(sp), gmax=case["gmax"], truncate_g=case["trunc"])
    g = mk()
    for s in range(min(case["steps"], 4)):
        go = dict(gmode_inds=[[0], [0, 1], [0, 1, 2]][int(rng.integers(3))], numeig=int(rng.integers(1, 5)), verbose=False, gmode_step=1e-3)
        if rng.random() < .3:
            go["eps_eff"] = "background"
        eo = dict(numeig_ex=int(rng.integers(1, 5)), verbose_ex=False)
        k = rk(rng, int(rng.integers(1, 3)))
        if rng.random() < .25:
            bad = dict(go, numeig=100000) if rng.random() < .5 else dict(go, eps_eff="mean")
            try:
                g.run(gme_options=bad, exc_options=eo, kpoints=k.copy(), verbose=False)
                mon.check("refused", False, "%s accepted" % bad)
            except ValueError:
                mon.event("refused_runs")
            mon.check("after-refusal", np.size(g.eners) == 0 and np.size(g.fractions_ex) == 0 and np.size(g.eners_im) == 0,
                      "polariton results of an earlier run visible")
            continue
        f = mk()
        try:
            f.run(gme_options=dict(go), exc_options=dict(eo), kpoints=k.copy(), verbose=False)
            e1 = None
        except (ValueError, RuntimeError) as e:
            e1 = e
        try:
            g.run(gme_options=dict(go), exc_options=dict(eo), kpoints=k.copy(), verbose=False)
            e2 = None
        except (ValueError, RuntimeError) as e:
            e2 = e
        mon.check("same-refusal", type(e1) == type(e2), "fresh: %r, used: %r" % (e1, e2))
        if e1 is not None or e2 is not None:
            continue
        if not mon.check("pol-shape", np.shape(f.eners) == np.shape(g.eners), "%s %s" % (np.shape(g.eners), np.shape(f.eners))):
            return
        mon.close("pol-eners", g.eners, f.eners, rtol=1e-7)
        mon.close("pol-eners_im", g.eners_im, f.eners_im, rtol=1e-4, atol=1e-7)
        E = np.asarray(f.eners)
        for i in range(len(E)):
            for m in range(E.shape[1]):
                if cmp.gaps(E[i], m, m + 1) > 1e-5:
                    mon.close("pol-fraction", [np.asarray(g.fractions_ex)[i][m]], [np.asarray(f.fractions_ex)[i][m]], rtol=1e-4, atol=1e-5)
        mon.close("pol-photons", g.gme.freqs, f.gme.freqs, rtol=1e-9)
        mon.event("runs_compared")
    mon.event("history_pol")


if __name__ == "__main__":
    core.main(sys.modules[__name__])
