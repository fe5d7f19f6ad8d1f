import os, sys, io, re, contextlib, warnings
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
os.environ["COLUMNS"] = "600"       # no truncated table cells
from harness import core, geom, cmp
from checks import c13
import numpy as np

PROPERTY = "C24"
RULE = ("every solver with random valid options is run with verbosity off and on in both print back ends (and by an already used solver), standard "
        "streams captured: off must be silent, on must show progress for each wave vector and a report naming the methods, "
        "sizes and consistent times; the results of all four runs are compared; the optimisers' lines are compared with the returned history; "
        "reprs of randomly built objects of all kinds must name their kind and parameters, before and after runs. Distinct: kind, spec and options.")
ASSUMPTIONS = ["the photonic and excitonic parts of a polariton run have their own verbosity options",
               "constructors may print the warning about a truncation on a reciprocal vector", "the plane-wave solver writes nothing"]
CASE_TIMEOUT = 120
KINDS = ("gme", "gme", "gmesym", "ese", "pol", "pwe", "repr", "reprsolver", "optim", "switch")
ANSI = re.compile(r"\x1b\[[0-9;?]*[A-Za-z]")


def cases(rng, tier):
    n = 22 if tier == "quick" else 700
    out = []
    for i in range(n):
        for k in KINDS:
            spec = geom.gen_spec(rng, nlay=1 + int(rng.integers(2)))
            if k == "gmesym":
                spec = c13_sym(rng)
            out.append(dict(kind=k, sol="gmesym" if k == "gmesym" else "gme", spec=spec, gmax=round(float(rng.uniform(1.05, 1.6)), 3),
                            trunc=("abs", "tbt")[int(rng.integers(2))] if k != "gmesym" else "abs", seed=int(rng.integers(1 << 30))))
    return out


def c13_sym(rng):
    d = round(float(rng.uniform(.2, .6)), 4)
    lat = {"kind": ("square", "hexagonal")[int(rng.integers(2))]}
    return dict(lattice=lat, eps_l=round(float(rng.uniform(1, 2)), 3), eps_u=round(float(rng.uniform(1, 2)), 3),
                layers=[dict(d=d, eps_b=round(float(rng.uniform(8, 12)), 3),
                             shapes=[dict(t="circle", eps=1., x=0., y=0., r=round(float(rng.uniform(.1, .35)), 4))])])


class Streams:
    """Captured standard streams (Python warnings are not counted)."""

    def __enter__(self):
        self.o, self.e = io.StringIO(), io.StringIO()
        self.st = contextlib.ExitStack()
        self.st.enter_context(contextlib.redirect_stdout(self.o))
        self.st.enter_context(contextlib.redirect_stderr(self.e))
        self.st.enter_context(warnings.catch_warnings())
        warnings.simplefilter("ignore")
        return self

    def __exit__(self, *a):
        self.st.close()
        self.text = ANSI.sub("", self.o.getvalue() + self.e.getvalue())


def run_case(case, mon):
    import legume
    legume.set_backend("numpy")
    legume.set_print_backend("base")
    rng = np.random.default_rng(case["seed"])
    mon.sig(case)
    try:
        globals()["k_" + ("gme" if case["kind"] == "gmesym" else case["kind"])](case, mon, rng)
    finally:
        legume.set_print_backend("rich")


def phc_of(case):
    return geom.build_phc(case["spec"])


def same(mon, key, A, B, msg=""):
    for n in A:
        a, b = A[n], B[n]
        if isinstance(a, list):
            ok = len(a) == len(b) and all(np.shape(x) == np.shape(y) for x, y in zip(a, b))
            if mon.check("same-shape-" + key, ok, n + " " + msg) and not all(np.array_equal(x, y, equal_nan=True) for x, y in zip(a, b)):
                mon.event("not_bit_identical")
                if n != "vecs":
                    for x, y in zip(a, b):
                        mon.close("same-" + key, x, y, rtol=1e-8, atol=1e-7, msg=n + " " + msg)
            continue
        if mon.check("same-shape-" + key, np.shape(a) == np.shape(b), n + " " + msg) and not np.array_equal(a, b, equal_nan=True):
            mon.event("not_bit_identical")
            mon.close("same-" + key, a, b, rtol=1e-8, atol=1e-7, msg=n + " " + msg)
    mon.event("results_compared")


def progress(mon, key, text, nk, times, msg):
    """Every part that reports shows a progress for each k point in order."""
    seen = [int(a) for a, b in re.findall(r"(\d+) of (\d+)", text) if int(b) == nk]
    for bar, a in re.findall("\u2502([\u2588-]+)\u2502\\s*(\\d+) of %d\\b" % nk, text):
        full = bar.count("\u2588")
        mon.check("progress-bar", -1.01 < full - len(bar) * int(a) / nk < .01, "%d of %d blocks are full at %s of %d (%s)" % (full, len(bar), a, nk, msg))
        mon.event("progress_bars")
    mon.check("progress-" + key, seen == list(range(1, nk + 1)) * times, "%d k-points in %d parts, progress %s (%s)" % (nk, times, seen, msg))
    mon.event("progress_records", len(seen))


def numbers(mon, key, text, total_first, msg):
    """Times are non-negative, parts at most 100% and together not beyond the total."""
    neg = re.findall(r"(?<![\w.\[=,(e])-\s?\d+\.?\d*\s*(?:s\b|%|\u2502)", text)
    mon.check("times-" + key, not neg, "negative times or percentages %s (%s)" % (neg[:3], msg))
    perc = [float(x) for x in re.findall(r"(\d+)\s?%", text)]
    mon.check("percent-" + key, all(p <= 100 for p in perc) and sum(perc) <= (200 if total_first else 100) + len(perc) / 2 + 1,
              "percentages %s (%s)" % (perc, msg))
    mon.event("percentages", len(perc))
    tot = re.findall(r"([\d.]+)s total time for real|Total time for real[^\n]*?(\d+\.\d+)", text)
    parts = re.findall(r"^\s*([\d.]+)s \((\d+)%\) for", text, re.M) or \
        [(t, p) for t, p in re.findall(r"(\d+\.\d+)\s*\u2502[^\n]*?(\d+)%", text)]
    if len(tot) == 1 and parts:
        T = float(tot[0][0] or tot[0][1])
        for t, p in parts:
            if T > .004 and float(t) > 0:
                lo, hi = 100 * (float(t) - 6e-4) / (T + 6e-4), 100 * (float(t) + 6e-4) / (T - 6e-4)
                mon.check("percent-of-total", lo - .6 <= float(p) <= hi + .6, "%s s of %s s are not %s%% (%s)" % (t, T, p, msg))
                mon.event("times_with_percentages")


def has(mon, key, text, words, msg):
    t = re.sub(r"\s+", " ", text.lower())
    for w in words:
        mon.check("report-" + key, w.lower() in t, "%r not in the report %r (%s)" % (w, t[:700], msg))


def four(case, mon, rng, do, back=("base", "rich")):
    """Runs do(verbose) in random order over verbosity x back end; yields results."""
    import legume
    combos = [(v, b) for v in (False, True) for b in back]
    out = {}
    for j in rng.permutation(len(combos)):
        v, b = combos[j]
        legume.set_print_backend(b)
        with Streams() as s:
            try:
                r = do(v)
            except (ValueError, RuntimeError) as e:
                r = type(e)
                err = str(e)
        out[v, b] = (r, s.text)
    kinds = {r[0] if isinstance(r[0], type) else "ok" for r in out.values()}
    if not mon.check("same-outcome", len(kinds) == 1, "%s" % {k: str(v[0])[:60] for k, v in out.items()}):
        return None
    if kinds != {"ok"}:
        mon.skip("request refused: " + err[:50])
        mon.event("refused_requests")
        for (v, b), (r, t) in out.items():
            if not v:
                mon.check("silent-refused", t == "", repr(t[:200]))
        return None
    for (v, b), (r, t) in out.items():
        if not v:
            mon.check("silent", t == "", "wrote %r (back end %s)" % (t[:200], b))
            mon.event("silent_runs")
    ref = out[False, back[0]][0]
    for c in out:
        same(mon, case["kind"], ref, out[c][0], str(c))
    return out


def gme_out(g):
    d = dict(freqs=np.array(g.freqs), im=np.array(g.freqs_im), unb=np.array(g.unbalance_sp), symm=np.array(g.kz_symms), k=np.array(g.kpoints),
             vecs=[np.array(v) for v in g.eigvecs])
    d["rad"] = [np.array(x) for c in sorted(g.rad_gvec) for r in g.rad_gvec[c] for x in r]
    return d


def k_gme(case, mon, rng):
    import legume
    G = geom.gset(case["spec"]["lattice"], case["gmax"], case["trunc"])
    if G is None:
        mon.skip("a reciprocal vector on the cutoff")
        return mon.trivial()
    o = c13.gme_run_args(case, rng, G)
    if case["kind"] == "gmesym" or rng.random() < .6:
        o.pop("eig_solver", None)
    if case["kind"] == "gmesym" and rng.random() < .5:
        o["use_sparse"] = True
    if rng.random() < .35 and not o.get("only_gmodes"):
        o.update(gmode_compute="interp", gmode_npts=int(rng.choice([100, 400])))
    if rng.random() < .15:
        o["gmode_compute"] = o.get("gmode_compute", "exact").upper()
    via_im = rng.random() < .25
    if via_im:
        o["compute_im"] = False
    used = rng.random() < .4
    nk = o["kpoints"].shape[1]
    phc = phc_of(case)
    gs = []

    def do(v):
        if gs and used:
            g = gs[0]
        else:
            with Streams():
                g = legume.GuidedModeExp(phc, gmax=case["gmax"], truncate_g=case["trunc"])
            gs.append(g)
        c13.run_gme(g, dict(o, verbose=v))
        do.marks = sys.stdout.tell()
        if via_im:
            g.run_im()
        r = gme_out(g)
        if v or rng.random() < .5:      # reads never write
            p = sys.stdout.tell()
            g.ft_field_xy("h", 0, 0, .1) if rng.random() < .5 else g.compute_rad(0, [0])
            repr(g)
            mon.check("silent-reads", sys.stdout.tell() == p, "field or rate queries wrote")
        return r
    out = four(case, mon, rng, do)
    if out is None:
        return
    im = o.get("compute_im", True) or via_im
    for b in ("base", "rich"):
        t = out[True, b][1]
        msg = "%s %s" % (b, {k: v for k, v in o.items() if k != "kpoints"})
        progress(mon, "gme", t, nk, 1 + im, msg)
        numbers(mon, "gme", t, b == "rich", msg)
        has(mon, "gme", t, ["='%s'" % o.get("gmode_compute", "exact"), "'%s' solver" % o.get("eig_solver", "eigh"), "total time"], msg)
        mon.check("report-real-once", len(re.findall("total time for real part", t.lower())) == 1, "%r (%s)" % (t[-600:], msg))
        if o.get("kz_symmetry"):
            has(mon, "gme-symmetry", t, ["sparse" if o["use_sparse"] else "dense"], msg)
        if b == "rich":
            npw = gs[0].gvec.size // 2
            has(mon, "gme-sizes", t, ["%d plane waves" % npw, "%d guided modes" % len(o["gmode_inds"]), "for %d k-points" % nk], msg)
            if im:
                has(mon, "gme-sizes", t, ["for %d eigenmodes" % np.array(gs[0].freqs).size], msg)
        mon.check("report-im", ("imaginary part of frequencies" in t) == bool(im), msg)
        mon.event("reports")


def k_pwe(case, mon, rng):
    import legume
    lat = geom.build_lattice(case["spec"]["lattice"])
    l = case["spec"]["layers"][0]
    k = c13.rk(rng)
    pol = str(rng.choice(["te", "tm"]))

    def do(v):
        layer = legume.ShapesLayer(lat, eps_b=l["eps_b"])
        for s in l["shapes"]:
            layer.add_shape(geom.build_shape(s))
        p = legume.PlaneWaveExp(layer, gmax=case["gmax"])
        p.run(kpoints=k.copy(), pol=pol, numeig=3)

        p.get_eps_xy(Nx=5, Ny=5)
        p.ft_field_xy("h" if pol == "te" else "e", 0, 0)
        return dict(freqs=np.array(p.freqs), vecs=[np.array(v) for v in p.eigvecs])
    out = four(case, mon, rng, do)
    for b in ("base", "rich"):
        mon.check("silent-pwe", out[True, b][1] == "", repr(out[True, b][1][:200]))


def add_wells(phc, ws):
    with Streams():
        for w in ws:
            phc.add_qw(**w)


def wells(rng, spec, n):
    D = sum(l["d"] for l in spec["layers"])
    a = float(rng.uniform(2e-7, 8e-7))
    vs = float(rng.uniform(-.01, .01))
    return [dict(z=float(rng.uniform(.05, .95)) * D, V_shapes=vs, a=a, M=9.1e-31 * float(rng.uniform(.1, 1)),
                 E0=float(rng.uniform(.5, 2.)), loss=float(10 ** rng.uniform(-5, -3)), osc_str=[float(x) for x in 10 ** rng.uniform(16, 18, 3)])
            for _ in range(n)]


def k_ese(case, mon, rng):
    import legume
    if geom.gset(case["spec"]["lattice"], case["gmax"], case["trunc"]) is None:
        mon.skip("a reciprocal vector on the cutoff")
        return mon.trivial()
    w = wells(rng, case["spec"], 1)[0]
    k = c13.rk(rng)
    nk = k.shape[1]
    ex = []

    def do(v):
        with Streams():
            e = ex[0] if ex and case["seed"] % 2 else legume.ExcitonSchroedEq(
                phc_of(case), z=w["z"], V_shapes=w["V_shapes"], a=w["a"], M=w["M"], E0=w["E0"], loss=w["loss"],
                osc_str=w["osc_str"], gmax=case["gmax"], truncate_g=case["trunc"])
        ex.append(e)
        e.run(kpoints=k.copy(), numeig_ex=2, verbose_ex=v)
        r = dict(eners=np.array(e.eners), vecs=[np.array(x) for x in e.eigvecs])
        p = sys.stdout.tell()
        e.get_pot_xy(Nx=4, Ny=4)
        e.get_wavef_xy(0, 0, Nx=4, Ny=4)
        mon.check("silent-reads", sys.stdout.tell() == p, "wavefunction queries wrote")
        return r
    out = four(case, mon, rng, do)
    if out is None:
        return
    for b in ("base", "rich"):
        t = out[True, b][1]
        progress(mon, "ese", t, nk, 1, b)
        numbers(mon, "ese", t, b == "rich", b)
        has(mon, "ese", t, ["total time for excitonic energies", "diagonalization"], b)
        if b == "rich":
            has(mon, "ese-sizes", t, ["%d plane waves" % (ex[0].gvec.size // 2), "for %d k-points" % nk], b)
        mon.event("reports")


def k_pol(case, mon, rng):
    import legume
    G = geom.gset(case["spec"]["lattice"], case["gmax"], case["trunc"])
    if G is None:
        mon.skip("a reciprocal vector on the cutoff")
        return mon.trivial()
    nw = 1 + int(rng.integers(2))
    ws = wells(rng, case["spec"], nw)
    k = c13.rk(rng, int(rng.integers(1, 3)))
    nk = k.shape[1]
    numeig, numex = int(rng.integers(1, 4)), int(rng.integers(1, 3))
    vs = [bool(x) for x in rng.integers(0, 2, 3)]
    if not any(vs):
        vs[int(rng.integers(3))] = True
    if rng.random() < .3:
        vs = [True] * 3
    ps = []
    npw = G.shape[1]
    step = float(rng.choice([1e-3, 2e-3]))
    # compute_im False: the losses are still needed
    cim = bool(rng.random() < .7)

    def do(v):
        phc = phc_of(case)
        add_wells(phc, ws)
        with Streams():
            p = ps[0] if ps and case["seed"] % 2 else legume.HopfieldPol(phc, case["gmax"], truncate_g=case["trunc"])
        ps.append(p)
        a, b, c = vs if v else [False] * 3
        p.run(kpoints=k.copy(), gme_options=dict(numeig=numeig, verbose=a, gmode_inds=[0, 1], gmode_step=step, compute_im=cim),
              exc_options=dict(numeig_ex=numex, verbose_ex=b), verbose=c)
        return dict(eners=np.array(p.eners), im=np.array(p.eners_im), ex=np.array(p.fractions_ex), ph=np.array(p.fractions_ph))
    out = four(case, mon, rng, do)
    if out is None:
        return
    for b in ("base", "rich"):
        t = out[True, b][1]
        msg = "%s, gme/exc/pol verbosity %s" % (b, vs)
        progress(mon, "pol", t, nk, 2 * vs[0] + nw * vs[1] + vs[2], msg)
        parts = [t.count("imaginary part of frequencies") > 0, t.lower().count("total time for excitonic energies"), "total time for matrix calculation" in t.lower()]
        mon.check("report-pol", parts == [vs[0], nw * vs[1], vs[2]], "reports %s (%s)" % (parts, msg))
        if b == "rich" and vs[2] and npw > 2:
            has(mon, "pol-sizes", t, ["%d photonic modes" % numeig, "%d active layers" % nw, "%d excitonic modes" % numex,
                                      "for %d k-points" % nk], msg)
        mon.event("reports")


# --------------------------------------------------------------------- reprs
def named(mon, key, text, cls, vals, msg=""):
    """repr names the class and shows each parameter to its printed precision."""
    mon.check("repr-class-" + key, cls in text, "%r does not name %s" % (text[:200], cls))
    nums = [float(x) for x in re.findall(r"[-+]?(?:\d+\.\d*|\.\d+|\d+)(?:[eE][-+]?\d+)?", text)]
    for n, v, tol in vals:
        mon.check("repr-%s-%s" % (key, n), any(abs(x - v) <= tol for x in nums), "%s = %r not shown in %r" % (n, v, text[:300]))
    mon.event("reprs")


SHOWN = dict(circle=(("x", 1e-4), ("y", 1e-4), ("r", 1e-4)), ellipse=(("x", 1e-4), ("y", 1e-4), ("rx", 1e-4), ("ry", 1e-4), ("phi", 1e-4)),
             square=(("x", 1e-4), ("y", 1e-4), ("a", 1e-4)), hexagon=(("x", 1e-4), ("y", 1e-4), ("a", 1e-4)))
NAMES = dict(circle="Circle", ellipse="Ellipse", square="Square", hexagon="Hexagon", poly="Poly")


def shape_repr(mon, sp, text):
    vals = [("eps", sp["eps"], .0051)] + [(n, sp[n], tol) for n, tol in SHOWN.get(sp["t"], ())]
    if sp["t"] == "poly":
        v = geom.vertices(sp)
        vals += [("vertex", float(c), 1e-3) for c in np.ravel(v)]
    if sp["t"] in NAMES:
        named(mon, "shape-" + sp["t"], text, NAMES[sp["t"]], vals)
    else:
        mon.check("repr-shape-other", len(text) > 0, "")


def k_repr(case, mon, rng):
    import legume
    spec = case["spec"]
    with Streams() as s:
        phc = phc_of(case)
        ws = wells(rng, spec, int(rng.integers(0, 3)))
        add_wells(phc, ws)
        texts = [repr(phc), repr(phc.lattice), str(phc)]
    a1, a2 = geom.vecs(spec["lattice"])[:2]
    lv = [("a1x", a1[0], 1e-4), ("a1y", a1[1], 1e-4), ("a2x", a2[0], 1e-4), ("a2y", a2[1], 1e-4)]
    named(mon, "lattice", texts[1], "Lattice", lv)
    pv = list(lv)
    for l in spec["layers"]:
        pv += [("eps_b", l["eps_b"], .0051), ("d", l["d"], .0051)]
        for sp in l["shapes"]:
            pv += [(n, sp[n], tol) for n, tol in SHOWN.get(sp["t"], ())]
    for w in ws:
        pv += [("z", w["z"], 1e-4), ("V_shapes", w["V_shapes"], 1e-12), ("E0", w["E0"], 1e-4)]
    named(mon, "phc", texts[0], "Phot", pv)
    mon.check("repr-str", texts[2] == texts[0], "str differs from repr")
    for l, obj in zip(spec["layers"], phc.layers):
        t = repr(obj)
        named(mon, "layer", t, "Layer", [("eps_b", l["eps_b"], .0051), ("d", l["d"], .0051)])
        for sp, so in zip(l["shapes"], obj.shapes):
            shape_repr(mon, sp, repr(so))
            mon.check("repr-nested", repr(so) in t and repr(so) in texts[0], "shape %r not shown in its layer" % repr(so))
    for kind in NAMES:
        sp = geom.gen_shape(rng, round(float(rng.uniform(1, 12)), 3), kinds=(kind,))
        so = geom.build_shape(sp)
        shape_repr(mon, sp, repr(so))
    for w, q in zip(ws, phc.qws):
        named(mon, "well", repr(q), "QuantumWell", [("z", w["z"], 1e-4), ("V_shapes", w["V_shapes"], 1e-12), ("a", w["a"] * 1e9, .051),
                                                    ("M", w["M"], w["M"] * .01), ("E0", w["E0"], 1e-4), ("loss", w["loss"], w["loss"] * .051)])
    mon.check("silent-repr", s.text == "", repr(s.text[:100]))
    # a changed object is shown as changed
    for sname, kw in (("Circle", dict(r=.2)), ("Square", dict(a=.3)), ("Hexagon", dict(a=.2))):
        x, y, e = [round(float(v), 4) for v in rng.uniform(-.4, .4, 3)]
        c = getattr(legume, sname)(eps=2 + e, x_cent=x, y_cent=y, **kw)
        c.eps = 7.25
        named(mon, "shape-changed", repr(c), sname, [("eps", 7.25, .0051), ("x", x, 1e-4), ("y", y, 1e-4)])
    traced(case, mon)
    mon.check("repr-shape-fourier", len(repr(legume.FourierShape(eps=3., f_as=np.array([.5, .1])))) > 0, "")


def traced(case, mon):
    """Objects built while differentiating are shown like any other."""
    import legume, autograd
    sps = [s for l in case["spec"]["layers"] for s in l["shapes"] if s["t"] in SHOWN]
    legume.set_backend("autograd")
    try:
        for sp in sps:
            names = [n for n in ("x", "y", "r", "a", "rx", "ry", "phi") if n in sp]
            p0 = np.array([sp[n] for n in names])
            texts = []

            def f(p):
                phc = legume.PhotCryst(legume.Lattice([1., 0.], [.1 * p[0], 1.]))
                phc.add_layer(d=p[0]**2 + .3, eps_b=2 + p[1]**2)
                phc.add_shape(geom.build_shape(dict(sp, **{n: p[i] for i, n in enumerate(names)})))
                texts.append([repr(phc.layers[0].shapes[0]), repr(phc)])
                return p[0]
            f(p0)
            autograd.grad(f)(p0)
            mon.check("repr-traced", texts[0] == texts[1], "%s" % texts)
            mon.event("traced_reprs")
    finally:
        legume.set_backend("numpy")


def k_reprsolver(case, mon, rng):
    import legume
    G = geom.gset(case["spec"]["lattice"], case["gmax"], case["trunc"])
    if G is None:
        mon.skip("a reciprocal vector on the cutoff")
        return mon.trivial()
    gv = [("gmax", case["gmax"], 1e-9)]
    with Streams() as s:
        phc = phc_of(case)
        ws = wells(rng, case["spec"], int(rng.integers(1, 3)))
        w = ws[0]
        add_wells(phc, ws)
        g = legume.GuidedModeExp(phc, gmax=case["gmax"], truncate_g=case["trunc"])
        e = legume.ExcitonSchroedEq(phc, z=w["z"], V_shapes=w["V_shapes"], a=w["a"], M=w["M"], E0=w["E0"], loss=w["loss"], osc_str=w["osc_str"],
                                    gmax=case["gmax"], truncate_g=case["trunc"])
        h = legume.HopfieldPol(phc, case["gmax"], truncate_g=case["trunc"])
        p = legume.PlaneWaveExp(phc.layers[0], gmax=case["gmax"])
        step = round(float(rng.uniform(.8e-3, 2e-3)), 7)
        sig = round(float(rng.uniform(.1, .7)), 5)
        inds = [[0], [0, 1], [0, 1, 2], [0, 3]][int(rng.integers(4))]
        o = dict(gmode_inds=inds, gmode_step=step, numeig=1, eig_sigma=sig, gmode_compute=str(rng.choice(["exact", "interp"])), gradients=str(rng.choice(["exact", "approx"])),
                 eps_eff=str(rng.choice(["average", "background"])), verbose=False, compute_im=False)
        for j in range(2):
            ev = gv + [("a", w["a"], w["a"] * 1e-9), ("M", w["M"], w["M"] * 1e-3), ("E0", w["E0"], 1e-9), ("z", w["z"], 1e-6), ("V", w["V_shapes"], 1e-12)]
            t = repr(e)
            named(mon, "exc", t, "ExcitonSchroedEq", ev)
            m = re.search(r"loss\s*=\s*([-+0-9.e]+)\s*(\w+)", t)
            unit = {"eV": 1., "meV": 1e-3, "ueV": 1e-6, "\u03bceV": 1e-6, "neV": 1e-9}.get(m.group(2), np.nan) if m else np.nan
            mon.check("repr-exc-loss", m and abs(float(m.group(1)) * unit - w["loss"]) <= 1e-6 * w["loss"], "loss of %g eV shown as %r" % (w["loss"], m and m.group(0)))
            for v in w["osc_str"]:
                mon.check("repr-exc-osc", any(abs(float(x) - v) < 1e-6 * v for x in re.findall(r"\d+\.?\d*(?:e[-+]?\d+)?", t)), "oscillator strength %g not in %s" % (v, t))
            named(mon, "gme", repr(g), "GuidedModeExp", gv + ([("step", step, 1e-12), ("sigma", sig, 1e-9)] if j else []))
            named(mon, "pwe", repr(p), "PlaneWaveExp", gv + ([("numeig", 2, 0)] if j else []))
            named(mon, "pol", repr(h), "HopfieldPol", gv + [("z", q["z"], 1e-6) for q in ws] + ([("step", step, 1e-12)] if j == 1 else []))
            if j:
                for k2 in ("gmode_compute", "gradients", "eps_eff"):
                    mon.check("repr-gme-" + k2, "%s = %r" % (k2, o[k2]) in repr(g) and "%s = %r" % (k2, o[k2]) in repr(h), "%s not in %s" % (o[k2], repr(g)))
                mon.check("repr-gme-inds", re.sub(r"\s", "", str(inds)) in re.sub(r"\s", "", repr(g)) or ",".join(map(str, inds)) in re.sub(r"\s", "", repr(g)), repr(g))
                mon.check("repr-pwe-pol", "tm" in repr(p), repr(p))
            else:
                k = c13.rk(rng, 1)
                try:
                    g.run(kpoints=k, **o)
                    h.run(kpoints=k, gme_options=dict(o), exc_options=dict(numeig_ex=1, verbose_ex=False), verbose=False)
                except (ValueError, RuntimeError) as err:
                    mon.skip("request refused: " + str(err)[:50])
                    break
                e.run(kpoints=k, numeig_ex=1, verbose_ex=False)
                p.run(kpoints=k, pol="tm", numeig=2)
    mon.check("silent-reprsolver", s.text == "", repr(s.text[:100]))


def k_optim(case, mon, rng):
    """Adam and L-BFGS write one line per iteration with its number, objective and (if asked) parameters."""
    import legume
    import autograd.numpy as npa
    from legume.minimize import Minimize
    A = rng.normal(size=(4, 3))
    b = rng.normal(size=4)
    of = lambda p: npa.sum((npa.dot(A, p) - b)**2) + .1 * npa.sum(p**4)
    x0 = rng.normal(size=3)
    N = int(rng.integers(1, 9))
    res = {}
    how = str(rng.choice(["adam", "lbfgs"]))
    bounds = None if rng.random() < .5 else [-1., 1.5]
    for d in (False, True):
        for be in ("base", "rich"):
            legume.set_print_backend(be)
            pars = []
            with Streams() as s:
                opt = Minimize(of)
                r = getattr(opt, how)(x0.copy(), Nepochs=N, bounds=bounds, disp_p=d, callback=lambda o: pars.append(np.array(o.params)))
            lines = [l for l in s.text.splitlines() if l.strip()]
            res[d, be] = r
            want = list(r[1]) if how == "adam" else list(r[1])[1:]
            mon.check("optim-lines-" + how, len([l for l in lines if "poch" in l]) == len(want), "%d lines for %d iterations" % (len(lines), len(want)))
            got = [(int(a), int(n), float(v)) for a, n, v in re.findall(r"poch:?\s*(\d+)\s*/\s*(\d+).*?[Oo]bjective:?\s*([-+0-9.e]+)", s.text)]
            mon.check("optim-numbers-" + how, [(x[0], x[1]) for x in got] == [(i + 1, N) for i in range(len(want))], "%s" % got)
            mon.check("optim-objective-" + how, len(got) == len(want) and all(abs(x[2] - w) <= 2e-6 * abs(w) + 1e-12 for x, w in zip(got, want)),
                      "lines show %s, history %s" % ([x[2] for x in got], want))
            mon.check("optim-params-" + how, ("arameter" in s.text) == (d and len(want) > 0), "disp_p=%s: %r" % (d, s.text[:120]))
            mon.event("optimiser_lines", len(lines))
    ref = res[False, "base"]
    for c in res:
        mon.check("same-optim", np.array_equal(ref[0], res[c][0]) and list(ref[1]) == list(res[c][1]), str(c))


def k_switch(case, mon, rng):
    """Back-end switches act on later runs of existing solvers; unknown back ends change nothing."""
    import legume
    if geom.gset(case["spec"]["lattice"], case["gmax"], case["trunc"]) is None:
        mon.skip("a reciprocal vector on the cutoff")
        return mon.trivial()
    with Streams():
        g = legume.GuidedModeExp(phc_of(case), gmax=case["gmax"], truncate_g=case["trunc"])
    k = c13.rk(rng, 1)
    table = lambda t: any(c in t for c in "\u2503\u2502\u250f") and "Steps in" in t
    now = "base"
    for _ in range(4):
        w = str(rng.choice(["base", "rich", "bad"]))
        if w == "bad":
            mon.raises("unknown-backend", ValueError, lambda: legume.set_print_backend(str(rng.choice(["Base", "html", ""]))))
        else:
            legume.set_print_backend(w)
            now = w
        v = bool(rng.random() < .8)
        with Streams() as s:
            try:
                g.run(kpoints=k, gmode_inds=[0], numeig=1, verbose=v, compute_im=False)
            except (RuntimeError, ValueError) as e:
                mon.skip("request refused: " + str(e)[:50])
                return
        mon.check("switch", (s.text != "") == v and (not v or table(s.text) == (now == "rich")), "back end %s verbosity %s wrote %r" % (now, v, s.text[:200]))
        mon.check("backend-name", ("rich" if now == "rich" else "base") in repr(legume.print_backend).lower(), repr(legume.print_backend))
        mon.event("backend_switches")


if __name__ == "__main__":
    core.main(sys.modules[__name__])
