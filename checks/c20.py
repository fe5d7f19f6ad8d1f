import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import core
import numpy as np

PROPERTY = "C20"
QUICK_REPS = 20
RULE = ("random smooth objectives (quadratic, Rosenbrock, oscillating, and a real plane-wave-expansion frequency) in 1-8 dimensions, random start "
        "points inside and outside random bounds (none, [lb, ub], list of tuples, one-sided), random Adam constants, extra arguments, pass_self "
        "schedules and callbacks; every evaluation of the objective is logged with its parameters and compared with an independent Adam recursion / "
        "with scipy called directly. Several minimisations on one object. Malformed bounds must be refused. Distinct: drawn configuration.")
ASSUMPTIONS = ["Adam of Kingma and Ba with epsilon = 1e-8 outside the root, no update after the last epoch",
               "quasi-Newton mode: scipy L-BFGS-B with the memory, tolerances and limits written in the wrapper"]
CASE_TIMEOUT = 120


def cases(rng, tier):
    n = 300 if tier == "quick" else 5000
    for i in range(n):
        yield dict(kind=("adam", "lbfgs", "reuse", "badbounds")[i % 4 if i % 8 < 6 else i % 2], seed=int(rng.integers(1 << 30)))
    for i in range(2 if tier == "quick" else 30):
        yield dict(kind="pwe", seed=int(rng.integers(1 << 30)), mode=("adam", "lbfgs")[i % 2])


def objective(rng, n):
    """(autograd-capable f(x, *args), gradient by hand) of a random smooth function."""
    import autograd.numpy as npa
    kind = ("quad", "rosen", "osc")[int(rng.integers(3))] if n > 1 else ("quad", "osc")[int(rng.integers(2))]
    A = rng.standard_normal((n, n))
    A = A @ A.T + .3 * np.eye(n)
    b = rng.standard_normal(n)
    w = rng.uniform(.5, 2, n)
    if kind == "quad":
        f = lambda x: .5 * npa.dot(x, npa.dot(A, x)) - npa.dot(b, x)
        g = lambda x: A @ x - b
    elif kind == "rosen":
        f = lambda x: npa.sum(3 * (x[1:] - x[:-1]**2)**2 + (1 - x[:-1])**2)

        def g(x):
            r = np.zeros(n)
            r[1:] += 6 * (x[1:] - x[:-1]**2)
            r[:-1] += -12 * (x[1:] - x[:-1]**2) * x[:-1] - 2 * (1 - x[:-1])
            return r
    else:
        f = lambda x: npa.sum(npa.sin(w * x + b)) + .05 * npa.sum(x**2)
        g = lambda x: w * np.cos(w * x + b) + .1 * x
    return kind, f, g


def draw_bounds(rng, n, finite):
    k = int(rng.integers(4))
    if k == 0:
        return None, np.full(n, -np.inf), np.full(n, np.inf)
    if k == 1:
        lb, ub = -rng.uniform(.1, 2), rng.uniform(.1, 2)
        return [[lb, ub], (lb, ub)][int(rng.integers(2))], np.full(n, lb), np.full(n, ub)
    lb, ub = -rng.uniform(.1, 2, n), rng.uniform(.1, 2, n)
    if k == 3 and not finite:
        lb[rng.random(n) < .4] = -np.inf
        ub[rng.random(n) < .4] = np.inf
    return [(float(a), float(c)) for a, c in zip(lb, ub)], lb, ub


class Log(object):
    """Objective that records every evaluation; optionally scheduled through the minimiser passed in."""

    def __init__(self, f, mon, opt_getter=None, pass_self=False, nargs=0):
        self.f, self.mon, self.pass_self, self.nargs, self.opt_getter = f, mon, pass_self, nargs, opt_getter
        self.x, self.v, self.it = [], [], []

    def __call__(self, x, *args):
        from autograd.extend import Box
        raw = x
        while isinstance(raw, Box):
            raw = raw._value
        self.mon.check("arguments", len(args) == self.nargs + (1 if self.pass_self else 0), "%d extra arguments" % len(args))
        fac = 1.
        if self.pass_self:
            self.mon.check("pass-self", args[-1] is self.opt_getter(), "last argument %r" % (args[-1],))
            self.it.append(args[-1].iteration)
        for a in args[:self.nargs]:
            fac = fac * a
        out = fac * self.f(x)
        r = out
        while isinstance(r, Box):
            r = r._value
        self.x.append(np.array(raw, float))
        self.v.append(float(r))
        return out


def adam_ref(g, p, n, lb, ub, bounded, step, b1, b2):
    m = np.zeros(p.size)
    v = np.zeros(p.size)
    used, after = [], []
    for t in range(1, n + 1):
        used.append(p.copy())
        gr = g(p)
        m = b1 * m + (1 - b1) * gr
        v = b2 * v + (1 - b2) * gr**2
        if t < n:
            p = p - step * (m / (1 - b1**t)) / (np.sqrt(v / (1 - b2**t)) + 1e-8)
        if bounded:
            p = np.minimum(np.maximum(p, lb), ub)
        after.append(p.copy())
    return used, after


def draw(rng, finite=False):
    n = int(rng.integers(1, 9))
    kind, f, g = objective(rng, n)
    bounds, lb, ub = draw_bounds(rng, n, finite)
    p0 = rng.uniform(-2.2, 2.2, n)
    if rng.random() < .5:
        p0 = np.clip(p0, lb, ub)
    nargs = int(rng.integers(3))
    args = tuple(float(a) for a in rng.uniform(.5, 2, nargs))
    return n, kind, f, g, bounds, lb, ub, p0, args, bool(rng.random() < .5), bool(rng.random() < .7)


def run_adam(rng, mon, opt_box, cfg=None):
    from legume.minimize import Minimize
    n, kind, f, g, bounds, lb, ub, p0, args, pself, usecb = cfg or draw(rng)
    fac = float(np.prod(args)) if args else 1.
    ne = int(rng.choice([1, 2, 3, 10, 40]))
    kw = {}
    step, b1, b2 = 1e-2, .9, .999
    if rng.random() < .7:
        step, b1, b2 = float(10**rng.uniform(-2.5, -.3)), float(rng.uniform(.5, .95)), float(rng.uniform(.9, .9995))
        kw = dict(step_size=step, beta1=b1, beta2=b2)
    L = Log(f, mon, lambda: opt_box[0], pself, len(args))
    if opt_box[0] is None:
        opt_box[0] = Minimize(L)
    else:
        opt_box[0].objective = L
    opt = opt_box[0]
    cbs = []

    def cb(o):
        mon.check("callback-argument", o is opt, repr(o))
        cbs.append((o.iteration, np.array(o.params), len(o.of_list), o.of_list[-1]))
    start, bkeep = p0.copy(), None if bounds is None else list(bounds)
    out = opt.adam(p0, Nepochs=ne, bounds=bounds, args=args, pass_self=pself, callback=cb if usecb else None, disp_p=bool(rng.random() < .5), **kw)
    mon.check("start-untouched", np.array_equal(p0, start) and (bounds is None or list(bounds) == bkeep), "start vector or bounds modified")
    used, after = adam_ref(lambda x: fac * g(x), p0.copy(), ne, lb, ub, bounds is not None, step, b1, b2)
    p, ofs = out
    sc = max(1., np.max(np.abs(used)))
    if not mon.check("adam-epochs", len(L.x) == ne and len(ofs) == ne, "%d evaluations, %d values for %d epochs" % (len(L.x), len(ofs), ne)):
        return
    mon.close("adam-params", np.array(L.x), np.array(used), rtol=1e-7, scale=sc, msg="%s %s" % (kind, bounds))
    mon.close("adam-final", p, after[-1], rtol=1e-7, scale=sc)
    mon.close("adam-objective", np.array(ofs, float), np.array([fac * float(f(x)) for x in L.x]), rtol=1e-10, scale=max(1., np.max(np.abs(L.v))))
    mon.check("bounds", all(np.all(x >= lb) and np.all(x <= ub) for x in L.x[1:]) and np.all(p >= lb) and np.all(p <= ub), "outside the bounds")
    if ne > 1 or np.array_equal(after[-1], used[-1]):
        mon.check("adam-last", np.array_equal(p, L.x[-1]), "returned vector is not the one of the last epoch")
    if pself:
        mon.check("iteration-counter", L.it == list(range(1, ne + 1)), L.it)
    if usecb:
        ok = [c[0] for c in cbs] == list(range(1, ne + 1)) and [c[2] for c in cbs] == list(range(1, ne + 1))
        mon.check("callback-once-per-epoch", ok, [(c[0], c[2]) for c in cbs])
        if ok:
            mon.close("callback-state", np.array([c[1] for c in cbs]), np.array(after), rtol=1e-7, scale=sc)
            mon.check("callback-objective", [c[3] for c in cbs] == list(ofs), "of_list in callbacks")
    mon.event("adam_epochs", ne)
    mon.event("snapped", sum(int(bounds is not None and np.any((x == lb) | (x == ub))) for x in L.x))


def run_lbfgs(rng, mon, opt_box, cfg=None):
    from legume.minimize import Minimize
    from scipy.optimize import minimize
    n, kind, f, g, bounds, lb, ub, p0, args, pself, usecb = cfg or draw(rng)
    fac = float(np.prod(args)) if args else 1.
    ne = int(rng.choice([1, 3, 50]))
    maxfun = 15000 if rng.random() < .8 else int(rng.integers(2, 12))
    L = Log(f, mon, lambda: opt_box[0], pself, len(args))
    if opt_box[0] is None:
        opt_box[0] = Minimize(L)
    else:
        opt_box[0].objective = L
    opt = opt_box[0]
    cbs = []

    def cb(o):
        mon.check("callback-argument", o is opt, repr(o))
        cbs.append((o.iteration, np.array(o.params), len(o.of_list), float(o.of_list[-1])))
    start = p0.copy()
    res = bool(rng.random() < .5)
    out = opt.lbfgs(p0, Nepochs=ne, bounds=bounds, maxfun=maxfun, args=args, pass_self=pself, callback=cb if usecb else None, res=res)
    mon.check("start-untouched", np.array_equal(p0, start), "start vector modified")
    F = lambda x: (fac * float(f(x)), fac * np.asarray(g(x), float))
    opts = dict(jac=True, method="L-BFGS-B", bounds=None if bounds is None else list(zip(lb, ub)),
                options=dict(maxcor=10, ftol=1e-8, gtol=1e-5, maxfun=maxfun, maxiter=ne, maxls=20))
    refs = [minimize(F, p0 * (1 + e), **opts) for e in (0., 1e-13, -1e-13, 1e-12, -1e-12)]
    ref = refs[0]
    # a trajectory that rounding errors send elsewhere has no unique result to compare with
    stable = all(r.nit == ref.nit and np.max(np.abs(r.x - ref.x)) < 1e-7 for r in refs)
    if not mon.check("lbfgs-returns", len(out) == (3 if res else 2), len(out)):
        return
    p, ofs = out[:2]
    sc = max(1., np.max(np.abs(ref.x)))
    if not stable:
        mon.skip("rounding decides the path")
        ref.x, ref.fun, ref.nit = p, fac * float(f(p)), opt.iteration
    mon.close("lbfgs-minimum", p, ref.x, rtol=1e-5, scale=sc, msg="%s %s" % (kind, bounds))
    mon.close("lbfgs-value", fac * float(f(p)), ref.fun, rtol=1e-7, scale=max(1., abs(ref.fun)))
    if res:
        mon.check("lbfgs-result", np.array_equal(out[2].x, p), "OptimizeResult differs from the returned vector")
    mon.close("lbfgs-first", float(ofs[0]), fac * float(f(p0)), rtol=1e-12, atol=1e-12, scale=max(1., abs(ofs[0])))
    mon.check("bounds", all(np.all(x >= lb - 1e-12) and np.all(x <= ub + 1e-12) for x in L.x[1:]), "outside the bounds")
    mon.check("lbfgs-iterations", len(ofs) == 1 + opt.iteration and opt.iteration <= ne and len(ofs) == 1 + ref.nit,
              "%d values, iteration %d, Nepochs %d, scipy %d" % (len(ofs), opt.iteration, ne, ref.nit))
    if usecb:
        ok = [c[0] for c in cbs] == list(range(1, len(ofs))) and [c[2] for c in cbs] == list(range(2, len(ofs) + 1))
        mon.check("callback-once-per-epoch", ok, [(c[0], c[2]) for c in cbs])
        for c in cbs:
            mon.close("lbfgs-history", c[3], fac * float(f(c[1])), rtol=1e-9, atol=1e-12, scale=max(1., abs(c[3])))
            mon.check("evaluated", any(np.array_equal(c[1], x) for x in L.x), "reported parameters never evaluated")
        if cbs:
            mon.check("callback-objective", [c[3] for c in cbs] == [float(v) for v in ofs[1:]], "values in the callbacks")
    mon.event("lbfgs_iterations", opt.iteration)
    mon.event("lbfgs_evaluations", len(L.x))


def run_case(case, mon):
    from legume.minimize import Minimize
    rng = np.random.default_rng(case["seed"])
    box = [None]
    k = case["kind"]
    mon.sig(case)
    mon.event("kind_" + k)
    if k == "adam":
        return run_adam(rng, mon, box)
    if k == "lbfgs":
        return run_lbfgs(rng, mon, box)
    if k == "reuse":
        for _ in range(3):
            if rng.random() < .3 and box[0] is not None:
                # a minimisation that dies half-way must not disturb the next one
                good = box[0].objective

                def bad(x, *a, c=[0]):
                    c[0] += 1
                    if c[0] > 2:
                        raise KeyError("objective failed")
                    import autograd.numpy as npa
                    return npa.sum(x**2)
                box[0].objective = bad
                mode = box[0].adam if rng.random() < .5 else box[0].lbfgs
                mon.raises("objective-error", KeyError, lambda: mode(np.ones(3) * 2., Nepochs=9))
                mon.event("failed_minimisations")
            (run_adam if rng.random() < .5 else run_lbfgs)(rng, mon, box)
        return
    if k == "badbounds":
        n = int(rng.integers(1, 6))
        n = n + 1 if n == 2 else n
        _, f, g = objective(rng, n)
        o = Minimize(f)
        p0 = rng.uniform(-1, 1, n)
        bads = [[0.], [0., 1., 2.], [(0., 1.)] * (n + 1), [(0., 1.)] * (n + 2), [(0., 1., 2.)] * n, [(0., )] * n, 3., []]
        if n > 1:
            bads += [[(0., 1.)] * (n - 1), [(0., 1.)] * (n - 1) + [(0., )]]
        for b in bads:
            for m in (o.adam, o.lbfgs):
                if b == [] and False:
                    continue
                mon.raises("malformed-bounds", ValueError, lambda: m(p0.copy(), Nepochs=2, bounds=b), msg=str(b))
        # still usable
        out = o.adam(p0.copy(), Nepochs=2, bounds=[-9., 9.])
        mon.check("usable-after-refusal", len(out[1]) == 2, out)
        return
    # a real simulation
    import legume
    import autograd.numpy as npa
    eps = float(rng.uniform(6, 13))
    lat = legume.Lattice("square")

    def f(x):
        lay = legume.phc.layer.ShapesLayer(lat, eps_b=eps)
        lay.add_shape(legume.Circle(eps=1., r=x[0], x_cent=x[1]))
        pwe = legume.PlaneWaveExp(lay, gmax=2.)
        pwe.run(kpoints=np.array([[.5, ], [.2, ]]), pol="te", numeig=3)
        return pwe.freqs[0, 1]
    legume.set_backend("autograd")
    try:
        p0 = np.array([rng.uniform(.15, .35), rng.uniform(-.1, .1)])
        L = Log(f, mon)
        o = Minimize(L)
        bounds = [(.1, .4), (-.2, .2)]
        if case["mode"] == "adam":
            p, ofs = o.adam(p0, Nepochs=4, step_size=.02, bounds=bounds)
            legume.set_backend("numpy")
            vals = [float(f(x)) for x in L.x]
            mon.close("adam-objective", np.array(ofs, float), np.array(vals), rtol=1e-9)

            def g(x, h=1e-5):
                return np.array([(f(x + h * e) - f(x - h * e)) / (2 * h) for e in np.eye(2)])
            used, _ = adam_ref(g, p0, 4, np.array([.1, -.2]), np.array([.4, .2]), True, .02, .9, .999)
            # Adam's normalised step amplifies the gradient error only where the gradient vanishes
            if min(np.min(np.abs(g(x))) for x in used) > 1e-4:
                mon.close("adam-params", np.array(L.x), np.array(used), rtol=1e-4, scale=.1)
            else:
                mon.skip("gradient vanishes")
        else:
            p, ofs = o.lbfgs(p0, Nepochs=3, bounds=bounds)
            legume.set_backend("numpy")
            mon.close("lbfgs-first", float(ofs[0]), float(f(p0)), rtol=1e-9)
            mon.check("decrease", ofs[-1] <= ofs[0] + 1e-12, ofs)
            mon.close("lbfgs-history", float(ofs[-1]), float(f(o.params)), rtol=1e-8)
        mon.check("bounds", all(np.all(x >= [.1 - 1e-12, -.2 - 1e-12]) and np.all(x <= [.4 + 1e-12, .2 + 1e-12]) for x in L.x), L.x)
    finally:
        legume.set_backend("numpy")


if __name__ == "__main__":
    core.main(sys.modules[__name__])
