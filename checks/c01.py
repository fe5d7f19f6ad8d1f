import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import core, geom
import numpy as np

PROPERTY = "C01"
QUICK_REPS = 20
TOL = 1e-7
RULE = ("random shapes of every class (centres, sizes, aspect ratios, rotations, vertex counts); "
        "each is evaluated at random, axis-aligned, edge-normal, edge-parallel and lattice wave vectors, "
        "and at random, vertex-near and far points. Non-trivial: non-empty region; distinct: shape description.")
ASSUMPTIONS = ["relative accuracy asked of the Fourier transform: 1e-7 of the area"]


def cases(rng, tier):
    n = 90 if tier == "quick" else 900
    out = []
    kinds = ["circle", "ellipse", "poly", "square", "hexagon", "fourier"]
    for i in range(n):
        k = kinds[i % 6]
        size = float(rng.choice([.05, .25, .25, .6, 2.]))
        s = geom.gen_shape(rng, 2., size=size, cent=float(rng.choice([0., .3, 3.])), kinds=[k])
        if k == "ellipse" and i % 4 == 0:
            s["phi"] = float(rng.choice([0., np.pi / 2, np.pi, np.pi / 4]))
        if k == "poly" and i % 4 == 1:     # concave / collinear vertices
            t = .3 * size
            s = dict(t="poly", eps=2., xs=[0., 3 * t, 3 * t, t, t, 0.], ys=[0., 0., t, t, 3 * t, 3 * t])
            if rng.random() < .5:
                s["rot"] = float(rng.uniform(-3, 3))
            s["xs"] = [x + .1 for x in s["xs"]]
        out.append(dict(kind="shape", s=s, seed=int(rng.integers(1 << 30))))
    for i in range(6 if tier == "quick" else 30):
        out.append(dict(kind="refuse", seed=int(rng.integers(1 << 30))))
    out.append(dict(kind="tiny", site="poly-tiny-g",
                    s=dict(t="poly", eps=2., xs=[.1, .5, .2], ys=[0., .1, .4])))
    return out


def run_case(case, mon):
    import legume
    rng = np.random.default_rng(case.get("seed", 0))
    if case["kind"] == "refuse":
        return refuse(rng, mon)
    s = case["s"]
    o = geom.build_shape(s)
    c, R = geom.shape_bbox_radius(s)
    A = geom.shape_area(s)
    sc = max(A, 1e-6)
    if case["kind"] == "tiny":
        g = np.array([[1e-9, 1e-7], [2e-9, -1e-7]])
        mon.close("ft-tiny-g", o.compute_ft(g), geom.shape_ft(s, g), rtol=1e-4, scale=sc)
        mon.close("ft-at-zero", np.squeeze(o.compute_ft(np.zeros((2, 1)))), A, rtol=1e-9)
        return
    # wave vectors
    gs = [rng.uniform(-30, 30, (2, 24)) / max(R, .1),
          np.array([[0, 0, 5, -7., 0, 2 * np.pi], [3, -9, 0, 0, 0, 0.]]) / max(R, .3),
          2 * np.pi * rng.integers(-4, 5, (2, 12)).astype(float)]
    h1, h2 = geom.recip({"kind": "hexagonal"})
    n = rng.integers(-4, 5, (2, 12))
    gs.append(np.outer(h1, n[0]) + np.outer(h2, n[1]))
    v = geom.vertices(s)
    nreg = sum(q.shape[1] for q in gs)
    if v is not None:
        d = (np.roll(v, -1, axis=0) - v)[:8]
        L = np.hypot(*d.T)
        d = d[L > 1e-9] / L[L > 1e-9][:, None]
        # (|gx| << |gy| along such directions is doubly degenerate, see ASSUMPTIONS)
        d = d[(np.abs(d).min(axis=1) > .03) | (np.abs(d).min(axis=1) < 1e-9)]
        d[np.abs(d) < 1e-9] = 0.
        t = rng.uniform(.5, 10, len(d)) / max(R, .1)
        gs.append((d * t[:, None]).T)
        gs.append(np.array([-d[:, 1] * t, d[:, 0] * t]))
    if s["t"] == "ellipse":
        ph = s["phi"]
        gs.append(np.array([[np.cos(ph), -np.sin(ph)], [np.sin(ph), np.cos(ph)]]) * 7.)
    g = np.hstack(gs)
    # small but non-zero components and small wave vectors
    t = 10. ** rng.uniform(-7, -2, 8)
    a = rng.uniform(0, 2 * np.pi, 8)
    g = np.hstack([g, [t, rng.uniform(-9, 9, 8)], [rng.uniform(-9, 9, 8), -t], [t * np.cos(a), t * np.sin(a)]])
    ft = o.compute_ft(g)
    want = geom.shape_ft(s, g)
    mon.event("ft_values", g.shape[1])
    mon.close("ft", ft[:nreg], want[:nreg], rtol=TOL, scale=sc, msg=str(s))
    # along / across an edge, and at small wave vectors, a closed form is 0/0
    mon.close("ft-edge-directions", ft[nreg:], want[nreg:], rtol=TOL, scale=sc, msg=str(s))
    # complex conjugation, any accepted layout of g
    mon.close("ft-conjugate", o.compute_ft(-g), np.conj(ft), rtol=1e-9, scale=sc)
    # any number of wave vectors at once, (2, Ng) first whenever both readings are possible
    for n in (1, 2, 3, 4):
        i = rng.permutation(g.shape[1])[:n]
        mon.close("ft-count", o.compute_ft(g[:, i]), ft[i], rtol=1e-12, scale=sc, msg="%d vectors" % n)
        if n != 2:
            mon.close("ft-count", o.compute_ft(g[:, i].T), ft[i], rtol=1e-12, scale=sc, msg="%d vectors, transposed" % n)
    mon.close("ft-transposed-input", o.compute_ft(g.T[:5]), ft[:5], rtol=1e-12, scale=sc)
    mon.close("ft-list-input", o.compute_ft([list(g[0, :5]), list(g[1, :5])]), ft[:5], rtol=1e-12, scale=sc)
    # the g=0 value wherever it stands in the list
    gz = np.hstack([g[:, :3], np.zeros((2, 1)), g[:, 3:6]])
    fz = o.compute_ft(gz)
    mon.close("ft-at-zero", fz[3], A, rtol=1e-8)
    mon.close("ft-mixed-list", np.delete(fz, 3), ft[:6], rtol=1e-9, scale=sc)
    mon.close("area", np.squeeze(o.area), A, rtol=1e-8, msg=str(s))

    # inside test
    x = np.hstack([c[0] + R * rng.uniform(-1.4, 1.4, 400), [c[0], c[0] + 5 * R, -c[0]]])
    y = np.hstack([c[1] + R * rng.uniform(-1.4, 1.4, 400), [c[1], c[1], -c[1]]])
    if v is not None:
        x = np.hstack([x, v[:, 0] + .02 * R * rng.normal(size=len(v))])
        y = np.hstack([y, v[:, 1] + .02 * R * rng.normal(size=len(v))])
    ins, mar = geom.shape_inside(s, x, y)
    sure = mar > 1e-7 * R
    got = np.asarray(o.is_inside(x, y))
    mon.event("points", len(x))
    mon.check("inside-shape", got.shape == x.shape, got.shape)
    bad = (got.astype(bool) != ins) & sure
    mon.check("inside", not bad.any(), "%d of %d points differ for %s, first (%s, %s)" %
              (bad.sum(), len(x), s, x[bad][:1], y[bad][:1]))
    X, Y = x[:400].reshape(20, 20), y[:400].reshape(20, 20)
    g2 = np.asarray(o.is_inside(X, Y))
    mon.check("inside-2d", g2.shape == X.shape and np.array_equal(g2.ravel(), got[:400]), "")
    # the two agree with each other without my reference: quadrature of the mask
    N = 400
    t = (np.arange(N) + .5) / N * 2 - 1
    X, Y = np.meshgrid(c[0] + 1.02 * R * t, c[1] + 1.02 * R * t)
    M = np.asarray(o.is_inside(X, Y))
    dA = (2.04 * R / N) ** 2
    for q in np.array([[0., 0.], [2., 1.], [-1., 3.]]) / R:
        num = np.sum(M * np.exp(-1j * (q[0] * X + q[1] * Y))) * dA
        mon.close("ft-vs-inside", o.compute_ft(q[:, None])[0], num, rtol=0.,
                  atol=8. / N * R * R, msg=str(s))

    # rotation in place
    if v is not None:
        ang = float(rng.uniform(-4, 4))
        o2 = geom.build_shape(s)
        r = o2.rotate(ang)
        mon.check("rotate-returns-self", r is o2, "")
        s2 = dict(t="poly", eps=2., xs=list(v[:, 0]), ys=list(v[:, 1]), rot=ang)
        gr = rng.uniform(-20, 20, (2, 16)) / max(R, .1)
        mon.close("rotate-ft", o2.compute_ft(gr), geom.shape_ft(s2, gr), rtol=5e-6, scale=sc)
        mon.close("rotate-area", o2.compute_ft(np.zeros((2, 1)))[0], A, rtol=1e-7)
        mon.close("rotate-area-attr", np.squeeze(o2.area), A, rtol=1e-7)
        # one full turn in unequal steps comes back
        for a in (1., 2.2, 2 * np.pi - 3.2 - ang):
            o2.rotate(a)
        mon.close("rotate-full-turn", o2.compute_ft(gr), geom.shape_ft(s, gr), rtol=1e-5, scale=sc)
        mon.event("rotations", 4)


def refuse(rng, mon):
    import legume
    s = geom.gen_shape(rng, 2., kinds=["poly"])
    s.pop("rot", None)
    mon.raises("clockwise-refused", ValueError,
               lambda: legume.Poly(eps=2., x_edges=s["xs"][::-1], y_edges=s["ys"][::-1]))
    k = int(rng.integers(1, 4))
    f = [1.] + [0.] * (k - 1) + [float(rng.uniform(.7, 2.))]
    mon.raises("negative-radius-refused", ValueError,
               lambda: legume.FourierShape(eps=2., f_as=np.array(f)))
    mon.raises("negative-radius-refused", ValueError,
               lambda: legume.FourierShape(eps=2., f_as=np.array([1.]), f_bs=np.array(f[1:])))
    mon.event("refusals", 3)


if __name__ == "__main__":
    core.main(sys.modules[__name__])
