import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import core, geom
import numpy as np

PROPERTY = "C03"
QUICK_REPS = 4
RULE = ("random crystals (1-4 layers, every shape class, overlapping shapes, shapes crossing the cell border, "
        "centres several cells away, cladding shapes, shapes added one by one / as lists / to chosen layers); "
        "permittivity read at random 3D points spread over many periods; points within 1e-6 of a shape or "
        "layer boundary are skipped. Distinct: crystal description.")


def cases(rng, tier):
    n = 40 if tier == "quick" else 400
    out = []
    for i in range(n):
        lat = geom.gen_lattice(rng)
        if i % 9 == 4:
            lat = {"kind": "vec", "a1": [1., 0.], "a2": [round(float(rng.uniform(1.2, 2.2)), 3), round(float(rng.uniform(.5, .9)), 3)]}
        spec = geom.gen_spec(rng, nlay=1 + i % 4, nshapes=3, lat=lat, clad_shapes=True,
                             size=float(rng.choice([.15, .3, .6])))
        if i % 4 == 2:      # far away centres
            for la in spec["layers"]:
                for s in la["shapes"]:
                    if "x" in s:
                        s["x"] += float(rng.integers(-3, 4))
                        s["y"] += float(rng.integers(-3, 4))
        if i % 10 == 7:     # many layers, some of them extremely thin or thick
            for _ in range(int(rng.integers(2, 7))):
                spec["layers"].insert(int(rng.integers(len(spec["layers"]) + 1)), dict(
                    d=float(np.round(10 ** rng.uniform(-3.5, 1), 6)), eps_b=round(float(rng.uniform(1, 13)), 3),
                    shapes=[geom.gen_shape(rng, round(float(rng.uniform(1, 13)), 3)) for _ in range(int(rng.integers(0, 3)))]))
        if i % 10 == 3:
            spec = geom.scale_spec(spec, geom.gen_units(rng, 1.))
        out.append(dict(kind="crystal", site="general", spec=spec, order=int(rng.integers(0, 4)),
                        seed=int(rng.integers(1 << 30))))
    return out


def build(spec, order, rng):
    """The same crystal through the different documented ways of adding shapes."""
    import legume
    if order == 0:
        return geom.build_phc(spec)
    lat = geom.build_lattice(spec["lattice"])
    phc = legume.PhotCryst(lat, eps_l=spec["eps_l"], eps_u=spec["eps_u"])
    if order == 3:      # claddings first
        for c, shs in spec.get("clad", {}).items():
            phc.add_shape([geom.build_shape(s) for s in shs], cladding=c if rng.random() < .5 else {"l": 0, "u": 1}[c])
    for la in spec["layers"]:
        phc.add_layer(la["d"], la["eps_b"])
    jobs = []
    for i, la in enumerate(spec["layers"]):
        jobs.append((i, None, [geom.build_shape(s) for s in la["shapes"]]))
    for c, shs in (spec.get("clad", {}).items() if order < 3 else ()):
        jobs.append((-1, c if rng.random() < .5 else {"l": 0, "u": 1}[c], [geom.build_shape(s) for s in shs]))
    for j in rng.permutation(len(jobs)):
        i, c, shs = jobs[j]
        if not shs:
            continue
        kw = {"cladding": c} if c is not None else {"layer": i}
        if order in (1, 3):
            phc.add_shape(shs, **kw)
        else:
            phc.add_shape(shs[0], **kw)
            if len(shs) > 1:
                phc.add_shape(shs[1:], **kw)
    return phc


def run_case(case, mon):
    rng = np.random.default_rng(case["seed"])
    spec = case["spec"]
    phc = build(spec, case["order"], rng)
    lays = geom.all_layers(spec)
    mon.check("layer-count", len(phc.layers) == len(spec["layers"]) and len(phc.claddings) == 2, "")
    for la, (z0, z1, eb, shs) in zip(phc.layers, lays[1:-1]):
        mon.close("layer-z", [la.z_min, la.z_max, la.d, la.z_mid], [z0, z1, z1 - z0, (z0 + z1) / 2], rtol=1e-12)
    mon.close("cladding-z", [phc.claddings[0].z_max, phc.claddings[1].z_min], [0., lays[-1][0]], rtol=1e-12)
    ztot = lays[-1][0]
    mon.check("cladding-extent", phc.claddings[0].z_min < -1e3 and phc.claddings[1].z_max > 1e3, "")
    objs = [phc.claddings[0]] + list(phc.layers) + [phc.claddings[1]]
    for la, (z0, z1, eb, shs) in zip(objs, lays):
        mon.close("eps_avg", np.squeeze(la.eps_avg), geom.layer_avg(spec["lattice"], eb, shs), rtol=1e-7)
        mon.check("shape-count", len(la.shapes) == len(shs), "")
    alle = [v for (z0, z1, eb, shs) in lays for v in [eb] + [s["eps"] for s in shs]]
    b = phc.get_eps_bounds()
    mon.close("bounds", np.array(b, float), [min(alle), max(alle)], rtol=1e-12)

    # points
    a1, a2 = geom.vecs(spec["lattice"])
    N = 3000
    f = rng.uniform(-3, 3, (2, N))
    x = a1[0] * f[0] + a2[0] * f[1]
    y = a1[1] * f[0] + a2[1] * f[1]
    edges = np.array([l[1] for l in lays[:-1]])
    pad = float(rng.choice([1., ztot, .1 * ztot]))
    z = rng.uniform(-pad, ztot + pad, N)
    near = rng.random(N) < .3
    z[near] = rng.choice(edges, near.sum()) + rng.choice([-1, 1], near.sum()) * 10 ** rng.uniform(-6, -2, near.sum())
    z[:20] = rng.choice([-1e4, -50., 50., 1e4], 20)
    zok = np.min(np.abs(z[:, None] - edges[None, :]), axis=1) > 5e-7
    x, y, z = x[zok], y[zok], z[zok]
    shp = (len(x) // 2, 2)
    n = shp[0] * 2
    x, y, z = x[:n], y[:n], z[:n]
    want = np.zeros(n)
    marg = np.zeros(n)
    back = np.zeros(n)
    for (z0, z1, eb, shs) in lays:
        m = (z > z0) & (z <= z1)
        want[m], marg[m] = geom.layer_eps(spec["lattice"], eb, shs, x[m], y[m])
        back[m] = eb
    got = phc.get_eps((x.reshape(shp), y.reshape(shp), z.reshape(shp)))
    mon.check("eps-shape", got.shape == shp, got.shape)
    got = got.ravel()
    sure = marg > 1e-6
    bad = (np.abs(got - want) > 1e-9 * np.abs(want)) & sure
    mon.event("points", int(sure.sum()))
    mon.event("points_inside_shapes", int((sure & (want != back)).sum()))
    mon.check("eps", not bad.any(), "%d of %d points differ; first at (%s, %s, %s): got %s expected %s" %
              (bad.sum(), n, x[bad][:1], y[bad][:1], z[bad][:1], got[bad][:1], want[bad][:1]))
    mon.check("eps-in-bounds", got.min() >= b[0] - 1e-12 and got.max() <= b[1] + 1e-12, "")
    # lattice periodicity of the library's own answer
    n1, n2 = rng.integers(-2, 3, 2)
    t = n1 * a1 + n2 * a2
    g2 = phc.get_eps((x + t[0], y + t[1], z))
    w = (np.abs(g2 - got) > 1e-9) & sure
    mon.check("eps-periodic", not w.any(), "%d points" % w.sum())
    # single points: the answer does not depend on which other points are asked
    for j in rng.integers(0, n, 40):
        if not sure[j]:
            continue
        o = phc.get_eps((np.array([x[j]]), np.array([y[j]]), np.array([z[j]])))
        mon.close("eps-single-point", o, [want[j]], rtol=1e-9)
    # the layer's own method
    for la, (z0, z1, eb, shs) in zip(objs, lays):
        L = max(np.linalg.norm(a1), np.linalg.norm(a2))
        X, Y = np.meshgrid(L * rng.uniform(-2, 2, 15), L * rng.uniform(-2, 2, 11))
        w, m = geom.layer_eps(spec["lattice"], eb, shs, X, Y)
        gl = la.get_eps((X, Y))
        bad = (np.abs(gl - w) > 1e-9) & (m > 1e-6)
        mon.check("layer-eps", not bad.any(), "")
    # Fourier transform of the layer
        n = rng.integers(-4, 5, (2, 12))
        n[:, 0] = 0
        b1, b2 = geom.recip(spec["lattice"])
        G = np.outer(b1, n[0]) + np.outer(b2, n[1])
        ft = geom.layer_ft(spec["lattice"], eb, shs, G)
        mon.close("layer-ft", la.compute_ft(G), ft, rtol=1e-4, scale=max(1., np.abs(ft).max()), atol=1e-7)
    # z grid used by plots
    Nz, dist = int(rng.integers(5, 60)), float(rng.uniform(.1, 3))
    mon.close("z_grid", phc.z_grid(Nz=Nz, dist=dist), np.linspace(-dist, ztot + dist, Nz), rtol=1e-12)


if __name__ == "__main__":
    core.main(sys.modules[__name__])
