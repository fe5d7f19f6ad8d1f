import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import core, geom
import numpy as np

PROPERTY = "C02"
QUICK_REPS = 24
RULE = ("random lattices (named, rectangular, oblique, left- and right-handed, rotated, very anisotropic), "
        "random Brillouin-zone paths (named points, explicit points as list/array, repeated Gamma, uneven ns, "
        "ns given as int/one-element list/list) and random real-space grids; distinct: lattice and path.")
ASSUMPTIONS = []


def cases(rng, tier):
    n = 60 if tier == "quick" else 600
    out = []
    for i in range(n):
        kinds = ("square", "hexagonal", "rect", "oblique", "rotsq")
        lat = geom.gen_lattice(rng, kinds=(kinds[i % 5],))
        if i % 7 == 3:
            lat = {"kind": "vec", "a1": [float(rng.uniform(.05, .3)), 0.],
                   "a2": [float(rng.uniform(-1, 1)), float(rng.uniform(2, 6))]}
        out.append(dict(kind="lattice", lat=lat, seed=int(rng.integers(1 << 30))))
    for lat in ("square", "hexagonal"):
        for v in range(4 if tier == "quick" else 20):
            out.append(dict(kind="named", lat={"kind": lat}, seed=int(rng.integers(1 << 30))))
    out.append(dict(kind="refuse"))
    return out


NAMED = {"square": {"G": (0, 0), "X": (np.pi, 0), "M": (np.pi, np.pi)},
         "hexagonal": {"G": (0, 0), "K": (4 * np.pi / 3, 0), "M": (np.pi, np.pi / np.sqrt(3))}}


def run_case(case, mon):
    import legume
    if case["kind"] == "refuse":
        return refuse(mon)
    rng = np.random.default_rng(case["seed"])
    lat = geom.build_lattice(case["lat"])
    a1, a2 = geom.vecs(case["lat"])
    b1, b2 = geom.recip(case["lat"])
    A = geom.cell_area(case["lat"])
    mon.close("a1", lat.a1, a1, rtol=1e-14)
    mon.close("a2", lat.a2, a2, rtol=1e-14)
    mon.close("b1", lat.b1, b1, rtol=1e-12)
    mon.close("b2", lat.b2, b2, rtol=1e-12)
    D = np.array([[np.dot(a, b) for b in (lat.b1, lat.b2)] for a in (lat.a1, lat.a2)])
    mon.close("duality", D, 2 * np.pi * np.eye(2), rtol=1e-11)
    mon.close("ec_area", lat.ec_area, A, rtol=1e-12)
    mon.close("bz_area", lat.bz_area, (2 * np.pi) ** 2 / A, rtol=1e-12)
    mon.check("area-positive", lat.ec_area > 0 and lat.bz_area > 0, "")
    k = case["lat"]["kind"]
    if k in ("square", "hexagonal"):
        want = k
    else:
        want = "rectangular" if float(np.dot(a1, a2)) == 0 else "custom"
    mon.check("type", lat.type == want, "%s, expected %s" % (lat.type, want))
    mon.event("lattices")

    for rep in range(24):
        path(case, mon, lat, rng)
    grids(case, mon, lat, a1, a2, rng)


def path(case, mon, lat, rng):
    k = case["lat"]["kind"]
    npts = int(rng.integers(2, 6))
    pts, ref = [], []
    for i in range(npts):
        while True:
            u = rng.random()
            if u < .55 and k in NAMED:
                nm = str(rng.choice(list(NAMED[k])))
                p = NAMED[k][nm]
                t = nm.lower() if rng.random() < .3 else nm
                if nm == "G" and rng.random() < .3:
                    t = "Gamma"
            elif u < .2:
                p, t = (0., 0.), "G"
            else:
                p = tuple(float(x) for x in rng.uniform(-4, 4, 2))
                v = rng.random()
                if v < .4:      # special directions: axes, diagonals, corners of the zone
                    c = float(rng.choice([np.pi, np.pi / 2, 1., 1e-4, abs(p[0])]))
                    p = [(c, -c), (-c, c), (-c, -c), (c, c), (0., c), (c, 0.), (0., -c),
                         (-c, 0.)][int(rng.integers(8))]
                t = list(p) if rng.random() < .5 else np.array(p)
            if not ref or np.hypot(p[0] - ref[-1][0], p[1] - ref[-1][1]) > 1e-6:
                break
        pts.append(t)
        ref.append(p)
    ref = np.array(ref, float)
    nseg = npts - 1
    top = 9 if rng.random() < .8 else 90
    u = rng.random()
    if u < .35:
        ns = [int(rng.integers(1, top))]
        nref = np.full(nseg, ns[0])
    elif u < .5:
        ns = int(rng.integers(1, top))
        nref = np.full(nseg, ns)
    else:
        nref = rng.integers(1, top, nseg)
        ns = [int(x) for x in nref] if rng.random() < .7 else (
            np.array(nref) if nseg > 1 else [int(nref[0])])
    kw = {}
    sg = np.array([np.pi, 0.])
    if rng.random() < .4:
        if k in NAMED and rng.random() < .5:
            nm = str(rng.choice([q for q in NAMED[k] if q != "G"]))
            kw["symm_g"] = nm
            sg = np.array(NAMED[k][nm])
        else:
            sg = rng.uniform(-2, 2, 2)
            kw["symm_g"] = [float(x) for x in sg]
    res = lat.bz_path(pts, ns, **kw)
    mon.event("paths")
    inds = np.concatenate([[0], np.cumsum(nref)])
    want = np.zeros((2, inds[-1] + 1))
    for s in range(nseg):
        t = np.arange(nref[s]) / nref[s]
        want[:, inds[s]:inds[s + 1]] = ref[s][:, None] + (ref[s + 1] - ref[s])[:, None] * t
    want[:, -1] = ref[-1]
    kp = res["kpoints"]
    if not mon.close("path-kpoints", kp, want, rtol=1e-12, atol=1e-12, msg="%s %s" % (pts, ns)):
        return
    mon.event("path_kpoints", kp.shape[1])
    mon.check("path-indexes", [int(i) for i in res["indexes"]] == [int(i) for i in inds],
              "%s, expected %s" % (res["indexes"], inds))
    mon.close("path-corners", kp[:, res["indexes"]].T, ref, rtol=1e-12, atol=1e-12)
    L = np.hypot(*(ref[1:] - ref[:-1]).T)
    wk = np.concatenate([[0], np.cumsum(L)]) / L.sum()
    mon.close("path-k_indexes", np.asarray(res["k_indexes"]), wk, rtol=1e-10, atol=1e-12)
    ang = np.degrees(np.arctan2(kp[1], kp[0]))
    g0 = (kp[0] == 0) & (kp[1] == 0)
    ang[g0] = np.degrees(np.arctan2(sg[1], sg[0]))
    got = np.array(res["angles"], float)
    if mon.check("path-angles-length", len(got) == kp.shape[1], len(got)):
        d = (got - ang + 180) % 360 - 180
        d[~g0 & (np.hypot(*kp) < 1e-12)] = 0      # rounding noise around Gamma
        mon.close("path-angles", d, 0 * d, rtol=0, atol=1e-9, msg=str((pts, got, ang)))
    lab = res["labels"]
    ok = len(lab) == npts
    for t, l in zip(pts, lab):
        if isinstance(t, str):
            ok = ok and l == t.upper()
        else:
            ok = ok and ("%.2f" % (t[0] / np.pi)) in l and ("%.2f" % (t[1] / np.pi)) in l
    mon.check("path-labels", ok, "%s for %s" % (lab, pts))


def grids(case, mon, lat, a1, a2, rng):
    ex = max(abs(a1[0]), abs(a2[0]))
    ey = max(abs(a1[1]), abs(a2[1]))
    k = case["lat"]["kind"]
    for rep in range(4):
        Nx, Ny = (int(n) for n in rng.integers(2, 40, 2))
        per = None if rep == 0 else [float(rng.integers(1, 4)), float(rng.uniform(.5, 3))]
        if rep == 2:
            per = int(rng.integers(1, 4))
        if rep == 3:
            per = tuple(per)
        x, y = lat.xy_grid(Nx=Nx, Ny=Ny, **({} if per is None else {"periods": per}))
        if per is None:
            p = [1, 1] if lat.type in ("square", "rectangular") else [2, 2]
        else:
            p = [per, per] if np.ndim(per) == 0 else per
        mon.close("grid-x", x, np.linspace(-ex, ex, Nx) * p[0] / 2, rtol=1e-12, msg=str((case["lat"], per)))
        mon.close("grid-y", y, np.linspace(-ey, ey, Ny) * p[1] / 2, rtol=1e-12, msg=str((case["lat"], per)))
        mon.event("grids")
    x, y = lat.xy_grid()
    mon.check("grid-default-size", len(x) == 100 and len(y) == 100, "")


def refuse(mon):
    import legume
    sq, hx = legume.Lattice("square"), legume.Lattice("hexagonal")
    ob = legume.Lattice([1., 0.], [.3, 1.])
    rc = legume.Lattice([1., 0.], [0., 1.])
    for f in (lambda: legume.Lattice("triangular"), lambda: sq.bz_path(["G", "K"], [3]),
              lambda: hx.bz_path(["G", "X"], [3]), lambda: ob.bz_path(["G", "M"], [3]),
              lambda: rc.bz_path(["G", "X"], [3]), lambda: sq.bz_path(["G"], [3]),
              lambda: sq.bz_path(["G", "X", "M"], [3, 4, 5]), lambda: sq.bz_path(["G", "Q"], [3])):
        mon.raises("refused", ValueError, f)
        mon.event("refusals")


if __name__ == "__main__":
    core.main(sys.modules[__name__])
