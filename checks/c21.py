import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import core, geom
import numpy as np
import tempfile, shutil

PROPERTY = "C21"
QUICK_REPS = 12
RULE = ("random crystals (all shape kinds, rotated, several layers, empty layers, shapes outside the cell) and random rasters (blobs on rectangular grids over "
        "oblique cells, several levels) exported several times in one process, also after a refused export, in random units and tolerances; the "
        "files are read back and compared as regions with the description. Distinct: drawn structures.")
ASSUMPTIONS = ["read back with gdspy; database step 1e-9 m, so coordinates are exact to 1e-9/unit",
               "raster row index runs along a1 and column index along a2 over the cell centred at the origin",
               "curves with more points than one GDS polygon may hold are allowed to be split"]
CASE_TIMEOUT = 120


def cases(rng, tier):
    n = 200 if tier == "quick" else 2500
    return [dict(kind="shapes" if i % 2 else "raster", seed=int(rng.integers(1 << 30))) for i in range(n)]


def read(fn):
    import gdspy
    lib = gdspy.GdsLibrary()
    lib.read_gds(fn, units="import")
    out = []
    for c in lib.cells.values():
        for p in c.polygons:
            for v, l, d in zip(p.polygons, p.layers, p.datatypes):
                out.append((l, d, np.array(v, float)))
        if c.references or c.labels or c.paths:
            out.append((-1, -1, np.zeros((0, 2))))
    return lib.unit, out


def inpoly(v, x, y):
    """Even-odd test, vectorised over points."""
    r = np.zeros(x.shape, bool)
    w = np.roll(v, -1, axis=0)
    for (x0, y0), (x1, y1) in zip(v, w):
        c = (y0 > y) != (y1 > y)
        with np.errstate(divide="ignore", invalid="ignore"):
            r ^= c & (x < (x1 - x0) * (y - y0) / (y1 - y0) + x0)
    return r


def region_matches(rng, s, polys, tol):
    """True if the union of polys is the region of s to within distance tol of its boundary."""
    v = geom.vertices(s)
    if v is not None:
        lo, hi = v.min(0), v.max(0)
    else:
        r = s["r"] if s["t"] == "circle" else max(s["rx"], s["ry"])
        lo, hi = np.array([s["x"] - r, s["y"] - r]), np.array([s["x"] + r, s["y"] + r])
    allv = np.vstack(polys)
    if np.any(allv.min(0) < lo - tol) or np.any(allv.max(0) > hi + tol):
        return False, "extent %s %s, expected %s %s" % (allv.min(0), allv.max(0), lo, hi), 0
    m = .15 * (hi - lo)
    P = rng.uniform(lo - m, hi + m, (500, 2))
    # denser near the boundary
    k = rng.integers(len(allv), size=300)
    P = np.vstack([P, allv[k] + rng.normal(0, 3 * tol, (300, 2))])
    ins = np.asarray(geom.shape_inside(s, P[:, 0], P[:, 1])[0], bool)
    safe = np.ones(len(P), bool)
    if v is not None:
        for q0, q1 in zip(v, np.roll(v, -1, axis=0)):
            e = q1 - q0
            if np.dot(e, e) > 0:
                u = np.clip((P - q0) @ e / np.dot(e, e), 0, 1)
                safe &= np.hypot(*(q0 + u[:, None] * e - P).T) > tol
    for a in np.arange(16) * np.pi / 8:
        safe &= np.asarray(geom.shape_inside(s, P[:, 0] + tol * np.cos(a), P[:, 1] + tol * np.sin(a))[0], bool) == ins
    got = np.zeros(len(P), bool)
    for q in polys:
        got |= inpoly(q, P[:, 0], P[:, 1])
    bad = safe & (got != ins)
    if np.any(bad):
        i = np.argmax(bad)
        return False, "point %s: in file %s, in shape %s" % (P[i], got[i], ins[i]), int(safe.sum())
    return True, "", int(safe.sum())


def run_shapes(rng, mon, d):
    import legume
    from legume import gds
    todo = []
    for k in range(int(rng.integers(1, 4))):
        spec = geom.gen_spec(rng, nlay=int(rng.integers(1, 4)), nshapes=int(rng.integers(1, 4)))
        for la in spec["layers"]:
            for s in la["shapes"]:
                if rng.random() < .2:
                    for q in ("x", "y"):
                        if q in s:
                            s[q] = s[q] + float(rng.uniform(-2, 2))
        phc = geom.build_phc(spec)
        unit = float(rng.choice([1e-6, 4.2e-7, 1e-5, 1e-3]))
        tol = float(rng.choice([.01, .003, .001]))
        fn = os.path.join(d, "x%d.gds" % k)
        kw = {}
        if unit != 1e-6 or rng.random() < .5:
            kw["unit"] = unit
        if tol != .01 or rng.random() < .5:
            kw["tolerance"] = tol
        before = repr(phc)
        with core.Quiet():
            gds.generate_gds(phc, fn, **kw)
        mon.check("crystal-untouched", repr(phc) == before, "crystal changed by the export")
        todo.append((fn, spec, unit, tol))
        mon.event("exports")
        if rng.random() < .3:
            bad = geom.build_phc(spec)
            
            class Other(legume.Shape):
                def __init__(self):
                    self.eps = 2.
            bad.layers[0].shapes.append(Other())
            mon.raises("unknown-shape", RuntimeError, lambda: gds.generate_gds(bad, os.path.join(d, "bad.gds")))
    for fn, spec, unit, tol in todo:
        u, polys = read(fn)
        mon.close("unit", u, unit, rtol=1e-9, atol=0.)
        res = 1e-9 / unit
        want = sum(len(la["shapes"]) for la in spec["layers"])
        mon.event("polygons", len(polys))
        mon.check("layers", {p[0] for p in polys} == {i for i, la in enumerate(spec["layers"]) if la["shapes"]}, sorted({p[0] for p in polys}))
        for i, la in enumerate(spec["layers"]):
            rest = [p[2] for p in polys if p[0] == i]
            for s in la["shapes"]:
                v = geom.vertices(s)
                t = (1.15 * tol if v is None else 0.) + 1.6 * res
                # pieces of one shape follow one another; a shape may need several when it has many points
                hit, msg, n = False, "no polygon left", 0
                if v is None:
                    r = s["r"] if s["t"] == "circle" else max(s["rx"], s["ry"])
                    npc = 1 if 1.2 * np.pi / np.arccos(max(-1., 1 - tol / r)) + 2 < 199 else 99
                else:
                    npc = 1 if len(v) < 190 else 99
                for a in range(len(rest)):
                    for b in range(a + 1, min(len(rest), a + npc) + 1):
                        ok, m, n = region_matches(rng, s, rest[a:b], t)
                        if ok:
                            hit = True
                            rest = rest[:a] + rest[b:]
                            break
                        msg = m
                    if hit:
                        break
                mon.event("points_tested", n)
                mon.check("region-" + s["t"], hit, "%s in layer %d: %s" % (s, i, msg))
                mon.event("shape_" + s["t"])
            mon.check("one-polygon-per-shape", not rest, "%d polygons in layer %d belong to no shape" % (len(rest), i))


def run_raster(rng, mon, d):
    from legume import gds
    todo = []
    for k in range(int(rng.integers(1, 3))):
        lat = geom.gen_lattice(rng)
        n0, n1 = int(rng.integers(60, 140)), int(rng.integers(60, 140))
        I, J = np.meshgrid(np.arange(n0), np.arange(n1), indexing="ij")
        blobs = []
        for (ci, cj) in [(.27, .27), (.27, .73), (.73, .27), (.73, .73)]:
            if rng.random() < .6:
                blobs.append((ci * n0 + rng.uniform(-2, 2), cj * n1 + rng.uniform(-2, 2), rng.uniform(4.5, .085 * n0 + 2), rng.uniform(4.5, .085 * n1 + 2)))
        F = np.zeros((n0, n1))
        for (ci, cj, si, sj) in blobs:
            F = np.maximum(F, np.exp(-((I - ci) / si)**2 - ((J - cj) / sj)**2))
        levels = [[.5], [.4, .7], [.3, .5, .8]][int(rng.integers(3))]
        off, fac = 0., 1.
        if rng.random() < .6:           # any levels, in any order, of any quantity
            levels = [round(float(x), 3) for x in rng.permutation(np.linspace(.25, .8, int(rng.integers(2, 6))) + rng.uniform(-.04, .04))]
            if rng.random() < .5:
                off, fac = round(float(rng.uniform(-3, 3)), 2), float(rng.choice([-1, 1])) * round(float(rng.uniform(.3, 12)), 2)
        unit = float(rng.choice([1e-6, 1e-5, 1e-3]))
        cb = bool(rng.random() < .6)
        kw = {}
        if levels != [.5] or rng.random() < .5:
            kw["levels"] = [off + fac * l for l in levels]
            if rng.random() < .2:
                kw["levels"] = np.array(kw["levels"])
        if not cb or rng.random() < .5:
            kw["cell_bound"] = cb
        fn = os.path.join(d, "r%d.gds" % k)
        F = off + fac * F
        Fk, lk = F.copy(), [float(x) for x in kw.get("levels", [])]
        gds.generate_gds_raster(geom.build_lattice(lat), F, fn, unit=unit, **kw)
        mon.check("raster-untouched", np.array_equal(F, Fk) and [float(x) for x in kw.get("levels", [])] == lk, "raster or levels modified")
        mon.event("raster_exports")
        todo.append((fn, lat, n0, n1, blobs, levels, unit, cb))
    for fn, lat, n0, n1, blobs, levels, unit, cb in todo:
        u, polys = read(fn)
        mon.close("unit", u, unit, rtol=1e-9, atol=0.)
        res = 1e-9 / unit
        a1, a2 = geom.vecs(lat)
        T = np.array([a1, a2]).T
        cellp = [p for p in polys if p[1] == 1]
        mon.check("outline-count", len(cellp) == (1 if cb else 0), "%d outlines, cell_bound=%s" % (len(cellp), cb))
        if cb and cellp:
            want = np.array([[-.5, -.5], [-.5, .5], [.5, .5], [.5, -.5]]) @ T.T
            got = cellp[0][2]
            ok = len(got) in (4, 5) and all(np.min(np.hypot(*(got - w).T)) < 2 * res for w in want)
            mon.check("outline", ok, "outline %s, cell %s" % (got, want))
        cont = [p[2] for p in polys if p[1] != 1]
        mon.check("contour-count", len(cont) == len(blobs) * len(levels), "%d contours for %d blobs, %d levels" % (len(cont), len(blobs), len(levels)))
        used = set()
        sc = max(np.hypot(*a1), np.hypot(*a2)) / (min(n0, n1) - 1)
        for lev in levels:
            for bi, (ci, cj, si, sj) in enumerate(blobs):
                r = np.sqrt(-np.log(lev))
                best = None
                for q, v in enumerate(cont):
                    if q in used:
                        continue
                    w = np.linalg.solve(T, v.T) + .5
                    i, j = w[0] * (n0 - 1), w[1] * (n1 - 1)
                    e = np.max(np.abs(np.hypot((i - ci) / si, (j - cj) / sj) - r)) * min(si, sj)
                    if best is None or e < best[0]:
                        best = (e, q)
                tol = .2 + 1.6 * res / sc * np.linalg.cond(T)
                if mon.check("contour", best is not None and best[0] < tol, "level %g blob %d: nearest contour is %s raster steps away" % (lev, bi, best and best[0])):
                    used.add(best[1])
                    A = abs(geom.poly_area(cont[best[1]]))
                    mon.close("contour-area", A, np.pi * si * sj * r**2 * abs(np.linalg.det(T)) / ((n0 - 1) * (n1 - 1)), rtol=.02 + .8 / (r * min(si, sj))**2, atol=20 * res * sc)
        mon.event("contours", len(cont))


def run_case(case, mon):
    rng = np.random.default_rng(case["seed"])
    mon.sig(case)
    d = tempfile.mkdtemp(prefix="c21-")
    try:
        (run_shapes if case["kind"] == "shapes" else run_raster)(rng, mon, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    core.main(sys.modules[__name__])
