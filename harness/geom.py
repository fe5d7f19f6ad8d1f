"""Structure descriptions (plain JSON) -> real legume objects, and an independent
reference for the same description: regions, Fourier transforms, permittivity.

    spec = {"lattice": {"kind": "square"|"hexagonal"|"vec", "a1": [..], "a2": [..]},
            "eps_l": 1., "eps_u": 1.,
            "layers": [{"d": .5, "eps_b": 12., "shapes": [shape, ...]}, ...],
            "clad": {"l": [shape...], "u": [shape...]}}
"""
import numpy as np
from scipy.special import j1


# ------------------------------------------------------------------ build real
def build_lattice(lat):
    import legume
    if lat["kind"] in ("square", "hexagonal"):
        return legume.Lattice(lat["kind"])
    return legume.Lattice(list(lat["a1"]), list(lat["a2"]))


def build_shape(s):
    import legume
    t = s["t"]
    if t == "circle":
        return legume.Circle(eps=s["eps"], x_cent=s["x"], y_cent=s["y"], r=s["r"])
    if t == "ellipse":
        return legume.Ellipse(eps=s["eps"], x_cent=s["x"], y_cent=s["y"],
                              rx=s["rx"], ry=s["ry"], phi=s["phi"])
    if t == "poly":
        o = legume.Poly(eps=s["eps"], x_edges=list(s["xs"]), y_edges=list(s["ys"]))
    elif t == "square":
        o = legume.Square(eps=s["eps"], x_cent=s["x"], y_cent=s["y"], a=s["a"])
    elif t == "hexagon":
        o = legume.Hexagon(eps=s["eps"], x_cent=s["x"], y_cent=s["y"], a=s["a"])
    elif t == "fourier":
        o = legume.FourierShape(eps=s["eps"], x_cent=s["x"], y_cent=s["y"],
                                f_as=np.array(s["as"]), f_bs=np.array(s["bs"]),
                                npts=s["npts"])
    else:
        raise KeyError(t)
    if s.get("rot"):
        o.rotate(s["rot"])
    return o


def build_phc(spec):
    import legume
    lat = build_lattice(spec["lattice"])
    phc = legume.PhotCryst(lat, eps_l=spec.get("eps_l", 1.), eps_u=spec.get("eps_u", 1.))
    for la in spec["layers"]:
        phc.add_layer(d=la["d"], eps_b=la["eps_b"])
        for s in la.get("shapes", []):
            phc.add_shape(build_shape(s))
    for c, shs in spec.get("clad", {}).items():
        for s in shs:
            phc.add_shape(build_shape(s), cladding=c)
    for q in spec.get("qws", []):
        phc.add_qw(**q)
    return phc


# ------------------------------------------------------------------- reference
def vecs(lat):
    k = lat["kind"]
    if k == "square":
        return np.array([1., 0.]), np.array([0., 1.])
    if k == "hexagonal":
        return np.array([.5, np.sqrt(3) / 2]), np.array([.5, -np.sqrt(3) / 2])
    return np.array(lat["a1"], float), np.array(lat["a2"], float)


def cell_area(lat):
    a1, a2 = vecs(lat)
    return abs(a1[0] * a2[1] - a1[1] * a2[0])


def recip(lat):
    a1, a2 = vecs(lat)
    B = 2 * np.pi * np.linalg.inv(np.array([a1, a2])).T
    return B[0], B[1]


def vertices(s):
    """Counter-clockwise vertices of the polygonal shapes, from the documented
    parameters."""
    t = s["t"]
    if t == "poly":
        v = np.array([s["xs"], s["ys"]], float).T
    elif t == "square":
        h = s["a"] / 2
        v = np.array([[-h, -h], [h, -h], [h, h], [-h, h]]) + [s["x"], s["y"]]
    elif t == "hexagon":
        ph = np.arange(6) * np.pi / 3
        v = s["a"] * np.array([np.cos(ph), np.sin(ph)]).T + [s["x"], s["y"]]
    elif t == "fourier":
        ph = 2 * np.pi * np.arange(s["npts"]) / s["npts"]
        R = fourier_radius(s, ph)
        v = np.array([R * np.cos(ph), R * np.sin(ph)]).T + [s["x"], s["y"]]
    else:
        return None
    if s.get("rot"):
        c = centroid(v)
        co, si = np.cos(s["rot"]), np.sin(s["rot"])
        v = (v - c) @ np.array([[co, si], [-si, co]]) + c
    return v


def fourier_radius(s, ph):
    R = s["as"][0] / 2 + 0 * ph
    for n, a in enumerate(s["as"][1:]):
        R = R + a * np.cos((n + 1) * ph)
    for n, b in enumerate(s["bs"]):
        R = R + b * np.sin((n + 1) * ph)
    return R


def poly_area(v):
    x, y = v.T
    return 0.5 * np.sum(x * np.roll(y, -1) - np.roll(x, -1) * y)


def centroid(v):
    x, y = v.T
    x1, y1 = np.roll(x, -1), np.roll(y, -1)
    c = x * y1 - x1 * y
    a = np.sum(c) / 2
    return np.array([np.sum((x + x1) * c), np.sum((y + y1) * c)]) / (6 * a)


def shape_area(s):
    if s["t"] == "circle":
        return np.pi * s["r"] ** 2
    if s["t"] == "ellipse":
        return np.pi * s["rx"] * s["ry"]
    return poly_area(vertices(s))


def shape_ft(s, g):
    """int over the shape of exp(-i g.r); g is (2, N)."""
    g = np.asarray(g, float)
    gx, gy = g
    if s["t"] in ("circle", "ellipse"):
        if s["t"] == "circle":
            rx = ry = s["r"]
            phi = 0.
        else:
            rx, ry, phi = s["rx"], s["ry"], s["phi"]
        u = (gx * np.cos(phi) + gy * np.sin(phi)) * rx
        w = (-gx * np.sin(phi) + gy * np.cos(phi)) * ry
        q = np.hypot(u, w)
        with np.errstate(all="ignore"):
            b = np.where(q > 1e-6, 2 * j1(q) / np.where(q > 0, q, 1), 1 - q ** 2 / 8)
        return np.pi * rx * ry * b * np.exp(-1j * (gx * s["x"] + gy * s["y"]))
    v = vertices(s)
    d = np.roll(v, -1, axis=0) - v
    m = (np.roll(v, -1, axis=0) + v) / 2
    g2 = gx ** 2 + gy ** 2
    out = np.zeros(gx.shape, complex)
    nz = g2 > 0
    GX, GY = gx[nz][:, None], gy[nz][:, None]
    ph = np.exp(-1j * (GX * m[:, 0] + GY * m[:, 1]))
    sinc = np.sinc((GX * d[:, 0] + GY * d[:, 1]) / (2 * np.pi))
    out[nz] = (1j / g2[nz]) * np.sum((GX * d[:, 1] - GY * d[:, 0]) * ph * sinc, axis=1)
    out[~nz] = poly_area(v)
    # small wave vectors: Gauss quadrature over signed triangles (v0, vi, vi+1)
    small = nz & (np.sqrt(g2) * np.abs(v - v[0]).max() < .5)
    if small.any():
        t, w = np.polynomial.legendre.leggauss(10)
        t, w = (t + 1) / 2, w / 2
        U, W = np.meshgrid(t, t, indexing="ij")
        e1, e2 = v[1:-1] - v[0], v[2:] - v[0]
        jac = e1[:, 0] * e2[:, 1] - e1[:, 1] * e2[:, 0]
        # r = v0 + U (e1 (1 - W) + e2 W), dA = jac U dU dW
        X = U[..., None] * (e1[:, 0] * (1 - W[..., None]) + e2[:, 0] * W[..., None])
        Y = U[..., None] * (e1[:, 1] * (1 - W[..., None]) + e2[:, 1] * W[..., None])
        wt = (np.outer(w * t, w)[..., None] * jac).ravel()
        for i in np.flatnonzero(small):
            out[i] = np.sum(wt * np.exp(-1j * (gx[i] * X.ravel() + gy[i] * Y.ravel()))) * \
                np.exp(-1j * (gx[i] * v[0, 0] + gy[i] * v[0, 1]))
    return out


def shape_inside(s, x, y):
    """(inside mask, distance-like margin to the boundary)."""
    x = np.asarray(x, float)
    y = np.asarray(y, float)
    if s["t"] in ("circle", "ellipse"):
        if s["t"] == "circle":
            rx = ry = s["r"]
            phi = 0.
        else:
            rx, ry, phi = s["rx"], s["ry"], s["phi"]
        dx, dy = x - s["x"], y - s["y"]
        u = (dx * np.cos(phi) + dy * np.sin(phi)) / rx
        w = (-dx * np.sin(phi) + dy * np.cos(phi)) / ry
        q = np.hypot(u, w)
        return q <= 1, np.abs(q - 1) * min(rx, ry)
    v = vertices(s)
    wn = np.zeros(x.shape, int)
    dist = np.full(x.shape, np.inf)
    n = len(v)
    for i in range(n):
        (x0, y0), (x1, y1) = v[i], v[(i + 1) % n]
        cr = (x1 - x0) * (y - y0) - (x - x0) * (y1 - y0)
        wn += ((y0 <= y) & (y1 > y) & (cr > 0)).astype(int)
        wn -= ((y0 > y) & (y1 <= y) & (cr < 0)).astype(int)
        L2 = (x1 - x0) ** 2 + (y1 - y0) ** 2
        if L2 == 0:
            continue
        t = np.clip(((x - x0) * (x1 - x0) + (y - y0) * (y1 - y0)) / L2, 0, 1)
        dist = np.minimum(dist, np.hypot(x - x0 - t * (x1 - x0), y - y0 - t * (y1 - y0)))
    return wn != 0, dist


def shape_bbox_radius(s):
    """(centre, radius) of a disc covering the shape."""
    if s["t"] == "circle":
        return np.array([s["x"], s["y"]]), s["r"]
    if s["t"] == "ellipse":
        return np.array([s["x"], s["y"]]), max(s["rx"], s["ry"])
    v = vertices(s)
    c = v.mean(axis=0)
    return c, np.max(np.hypot(*(v - c).T))


def layer_eps(lat, eps_b, shapes, x, y):
    """(permittivity, margin to the nearest boundary) with last-added-wins and
    lattice periodicity."""
    a1, a2 = vecs(lat)
    A = np.array([a1, a2]).T
    Ai = np.linalg.inv(A)
    x = np.asarray(x, float)
    y = np.asarray(y, float)
    eps = np.full(x.shape, float(eps_b))
    marg = np.full(x.shape, np.inf)
    if x.size == 0:
        return eps, marg
    for s in shapes:
        c, R = shape_bbox_radius(s)
        f = Ai @ (np.array([x.ravel(), y.ravel()]) - c[:, None])
        # translates n such that |r - c - n.a| <= R: n within R*|row of Ai| of f
        w1 = R * np.linalg.norm(Ai[0]) + 1e-9
        w2 = R * np.linalg.norm(Ai[1]) + 1e-9
        for n1 in range(int(np.floor(f[0].min() - w1)), int(np.ceil(f[0].max() + w1)) + 1):
            for n2 in range(int(np.floor(f[1].min() - w2)), int(np.ceil(f[1].max() + w2)) + 1):
                t = n1 * a1 + n2 * a2
                near = ((x - t[0] - c[0]) ** 2 + (y - t[1] - c[1]) ** 2) <= (R * 1.05 + 1e-3) ** 2
                if not near.any():
                    continue
                ins, d = shape_inside(s, x[near] - t[0], y[near] - t[1])
                e = eps[near]
                e[ins] = s["eps"]
                eps[near] = e
                marg[near] = np.minimum(marg[near], d)
    return eps, marg


def layer_avg(lat, eps_b, shapes):
    A = cell_area(lat)
    return eps_b + sum((s["eps"] - eps_b) * shape_area(s) for s in shapes) / A


def layer_ft(lat, eps_b, shapes, g):
    """Fourier coefficients eps(g) of the layer (background + contrast*shape)."""
    g = np.asarray(g, float)
    A = cell_area(lat)
    out = np.zeros(g.shape[1], complex)
    for s in shapes:
        out += (s["eps"] - eps_b) * shape_ft(s, g) / A
    out += eps_b * (np.hypot(*g) < 1e-9)
    return out


def all_layers(spec):
    """[(z_min, z_max, eps_b, shapes)] lower cladding, layers, upper cladding."""
    out = [(-np.inf, 0., spec.get("eps_l", 1.), spec.get("clad", {}).get("l", []))]
    z = 0.
    for la in spec["layers"]:
        out.append((z, z + la["d"], la["eps_b"], la.get("shapes", [])))
        z += la["d"]
    out.append((z, np.inf, spec.get("eps_u", 1.), spec.get("clad", {}).get("u", [])))
    return out


def gset_circ(lat, gmax, off=0.):
    """All reciprocal vectors with |G| <= 2 pi gmax (+- off margin report)."""
    b1, b2 = recip(lat)
    a1, a2 = vecs(lat)
    R = 2 * np.pi * gmax
    # |n1| = |G.a1|/2pi <= R |a1|/2pi
    n1m = int(np.ceil(R * np.linalg.norm(a1) / (2 * np.pi))) + 1
    n2m = int(np.ceil(R * np.linalg.norm(a2) / (2 * np.pi))) + 1
    n1, n2 = np.meshgrid(np.arange(-n1m, n1m + 1), np.arange(-n2m, n2m + 1), indexing="ij")
    n = np.array([n1.ravel(), n2.ravel()])
    G = np.outer(b1, n[0]) + np.outer(b2, n[1])
    gab = np.hypot(*G)
    keep = gab <= R * (1 + 1e-9)
    edge = np.min(np.abs(gab - R)) / R if R > 0 else 1.
    return n[:, keep], G[:, keep], edge


def gset_par(lat, gmax):
    b1, b2 = recip(lat)
    N1 = int(2 * np.pi * gmax / np.linalg.norm(b1))
    N2 = int(2 * np.pi * gmax / np.linalg.norm(b2))
    n = np.array([(i, j) for i in range(-N1, N1 + 1) for j in range(-N2, N2 + 1)]).T
    G = np.outer(b1, n[0]) + np.outer(b2, n[1])
    return n, G


def gset(lat, gmax, trunc):
    """Plane-wave set, or None when a reciprocal vector lies on the cutoff to rounding."""
    if trunc == "abs":
        n, G, edge = gset_circ(lat, gmax)
    else:
        n, G = gset_par(lat, gmax)
        edge = min(abs(q - round(q)) for q in (2 * np.pi * gmax / np.linalg.norm(b) for b in recip(lat)))
        if lat["kind"] in ("square",):
            edge = 1.       # exact arithmetic: |b| = 2 pi
    return None if edge < 1e-9 else G


# ------------------------------------------------------------------ generators
def _r(rng, lo, hi, nd=4):
    return round(float(rng.uniform(lo, hi)), nd)


def scale_lattice(lat, f):
    a1, a2 = vecs(lat)
    return {"kind": "vec", "a1": [float(x) * f for x in a1], "a2": [float(x) * f for x in a2]}


def scale_shape(s, f):
    o = dict(s)
    for k in ("x", "y", "r", "rx", "ry", "a"):
        if k in o:
            o[k] = float(o[k]) * f
    for k in ("xs", "ys", "as", "bs"):
        if k in o:
            o[k] = [float(x) * f for x in o[k]]
    return o


def scale_spec(spec, f):
    """The same crystal in other units of length."""
    o = dict(spec, lattice=scale_lattice(spec["lattice"], f))
    o["layers"] = [dict(l, d=l["d"] * f, shapes=[scale_shape(s, f) for s in l.get("shapes", [])]) for l in spec["layers"]]
    if "clad" in spec:
        o["clad"] = {c: [scale_shape(s, f) for s in v] for c, v in spec["clad"].items()}
    return o


def gen_units(rng, p=.25, dec=2.):
    """Length unit: mostly 1, sometimes a very different one."""
    return float(np.round(10 ** rng.uniform(-dec, dec), 6)) if rng.random() < p else 1.


def gen_lattice(rng, kinds=("square", "hexagonal", "rect", "oblique"), long=.15):
    k = str(rng.choice(list(kinds)))
    if k in ("square", "hexagonal"):
        return {"kind": k}
    if k == "rect":
        if rng.random() < long:     # supercell-like: long and narrow
            l = [_r(rng, .35, .6), _r(rng, 2., 4.)]
            l = l if rng.random() < .5 else l[::-1]
            return {"kind": "vec", "a1": [l[0], 0.], "a2": [0., l[1]]}
        return {"kind": "vec", "a1": [_r(rng, .6, 1.5), 0.], "a2": [0., _r(rng, .6, 1.5)]}
    if k == "rotsq":
        t = rng.uniform(0, 2 * np.pi)
        return {"kind": "vec", "a1": [float(np.cos(t)), float(np.sin(t))],
                "a2": [float(-np.sin(t)), float(np.cos(t))]}
    # oblique
    while True:
        t1 = rng.uniform(0, 2 * np.pi)
        dt = rng.uniform(.3 * np.pi, .7 * np.pi) * rng.choice([-1, 1])
        l1, l2 = rng.uniform(.7, 1.4, 2)
        if rng.random() < .1:
            l1, l2 = l1 * .5, l2 * 2.2
        a1 = [round(float(l1 * np.cos(t1)), 4), round(float(l1 * np.sin(t1)), 4)]
        a2 = [round(float(l2 * np.cos(t1 + dt)), 4), round(float(l2 * np.sin(t1 + dt)), 4)]
        if abs(a1[0] * a2[1] - a1[1] * a2[0]) > .3:
            return {"kind": "vec", "a1": a1, "a2": a2}


def gen_shape(rng, eps, size=.25, cent=.3, kinds=None):
    kinds = kinds or ("circle", "ellipse", "poly", "square", "hexagon", "fourier")
    t = str(rng.choice(list(kinds)))
    x, y = _r(rng, -cent, cent), _r(rng, -cent, cent)
    if t == "circle":
        return dict(t=t, eps=eps, x=x, y=y, r=_r(rng, .4 * size, size))
    if t == "ellipse":
        return dict(t=t, eps=eps, x=x, y=y, rx=_r(rng, .4 * size, size),
                    ry=_r(rng, .4 * size, size), phi=_r(rng, -np.pi, np.pi))
    if t == "poly":
        n = int(rng.integers(3, 7))
        if rng.random() < .1:       # a many-sided outline
            n = int(rng.integers(8, 25))
        ph = np.sort(rng.uniform(0, 2 * np.pi, n))
        if n > 6:
            ph = 2 * np.pi * (np.arange(n) + rng.uniform(-.3, .3, n)) / n
        while n <= 6 and (n == 3 and max(np.diff(np.append(ph, ph[0] + 2 * np.pi))) > np.pi * .9 or \
                min(np.diff(np.append(ph, ph[0] + 2 * np.pi))) < .25 or \
                max(np.diff(np.append(ph, ph[0] + 2 * np.pi))) > np.pi * .9):
            ph = np.sort(rng.uniform(0, 2 * np.pi, n))
        R = rng.uniform(.5 * size, size, n)
        s = dict(t=t, eps=eps, xs=[round(float(v), 4) for v in x + R * np.cos(ph)],
                 ys=[round(float(v), 4) for v in y + R * np.sin(ph)])
    elif t == "square":
        s = dict(t=t, eps=eps, x=x, y=y, a=_r(rng, .6 * size, 1.4 * size))
    elif t == "hexagon":
        s = dict(t=t, eps=eps, x=x, y=y, a=_r(rng, .4 * size, size))
    else:
        na, nb = int(rng.integers(1, 4)), int(rng.integers(0, 3))
        if rng.random() < .3:
            na, nb = int(rng.integers(1, 8)), int(rng.integers(0, 7))
        a0 = rng.uniform(.9 * size, 1.4 * size)
        s = dict(t="fourier", eps=eps, x=x, y=y,
                 **{"as": [round(float(a0), 4)] + [_r(rng, -.1 * size, .1 * size) for _ in range(na - 1)],
                    "bs": [_r(rng, -.1 * size, .1 * size) for _ in range(nb)]},
                 npts=int(rng.choice([12, 30, 60])))
    if t in ("poly", "square", "hexagon") and rng.random() < .4:
        s["rot"] = _r(rng, -3, 3)
    return s


def move_shape(s, t):
    if "xs" in s:
        s["xs"] = [round(float(v + t[0]), 6) for v in s["xs"]]
        s["ys"] = [round(float(v + t[1]), 6) for v in s["ys"]]
    else:
        s["x"], s["y"] = round(float(s["x"] + t[0]), 6), round(float(s["y"] + t[1]), 6)
    return s


def gen_spec(rng, nlay=None, nshapes=2, lat=None, contrast=True, kinds=None,
             clad_shapes=False, size=.22):
    lat = lat or gen_lattice(rng)
    nlay = nlay or int(rng.integers(1, 4))
    layers = []
    for i in range(nlay):
        eb = _r(rng, 4., 13., 3)
        shs = []
        for _ in range(int(rng.integers(0, nshapes + 1)) if i else int(rng.integers(1, nshapes + 1))):
            shs.append(gen_shape(rng, _r(rng, 1., 13., 3), size=size, kinds=kinds))
        d = _r(rng, .15, .6)
        if rng.random() < .1:
            d = _r(rng, .8, 1.6) if rng.random() < .5 else _r(rng, .02, .1)
        layers.append(dict(d=d, eps_b=eb, shapes=shs))
    if nlay >= 2:
        while len(layers) < 5 and rng.random() < .12:        # more and weaker layers than asked for
            layers.insert(int(rng.integers(len(layers) + 1)), dict(d=_r(rng, .05, .4), eps_b=_r(rng, 1., 13., 3), shapes=[
                gen_shape(rng, _r(rng, 1., 13., 3), size=size, kinds=kinds)] if rng.random() < .5 else []))
    if rng.random() < .08:                                   # a crowd of small inclusions
        l = layers[int(rng.integers(len(layers)))]
        a1, a2 = (np.asarray(v) for v in vecs(lat))
        for _ in range(int(rng.integers(3, 8))):
            q = gen_shape(rng, round(float(l["eps_b"] * rng.uniform(.7, 1.5)), 3), size=.08, cent=0., kinds=kinds)
            l["shapes"].append(move_shape(q, rng.uniform(-.5, .5) * a1 + rng.uniform(-.5, .5) * a2))
    for l in layers:
        for s in l["shapes"]:
            if rng.random() < .06:                           # described in another unit cell
                a1, a2 = vecs(lat)
                t = int(rng.integers(-2, 3)) * np.asarray(a1) + int(rng.integers(-2, 3)) * np.asarray(a2)
                move_shape(s, t)
    spec = dict(lattice=lat, eps_l=_r(rng, 1., 2.5, 3), eps_u=_r(rng, 1., 2.5, 3), layers=layers)
    if rng.random() < .3:
        spec["eps_u"] = spec["eps_l"]
    u = rng.random()
    if u < .05:                                              # a faint pattern
        l = layers[int(rng.integers(len(layers)))]
        for q in l["shapes"]:
            q["eps"] = round(float(l["eps_b"] * (1 + rng.choice([-1, 1]) * 10 ** rng.uniform(-3.5, -1.5))), 6)
    elif u < .1:                                             # almost, but not quite, symmetric
        s1 = 10 ** rng.uniform(-4.5, -2)
        for l in layers:
            for q in l["shapes"]:
                if "x" in q and q["t"] in ("circle", "square", "hexagon"):
                    q["x"], q["y"] = round(float(rng.uniform(-1, 1) * s1), 7), round(float(rng.uniform(-1, 1) * s1), 7)
    if rng.random() < .08:                                   # whole-number permittivities
        spec["eps_l"], spec["eps_u"] = int(rng.integers(1, 3)), int(rng.integers(1, 3))
        for l in layers:
            l["eps_b"] = int(round(l["eps_b"]))
            for s in l["shapes"]:
                s["eps"] = max(1, int(round(s["eps"])))
    if clad_shapes:
        spec["clad"] = {}
        for c in ("l", "u"):
            if rng.random() < .6:
                spec["clad"][c] = [gen_shape(rng, _r(rng, 1., 3., 3), size=size, kinds=kinds)]
    return spec


def spice(rng, case, p=.12, kinds=("high", "tiny", "manyk")):
    """Now and then: high-order guided modes of a thick slab, very few plane waves, many wave vectors."""
    if rng.random() >= p:
        return case
    how = str(rng.choice(list(kinds)))
    if how == "high":
        l = case["spec"]["layers"][int(rng.integers(len(case["spec"]["layers"])))]
        l["d"] = _r(rng, 1.2, 2.2)
        inds = [int(x) for x in 4 + rng.permutation(6)[:int(rng.integers(1, 4))]]
        case.update(inds=inds[:1] + sorted(set(case["inds"]) - set(inds))[:2] + inds[1:], gmax=min(case["gmax"], 1.5))
    elif how == "tiny":
        case.update(gmax=_r(rng, .02, .7))
        if "solver" in case:
            case["solver"] = "eigh"
    else:
        s = float(rng.choice([.8, 4.]))
        case["ks"] = case["ks"] + [[_r(rng, -s, s), _r(rng, -s, s)] for _ in range(int(rng.integers(12, 30)))]
        case.update(gmax=min(case["gmax"], 1.3), numeig=min(case["numeig"], 4))
    return case
