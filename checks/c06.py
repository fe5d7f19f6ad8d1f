import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import core, geom, slab
import numpy as np

PROPERTY = "C06"
QUICK_REPS = 4
RULE = ("random slabs of 1-5 layers (symmetric, asymmetric, low-index inner layers, thin, thick), both polarisations, "
        "ascending/unsorted/repeated wave vectors, different step sizes and mode numbers; frequencies are compared with "
        "a solver whose mode count is exact (oscillation theorem) and fields are rebuilt from the returned coefficients. "
        "Distinct: slab, wave vectors.")
ASSUMPTIONS = ["two modes closer than the documented search step, and modes within the tolerance of the light line, are not required",
               "wave vectors below 1e-4 are treated as 1e-4 by the library"]


def cases(rng, tier):
    n = 400 if tier == "quick" else 5000
    out = []
    for i in range(n):
        M = 1 + i % 5 if i % 3 else 1
        eps = [float(rng.uniform(1, 3))] + [float(rng.uniform(3.2, 13)) for _ in range(M)] + [float(rng.uniform(1, 3))]
        if M > 1 and rng.random() < .5:
            eps[1 + int(rng.integers(M))] = float(rng.uniform(1, 4))
        if rng.random() < .3:
            eps[-1] = eps[0]
        if rng.random() < .1 and M > 1:
            eps[2] = eps[1]
        low = i % 9 == 4            # only the ratios of the permittivities matter
        if low or rng.random() < .04:
            f = float(rng.uniform(.03, .3) if low else rng.uniform(2, 6))
            eps = [e * f for e in eps]
        d = [float(10 ** rng.uniform(-1.5, .3)) for _ in range(M)]
        ng = int(rng.integers(2, 10))
        g = np.sort(10 ** rng.uniform(-1, 1.4, ng))
        order = ["sorted", "sorted", "repeat", "shuffled", "linspace"][i % 5]
        if order == "repeat":
            g = np.sort(np.concatenate([g, g[:3]]))
        if order == "shuffled":
            g = rng.permutation(g)
        if order == "linspace":
            g = np.linspace(float(rng.uniform(.2, 1)), float(rng.uniform(4, 12)), 12)
        step = float(rng.choice([1e-2, 1e-2, 1e-3, 3e-2]))
        if i % 8 == 6:              # long wavelengths: the modes hug the light line
            g = g * float(10 ** rng.uniform(-2.5, -1))
            step = 1e-3
        if i % 25 == 11:            # many wavelengths thick: the modes hug the light line of the densest layer
            d[int(np.argmax(eps[1:-1]))] = float(rng.uniform(4, 20))
            g = rng.uniform(4, 15, 3)
            step = 1e-4
        out.append(dict(kind="slab", tol=float(rng.choice([1e-10, 1e-10, 1e-7, 1e-4])), eps=[round(e, 4) for e in eps], d=[round(x, 4) for x in d],
                        g=[round(float(x), 6) for x in g], pol=("TE", "TM")[int(rng.integers(2))],
                        step=step, n=int(rng.integers(1, 3 if low else 6)), order=order))
    out.append(dict(kind="refuse"))
    out += [dict(kind="star", seed=int(rng.integers(1 << 30))) for _ in range(6 if tier == "quick" else 200)]
    return out


def star(legume, rng, mon):
    """Star product of scattering matrices: the cascade of the two scatterers."""
    f = legume.utils.RedhefferStar

    def to_T(S):       # (right-going, left-going) on the left -> on the right
        return np.array([[S[1, 0] - S[1, 1] * S[0, 0] / S[0, 1], S[1, 1] / S[0, 1]], [-S[0, 0] / S[0, 1], 1 / S[0, 1]]])
    for lossless in (False, True):
        A, B, C = [rng.standard_normal((2, 2)) + 1j * rng.standard_normal((2, 2)) for _ in range(3)]
        if lossless:
            A, B, C = [np.linalg.qr(x)[0] for x in (A, B, C)]
        sc = 1 / min(abs(1 - B[0, 0] * A[1, 1]), abs(1 - C[0, 0] * B[1, 1]))
        if sc > 50:
            mon.skip("resonant cascade")
            continue
        AB = f(A, B)
        mon.close("star-cascade", to_T(AB), to_T(B) @ to_T(A), rtol=1e-9, atol=1e-9 * sc ** 2)
        one = np.array([[0, 1], [1, 0]], complex)
        mon.close("star-neutral", f(A, one), A, rtol=1e-12, atol=1e-12)
        mon.close("star-neutral", f(one, A), A, rtol=1e-12, atol=1e-12)
        mon.close("star-associative", f(AB, C), f(A, f(B, C)), rtol=1e-7, atol=1e-7 * sc ** 2)
        if lossless:
            mon.close("star-unitary", AB.conj().T @ AB, np.eye(2), rtol=0, atol=1e-9 * sc ** 2)
        mon.event("cascades")


def run_case(case, mon):
    import legume
    if case["kind"] == "refuse":
        for p in ("t", "both", "em"):
            mon.raises("bad-polarisation", Exception, lambda: legume.guided_modes(
                np.array([3.]), np.array([1., 12., 1.]), np.array([.5]), pol=p))
        mon.event("refusals", 3)
        return
    if case["kind"] == "star":
        return star(legume, np.random.default_rng(case["seed"]), mon)
    eps, d = np.array(case["eps"]), np.array(case["d"])
    g = np.array(case["g"])
    pol, n, step = case["pol"], case["n"], case["step"]
    tol = case["tol"]
    om, co = legume.guided_modes(g.copy(), eps.copy(), d.copy(), n_modes=n, step=step, tol=tol, pol=pol)
    mon.check("length", len(om) == len(g) and len(co) == len(g), "")
    ref = []
    amb = []
    for q in g:
        r = slab.modes(q, eps, d, pol.lower(), n + 1)
        sep = np.min(np.diff(r)) if len(r) > 1 else np.inf
        lb = q / np.sqrt(eps[1:-1].max())
        cut = q / np.sqrt(max(eps[0], eps[-1]))
        # a mode that only just exists: count with and without the last 1e-6
        a = sep < step * 1.001
        near = any(1 - w / cut < max(1e-8, 1.001 * tol) for w in r) or any(w / lb - 1 < max(1e-8, 1.001 * tol) for w in r)
        ref.append(r)
        amb.append(a or near)
    compare(mon, case, g, om, co, ref, amb, eps, d, pol, n)
    # reversed slab, scaled slab
    om2, _ = legume.guided_modes(g.copy(), eps[::-1].copy(), d[::-1].copy(), n_modes=n, step=step, tol=tol, pol=pol)
    for i in range(len(g)):
        if not amb[i]:
            if mon.check("reversed-count", len(om2[i]) == len(om[i]), "%d vs %d" % (len(om2[i]), len(om[i]))) and len(om[i]):
                mon.close("reversed", np.ravel(om2[i]), np.ravel(om[i]), rtol=1e-7)
    s = 2.
    om3, _ = legume.guided_modes(g / s, eps.copy(), d * s, n_modes=n, step=step / s, tol=tol, pol=pol)
    for i in range(len(g)):
        if not amb[i]:
            if mon.check("scaled-count", len(om3[i]) == len(om[i]), "") and len(om[i]):
                mon.close("scaled", s * np.ravel(om3[i]), np.ravel(om[i]), rtol=1e-7)
    # one wave vector at a time gives the same as the whole list
    for i in range(0, len(g), 2):
        if amb[i]:
            continue
        o1, _ = legume.guided_modes(g[i:i + 1].copy(), eps.copy(), d.copy(), n_modes=n, step=step, tol=tol, pol=pol.lower()
                                    if False else pol)
        if mon.check("single-count", len(o1[0]) == len(om[i]), "g=%g: %d alone, %d in the list" % (g[i], len(o1[0]), len(om[i]))) and len(om[i]):
            mon.close("single", np.ravel(o1[0]), np.ravel(om[i]), rtol=1e-8)


def compare(mon, case, g, om, co, ref, amb, eps, d, pol, n):
    zi = np.concatenate([[0.], np.cumsum(d)])
    for i, q in enumerate(g):
        w = np.array([float(x) for x in om[i]])
        if not mon.check("coeff-count", len(co[i]) == len(w), ""):
            continue
        mon.check("at-most-n", len(w) <= n, "")
        lb = q / np.sqrt(eps[1:-1].max())
        cut = q / np.sqrt(max(eps[0], eps[-1]))
        mon.check("between-light-lines", np.all((w > lb) & (w < cut)), "g=%g w=%s (%g, %g)" % (q, w, lb, cut))
        mon.check("ascending", np.all(np.diff(w) > 0), str(w))
        # every returned frequency is a mode (also where completeness is ambiguous)
        full = slab.modes(q, eps, d, pol.lower(), n + 6)
        for x in w:
            e = min([abs(x - y) for y in full] or [np.inf])
            mon.check("is-a-mode", e < 1e-7 * x + 1e-9, "g=%r w=%r nearest exact %s (%s, eps=%s, d=%s)" %
                      (q, x, full, pol, list(eps), list(d)))
        if amb[i]:
            mon.skip("completeness ambiguous (mode spacing below the search step or mode at cutoff)")
        else:
            want = ref[i][:n]
            mon.event("modes_expected", len(want))
            if len(want) < n:
                mon.event("cutoff_seen")
            if mon.check("complete", len(w) == len(want), "g=%r %s: %d modes %s, exact %s (eps=%s d=%s step=%g)" %
                         (q, pol, len(w), w, want, list(eps), list(d), case["step"])) and len(want):
                mon.close("frequency", w, np.array(want), rtol=1e-8, atol=1e-10)
        for x, c in zip(w, co[i]):
            field(mon, q, x, np.asarray(c), eps, d, zi, pol)


def field(mon, g, w, c, eps, d, zi, pol):
    c = c.reshape(c.shape[0], -1)
    if not mon.check("coeff-shape", c.shape == (len(eps), 2), c.shape):
        return
    k2 = eps * w ** 2 - g ** 2
    ka = np.sqrt(k2.astype(complex))
    growth = np.exp(min(60., np.sum(np.sqrt(np.maximum(-k2[1:-1], 0)) * d)))
    smallk = np.min(np.abs(ka))
    tol = 1e-8 * growth ** 2 + 1e-8 / smallk
    if tol > 1e-3:
        mon.skip("field ill-conditioned (deep evanescent inner layer)")
        return
    p = np.ones(len(eps)) if pol == "TE" else 1 / eps
    A, B = c[:, 0], c[:, 1]
    mon.close("decay-lower", A[0], 0., rtol=0, atol=1e-12)
    zc = .5 * (zi[1:] + zi[:-1])

    def ev(il, z):
        if il == 0:
            e = B[0] * np.exp(-1j * ka[0] * (z - zi[0]))
            return e, -1j * ka[0] * e
        if il == len(eps) - 1:
            e = A[-1] * np.exp(1j * ka[-1] * (z - zi[-1]))
            return e, 1j * ka[-1] * e
        a = A[il] * np.exp(1j * ka[il] * (z - zc[il - 1]))
        b = B[il] * np.exp(-1j * ka[il] * (z - zc[il - 1]))
        return a + b, 1j * ka[il] * (a - b)
    # norm by quadrature
    t, wq = np.polynomial.legendre.leggauss(60)
    tot = 0.
    mx = 0.
    md = 0.
    dens = (lambda u, du: np.abs(du) ** 2 + g ** 2 * np.abs(u) ** 2) if pol == "TE" else (lambda u, du: np.abs(u) ** 2)
    for il in range(1, len(eps) - 1):
        a, b = zi[il - 1], zi[il]
        u, du = ev(il, .5 * (a + b) + .5 * (b - a) * t)
        tot += .5 * (b - a) * np.sum(wq * dens(u, du))
        mx = max(mx, np.abs(u).max())
        md = max(md, np.abs(p[il] * du).max())
    for il, z in ((0, zi[0]), (len(eps) - 1, zi[-1])):
        u, du = ev(il, z)
        tot += dens(u, du) / (2 * abs(ka[il]))
        mx = max(mx, abs(u))
        md = max(md, abs(p[il] * du))
    mon.close("norm", tot, 1., rtol=0, atol=min(1e-3, 20 * tol), msg="g=%g w=%g %s" % (g, w, pol))
    for j in range(len(zi)):
        (u1, d1), (u2, d2) = ev(j, zi[j]), ev(j + 1, zi[j])
        mon.close("continuous", u1, u2, rtol=tol, scale=mx, msg="g=%g w=%g %s interface %d" % (g, w, pol, j))
        mon.close("flux-continuous", p[j] * d1, p[j + 1] * d2, rtol=tol * max(1, mx * g / md), scale=md, msg="g=%g w=%g %s interface %d eps=%s d=%s" % (g, w, pol, j, list(eps), list(d)))
    mon.event("fields_checked")


if __name__ == "__main__":
    core.main(sys.modules[__name__])
