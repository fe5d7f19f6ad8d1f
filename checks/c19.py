import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import core
import numpy as np

PROPERTY = "C19"
QUICK_REPS = 40
RULE = ("every differentiable operation of the autograd back end and of legume.primitives on random real/complex inputs of random sizes, "
        "including repeated eigenvalues (eigenvalues only) and structured (Toeplitz) inputs; forward value against the plain operation, vjp "
        "against directional Richardson-extrapolated central differences along random admissible directions. Distinct: operation, input.")
ASSUMPTIONS = ["autograd's convention: dL = Re(sum(g * dx)) for the returned g of a real scalar L",
               "Hermitian solvers are perturbed by Hermitian directions; Toeplitz blocks by directions keeping the shared entries equal",
               "eigenvectors enter only through gauge-invariant expressions and only for separated eigenvalues",
               "interp: also outside of the table (end values); fsolve: the 3-argument form the code registers"]
OPS = ("extend", "sqrt", "toeplitz", "eigh-vals", "eigh-vecs", "eigh-degenerate", "inv", "eigsh-vals", "eigsh-vecs", "eigsh-degenerate",
       "interp", "fsolve", "fmap", "eig-vals", "eig-vecs", "spdot", "elementwise", "assembly", "numeric")


def cases(rng, tier):
    n = 8 if tier == "quick" else 900
    return [dict(kind=op, seed=int(rng.integers(1 << 30)), cplx=bool(i % 2)) for i in range(n) for op in OPS]


def rnd(rng, shape, cplx):
    a = rng.standard_normal(shape)
    return a + 1j * rng.standard_normal(shape) if cplx else a


def herm(a):
    return .5 * (a + a.conj().T)


def directional(mon, key, L, xs, dxs, rtol=1e-5, atol=1e-7, h=1e-4, plain=None):
    """xs/dxs: tuples of arguments and directions.  L(*xs) real scalar, evaluated with autograd and with
    `plain` (same formula on the numpy back end) for the differences."""
    import autograd
    import legume
    plain = plain or L
    legume.set_backend("autograd")
    try:
        gs = [autograd.grad(L, i)(*xs) for i in range(len(xs))]
    finally:
        legume.set_backend("numpy")
    for g, x in zip(gs, xs):
        if not mon.check(key + "-shape", np.shape(g) == np.shape(x), "gradient shape %s for input %s" % (np.shape(g), np.shape(x))):
            return
    for d in dxs:
        got = sum(np.real(np.sum(g * dd)) for g, dd in zip(gs, d))
        D = lambda e: (plain(*[x + e * dd for x, dd in zip(xs, d)]) - plain(*[x - e * dd for x, dd in zip(xs, d)])) / (2 * e)
        a, b, c = D(h), D(h / 2), D(h / 4)
        r1, r2 = (4 * b - a) / 3, (4 * c - b) / 3
        sc = max(abs(r2), abs(got), 1.)
        if abs(r1 - r2) > .3 * (rtol * sc + atol):
            mon.skip("differences not converged: " + key)
            continue
        mon.close(key, got, r2, rtol=rtol, atol=atol, scale=sc)
        mon.event("directional_derivatives")


def run_case(case, mon):
    import legume
    import autograd.numpy as npa
    set_backend = legume.set_backend
    rng = np.random.default_rng(case["seed"])
    cx, op = case["cplx"], case["kind"]
    set_backend("autograd")
    AG = type(legume.backend)()
    set_backend("numpy")
    NP = type(legume.backend)()
    mon.check("backends", repr(AG) == "AutogradBackend" and repr(NP) == "NumpyBackend", (AG, NP))
    mon.event("op_" + op)

    def value(name, f, *args):
        """Same value from both back ends."""
        set_backend("autograd")
        try:
            a = f(AG)
        finally:
            set_backend("numpy")
        b = f(NP)
        for x, y in zip(a if isinstance(a, tuple) else (a,), b if isinstance(b, tuple) else (b,)):
            mon.close(name + "-value", x, y, rtol=1e-12, atol=1e-12)

    if op == "extend":
        n = int(rng.integers(1, 6))
        shape = (n + int(rng.integers(0, 4)),) if cx else (int(rng.integers(3, 6)), int(rng.integers(3, 6)))
        if len(shape) == 1:
            inds = (rng.permutation(shape[0])[:n],)
        else:
            p = rng.permutation(shape[0] * shape[1])[:n]
            inds = np.unravel_index(p, shape)
        v = rnd(rng, n, bool(rng.random() < .5))
        W = rnd(rng, shape, True)
        value(op, lambda b: b.extend(v, inds, shape))
        z = NP.extend(v, inds, shape)
        ref = np.zeros(shape, v.dtype)
        ref[inds] = v
        mon.close("extend-plain", z, ref, rtol=0, atol=0)
        directional(mon, op, lambda x: npa.real(npa.sum(W * AG.extend(x, inds, shape) ** 2)), (v,), [(rnd(rng, n, np.iscomplexobj(v)),)],
                    plain=lambda x: np.real(np.sum(W * NP.extend(x, inds, shape) ** 2)))
    elif op == "sqrt":
        n = int(rng.integers(1, 8))
        x = rnd(rng, n, cx) * 10 ** rng.uniform(-1, 2) if cx else rng.uniform(.05, 20, n)
        if cx:
            x = np.where((np.abs(x.imag) < .1), x + .3j, x)
        W = rnd(rng, n, True)
        value(op, lambda b: b.sqrt(x))
        directional(mon, op, lambda x: npa.real(npa.sum(W * AG.sqrt(x))), (x,), [(.1 * rnd(rng, n, cx),)],
                    plain=lambda x: np.real(np.sum(W * np.sqrt(x))), h=1e-3 * float(np.min(np.abs(x))))
    elif op == "toeplitz":
        n, p = int(rng.integers(1, 5)), int(rng.integers(1, 5))

        def tbt():
            f = {}
            for a in range(-n + 1, n):
                for b in range(-p + 1, p):
                    if (-a, -b) in f:
                        f[a, b] = np.conj(f[-a, -b])
                    else:
                        f[a, b] = complex(rnd(rng, (), cx)) if (a, b) != (0, 0) else float(rng.standard_normal())
            T1 = np.array([f[a, b] for a in range(n) for b in range(p)])
            T2 = np.array([f[a, -b] for a in range(n) for b in range(p)])
            M = np.array([[f[c // p - r // p, c % p - r % p] for c in range(n * p)] for r in range(n * p)])
            if not cx:
                T1, T2, M = T1.real, T2.real, M.real
            return T1, T2, M
        T1, T2, M = tbt()
        value(op, lambda b: b.toeplitz_block(n, T1, T2))
        mon.close("toeplitz-plain", NP.toeplitz_block(n, T1, T2), M, rtol=0, atol=1e-14)
        W = rnd(rng, (n * p, n * p), True)
        dirs = [tbt()[:2] for _ in range(2)]
        directional(mon, op, lambda a, b: npa.real(npa.sum(W * AG.toeplitz_block(n, a, b))), (T1, T2), dirs,
                    plain=lambda a, b: np.real(np.sum(W * NP.toeplitz_block(n, a, b))))
    elif op.startswith(("eigh", "eigsh")):
        n = int(rng.integers(4, 9)) + (3 if op.startswith("eigsh") else 0)
        U = np.linalg.qr(rnd(rng, (n, n), cx))[0]
        w = np.sort(rng.uniform(1, 12, n)) + np.arange(n) * 1.5
        deg = op.endswith("degenerate")
        if deg:
            w[2] = w[1] if rng.random() < .5 else w[0]
            w[1] = w[2] if rng.random() < .5 else w[1]
            w = np.sort(w)
        A = herm(U @ np.diag(w) @ U.conj().T)
        k = n
        kw = {}
        if op.startswith("eigsh"):
            k = int(rng.integers(2, n - 2))
            sig = float(w[0] - rng.uniform(.5, 3)) if rng.random() < .6 or deg else float(.5 * (w[2] + w[3]) + .1)
            kw = dict(k=k, sigma=sig)

        def solve(b, x):
            return b.eigsh(x, **kw) if kw else b.eigh(x)
        v0 = rnd(rng, n, cx)
        idx = np.sort(np.argsort(np.abs(w - kw["sigma"]))[:k]) if kw else np.arange(n)
        if kw:
            d = np.sort(np.abs(w - kw["sigma"]))
            if d[k] - d[k - 1] < .1:
                mon.skip("selection ambiguous")
                mon.trivial()
                return
        lam, vec = solve(NP, A)
        mon.close(op + "-plain", np.sort(lam), w[idx], rtol=1e-9, atol=1e-9)
        set_backend("autograd")
        la, va = solve(AG, A)
        set_backend("numpy")
        mon.close(op + "-value", np.sort(la), np.sort(lam), rtol=1e-10, atol=1e-10)
        mon.close(op + "-residual", A @ va, va * la, rtol=1e-9, atol=1e-9)
        c = rng.standard_normal(k)
        if deg:
            # symmetric function of the repeated eigenvalues
            P = lambda l, npx: npx.sum(npx.exp(-.2 * l))
            full = None
            if kw:
                # all copies of a repeated eigenvalue must be selected
                ds = np.abs(w - kw["sigma"])
            L = lambda x: P(solve(AG, x)[0], npa)
            Lp = lambda x: P(np.linalg.eigvalsh(herm(x))[idx], np)
            key = op
        elif op.endswith("vals"):
            def L(x):
                l = solve(AG, x)[0]
                o = np.argsort(getattr(l, "_value", l))
                return npa.sum(c * l[o] ** 2)
            Lp = lambda x: np.sum(c * np.linalg.eigvalsh(herm(x))[idx] ** 2)
            key = op
        else:
            W = rng.standard_normal((n, k))
            B = herm(rnd(rng, (n, n), cx))

            def form(l, v, npx):
                o = np.argsort(getattr(l, "_value", l))
                l, v = l[o], v[:, o]
                q = npx.real(npx.sum(npx.conj(v) * npx.dot(B, v), axis=0))
                return npx.sum(W * npx.abs(v) ** 2) + npx.sum(c * q * l)
            L = lambda x: form(*solve(AG, x), npx=npa)

            def Lp(x):
                l, v = np.linalg.eigh(herm(x))
                return form(l[idx], v[:, idx], np)
            key = op
        dirs = [(herm(rnd(rng, (n, n), cx)),) for _ in range(2)]
        sens = op == "eigsh-vecs"
        directional(mon, key, L, (A,), dirs, plain=Lp, rtol=2e-4 if sens else 1e-5, atol=2e-4 if sens else 1e-7, h=1e-3)
    elif op == "inv":
        n = int(rng.integers(1, 7))
        A = rnd(rng, (n, n), cx) + (3 + n) * np.eye(n)
        W = rnd(rng, (n, n), True)
        value(op, lambda b: b.inv(A))
        mon.close("inv-plain", NP.inv(A) @ A, np.eye(n), rtol=1e-10)
        directional(mon, op, lambda x: npa.real(npa.sum(W * AG.inv(x))), (A,), [(rnd(rng, (n, n), cx),)],
                    plain=lambda x: np.real(np.sum(W * np.linalg.inv(x))))
    elif op == "interp":
        n, m = int(rng.integers(1, 9)), int(rng.integers(1, 12))
        xp = np.sort(rng.uniform(0, 3, n)) + .1 * np.arange(n)
        yp = rnd(rng, n, cx)
        x = rng.uniform(xp[0], xp[-1], m)
        x[0] = xp[int(rng.integers(n))]
        if m > 3:
            x[1], x[2] = xp[0], xp[-1]
        if m > 5:
            x[3], x[4] = xp[0] - .3, xp[-1] + .2      # end values
        if n > 3 and rng.random() < .3:
            xp[-1] = xp[-2]
            yp[-1] = yp[-2]
            x = np.minimum(x, xp[-2] - 1e-3)
        W = rnd(rng, m, True)
        value(op, lambda b: b.interp(x, xp, yp))
        directional(mon, op, lambda y: npa.real(npa.sum(W * AG.interp(x, xp, y))), (yp,), [(rnd(rng, n, cx),)],
                    plain=lambda y: np.real(np.sum(W * np.interp(x, xp, y))))
    elif op == "fsolve":
        n = int(rng.integers(1, 5))
        b0, c0 = rng.uniform(.5, 2, n), rng.uniform(.5, 2, n)
        a0 = float(rng.uniform(.2, 1))

        def f(x, a, b, c):
            return x ** 3 + a * x * npa.sum(b) - npa.sum(c * b) - npa.sin(a * x)
        r = NP.fsolve_D22(f, 0., 20., a0, b0, c0)
        mon.close("fsolve-plain", float(f(r, a0, b0, c0)), 0., rtol=0, atol=1e-8)
        value(op, lambda b: b.fsolve_D22(f, 0., 20., a0, b0, c0))
        from scipy.optimize import brentq
        pl = lambda b, c: brentq(lambda x: f(x, a0, b, c), 0., 20., xtol=1e-15, rtol=1e-14) ** 2
        directional(mon, op, lambda b, c: AG.fsolve_D22(f, 0., 20., a0, b, c) ** 2, (b0, c0),
                    [(rng.standard_normal(n), rng.standard_normal(n))], plain=pl, h=1e-3)
    elif op == "fmap":
        from legume.primitives import fmap
        n, m = int(rng.integers(1, 6)), int(rng.integers(1, 6))
        P = rng.standard_normal(m)
        co = rng.standard_normal((n, m))
        fns = [lambda p, j=j: npa.sum(npa.sin(co[j] * p)) + co[j][0] * p[0] ** 2 for j in range(n)]
        W = rng.standard_normal(n)
        mon.close("fmap-value", fmap(fns, P), np.array([f(P) for f in fns]), rtol=1e-13)
        directional(mon, op, lambda p: npa.sum(W * fmap(fns, p)), (P,), [(rng.standard_normal(m),)],
                    plain=lambda p: float(np.sum(W * np.array([f(p) for f in fns]))))
    elif op.startswith("eig-"):
        n = int(rng.integers(2, 7))
        A = rnd(rng, (n, n), cx) * .4 + np.diag(2. * np.arange(n)) + (.7j * np.diag(rng.standard_normal(n)) if cx else 0)
        if op == "eig-vals" and not cx and n > 2:
            A[:2, :2] = [[0., 2.], [-2., 0.]]      # complex pair of a real matrix
        c = rnd(rng, n, True)
        lam, vec = AG.eig(A)
        mon.close(op + "-residual", A @ vec, vec * lam, rtol=1e-9, atol=1e-9)
        key = lambda l: np.argsort(np.real(getattr(l, "_value", l)) + 1e-2 * np.imag(getattr(l, "_value", l)))
        W = rng.standard_normal((n, n))

        def form(l, v, npx):
            o = key(l)
            l, v = l[o], v[:, o]
            s = npx.real(npx.sum(c * l))
            return s if op == "eig-vals" else s + npx.sum(W * npx.abs(v) ** 2)
        directional(mon, op, lambda x: form(*AG.eig(x), npx=npa), (A,), [(rnd(rng, (n, n), cx),) for _ in range(2)],
                    plain=lambda x: form(*np.linalg.eig(x), npx=np), rtol=1e-5, atol=1e-6)
    elif op == "spdot":
        import scipy.sparse as sp
        n, m, q = (int(x) for x in rng.integers(1, 8, 3))
        S = sp.random(n, m, density=.5, random_state=int(rng.integers(1 << 30)), format=["coo", "csr", "csc"][int(rng.integers(3))])
        if cx:
            S = S * (1 + .7j)
        X = rnd(rng, (m, q), bool(rng.random() < .5))
        W = rnd(rng, (n, q), True)
        value(op, lambda b: b.spdot(S, X))
        mon.close("spdot-plain", NP.spdot(S, X), S.toarray() @ X, rtol=1e-13, atol=1e-13)
        directional(mon, op, lambda x: npa.real(npa.sum(W * AG.spdot(S, x) ** 2)), (X,), [(rnd(rng, (m, q), np.iscomplexobj(X)),)],
                    plain=lambda x: np.real(np.sum(W * (S.toarray() @ x) ** 2)))
    elif op == "elementwise":
        n = int(rng.integers(1, 6))
        x = rng.uniform(.2, 4, n)
        z = rnd(rng, n, cx) + (2 if not cx else 0)
        M = rnd(rng, (n, n), cx)
        W = rnd(rng, n, True)
        fx = {"bessel1": lambda b, v: b.bessel1(v), "tanh": lambda b, v: b.tanh(v), "tan": lambda b, v: b.tan(.3 * v),
              "exp": lambda b, v: b.exp(v), "sin": lambda b, v: b.sin(v), "cos": lambda b, v: b.cos(v), "square": lambda b, v: b.square(v),
              "power": lambda b, v: b.power(v, 3), "norm": lambda b, v: b.norm(v) * b.ones(n), "var": lambda b, v: b.var(v) * b.ones(n),
              "sort": lambda b, v: b.sort(v), "roll": lambda b, v: b.roll(v, 1), "abs": lambda b, v: b.abs(v - 2.05),
              "divide": lambda b, v: b.divide(1., v), "where": lambda b, v: b.where(x > 2, v, v ** 2)}
        name = list(fx)[int(rng.integers(len(fx)))]
        fn = fx[name]
        value(name, lambda b: fn(b, x))
        directional(mon, name, lambda v: npa.real(npa.sum(W * fn(AG, v))), (x,), [(rng.standard_normal(n),)],
                    plain=lambda v: np.real(np.sum(W * fn(NP, v))), h=2e-5)
        fz = {"dot": lambda b, v: b.dot(M, v), "matmul": lambda b, v: b.matmul(M, v), "outer": lambda b, v: b.outer(v, b.conj(v)) @ np.ones(n),
              "real": lambda b, v: b.real(v) ** 2, "imag": lambda b, v: b.imag(v * (1 + 2j)), "conj": lambda b, v: b.conj(v) * v,
              "abs-c": lambda b, v: b.abs(v) ** 2}
        name = list(fz)[int(rng.integers(len(fz)))]
        gn = fz[name]
        value(name, lambda b: gn(b, z))
        directional(mon, name, lambda v: npa.real(npa.sum(W * gn(AG, v))), (z,), [(rnd(rng, n, cx),)],
                    plain=lambda v: np.real(np.sum(W * gn(NP, v))), h=2e-5)
    elif op == "assembly":
        # constructors and shape manipulation
        n, m = int(rng.integers(1, 5)), int(rng.integers(1, 5))
        A, B = rnd(rng, (n, m), cx), rnd(rng, (n, m), cx)
        S = rnd(rng, (n, n), cx)
        W = rnd(rng, (2 * n, m), True)
        W2 = rnd(rng, (n, 2 * m), True)
        fs = {"vstack": (lambda b, x, y: b.vstack([x, y]), W), "hstack": (lambda b, x, y: b.hstack([x, y]), W2),
              "concatenate": (lambda b, x, y: b.concatenate((x, y), axis=1), W2),
              "transpose": (lambda b, x, y: b.transpose(b.transpose(x) + b.transpose(y)), rnd(rng, (n, m), True)),
              "reshape": (lambda b, x, y: b.reshape(x * y, (n * m,)), rnd(rng, (n * m,), True)),
              "stack": (lambda b, x, y: b.stack([x, y]), rnd(rng, (2, n, m), True))}
        for name, (fn, w) in fs.items():
            value(name, lambda b: fn(b, A, B))
            directional(mon, name, lambda x, y: npa.real(npa.sum(w * fn(AG, x, y))), (A, B), [(rnd(rng, (n, m), cx), rnd(rng, (n, m), cx))],
                        plain=lambda x, y: np.real(np.sum(w * fn(NP, x, y))))
        w = rnd(rng, (n, n), True)
        for name, fn in {"triu": lambda b, x: b.triu(x, 1) + b.transpose(b.conj(b.triu(x, 1))) + b.real(b.diag(b.diag(x)))}.items():
            value(name, lambda b: fn(b, S))
            directional(mon, name, lambda x: npa.real(npa.sum(w * fn(AG, x))), (S,), [(rnd(rng, (n, n), cx),)],
                        plain=lambda x: np.real(np.sum(w * fn(NP, x))))
    elif op == "numeric":
        # derivatives by one-sided differences: of any function of an array of any shape, integer or real
        from legume.utils import grad_num, vjp_maker_num
        from autograd import grad
        from autograd.extend import primitive, defvjp
        shape = tuple(int(x) for x in rng.integers(1, 4, int(rng.integers(1, 4))))
        x = rng.integers(-3, 4, shape) if cx else rng.standard_normal(shape)
        W = rng.standard_normal(shape)
        x0 = x.copy()
        fn = lambda v: float(np.sum(W * np.sin(v)) + np.sum(v) ** 2)
        want = W * np.cos(x) + 2 * np.sum(x)
        for st in (1e-6, np.float64(1e-6), np.full(shape, 1e-6), rng.uniform(1e-6, 2e-6, shape)):
            mon.close("grad-num", grad_num(fn, x, st), want, rtol=1e-4, atol=1e-4, msg="step %r" % (st,))
        mon.close("grad-num", grad_num(fn, x), want, rtol=1e-4, atol=1e-4)
        # coarse steps: the forward difference itself
        st = rng.uniform(.1, .5, shape)
        ref = np.zeros(shape)
        for i in np.ndindex(*shape):
            y = x.astype(float)
            y[i] += st[i]
            ref[i] = (fn(y) - fn(x)) / st[i]
        mon.close("grad-num-step", grad_num(fn, x, st), ref, rtol=1e-9, atol=1e-9)
        mon.close("argument-kept", x, x0, rtol=0, atol=0)
        y = rng.standard_normal(int(rng.integers(1, 4)))

        def raw(a, b, c):
            return np.sum(np.sin(a)) * b ** 2 * c
        P = primitive(raw)
        if rng.random() < .5:
            defvjp(P, *vjp_maker_num(raw, [0, 1], [1e-6, 1e-6]), argnums=(0, 1))
        else:
            defvjp(P, *vjp_maker_num(raw, [1, 0], [1e-6, 1e-6]), argnums=(1, 0))
        c = float(rng.uniform(.5, 2))
        w = rng.standard_normal(y.shape)
        ob = lambda a, b: npa.sum(w * P(a, b, c))
        mon.close("vjp-num", grad(ob, 0)(x.astype(float), y), np.cos(x) * c * np.sum(w * y ** 2), rtol=1e-4, atol=1e-4)
        # element i of the output depends on element i of the second argument only
        mon.close("vjp-num", grad(ob, 1)(x.astype(float), y), 2 * c * w * y * np.sum(np.sin(x)), rtol=1e-4, atol=1e-4)
        mon.event("numeric_derivatives")


if __name__ == "__main__":
    core.main(sys.modules[__name__])
