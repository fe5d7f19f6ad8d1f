"""Gauge- and degeneracy-aware comparison of two sets of guided-mode-expansion results."""
import numpy as np


def clusters(f, thr=1e-6):
    """[(lo, hi)] of levels closer than thr; the last one may be cut by numeig."""
    out, lo, n = [], 0, len(f)
    while lo < n:
        hi = lo + 1
        while hi < n and f[hi] - f[hi - 1] < thr:
            hi += 1
        out.append((lo, hi))
        lo = hi
    return out


def rate(f, fi):
    """sum |c|^2 (in units of (2 pi)^2) from the imaginary frequency."""
    return 2 * fi * np.sqrt(f ** 2 + fi ** 2)


def gaps(f, lo, hi):
    g = 1.
    if lo:
        g = min(g, f[lo] - f[lo - 1])
    if hi < len(f):
        g = min(g, f[hi] - f[hi - 1])
    return g


def compare(mon, key, a, b, gs, eps, tol=2e-7, amp=2e-6, msg="", vecs=True, couplings=False, thr=1e-6, ks=None, cut_top=False):
    """a, b: dicts freqs, freqs_im (or None), unb (or None), vecs (list or None), for one k each under keys;
    gs: |k+G|; eps: effective permittivities."""
    fa, fb = np.asarray(a["freqs"]), np.asarray(b["freqs"])
    ok = mon.close("freqs-" + key, fb, fa, rtol=tol, atol=tol, msg=msg)
    mon.event("levels", len(fa))
    if not ok:
        return False
    for lo, hi in clusters(fa, thr):
        n = len(fa)
        if hi == n and (hi - lo > 1 or cut_top):
            mon.event("cut_levels")
            continue
        gap = gaps(fa, lo, hi)
        if hi == n:
            gap = min(gap, 1e-3)
        t = amp * 1. + tol * 5e-3 / max(gap, 1e-9)
        if vecs and a.get("vecs") is not None and b.get("vecs") is not None:
            va, vb = np.asarray(a["vecs"])[:, lo:hi], np.asarray(b["vecs"])[:, lo:hi]
            if mon.check("vec-shape-" + key, va.shape == vb.shape, "%s %s" % (va.shape, vb.shape)):
                s = np.linalg.svd(va.conj().T @ vb, compute_uv=False)
                mon.check("vecs-" + key, np.min(s) > 1 - 1e-6 - t * t * 1e2, "overlap %s at f=%.6f gap %.1e %s" % (
                    s, fa[lo], gap, msg))
                mon.event("subspaces")
        if a.get("freqs_im") is None or b.get("freqs_im") is None:
            continue
        edge = min(np.min(np.abs(gs / (2 * np.pi * max(fa[lo], 1e-9) * np.sqrt(e)) - 1)) for e in (eps[0], eps[-1]))
        if edge < 1e-4 + 10 * tol:
            mon.event("levels_at_light_line")
            continue
        sa = rate(fa, np.asarray(a["freqs_im"]))[lo:hi].sum()
        sb = rate(fb, np.asarray(b["freqs_im"]))[lo:hi].sum()
        mon.close("losses-" + key, [sb], [sa], rtol=1e-5 + 10 * tol / np.sqrt(edge), atol=2 * np.sqrt(abs(sa)) * t + t * t,
                  msg="f=%.6f %s" % (fa[lo], msg))
        mon.event("losses_compared")
        if hi - lo == 1 and sa > 1e-6 and a.get("unb") is not None and b.get("unb") is not None:
            mon.close("unbalance-" + key, [b["unb"][lo]], [a["unb"][lo]], rtol=0, atol=1e-5 + 10 * tol + 4 * t / np.sqrt(sa), msg=msg)
            mon.event("unbalance_compared")
    return True


def take(gme, ik, im=True):
    d = dict(freqs=np.array(gme.freqs[ik]), vecs=np.array(gme.eigvecs[ik]))
    if im:
        d["freqs_im"] = np.array(gme.freqs_im[ik])
        d["unb"] = np.array(gme.unbalance_sp[ik])
    return d
