"""Common runner for all checks.

A check module defines

    PROPERTY = "Cxx"
    RULE     = "how cases are made, what makes one non-trivial"
    def cases(rng, tier): -> iterable of JSON-able case dicts
    def run_case(case, mon): ...

``run_case`` drives the real legume code and reports to the monitor ``mon``:

    mon.check(key, ok, msg)   one oracle verdict; ``key`` names the clause/site
    mon.close(key, got, want, ...)   numeric verdict with scale-aware tolerance
    mon.event(name, n=1)      what the monitors saw (goes to the evidence)
    mon.sig(obj)              signature used to count distinct cases
    mon.trivial()             marks the case as trivial

An exception that escapes from ``run_case``: if any frame of the traceback lies
in /repo/legume the library failed on a valid request -> violation; otherwise
the oracle could not digest what the library returned (missing, of another type
or shape) -> violation "malformed-result". Environment failures (memory, files,
imports) end the check with exit code 2.

A module may set QUICK_REPS: the quick tier then draws that many independent
batches of cases. The thorough tier draws batches until its time is used up.
"""
import os, sys, json, time, hashlib, traceback, signal, warnings, io, contextlib
import multiprocessing as mp

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("LEGUME_REPO", "/repo")
for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(v, "1")
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)

import numpy as np

import logging
logging.getLogger("matplotlib").setLevel(logging.ERROR)


class Timeout(Exception):
    pass


class Quiet(object):
    """Swallow what the library prints (kept for inspection)."""

    def __enter__(self):
        self.out = io.StringIO()
        self._c = contextlib.redirect_stdout(self.out)
        self._c.__enter__()
        return self

    def __exit__(self, *a):
        return self._c.__exit__(*a)


def jsonable(o):
    if isinstance(o, dict):
        return {str(k): jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [jsonable(v) for v in o]
    if isinstance(o, np.ndarray):
        return jsonable(o.tolist())
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.floating,)):
        return float(o)
    if isinstance(o, (np.bool_,)):
        return bool(o)
    if isinstance(o, complex):
        return [o.real, o.imag]
    return o


def digest(o):
    return hashlib.sha1(json.dumps(jsonable(o), sort_keys=True,
                                   default=str).encode()).hexdigest()[:12]


class Mon(object):
    """Collects the verdicts and observations of one case."""

    def __init__(self, prop):
        self.prop = prop
        self.violations = []          # (key, msg)
        self.events = {}
        self.nchecks = 0
        self.is_trivial = False
        self.signature = None
        self.worst = {}               # key -> largest err/tol seen
        self.skips = {}

    def event(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + int(n)

    def skip(self, why):
        self.skips[why] = self.skips.get(why, 0) + 1

    def sig(self, o):
        self.signature = digest(o)

    def trivial(self):
        self.is_trivial = True

    def check(self, key, ok, msg=""):
        self.nchecks += 1
        if not bool(ok):
            self.violations.append((key, str(msg)[:600]))
        return bool(ok)

    def close(self, key, got, want, rtol=1e-8, atol=1e-10, scale=None, msg=""):
        """|got - want| <= atol + rtol*scale (scale: max |want| by default)."""
        self.nchecks += 1
        try:
            g = np.asarray(got)
            w = np.asarray(want)
            if g.dtype == object:
                g = g.astype(complex)
            if w.dtype == object:
                w = w.astype(complex)
        except Exception as e:
            self.violations.append((key, "not numeric: %r %s" % (e, msg)))
            return False
        if g.shape != w.shape:
            self.violations.append(
                (key, "shape %s, expected %s. %s" % (g.shape, w.shape, msg)))
            return False
        if g.size == 0:
            return True
        if not np.all(np.isfinite(g)):
            self.violations.append((key, "non-finite values %s. %s" %
                                    (g.ravel()[:6], msg)))
            return False
        if scale is None:
            scale = np.max(np.abs(w))
        err = np.abs(g - w)
        tol = atol + rtol * scale
        r = float(np.max(err / tol))
        self.worst[key] = max(self.worst.get(key, 0.), r)
        if r > 1:
            i = np.unravel_index(np.argmax(err / tol), err.shape)
            self.violations.append(
                (key, "got %r, expected %r (err %.3g, tol %.3g) at %s. %s" %
                 (g[i], w[i], err[i], np.broadcast_to(tol, err.shape)[i], i, msg)))
            return False
        return True

    def raises(self, key, exc, fn, msg=""):
        """fn() must raise one of the exception types exc."""
        self.nchecks += 1
        try:
            with Quiet():
                r = fn()
        except exc as e:
            return e
        except Timeout:
            raise
        except Exception as e:
            self.violations.append(
                (key, "raised %s(%s) instead of %s. %s" %
                 (type(e).__name__, str(e)[:100], _names(exc), msg)))
            return None
        self.violations.append(
            (key, "accepted (returned %.80r) instead of raising %s. %s" %
             (r, _names(exc), msg)))
        return None


def _names(exc):
    if isinstance(exc, tuple):
        return "/".join(e.__name__ for e in exc)
    return exc.__name__


def in_legume(tb):
    lib = os.path.join(os.path.realpath(REPO), "legume") + os.sep
    for fr in traceback.extract_tb(tb):
        if os.path.realpath(fr.filename).startswith(lib):
            return True
    return False


def _alarm(sig, frm):
    raise Timeout()


def exec_case(mod, case, tmo):
    mon = Mon(mod.PROPERTY)
    t = time.time()
    status = "ok"
    detail = ""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(tmo))
    try:
        import legume
        legume.set_backend("numpy")
        np.random.seed(int(case.get("seed", 0)) % (2**32))
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"):
                with Quiet():
                    mod.run_case(case, mon)
    except Timeout:
        status = "timeout"
    except Exception as e:
        et, ev, tb = sys.exc_info()
        fr = traceback.extract_tb(tb)
        if in_legume(tb):
            lib = [f for f in fr if "/legume/" in f.filename][0]
            mon.violations.append(
                ("exception", "%s: %s raised on a valid request (entered library at %s, %s)"
                 % (et.__name__, str(ev)[:200], os.path.basename(lib.filename), lib.name)))
            detail = traceback.format_exc()[-1500:]
        elif isinstance(ev, (MemoryError, ImportError, OSError)):
            status = "harness-error"
            detail = traceback.format_exc()[-3000:]
        else:
            # the oracle could not even digest what the library returned
            mon.violations.append(
                ("malformed-result", "%s: %s while reading a result of the library (%s, line %d)"
                 % (et.__name__, str(ev)[:200], os.path.basename(fr[-1].filename), fr[-1].lineno)))
            detail = traceback.format_exc()[-3000:]
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        try:
            import legume
            legume.set_backend("numpy")
        except Exception:
            pass
        if "matplotlib.pyplot" in sys.modules:
            sys.modules["matplotlib.pyplot"].close("all")
    return dict(status=status, detail=detail, violations=mon.violations,
                events=mon.events, nchecks=mon.nchecks, trivial=mon.is_trivial,
                sig=mon.signature or digest(case), worst=mon.worst,
                skips=mon.skips, wall=time.time() - t)


_MOD = None
_TMO = 100


def _work(args):
    i, case = args
    return i, exec_case(_MOD, case, _TMO)


def load_known():
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


def match_known(known, prop, key, case):
    """A listed (not 'fixed') finding suppresses one specific key, and only for
    cases whose 'site' is the listed one when the finding names a site."""
    for k in known:
        if k.get("status") != "known" or k["property"] != prop:
            continue
        if k["key"] != key:
            continue
        if "site" in k and case.get("site") != k["site"]:
            continue
        return k
    return None


def assert_repo():
    import legume
    f = os.path.realpath(legume.__file__)
    if not f.startswith(os.path.realpath(REPO) + os.sep):
        print("ERROR: legume imported from %s, not from %s" % (f, REPO))
        sys.exit(2)


def main(mod, argv=None):
    global _MOD, _TMO
    argv = sys.argv[1:] if argv is None else argv
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if "--thorough" in argv:
        tier = "thorough"
    if "--quick" in argv:
        tier = "quick"
    t0 = time.time()
    try:
        assert_repo()
    except ImportError:
        traceback.print_exc()
        print("ERROR: legume cannot be imported")
        sys.exit(2)
    _MOD = mod
    _TMO = getattr(mod, "CASE_TIMEOUT", 120)
    prop = mod.PROPERTY

    if "--replay" in argv:
        with open(argv[argv.index("--replay") + 1]) as f:
            case = json.load(f)["case"]
        r = exec_case(mod, case, 600)
        print(json.dumps(jsonable({k: r[k] for k in
              ("status", "violations", "events", "worst", "detail")}), indent=1))
        sys.exit(1 if r["violations"] else (2 if r["status"] == "harness-error" else 0))

    def batch(r):
        key = [seed, int(hashlib.sha1(prop.encode()).hexdigest()[:8], 16)] + ([r] if r else [])
        return list(mod.cases(np.random.default_rng(key), tier))

    cases = batch(0)
    if tier == "quick" and "--only" not in argv:
        for r in range(1, getattr(mod, "QUICK_REPS", 1)):
            cases += batch(r)
    if "--list" in argv:
        for c in cases:
            print(json.dumps(jsonable(c)))
        return
    if "--only" in argv:
        want = argv[argv.index("--only") + 1]
        cases = [c for c in cases if c.get("site") == want or c.get("kind") == want]
    budget = float(os.environ.get("VERIF_BUDGET", 240 if tier == "quick" else 720))
    fill = tier == "thorough" and "--only" not in argv      # more batches while time is left
    nproc = int(os.environ.get("VERIF_PROCS", min(8, os.cpu_count() or 1)))
    results = [None] * len(cases)
    cut = 0
    jobs = list(enumerate(cases))
    if nproc > 1 and len(cases) > 1:
        ctx = mp.get_context("fork")
        # pre-import so that the workers share the pages
        import legume  # noqa
        pool = ctx.Pool(nproc, maxtasksperchild=getattr(mod, "MAXTASKS", None))
        rep, stop = 0, False
        try:
            while jobs and not stop:
                it = pool.imap_unordered(_work, jobs, chunksize=1)
                t1 = time.time()
                for _ in range(len(jobs)):
                    left = budget - (time.time() - t0)
                    try:
                        i, r = it.next(timeout=max(1., left))
                        results[i] = r
                    except mp.TimeoutError:
                        stop = True
                        break
                jobs, rep = [], rep + 1
                if fill and not stop and (time.time() - t0) + 1.3 * (time.time() - t1) < .8 * budget:
                    more = batch(rep)
                    jobs = [(len(cases) + j, c) for j, c in enumerate(more)]
                    cases += more
                    results += [None] * len(more)
        finally:
            pool.terminate()
            pool.join()
    else:
        for i, c in jobs:
            if time.time() - t0 > budget:
                break
            results[i] = exec_case(mod, c, _TMO)
    cut = sum(1 for r in results if r is None)

    # ---------------------------------------------------------- verdict
    known = load_known()
    viol, khits, herr = [], {}, []
    events, skips, worst = {}, {}, {}
    sigs = set()
    nt = 0
    evals = 0
    nchecks = 0
    tmo = 0
    samples = []
    for c, r in zip(cases, results):
        if r is None:
            continue
        if r["status"] == "harness-error":
            herr.append((c, r))
            continue
        if r["status"] == "timeout":
            tmo += 1
        evals += 1
        nchecks += r["nchecks"]
        for k, v in r["events"].items():
            events[k] = events.get(k, 0) + v
        for k, v in r["skips"].items():
            skips[k] = skips.get(k, 0) + v
        for k, v in r["worst"].items():
            worst[k] = max(worst.get(k, 0), v)
        if not r["trivial"] and r["nchecks"] > 0 and r["status"] == "ok":
            sigs.add(r["sig"])
            if len(samples) < 3:
                samples.append(dict(case=jsonable(c), observed=r["events"],
                                    verdicts=r["nchecks"]))
        for key, msg in r["violations"]:
            k = match_known(known, prop, key, c)
            if k is not None:
                khits.setdefault(json.dumps(k, sort_keys=True), (k, msg))
            else:
                viol.append((key, msg, c, r))
    for js, (k, msg) in sorted(khits.items()):
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    # group the violations by key, one replay each
    seen = {}
    for key, msg, c, r in viol:
        seen.setdefault(key, []).append((msg, c, r))
    rdir = os.environ.get("VERIF_REPLAYS", os.path.join(ROOT, "replays"))
    for key, lst in sorted(seen.items()):
        msg, c, r = lst[0]
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%s.json" % (prop, digest([key, c])))
        with open(path, "w") as f:
            json.dump(jsonable(dict(property=prop, key=key, message=msg, case=c,
                                    detail=r["detail"],
                                    how="python checks/%s.py --replay <this file>" % prop.lower())),
                      f, indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("   [%s] x%d  %s" % (key, len(lst), msg))
    wall = time.time() - t0
    cov = dict(evaluations=evals, distinct_nontrivial=len(sigs), rule=mod.RULE,
               samples=samples or [dict(note="no case completed")],
               oracle_verdicts=nchecks, events_observed=events,
               skipped=skips, cases_cut_by_time=cut, timeouts=tmo,
               worst_error_over_tolerance={k: round(v, 4) for k, v in
                                           sorted(worst.items())})
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration",
              coverage=cov, assumptions=getattr(mod, "ASSUMPTIONS", []),
              wall_s=round(wall, 2), violations=len(viol))
    edir = os.path.join(ROOT, "evidence")
    os.makedirs(edir, exist_ok=True)
    with open(os.path.join(edir, prop + ".json"), "w") as f:
        json.dump(jsonable(ev), f, indent=1)
    for c, r in herr[:3]:
        print("HARNESS-ERROR in case %s\n%s" % (json.dumps(jsonable(c))[:400], r["detail"]))
    print("%s tier=%s seed=%d: %d cases (%d distinct), %d verdicts, %d violations, "
          "%d timeouts, %d cut, %.1f s" % (prop, tier, seed, evals, len(sigs), nchecks,
                                         len(viol), tmo, cut, wall))
    if viol:
        sys.exit(1)
    if herr or not sigs:
        sys.exit(2)
    if tmo * 4 > max(1, evals):
        print("ERROR: too many timeouts to give an answer")
        sys.exit(2)
    sys.exit(0)
