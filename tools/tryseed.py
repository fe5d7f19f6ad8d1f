"""Try planted bugs: tryseed.py [--notests] [ids...]   (scratch copies under /tmp, removed afterwards)

For each /verif/seeded/<id>: patch applies, demo 0 on clean / nonzero on patched, stable tests pass,
and whether the property's quick check (run on the scratch copy through LEGUME_REPO) reports it."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(ROOT, "seeded")
PY = "/opt/venv/bin/python"


def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1")
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def one(i, tests=True):
    d = os.path.join(SEED, i)
    tmp = tempfile.mkdtemp(prefix="seed-%s-" % i)
    out = {}
    try:
        tree = os.path.join(tmp, "repo")
        subprocess.check_call(["cp", "-a", "/repo", tree])
        sd = os.path.join(tmp, "demo")
        shutil.copytree(d, sd, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
        meta = json.load(open(os.path.join(d, "meta.json")))
        out["property"] = meta["property"]
        rc, o = sh(["bash", os.path.join(sd, "demo.sh")], tree, timeout=300)
        out["clean"] = rc
        if rc:
            out["clean_out"] = o[-1500:]
        rc, o = sh(["git", "apply", os.path.join(d, "patch.diff")], tree)
        out["apply"] = rc
        if rc:
            out["apply_out"] = o
            return i, out
        rc, o = sh(["bash", os.path.join(sd, "demo.sh")], tree, timeout=300)
        out["patched"] = rc
        out["patched_out"] = o[-300:]
        if tests:
            st = json.load(open("/opt/vp/BASELINE.json"))["stable"]
            ids = []
            for s in st:
                m, c, f = s.split("::")[0], s.split("::")[0], s.split("::")[1]
                parts = s.split("::")[0].split(".")
                ids.append("%s/%s.py::%s::%s" % (parts[0], parts[1], parts[2], f))
            rc, o = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider"] + ids, tree, {"PYTHONPATH": tree})
            out["tests"] = rc
            if rc:
                out["tests_out"] = o[-800:]
        chk = os.path.join(ROOT, "checks", meta["property"].lower() + ".py")
        if os.path.exists(chk):
            vt = os.path.join(tmp, "verif")
            shutil.copytree(ROOT, vt, ignore=shutil.ignore_patterns("seeded", ".git", "evidence", "replays"))
            rc, o = sh(["bash", os.path.join(vt, "check.sh"), meta["property"], "--quick"], vt,
                       {"LEGUME_REPO": tree, "VERIF_SEED": "1", "VERIF_TIER": "quick", "VERIF_PROCS": os.environ.get("VERIF_PROCS", "3")})
            v = [l for l in o.splitlines() if l.startswith("VIOLATION property=" + meta["property"] + " ")]
            out["check"] = (rc, len(v))
            if not (rc == 1 and v):
                out["check_out"] = o[-600:]
            else:
                out["first"] = [l for l in o.splitlines() if "VIOLATION" in l or l.startswith("  ")][:2]
        return i, out
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    a = sys.argv[1:]
    tests = "--notests" not in a
    ids = [x for x in a if not x.startswith("-")] or sorted(os.listdir(SEED))
    with ThreadPoolExecutor(3) as ex:
        for i, o in ex.map(lambda x: one(x, tests), ids):
            good = o.get("clean") == 0 and o.get("apply") == 0 and o.get("patched", 0) != 0 and (not tests or o.get("tests") == 0)
            caught = o.get("check", (0, 0))[0] == 1 and o["check"][1] > 0
            print(i, o.get("property"), "COUNTS" if good else "BAD", "caught" if caught else "MISSED")
            for k, v in o.items():
                if (not good and k != "first") or (not caught and k == "check_out") or k == "first":
                    print("    ", k, ":", v)
            sys.stdout.flush()
