"""Tries planted bugs (seeded/<id>) in scratch copies of /repo: applies, demo clean/patched, stable tests, the check.
usage: plant.py [-t] ID...   (-t: leave out the repository's tests)"""
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = {"test_entry_job"}


def sh(cmd, cwd, env=None, timeout=900):
    e = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as x:
        return 124, str(x.stdout or "")[-500:]


def one(i, tests=True):
    d = f"{HERE}/seeded/{i}"
    meta = json.load(open(f"{d}/meta.json"))
    w = f"/tmp/plant-{i}"
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    out = {"id": i, "property": meta["property"]}
    try:
        subprocess.run(["cp", "-a", "/repo", f"{w}/repo"], check=True)
        shutil.copytree(d, f"{w}/demo", ignore=shutil.ignore_patterns("*.diff", "meta.json"))
        r = f"{w}/repo"
        out["demo_clean"] = sh(["bash", f"{w}/demo/demo.sh"], r)[0]
        rc, o = sh(["git", "apply", f"{d}/patch.diff"], r)
        if rc:
            out["apply"] = o
            return out
        rc, o = sh(["bash", f"{w}/demo/demo.sh"], r)
        out["demo_patched"] = rc, o.strip().splitlines()[-1:]
        if tests:
            os.makedirs(f"{w}/r")
            rc, o = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "--deselect", "tests/jobs/test_core.py::test_entry_job", "-p", "no:cacheprovider", "-n", "0",
                        "--timeout=120", "tests"], r, {"PYTHONPATH": f"{r}/src", "RAY_TMPDIR": f"{w}/r", "PYTHONHASHSEED": "0", "MPLBACKEND": "Agg",
                                                      "PYTHONDONTWRITEBYTECODE": "1", "RAY_USAGE_STATS_ENABLED": "0"})
            out["tests"] = rc, o.strip().splitlines()[-2:] if rc else ""
        rc, o = sh([sys.executable, "check.py", meta["property"], "quick"], HERE, {"DST_REPO": r, "VERIF_SEED": "1"})
        v = [x[:250] for x in o.splitlines() if x.startswith("VIOLATION") or "violation" in x.lower()][:3]
        out["check"] = rc, v or o.strip().splitlines()[-2:]
        return out
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == "__main__":
    ids = sys.argv[1:]
    t = "-t" not in ids
    ids = [i for i in ids if i != "-t"] or sorted(os.listdir(f"{HERE}/seeded"))
    with ThreadPoolExecutor(2) as ex:
        for o in ex.map(lambda i: one(i, t), ids):
            good = o.get("demo_clean") == 0 and o.get("demo_patched", (0,))[0] != 0 and o.get("tests", (0,))[0] == 0
            print("COUNTS" if good else "NO    ", "CAUGHT" if o.get("check", (0,))[0] == 1 else "missed", json.dumps(o), flush=True)
