"""Is one seed one exactly repeatable execution?  Each case is run in three processes (in order, in order again, in reverse
order) and everything recorded about it (schedule signatures, faults fired, probes, violations) must agree.

    /opt/venv/bin/python tools/selftest.py [cases per property] [property...]"""
import hashlib
import importlib
import json
import os
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def child(prop, n, rev):
    import contextlib
    import io

    import dst.preload  # noqa: F401
    from dst import gen

    m = importlib.import_module("dst.props." + prop.lower())
    order = list(range(n))
    for i in reversed(order) if rev else order:
        c = m.make(gen.rng_of("case", prop, 1, i), "quick")
        before = json.dumps(c, sort_keys=True)
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            r = m.run(json.loads(before))
        d = {k: v for k, v in vars(r).items() if k not in ("wall", "t0", "cpu")}
        print(i, hashlib.sha256((before + repr(sorted(d.items(), key=lambda x: x[0]))).encode()).hexdigest()[:16], flush=True)


def main():
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 20
    props = sys.argv[2:] or [f"C{i:02d}" for i in range(1, 25)]

    def one(p):
        outs = []
        for rev in ("0", "0", "1"):
            env = {**os.environ, "PYTHONPATH": f"{HERE}/dst/shim:{HERE}:/repo/src", "PYTHONHASHSEED": "3", "TQDM_DISABLE": "1", "OMP_NUM_THREADS": "1",
                   "OPENBLAS_NUM_THREADS": "1", "TZ": "UTC", "PYTHONDONTWRITEBYTECODE": "1"}
            q = subprocess.run([sys.executable, "-B", __file__, "--child", p, str(n), rev], env=env, capture_output=True, text=True)
            outs.append(dict(x.split() for x in q.stdout.splitlines() if len(x.split()) == 2))
        a, b, c = outs
        return p, len(a), [i for i in a if a[i] != b.get(i)], [i for i in a if a[i] != c.get(i)]

    bad = 0
    with ThreadPoolExecutor(int(os.environ.get("J", "8"))) as ex:
        for p, k, x, y in ex.map(one, props):
            bad += bool(x or y or k != n)
            print(p, k, "cases", "repeatable" if not x and not y and k == n else f"NOT repeatable: {x} {y}", flush=True)
    return 1 if bad else 0


if __name__ == "__main__":
    if sys.argv[1:2] == ["--child"]:
        child(sys.argv[2], int(sys.argv[3]), sys.argv[4] == "1")
    else:
        sys.exit(main())
