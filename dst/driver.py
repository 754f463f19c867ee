"""Runs the cases of one property over worker processes; minimises and reports."""
from __future__ import annotations

import copy
import hashlib
import importlib
import json
import os
import queue
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("DST_REPO", "/repo")
PY = "/opt/venv/bin/python"
CASE_LIMIT = 100.0


def log(*a):
    print(*a, file=sys.stderr, flush=True)


class Worker:
    def __init__(self, hashseed):
        self.hashseed = hashseed
        env = {k: v for k, v in os.environ.items() if k not in ("MP_API_KEY", "PMG_MAPI_KEY")}
        env.update(PYTHONPATH=f"{HERE}/shim:{VERIF}:{REPO}/src", PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE="1",
                   MPLBACKEND="Agg", RAY_USAGE_STATS_ENABLED="0", TQDM_DISABLE="1", OMP_NUM_THREADS="1",
                   OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", TZ="UTC")
        self.p = subprocess.Popen([PY, "-m", "dst.worker"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env,
                                  cwd=VERIF, text=True, bufsize=1, start_new_session=True)
        self.history = []
        self.ready = False
        self.q = queue.Queue()
        threading.Thread(target=self._read, daemon=True).start()

    def _read(self):
        for line in self.p.stdout:
            self.q.put(line)
        self.q.put(None)

    def wait_ready(self):
        if self.ready:
            return
        line = self.q.get(timeout=300)
        if line is None:
            raise RuntimeError("worker did not start")
        d = json.loads(line)
        if "fatal" in d:
            raise RuntimeError("worker could not import the code under test:\n" + d["fatal"])
        self.ready = True

    def run(self, prop, case, limit=CASE_LIMIT):
        """dict result | 'hang' | ('died', rc)"""
        self.wait_ready()
        self.history.append(case)
        try:
            self.p.stdin.write(json.dumps({"prop": prop, "case": case}) + "\n")
            self.p.stdin.flush()
            line = self.q.get(timeout=limit)
        except queue.Empty:
            self.kill()
            return "hang"
        except OSError:
            line = None
        if line is None:
            self.p.wait()
            return ("died", self.p.returncode)
        return json.loads(line)

    def kill(self):
        try:
            os.killpg(self.p.pid, 9)
        except OSError:
            pass
        self.p.wait()


class HarnessFailure(Exception):
    pass


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def violations_of(out, known_ids):
    """(new violations, known ones) of a worker answer."""
    if not out["ok"]:
        raise HarnessFailure(out["error"])
    new, kn = [], []
    for v in out["res"]["violations"]:
        (kn if v.get("known") in known_ids else new).append(v)
    return new, kn


class Session:
    def __init__(self, prop, tier, seed, n_workers=8):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.mod = importlib.import_module(f"dst.props.{prop.lower()}")
        self.n_workers = n_workers
        self.known = {k["id"] for k in load_known() if k["property"] == prop and k.get("status") == "known"}
        self.t0 = time.time()

    # -------------------------------------------------------------- cases
    def cases(self):
        from dst import gen

        n = self.mod.QUICK if self.tier == "quick" else self.mod.THOROUGH
        if os.environ.get("DST_CASES"):
            n = int(os.environ["DST_CASES"])
        out = []
        cdir = os.path.join(VERIF, "corpus", self.prop)
        if os.path.isdir(cdir):
            for f in sorted(os.listdir(cdir)):
                c = json.load(open(os.path.join(cdir, f)))
                c = c.get("case", c)
                c["_corpus"] = f
                c.setdefault("hashseed", 0)
                out.append(c)
        for i in range(n):
            rng = gen.rng_of("case", self.prop, self.seed, i)
            c = self.mod.make(rng, self.tier)
            c["i"] = i
            c["hashseed"] = i % self.n_workers
            out.append(c)
        return out

    def real_seed(self, idx):
        # a few fixed interpreters hash seeds per VERIF_SEED; 0 disables randomisation
        return (idx * 7919 + self.seed * 104729) % 4294967295 if idx else 0

    # -------------------------------------------------------------- exploration
    def explore(self):
        budget = self.mod.__dict__.get("WALL_QUICK", 150) if self.tier == "quick" else self.mod.__dict__.get("WALL_THOROUGH", 780)
        cases = self.cases()
        lanes = [[] for _ in range(self.n_workers)]
        for c in cases:
            lanes[c["hashseed"] % self.n_workers].append(c)
        self.results, self.found, self.errors, self.knowns = [], [], [], {}
        stop = threading.Event()
        lock = threading.Lock()

        def lane(k):
            w = None
            try:
                for c in lanes[k]:
                    if stop.is_set() or time.time() - self.t0 > budget:
                        break
                    if w is None:
                        w = Worker(self.real_seed(k))
                    r = w.run(self.prop, c)
                    if r == "hang" or isinstance(r, tuple):
                        hist = w.history[:]
                        w.kill()
                        w = None
                        v = self.confirm_dead(c, r)
                        if v:
                            with lock:
                                self.found.append((c, [v], hist))
                            stop.set()
                            break
                        continue
                    new, kn = violations_of(r, self.known)
                    with lock:
                        self.results.append((c, r["res"]))
                        for v in kn:
                            self.knowns.setdefault(v["known"], (c, v))
                        if new:
                            self.found.append((c, new, w.history[:]))
                            stop.set()
            except Exception as e:
                with lock:
                    self.errors.append(f"{type(e).__name__}: {e}")
                stop.set()
            finally:
                if w is not None:
                    w.kill()

        ts = [threading.Thread(target=lane, args=(k,)) for k in range(self.n_workers)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        self.n_cases = len(cases)

    def fresh(self, case, limit=2 * CASE_LIMIT):
        w = Worker(self.real_seed(case["hashseed"]) if "real_hashseed" not in case else case["real_hashseed"])
        try:
            return w.run(self.prop, case, limit)
        finally:
            w.kill()

    def confirm_dead(self, case, r):
        r2 = self.fresh(case)
        if r2 == "hang":
            return {"cls": "hang", "msg": f"does not terminate within {2 * CASE_LIMIT:.0f} s in an otherwise idle process"}
        if isinstance(r2, tuple):
            if r2[1] == -9:
                raise HarnessFailure("worker killed (memory)")
            return {"cls": "process-death", "msg": f"the process died with status {r2[1]}"}
        new, _ = violations_of(r2, self.known)
        return new[0] if new else None

    # -------------------------------------------------------------- minimisation
    def minimise(self, case, cls, budget=60):
        if cls in ("hang", "process-death") or not hasattr(self.mod, "shrink"):
            return case, 0
        t0 = time.time()
        w = Worker(self.real_seed(case["hashseed"]))
        tries = 0

        def fails(c):
            nonlocal w
            r = w.run(self.prop, c, 60)
            if r == "hang" or isinstance(r, tuple):
                w.kill()
                w = Worker(self.real_seed(case["hashseed"]))
                return False
            if not r["ok"]:
                return False
            new = [v for v in r["res"]["violations"] if v.get("known") not in self.known]
            return any(v["cls"] == cls for v in new)

        try:
            best = case
            if not fails(best):
                return case, 0
            improved = True
            while improved and time.time() - t0 < budget:
                improved = False
                for cand in self.mod.shrink(best):
                    if time.time() - t0 > budget:
                        break
                    tries += 1
                    if fails(cand):
                        best = cand
                        improved = True
                        break
            return best, tries
        finally:
            w.kill()

    def report(self):
        """Handle the found violations: minimise, confirm in a fresh process, write the replay file."""
        self.found.sort(key=lambda x: x[0].get("i", -1))
        case, vs, hist = self.found[0]
        cls = vs[0]["cls"]
        small, tries = self.minimise(case, cls)
        rec = None
        for cand, kind in ((small, "minimised"), (case, "original")):
            got = self.replay_once({"property": self.prop, "case": cand, "real_hashseed": self.real_seed(cand["hashseed"])}, cls)
            if got:
                rec = {"case": cand, "kind": kind, "violation": got}
                break
        if rec is None:
            got = self.replay_once({"property": self.prop, "history": hist, "case": case,
                                    "real_hashseed": self.real_seed(case["hashseed"])}, cls)
            if got:
                h = hist[:-1]
                t0 = time.time()
                # shorten the history
                step = max(1, len(h) // 2)
                while step >= 1 and time.time() - t0 < 90 and h:
                    i = 0
                    while i < len(h) and time.time() - t0 < 90:
                        h2 = h[:i] + h[i + step:]
                        if self.replay_once({"property": self.prop, "history": [*h2, case], "case": case,
                                             "real_hashseed": self.real_seed(case["hashseed"])}, cls):
                            h = h2
                        else:
                            i += step
                    if step == 1:
                        break
                    step //= 2
                rec = {"case": case, "history": [*h, case], "kind": "history", "violation": got}
        if rec is None:
            raise HarnessFailure(f"a violation did not replay: {cls}: {vs[0]['msg']}")
        rec.update(property=self.prop, seed=self.seed, tier=self.tier, minimise_tries=tries,
                   real_hashseed=self.real_seed(case["hashseed"]),
                   how="python3 check.py --replay <this file>")
        blob = json.dumps(rec, indent=1, sort_keys=True, default=str)
        os.makedirs(f"{VERIF}/replays", exist_ok=True)
        path = f"replays/{self.prop}-{hashlib.sha1(blob.encode()).hexdigest()[:10]}.json"
        with open(f"{VERIF}/{path}", "w") as f:
            f.write(blob)
        return path, rec

    def replay_once(self, rec, cls=None):
        w = Worker(rec["real_hashseed"])
        try:
            hist = rec.get("history") or [rec["case"]]
            for c in hist:
                r = w.run(self.prop, c, 2 * CASE_LIMIT)
                if r == "hang":
                    return {"cls": "hang", "msg": "does not terminate"} if cls in (None, "hang") else None
                if isinstance(r, tuple):
                    return {"cls": "process-death", "msg": str(r)} if cls in (None, "process-death") else None
                if not r["ok"]:
                    raise HarnessFailure(r["error"])
            for v in r["res"]["violations"]:
                if v.get("known") in self.known:
                    continue
                if cls is None or v["cls"] == cls:
                    return v
            return None
        finally:
            w.kill()

    # -------------------------------------------------------------- evidence
    def evidence(self, n_viol):
        m = self.mod
        fired, probes, sigs = {}, {}, set()
        sim = steps = execs = tasks = skipped = nontriv = 0
        keys = set()
        for c, r in self.results:
            for k, v in r["fired"].items():
                fired[k] = fired.get(k, 0) + v
            for k, v in r["probes"].items():
                probes[k] = probes.get(k, 0) + v
            sigs.update(r["sigs"])
            sim += r["sim_time"]
            steps += r["steps"]
            execs += r["execs"]
            tasks += r["tasks"]
            skipped += r["skipped"]
            key = hashlib.sha1(json.dumps({k: v for k, v in c.items() if k not in ("i", "hashseed", "_corpus")},
                                          sort_keys=True, default=str).encode()).hexdigest()
            if r["nontrivial"] and key not in keys:
                nontriv += 1
            keys.add(key)
        wall = time.time() - self.t0
        samples = [c for c, r in self.results if r["nontrivial"]][:2] or [c for c, _ in self.results][:1]
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "exploration",
            "coverage": {
                "evaluations": len(self.results),
                "distinct_nontrivial": nontriv,
                "rule": m.RULE,
                "samples": samples,
                "planned_cases": self.n_cases,
                "simulated_executions": execs,
                "seeds_per_hour": round(len(self.results) / max(wall, 1e-9) * 3600),
                "simulated_executions_per_hour": round(execs / max(wall, 1e-9) * 3600),
                "simulated_seconds": round(sim, 1),
                "scheduling_steps": steps,
                "remote_tasks": tasks,
                "faults_fired": dict(sorted(fired.items())),
                "distinct_interleavings": len(sigs),
                "interleaving_measure": "distinct hashes of the full event trace (submissions, starts, completions, faults, operations)",
                "probes": dict(sorted(probes.items())),
                "cases_not_judged": skipped,
                "interpreter_hash_seeds": sorted({self.real_seed(c["hashseed"]) for c, _ in self.results}),
                "corpus_cases": sum(1 for c, _ in self.results if "_corpus" in c),
                "real_components": m.REAL,
                "stub_components": m.STUB,
            },
            "assumptions": getattr(m, "ASSUME", []),
            "wall_s": round(wall, 2),
            "violations": n_viol,
        }
        os.makedirs(f"{VERIF}/evidence", exist_ok=True)
        with open(f"{VERIF}/evidence/{self.prop}.json", "w") as f:
            json.dump(ev, f, indent=1, default=str)
        return ev


def main(argv):
    sys.path.insert(0, VERIF)
    if argv[:1] == ["--replay"]:
        rec = json.load(open(argv[1]))
        s = Session(rec["property"], rec.get("tier", "quick"), rec.get("seed", 1))
        want = rec.get("violation", {}).get("cls")
        v = s.replay_once(rec, want)
        if v:
            print(f"{v['cls']}: {v['msg']}")
            print(f"VIOLATION property={rec['property']} replay={argv[1]}")
            return 1
        print("not reproduced")
        return 0
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(argv) > 1:
        tier = argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    s = Session(prop, tier, seed, int(os.environ.get("DST_WORKERS", "8")))
    print(f"property={prop} tier={tier} VERIF_SEED={seed}")
    s.explore()
    try:
        if s.found:
            path, rec = s.report()
            s.evidence(len(s.found))
            v = rec["violation"]
            print(f"{v['cls']}: {v['msg']}")
            print(f"VIOLATION property={prop} replay={path}")
            return 1
        if s.errors:
            print("HARNESS ERROR\n" + "\n".join(s.errors))
            return 2
    except HarnessFailure as e:
        print(f"HARNESS ERROR\n{e}")
        return 2
    ev = s.evidence(0)
    for kid, (c, v) in sorted(s.knowns.items()):
        print(f"KNOWN-FINDING: property={prop} {kid}: {v['msg'][:300]}")
    cov = ev["coverage"]
    print(f"ok: {cov['evaluations']} cases, {cov['simulated_executions']} simulated executions, "
          f"{cov['distinct_interleavings']} interleavings, faults {cov['faults_fired']}, {ev['wall_s']} s")
    if not s.results:
        print("HARNESS ERROR: nothing was explored")
        return 2
    return 0
