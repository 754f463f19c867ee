"""Compare the simulator's `ray` with the installed real Ray: the same small programs must give the same outcomes.

    /opt/venv/bin/python tools/fidelity.py          run both in subprocesses and print every difference

Not a registered check: it observes real executions. It is how the model of Ray in dst/kernel.py was validated.
Known differences left: task durations are simulated (time.sleep takes no simulated time), and an object
that appears twice in a plain list stays one object after a transfer (real Ray keeps that only inside pickled objects)."""
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def programs():
    import threading
    import time

    import numpy as np
    import ray

    @ray.remote
    def inc(x):
        return x + 1

    @ray.remote
    def fail(kind):
        raise {"v": ValueError, "k": KeyError, "m": MemoryError, "r": RuntimeError}[kind]("boom")

    class Odd(Exception):
        def __init__(self, a, b):
            super().__init__(f"{a}-{b}")

    @ray.remote
    def odd():
        raise Odd(1, 2)

    @ray.remote
    def change(lst):
        lst.append(9)
        return lst

    @ray.remote
    def kind(x):
        return type(x).__name__

    @ray.remote
    def inside(box):
        return [type(x).__name__ for x in box], ray.get(box[0])

    @ray.remote
    def nested(n):
        return n if n == 0 else ray.get(nested_ref[0].remote(n - 1)) + 1

    nested_ref = [inc]

    @ray.remote
    def writable(a):
        try:
            a[0] = 5
            return True
        except ValueError:
            return False

    @ray.remote(num_returns=2)
    def two():
        return 1, 2

    @ray.remote
    def slow(x, t):
        time.sleep(t)
        return x

    @ray.remote
    def unpicklable():
        return threading.Lock()

    @ray.remote
    def stop():
        raise SystemExit(2)

    class Boom:
        def __reduce__(self):
            raise TypeError("cannot be pickled")

    def p_value():
        return ray.get(inc.remote(1))

    def p_put_get():
        o = [1, [2]]
        r = ray.put(o)
        o[1].append(3)
        a, b = ray.get(r), ray.get(r)
        return a, a is b, a[1] is b[1]

    def p_put_ref():
        return ray.put(ray.put(1))

    def p_arg_change():
        lst = [1]
        return ray.get(change.remote(lst)), lst

    def p_shared_change():
        r = ray.put([1])
        return ray.get(change.remote(r)), ray.get(change.remote(r)), ray.get(r)

    def p_ref_arg():
        return ray.get([kind.remote(ray.put(3)), kind.remote(inc.remote(1)), kind.remote([1])])

    def p_nested_ref():
        return ray.get(inside.remote([ray.put(4)]))

    def p_kwargs():
        return ray.get(inc.remote(x=ray.put(3)))

    def p_bad_args():
        return ray.get(inc.remote(1, 2, 3))

    def p_inner_task():
        return ray.get(nested.remote(1))

    def p_numpy_put():
        return ray.get(writable.remote(ray.put(np.zeros(100_000))))

    def p_numpy_arg():
        return ray.get(writable.remote(np.zeros(100_000)))

    def p_numpy_got():
        a = ray.get(ray.put(np.zeros(100_000)))
        return a.flags.writeable

    def p_numpy_small():
        return ray.get(ray.put(np.zeros(3))).flags.writeable

    def p_get_tuple():
        return ray.get((ray.put(1), ray.put(2)))

    def p_get_value():
        return ray.get(3)

    def p_get_values():
        return ray.get([3])

    def p_get_empty():
        return ray.get([])

    def p_wait_empty():
        return ray.wait([])

    def p_wait_more():
        return ray.wait([ray.put(1)], num_returns=2)

    def p_wait_zero():
        return ray.wait([ray.put(1)], num_returns=0)

    def p_wait_twice():
        r = ray.put(1)
        return ray.wait([r, r])

    def p_wait_one():
        return ray.wait(ray.put(1))

    def p_wait_many():
        rs = [ray.put(i) for i in range(4)]
        a, b = ray.wait(rs, num_returns=2)
        return len(a), len(b), sorted(ray.get(a + b)), [x in rs for x in a + b]

    def p_wait_failed():
        a, b = ray.wait([fail.remote("v")])
        return len(a), len(b)

    def p_err_v():
        return ray.get(fail.remote("v"))

    def p_err_k():
        return ray.get(fail.remote("k"))

    def p_err_m():
        return ray.get(fail.remote("m"))

    def p_err_cause():
        try:
            ray.get(fail.remote("v"))
        except ValueError as e:
            return isinstance(e, ray.exceptions.RayTaskError), type(e.cause).__name__, str(e.cause)

    def p_err_odd():
        try:
            ray.get(odd.remote())
        except Exception as e:
            return isinstance(e, ray.exceptions.RayTaskError), isinstance(e, ray.exceptions.RayError)

    def p_err_arg():
        return ray.get(inc.remote(fail.remote("k")))

    def p_err_list():
        return ray.get([inc.remote(1), fail.remote("r")])

    def p_direct():
        return inc(1)

    def p_two():
        return ray.get(list(two.remote()))

    def p_options():
        return ray.get(inc.options(num_cpus=1).remote(3))

    def p_bad_result():
        return ray.get(unpicklable.remote())

    def p_bad_arg():
        return ray.get(inc.remote(Boom()))

    def p_bad_put():
        return ray.put(threading.Lock())

    def p_system_exit():
        return ray.get(stop.options(max_retries=0).remote())

    def p_hash():
        r = ray.put(1)
        return {r: 2}[r], r == ray.put(1), r in [r]

    def p_init_twice():
        return ray.init()

    def p_init_again():
        ray.init(ignore_reinit_error=True)
        return ray.is_initialized()

    def p_resources():
        c = ray.cluster_resources()
        n = ray.nodes()
        return c["CPU"], type(c["CPU"]).__name__, c["memory"] > 0, len(n), n[0]["Alive"], n[0]["Resources"]["CPU"], "NodeManagerHostname" in n[0]

    def p_infeasible():
        r = inc.options(memory=100 * 2**30).remote(1)
        a, b = ray.wait([r], timeout=1.0)
        return len(a), len(b)

    def p_many_cpus():
        a, b = ray.wait([inc.options(num_cpus=1000).remote(1)], timeout=1.0)
        return len(a), len(b)

    def p_fill():
        return sorted(ray.get([slow.remote(i, 0.01) for i in range(9)]))

    def p_set_order():
        return sorted(ray.get(ray.put({"a", "b", "c"})))

    def p_class():
        return type(ray.get(ray.put(Odd("a", "b")))).__name__

    return {k[2:]: v for k, v in locals().items() if k.startswith("p_")}


def code():
    """The repository's own code: the same enumeration, network search and job."""
    sys.path.insert(0, HERE)
    from dst import canon, gen

    out = {}
    rng = gen.rng_of("fidelity", 1)
    from rxn_network.enumerators.basic import BasicEnumerator, BasicOpenEnumerator
    from rxn_network.enumerators.minimize import MinimizeGibbsEnumerator
    from rxn_network.entries.entry_set import GibbsEntrySet

    for i in range(3):
        chem = gen.chemistry(rng)
        es = GibbsEntrySet(gen.build_entries(chem))
        for name, en in (("basic", BasicEnumerator(n=2)), ("open", BasicOpenEnumerator(open_phases=["O2"], n=2)), ("gibbs", MinimizeGibbsEnumerator())):
            try:
                r = en.enumerate(es)
                out[f"{i} {name}"] = sorted(repr(canon.rxn_key(x)) for x in r)
            except Exception as e:
                out[f"{i} {name}"] = f"{type(e).__name__}: {str(e)[:80]}"
    return out


def outcome(f):
    try:
        return {"ok": json.loads(json.dumps(f()))}
    except TypeError as e:
        if "JSON serializable" in str(e):
            return {"ok": "a value"}
        return {"raises": "TypeError"}
    except BaseException as e:
        return {"raises": sorted(c.__name__ for c in type(e).__mro__ if c.__module__.split(".")[0] in ("ray", "builtins") and c not in (object, BaseException, Exception)
                                 and c.__name__ != type(e).__name__ or c is type(e) and "(" not in c.__name__)}


def child(which):
    import warnings

    warnings.simplefilter("ignore")
    import ray

    res = {}
    if which == "sim":
        from dst import kernel

        for name, f in programs().items():
            kernel.use({"seed": 1, "cpus": 2})
            try:
                res[name] = outcome(f)
            except BaseException as e:
                res[name] = {"sim": repr(e)}
        kernel.use({"seed": 2, "cpus": 2})
    else:
        ray.init(num_cpus=2, include_dashboard=False, log_to_driver=False, logging_level="ERROR")
        for name, f in programs().items():
            res[name] = outcome(f)
    res["code"] = code()
    print("RESULT " + json.dumps(res))


def main():
    got = {}
    for which in ("sim", "real"):
        path = ([HERE + "/dst/shim"] if which == "sim" else []) + [HERE, "/repo/src"]
        env = {**os.environ, "PYTHONPATH": ":".join(path), "PYTHONHASHSEED": "0", "TQDM_DISABLE": "1", "PYTHONDONTWRITEBYTECODE": "1"}
        p = subprocess.run([sys.executable, __file__, which], env=env, capture_output=True, text=True, timeout=850)
        lines = [x for x in p.stdout.splitlines() if x.startswith("RESULT ")]
        if not lines:
            print(which, "failed:", p.stderr[-2000:])
            return 2
        got[which] = json.loads(lines[-1][7:])
    bad = 0
    for k in got["real"]:
        a, b = got["sim"].get(k), got["real"][k]
        if a != b:
            bad += 1
            if k == "code":
                for q in b:
                    if a.get(q) != b[q]:
                        print("code", q, str(a.get(q))[:300], "|", str(b[q])[:300])
            else:
                print(f"{k}: simulator {a} | real {b}")
    print(f"{len(got['real']) - 1} programs, {sum(len(v) if isinstance(v, list) else 0 for v in got['real']['code'].values())} reactions; {bad} differ")
    return 1 if bad else 0


if __name__ == "__main__":
    if len(sys.argv) > 1:
        child(sys.argv[1])
    else:
        sys.exit(main())
