"""C14: entry-set queries always reflect the current entries."""
from __future__ import annotations

import copy
import json
import pickle
import warnings

import numpy as np

from dst import base, canon, gen, seams

QUICK = 2600
THOROUGH = 40000
RULE = ("A case is a pool of random entries (computed with polymorphs, experimental, interpolated) and a history of 5-40 "
        "operations on up to three live entry sets: additions, removals, bulk updates, set algebra in place, copies, deep copies, "
        "pickling, saving and restoring, index building, and every query, in which the convex-hull construction underneath fails "
        "at chosen calls with a Qhull error, out of memory or an interrupt. After each step the answer must be that of a new set "
        "with the same entries, membership must follow a plain set model, and queries must not change the entries. Non-trivial: a "
        "query followed a mutation that followed a query, or an injected failure reached the caller.")
REAL = ["GibbsEntrySet", "expand_pd", "entry classes", "pymatgen, scipy Qhull"]
STUB = ["failures of ConvexHull are injected at the call; restart is a JSON round trip in the same process (C19: a new one)"]
ASSUME = ["a newly created set answers right where the answer is a hull construction; simple queries are also evaluated entry by entry", "entries equal by the package's own equality are one entry"]

MUT = ["add", "add", "add", "discard", "discard", "remove", "update", "ior", "isub", "iand", "pop", "clear"]
QUERY = ["list", "min", "subset", "chemsys", "temp", "ehull", "ehull", "filter", "filter", "stab", "stab", "interp", "interp",
         "index", "index", "mindict", "len"]
LIFE = ["copy", "deepcopy", "pickle", "restore", "fork", "switch"]


def make(rng, tier):
    chem = gen.chemistry(rng, n_elems=(2, 4), n_comp=(2, 8), polymorphs=0.5, exp=0.3, interp=0.3)
    if rng.random() < 0.3:  # the same energy under several identifiers
        for _ in range(rng.choice([1, 2, 3])):
            e = dict(rng.choice([x for x in chem["ents"] if x["k"] == "g"]))
            e["id"], e["u"] = f"mp-{rng.randrange(10000, 99999)}", 1 + max(x["u"] for x in chem["ents"])
            chem["ents"].append(e)
    if rng.random() < 0.08:  # without computed entries
        chem["ents"] = [e for e in chem["ents"] if e["k"] != "g"] or chem["ents"]
    m = len(chem["ents"])
    ops = []
    n = rng.randint(5, 40)
    while len(ops) < n:
        x = rng.random()
        if x < 0.35:
            o = {"o": rng.choice(MUT), "i": [rng.randrange(m) for _ in range(rng.choice([1, 2, 3]))]}
            if o["o"] in ("clear", "iand", "pop") and rng.random() < 0.6:
                continue
            if o["o"] in ("update", "update", "ior") and rng.random() < 0.6:  # from an iterable with a life of its own
                o.update(it=rng.choice(["fail", "ask", "ask", "both"]), at=rng.randrange(3), q=rng.choice(["list", "mindict", "chemsys", "subset", "len", "ehull"]),
                         a=rng.randrange(10000) / 10000, b=rng.randrange(10000) / 10000)
        elif x < 0.88:
            o = {"o": rng.choice(QUERY), "a": rng.randrange(10000) / 10000, "b": rng.randrange(10000) / 10000}
            if rng.random() < 0.2 and o["o"] in ("ehull", "filter", "stab", "interp"):
                o["fault"] = {"at": rng.choice([1, 1, 1, 2, 3]), "exc": rng.choice(["qhull", "qhull", "memory", "interrupt"])}
        else:
            o = {"o": rng.choice(LIFE), "a": rng.randrange(10000) / 10000}
        ops.append(o)
    return {"chem": chem, "ops": ops, "start": round(rng.choice([0.4, 0.7, 1.0, 1.0]), 2), "calc": rng.random() < 0.15}


class Model:
    def __init__(self, s, keys, built=False):
        self.s, self.keys, self.built = s, keys, built


def fresh(s):
    from rxn_network.entries.entry_set import GibbsEntrySet

    return GibbsEntrySet([copy.deepcopy(e) for e in s.entries])


def possible(s):
    """Whether energies above hull are defined for all entries of the set."""
    try:
        for e in s.entries:
            s.get_e_above_hull(e)
        return True
    except ValueError:
        return False


def target_entry(es, pool, a):
    """An entry to ask about: usually one in the set, sometimes one that is not."""
    from_set = sorted(es.entries, key=lambda e: repr(canon.entry_key(e)))
    if from_set and a < 0.8:
        return from_set[int(a / 0.8 * len(from_set))]
    return pool[int(a * 0.999 * len(pool))]


def interp_formula(es, a):
    els = sorted({str(x) for e in es.entries for x in e.composition.elements})
    if len(els) < 2:
        return None
    i = int(a * len(els))
    x, y = els[i], els[(i + 1) % len(els)]
    return f"{x}{1 + int(a * 37) % 5}{y}{1 + int(a * 91) % 7}"


def ask(es, q, pool):
    """Value of a query, in a form comparable between sets."""
    k, a, b = q["o"], q["a"], q["b"]
    if k == "list":
        return [canon.entry_key(e) for e in es.entries_list]
    if k == "mindict":
        return {f: canon.entry_key(e) for f, e in es.min_entries_by_formula.items()}
    if k == "min":
        fs = sorted({e.composition.reduced_formula for e in pool})
        return canon.entry_key(es.get_min_entry_by_formula(fs[int(a * len(fs))]))
    if k == "subset":
        els = sorted({str(x) for e in pool for x in e.composition.elements})
        sub = [x for i, x in enumerate(els) if (int(a * 2 ** len(els)) >> i) & 1] or els[:1]
        r = es.get_subset_in_chemsys(sub if b < 0.5 else "-".join(sub))
        return sorted(map(repr, map(canon.entry_key, r)))
    if k == "chemsys":
        return sorted(es.chemsys)
    if k == "temp":
        return float(es.temperature)
    if k == "ehull":
        return ("e", float(es.get_e_above_hull(target_entry(es, pool, a))))
    if k == "filter":
        r = es.filter_by_stability([0.0, 0.02, 0.1, 0.5][int(b * 4)], include_polymorphs=a < 0.5)
        return sorted(map(repr, map(canon.entry_key, r)))
    if k == "stab":
        e = es.get_stabilized_entry(target_entry(es, pool, a), tol=1e-3, force=b < 0.3)
        return (canon.comp_key(e.composition), type(e).__name__, str(e.entry_id), ("e", float(e.energy)))
    if k == "interp":
        f = interp_formula(es, a)
        if f is None:
            return None
        e = es.get_interpolated_entry(f)
        return (canon.comp_key(e.composition), str(e.entry_id), ("e", float(e.energy)))
    if k == "len":
        return (len(es), sorted(repr(canon.entry_key(e)) for e in es), [e in es for e in pool])
    raise ValueError(k)


def direct(es, q, pool, got):
    """'' if the answer is what looking at the entries one by one gives (where that is simple), else what it should be."""
    from pymatgen.core import Composition

    k, a, b = q["o"], q["a"], q["b"]
    ents = list(es.entries)

    def low(f):
        return min((e.energy_per_atom for e in ents if e.composition.reduced_formula == f), default=None)

    def key_low(f, key):
        return any(canon.entry_key(e) == key and e.energy_per_atom <= low(f) + 1e-9 for e in ents if e.composition.reduced_formula == f)

    if k == "list":
        return "" if sorted(map(repr, got)) == sorted(repr(canon.entry_key(e)) for e in ents) else "another listing"
    if k == "mindict":
        fs = {e.composition.reduced_formula for e in ents}
        return "" if set(got) == fs and all(key_low(f, got[f]) for f in fs) else "one lowest entry for each formula"
    if k == "min":
        fs = sorted({e.composition.reduced_formula for e in pool})
        f = fs[int(a * len(fs))]
        return "" if key_low(f, got) else f"the lowest entry of {f}"
    if k == "subset":
        els = sorted({str(x) for e in pool for x in e.composition.elements})
        sub = {x for i, x in enumerate(els) if (int(a * 2 ** len(els)) >> i) & 1} or set(els[:1])
        want = sorted(repr(canon.entry_key(e)) for e in ents if {str(x) for x in e.composition.elements} <= sub)
        return "" if got == want else f"{len(want)} entries within {sorted(sub)}"
    if k == "chemsys":
        return "" if got == sorted({str(x) for e in ents for x in e.composition.elements}) else "all elements"
    if k == "temp":
        ts = {float(e.temperature) for e in ents if getattr(e, "temperature", None) is not None and type(e).__name__ != "InterpolatedEntry"}
        return "" if got in ts or not ts else f"one of {ts}"
    if k == "filter":
        from pymatgen.analysis.phase_diagram import PhaseDiagram

        cut = [0.0, 0.02, 0.1, 0.5][int(b * 4)]
        try:
            pd = PhaseDiagram(ents)
            h = {id(e): pd.get_e_above_hull(e) for e in ents}
        except Exception:
            return ""
        if any(abs(x - cut) < 1e-6 and x != cut for x in h.values()) or any(0 < x < 1e-6 for x in h.values()):
            return ""
        fs = {}
        for e in ents:
            if h[id(e)] <= cut:
                fs.setdefault(Composition(e.composition).reduced_formula, []).append(e)
        if a < 0.5:
            want = sorted(repr(canon.entry_key(e)) for v in fs.values() for e in v)
            return "" if got == want else f"{len(want)} entries within {cut} eV/atom of the hull"
        return "" if len(got) == len(fs) else f"one entry for each of {sorted(fs)}"
    if k in ("ehull", "stab", "interp"):
        if k == "interp":
            comp, h = (Composition(interp_formula(es, a)), None) if got else (None, None)
        else:
            e = target_entry(es, pool, a)
            comp = e.composition
        h = hull(ents, comp) if comp else None
        if h is None:
            return ""
        if k == "interp":
            want = (h - 1e-3) * comp.reduced_composition.num_atoms
            return "" if abs(got[2][1] - want) < 1e-5 else f"at {want}: 1 meV/atom below the hull"
        d = max(e.energy_per_atom - h, 0.0) if e in es.entries else None
        if d is None or 0 < d < 1e-6:
            return ""
        if k == "ehull":
            return "" if abs(got[1] - d) < 1e-6 else f"{d} above the hull"
        if "e_above_hull" in e.data:
            return ""
        want = [e.energy, e.energy - 1e-3] if d == 0 else [e.energy - d * comp.num_atoms - 1e-3]
        return "" if any(abs(got[3][1] - w) < 1e-5 for w in want) else f"at one of {want}"
    if k == "len":
        return "" if got[0] == len(ents) else str(len(ents))
    return ""


def hull(ents, comp):
    """Energy per atom of the cheapest mixture of entries with the composition, found by linear programming."""
    import numpy as np
    from scipy.optimize import linprog

    els = sorted({str(x) for x in comp.elements})
    use = [e for e in ents if {str(x) for x in e.composition.elements} <= set(els)]
    if not use:
        return None
    A = np.array([[e.composition.get_atomic_fraction(x) for e in use] for x in els])
    r = linprog([e.energy_per_atom for e in use], A_eq=A, b_eq=[comp.get_atomic_fraction(x) for x in els], bounds=(0, None))
    return float(r.fun) if r.status == 0 else None


def rounding(es, q, pool, x, y):
    """Both answers are right for an entry on the hull to within rounding (see `force` of get_stabilized_entry): kept, or lowered by tol."""
    e = target_entry(es, pool, q["a"])
    return x[:3] == y[:3] and abs(es.get_e_above_hull(e)) < 1e-9 and all(min(abs(v[3][1] - e.energy), abs(v[3][1] - e.energy + 1e-3)) < 1e-6 for v in (x, y))


def same(x, y):
    if isinstance(x, tuple) and len(x) == 2 and x[0] == "e" and isinstance(y, tuple):
        return y[0] == "e" and abs(x[1] - y[1]) < 1e-6
    if isinstance(x, (list, tuple)) and isinstance(y, (list, tuple)):
        return len(x) == len(y) and all(same(a, b) for a, b in zip(x, y))
    if isinstance(x, float) and isinstance(y, float):
        return abs(x - y) < 1e-6
    return x == y


def run(case):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return _run(case)


def _run(case):
    from monty.json import MontyDecoder, MontyEncoder
    from rxn_network.entries.entry_set import GibbsEntrySet

    res = base.Res()
    pool = gen.build_entries(case["chem"])
    key = [canon.entry_key(e) for e in pool]
    if len(set(key)) < len(pool) or len(set(pool)) < len(pool):
        res.skipped += 1
        return res
    n0 = max(1, int(case["start"] * len(pool)))
    try:
        first = GibbsEntrySet(pool[:n0], calculate_e_above_hulls=case["calc"])
    except ValueError:  # an element is missing
        first = GibbsEntrySet(pool[:n0])
    live = [Model(first, set(key[:n0]))]
    cur = live[0]
    faulty = seams.CallFaults([("scipy.spatial", "ConvexHull")])
    sig, phase = [], 0
    try:
        for n, o in enumerate(case["ops"]):
            k = o["o"]
            where = f"step {n} ({k}) after {[x['o'] + ('!' if 'fault' in x else '') for x in case['ops'][max(0, n - 12):n]]}"
            res.steps += 1
            s = cur.s
            if k in MUT:
                es = [pool[i % len(pool)] for i in o["i"]]
                ks = {key[i % len(pool)] for i in o["i"]}
                if "it" in o:
                    bulk(cur, o, es, ks, pool, res)
                else:
                    mutate(cur, k, es, ks)
                for m in live:
                    m.built = False
                if phase == 1:
                    phase = 2
            elif k in LIFE:
                if k == "copy":
                    cur.s = s.copy()
                elif k == "deepcopy":
                    cur.s = copy.deepcopy(s)
                elif k == "pickle":
                    cur.s = pickle.loads(pickle.dumps(s))
                elif k == "restore":
                    try:
                        cur.s = MontyDecoder().process_decoded(json.loads(json.dumps(s, cls=MontyEncoder)))
                    except ValueError as e:
                        if not s.calculate_e_above_hulls or possible(s):
                            res.bad("restore", f"{where}: {type(e).__name__}: {str(e)[:300]}")
                            return res
                elif k == "fork" and len(live) < 3:
                    m = Model(s.copy(), set(cur.keys), cur.built)
                    live.append(m)
                    cur = m
                elif k == "switch":
                    cur = live[int(o["a"] * len(live))]
            elif k == "index":
                if not cur.built:
                    s.build_indices()
                    for m in live:
                        m.built = m is cur
                order = s.entries_list
                bad = [(i, e.data.get("idx"), canon.entry_key(e)) for i, e in enumerate(order) if e.data.get("idx") != i]
                inside = {id(e) for e in order}
                stray = [e for e in s.entries if id(e) not in inside]
                if bad or stray or len(order) != len(s.entries):
                    res.bad("index", f"{where}: entry at position {bad[0][0]} has index {bad[0][1]}: {bad[0][2]}" if bad else
                            f"{where}: listing of {len(order)} for {len(s.entries)} entries")
                    return res
            else:
                f = o.get("fault")
                ref = fresh(s)
                try:
                    want, werr = ask(ref, o, pool), None
                except Exception as e:
                    want, werr = None, e
                before = canon.fp_eset(s)
                got = err = None
                c0 = faulty.fired
                try:
                    with faulty.plan(f["at"] if f else None, seams.EXC[f["exc"]] if f else None):
                        got = ask(s, o, pool)
                except (Exception, KeyboardInterrupt) as e:
                    err = e
                fired = faulty.fired > c0
                if fired:
                    res.fire("hull_" + f["exc"])
                    if err is not None:
                        res.nontrivial = True
                if phase == 2:
                    res.nontrivial = True
                phase = max(phase, 1)
                if err is not None:
                    if not fired and werr is None:
                        res.bad("failed", f"{where}: {type(err).__name__}: {str(err)[:300]} @ {base.where(err)}; a new set answers {str(want)[:300]}")
                        return res
                elif werr is not None:
                    res.bad("answered", f"{where}: {str(got)[:300]}; a new set raises {type(werr).__name__}: {str(werr)[:200]}")
                    return res
                elif not same(got, want) and not (k == "stab" and rounding(ref, o, pool, got, want)):
                    res.bad("differs", f"{where}: {str(got)[:500]}; a new set answers {str(want)[:500]}")
                    return res
                if err is None and werr is None:
                    d = direct(s, o, pool, got)
                    if d:
                        res.bad("wrong", f"{where}: {str(got)[:400]}; it should be {d}")
                        return res
                after = canon.fp_eset(s)
                if after != before:
                    res.bad("altered", f"{where}: the query changed the set: {canon.first_diff(before, after)}")
                    return res
            sig.append(k)
            for m in live:
                have = {canon.entry_key(e) for e in m.s.entries}
                if have != m.keys or len(m.s) != len(m.keys):
                    res.bad("members", f"{where}: set holds {len(m.s)} entries, model {len(m.keys)}; extra {list(have - m.keys)[:2]}, missing {list(m.keys - have)[:2]}")
                    return res
    finally:
        faulty.close()
    res.execs += 1
    res.sigs.append(repr(sig))
    res.probe("steps", len(sig))
    return res


class Interrupted(Exception):
    pass


def bulk(m, o, es, ks, pool, res):
    """Update from an iterable that asks the set while it is read, or fails."""
    s = m.s

    def entries():
        for i, e in enumerate([*es, None]):
            if i == min(o["at"], len(es)):
                if o["it"] in ("ask", "both"):
                    try:
                        ask(s, {"o": o["q"], "a": o["a"], "b": o["b"]}, pool)
                    except Exception:
                        pass  # not an answer anyone uses
                if o["it"] in ("fail", "both"):
                    raise Interrupted
            if e is not None:
                yield e

    try:
        if o["o"] == "update":
            s.update(entries())
        else:
            s |= entries()
        m.keys |= ks
    except Interrupted:
        res.fire("iterable_failed")
        res.nontrivial = True
        have = {canon.entry_key(e) for e in s.entries}
        if m.keys <= have <= m.keys | ks:  # how far it got is not specified
            m.keys = have


def mutate(m, k, es, ks):
    s = m.s
    if k == "add":
        s.add(es[0])
        m.keys |= {canon.entry_key(es[0])}
    elif k == "discard":
        s.discard(es[0])
        m.keys -= {canon.entry_key(es[0])}
    elif k == "remove":
        kk = canon.entry_key(es[0])
        try:
            s.remove(es[0])
            ok = True
        except KeyError:
            ok = False
        if ok:
            m.keys -= {kk}
    elif k == "update":
        s.update(es)
        m.keys |= ks
    elif k == "ior":
        s |= set(es)
        m.keys |= ks
    elif k == "isub":
        s -= set(es)
        m.keys -= ks
    elif k == "iand":
        keep = set(list(s.entries)[::2]) | set(es)
        kk = {canon.entry_key(e) for e in keep}
        s &= keep
        m.keys &= kk
    elif k == "pop":
        if len(s):
            e = s.pop()
            m.keys -= {canon.entry_key(e)}
    elif k == "clear":
        s.clear()
        m.keys.clear()
        s.update(es)
        m.keys |= ks


def shrink(case):
    yield from base.shrink_common(case)
    for i, q in enumerate(case["ops"]):
        if "fault" in q:
            d = copy.deepcopy(case)
            del d["ops"][i]["fault"]
            yield d
    for k, v in (("calc", False), ("start", 1.0)):
        if case[k] != v:
            yield {**copy.deepcopy(case), k: v}
