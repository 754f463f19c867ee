"""C15: serialising or re-deriving an entry never alters it, even on failure."""
from __future__ import annotations

import copy
import json
import pickle
import sys
import warnings

from dst import base, canon, gen, kernel

QUICK = 5000
THOROUGH = 100000
RULE = ("A case is 1-3 entries shared by 1-4 threads (computed, tabulated and interpolated entries, with nested data keyed by "
        "elements, energy adjustments, values that can not be serialised) and a list of operations per thread: save as dict or "
        "JSON and restore, derive at another temperature (alone or through an entry set), adjust the energy, copy, pickle, to grand "
        "potential, jitter, read. One simulated thread runs at a time; switches happen at seeded statement boundaries of the entry "
        "code. A failure (out of memory, interrupt) is raised at a seeded statement of one thread in half of the cases. Each result "
        "must be the one computed alone on equal entries, reads must always see the true data, and afterwards the entries must be "
        "exactly as before. Non-trivial: a preemption inside an operation or a failure part way.")
REAL = ["GibbsComputedEntry, NISTReferenceEntry, FREEDReferenceEntry, InterpolatedEntry, GibbsEntrySet, corrections", "pymatgen entries"]
STUB = ["thread scheduling (one runs at a time, switches at line events), failures raised at line events"]
ASSUME = ["switching at line boundaries is fine enough to expose shared state (bytecode-level switches inside one line are not explored)"]
FILES = ("rxn_network/entries", "pymatgen/core/entries.py")
OPS = ["dict", "dict", "json", "temp", "temp", "adj", "adj", "grand", "gadj", "stab", "copy", "read", "read", "read", "hash", "setT", "jit", "pickle", "restore"]


def make(rng, tier):
    es = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        k = rng.choice(["g"] * 6 + ["n", "n", "f", "i"])
        e = {"k": k, "id": f"mp-{rng.randint(1, 9999)}" if rng.random() < 0.8 else None, "T": rng.choice([300, 500, 650, 900, 1200])}
        if k == "g":
            e["c"] = rng.choice([{"Li": 2, "O": 1}, {"Ca": 1, "C": 1, "O": 3}, {"C": 1, "O": 2}, {"Fe": 4, "O": 6}, {"O": 2}, {"Y": 2, "Mn": 2, "O": 7}])
            e["e"], e["v"] = gen.energy(rng), round(rng.uniform(8, 25), 3)
        elif k == "i":
            e["c"], e["e"] = {"Li": 3, "O": 7}, round(rng.uniform(-9, -1), 5)
        else:
            e["c"] = rng.choice(["CO2", "CO2", "Al2O3", "MgO"]) if k == "n" else rng.choice(["Al2O3", "MgO", "CaO"])
        e["adj"] = [rng.choice(["const", "const", "co2", "carb"]) for _ in range(rng.choice([0, 0, 1, 1, 2]))]
        d = {}
        if rng.random() < 0.8:
            if rng.random() < 0.8:
                d["oxidation_states"] = rng.choice([{"Li": 1, "O": -2}, {"Fe": 3, "O": -2.0}, {"O": -2}])
            if rng.random() < 0.6:
                d["theoretical"] = rng.random() < 0.5
            if rng.random() < 0.6:
                d["icsd_ids"] = [rng.randint(1, 99)] * rng.randint(0, 2)
            if rng.random() < 0.5:
                d["note"] = {"tags": [1, {"a": [2]}], "w": 0.5}
            if rng.random() < 0.5:
                d["e_above_hull"] = rng.choice([0.0, 0.012, 0.25])
            if rng.random() < 0.12:
                d["poison"] = rng.choice(["value", "key"])
        e["data"] = d
        if k in "gi" and rng.random() < 0.5:
            e["params"] = {"run_type": rng.choice(["GGA", "GGA+U"]), "hubbards": {"Fe": 5.3}}
        es.append(e)
    nt = rng.choice([1, 1, 2, 2, 3, 4])
    th = [[{"o": rng.choice(OPS), "e": rng.randrange(len(es)), "T": rng.choice([300, 500, 777, 900, 1400, 2000, 2500])}
           for _ in range(rng.randint(1, 5))] for _ in range(nt)]
    c = {"es": es, "th": th, "tseed": rng.randrange(10**6), "preempt": rng.choice([0.02, 0.1, 0.3, 0.6])}
    if rng.random() < 0.5:
        c["boom"] = {"t": rng.randrange(nt), "at": rng.choice([rng.randint(1, 30), rng.randint(1, 120), rng.randint(1, 400)]),
                     "exc": rng.choice(["MemoryError", "KeyboardInterrupt", "RecursionError"])}
    return c


class Unsaveable:
    """A value of which no saved form exists."""

    def as_dict(self):
        raise TypeError("simulated: not serialisable")

    def __deepcopy__(self, memo):
        return self

    def __eq__(self, o):
        return isinstance(o, Unsaveable)

    __hash__ = None


def adjustments(e, T):
    from pymatgen.entries.computed_entries import ConstantEnergyAdjustment
    from rxn_network.entries.corrections import CarbonateCorrection, CarbonDioxideAtmosphericCorrection

    out = []
    for i, a in enumerate(e["adj"]):
        if a == "const":
            out.append(ConstantEnergyAdjustment(value=-0.1 * (i + 1), uncertainty=0.01, name=f"shift {i}", description="test"))
        elif a == "co2":
            out.append(CarbonDioxideAtmosphericCorrection(3, T))
        else:
            out.append(CarbonateCorrection(1))
    return out


def entry(e, T=None):
    from pymatgen.core.composition import Element
    from rxn_network.core import Composition
    from rxn_network.entries.freed import FREEDReferenceEntry
    from rxn_network.entries.gibbs import GibbsComputedEntry
    from rxn_network.entries.interpolated import InterpolatedEntry
    from rxn_network.entries.nist import NISTReferenceEntry

    T = T or e["T"]
    d = copy.deepcopy(e["data"])
    if "oxidation_states" in d and e["k"] == "g":  # as the Materials Project returns it
        d["oxidation_states"] = {Element(k): v for k, v in d["oxidation_states"].items()}
    p = d.pop("poison", None)
    if p == "value":
        d["handle"] = Unsaveable()
    elif p == "key":
        d["deep"] = {"x": {Element("O"): 1}}
    comp = Composition(e["c"])
    adj = adjustments(e, T)
    if e["k"] == "g":
        return GibbsComputedEntry(composition=comp, formation_energy_per_atom=e["e"], volume_per_atom=e["v"], temperature=T,
                                  energy_adjustments=adj, parameters=copy.deepcopy(e.get("params")), data=d, entry_id=e["id"])
    if e["k"] == "i":
        return InterpolatedEntry(comp, e["e"], energy_adjustments=adj, parameters=copy.deepcopy(e.get("params")), data=d, entry_id=e["id"])
    return (NISTReferenceEntry if e["k"] == "n" else FREEDReferenceEntry)(composition=comp, temperature=T, energy_adjustments=adj, data=d)


def plain(x):
    """Data as it looks after having been saved."""
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items() if k != "e_above_hull"}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    return x


def value(e):
    """What an entry is, independent of how its data is keyed."""
    adj = sorted((type(a).__name__, a.name, canon.q(a.value, 8)) for a in e.energy_adjustments)
    return (type(e).__name__, canon.comp_key(e.composition), canon.q(e.energy, 7), canon.q(e.correction, 7), str(e.entry_id),
            getattr(e, "temperature", None), tuple(adj), canon.fp(plain(e.data)), canon.fp(plain(e.parameters)), e.is_experimental)


def perform(o, ents, case):
    """Value of one operation."""
    import numpy as np
    from monty.json import MontyDecoder, MontyEncoder
    from pymatgen.core.composition import Element
    from pymatgen.entries.computed_entries import ConstantEnergyAdjustment
    from rxn_network.entries.entry_set import GibbsEntrySet

    e, k = ents[o["e"]], o["o"]
    if k == "dict":
        return json.loads(json.dumps(e.as_dict(), cls=MontyEncoder, sort_keys=True))
    if k == "json":
        return json.loads(json.dumps(e, cls=MontyEncoder, sort_keys=True))
    if k == "restore":
        r = MontyDecoder().process_decoded(json.loads(json.dumps(e, cls=MontyEncoder)))
        return (value(r), r == e and r.data.get("e_above_hull") == e.data.get("e_above_hull"))
    if k == "temp":
        return value(e.get_new_temperature(o["T"]))
    if k == "adj":
        return value(GibbsEntrySet.get_adjusted_entry(e, ConstantEnergyAdjustment(-0.25, uncertainty=0.0, name="extra", description="x")))
    if k == "grand":
        g = e.to_grand_entry({Element("O"): -1.5})
        return (canon.q(g.energy, 7), value(g.original_entry))
    if k == "gadj":
        g = e.to_grand_entry({Element("O"): -1.5})
        n = GibbsEntrySet.get_adjusted_entry(g, ConstantEnergyAdjustment(-0.25, uncertainty=0.0, name="extra", description="x"))
        return (type(n).__name__, canon.q(n.energy, 7), value(n.original_entry), value(g.original_entry))
    if k == "stab":
        return value(GibbsEntrySet(ents).get_stabilized_entry(e, force=o["T"] < 1000)) if e.data.get("e_above_hull") is not None else None
    if k == "copy":
        return value(copy.deepcopy(e))
    if k == "pickle":
        return value(pickle.loads(pickle.dumps(e)))
    if k == "hash":
        return (hash(e), e == ents[0], e.unique_id)
    if k == "setT":
        s = GibbsEntrySet(ents)
        new = s.get_entries_with_new_temperature(o["T"])
        return sorted(repr(value(x)) + ("" if x.data.get("e_above_hull") is None else " with the old energy above hull") for x in new)
    if k == "jit":
        np.random.seed(1)
        return len(GibbsEntrySet(ents).get_entries_with_jitter())
    out = []
    for _ in range(6):
        out.append((canon.fp(e.data), e.is_experimental, canon.q(e.energy, 7), canon.fp(e.parameters)))
    if len(set(map(repr, out))) > 1:
        return ("changing", [x for x in out if x != out[0]][:1])
    return out[0]


def direct(o, case):
    """What deriving must give: the entry made directly at that temperature or with that adjustment."""
    from pymatgen.entries.computed_entries import ConstantEnergyAdjustment

    e, k = case["es"][o["e"]], o.get("o", "temp")
    if k == "temp":
        return value(entry(e, o["T"] if e["k"] != "i" else None))
    n = entry(e)
    shift, name = -0.25, "extra"
    if k == "stab":
        h = e["data"].get("e_above_hull")
        if h is None:
            return None
        if h == 0 and o["T"] >= 1000:
            return value(n)
        shift, name = -h * n.composition.num_atoms - 1e-3, "Stabilization Adjustment"
    n.energy_adjustments = [*n.energy_adjustments, ConstantEnergyAdjustment(shift, uncertainty=0.0, name=name, description="x")]
    if k == "gadj":
        from pymatgen.core.composition import Element

        g = n.to_grand_entry({Element("O"): -1.5})
        return (type(g).__name__, canon.q(g.energy, 7), value(n), value(entry(e)))
    return value(n)


def saveable(case, o):
    return all("poison" not in e["data"] for e in (case["es"] if o["o"] in ("setT", "jit") else [case["es"][o["e"]]]))


class Threads(kernel.Threads):
    """With a failure raised at the n-th statement of one thread."""

    boom = None
    seen = 0
    fired = None

    def _line(self, frame, event, arg):
        r = super()._line(frame, event, arg)
        if self.boom and event == "line" and self.cur.i == self.boom["t"] and self.fired is None:
            self.seen += 1
            if self.seen >= self.boom["at"]:
                self.fired = f"{frame.f_code.co_filename.split('/')[-1]}:{frame.f_code.co_name}"
                raise {"MemoryError": MemoryError, "KeyboardInterrupt": KeyboardInterrupt, "RecursionError": RecursionError}[self.boom["exc"]]("simulated")
        return self._line


def run(case):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return _run(case)


def _run(case):
    res = base.Res()
    ents = [entry(e) for e in case["es"]]
    before = [canon.fp_entry(e) for e in ents]
    # alone, on equal entries
    want = []
    for ops in case["th"]:
        w = []
        for o in ops:
            own = [entry(e) for e in case["es"]]
            try:
                w.append((perform(o, own, case), None))
            except Exception as e:
                w.append((None, e))
        want.append(w)
    cl = kernel.use({"seed": 1, "cpus": 1, "mode": "fifo"})
    th = Threads(cl, case["tseed"], case["preempt"], FILES)
    th.boom = case.get("boom")
    got = [[] for _ in case["th"]]

    def body(t):
        def f():
            for o in case["th"][t]:
                sys.settrace(th._trace)  # a failure raised by tracing ends it
                n = th.preemptions
                try:
                    r, err = perform(o, ents, case), None
                except (Exception, KeyboardInterrupt) as e:
                    r, err = None, e
                got[t].append((r, err, n))
        return f

    slots = th.run([body(t) for t in range(len(case["th"]))])
    for s in slots:
        if s.error is not None:
            raise s.error
    res.fire("preemption", th.preemptions)
    if th.fired:
        res.fire("failure_" + case["boom"]["exc"])
    res.nontrivial = th.preemptions > 0 or th.fired is not None
    res.steps += th.points
    res.execs += 1
    res.sigs.append(repr((th.order, th.points, th.fired)))
    name = lambda t, i: f"thread {t} of {len(got)}, operation {i} ({case['th'][t][i]['o']} on a {type(ents[case['th'][t][i]['e']]).__name__})"
    boom = f"; a {case['boom']['exc']} was raised in {th.fired}" if th.fired else ""
    after = [canon.fp_entry(e) for e in ents]
    for i, (a, b) in enumerate(zip(before, after)):
        if a != b:
            res.bad("altered", f"entry {i} ({type(ents[i]).__name__}) was altered by {[[o['o'] for o in t] for t in case['th']]}{boom}: {canon.first_diff(a, b)}")
            return res
    for t, rs in enumerate(got):
        for i, ((r, err, _), (w, werr)) in enumerate(zip(rs, want[t])):
            o = case["th"][t][i]
            if err is not None:
                if "simulated" in str(err) and isinstance(err, (MemoryError, KeyboardInterrupt, RecursionError)):
                    continue
                if werr is None:
                    res.bad("failed", f"{name(t, i)}: {type(err).__name__}: {str(err)[:300]} @ {base.where(err)}; alone it gives a result{boom}")
                    return res
            elif werr is not None:
                if th.fired:
                    continue
                res.bad("error-lost", f"{name(t, i)}: a result, alone {type(werr).__name__}: {werr}")
                return res
            elif r != w:
                if th.fired and case["boom"]["t"] == t:
                    continue  # the failure may have been absorbed as documented (entry left out with a warning)
                res.bad("differs", f"{name(t, i)}: {str(r)[:500]}; alone {str(w)[:500]}{boom}")
                return res
    # what it gives alone must itself be right
    for t, ops in enumerate(case["th"]):
        for i, o in enumerate(ops):
            w, werr = want[t][i]
            k = o["o"]
            if not saveable(case, o):
                continue
            if k in ("temp", "adj", "gadj", "stab"):
                try:
                    d, derr = direct(o, case), None
                except ValueError as e:
                    d, derr = None, e
                if (derr is None) != (werr is None) or d != w:
                    res.bad("derived", f"{name(t, i)} to {o['T']} K: {str(w or repr(werr))[:500]}; made directly {str(d or repr(derr))[:500]}")
                    return res
            elif k == "setT":
                d = []
                for n in range(len(case["es"])):
                    try:
                        d.append(direct({"e": n, "T": o["T"]}, case))
                    except ValueError:
                        pass
                if werr is not None or len(set(w)) != len(set(map(repr, d))) or set(w) != set(map(repr, d)):
                    if w is not None and dups(case, o["T"]) and set(w) <= set(map(repr, d)):
                        continue
                    res.bad("derived", f"{name(t, i)} to {o['T']} K: {str(w or repr(werr))[:500]}; made there directly {str(d)[:500]}")
                    return res
            elif k == "restore":
                src = value(entry(case["es"][o["e"]]))
                if werr is not None or w[0] != src or not w[1]:
                    res.bad("restored", f"{name(t, i)}: {str(w or repr(werr))[:600]}; saved {str(src)[:500]}")
                    return res
            elif werr is not None:
                res.bad("failed", f"{name(t, i)} alone: {type(werr).__name__}: {str(werr)[:300]} @ {base.where(werr)}")
                return res
            elif k == "read" and w[0] == "changing":
                res.bad("differs", f"{name(t, i)}: reads differ: {str(w)[:400]}")
                return res
    return res


def dups(case, T):
    """Whether the set may hold fewer entries than were given."""
    for t in (None, T):
        es = []
        for e in case["es"]:
            try:
                es.append(entry(e, t if e["k"] != "i" else None))
            except ValueError:
                pass
        if any(a == b or str(a.entry_id) == str(b.entry_id) for i, a in enumerate(es) for b in es[:i]):
            return True
    return False


def shrink(case):
    if "boom" in case:
        d = copy.deepcopy(case)
        del d["boom"]
        yield d
    for t in range(len(case["th"])):
        if len(case["th"]) > 1:
            d = copy.deepcopy(case)
            del d["th"][t]
            if "boom" in d:
                if d["boom"]["t"] == t:
                    del d["boom"]
                elif d["boom"]["t"] > t:
                    d["boom"]["t"] -= 1
            yield d
        for i in range(len(case["th"][t])):
            if len(case["th"][t]) > 1:
                d = copy.deepcopy(case)
                del d["th"][t][i]
                yield d
    for i, e in enumerate(case["es"]):
        for k in list(e["data"]):
            d = copy.deepcopy(case)
            del d["es"][i]["data"][k]
            yield d
        for j in range(len(e["adj"])):
            d = copy.deepcopy(case)
            del d["es"][i]["adj"][j]
            yield d
