"""Seeded generators: chemistry (entry sets as JSON), cluster schedules, fault plans."""
from __future__ import annotations

import random

ELEMS = ["Li", "Na", "K", "Mg", "Ca", "Ba", "Y", "Mn", "Fe", "Al", "Si", "Ti", "Zn", "C", "N", "O", "S", "Cl", "F", "P"]
CATIONS = ["Li", "Na", "K", "Mg", "Ca", "Ba", "Y", "Mn", "Fe", "Al", "Si", "Ti", "Zn"]
ANIONS = ["O", "S", "Cl", "F", "N", "C", "P"]
# compounds with experimental reference data over 300..2000 K (checked by tools/selftest)
NIST = ["Al2O3", "CaO", "MgO", "CO2", "H2O", "Fe2O3", "NaCl", "KCl", "CaCl2", "MgCl2", "TiO2", "SiO2"]


def rng_of(*key):
    return random.Random(repr(key))


def _reduce(amts):
    from math import gcd

    g = 0
    for a in amts:
        g = gcd(g, a)
    return tuple(a // g for a in amts)


def formula(d):
    if isinstance(d, str):
        return d
    return "".join(f"{el}{n if n != 1 else ''}" for el, n in d.items())


def energy(rng):
    # generic values: no accidental ties or exactly degenerate facets
    return -round(rng.uniform(0.25, 3.0), 4) - round(rng.uniform(0, 1e-4), 9)


def _exchange(rng):
    """Two salts and the two that come of exchanging their ions: AX, BY, AY, BX."""
    a, b = rng.sample(CATIONS, 2)
    x, y = rng.sample(ANIONS, 2)
    ions = [{x: 1}, {y: 1}]
    if rng.random() < 0.6:  # an anion of two elements
        z = rng.choice([e for e in ("C", "S", "P", "N") if e not in (x, y)])
        o = "O" if "O" in (x, y) or rng.random() < 0.8 else None
        if o and "O" not in (x, y):
            ions[0] = {z: 1, "O": rng.choice([2, 3, 4])}
        elif o:
            ions[0 if x == "O" else 1] = {z: 1, "O": rng.choice([2, 3, 4])}
    out = []
    for m, q in ((a, rng.choice([1, 2, 3])), (b, rng.choice([1, 2, 3]))):
        for ion in ions:
            p = rng.choice([1, 1, 2])
            k = {m: p}
            for el, n in ion.items():
                k[el] = k.get(el, 0) + n * q
            els = sorted(k)
            key = tuple(zip(els, _reduce([k[e] for e in els])))
            if key not in out:
                out.append(key)
    els = sorted({e for k in out for e, _ in k})
    rng.shuffle(out)
    return els, out


def chemistry(rng, n_elems=(2, 4), n_comp=(3, 9), polymorphs=0.3, units=0.25, exp=0.15, interp=0.05, missing_ref=0.0,
              data=0.5, oxygen=0.75, temperature=None, exchange=0.12):
    """A JSON description of an entry set."""
    ne = rng.randint(*n_elems)
    els = []
    given = []
    if n_elems[1] >= 4 and rng.random() < exchange:
        els, given = _exchange(rng)
        ne = len(els)
        n_comp = (len(given), max(len(given), n_comp[1] - 2))
    if not els and rng.random() < oxygen:
        els.append("O")
    while len(els) < ne:
        pool = CATIONS if len(els) < ne - 1 or "O" in els else ANIONS
        if rng.random() < 0.15:
            pool = ANIONS
        e = rng.choice(pool)
        if e not in els:
            els.append(e)
    rng.shuffle(els)
    T = temperature or rng.choice([300, 500, 650, 900, 1200, 1500])
    ents = []
    ids = iter(rng.sample(range(10, 9999), 400))
    for el in els:
        if rng.random() < missing_ref:
            continue
        n = rng.choice([1, 2, 4])
        ents.append({"k": "g", "c": {el: n}, "e": 0.0, "v": round(rng.uniform(8, 30), 3), "id": f"mp-{next(ids)}"})
    seen = set()
    nc = rng.randint(*n_comp)
    tries = 0
    while len(seen) < nc and tries < 200:
        tries += 1
        if given:
            key = given.pop(0)
        else:
            k = min(len(els), rng.choice([2, 2, 2, 3, 3, 4]))
            sub = sorted(rng.sample(els, k))
            amts = _reduce([rng.choice([1, 1, 1, 2, 2, 3, 4, 6]) for _ in sub])
            key = tuple(zip(sub, amts))
        if key in seen:
            continue
        seen.add(key)
        u = rng.choice([2, 3, 4]) if rng.random() < units else 1
        base = energy(rng)
        ents.append({"k": "g", "c": {el: a * u for el, a in key}, "e": base, "v": round(rng.uniform(8, 25), 3),
                     "id": f"mp-{next(ids)}"})
        if rng.random() < polymorphs:
            for _ in range(rng.choice([1, 1, 2])):
                u2 = rng.choice([1, 1, 2, 3])
                ents.append({"k": "g", "c": {el: a * u2 for el, a in key},
                             "e": base + (round(rng.uniform(0.002, 0.15), 5) if rng.random() < 0.85 else 2e-6) + round(rng.uniform(0, 1e-4), 9),
                             "v": round(rng.uniform(8, 25), 3), "id": f"mp-{next(ids)}"})
    for f in NIST:
        if rng.random() < exp and all(x in els for x in _els(f)):
            ents.append({"k": "n", "c": f})
    if rng.random() < interp and len(els) >= 2:
        sub = sorted(rng.sample(els, 2))
        c = {sub[0]: rng.choice([1, 3, 5]), sub[1]: rng.choice([2, 7])}
        if tuple(zip(sub, _reduce(list(c.values())))) not in seen:
            ents.append({"k": "i", "c": c, "e": round(rng.uniform(-9, -1), 5)})
    if rng.random() < data:
        for e in ents:
            if e["k"] == "g" and rng.random() < 0.6:
                d = {}
                if rng.random() < 0.6:
                    d["theoretical"] = rng.random() < 0.5
                if rng.random() < 0.6:
                    d["icsd_ids"] = [rng.randint(1, 99)] * rng.randint(0, 2)
                if rng.random() < 0.5:
                    d["oxidation_states"] = {el: rng.choice([-2, 1, 2, 3]) for el in e["c"]}
                if rng.random() < 0.3:
                    d["note"] = {"tags": [rng.randint(0, 9)], "w": rng.random()}
                e["data"] = d
                if rng.random() < 0.3:
                    e["params"] = {"run_type": rng.choice(["GGA", "GGA+U"]), "hubbards": {}}
    rng.shuffle(ents)
    for i, e in enumerate(ents):
        e["u"] = i
    return {"T": T, "ents": ents}


def twin(rng, chem):
    """Add a second polymorph of nearly the same energy; returns the numbers of both."""
    g = [e for e in chem["ents"] if e["k"] == "g" and len(e["c"]) > 1]
    if not g:
        return None
    e = rng.choice(g)
    t = {**e, "u": len(chem["ents"]), "id": e["id"] + "9", "e": e["e"] + rng.choice([1e-7, -1e-7, 1e-6])}
    chem["ents"].append(t)
    return e["u"], t["u"]


def _els(f):
    import re

    return re.findall("[A-Z][a-z]?", f)


def build_entries(spec, T=None):
    """Entry objects (list, in the order of the description)."""
    from pymatgen.core.composition import Element
    from rxn_network.core import Composition
    from rxn_network.entries.freed import FREEDReferenceEntry
    from rxn_network.entries.gibbs import GibbsComputedEntry
    from rxn_network.entries.interpolated import InterpolatedEntry
    from rxn_network.entries.nist import NISTReferenceEntry

    T = T or spec["T"]
    out = []
    for e in spec["ents"]:
        comp = Composition(e["c"])
        data = None
        if "data" in e:
            import copy

            data = copy.deepcopy(e["data"])
            if "oxidation_states" in data:
                data["oxidation_states"] = {Element(k): v for k, v in data["oxidation_states"].items()}
        if e["k"] == "g":
            out.append(GibbsComputedEntry(composition=comp, formation_energy_per_atom=e["e"], volume_per_atom=e["v"],
                                          temperature=T, data=data, entry_id=e["id"],
                                          parameters=dict(e["params"]) if "params" in e else None))
        elif e["k"] == "n":
            out.append(NISTReferenceEntry(composition=comp, temperature=T))
        elif e["k"] == "f":
            out.append(FREEDReferenceEntry(composition=comp, temperature=T))
        elif e["k"] == "i":
            out.append(InterpolatedEntry(comp, e["e"], data=data, entry_id=e.get("id")))
        else:
            raise ValueError(e["k"])
    return out


def parse(c):
    if isinstance(c, dict):
        return dict(c)
    import re

    return {el: int(n or 1) for el, n in re.findall(r"([A-Z][a-z]?)(\d*)", c)}


def rkey_d(c):
    return dict(rkey(c))


def rkey(c):
    d = parse(c)
    ks = sorted(d)
    return tuple(zip(ks, _reduce([d[k] for k in ks])))


def comps(spec, elements=True):
    """Distinct reduced compositions present (as formula strings), in order of first appearance."""
    out, seen = [], set()
    for e in spec["ents"]:
        k = rkey(e["c"])
        if (len(k) == 1 and not elements) or k in seen:
            continue
        seen.add(k)
        out.append("".join(f"{el}{n if n != 1 else ''}" for el, n in k))
    return out


def elems(spec):
    return sorted({el for e in spec["ents"] for el in parse(e["c"])})


def gas(el):
    """Formula used by pymatgen for the elemental phase."""
    return el + "2" if el in ("O", "N", "F", "Cl", "H") else el


# ------------------------------------------------------------------ schedules
def schedule(rng, small=True, preinit=None):
    cpus = rng.choice([1, 2, 2, 3, 4, 4, 6, 8, 16] if small else [2, 3, 4, 8])
    s = {"seed": rng.randrange(10**6), "cpus": cpus, "mode": rng.choice(["random"] * 6 + ["fifo", "lifo", "lifo"]),
         "think": rng.choice([0.0, 0.1, 0.3, 0.6]), "nodes": rng.choice([1, 1, 2, 3]),
         "stragglers": rng.choice([0.0, 0.05, 0.2]), "memory": 2 ** rng.choice([31, 32, 33, 34])}
    if preinit is None:
        preinit = rng.random() < 0.8
    s["preinit"] = preinit
    return s


TRANSPARENT = ["crash_after", "crash_before", "lose_return", "oom", "slow", "node_down"]
FATAL = ["raise", "crash_all", "oom_all", "lose_put", "put_fail", "body", "body"]
BODY_EXCS = ["MemoryError", "MemoryError", "OSError", "RuntimeError", "LinAlgError", "QhullError", "TimeoutError"]
EXCS = ["MemoryError", "OSError", "RuntimeError", "ValueError", "KeyError", "TimeoutError", "AttributeError",
        "IndexError", "StopIteration", "ZeroDivisionError"]


def faults(rng, kinds, n=(1, 3)):
    """Fault plan with positions as fractions of the (later measured) number of tasks/puts."""
    out = []
    for _ in range(rng.randint(*n)):
        k = rng.choice(kinds)
        f = {"f": k, "at": rng.randrange(10000) / 10000}
        if k == "raise":
            f["exc"] = rng.choice(EXCS)
        if k == "body":
            f["exc"] = rng.choice(BODY_EXCS)
            f["in"] = rng.randrange(10000) / 10000
        if k in ("crash_after", "crash_before"):
            f["times"] = rng.choice([1, 1, 2, 3])
        out.append(f)
    return out


def resolve(faults_, n_tasks, n_puts):
    """Fault plan -> kernel faults, given the work of the fault-free execution."""
    out = []
    for f in faults_:
        k = f["f"]
        i = min(int(f["at"] * n_tasks), max(n_tasks - 1, 0))
        j = min(int(f["at"] * n_puts), max(n_puts - 1, 0))
        if k in ("crash_after", "crash_before"):
            out.append({"kind": "crash", "i": i, "attempt": list(range(f.get("times", 1))), "when": k[6:]})
        elif k == "crash_all":
            out.append({"kind": "crash", "i": i, "attempt": "all"})
        elif k == "oom":
            out.append({"kind": "oom", "i": i, "attempt": [0]})
        elif k == "oom_all":
            out.append({"kind": "oom", "i": i, "attempt": "all"})
        elif k == "raise":
            out.append({"kind": "raise", "i": i, "attempt": "all", "exc": f.get("exc", "MemoryError")})
        elif k == "body":
            out.append({"kind": "body", "i": i, "attempt": "all", "at": f["in"], "exc": f["exc"]})
        elif k == "lose_return":
            out.append({"kind": "lose_return", "i": i})
        elif k == "slow":
            out.append({"kind": "slow", "i": i, "factor": 50})
        elif k == "node_down":
            out.append({"kind": "node_down", "i": max(1, i)})
        elif k in ("lose_put", "put_fail"):
            out.append({"kind": k, "i": j})
        else:
            raise ValueError(k)
    return out
