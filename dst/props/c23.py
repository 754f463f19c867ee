"""C23: a reaction derived from another is the one made directly, and the other stays as it was."""
from __future__ import annotations

import copy
import json
import pickle
import sys
import warnings

import numpy as np

from dst import base, canon, gen, kernel, rx

QUICK = 4000
THOROUGH = 80000
RULE = ("A case is 1-3 reactions (closed, or open to an element) made by the caller from data and potentials the caller keeps and may "
        "edit later, shared by 1-4 threads, each with a list of chained derivations: copy, reverse, normalise to a phase or an element, "
        "balance anew, change the temperature (alone or with prepared entries), move to a potential, decorate with a calculator, save and "
        "restore, copy deeply, pickle, read; some derived reactions are edited afterwards. One simulated thread runs at a time, switches "
        "happen at seeded statement boundaries of the reaction code, and a failure (out of memory, interrupt) is raised at a seeded "
        "statement of one thread in some cases; some calculators and prepared entries fail by themselves. Every derived reaction and "
        "every read is compared with a model that computes entries, amounts, data, energies and fractions from the description alone; "
        "afterwards the reactions, entries, data and potentials must be exactly as before. Non-trivial: a preemption inside an "
        "operation, a failure part way, an edit, or a chain of derivations.")
REAL = ["ComputedReaction, OpenComputedReaction, BasicReaction, Calculator.decorate", "GibbsComputedEntry, GrandPotPDEntry"]
STUB = ["thread scheduling (one runs at a time, switches at line events), failures raised at line events"]
ASSUME = ["entries made directly have the right energies (C15, C31)",
          "switching at line boundaries is fine enough to expose shared state (bytecode-level switches inside one line are not explored)"]
FILES = ("rxn_network/reactions", "rxn_network/costs/base.py")
STEPS = ["copy", "copy", "reverse", "reverse", "norm", "norm", "norme", "norme", "temp", "temp", "tempmap", "open", "open", "deco", "decos",
         "json", "deep", "pickle", "balance", "balance"]
DEEP = ("deco", "decos", "json", "deep", "pickle")  # nothing at all is shared
PLAIN = ["copy", "reverse", "reverse", "norm", "norm", "norme", "norme", "json", "deep", "pickle", "balance", "balance"]


# ------------------------------------------------------------------ cases
def make(rng, tier):
    for _ in range(50):
        chem = gen.chemistry(rng, n_elems=rng.choice([(2, 3), (2, 3), (4, 4)]), n_comp=(3, 7), interp=0.0, exp=0.0, polymorphs=0.2, exchange=0.0, data=0.3)
        rs = rx.basic(rng, chem, rng.choice([1, 1, 2, 3]), max_size=rng.choice([4, 4, 5]))
        if rs:
            break
    els = gen.elems(chem)
    for r in rs:
        m = rng.choice([1.0, 1.0, 0.5, 3.0, 0.1, 1 / 3])
        r["c"] = [m * c for c in r["c"]]
        if rng.random() < 0.3:
            r["c"] = [-c for c in r["c"]]
        r["ints"] = rng.random() < 0.3
        r["d"] = rng.choice([None, {}, {"tag": 1}, {"tag": 2, "primary_competition": 0.25}, {"deep": {"a": [1, 2]}}, {"deep": {"b": [3]}}, "shared", "shared"])
        r["plain"] = [rng.choice([1, 1, 1, 2, 3]) for _ in r["e"]] if rng.random() < 0.2 else None
        r["mu"] = {"O" if "O" in els and rng.random() < 0.7 else rng.choice(els): round(rng.uniform(-3, 0.5), 3)} if rng.random() < 0.45 and not r["plain"] else None
        if r["mu"] and rng.random() < 0.15:
            r["mu"][rng.choice(els)] = -0.5
        r["shared_mu"] = rng.random() < 0.3
        r["late"] = rng.random() < 0.4
        r["err"] = rng.choice([0, 0, 0, 2])
        own = {x for e in chem["ents"] if e["u"] in r["e"] for x in e["c"]}
        if r["mu"] is not None and own <= set(r["mu"]):
            r["mu"] = None

    def step(r):
        k = rng.choice(PLAIN if r["plain"] else STEPS)
        s = {"k": k}
        if k in ("norm", "norme"):
            s.update(i=rng.randrange(6), f=rng.choice([1, 1, 2, 0.5, 3.7]))
            if k == "norm" and rng.random() < 0.06:
                s["i"] = -1
        elif k in ("temp", "tempmap"):
            s["T"] = rng.choice([300, 500, 777, 900, 1400, 2000])
            if k == "tempmap":
                s["by"] = rng.choice(["entry", "entry", "comp"])
                s["miss"] = rng.random() < 0.12
        elif k == "open":
            s["mu"] = {rng.choice(els): round(rng.uniform(-3, 0.5), 3)} if not r["mu"] or rng.random() < 0.6 else dict(r["mu"])
            s["late"] = rng.random() < 0.5
        elif k in ("deco", "decos"):
            s["n"] = rng.choice(["score", "score", "tag", "energy"])
            s["bad"] = rng.random() < 0.12
        elif k == "balance":
            s["d"] = rng.choice([None, {"tag": 9}, {"num_constraints": 7}, "mine"])
            s["late"] = rng.random() < 0.3
        if rng.random() < 0.25:
            s["edit"] = rng.choice(["data", "data", "coeff", "mu", "nested", "nested"])
        return s

    nt = rng.choice([1, 1, 2, 2, 3, 4])
    th = [[{"r": n, "s": [step(rs[n]) for _ in range(rng.choice([0, 1, 1, 1, 2, 3]))]}
           for n in (rng.randrange(len(rs)) for _ in range(rng.randint(1, 4)))] for _ in range(nt)]
    c = {"chem": chem, "rs": rs, "th": th, "tseed": rng.randrange(10**6), "preempt": rng.choice([0.02, 0.1, 0.3])}
    if rng.random() < 0.4:
        c["boom"] = {"t": rng.randrange(nt), "at": rng.choice([rng.randint(1, 30), rng.randint(1, 120), rng.randint(1, 400)]),
                     "exc": rng.choice(["MemoryError", "KeyboardInterrupt"])}
    return c


# ------------------------------------------------------------------ model
class Fails(Exception):
    """The operation has no result."""


def n_atoms(amt, but=()):
    return sum(v for k, v in amt.items() if k not in but)


def amounts(e):
    return {str(k): float(v) for k, v in e.composition.items()}


def reduced(e):
    """The phase as reactions name it (pymatgen's reduced composition)."""
    return {str(k): float(v) for k, v in e.composition.reduced_composition.items()}


class Model:
    """A reaction as plain numbers: entry indices, amounts, temperature, data, potentials."""

    def __init__(self, es, c, T, data, mu, err, plain=None):
        self.es, self.c, self.T, self.data, self.mu, self.err, self.plain = list(es), [float(x) for x in c], T, data, mu, err, plain

    def but(self, **kw):
        d = {"es": self.es, "c": list(self.c), "T": self.T, "data": copy.deepcopy(self.data), "mu": copy.deepcopy(self.mu), "err": self.err,
             "plain": self.plain}
        d.update(kw)
        return Model(**d)

    def phases(self, world):
        red = [reduced(world.at(self.T)[u]) for u in self.es]
        return [{k: v * m for k, v in r.items()} for r, m in zip(red, self.plain or [1] * len(red))]

    def value(self, world):
        ents = [world.at(self.T)[u] for u in self.es]
        mu = self.mu or {}
        red = self.phases(world)
        tot, atoms = 0.0, 0.0
        for e, r, c in zip(ents, red, self.c):
            amt = amounts(e)
            en = e.energy
            if not (len(amt) == 1 and set(amt) <= set(mu)):
                en -= sum(mu[k] * v for k, v in amt.items() if k in mu)
            tot += c * en * n_atoms(r) / n_atoms(amt)
            if c > 0:
                atoms += c * n_atoms(r, mu)
        fr = sorted((key(r), round(abs(c) * n_atoms(r, mu) / atoms, 6) + 0.0) for r, c in zip(red, self.c) if c < 0)
        fp = sorted((key(r), round(abs(c) * n_atoms(r, mu) / atoms, 6) + 0.0) for r, c in zip(red, self.c) if c > 0)
        els = sorted({k for r in red for k in r} - set(mu))
        text = sorted((_prim(key(r)), c * n_atoms(r)) for r, c in zip(red, self.c))
        if self.plain:
            name = lambda r: _prim(key(r))
            fr, fp = ([(name(r), abs(c) * n_atoms(r) / atoms) for r, c in zip(red, self.c) if c * s > 0] for s in (-1, 1))
            molar = sorted((key(r), c / sum(x for x in self.c if x * c > 0)) for r, c in zip(red, self.c))
            return {"kind": "BasicReaction", "entries": [(0, key(r)) for r in red], "amounts": [canon.q(c, 7) for c in self.c],
                    "data": "?" if self.data is None else canon.fp(self.data), "errors": self.err, "reactant fractions": sorted(fr),
                    "product fractions": sorted(fp), "molar fractions": molar, "elements": els, "system": "-".join(els), "balanced": True,
                    "atoms": canon.q(atoms, 6), "per atom": 0, "text": text}
        return {"text": text, "kind": "OpenComputedReaction" if self.mu is not None else "ComputedReaction",
                "entries": [(str(e.entry_id), key(amounts(e)), e.temperature, canon.q(e.energy, 7)) for e in ents],
                "amounts": [canon.q(c, 7) for c in self.c], "data": canon.fp(self.data), "potentials": sorted(mu.items()),
                "errors": self.err, "energy": canon.q(tot, 6), "per atom": canon.q(tot / atoms, 6), "reactant fractions": fr,
                "product fractions": fp, "elements": els, "system": "-".join(els), "balanced": True, "atoms": canon.q(atoms, 6)}


def key(amt):
    return tuple(sorted(amt.items()))


def value(r):
    from rxn_network.reactions.basic import BasicReaction

    amt = lambda c: key({str(k): float(v) for k, v in c.items()})
    again = BasicReaction.from_string(str(r))
    text = sorted((_prim(amt(c)), float(x) * c.num_atoms) for c, x in zip(again.compositions, again.coefficients))
    if type(r) is BasicReaction:
        fr, fp = ([(_prim(amt(c)), float(f)) for c, f in x.items()] for x in (r.reactant_atomic_fractions, r.product_atomic_fractions))
        molar = sorted((amt(c), float(f)) for c, f in [*r.reactant_molar_fractions.items(), *r.product_molar_fractions.items()])
        return {"kind": "BasicReaction", "entries": [(0, amt(c)) for c in r.compositions],
                "amounts": [canon.q(float(c), 7) for c in r.coefficients], "data": canon.fp(r.data), "errors": r.lowest_num_errors,
                "reactant fractions": sorted(fr), "product fractions": sorted(fp), "molar fractions": molar,
                "elements": sorted(map(str, r.elements)), "system": r.chemical_system, "balanced": r.balanced,
                "atoms": canon.q(r.num_atoms, 6), "per atom": 0, "text": text}
    ents = r.entries
    return {"text": text, "kind": type(r).__name__,
            "entries": [(str(e.entry_id), key(amounts(e)), e.temperature, canon.q(e.energy, 7)) for e in ents],
            "amounts": [canon.q(float(c), 7) for c in r.coefficients], "data": canon.fp(r.data),
            "potentials": sorted((str(k), v) for k, v in getattr(r, "chempots", {}).items()), "errors": r.lowest_num_errors,
            "energy": canon.q(r.energy, 6), "per atom": canon.q(r.energy_per_atom, 6),
            "reactant fractions": sorted((amt(c), round(float(f), 6) + 0.0) for c, f in r.reactant_atomic_fractions.items()),
            "product fractions": sorted((amt(c), round(float(f), 6) + 0.0) for c, f in r.product_atomic_fractions.items()),
            "elements": sorted(map(str, r.elements)), "system": r.chemical_system, "balanced": r.balanced, "atoms": canon.q(r.num_atoms, 6)}


def equal(a, b, how):
    """Whether reactions of values `a` and `b` are equal, and one is found among the other: True, False, or "?" near the limit."""
    if how == "same":
        return {"equal": True, "found": True}
    side = lambda v, s: {e[1] for e, c in zip(v["entries"], v["amounts"]) if c * s > 0}
    ratio = lambda v, s: {_prim(k) for k in side(v, s)}
    if (a["system"] != b["system"] or any(len(side(a, s)) != len(side(b, s)) or ratio(a, s) != ratio(b, s) for s in (1, -1))
            or any(abs(x - y) > 1e-3 + 1e-3 * abs(y) for x, y in zip(sorted(a["amounts"]), sorted(b["amounts"])))
            or abs(a["per atom"] - b["per atom"]) > 1e-4 + 1e-3 * abs(b["per atom"])):
        return {"equal": False, "found": False}
    return {"equal": "?", "found": "?"}


def _prim(k):
    """A composition up to scale."""
    n = sum(v for _, v in k)
    return tuple((e, round(v / n, 9)) for e, v in k)


def seen(n, r):
    """The value of `n`, and how it compares with `r`."""
    return {**value(n), "equal": bool(n == r), "found": n in {r}}


def close(a, b):
    """Equal up to the last digits."""
    if isinstance(b, str) and b == "?":
        return True
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(_same(k, a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    if isinstance(a, (float, np.floating)) or isinstance(b, (float, np.floating)):
        try:
            return abs(float(a) - float(b)) <= 3e-6 * max(1.0, abs(float(a)))
        except (TypeError, ValueError):
            return False
    return a == b


def _same(k, a, b):
    if k == "data":
        return b == "?" or a == b
    if k == "text":  # four digits
        return len(a) == len(b) and all(x[0] == y[0] and abs(x[1] - y[1]) <= 2e-3 * abs(y[1]) for x, y in zip(a, b))
    return close(a, b)


def differ(a, b):
    return "; ".join(f"{k} {str(a[k])[:220]} instead of {str(b[k])[:220]}" for k in a if not close({k: a[k]}, {k: b[k]}))


class World:
    """Entries at every temperature, by the `u` of their description."""

    def __init__(self, chem):
        self.chem, self._at = chem, {}

    def at(self, T):
        if T not in self._at:
            self._at[T] = rx.by_u(self.chem, gen.build_entries(self.chem, T))
        return self._at[T]


def scaled(spec, ents):
    """Amounts of phases as pymatgen reduces them."""
    return [c * rx._least(e.composition) / e.composition.reduced_composition.num_atoms for e, c in zip(ents, spec["c"])]


def follow(m, s, world):
    """The model after one derivation."""
    k = s["k"]
    if k in ("copy", "json", "deep", "pickle"):
        return m.but()
    if k == "reverse":
        return m.but(c=[-x for x in m.c])
    if k == "norm":
        if s["i"] < 0:
            raise Fails
        return m.but(c=[x * s["f"] / abs(m.c[s["i"] % len(m.c)]) for x in m.c], **({"data": None, "err": "?"} if m.plain else {}))
    if k == "norme":
        red = m.phases(world)
        els = sorted({e for r in red for e in r})
        el = els[s["i"] % len(els)]
        n = sum(r.get(el, 0) * abs(c) for r, c in zip(red, m.c)) / 2
        return m.but(c=[x * s["f"] / n for x in m.c], **({"data": None, "err": "?"} if m.plain else {}))
    if k in ("temp", "tempmap"):
        if s.get("miss"):
            raise Fails
        return m.but(T=s["T"])
    if k == "open":
        return m.but(mu=dict(s["mu"]))
    if k in ("deco", "decos"):
        if s["bad"]:
            raise Fails
        return m.but(data={**(m.data or {}), s["n"]: len(m.c) * 10})
    d = {"hint": 1} if s["d"] == "mine" else copy.deepcopy(s["d"]) or {}
    order = [i for i, c in enumerate(m.c) if c < 0] + [i for i, c in enumerate(m.c) if c > 0]
    first = next(m.c[i] for i in order if m.c[i] > 0)
    return m.but(plain=m.plain and [m.plain[i] for i in order], es=[m.es[i] for i in order], c=[m.c[i] / first for i in order], data={**d, "num_constraints": 1}, err=0)


# ------------------------------------------------------------------ the operations
def perform(r, s, world, own):
    """One derivation; `own` collects caller-owned objects that must stay as they are, with what they hold."""
    from monty.json import MontyDecoder, MontyEncoder
    from pymatgen.core.composition import Element
    from rxn_network.core import Composition
    from rxn_network.costs.base import Calculator
    from rxn_network.reactions.basic import BasicReaction
    from rxn_network.reactions.computed import ComputedReaction
    from rxn_network.reactions.open import OpenComputedReaction

    class Probe(Calculator):
        name = s.get("n")

        def calculate(self, rxn):
            rxn.energy_per_atom  # noqa: B018
            if s["bad"]:
                raise ValueError("simulated: no score")
            return len(rxn.coefficients) * 10

    k = s["k"]
    if k == "copy":
        return r.copy()
    if k == "reverse":
        return r.reverse()
    if k == "norm":
        c = r.compositions[s["i"] % len(r.compositions)] if s["i"] >= 0 else Composition("Xe3")
        return r.normalize_to(c, s["f"])
    if k == "norme":
        els = sorted({str(e) for c in r.compositions for e in c.elements})
        return r.normalize_to_element(Element(els[s["i"] % len(els)]), s["f"])
    if k == "temp":
        return r.get_new_temperature(s["T"])
    if k == "tempmap":
        at = {(e if s["by"] == "entry" else e.composition): e.get_new_temperature(s["T"]) for e in r.entries}
        if s["miss"]:
            at.pop(next(iter(at)))
        had = dict(at)
        out = r.get_new_temperature(s["T"], at)
        if had != at:
            raise AssertionError("simulated caller: the prepared entries were changed")
        return out
    if k == "open":
        mu = {Element(x): v for x, v in s["mu"].items()}
        own.append((mu, dict(mu), "potentials"))
        out = OpenComputedReaction.from_computed_rxn(r, mu)
        if s["late"]:
            for x in mu:
                mu[x] = 99.0
            own.pop()
        return out
    if k == "deco":
        return Probe().decorate(r)
    if k == "decos":
        return Probe().decorate_many([r])[0]
    if k == "json":
        return MontyDecoder().process_decoded(json.loads(json.dumps(r, cls=MontyEncoder)))
    if k == "deep":
        return copy.deepcopy(r)
    if k == "pickle":
        return pickle.loads(pickle.dumps(r))
    d = {"hint": 1} if s["d"] == "mine" else copy.deepcopy(s["d"])
    own.append((d, copy.deepcopy(d), "data"))
    if type(r) is BasicReaction:
        side = lambda s: [c for c, x in zip(r.compositions, r.coefficients) if x * s > 0]
        out = BasicReaction.balance(side(-1), side(1), d)
    elif type(r) is OpenComputedReaction:
        out = OpenComputedReaction.balance(r.reactant_entries, r.product_entries, r.chempots, d)
    else:
        out = ComputedReaction.balance(r.reactant_entries, r.product_entries, d)
    if s["late"] and d is not None:
        d["later"] = True
        own.pop()
    return out


def edit(r, how):
    """What a caller does to a reaction that is the caller's own."""
    if how == "nested":
        for v in r.data.values():
            if isinstance(v, dict):
                for x in v.values():
                    x.append(9)
    elif how == "coeff":
        r.coefficients[0] = 12345
    elif how == "mu" and getattr(r, "chempots", None):
        for k in r.chempots:
            r.chempots[k] = 77.0
    else:
        r.data["edited"] = True
        r.data.pop("tag", None)


class Threads(kernel.Threads):
    """With a failure raised at the n-th statement of one thread."""

    boom = None
    seen = 0
    fired = None

    def _line(self, frame, event, arg):
        super()._line(frame, event, arg)
        if self.boom and event == "line" and self.cur.i == self.boom["t"] and self.fired is None:
            self.seen += 1
            if self.seen >= self.boom["at"]:
                self.fired = f"{frame.f_code.co_filename.split('/')[-1]}:{frame.f_code.co_name}"
                raise {"MemoryError": MemoryError, "KeyboardInterrupt": KeyboardInterrupt}[self.boom["exc"]]("simulated")
        return self._line


def run(case):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        res = base.Res()
        try:
            return _run(case, res)
        except Exception as e:
            if not base.where(e):
                raise
            res.bad("failed", f"making or reading a reaction: {type(e).__name__}: {str(e)[:300]} @ {base.where(e)}")
            return res


def _run(case, res):
    from pymatgen.core.composition import Element
    from rxn_network.reactions.computed import ComputedReaction
    from rxn_network.reactions.open import OpenComputedReaction

    chem = case["chem"]
    world = World(chem)
    for T in {s["T"] for ops in case["th"] for o in ops for s in o["s"] if "T" in s}:
        world.at(T)
    ents = rx.by_u(chem, gen.build_entries(chem))
    ref = world.at(chem["T"])
    shared, shared_mu = {"tag": 5}, {}
    models, rxns, kept, edited = [], [], [], 0
    for n, r in enumerate(case["rs"]):
        es = [ents[u] for u in r["e"]]
        c = scaled(r, es)
        if r["ints"] and all(abs(x - round(x)) < 1e-9 for x in c):
            c = [int(round(x)) for x in c]
        d = shared if r["d"] == "shared" else copy.deepcopy(r["d"])
        models.append(Model(r["e"], c, chem["T"], copy.deepcopy(d) or {}, r["mu"], r["err"]))
        own_es = list(es)
        if r["plain"]:
            from rxn_network.core import Composition
            from rxn_network.reactions.basic import BasicReaction

            c = [x / m for x, m in zip(c, r["plain"])]
            models[-1] = models[-1].but(c=c, plain=r["plain"])
            own_es = [Composition({k: v * m for k, v in reduced(e).items()}) for e, m in zip(es, r["plain"])]
            x = BasicReaction(own_es, c, None, d, r["err"])
        elif r["mu"] is not None:
            mu = shared_mu if r["shared_mu"] else {}
            mu.clear()
            mu.update({Element(k): v for k, v in r["mu"].items()})
            x = OpenComputedReaction(own_es, c, mu, d, r["err"])
            kept.append((mu, None, "potentials"))
        else:
            x = ComputedReaction(own_es, c, d, r["err"])
        rxns.append(x)
        if r["late"]:
            edited += 1
            own_es.reverse()
            if d is not None:
                d["later"] = n
            if r["mu"] is not None:
                mu[next(iter(mu))] = 55.0
            if isinstance(c, list):
                c[0] = 9.0
        elif r["d"] != "shared":
            kept.append((d, copy.deepcopy(r["d"]), "data"))
    kept = [k for k in kept if k[1] is not None]
    kept.append((shared, copy.deepcopy(shared), "data"))
    before = [canon.fp_entry(e) for e in ents.values()]
    # as made
    for n, (x, m) in enumerate(zip(rxns, models)):
        if case["rs"][n]["late"] or n == len(rxns) - 1:
            v = value(x)
            w = m.value(world)
            if not close(v, w):
                res.bad("made", f"reaction {n} after the caller went on using what it was made from: {differ(v, w)}")
                return res
    # what must come out
    want = []
    for ops in case["th"]:
        w = []
        for o in ops:
            m, steps = models[o["r"]], []
            try:
                first, how = m.value(world), "same"
                steps.append(first)
                for s in o["s"]:
                    m = follow(m, s, world)
                    if s["k"] not in ("copy", "json", "deep", "pickle", "deco", "decos"):
                        how = ""
                    v = m.value(world)
                    steps.append({**v, **equal(v, first, how)})
                w.append(steps)
            except Fails:
                w.append([*steps, None])
        want.append(w)
    cl = kernel.use({"seed": 1, "cpus": 1, "mode": "fifo"})
    th = Threads(cl, case["tseed"], case["preempt"], FILES)
    th.boom = case.get("boom")
    got = [[] for _ in case["th"]]
    own = [[] for _ in case["th"]]

    def body(t):
        def f():
            for o in case["th"][t]:
                sys.settrace(th._trace)  # a failure raised by tracing ends it
                vals, err, hit = [], None, th.fired
                try:
                    r = rxns[o["r"]]
                    vals.append(value(r))
                    for s in o["s"]:
                        n = perform(r, s, world, own[t])
                        vals.append(seen(n, rxns[o["r"]]))
                        if s.get("edit") and (s["edit"] != "nested" or s["k"] in DEEP):
                            x = n
                            n = copy.deepcopy(n) if s is not o["s"][-1] else n
                            edit(x, s["edit"])
                        r = n
                except (Exception, KeyboardInterrupt) as e:
                    err = e
                got[t].append((vals, err, hit is None and th.fired is not None and case["boom"]["t"] == t))
        return f

    slots = th.run([body(t) for t in range(len(case["th"]))])
    for s in slots:
        if s.error is not None:
            raise s.error
    res.fire("preemption", th.preemptions)
    if th.fired:
        res.fire("failure_" + case["boom"]["exc"])
    edited += sum(1 for ops in case["th"] for o in ops for s in o["s"] if s.get("edit") or s.get("late"))
    res.fire("edit", edited)
    res.nontrivial = th.preemptions > 0 or th.fired is not None or edited > 0 or any(len(o["s"]) > 1 for ops in case["th"] for o in ops)
    res.steps += th.points
    res.execs += 1
    res.sigs.append(repr((th.order, th.points, th.fired)))
    boom = f"; a {case['boom']['exc']} was raised in {th.fired}" if th.fired else ""
    # every result
    for t, rs in enumerate(got):
        for i, (vals, err, hit) in enumerate(rs):
            o, w = case["th"][t][i], want[t][i]
            name = f"thread {t} of {len(got)}, operation {i} ({[s['k'] for s in o['s']]} on reaction {o['r']}, a {type(rxns[o['r']]).__name__})"
            for j, (a, b) in enumerate(zip(vals, w)):
                if b is None:
                    res.bad("error-lost", f"{name}: step {j} ({o['s'][j - 1]}) gave a result where none exists{boom}")
                    return res
                if not close(a, b):
                    res.bad("differs", f"{name}: after {o['s'][:j]}: {differ(a, b)}{boom}")
                    return res
            if err is not None and not hit and not (len(vals) + 1 == len(w) and w[-1] is None):
                res.bad("failed", f"{name}: {type(err).__name__}: {str(err)[:300]} @ {base.where(err)}{boom}")
                return res
    # and nothing else
    for n, (x, m) in enumerate(zip(rxns, models)):
        v, w = value(x), m.value(world)
        if not close(v, w):
            res.bad("altered", f"reaction {n} ({type(x).__name__}) was altered by {[[[s['k'] + ('+edit ' + s['edit'] if s.get('edit') else '') for s in o['s']] for o in t] for t in case['th']]}{boom}: {differ(v, w)}")
            return res
        y = pickle.loads(pickle.dumps(x))
        y.__dict__ = {k: v for k, v in y.__dict__.items() if not isinstance(getattr(type(y), k, None), _cached())}
        v = value(y)
        if not close(v, w):
            res.bad("altered", f"reaction {n} ({type(x).__name__}) holds something else than it answers{boom}: {differ(v, w)}")
            return res
    after = [canon.fp_entry(e) for e in ents.values()]
    if before != after:
        res.bad("entries", f"entries were altered{boom}: {canon.first_diff(before, after)}")
        return res
    for obj, was, what in [*kept, *[x for o in own for x in o]]:
        if canon.fp(obj) != canon.fp(was):
            res.bad("caller", f"the {what} given by the caller changed: {str(was)[:200]} became {str(obj)[:200]}{boom}")
            return res
    return res


def _cached():
    from functools import cached_property

    return cached_property


def shrink(case):
    if "boom" in case:
        d = copy.deepcopy(case)
        del d["boom"]
        yield d
    for t in range(len(case["th"])):
        if len(case["th"]) > 1:
            d = copy.deepcopy(case)
            del d["th"][t]
            if "boom" in d:
                if d["boom"]["t"] == t:
                    del d["boom"]
                elif d["boom"]["t"] > t:
                    d["boom"]["t"] -= 1
            yield d
        for i in range(len(case["th"][t])):
            if len(case["th"][t]) > 1:
                d = copy.deepcopy(case)
                del d["th"][t][i]
                yield d
            for j in range(len(case["th"][t][i]["s"])):
                d = copy.deepcopy(case)
                del d["th"][t][i]["s"][j]
                yield d
                if "edit" in case["th"][t][i]["s"][j]:
                    d = copy.deepcopy(case)
                    del d["th"][t][i]["s"][j]["edit"]
                    yield d
    for n, r in enumerate(case["rs"]):
        for k in ("ints", "late", "shared_mu"):
            if r[k]:
                d = copy.deepcopy(case)
                d["rs"][n][k] = False
                yield d
        if r["d"]:
            d = copy.deepcopy(case)
            d["rs"][n]["d"] = None
            yield d
