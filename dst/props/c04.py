"""C04: a reaction set behaves like the list of its reactions through any history."""
from __future__ import annotations

import copy
import json
from collections import Counter

import numpy as np

from dst import base, canon, gen, rx

QUICK = 1200
THOROUGH = 15000
RULE = ("A case is a random entry set with polymorphs, a pool of reactions and a history of 2-14 operations (build, combine, "
        "filter, re-target, change temperature, query as reactions or as set, tabulate, cost, save and restore, raw arrays), some "
        "made to fail part way, run next to a plain list. Non-trivial: at least three operations were applied to a non-empty set.")
REAL = ["ReactionSet and the reactions and entries it holds", "JSON encoding"]
STUB = ["ray (scheduler, workers, object store): deterministic simulator, used by filter_duplicates"]
ASSUME = ["entry energies are taken as given; those of reactions follow from them, the coefficients and the chemical potential"]

OPS = ["new", "new", "add_rxns", "add_set", "filter", "chempot", "temp", "temps", "by_reactants", "by_product", "restore",
       "frame", "costs", "raw", "bad_add", "bad_cost", "bad_temp", "bad_filter"]


def make(rng, tier):
    chem = gen.chemistry(rng, n_elems=(2, 4), n_comp=(3, 8), polymorphs=0.5, exp=0.25, interp=0.15,
                         data=0.5)
    if rng.random() < 0.4:
        for e in chem["ents"]:
            if e["k"] == "g" and rng.random() < 0.9:
                e.setdefault("data", {})["e_above_hull"] = rng.choice([None, 0.0, round(rng.uniform(0, 0.2), 4)])
    b = rx.basic(rng, chem, rng.choice([1, 3, 6, 12]))
    rs = rx.variants(rng, b, len(b) + rng.choice([0, 2, 6]), data=rng.choice([0.0, 1.0, 1.0, 0.6])) if b else []
    els = gen.elems(chem)
    fs = gen.comps(chem) + [els[0] + "7" + els[-1] + "9"]
    ops = []
    for _ in range(rng.randint(2, 14)):
        k = rng.choice(OPS) if ops else "new"
        o = {"op": k, "r": rng.randrange(6)}
        if k in ("new", "add_rxns", "raw"):
            o["rx"] = sorted(rng.sample(range(len(rs)), min(len(rs), rng.choice([0, 1, 2, 4, 8, 20])))) if rs else []
            o["entries"] = rng.random() < 0.6
            o["dup"] = rng.random() < 0.2
        if k == "new" and rng.random() < 0.25:
            o["open"] = [rng.choice(els), round(rng.uniform(-2, 0), 3)]
        if k in ("add_set", "bad_add"):
            o["s"] = rng.randrange(6)
        if k == "chempot":
            o["open"] = [rng.choice([*els, None]), rng.choice([None, 0.0, round(rng.uniform(-2, 0), 3)])]
        if k == "temp":
            o["T"] = rng.choice([300, 400, 750, 1000, 1300])
        if k == "temps":
            o["Ts"] = rng.sample([300, 450, 800, 1100], 2)
        if k == "bad_temp":
            o["T"] = rng.choice([100, 2500, 5000])
        if k in ("by_reactants", "by_product"):
            o["set"] = rng.random() < 0.5
            o["f"] = rng.sample(fs, min(len(fs), rng.choice([1, 2, 3, 4]) if k == "by_reactants" else 1))
        if k in ("frame", "costs", "bad_cost"):
            o["target"] = rng.choice([None, *fs])
            o["unc"] = rng.random() < 0.4
            o["neg"] = rng.random() < 0.4
            o["sep"] = rng.random() < 0.6
            o["at"] = rng.randrange(6)
        if k in ("filter", "bad_filter"):
            o["par"] = rng.random() < 0.7
            o["f"] = gen.faults(rng, gen.FATAL, (1, 2))
        ops.append(o)
    return {"chem": chem, "rxns": rs, "ops": ops, "sched": gen.schedule(rng)}


class Model:
    def __init__(self, items, open_=None):
        self.items = items  # (entries, coefficients, data)
        self.open = open_  # (element, mu)
        self.raw = False  # entries in an order of the caller's own

    def rxns(self):
        from pymatgen.core.composition import Element
        from rxn_network.reactions.computed import ComputedReaction
        from rxn_network.reactions.open import OpenComputedReaction

        out = []
        for e, c, d in self.items:
            if self.open:
                out.append(OpenComputedReaction(list(e), np.array(c), {Element(self.open[0]): self.open[1]}, data=dict(d)))
            else:
                out.append(ComputedReaction(list(e), np.array(c), data=dict(d)))
        return out


def key(r, energy=True):
    d = {k: v for k, v in r.data.items()}
    return (type(r).__name__, tuple(canon.entry_key(e) for e in r.entries), tuple(canon.q(c, 7) for c in r.coefficients),
            canon.fp(d), canon.fp({str(k): float(v) for k, v in getattr(r, "chempots", {}).items()}),
            canon.q(r.energy_per_atom, 6) if energy else None)


def ms(rs):
    return Counter(key(r) for r in rs)


def frame(df, m, rs, cf, tgt, unc, sep, res):
    """The table has a row for each reaction, with that reaction's own values, cheapest first."""
    want = Counter((key(x), canon.q(cf.evaluate(x), 6), canon.q(x.energy_per_atom, 6)) for x in rs)
    got = Counter((key(a), canon.q(b, 6), canon.q(c, 6)) for a, b, c in zip(df["rxn"], df["cost"], df["energy"]))
    if got != want:
        res.bad("frame", f"{len(df)} rows, want {len(rs)}; extra {list(got - want)[:1]} missing {list(want - got)[:1]}")
        return False
    if list(df["cost"]) != sorted(df["cost"]):
        res.bad("frame-order", "rows are not ordered by cost")
        return False
    for _, row in df.iterrows():
        x = row["rxn"]
        cols = {"max_num_precursor_elems": max(len(c.elements) for c in x.reactants)}
        for name, es in (("reactants", x.reactant_entries), ("products", x.product_entries)):
            if f"max_e_hull_{name}" in df:
                cols[f"max_e_hull_{name}"] = max(e.data.get("e_above_hull") or 0.0 for e in es)
            if f"num_theoretical_{name}" in df:
                cols[f"num_theoretical_{name}"] = sum(not e.is_experimental for e in es)
        if "tag" in df:
            cols["tag"] = x.data.get("tag")
        if unc:
            cols["dE"] = x.energy_uncertainty_per_atom
        if tgt:
            tot = {str(e) for c in x.compositions for e in c.elements} | ({m.open[0]} if m.open else set())
            cols["added_elems"] = "-".join(sorted(tot - {str(e) for e in tgt.elements}))
        if sep:
            cols["separable"] = x.is_separable(tgt)
        for k, v in cols.items():
            if k not in df or not (abs(row[k] - v) < 1e-9 if isinstance(v, float) else _same(row[k], v)):
                res.bad("frame", f"{k} of {x} is {row.get(k)!r}, want {v!r}")
                return False
    return True


class CF:
    """A cost function that fails at its k-th evaluation."""

    def __init__(self, k):
        self.k = k

    def evaluate(self, rxn):
        self.k -= 1
        if self.k < 0:
            raise RuntimeError("simulated cost failure")
        return rxn.energy_per_atom


def run(case):
    from monty.json import MontyDecoder, MontyEncoder
    from rxn_network.core import Composition
    from rxn_network.costs.functions import Softplus, WeightedSum
    from rxn_network.reactions.reaction_set import ReactionSet

    res = base.Res()
    ents = gen.build_entries(case["chem"])
    bu = rx.by_u(case["chem"], ents)
    specs = case["rxns"]
    sets = []  # (ReactionSet, Model)
    seen_ops = 0

    def build(idx, open_=None):
        ss = [specs[i] for i in idx if i < len(specs) and all(u in bu for u in specs[i]["e"])]
        r = rx.build(ss, bu, open_[0] if open_ else None, open_[1] if open_ else None)
        return r, [(tuple(x.entries), tuple(x.coefficients), copy.deepcopy(x.data)) for x in r]

    def check(s, m, what):
        try:
            got = list(s)
            n = len(s)
        except Exception as e:
            res.bad("unreadable", f"{what}: iterating: {type(e).__name__}: {e} @ {base.where(e)}")
            return False
        want = ms(m.rxns())
        g = ms(got)
        if n != len(got):
            res.bad("length", f"{what}: len {n}, iterates {len(got)}")
            return False
        if g != want:
            ex, mi = g - want, want - g
            cls = "content"
            if sum(g.values()) == sum(want.values()) and Counter(k[:3] for k in g.elements()) == Counter(k[:3] for k in want.elements()):
                cls = "data-or-energy"
            res.bad(cls, f"{what}: {len(got)} reactions, want {sum(want.values())}; extra {list(ex)[:1]} missing {list(mi)[:1]}")
            return False
        for x in got:
            try:
                have = x.energy_per_atom
            except ZeroDivisionError:  # nothing but open elements
                continue
            e = rx.energy_of(x)
            if e is not None and abs(have - e) > 1e-6:
                res.bad("data-or-energy", f"{what}: {x} has {have} eV/atom; its entries make it {e}")
                return False
        return True

    def ekeys(s):
        return sorted(canon.entry_key(e) for e in s.entries)

    for o in case["ops"]:
        k = o["op"]
        if not sets and k not in ("new", "raw"):
            continue
        s = m = None
        if k not in ("new", "raw"):
            s, m = sets[o["r"] % len(sets)]
            fp0 = canon.fp_rset(s)
        what = f"{k}"
        new = None
        failed_ok = False
        r = None
        if k == "new":
            rs, items = build(o["rx"], o.get("open"))
            r = base.Run(case["sched"], lambda: ReactionSet.from_rxns(rs, entries=ents if o["entries"] else None,
                                                                      filter_duplicates=False), res)
            new = Model(items, tuple(o["open"]) if o.get("open") and items else None)
        elif k == "raw":
            rs, items = build(o["rx"])
            ind, co = {}, {}
            for e, c, d in items:
                ind.setdefault(len(e), []).append([ents.index(x) for x in e])
                co.setdefault(len(e), []).append(list(c))
            r = base.Run(case["sched"], lambda: ReactionSet(list(ents), {a: np.array(b) for a, b in ind.items()},
                                                            {a: np.array(b) for a, b in co.items()}), res)
            new = Model([(e, c, {}) for e, c, d in items])
        elif k == "add_rxns":
            have = set(ekeys(s))
            rs, items = build(o["rx"])
            ok = [i for i, x in enumerate(rs) if all(canon.entry_key(e) in have for e in x.entries)]
            rs, items = [rs[i] for i in ok], [items[i] for i in ok]
            if not rs:
                continue
            r = base.Run(case["sched"], lambda: s.add_rxns(rs), res)
            new = Model(m.items + items, m.open)
        elif k == "add_set":
            s2, m2 = sets[o["s"] % len(sets)]
            if ekeys(s) != ekeys(s2):
                continue
            if (m.raw or m2.raw) and [canon.entry_key(e) for e in s.entries] != [canon.entry_key(e) for e in s2.entries]:
                continue  # documented: entries must be identical
            r = base.Run(case["sched"], lambda: s.add_rxn_set(s2), res)
            new = Model(m.items + m2.items, m.open)
        elif k == "bad_add":
            s2, m2 = sets[o["s"] % len(sets)]
            if ekeys(s) == ekeys(s2):
                continue
            r = base.Run(case["sched"], lambda: s.add_rxn_set(s2), res)
            failed_ok = True
            if r.ok:
                res.bad("mismatch-accepted", "sets with different entries were combined")
                return res
        elif k in ("filter", "bad_filter"):
            par = o["par"] or k == "bad_filter"
            if k == "bad_filter":
                d = base.Run(case["sched"], lambda: s.filter_duplicates(), res)
                kf = gen.resolve(o["f"], len(d.cl.tasks), d.cl.n_puts)
                r = base.Run(case["sched"], lambda: s.filter_duplicates(), res, kf)
                failed_ok = True
                if r.hang:
                    res.bad("hang", r.why())
                    return res
            else:
                r = base.Run(case["sched"], lambda: s.filter_duplicates(parallelize=par), res)
            if r.ok:
                try:
                    got = list(r.value)
                except Exception as e:
                    res.bad("unreadable", f"{what}: {type(e).__name__}: {e}")
                    return res
                cls = Counter(canon.rxn_key(x) for x in m.rxns())
                if Counter(canon.rxn_key(x) for x in got) != Counter(dict.fromkeys(cls, 1)) or ms(got) - ms(m.rxns()):
                    res.bad("filter", f"{what}: wrong members")
                    return res
                new = Model([(tuple(x.entries), tuple(x.coefficients), copy.deepcopy(x.data)) for x in got], m.open)
        elif k == "chempot":
            el, mu = o["open"]
            r = base.Run(case["sched"], lambda: s.set_chempot(el, mu), res)
            new = Model(m.items, (el, mu or 0) if el else None)
        elif k in ("temp", "bad_temp", "temps"):
            Ts = o["Ts"] if k == "temps" else [o["T"]]
            models = {}
            err = False
            for T in Ts:
                items = []
                try:
                    cache = {}
                    for e in s.entries:
                        cache[canon.entry_key(e)] = e.get_new_temperature(T)
                    for es, c, d in m.items:
                        items.append((tuple(cache[canon.entry_key(e)] for e in es), c, d))
                except Exception:
                    err = True
                    break
                models[T] = Model(items, m.open)
            r = base.Run(case["sched"], (lambda: s.compute_at_temperatures(list(Ts))) if k == "temps" else
                         (lambda: s.set_new_temperature(Ts[0])), res)
            if err:
                failed_ok = True
                if r.ok:
                    res.bad("temperature-accepted", f"{what} {Ts}: an entry has no data there, yet the set was recomputed")
                    return res
            elif k == "temps" and r.ok:
                if sorted(r.value) != sorted(Ts):
                    res.bad("content", f"temperatures {sorted(r.value)} instead of {Ts}")
                    return res
                for T in Ts:
                    if not check(r.value[T], models[T], f"temps {T}"):
                        return res
                r.value = r.value[Ts[0]]
                new = models[Ts[0]]
            else:
                new = models.get(Ts[0])
                if r.ok and len(m.items) <= 8:  # each reaction by itself
                    rs = list(s.get_rxns())
                    was = [key(x) for x in rs]
                    one = [key(x.get_new_temperature(Ts[0], None)) for x in rs]
                    if Counter(one) != ms(new.rxns()) or [key(x) for x in rs] != was:
                        res.bad("content", f"{what} {Ts}: taking the reactions to it one by one gives others: {canon.diff(Counter(one), ms(new.rxns()))}")
                        return res
        elif k in ("by_reactants", "by_product"):
            fs = {Composition(f).reduced_formula for f in o["f"]}
            keep = []
            for it, x in zip(m.items, m.rxns()):
                a = {c.reduced_formula for c in (x.reactants if k == "by_reactants" else x.products)}
                if (a <= fs) if k == "by_reactants" else (fs & a):
                    keep.append(it)
            arg = list(o["f"]) if k == "by_reactants" else o["f"][0]
            f = s.get_rxns_by_reactants if k == "by_reactants" else s.get_rxns_by_product
            r = base.Run(case["sched"], lambda: (f(arg, return_set=True) if o["set"] else list(f(arg))), res)
            sub = Model(keep, m.open)
            if r.ok:
                if o["set"]:
                    if type(r.value).__name__ != "ReactionSet":
                        res.bad("query-type", f"{what} {o['f']}: asked for a set, got {type(r.value).__name__}")
                        return res
                    new = sub
                else:
                    g, w = ms(r.value), ms(sub.rxns())
                    if g != w:
                        res.bad("query", f"{what} {o['f']}: got {sum(g.values())} reactions, want {sum(w.values())}")
                        return res
        elif k == "restore":
            def rt():
                text = json.dumps(s.as_dict(), cls=MontyEncoder)
                return json.loads(text, cls=MontyDecoder)
            r = base.Run(case["sched"], rt, res)
            res.fire("crash_restore")
            new = Model(m.items, m.open)
        elif k == "frame":
            cf = WeightedSum(["energy_per_atom"], [-1.0]) if o.get("neg") else Softplus(700)
            tgt = Composition(o["target"]) if o["target"] else None
            rs = m.rxns()
            sep = bool(o.get("sep") and tgt and rs and all(tgt.reduced_formula in [c.reduced_formula for c in x.products] and
                                                           tgt.reduced_formula not in [c.reduced_formula for c in x.reactants]
                                                           for x in rs))
            r = base.Run(case["sched"], lambda: s.to_dataframe(cf, target=tgt, calculate_uncertainties=o["unc"],
                                                               calculate_separable=sep), res)
            if r.ok and not frame(r.value, m, rs, cf, tgt, o["unc"], sep, res):
                return res
        elif k == "costs":
            cf = Softplus(500)
            r = base.Run(case["sched"], lambda: s.calculate_costs(cf), res)
            if r.ok and Counter(canon.q(x) for x in r.value) != Counter(canon.q(cf.evaluate(x)) for x in m.rxns()):
                res.bad("costs", "costs of other reactions")
                return res
        elif k == "bad_cost":
            if not m.items:
                continue
            n = o["at"] % len(m.items)
            r = base.Run(case["sched"], lambda: s.to_dataframe(CF(n)), res)
            res.fire("cost_failure")
            failed_ok = True
            if r.ok:
                res.bad("swallowed", "a failing cost function went unnoticed")
                return res
        res.probe("op_" + k)
        if r is not None and not r.ok:
            if r.hang:
                res.bad("hang", f"{what}: {r.why()}")
                return res
            if not failed_ok:
                res.bad("failed:" + k, f"{what} {json.dumps({a: b for a, b in o.items() if a not in ('rx', 'f')})}: {r.why()}")
                return res
            res.probe("failed_operations")
        if r is not None and r.ok and new is not None:
            if not check(r.value, new, what):
                return res
            new.raw = k == "raw" or (m is not None and m.raw)
            if len(sets) < 6:
                sets.append((r.value, new))
            else:
                sets[o["r"] % 6] = (r.value, new)
        if s is not None:
            if canon.fp_rset(s) != fp0:
                res.bad("changed", f"{what} altered the set it was called on: {canon.first_diff(fp0, canon.fp_rset(s))}")
                return res
            if m.items:
                seen_ops += 1
        for a, b in sets:
            if not check(a, b, f"an earlier set after {what}"):
                return res
    res.nontrivial = seen_ops >= 3
    return res


def _same(a, b):
    if b is None:
        return a is None or a != a
    return a == b


def shrink(case):
    yield from base.shrink_common(case)
    n = len(case["rxns"])
    for i in range(n):
        d = copy.deepcopy(case)
        del d["rxns"][i]
        for o in d["ops"]:
            if "rx" in o:
                o["rx"] = [j - (j > i) for j in o["rx"] if j != i]
        yield d
    for j, o in enumerate(case["ops"]):
        for i in range(len(o.get("rx", []))):
            d = copy.deepcopy(case)
            del d["ops"][j]["rx"][i]
            yield d
