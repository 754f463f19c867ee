"""Enumerators described in JSON, and the sequential reference for what they must return."""
from __future__ import annotations

import warnings
from collections import Counter
from itertools import combinations

import numpy as np

from dst import canon, gen

KINDS = ["basic", "open", "gibbs", "grand"]


def gen_enum(rng, chem, kind=None, p_prec=0.4, p_targ=0.4, p_novel=0.1):
    kind = kind or rng.choice(["basic", "basic", "open", "gibbs", "gibbs", "grand"])
    els = gen.elems(chem)
    fs = gen.comps(chem)
    comp = gen.comps(chem, elements=False)
    e = {"kind": kind, "chunk_size": rng.choice([1, 2, 3, 5, 7, 13, 20, 50, 2500]), "max_num_jobs": rng.choice([1, 2, 3, 7, 5000, 5000])}
    oe = "O" if "O" in els else rng.choice(els)
    if kind in ("basic", "open"):
        e["n"] = rng.choice([1, 2, 2, 2, 3]) if len(chem["ents"]) <= 7 else rng.choice([1, 2])
        if len(chem["ents"]) <= 6 and rng.random() < 0.12:
            e["n"] = rng.choice([4, 5])
    if len(chem["ents"]) > 8 and kind in ("basic", "open"):
        # as many tasks as a real run would have, not one per pair of phases
        e["chunk_size"] = {1: 20, 2: 31, 3: 50, 5: 113}.get(e["chunk_size"], e["chunk_size"])
    if kind == "open":
        e["open_phases"] = [gen.gas(oe)]
        more = [f for f in (fs if rng.random() < 0.6 else comp) if f not in e["open_phases"]]
        if rng.random() < 0.4 and more:
            e["open_phases"].append(rng.choice(more))
    if kind == "grand":
        e["open_elem"] = oe
        e["mu"] = round(-rng.uniform(0, 1.5), 4)
    if rng.random() < p_prec and fs:
        e["precursors"] = rng.sample(fs, min(len(fs), rng.choice([1, 2, 2, 3, 4])))
        if rng.random() < p_novel:
            e["precursors"].append(novel(rng, chem))
        e["exclusive_precursors"] = rng.random() < 0.6
    if rng.random() < p_targ and comp:
        e["targets"] = rng.sample(comp, min(len(comp), rng.choice([1, 1, 2, 3])))
        if rng.random() < p_novel:
            e["targets"] = [novel(rng, chem)]
        e["exclusive_targets"] = rng.random() < 0.3
    if rng.random() < 0.2:
        e["filter_by_chemsys"] = "-".join(rng.sample(els, 1 if rng.random() < 0.8 else min(2, len(els))))
    if rng.random() < 0.2:
        e["filter_duplicates"] = True
    return e


def novel(rng, chem):
    els = gen.elems(chem)
    sub = sorted(rng.sample(els, min(2, len(els))))
    return "".join(f"{x}{n}" for x, n in zip(sub, (5, 7)))


def make_enum(e):
    from rxn_network.enumerators.basic import BasicEnumerator, BasicOpenEnumerator
    from rxn_network.enumerators.minimize import MinimizeGibbsEnumerator, MinimizeGrandPotentialEnumerator

    kw = {k: v for k, v in e.items() if k not in ("kind", "open_phases", "open_elem", "mu")}
    kw = {k: (list(v) if isinstance(v, list) else v) for k, v in kw.items()}
    if e["kind"] == "basic":
        return BasicEnumerator(quiet=True, **kw)
    if e["kind"] == "open":
        return BasicOpenEnumerator(open_phases=list(e["open_phases"]), quiet=True, **kw)
    kw.pop("n", None)
    if e["kind"] == "gibbs":
        return MinimizeGibbsEnumerator(quiet=True, **kw)
    return MinimizeGrandPotentialEnumerator(open_elem=e["open_elem"], mu=e["mu"], quiet=True, **kw)


class Ambiguous(Exception):
    """The reference itself is numerically undecided for this input."""


def _els(ents):
    return frozenset(str(x) for e in ents for x in e.composition.elements)


def reference(e, entries):
    """Reactions (Counter of canonical keys) by the documented rules, evaluated one by one.

    `entries` is a list of entry objects.  Returns (counter, ambiguous-keys)."""
    from rxn_network.core import Composition
    from rxn_network.reactions.computed import ComputedReaction

    ents = sorted(set(entries), key=canon.entry_key)
    minimal = {}
    for x in ents:
        f = x.composition.reduced_formula
        if f not in minimal or x.energy_per_atom < minimal[f].energy_per_atom:
            minimal[f] = x

    def pick(fs):
        out = []
        for f in fs:
            rf = Composition(f).reduced_formula
            if rf not in minimal:
                minimal_new = interpolated(f, ents)
                added.setdefault(rf, minimal_new)
                out.append(added[rf])
            else:
                out.append(minimal[rf])
        return out

    added = {}
    P, T = pick(e.get("precursors") or []), pick(e.get("targets") or [])
    pool = ents + list(added.values())
    for x in added.values():
        minimal[x.composition.reduced_formula] = x
    key = {id(x): canon.entry_key(x) for x in pool}
    Pk, Tk = {key[id(x)] for x in P}, {key[id(x)] for x in T}
    open_forms = set(e.get("open_phases") or [])
    if e["kind"] == "grand":
        open_forms = {Composition(e["open_elem"]).reduced_formula}
    opens = [x for x in pool if x.composition.reduced_formula in open_forms]
    Ok = {key[id(x)] for x in opens}
    oels = _els(opens)
    rest = [x for x in pool if key[id(x)] not in Ok]
    ex_p, ex_t = e.get("exclusive_precursors", True), e.get("exclusive_targets", False)
    fe = set(e["filter_by_chemsys"].split("-")) if e.get("filter_by_chemsys") else None

    def side_ok(ks, allowed, exclusive):
        if not allowed:
            return True
        return ks <= (allowed | Ok) if exclusive else bool(ks & (allowed | Ok))

    def accept(rxn):
        if rxn.is_identity or not rxn.balanced or rxn.lowest_num_errors != 0 or rxn.data["num_constraints"] > 1:
            return False
        rk = {canon.entry_key(x) for x in rxn.reactant_entries} - Ok
        pk = {canon.entry_key(x) for x in rxn.product_entries} - Ok
        return side_ok(rk, Pk, ex_p) and side_ok(pk, Tk, ex_t)

    def sys_ok(els):
        if len(els) < 2 or len(els) >= 10:
            return False
        return not fe or els >= fe

    out = Counter()
    n = e.get("n", 2)
    combos = [c for k in range(1, n + 1) for c in combinations(rest, k)]
    by = {}
    for c in combos:
        by.setdefault(_els(c) | oels, []).append(c)
    amb = set()
    if e["kind"] in ("basic", "open"):
        ocs = [()] if e["kind"] == "basic" else [c for k in range(1, len(opens) + 1) for c in combinations(opens, k)]
        for els, cs in by.items():
            if not sys_ok(els):
                continue
            if e["kind"] == "basic":
                pairs = combinations(cs, 2)
            else:
                pairs = ((a, b + o) for a in cs for b in cs for o in ocs)
            for r, p in pairs:
                ks = {key[id(x)] for x in r}, {key[id(x)] for x in p}
                if ks[0] & ks[1]:
                    continue
                if Pk and not (Pk & (ks[0] | ks[1])):
                    continue
                if Tk and not (Tk & (ks[0] | ks[1])):
                    continue
                if not (side_ok(ks[0], Pk, ex_p) or side_ok(ks[1], Pk, ex_p)):
                    continue
                if not (side_ok(ks[0], Tk, ex_t) or side_ok(ks[1], Tk, ex_t)):
                    continue
                if _els(r) - oels != _els(p) - oels and e["kind"] == "basic":
                    continue
                fwd = ComputedReaction.balance(list(r), list(p))
                for rxn in (fwd, ComputedReaction(fwd.entries, -1 * fwd.coefficients, dict(fwd.data), fwd.lowest_num_errors)):
                    if accept(rxn):
                        out[canon.rxn_key(rxn)] += 1
        return out, amb
    # free-energy minimising enumerators
    for els, cs in sorted(by.items(), key=lambda x: sorted(x[0])):
        if not sys_ok(els):
            continue
        sub = [x for x in pool if _els([x]) <= els]
        mk = _minimiser(e, sub, minimal, pool)
        for c in cs:
            ks = {key[id(x)] for x in c}
            if Pk and not (Pk & ks):
                continue
            if not side_ok(ks, Pk, ex_p):
                continue
            a = mk(c[0], c[-1])
            if len(c) == 2:
                b = mk(c[1], c[0])
                if Counter(map(canon.rxn_key, a)) != Counter(map(canon.rxn_key, b)):
                    # numerically undecided: accept either
                    amb |= {canon.rxn_key(x) for x in a + b}
            for rxn in a:
                if accept(rxn):
                    out[canon.rxn_key(rxn)] += 1
    return out, amb


def _minimiser(e, sub, minimal, pool):
    from pymatgen.analysis.interface_reactions import GrandPotentialInterfacialReactivity, InterfacialReactivity
    from pymatgen.analysis.phase_diagram import GrandPotentialPhaseDiagram, PhaseDiagram
    from pymatgen.core.composition import Element
    from rxn_network.reactions.computed import ComputedReaction
    from rxn_network.reactions.open import OpenComputedReaction

    pd = PhaseDiagram(sub)
    mu = None
    if e["kind"] == "grand":
        mu = {Element(e["open_elem"]): e["mu"]}
        gpd = GrandPotentialPhaseDiagram(sub, mu)
    low = {}
    for x in sub:
        f = x.composition.reduced_formula
        if f not in low or x.energy_per_atom < low[f].energy_per_atom:
            low[f] = x

    def run(a, b):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if mu:
                it = GrandPotentialInterfacialReactivity(a.composition, b.composition, gpd, pd_non_grand=pd, norm=True,
                                                         include_no_mixing_energy=True, use_hull_energy=True)
            else:
                it = InterfacialReactivity(a.composition, b.composition, pd, use_hull_energy=True)
            out = []
            for _, _, _, rxn, _ in it.get_kinks():
                r = [low[c.reduced_formula] for c in rxn.reactants]
                p = [low[c.reduced_formula] for c in rxn.products]
                out.append(OpenComputedReaction.balance(r, p, mu) if mu else ComputedReaction.balance(r, p))
        return out

    return run


def interpolated(f, ents):
    """A phase on the hull (minus 1 meV/atom) for a formula no entry has."""
    from pymatgen.analysis.phase_diagram import PhaseDiagram
    from rxn_network.core import Composition
    from rxn_network.entries.interpolated import InterpolatedEntry
    from pymatgen.entries.computed_entries import ConstantEnergyAdjustment

    comp = Composition(f).reduced_composition
    els = {str(x) for x in comp.elements}
    sub = [x for x in ents if _els([x]) <= els]
    en = PhaseDiagram(sub).get_hull_energy(comp) - 1e-3 * comp.num_atoms
    T = next((x.temperature for x in ents if hasattr(x, "temperature")), 0.0)
    return InterpolatedEntry(comp, en, energy_adjustments=[ConstantEnergyAdjustment(0.0, 0.05 * comp.num_atoms, "i")],
                             entry_id=f"InterpolatedEntry-{comp.formula}_{T}")


def class_rep(counter):
    """Reactions up to positive multiples: the keys (already normalised by largest coefficient)."""
    return set(counter)
