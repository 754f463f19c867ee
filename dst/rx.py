"""Reactions described in JSON: phases (by the `u` of an entry description), coefficients, data."""
from __future__ import annotations

import itertools

import numpy as np

from dst import gen


def _matrix(ents, els):
    return np.array([[gen.rkey_d(e["c"]).get(el, 0) for e in ents] for el in els], float)


def solve(ents, els):
    """Coefficients of the unique reaction between these phases (largest is 1), or None."""
    a = _matrix(ents, els)
    u, s, vt = np.linalg.svd(a)
    rank = int((s > 1e-9).sum())
    if a.shape[1] - rank != 1:
        return None
    v = vt[-1]
    if (abs(v) < 1e-6 * abs(v).max()).any():
        return None
    # to small integers where possible
    w = v / abs(v).min()
    for m in range(1, 61):
        k = w * m
        if np.allclose(k, np.round(k), atol=1e-6):
            v = np.round(k)
            break
    else:
        return None
    return v


def basic(rng, chem, n, max_size=5, tries=4000, ents=None):
    """Up to n distinct reactions [{"e": [...], "c": [...]}] with the first phase on the reactant side."""
    ents = ents or chem["ents"]
    els = gen.elems(chem)
    out, seen = [], set()
    for _ in range(tries):
        if len(out) >= n:
            break
        k = rng.randint(2, min(max_size, len(els) + 1, len(ents)))
        sub = rng.sample(ents, k)
        if len({gen.rkey(e["c"]) for e in sub}) < k:
            continue
        key = frozenset(e["u"] for e in sub)
        if key in seen:
            continue
        seen.add(key)
        c = solve(sub, els)
        if c is None:
            continue
        if c[0] > 0:
            c = -c
        out.append({"e": [e["u"] for e in sub], "c": [float(x) for x in c]})
    return out


def variants(rng, rxns, n, p_perm=0.5, data=0.6, exact=0.15):
    """n reactions: the given ones plus multiples, reorderings, reverses and repeats of them."""
    out = []
    tag = itertools.count()
    for r in rxns:
        out.append({"e": list(r["e"]), "c": list(r["c"])})
    while len(out) < n and rxns:
        r = rng.choice(out if rng.random() < 0.3 else rxns)
        e, c = list(r["e"]), list(r["c"])
        x = rng.random()
        if x > exact:
            m = rng.choice([2.0, 3.0, 0.5, 0.25, 1 / 3, 1.7, 10.0, 0.02, 0.003])
            c = [m * y for y in c]
        if rng.random() < 0.3:
            c = [-y for y in c]
        if rng.random() < p_perm:
            o = list(range(len(e)))
            rng.shuffle(o)
            e, c = [e[i] for i in o], [c[i] for i in o]
        out.append({"e": e, "c": c})
    out = out[:n] if n else out
    rng.shuffle(out)
    for r in out:
        if rng.random() < data:
            r["d"] = {"tag": next(tag)}
    return out


def build(specs, entries_by_u, open_elem=None, mu=None):
    from rxn_network.reactions.computed import ComputedReaction
    from rxn_network.reactions.open import OpenComputedReaction
    from pymatgen.core.composition import Element

    out = []
    for r in specs:
        if not all(u in entries_by_u for u in r["e"]):
            continue
        es = [entries_by_u[u] for u in r["e"]]
        d = dict(r["d"]) if "d" in r else {}
        # coefficients refer to the smallest formula; pymatgen keeps O2, Li2O2, ...
        c = np.array([c * _least(e.composition) / e.composition.reduced_composition.num_atoms for e, c in zip(es, r["c"])])
        if open_elem is not None:
            out.append(OpenComputedReaction(es, c, {Element(open_elem): mu}, data=d))
        else:
            out.append(ComputedReaction(es, c, data=d))
    return out


def _least(comp):
    from math import gcd

    a = [int(round(x)) for x in comp.values()]
    g = 0
    for x in a:
        g = gcd(g, x)
    return sum(a) / g


def by_u(chem, entries):
    return {e["u"]: x for e, x in zip(chem["ents"], entries)}


def energy_of(r):
    """Energy per atom of a reaction from its entries and coefficients alone (atoms of open elements do not count, and their
    amounts are paid at the chemical potential); None where a phase occurs twice."""
    mu = {str(k): float(v) for k, v in getattr(r, "chempots", {}).items()}
    tot = atoms = 0.0
    seen = set()
    for e, c in zip(r.entries, r.coefficients):
        amt = {str(k): v for k, v in e.composition.items()}
        f = e.composition.reduced_formula
        if f in seen:
            return None
        seen.add(f)
        n = sum(amt.values())
        red = e.composition.reduced_composition.num_atoms
        en = e.energy
        if not (len(amt) == 1 and set(amt) <= set(mu)):
            en -= sum(mu[k] * v for k, v in amt.items() if k in mu)
        tot += c * en * red / n
        if c > 0:
            atoms += c * sum(v for k, v in amt.items() if k not in mu) * red / n
    return tot / atoms if atoms else None
