"""Pathway-solving cases and their brute-force reference."""
from __future__ import annotations

from collections import Counter
from itertools import combinations

import numpy as np

from dst import canon, enums, gen, rx


def gen_solve(rng, n_comp=(3, 6), combos=None):
    """Pathways, a net reaction and solver settings over a random entry set."""
    deep = combos is None and rng.random() < 0.12  # four steps, many tasks in several batches
    for _ in range(60):
        chem = gen.chemistry(rng, n_elems=(3, 4) if deep else (2, 3), n_comp=n_comp, polymorphs=rng.choice([0.0, 0.0, 0.3]), exp=0.1, interp=0.0,
                             data=0.3)
        pool = rx.basic(rng, chem, 14, max_size=4)
        if len(pool) >= 2:
            break
    else:
        return None
    els = gen.elems(chem)
    by = {e["u"]: e for e in chem["ents"]}
    # the net reaction: a combination of two or three reactions of the pool whenever that is a proper one
    net = None
    for _ in range(20):
        k = 4 if deep else rng.choice([2, 2, 3])
        sub = rng.sample(pool, min(k, len(pool)))
        tot = Counter()
        for r in sub:
            m = rng.choice([1.0, 1.0, 2.0, 0.5])
            s = rng.choice([1, 1, -1])
            for u, c in zip(r["e"], r["c"]):
                tot[u] += s * m * c
        t = {u: c for u, c in tot.items() if abs(c) > 1e-9}
        us = list(t)
        if len(us) < 2 or len({gen.rkey(by[u]["c"]) for u in us}) < len(us):
            continue
        c = rx.solve([by[u] for u in us], els)
        if c is None:
            continue
        if c[0] * t[us[0]] < 0:
            c = -c
        net = {"e": us, "c": [float(x) for x in c]}
        break
    if net is None:
        net = pool.pop()
    both = []
    for r in pool:
        d = dict(r)
        if rng.random() < 0.5:
            d = {"e": r["e"], "c": [-x for x in r["c"]]}
        both.append(d)
        if rng.random() < 0.25:
            m = rng.choice([1.0, 2.0])
            both.append({"e": r["e"], "c": [-x * m for x in d["c"]]})
    rng.shuffle(both)
    paths, rest = [], list(range(len(both)))[:16 if deep else rng.choice([3, 6, 9, 12])]
    while rest:
        k = rng.randint(1, 4)
        p, rest = rest[:k], rest[k:]
        if rng.random() < 0.3 and paths:
            p = [*p, rng.choice(paths[0])]
        paths.append(p)
    if rng.random() < 0.2:
        paths.append([-1])
    c = {"chem": chem, "rxns": both, "net": net, "paths": paths, "n": combos or rng.choice([1, 2, 2, 3, 3, 4]),
         "chunk": rng.choice([1, 2, 3, 7, 20, 100, 100000]), "batch": rng.choice([None, None, 1, 2, 5]),
         "find": rng.random() < 0.5, "cutoff": rng.choice([0.0, 0.0, -0.05, 0.2]), "basic": rng.random() < 0.7,
         "mini": rng.random() < 0.4, "filter": rng.random() < 0.4, "open": None, "cost": rng.choice([300, 900])}
    if rng.random() < 0.3:
        c["open"] = ["O" if "O" in els else rng.choice(els), round(-rng.uniform(0, 1.2), 3)]
    if deep:
        c.update(n=4, chunk=rng.choice([11, 25, 60, 120]), batch=rng.choice([1, 2, 3, 5, 9, 13]), find=False, filter=False)
    elif rng.random() < 0.4:
        c.update(find=True, pick=[rng.randrange(10000) / 10000, rng.randrange(10000) / 10000, rng.choice([1.0, 0.5, 2.0])], cutoff=0.5,
                 n=rng.choice([2, 2, 3]))
        c["paths"] = c["paths"][:rng.choice([1, 1, 2])]
        if rng.random() < 0.5:
            c.update(mini=True, basic=rng.random() < 0.3)
            c["open"] = ["O" if "O" in els else rng.choice(els), round(-rng.uniform(0, 1.2), 3)]
    return c


def setup(case):
    """(entry set with indices, PathwaySet, net reaction, cost function, path reactions)"""
    from rxn_network.costs.functions import Softplus
    from rxn_network.entries.entry_set import GibbsEntrySet
    from rxn_network.pathways.basic import BasicPathway
    from rxn_network.pathways.pathway_set import PathwaySet

    ents = gen.build_entries(case["chem"])
    bu = rx.by_u(case["chem"], ents)
    # the net reaction and the paths use ground states, as everything made by the package does
    es = GibbsEntrySet(ents)
    es.build_indices()
    oe, mu = case["open"] or (None, None)
    cf = Softplus(case["cost"])
    netl = rx.build([case["net"]], bu, oe, mu)
    if not netl:
        return None
    net = netl[0]
    built = {}
    for i, s in enumerate(case["rxns"]):
        b = rx.build([s], bu, oe, mu)
        if b:
            built[i] = b[0]
    built[-1] = net
    paths = []
    for p in case["paths"]:
        rs = [built[i] for i in p if i in built]
        if rs:
            paths.append(BasicPathway(rs, [cf.evaluate(r) for r in rs]))
    if not paths:
        return None
    prx = [r for p in paths for r in p.reactions]
    if case.get("pick"):
        n2 = pick_net(case, es, prx, oe, mu)
        net = n2 if n2 is not None else net
    return es, PathwaySet.from_paths(paths), net, cf, prx


def inter_kinds(case, targets):
    from rxn_network.core import Composition

    kinds = []
    oe, mu = case["open"] or (None, None)
    t = {"targets": targets} if targets else {}
    if case["basic"]:
        kinds.append({"kind": "basic", "n": 2, **t})
        if oe:
            kinds.append({"kind": "open", "n": 2, "open_phases": [Composition(oe).reduced_formula], **t})
    if case["mini"]:
        kinds.append({"kind": "gibbs", **t})
        if oe:
            kinds.append({"kind": "grand", "open_elem": oe, "mu": mu, **t})
    return kinds


def pick_net(case, es, prx, oe, mu):
    """A net reaction that needs an intermediate reaction: a path reaction plus a multiple of one."""
    from pymatgen.core.composition import Element
    from rxn_network.reactions.computed import ComputedReaction
    from rxn_network.reactions.open import OpenComputedReaction

    a, b, m = case["pick"]
    inter = {canon.entry_key(e): e for r in prx for e in r.entries}
    for e in es.entries:
        if e.is_element:
            inter[canon.entry_key(e)] = e
    have = {canon.rxn_key(r)[1] for r in prx}
    groups = []
    for k in inter_kinds(case, None):
        try:
            found = enums.reference(k, list(inter.values()))[0]
        except Exception:
            continue
        groups.append(sorted({x for x in found if x[1] not in have}))
    # prefer reactions only the last enumerator finds
    flat = [x for g in groups for x in g]
    last = [x for x in (groups[-1] if groups else []) if flat.count(x) == 1] or flat
    if not last:
        return None
    for off in range(6):
        g = last[(int(a * len(last)) + off) % len(last)]
        p = prx[(int(b * len(prx)) + off) % len(prx)]
        es_ = [inter[k] for k, _ in g[1]]
        co = rx_exact(es_, np.array([c / 1e6 for _, c in g[1]]))
        tot = {}
        for e, c in [*zip(p.entries, p.coefficients / np.abs(p.coefficients).max()), *zip(es_, m * co)]:
            tot[canon.entry_key(e)] = tot.get(canon.entry_key(e), 0.0) + c
        tot = {k: c for k, c in tot.items() if abs(c) > 1e-7}
        prods = {k for k, c in tot.items() if c > 0}
        if not prods or len(prods) == len(tot) or not any(c > 0 and k in prods for k, c in zip([k for k, _ in g[1]], co)):
            continue
        ee, cc = [inter[k] for k in tot], np.array(list(tot.values()))
        if len({e.composition.reduced_formula for e in ee}) < len(ee):
            continue
        r = OpenComputedReaction(ee, cc, {Element(oe): mu}) if oe else ComputedReaction(ee, cc)
        if r.balanced:
            return r
    return None


def solver(case, es, ps, cf):
    from rxn_network.pathways.solver import PathwaySolver

    oe, mu = case["open"] or (None, 0.0)
    return PathwaySolver(ps, es, cf, open_elem=oe, chempot=mu or 0.0, chunk_size=case["chunk"], batch_size=case["batch"])


def solve(case, s, net, filt=None):
    return s.solve(net, max_num_combos=case["n"], find_intermediate_rxns=case["find"],
                   intermediate_rxn_energy_cutoff=case["cutoff"], use_basic_enumerator=case["basic"],
                   use_minimize_enumerator=case["mini"],
                   filter_interdependent=case["filter"] if filt is None else filt)


class Reference:
    """All pathways within the limits, by solving each combination on its own."""

    def __init__(self, case, es, net, cf, path_rxns, limit=20000):
        from pymatgen.core.composition import Element
        from rxn_network.reactions.computed import ComputedReaction
        from rxn_network.reactions.open import OpenComputedReaction

        self.too_big = False
        self.ents = sorted(es.entries, key=canon.entry_key)
        self.pos = {canon.entry_key(e): i for i, e in enumerate(self.ents)}
        rows = {}
        self.amb = set()
        for r in path_rxns:
            self.add(rows, r)
        if case["find"]:
            inter = {canon.entry_key(e): e for r in path_rxns for e in r.entries}
            for e in net.product_entries:
                inter[canon.entry_key(e)] = e
            for e in es.entries:
                if e.is_element:
                    inter[canon.entry_key(e)] = e
            inter = list(inter.values())
            tf = [e.composition.reduced_formula for e in net.product_entries]
            oe, mu = case["open"] or (None, None)
            kinds = inter_kinds(case, tf)
            ek = {canon.entry_key(e): e for e in inter}
            for k in kinds:
                found, amb = enums.reference(k, inter)
                for key in found:
                    es_ = [ek[a] for a, _ in key[1]]
                    co = np.array([b / 1e6 for _, b in key[1]])
                    co = rx_exact(es_, co)
                    if oe:
                        r = OpenComputedReaction(es_, co, {Element(oe): mu})
                    else:
                        r = ComputedReaction(es_, co)
                    e = r.energy_per_atom
                    if abs(e - case["cutoff"]) < 1e-8 or key in amb:
                        self.amb.add(self.cls(r))
                    if e < case["cutoff"]:
                        self.add(rows, r)
        nk = self.cls(net)
        self.net_vec = self.vec(net)
        self.keys = sorted(k for k in rows if k != nk)
        self.rows = np.array([rows[k] for k in self.keys]) if self.keys else np.zeros((0, len(self.ents)))
        self.netk = nk
        total = sum(_comb(len(self.keys), n) for n in range(1, case["n"] + 1))
        self.n_rxns = len(self.keys)
        if total > limit:
            self.too_big = True
            return
        self.solutions = {}
        self.undecided = set()
        v = self.net_vec
        for n in range(1, case["n"] + 1):
            for combo in combinations(range(len(self.keys)), n):
                a = self.rows[list(combo)]
                if (np.abs(a[:, v != 0]).max(axis=0) < 1e-12).any():
                    continue
                sv = np.linalg.svd(a, compute_uv=False)
                m = np.linalg.pinv(a).T @ v
                if sv[-1] < 1e-6 * sv[0]:
                    self.undecided.add(frozenset(combo))
                    continue
                resid = np.abs(a.T @ m - v).max()
                ks = frozenset(self.keys[i] for i in combo)
                if resid > 1e-4:
                    continue
                if m.min() < -1e-4:
                    continue
                if resid > 1e-9 or m.min() < 1e-4:
                    self.undecided.add(frozenset(combo))
                    continue
                self.solutions[ks] = {k: float(x) for k, x in zip([self.keys[i] for i in combo], m)}
        self.undecided = {frozenset(self.keys[i] for i in c) for c in self.undecided}

    def vec(self, r):
        v = np.zeros(len(self.ents))
        for e, c in zip(r.entries, r.coefficients):
            v[self.pos[canon.entry_key(e)]] += c
        return v

    def cls(self, r):
        return canon.rxn_key(r)[1]

    def add(self, rows, r):
        k = self.cls(r)
        v = self.vec(r)
        rows.setdefault(k, v / np.abs(v).max())

    def key_of(self, path):
        """(frozenset of step classes, {class: multiplicity for the step scaled to largest coefficient 1}) of a returned path"""
        d = {}
        for r, m in zip(path.reactions, path.coefficients):
            d[self.cls(r)] = d.get(self.cls(r), 0.0) + float(m) * float(np.abs(r.coefficients).max())
        return frozenset(d), d


def rx_exact(es, co):
    """Coefficients recomputed exactly from the phases (the canonical key is rounded)."""
    els = sorted({el for e in es for el in e.composition.elements}, key=str)
    a = np.array([[e.composition.reduced_composition[el] for e in es] for el in els], float)
    _, s, vt = np.linalg.svd(a)
    rank = int((s > 1e-9).sum())
    if a.shape[1] - rank == 1:
        v = vt[-1]
        v = v / np.abs(v).max()
        if v @ co < 0:
            v = -v
        return v
    return co


def _comb(n, k):
    from math import comb

    return comb(n, k)
