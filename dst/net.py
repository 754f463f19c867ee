"""Reaction networks described in JSON, and an independent executable model of them.

The model: a state is the set of phases on one side of a reaction. From the chosen precursors one can start every
reaction whose reactants are all precursors; after a reaction one can start every reaction whose reactants are among the
precursors and the products of that reaction (and not all precursors), or are exactly those products; a route is a
sequence of reactions that ends with one forming the target and never visits the same reactants or products twice.
Routes through the same sets of phases count once, at the cost of their cheapest reactions."""
from __future__ import annotations

import heapq
import itertools
import math
from collections import Counter

import numpy as np

from dst import canon, gen, rx


# ------------------------------------------------------------------ cases
def gen_net(rng, n_comp=(2, 7), max_rxns=26):
    while True:
        chem = gen.chemistry(rng, n_elems=(2, 3), n_comp=n_comp, polymorphs=0.2, units=0.2, exp=0.1, interp=0.05)
        base = rx.basic(rng, chem, rng.choice([4, 8, 14, max_rxns]), max_size=4)
        if len(base) < 2:
            continue
        rs = rx.variants(rng, base, min(max_rxns, len(base) + rng.choice([0, 0, 4, 8])), data=0.0, exact=0.3)
        if rng.random() < 0.15:  # reactions that count as equal, with costs of their own
            uv = gen.twin(rng, chem)
            if uv:
                rs += [{"e": [uv[1] if u == uv[0] else u for u in r["e"]], "c": list(r["c"])} for r in rs if uv[0] in r["e"]][:6]
                rng.shuffle(rs)
        levels = [round(rng.uniform(0, 1), 6) for _ in range(3)]
        ties = rng.random() < 0.3
        for r in rs:
            r["d"] = {"c": rng.choice(levels) if ties else round(rng.uniform(0, 1), 6)}
        return {"chem": chem, "rxns": rs, "cost": rng.choice([{"f": "soft"}, {"f": "soft", "p": ["c"]}, {"f": "soft", "p": ["c", "energy_per_atom"], "t": 800},
                                                              {"f": "soft", "p": ["c", "energy_per_atom"], "w": rng.choice([[1, 0.25], [1.5, 0.5], [2, 1]])},
                                                              {"f": "sum", "p": ["c"]}])}


def reactions(case, ents=None):
    ents = ents or gen.build_entries(case["chem"])
    return rx.build(case["rxns"], rx.by_u(case["chem"], ents)), ents


def cost_function(c):
    from rxn_network.costs.functions import Softplus, WeightedSum

    p = c.get("p")
    w = c.get("w") or ([1.0] * len(p) if p else None)
    if c["f"] == "sum":
        return WeightedSum(params=p, weights=w)
    return Softplus(temp=c.get("t", 300), params=p, weights=w)


def cost_of(c, r):
    """Cost of a reaction, computed apart from the cost functions of the package."""
    p = c.get("p") or ["energy_per_atom"]
    x = sum(w * (r.data["c"] if q == "c" else r.energy_per_atom) for q, w in zip(p, c.get("w") or [1.0] * len(p)))
    if c["f"] == "sum":
        return x
    return math.log(1 + 273 / c.get("t", 300) * math.exp(x))


def network(case, rxns):
    from rxn_network.network.network import ReactionNetwork
    from rxn_network.reactions.reaction_set import ReactionSet

    return ReactionNetwork(ReactionSet.from_rxns(rxns), cost_function(case["cost"]))


# ------------------------------------------------------------------ model
def side(entries):
    return frozenset(canon.entry_key(e) for e in entries)


class Model:
    def __init__(self, case, rxns):
        self.step = {}  # (reactants, products) -> cheapest cost
        for r in rxns:
            k = (side(r.reactant_entries), side(r.product_entries))
            c = cost_of(case["cost"], r)
            self.step[k] = min(self.step.get(k, c), c)
        self.after = {}
        for (a, b), c in self.step.items():
            self.after.setdefault(a, []).append((b, c))
        self.reactants = list(self.after)

    def starts(self, pre):
        return [a for a in self.reactants if a <= pre]

    def follow(self, pre, prod):
        return [a for a in self.reactants if (a <= pre | prod and not a <= pre) or a == prod]

    def cheapest(self, pre, target, k, limit=15000):
        """Costs of the k cheapest routes, or None if that is too much work."""
        pre = frozenset(pre)
        nxt = {p: self.follow(pre, p) for (_, p) in self.step}
        # cost still needed from a product set, ignoring repeats
        need = {p: (0.0 if target in p else math.inf) for p in nxt}
        for _ in range(len(need) + 1):
            changed = False
            for p in need:
                for a in nxt[p]:
                    for b, c in self.after[a]:
                        if c + need[b] < need[p] - 1e-15:
                            need[p] = c + need[b]
                            changed = True
            if not changed:
                break
        heap, n, out = [], itertools.count(), []

        def push(cost, rs, ps):
            p = ps[-1]
            if need[p] < math.inf:
                heapq.heappush(heap, (cost + need[p], next(n), cost, rs, ps, False))

        for a in self.starts(pre):
            for b, c in self.after[a]:
                push(c, (a,), (b,))
        work = 0
        while heap and len(out) < k:
            est, _, cost, rs, ps, done = heapq.heappop(heap)
            work += 1
            if work > limit:
                return None
            if done:
                out.append(cost)
                continue
            if target in ps[-1]:
                heapq.heappush(heap, (cost, next(n), cost, rs, ps, True))
            for a in nxt[ps[-1]]:
                if a in rs:
                    continue
                for b, c in self.after[a]:
                    if b not in ps:
                        push(cost + c, (*rs, a), (*ps, b))
        return out

    def check(self, case, paths, pre, target, k):
        """'' if these pathways (reactions and costs) are the k cheapest routes in order; None if undecided."""
        pre = frozenset(pre)
        got, seen = [], set()
        for i, p in enumerate(paths):
            rs = [side(r.reactant_entries) for r in p.reactions]
            ps = [side(r.product_entries) for r in p.reactions]
            nm = f"pathway {i} ({'; '.join(map(str, p.reactions))})"
            if not rs:
                return f"{nm} is empty"
            if len(p.costs) != len(rs):
                return f"{nm}: {len(p.costs)} costs for {len(rs)} steps"
            for r, a, b, c in zip(p.reactions, rs, ps, p.costs):
                if (a, b) not in self.step:
                    return f"{nm}: step {r} is not among the reactions"
                if abs(c - self.step[a, b]) > 1e-9:
                    return f"{nm}: step {r} costs {c}, its cheapest reaction {self.step[a, b]}"
                own = cost_of(case["cost"], r)
                if abs(own - c) > 1e-9:
                    return f"{nm}: step {r} has cost {own} but is listed at {c}"
            if not rs[0] <= pre:
                return f"{nm} does not start from the precursors"
            for j in range(1, len(rs)):
                if rs[j] not in self.follow(pre, ps[j - 1]):
                    return f"{nm}: step {j} needs phases that are neither precursors nor products of the step before"
            if target not in ps[-1]:
                return f"{nm} does not end with the target"
            if len(set(rs)) < len(rs) or len(set(ps)) < len(ps):
                return f"{nm} visits the same phases twice"
            key = tuple(zip(rs, ps))
            if key in seen:
                return f"{nm} is listed twice"
            seen.add(key)
            got.append(sum(p.costs))
        for i in range(1, len(got)):
            if got[i] < got[i - 1] - 1e-9:
                return f"pathway {i} (cost {got[i]}) is cheaper than the one before ({got[i - 1]})"
        want = self.cheapest(pre, target, k)
        if want is None:
            return None
        if len(got) != len(want):
            return f"{len(got)} pathways, {len(want)} exist (k={k}): costs {np.round(got, 5).tolist()[:8]} want {np.round(want, 5).tolist()[:8]}"
        for i, (a, b) in enumerate(zip(got, want)):
            if abs(a - b) > 1e-8:
                return f"pathway {i} costs {a}, the number {i} cheapest {b} (k={k}): got {np.round(got, 5).tolist()[:8]} want {np.round(want, 5).tolist()[:8]}"
        return ""


def split(paths, targets, model, pre, k):
    """Pathways of a call with several targets, per target."""
    want = [model.cheapest(frozenset(pre), t, k) for t in targets]
    if any(w is None for w in want):
        return None
    out, i = [], 0
    for w in want:
        out.append(paths[i:i + len(w)])
        i += len(w)
    out[-1] += paths[i:]
    return out


def check_call(case, model, paths, pre, targets, k):
    parts = split(list(paths), targets, model, pre, k)
    if parts is None:
        return None
    for t, p in zip(targets, parts):
        msg = model.check(case, p, pre, t, k)
        if msg or msg is None:
            return msg
    return ""


# ------------------------------------------------------------------ observation
def node_key(n):
    return (n.description.name, tuple(sorted(map(repr, side(n.entries)))))


def graph_key(g):
    """Order-free value of the graph: nodes, and edges with how often each occurs."""
    if g is None:
        return None
    nodes = {i: node_key(g.get_node_data(i)) for i in g.node_indices()}
    edges = Counter()
    for (a, b), d in zip(g.edge_list(), g.edges()):
        edges[nodes[a], nodes[b], d if isinstance(d, str) else repr((canon.rxn_key(d, normalise=False), canon.fp(d.data)))] += 1
    return Counter(nodes.values()), edges


def graph_diff(a, b):
    for nm, x, y in zip(("nodes", "edges"), a, b):
        if x != y:
            e, m = x - y, y - x
            return (f"{nm}: {sum(e.values())} extra {[short(k) for k in list(e)[:2]]}, "
                    f"{sum(m.values())} missing {[short(k) for k in list(m)[:2]]}")
    return ""


def short(k):
    return str(k)[:260]
