"""The parallel operations of the package, described in JSON, for the properties that range over all of them."""
from __future__ import annotations

import copy
from collections import Counter

from dst import canon, enums, gen, rx, solve

KINDS = ["enum", "union", "filter", "compete", "chempot", "both", "solve", "net"]


# ------------------------------------------------------------------ cases
def gen_op(rng, kind=None, chem=None):
    kind = kind or rng.choice(["enum", "enum", "union", "filter", "compete", "compete", "chempot", "both", "solve", "solve", "net"])
    if kind in ("enum", "union"):
        chem = chem or gen.chemistry(rng, n_elems=(2, 3), n_comp=(2, 6))
        en = [enums.gen_enum(rng, chem, p_novel=0.0) for _ in range(1 if kind == "enum" else 2)]
        return {"op": kind, "chem": chem, "enums": en}
    if kind == "filter":
        chem = chem or gen.chemistry(rng, n_elems=(2, 4), n_comp=(3, 8), polymorphs=0.3)
        b = rx.basic(rng, chem, rng.choice([2, 4, 8]))
        rs = rx.variants(rng, b, len(b) + rng.choice([2, 8, 20])) if b else []
        return {"op": kind, "chem": chem, "rxns": rs, "ensure": rng.choice([0, 0, 1, 3])}
    if kind in ("compete", "chempot", "both"):
        return gen_compete(rng, kind, chem)
    if kind == "net":
        chem = chem or gen.chemistry(rng, n_elems=(2, 3), n_comp=(3, 6), interp=0.0)
        return {"op": kind, "chem": chem, "rxns": rx.basic(rng, chem, 12, max_size=4), "k": rng.choice([1, 3, 5]),
                "pick": [rng.randrange(10000) / 10000 for _ in range(3)]}
    while True:
        c = solve.gen_solve(rng, n_comp=(3, 5))
        if c is not None:
            if c["find"] or c["n"] > 3:  # keep the number of combinations, and of chunks, moderate
                c["n"] = min(c["n"], 2 if c["find"] and c["basic"] else 3)
                c["chunk"] = {1: 11, 2: 37, 3: 100, 7: 300}.get(c["chunk"], c["chunk"])
            return {"op": kind, **c}


def gen_compete(rng, kind, chem=None):
    """Reactions from a small enumeration, a target among the compounds, and the settings of the competition job."""
    own = chem is None
    for _ in range(50):
        if own:
            chem = gen.chemistry(rng, n_elems=(2, 3) if rng.random() < 0.7 or kind == "compete" else (3, 4), n_comp=(2, 5) if kind == "compete" else (1, 4),
                                 exp=0.1, interp=0.0, polymorphs=0.2)
        els = gen.elems(chem)
        oe = ("O" if "O" in els else rng.choice(els)) if rng.random() < 0.4 else None
        fs = gen.comps(chem, elements=False)
        if fs and (oe is None or len(els) >= 3 or kind == "compete"):
            break
    en = []
    for k in rng.choice([["basic"], ["gibbs"], ["basic", "gibbs"], ["basic", "gibbs"]]):
        en.append({"kind": k, "n": 2, "chunk_size": 2500} if k == "basic" else {"kind": k, "chunk_size": 2500})
    if oe and rng.random() < 0.7:
        en.append(rng.choice([{"kind": "open", "n": rng.choice([1, 2]) if len(chem["ents"]) < 8 else 1, "chunk_size": 2500,
                               "open_phases": [gen.gas(oe)]},
                              {"kind": "grand", "chunk_size": 2500, "open_elem": oe, "mu": round(-rng.uniform(0, 1), 3)}]))
    if rng.random() < 0.5:
        t = rng.choice(fs)
        for e in en:
            if rng.random() < 0.3:
                e["targets"] = [t]
    else:
        t = rng.choice(fs)
    return {"op": kind, "chem": chem, "enums": en, "target": t, "open": [oe, round(-rng.uniform(0, 1.0), 3)] if oe else None,
            "chunk": rng.choice([1, 2, 3, 5, 10, 100]), "split": rng.random() < 0.3,
            "cpd": rng.choice([{}, {}, {}, {"mu_func": rng.choice(["sum", "mean", "max"])}, {"name": "cpd"}, {"default_min_limit": rng.choice([-4.0, -15.0, -40.0])}])}


# ------------------------------------------------------------------ running
class Op:
    """Inputs of one operation (caller-owned objects) and the call itself."""

    def __init__(self, spec, entries=None):
        from rxn_network.entries.entry_set import GibbsEntrySet
        from rxn_network.reactions.reaction_set import ReactionSet

        self.spec = spec
        k = spec["op"]
        self.kind = k
        self.inputs = {}
        self.ok = True
        if k == "solve":
            st = solve.setup(spec)
            if st is None:
                self.ok = False
                return
            es, ps, net, cf, _ = st
            self.inputs = {"entries": es, "pathways": ps, "net": net}
            self.cf = cf
            if spec.get("own"):  # the caller keeps the solver and solves with it again
                self.inputs["solver"] = solve.solver(spec, es, ps, cf)
            return
        ents = entries or gen.build_entries(spec["chem"])
        self.ents = ents
        if k in ("enum", "union"):
            self.inputs = {"entries": GibbsEntrySet(ents), "enums": [enums.make_enum(e) for e in spec["enums"]]}
        elif k == "filter":
            rxns = rx.build(spec["rxns"], rx.by_u(spec["chem"], ents))
            if not rxns:
                self.ok = False
                return
            self.inputs = {"rxns": ReactionSet.from_rxns(rxns, entries=ents), "ensure": rxns[:spec["ensure"]]}
        elif k == "net":
            rxns = rx.build(spec["rxns"], rx.by_u(spec["chem"], ents))
            if not rxns:
                self.ok = False
                return
            self.inputs = {"rxns": [ReactionSet.from_rxns(rxns)]}
            self.precursors, self.target = pick_net(rxns, spec["pick"])
        else:
            es = GibbsEntrySet(ents)
            sets = competition_sets(spec, es)
            if sets is None:
                self.ok = False
                return
            self.inputs = {"entries": es, "rxn_sets": sets}
            if spec.get("own"):
                self.inputs["maker"] = maker(spec)

    def call(self):
        from rxn_network.enumerators.utils import run_enumerators

        k, i, s = self.kind, self.inputs, self.spec
        if k == "enum":
            return i["enums"][0].enumerate(i["entries"])
        if k == "union":
            return run_enumerators(i["enums"], i["entries"])
        if k == "filter":
            return i["rxns"].filter_duplicates(ensure_rxns=i["ensure"] or None)
        if k == "solve":
            return solve.solve(s, i.get("solver") or solve.solver(s, i["entries"], i["pathways"], self.cf), i["net"])
        if k == "net":
            return network_op(i["rxns"], self.precursors, self.target, s["k"])
        return competition_op(s, i["rxn_sets"], i["entries"], i.get("maker"))

    def key(self, v):
        """Order-free value of a result."""
        k = self.kind
        if k in ("enum", "union"):
            c = canon.multiset(list(v))
            if k == "enum" and self.spec["enums"][0]["kind"] in ("gibbs", "grand"):
                return frozenset(c)
            return frozenset(c.items())
        if k == "filter":
            return frozenset(Counter(canon.rxn_key(r, normalise=False) + (canon.fp(r.data),) for r in v).items())
        if k == "solve":
            return frozenset(Counter(path_key(p) for p in v.paths).items())
        if k == "net":
            return v
        return frozenset(Counter(scored_key(r) for r in v.rxns).items())

    def fingerprint(self):
        """Everything the caller owns."""
        out = {}
        for n, v in self.inputs.items():
            out[n] = fp_input(v)
        return out


def competition_sets(spec, es):
    """Reaction sets as the enumeration job would provide them (fault-free)."""
    from dst import base
    from rxn_network.enumerators.utils import run_enumerators

    ens = [enums.make_enum(e) for e in spec["enums"]]

    def go():
        if spec["split"]:
            return [e.enumerate(es) for e in ens]
        return [run_enumerators(ens, es)]

    r = base.Run(base.REF_SPEC, go)
    return r.value if r.ok else None


def maker(spec, chunk=None):
    from rxn_network.jobs.core import CalculateCompetitionMaker

    oe, mu = spec["open"] or (None, 0.0)
    return CalculateCompetitionMaker(open_elem=oe, chempot=mu, calculate_competition=spec["op"] in ("compete", "both"),
                                     calculate_chempot_distances=spec["op"] in ("chempot", "both"),
                                     chunk_size=chunk or spec["chunk"], cpd_kwargs=dict(spec["cpd"]))


def competition_op(spec, sets, es, m=None):
    m = m or maker(spec)
    return type(m).make.original(m, sets, es, spec["target"])


def network_op(sets, precursors, target, k):
    from rxn_network.costs.functions import Softplus
    from rxn_network.jobs.core import NetworkMaker

    m = NetworkMaker(cost_function=Softplus(300), precursors=precursors, targets=[target], calculate_pathways=k)
    doc = type(m).make.original(m, sets)
    return net_key(doc)


def net_key(doc):
    ps = doc.paths.paths if doc.paths is not None else []
    return (frozenset(canon.multiset(doc.network.rxns).items()),
            tuple((tuple(canon.rxn_key(r) for r in p.reactions), tuple(canon.q(c, 8) for c in p.costs)) for p in ps))


def pick_net(rxns, pick):
    """Precursors and a target that occur in the reactions."""
    r = rxns[int(pick[0] * len(rxns))]
    pre = sorted({e.composition.reduced_formula for e in r.reactant_entries})
    prods = sorted({e.composition.reduced_formula for x in rxns for e in x.product_entries} - set(pre))
    if not prods:
        prods = sorted({e.composition.reduced_formula for e in r.product_entries})
    return pre, prods[int(pick[1] * len(prods))]


def scored_key(r):
    d = {k: (canon.q(v, 4) if isinstance(v, float) else canon.fp(v)) for k, v in r.data.items()}
    return canon.rxn_key(r) + (tuple(sorted(d.items(), key=lambda x: x[0])),)


def path_key(p):
    return (frozenset((canon.rxn_key(r), canon.q(float(m) * float(abs(r.coefficients).max()), 5), canon.q(c, 6))
                      for r, m, c in zip(p.reactions, p.coefficients, p.costs)), len(p.reactions))


# ------------------------------------------------------------------ fingerprints of caller-owned objects
def fp_input(v):
    n = type(v).__name__
    if n == "GibbsEntrySet":
        return canon.fp_eset(v)
    if n == "ReactionSet":
        return canon.fp_rset(v)
    if n in ("ComputedReaction", "OpenComputedReaction"):
        return canon.fp_rxn(v)
    if n == "PathwaySet":
        return ("pset", canon.fp_rset(v.reaction_set), canon.fp(v.indices), canon.fp(v.coefficients), canon.fp(v.costs),
                tuple(tuple(canon.fp_rxn(r) for r in p.reactions) for p in v.paths))
    if isinstance(v, list):
        return tuple(fp_input(x) for x in v)
    if n == "PathwaySolver":
        return ("solver", fp_input(v.pathways), canon.fp_eset(v.entries), tuple(canon.fp_rxn(r) for r in v.reactions), canon.fp(list(v.costs)),
                v.num_rxns, v.num_entries, canon.fp(v.cost_function), str(v.open_elem), v.chempot, v.chunk_size, v.batch_size)
    if "Maker" in n:
        return (n, canon.fp(vars(v)))
    if "Enumerator" in n:
        return (n, canon.fp({k: x for k, x in v.__dict__.items() if k != "logger"}))
    return canon.fp(v)


def shrink(spec):
    """Smaller variants of an operation."""
    s = spec
    for i in range(len(s.get("enums", []))):
        if len(s["enums"]) > 1:
            d = copy.deepcopy(s)
            del d["enums"][i]
            if d["op"] == "union" and len(d["enums"]) == 1:
                d["op"] = "enum"
            yield d
        for k in list(s["enums"][i]):
            if k not in ("kind", "open_phases", "open_elem", "mu", "n"):
                d = copy.deepcopy(s)
                del d["enums"][i][k]
                yield d
    if "rxns" in s and s["op"] in ("filter", "net"):
        n = len(s["rxns"])
        step = max(1, n // 2)
        while n > 1:
            for i in range(0, n, step):
                d = copy.deepcopy(s)
                del d["rxns"][i:i + step]
                if d["rxns"]:
                    yield d
            if step == 1:
                break
            step //= 2
    m = len(s["chem"]["ents"])
    step = max(1, m // 2)
    while m > 1:
        for i in range(0, m, step):
            d = copy.deepcopy(s)
            del d["chem"]["ents"][i:i + step]
            if d["chem"]["ents"]:
                yield d
        if step == 1:
            break
        step //= 2
    if s["op"] == "solve":
        for k, v in (("pick", None), ("open", None), ("filter", False), ("mini", False), ("basic", False), ("find", False),
                     ("chunk", 100000), ("batch", None), ("n", 1), ("n", 2)):
            if k in s and s[k] != v and not (k == "n" and s[k] < v):
                yield {**copy.deepcopy(s), k: v}
    if s["op"] in ("compete", "chempot", "both"):
        for k, v in (("open", None), ("split", False), ("cpd", {}), ("chunk", 100), ("chunk", 2)):
            if s[k] != v:
                yield {**copy.deepcopy(s), k: v}
