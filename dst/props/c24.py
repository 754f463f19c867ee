"""C24: answers of an interface reaction hull depend on its reactions alone."""
from __future__ import annotations

import copy
import itertools
import json
import random
import sys
import warnings

from dst import base, canon, gen, hull, kernel, rx
from dst.props import c09, c23

QUICK = 3000
THOROUGH = 60000
RULE = ("A case is an interface of two phases with 1-20 reactions between them (closed or open to an element, some of one phase only, some "
        "uphill) built into a hull, and 1-3 threads that each ask it 2-10 questions in some order (coordinates, energies of and above "
        "the hull, reactions at a coordinate, competition scores in all their variants, decomposition energies, stable and unstable "
        "reactions), repeat some, save and restore the hull on the way, while the caller goes on using the list the hull was made from. "
        "Switches happen at seeded statement boundaries; in some cases a failure (out of memory, interrupt) is raised at a seeded "
        "statement, or the numerical library fails. Every answer must be the one computed from coordinates and energies alone, and "
        "the reactions stay as they were. Non-trivial: several threads, a failure, a restore or a repeated question.")
REAL = ["InterfaceReactionHull", "ComputedReaction, OpenComputedReaction", "scipy ConvexHull"]
STUB = ["thread scheduling (one runs at a time, switches at line events), failures raised at line events"]
ASSUME = ["where points of a hull lie on a line to within rounding there is no verdict"]
FILES = ("rxn_network/reactions",)
TOL = 3e-6


def make(rng, tier):
    for _ in range(60):
        mu = None
        if rng.random() < 0.4:
            chem = c09.ladder(rng)
            chem["ents"] = chem["ents"][:]
            pre = chem["ents"][:2]
        else:
            chem = gen.chemistry(rng, n_elems=(2, 3), n_comp=(4, 8), interp=0.0, exp=0.0, polymorphs=0.0, exchange=0.0, data=0.0)
            pre = rng.sample(chem["ents"], 2)
            els = gen.elems(chem)
            if len(els) == 3 and rng.random() < 0.3:
                mu = ("O" if "O" in els and rng.random() < 0.7 else rng.choice(els), round(rng.uniform(-2, 0.3), 3))
                if any(set(p["c"]) <= {mu[0]} for p in pre):
                    continue
        a, b = pre
        if gen.rkey(a["c"]) == gen.rkey(b["c"]):
            continue
        els = gen.elems(chem)
        rest = [e for e in chem["ents"] if e not in pre]
        opened = [e for e in rest if mu and set(e["c"]) == {mu[0]}]
        rest = [e for e in rest if e not in opened]
        rs = []
        for sides in ([a, b], [a, b], [a], [b]):
            for n in (1, 2, 3):
                for ps in itertools.combinations(rest, n):
                    for o in ([], opened[:1]):
                        sub = [*sides, *ps, *o]
                        if len(sub) > len(els) + 1 or len({gen.rkey(e["c"]) for e in sub}) < len(sub):
                            continue
                        c = rx.solve(sub, els)
                        if c is None:
                            continue
                        k = len(sides)
                        if c[0] > 0:
                            c = -c
                        if all(x < 0 for x in c[:k]) and all(x > 0 for x in c[k:k + n]):
                            rs.append({"e": [e["u"] for e in sub], "c": [float(x) for x in c]})
        uniq = {}
        for r in rs:
            uniq.setdefault(frozenset(r["e"]), r)
        rs = list(uniq.values())
        used = {u for r in rs for u, c in zip(r["e"], r["c"]) if c < 0}
        if not {a["u"], b["u"]} <= used:
            continue
        rng.shuffle(rs)
        rs = rs[:rng.choice([1, 2, 4, 8, 14, 20])]
        if {a["u"], b["u"]} <= {u for r in rs for u, c in zip(r["e"], r["c"]) if c < 0}:
            break
    n = len(rs)

    def ask():
        k = rng.choice(["coord", "above", "at", "at", "mix", "mix", "primary", "primary", "secondary", "secondary", "secondary", "secondary",
                        "maxdec", "dec", "dec", "area", "stable", "unstable", "restore"])
        q = {"k": k, "i": rng.randrange(n)}
        if k in ("at", "mix"):
            q["x"] = round(rng.random(), 6) if rng.random() < 0.7 else rng.choice([0.0, 1.0])
        if k == "dec":
            q["j"] = rng.randrange(-2, n)
        if k == "secondary":
            q.update(norm=rng.random() < 0.7, above=rng.random() < 0.3, rec=rng.random() < 0.35)
        if k == "area" and rng.random() < 0.3:
            q["qhull"] = True
        return q

    th = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        qs = []
        for _ in range(rng.randint(2, 10)):
            qs.append(copy.deepcopy(rng.choice(qs)) if qs and rng.random() < 0.2 else ask())
        th.append(qs)
    c = {"chem": chem, "pre": [a["u"], b["u"]], "mult": [rng.choice([1, 1, 2]), rng.choice([1, 1, 3])], "mu": mu, "rs": rs, "th": th,
         "late": rng.random() < 0.4, "tseed": rng.randrange(10**6), "preempt": rng.choice([0.02, 0.1, 0.3])}
    if rng.random() < 0.35:
        c["boom"] = {"t": rng.randrange(len(th)), "at": rng.choice([rng.randint(1, 60), rng.randint(1, 400), rng.randint(1, 2000)]),
                     "exc": rng.choice(["MemoryError", "KeyboardInterrupt"])}
    return c


class Model:
    def __init__(self, rxns, a, b):
        self.xy = [(hull.coordinate(r, a, b), rx.energy_of(r)) for r in rxns]
        if any(e is None or abs(e) < 1e-5 for _, e in self.xy):
            raise hull.Unclear
        self.pts = [*self.xy, (0.0, 0.0), (1.0, 0.0)]
        for (x, y), (v, w) in itertools.combinations(self.pts, 2):
            if abs(x - v) < 1e-9 and abs(y - w) < 1e-6:
                raise hull.Unclear
        self.h = hull.lower(self.pts)

    def at(self, z):
        for (x1, y1), (x2, y2) in zip(self.h, self.h[1:]):
            if x1 - 1e-9 <= z <= x2 + 1e-9:
                return y1 + (z - x1) / (x2 - x1) * (y2 - y1)
        raise hull.Unclear

    def inside(self, lo, hi):
        """Points of the hull from lo to hi, with the pure phases where they react on alone."""
        pts = [(0.0, 0.0)] if abs(lo) < 1e-9 and abs(self.at(lo)) > 1e-7 else []
        pts.append((lo, self.at(lo)))
        pts += [p for p in self.h if lo + 1e-9 < p[0] < hi - 1e-9]
        if hi - lo > 1e-9:
            pts.append((hi, self.at(hi)))
        if abs(hi - 1.0) < 1e-9 and abs(self.at(hi)) > 1e-7:
            pts.append((1.0, 0.0))
        return sorted(pts, key=lambda p: p[0])

    def ways(self, pts):
        """(number of ways to react on, energy summed over all of them)"""
        if len(pts) > 16:
            raise hull.Unclear
        memo = {}

        def go(i, j):
            if j - i < 2:
                return 1, 0.0
            if (i, j) not in memo:
                n, e = 0, 0.0
                for k in range(i + 1, j):
                    (nl, el), (nr, er) = go(i, k), go(k, j)
                    n += nl * nr
                    e += alt(pts[i], pts[k], pts[j]) * nl * nr + el * nr + er * nl
                memo[i, j] = n, e
            return memo[i, j]

        return go(0, len(pts) - 1)

    def answer(self, q):
        x, e = self.xy[q["i"]]
        k = q["k"]
        if k == "coord":
            return x
        if k == "above":
            return e - self.at(x)
        if k in ("at", "mix"):
            return self.at(q["x"])
        if k == "primary":
            rest = [y for z, y in self.pts if abs(z - x) > 1e-10]
            return e - min(rest)
        if k == "secondary":
            (nl, el), (nr, er) = self.ways(self.inside(0.0, x)), self.ways(self.inside(x, 1.0))
            v = el * nr + er * nl
            if q["norm"]:
                v /= nl * nr
            return -v + (e - self.at(x) if q["above"] else 0.0)
        if k == "maxdec":
            return -sum(min([alt(*t) for t in itertools.combinations(self.inside(*s), 3)] + [0.0]) for s in ((0.0, x), (x, 1.0)))
        if k == "dec":
            z = {-1: 0.0, -2: 1.0}[q["j"]] if q["j"] < 0 else self.xy[q["j"]][0]
            return self.ways(self.inside(*sorted((x, z))))[1]
        if k == "area":
            return sum(area(self.inside(*s)) for s in ((0.0, x), (x, 1.0)))
        low = [i for i, p in enumerate(self.xy) if any(abs(p[0] - v[0]) < 1e-9 and abs(p[1] - v[1]) < 1e-7 for v in self.h)]
        return sorted(low if k == "stable" else set(range(len(self.xy))) - set(low))


def alt(p, q, r):
    return q[1] - (p[1] + (q[0] - p[0]) / (r[0] - p[0]) * (r[1] - p[1])) if r[0] > p[0] else 0.0


def area(pts):
    """Area of the convex hull."""
    if len(pts) < 3:
        return 0.0
    pts = sorted(pts)

    def half(ps):
        h = []
        for p in ps:
            while len(h) > 1 and (h[-1][0] - h[-2][0]) * (p[1] - h[-2][1]) - (h[-1][1] - h[-2][1]) * (p[0] - h[-2][0]) <= 0:
                h.pop()
            h.append(p)
        return h[:-1]

    h = half(pts) + half(pts[::-1])
    return abs(sum(p[0] * q[1] - q[0] * p[1] for p, q in zip(h, h[1:] + h[:1]))) / 2


def pose(h, q, rxns, mine, res):
    """Ask hull `h`; `mine` maps reactions to their numbers."""
    r = rxns[q["i"]]
    k = q["k"]
    if k == "coord":
        return h.get_coordinate(r)
    if k == "above":
        return h.get_energy_above_hull(r)
    if k == "at":
        return h.get_hull_energy(q["x"])
    if k == "mix":
        m = h.get_reactions_by_coordinate(q["x"])
        if abs(sum(m.values()) - 1) > 1e-9 or not all(-1e-9 <= w <= 1 + 1e-9 for w in m.values()):
            return f"weights {sorted(m.values())}"
        x = sum(w * h.get_coordinate(x) for x, w in m.items())
        return sum(w * x.energy_per_atom for x, w in m.items()) if abs(x - q["x"]) < 1e-5 else f"reactions meeting at {x} instead of {q['x']}"
    if k == "primary":
        return h.get_primary_competition(r)
    if k == "secondary":
        return h.get_secondary_competition(r, normalize=q["norm"], include_e_hull=q["above"], recursive=q["rec"])
    if k == "maxdec":
        return h.get_secondary_competition_max_energy(r)
    if k == "dec":
        return h.get_decomposition_energy(h.get_coordinate(r), {-1: 0.0, -2: 1.0}[q["j"]] if q["j"] < 0 else h.get_coordinate(rxns[q["j"]]))
    if k == "area":
        return h.get_secondary_competition_area(r)
    got = [canon.rxn_key(x) for x in (h.stable_reactions if k == "stable" else h.unstable_reactions)]
    ends = len([x for x in got if x not in mine])
    if ends > 2:
        return f"{ends} unknown reactions"
    out = sorted(mine[x] for x in got if x in mine)
    return out if len(set(out)) == len(out) else f"repeats {out}"


def run(case):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return _run(case, base.Res())


def _run(case, res):
    from monty.json import MontyDecoder, MontyEncoder
    from rxn_network.core import Composition
    from rxn_network.reactions.hull import InterfaceReactionHull

    chem = case["chem"]
    ents = rx.by_u(chem, gen.build_entries(chem))
    mu = case["mu"] or (None, None)
    rxns = rx.build(case["rs"], ents, *mu)
    a, b = (ents[u].composition for u in case["pre"])
    try:
        m = Model(rxns, a.reduced_formula, b.reduced_formula)
        want = []
        for qs in case["th"]:
            want.append([None if q["k"] == "restore" else m.answer(q) for q in qs])
    except hull.Unclear:
        res.skipped += 1
        return res
    mine = {canon.rxn_key(r): i for i, r in enumerate(rxns)}
    if len(mine) < len(rxns):
        res.skipped += 1
        return res
    before = [c23.value(r) for r in rxns]
    given = list(rxns)
    try:
        first = InterfaceReactionHull(Composition(a) * case["mult"][0], Composition(b) * case["mult"][1], given)
    except Exception as e:
        if type(e).__name__ == "QhullError" and all(abs(y) < 1e-3 for _, y in m.xy):  # too flat for the library
            res.skipped += 1
            return res
        res.bad("refused", f"{len(rxns)} reactions between {a.reduced_formula} and {b.reduced_formula}: {base.describe(e)}")
        return res
    if [id(x) for x in given] != [id(x) for x in rxns]:
        res.bad("caller", "the list of reactions given by the caller was changed")
        return res
    if case["late"]:
        random.Random(case["tseed"]).shuffle(given)
        del given[1:]
    cl = kernel.use({"seed": 1, "cpus": 1, "mode": "fifo"})
    th = c23.Threads(cl, case["tseed"], case["preempt"] if len(case["th"]) > 1 or case.get("boom") else 0.02, FILES)
    th.boom = case.get("boom")
    got = [[] for _ in case["th"]]

    def body(t):
        def f():
            h = first
            for q in case["th"][t]:
                sys.settrace(th._trace)
                v, err, hit = None, None, th.fired
                try:
                    if q["k"] == "restore":
                        h = MontyDecoder().process_decoded(json.loads(json.dumps(h, cls=MontyEncoder)))
                    else:
                        v = pose(h, q, rxns, mine, res)
                except (Exception, KeyboardInterrupt) as e:
                    err = e
                got[t].append((v, err, hit is None and th.fired is not None and case["boom"]["t"] == t))
        return f

    slots = th.run([body(t) for t in range(len(case["th"]))])
    for s in slots:
        if s.error is not None:
            raise s.error
    res.fire("preemption", th.preemptions)
    if th.fired:
        res.fire("failure_" + case["boom"]["exc"])
    n = sum(1 for qs in case["th"] for q in qs if q["k"] == "restore")
    res.fire("crash_restore", n)
    res.probe("vertices", len(m.h))
    res.probe("reacting_alone", sum(1 for p in m.h if p[0] in (0.0, 1.0) and p[1] < 0))
    res.nontrivial = len(case["th"]) > 1 or th.fired is not None or n > 0 or len(case["th"][0]) > 2
    res.steps += th.points
    res.execs += 1
    res.sigs.append(repr((th.order, th.points, th.fired, [[q["k"] for q in qs] for qs in case["th"]])))
    boom = f"; a {case['boom']['exc']} was raised in {th.fired}" if th.fired else ""
    for t, vs in enumerate(got):
        for i, (v, err, hit) in enumerate(vs):
            q = case["th"][t][i]
            w = want[t][i]
            where = f"thread {t} of {len(got)}, after {[x['k'] for x in case['th'][t][:i]]}: {q}{boom}"
            if err is not None:
                if hit or q["k"] == "area" and w < 1e-3 and type(err).__name__ == "QhullError":
                    continue
                res.bad("failed", f"{where}: {type(err).__name__}: {str(err)[:200]} @ {base.where(err)}")
                return res
            if w is None:
                continue
            if isinstance(w, list) or isinstance(v, str):
                ok = v == w
            else:
                ok = v is not None and abs(v - w) <= (1e-4 if q["k"] == "area" else TOL) * max(1.0, abs(w))
            if not ok:
                res.bad("wrong", f"{where}: {v}; from coordinates and energies {w} (reaction at {m.xy[q['i']]}, hull {[(round(x, 5), round(y, 5)) for x, y in m.h]})")
                return res
    after = [c23.value(r) for r in rxns]
    if not all(c23.close(x, y) for x, y in zip(after, before)):
        res.bad("altered", f"the reactions were altered{boom}: {next(c23.differ(x, y) for x, y in zip(after, before) if not c23.close(x, y))}")
    return res


def shrink(case):
    if "boom" in case:
        d = copy.deepcopy(case)
        del d["boom"]
        yield d
    for t in range(len(case["th"])):
        if len(case["th"]) > 1:
            d = copy.deepcopy(case)
            del d["th"][t]
            if "boom" in d:
                if d["boom"]["t"] == t:
                    del d["boom"]
                elif d["boom"]["t"] > t:
                    d["boom"]["t"] -= 1
            yield d
        for i in range(len(case["th"][t])):
            if len(case["th"][t]) > 1:
                d = copy.deepcopy(case)
                del d["th"][t][i]
                yield d
    for i in reversed(range(len(case["rs"]))):
        ask = [q for qs in case["th"] for q in qs]
        if any(i in (q["i"], q.get("j")) for q in ask if q["k"] not in ("at", "mix", "stable", "unstable", "restore")):
            continue
        d = copy.deepcopy(case)
        del d["rs"][i]
        if not set(d["pre"]) <= {u for r in d["rs"] for u, c in zip(r["e"], r["c"]) if c < 0}:
            continue
        for qs in d["th"]:
            for q in qs:
                for k in ("i", "j"):
                    if k in q and q[k] > i:
                        q[k] -= 1
                q["i"] = min(q["i"], len(d["rs"]) - 1)
        yield d
    if case["late"]:
        yield {**copy.deepcopy(case), "late": False}
    if case["mult"] != [1, 1]:
        yield {**copy.deepcopy(case), "mult": [1, 1]}
