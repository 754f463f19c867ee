"""Competition scores of one reaction among those on an interface, from coordinates and energies alone."""
from functools import lru_cache

from dst import rx


class Unclear(Exception):
    """Points so close to a common line that the hull depends on rounding."""


def coordinate(r, a, b):
    """Atomic fraction of precursor b among a and b (formulas); atoms of open elements do not count."""
    mu = {str(k) for k in getattr(r, "chempots", {})}
    n = {a: 0.0, b: 0.0}
    for e, c in zip(r.entries, r.coefficients):
        f = e.composition.reduced_formula
        if c < 0 and f in n:
            red = e.composition.reduced_composition
            n[f] += -c * sum(v for k, v in red.items() if str(k) not in mu)
    return round(n[b] / (n[a] + n[b]), 12)


def lower(points, tol=1e-7):
    """Vertices of the lower hull from x = 0 to x = 1, at or below zero."""
    low = {}
    for x, y in points:
        x = min((k for k in low if abs(k - x) < 1e-9), default=x)
        low[x] = min(low.get(x, 0.0 if x in (0.0, 1.0) else y), y)
    for x in low:
        if any(0 < abs(x - k) < 1e-6 for k in low):
            raise Unclear
    h = []
    for p in sorted(low.items()):
        while len(h) >= 2:
            (x1, y1), (x2, y2) = h[-2], h[-1]
            d = (y1 + (x2 - x1) / (p[0] - x1) * (p[1] - y1)) - y2  # how far the middle one lies below the others
            if abs(d) < tol:
                raise Unclear
            if d > 0:
                break
            h.pop()
        h.append(p)
    return h


def secondary(h, points, x):
    """Mean over all ways to react on from both sides of the reaction, summed over both sides (eV/atom, positive)."""

    def at(z):
        for (x1, y1), (x2, y2) in zip(h, h[1:]):
            if x1 - 1e-9 <= z <= x2 + 1e-9:
                return y1 + (z - x1) / (x2 - x1) * (y2 - y1)
        raise Unclear

    total = 0.0
    for lo, hi in ((0.0, x), (x, 1.0)):
        pts = [(0.0, 0.0)] if abs(lo) < 1e-9 and abs(at(lo)) > 1e-8 else []
        pts.append((lo, at(lo)))
        pts += [p for p in h if lo + 1e-9 < p[0] < hi - 1e-9 and p[1] <= 0]
        if hi - lo > 1e-9:
            pts.append((hi, at(hi)))
        if abs(hi - 1.0) < 1e-9 and abs(at(hi)) > 1e-8:
            pts.append((1.0, 0.0))
        pts.sort(key=lambda p: p[0])
        if len(pts) > 24:
            raise Unclear

        @lru_cache(maxsize=None)
        def ways(i, j):
            """(number of ways, energy summed over them) to split the interval between points i and j."""
            if j - i < 2:
                return 1, 0.0
            n, e = 0, 0.0
            for k in range(i + 1, j):
                (x1, y1), (x2, y2), (x3, y3) = pts[i], pts[k], pts[j]
                alt = y2 - (y1 + (x2 - x1) / (x3 - x1) * (y3 - y1))
                (nl, el), (nr, er) = ways(i, k), ways(k, j)
                n += nl * nr
                e += alt * nl * nr + el * nr + er * nl
            return n, e

        n, e = ways(0, len(pts) - 1)
        total += e / n
    return -total


def scores(rxn, rivals, a, b):
    """(primary, secondary) of rxn among the reactions between a and b, itself included."""
    pts = [(coordinate(r, a, b), rx.energy_of(r)) for r in rivals]
    if any(e is None for _, e in pts):
        raise Unclear
    x, e = coordinate(rxn, a, b), rx.energy_of(rxn)
    if any(abs(y) < 1e-7 for _, y in pts):
        raise Unclear
    rest = [y for z, y in pts if abs(z - x) > 1e-10] + [0.0 for end in (0.0, 1.0) if abs(x - end) > 1e-10]
    pts += [(0.0, 0.0), (1.0, 0.0)]
    return e - min(rest), secondary(lower(pts), pts, x)
