"""Canonical forms and deep fingerprints, used by the oracles to compare by value."""
from __future__ import annotations

from collections import Counter

import numpy as np


def q(x, nd=6):
    """Rounded number; the offset keeps exactly representable half-steps off the boundary."""
    if x is None:
        return None
    x = float(x)
    if x != x:
        return "nan"
    if x in (float("inf"), float("-inf")):
        return str(x)
    return int(np.floor(x * 10**nd + 0.3717))


def comp_key(c):
    return tuple(sorted((str(el), round(float(n), 6)) for el, n in c.items()))


def entry_key(e):
    t = getattr(e, "temperature", None)
    return (type(e).__name__, comp_key(e.composition), q(e.energy, 5), str(e.entry_id), None if t is None else q(t, 3))


def phase_key(c):
    return c.reduced_formula


def rxn_key(r, normalise=True, energy=False, nd=6):
    """Order-free key of a reaction over entries; positive multiples coincide if normalise."""
    co = np.array(r.coefficients, dtype=float)
    s = np.abs(co).max() if len(co) else 1.0
    if not normalise or s == 0:
        s = 1.0
    terms = Counter()
    for e, c in zip(r.entries, co / s):
        terms[entry_key(e)] += float(c)
    k = (type(r).__name__, tuple(sorted((a, q(b, nd)) for a, b in terms.items())))
    if hasattr(r, "chempots"):
        k += (tuple(sorted((str(a), q(b)) for a, b in r.chempots.items())),)
    if energy:
        k += (q(r.energy_per_atom, 5),)
    return k


def sides_key(r):
    return (tuple(sorted(entry_key(e) for e in r.reactant_entries)), tuple(sorted(entry_key(e) for e in r.product_entries)))


def multiset(rxns, **kw):
    return Counter(rxn_key(r, **kw) for r in rxns)


def diff(a: Counter, b: Counter, show=3):
    """'' if equal, else a short description of got-vs-want."""
    if a == b:
        return ""
    extra, missing = a - b, b - a
    return (f"got {sum(a.values())}, want {sum(b.values())}; extra {sum(extra.values())}: {_short(extra, show)}; "
            f"missing {sum(missing.values())}: {_short(missing, show)}")


def _short(c, n):
    return "; ".join(f"{k_str(k)} x{v}" for k, v in sorted(c.items(), key=lambda x: repr(x[0]))[:n])


def k_str(k):
    try:
        return " + ".join(f"{v / 1e6:.4g} {''.join(f'{a}{b:g}' for a, b in e[1])}[{e[3]}]" for e, v in k[1])
    except Exception:
        return repr(k)[:300]


# ------------------------------------------------------------------ fingerprints
SKIP = {"_hash", "logger", "_cached"}


def fp(o, depth=0, seen=None):
    """Deep, order-exact fingerprint of observable value of common objects."""
    if depth > 14:
        return "..."
    if o is None or isinstance(o, (bool, int, str, bytes)):
        return o
    if isinstance(o, float):
        return repr(o)
    if isinstance(o, (np.floating, np.integer, np.bool_)):
        return repr(o.item())
    if isinstance(o, np.ndarray):
        return ("nd", o.shape, str(o.dtype), tuple(fp(x, depth + 1) for x in o.ravel().tolist()))
    if isinstance(o, dict):
        return ("d", tuple(sorted(((repr(fp(k, depth + 1)), fp(v, depth + 1)) for k, v in o.items()), key=lambda x: x[0])))
    if isinstance(o, (set, frozenset)):
        return ("s", tuple(sorted((repr(fp(x, depth + 1)) for x in o))))
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, tuple(fp(x, depth + 1) for x in o))
    n = type(o).__name__
    if n == "Composition":
        return ("C", comp_key(o))
    if n in ("Element", "Species", "DummySpecies"):
        return ("E", str(o))
    if isinstance(o, type):
        return ("T", o.__name__)
    if n == "DataFrame":
        return ("DF", tuple(o.columns), tuple(fp(r, depth + 1) for r in o.values.tolist()))
    d = getattr(o, "__dict__", None)
    if d is not None:
        return (n, tuple(sorted(((k, fp(v, depth + 1)) for k, v in d.items() if k not in SKIP and not callable(v)),
                                key=lambda x: x[0])))
    return (n, repr(o))


def fp_entry(e):
    """Everything an entry holds that a user can observe (caches left out)."""
    d = {k: v for k, v in e.__dict__.items()}
    return ("entry", type(e).__name__, comp_key(e.composition), repr(float(e.energy)), repr(float(e.correction)),
            str(e.entry_id), fp(getattr(e, "temperature", None)), fp(getattr(e, "volume_per_atom", None)),
            fp(getattr(e, "formation_energy_per_atom", None)), fp(d.get("data")), fp(d.get("parameters")),
            tuple((type(a).__name__, a.name, repr(float(a.value)), repr(float(a.uncertainty))) for a in e.energy_adjustments))


def fp_rxn(r, entries=True):
    return ("rxn", type(r).__name__, tuple(fp_entry(e) for e in r.entries) if entries else tuple(map(entry_key, r.entries)),
            tuple(repr(float(c)) for c in r.coefficients), fp(r.data), r.lowest_num_errors,
            fp(getattr(r, "chempots", None)))


def fp_rset(s):
    return ("rset", tuple(fp_entry(e) for e in s.entries),
            fp({k: v for k, v in s.indices.items()}), fp({k: v for k, v in s.coeffs.items()}),
            fp({k: list(v) for k, v in s.all_data.items()}), str(s.open_elem), fp(s.chempot), fp(s.mu_dict))


def fp_eset(s):
    return ("eset", tuple(sorted((fp_entry(e) for e in s.entries), key=repr)), s.calculate_e_above_hulls, s.minimize_obj_size)


def first_diff(a, b, path=""):
    """Where two fingerprints differ (for messages)."""
    if type(a) is not type(b):
        return f"{path}: {str(a)[:120]} != {str(b)[:120]}"
    if isinstance(a, tuple):
        if len(a) != len(b):
            return f"{path}: length {len(a)} != {len(b)}"
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                nm = f"{path}/{x[0] if isinstance(x, tuple) and x and isinstance(x[0], str) else i}"
                return first_diff(x, y, nm)
        return ""
    return f"{path}: {str(a)[:160]} != {str(b)[:160]}" if a != b else ""
