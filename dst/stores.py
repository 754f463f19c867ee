"""Simulated document stores: real query language (mongomock), with faults, crashes and arbitrary document order."""
from __future__ import annotations

import copy
import random

from maggma.stores import MemoryStore


class StoreError(Exception):
    """A failure reported by the (simulated) database."""


class Crash(BaseException):
    """The process is gone."""


class SimStore(MemoryStore):
    """A MemoryStore whose n-th operation can fail.

    plan: list of {"on": "query"|"doc"|"update", "at": n, "how": "error"|"crash"|"lost_ack"|"torn"}; counted per store
    from the last `arm`. `hook(n)` runs before the n-th document of any cursor is handed out."""

    def __init__(self, *a, seed=0, **k):
        super().__init__(*a, **k)
        self.seed = seed
        self.arm([])

    def arm(self, plan, hook=None):
        self.plan = list(plan)
        self.n = {"query": 0, "doc": 0, "update": 0}
        self.hook = hook
        self.fired = []
        self.after_fault = 0
        self.rng = random.Random(self.seed)

    def connect(self, force_reset=False):
        if self._coll is None:  # the database outlives connections
            super().connect()

    def _hit(self, on):
        self.n[on] += 1
        for p in self.plan:
            if p["on"] == on and p["at"] == self.n[on]:
                self.fired.append(f"store_{on}_{p['how']}")
                return p["how"]
        return None

    def _raise(self, how):
        if how == "crash":
            raise Crash
        raise StoreError("simulated: connection to the database was lost")

    def query(self, criteria=None, properties=None, sort=None, **kw):
        how = self._hit("query")
        if how:
            self._raise(how)
        docs = [copy.deepcopy(d) for d in super().query(criteria, properties=properties, sort=sort, **kw)]
        if not sort:
            self.rng.shuffle(docs)

        def cursor():
            for d in docs:
                if self.hook:
                    self.hook(self.n["doc"] + 1)
                how = self._hit("doc")
                if how:
                    self._raise(how)
                yield d

        return cursor()

    def update(self, docs, key=None):
        how = self._hit("update")
        docs = docs if isinstance(docs, list) else [docs]
        if how in ("lost_ack", "crash_after"):
            super().update(docs, key=key)
        elif how == "torn" and len(docs) > 1:
            super().update(docs[: len(docs) // 2], key=key)
        if how:
            self._raise("crash" if how.startswith("crash") else how)
        super().update(docs, key=key)

    def dump(self):
        """Everything durable, as JSON-compatible data."""
        out = []
        for d in MemoryStore.query(self, {}):
            d = dict(d)
            d.pop("_id", None)
            out.append(d)
        return out

    def load(self, docs):
        self.connect()
        if docs:
            self._collection.insert_many(copy.deepcopy(docs))
