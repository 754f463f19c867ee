"""Seams other than the cluster: numerical library calls and other places where a failure can be injected."""
from __future__ import annotations

import contextlib
import sys


class CallFaults:
    """Replaces library callables wherever modules refer to them by a counted wrapper that can fail.

    `targets` are (module, name) pairs. Inside `plan(at, exc)` the at-th call raises exc.
    """

    def __init__(self, targets, where=("rxn_network", "pymatgen")):
        self.count = 0
        self.at = None
        self.exc = None
        self.fired = 0
        self.undo = []
        for mod, name in targets:
            orig = getattr(sys.modules[mod], name)
            wrapped = self._wrap(orig)
            for m in list(sys.modules.values()):
                mn = getattr(m, "__name__", "")
                if not isinstance(mn, str) or not mn.startswith(where):
                    continue
                for k, v in list(vars(m).items()):
                    if v is orig:
                        setattr(m, k, wrapped)
                        self.undo.append((m, k, orig))

    def _wrap(self, orig):
        def call(*a, **kw):
            self.count += 1
            if self.at is not None and self.count == self.at:
                self.fired += 1
                raise self.exc()
            return orig(*a, **kw)

        call.__name__ = getattr(orig, "__name__", "call")
        call.__wrapped__ = orig
        return call

    @contextlib.contextmanager
    def plan(self, at, exc):
        self.count, self.at, self.exc = 0, at, exc
        try:
            yield self
        finally:
            self.at = None

    def close(self):
        for m, k, orig in self.undo:
            setattr(m, k, orig)


def qhull_error():
    from scipy.spatial import QhullError

    return QhullError("simulated: QH6154 initial simplex is flat")


EXC = {"qhull": qhull_error, "memory": lambda: MemoryError("simulated"), "value": lambda: ValueError("simulated"),
       "interrupt": lambda: KeyboardInterrupt("simulated")}
