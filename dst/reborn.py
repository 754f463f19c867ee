"""Restart after a crash: a new interpreter with another hash seed, in which only what was saved survives.

One server process per hash seed imports the code under test once; each life is a process forked from it, so that nothing
but the text handed over can carry state from one life to the next, and every life starts from the same state."""
from __future__ import annotations

import importlib
import json
import os
import signal
import subprocess
import sys
import traceback

SEEDS = [1013, 987654]
_servers = {}


class LifeError(Exception):
    """An exception that ended a life: its class name, message and place."""

    def __init__(self, d):
        super().__init__(f"{d['type']}: {d['msg']} @ {d['where']}")
        self.d = d


class Server:
    def __init__(self, hashseed):
        env = dict(os.environ, PYTHONHASHSEED=str(hashseed))
        self.p = subprocess.Popen([sys.executable, "-m", "dst.reborn"], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL if not os.environ.get("DST_STDERR") else None, env=env, text=True, bufsize=1)

    def call(self, mod, fn, arg):
        self.p.stdin.write(json.dumps({"mod": mod, "fn": fn, "arg": arg}) + "\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError("the restart server ended")
        return json.loads(line)


def warm(n=len(SEEDS)):
    """Start the servers (they import while the caller goes on)."""
    for i in range(n):
        if i not in _servers:
            _servers[i] = Server(SEEDS[i])


def call(which, mod, fn, arg):
    """Result of mod.fn(arg) in a new life; raises LifeError if it raised."""
    warm()
    d = _servers[which % len(SEEDS)].call(mod, fn, arg)
    if "err" in d:
        raise LifeError(d["err"])
    return d["ok"]


def main():
    out = os.fdopen(os.dup(1), "w")
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    sys.stdout = open(os.devnull, "w")
    import warnings

    warnings.simplefilter("ignore")
    importlib.import_module("dst.preload")
    for line in sys.stdin:
        req = json.loads(line)
        pid = os.fork()
        if pid == 0:
            signal.alarm(90)
            try:
                importlib.import_module(req["mod"])
                r = {"ok": getattr(sys.modules[req["mod"]], req["fn"])(req["arg"])}
                s = json.dumps(r, default=str)
            except BaseException as e:
                from dst import base

                s = json.dumps({"err": {"type": type(e).__name__, "msg": str(e)[:400], "where": base.where(e),
                                        "tb": traceback.format_exc()[-1500:]}})
            out.write(s + "\n")
            out.flush()
            os._exit(0)
        _, st = os.waitpid(pid, 0)
        if st != 0:
            out.write(json.dumps({"err": {"type": "Died", "msg": f"status {st}", "where": "", "tb": ""}}) + "\n")
            out.flush()


if __name__ == "__main__":
    main()
