"""Child process: runs cases given as JSON lines, answers with JSON lines."""
import importlib
import json
import os
import resource
import signal
import sys
import traceback


def main():
    proto = os.fdopen(os.dup(1), "w", buffering=1)
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    if not os.environ.get("DST_STDERR"):
        os.dup2(dn, 2)
    sys.stdout = open(os.devnull, "w")
    lim = 8 * 2**30
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    mods = {}
    import warnings

    warnings.simplefilter("ignore")
    try:
        importlib.import_module("dst.preload")
    except BaseException:
        proto.write(json.dumps({"fatal": traceback.format_exc()[-3000:]}) + "\n")
        return
    proto.write(json.dumps({"ready": True}) + "\n")
    for line in sys.stdin:
        req = json.loads(line)
        try:
            pid = req["prop"]
            if pid not in mods:
                mods[pid] = importlib.import_module(f"dst.props.{pid.lower()}")
            r = mods[pid].run(req["case"])
            out = {"ok": True, "res": r.out() if hasattr(r, "out") else r}
        except BaseException:
            out = {"ok": False, "error": traceback.format_exc()[-3000:]}
        proto.write(json.dumps(out, default=str) + "\n")


if __name__ == "__main__":
    main()
