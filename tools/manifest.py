"""Rewrites MANIFEST.json from the property modules present (python3 tools/manifest.py)."""
import json, pathlib
V = pathlib.Path(__file__).resolve().parent.parent
props = [json.loads(l) for l in (V / "properties.jsonl").read_text().splitlines()]
NA = {
    "C30": "a pure function of its arguments (no schedule, time, I/O, randomness or several parties): nothing for a simulator to decide; reactions are only checked for balance in passing by C01 and C08",
    "C31": "a pure function of composition, volume, energy and temperature: no nondeterminism, state or fault can influence it",
    "C32": "a pure function of the set of reactions given to the hull: no nondeterminism, state or fault can influence it (C09 checks that the jobs attach these values whatever the schedule)",
    "C33": "a pure function of a data frame: no nondeterminism, state or fault can influence it",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
    elif (V / f"dst/props/{i.lower()}.py").exists():
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i} quick", "thorough_cmd": f"python3 check.py {i} thorough",
                       "technique": "deterministic simulation with fault injection (seeded schedule and fault search)",
                       "level": "exploration",
                       "level_note": "seeded search over inputs, schedules and faults; every failure is minimised and replayed from its file"})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "true", "hooks": {"guard": "none", "enable": "no hooks: the simulator replaces the ray package on the import path", "source_commits": []},
     "checks": checks, "not_applicable": na}
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
