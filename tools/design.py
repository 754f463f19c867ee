"""Writes DESIGN.md from the text below, known_findings.json, seeded/*/meta.json and tools/catches.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = {
'C01': ("M+R", "Reference enumeration in `dst/enums.py`: all combinations of phases up to n within each chemical system, balanced; minimising enumerators via pymatgen's interface reactivity pair by pair; restrictions applied one by one. Compared as sets up to a positive factor, and without repeats.",
 "2–6 elements, up to ~12 phases, n ≤ 5, 1–3 enumerators, 1–16 CPUs, ≤ 3 transparent faults", "240 cases ≈ 75 s",
 "Chunking, chunk boundaries, union, completion order and restrictions interact; the tests run two fixed chemical systems on one real cluster."),
'C02': ("R", "Fault-free result as multiset; each plan either gives it or raises; then the same call again with healthy workers gives it.",
 "nine operations, ≤ 4 plans of 1–2 faults, permanent and transient, application exceptions of ten kinds and exceptions at any call inside the task body", "200 cases ≈ 80 s",
 "Tests never let a worker fail."),
'C03': ("M", "Classes by coefficient ratio over the same phases; one per class, the kept ones always; data travels with its reaction; idempotence; serial = parallel.",
 "≤ 60 reactions, ratios as close as 3e-4, ≤ 12 to be kept", "1500 cases ≈ 25 s", "The choice within classes and chunk boundaries are input- and schedule-dependent."),
'C04': ("M", "A plain list of (reaction, data) carried through the same history.", "2–14 operations on a pool of ≤ 30 reactions; failures part way (cost function, cluster, crash before restoring)", "1200 cases ≈ 80 s",
 "Indexed storage (coefficients, polymorph indices, open elements) only goes wrong for particular sequences."),
'C05': ("N+M", "Uninterrupted twin network compared after each call with one that lived through 1–4 crash/restore points in new interpreters.", "3–14 calls, 1–4 crashes, three ways to restore", "520 cases ≈ 75 s", "Needs two interpreters with different hash seeds and histories that continue after restoring."),
'C06': ("N+M", "After each call the graph equals that of a new network with the latest accepted precursors and target; pathways by the model of C07.", "4–24 calls incl. rejected ones and failing cost evaluations", "2400 cases ≈ 60 s", "History dependence."),
'C07': ("M", "Best-first enumeration of simple routes over the documented reaction graph (`dst/net.py`).", "k ≤ 40, ≤ 15 000 model expansions, tied costs in a third of the cases, two reaction orders or two cluster schedules", "1600 cases ≈ 40 s", "Optimality among k routes for any graph."),
'C08': ("M", "All combinations of up to the allowed number of distinct reactions solved by exact rational/least-squares elimination in `dst/solve.py`; interdependence by its definition; order, costs, uniqueness.", "≤ 14 path reactions, combos ≤ 4, chunk and batch sizes 1…, open element; 'deep' cases with many batches", "260 cases ≈ 70 s", "Completeness over batches and chunk edges."),
'C09': ("M", "Scores computed one by one from the reactions whose reactants are among the precursors plus open phase.", "1–5 overlapping reaction sets, chunk sizes 1–100, node memory from 512 B up", "300 cases ≈ 60 s", "Chunking by memory and CPU count decides which data a task sees."),
'C10': ("N+M", "Each reaction alone in a new diagram of its own chemical system; distances by the definition of C18 for small systems.", "two executions per case with their own chunking; second stage after a competition stage in completion order", "200 cases ≈ 25 s", "Shared diagrams in a chunk."),
'C11': ("fingerprint", "Deep fingerprint (`dst/canon.py`) of everything passed in, before and after: success, retry and failure.", "nine operations, caller-owned solvers and makers in 70 % of the cases", "300 cases ≈ 65 s", "Aliasing shows only on failing or retried paths."),
'C12': ("R+M", "Undisturbed run of the same jobs; every loadable stored document equals it or the job is not done.", "1–5 jobs, 0–2 attempts with a failing/torn/lost-ack write, crash, or task failure; each job in a new interpreter", "240 cases ≈ 150 s", "Crash points between document and blob writes."),
'C13': ("R", "Result of a comfortable cluster; bounded number of scheduling steps; no request larger than any node.", "1–16 CPUs, 1–4 nodes of uneven memory 512 B–16 GB, finite faults, empty work", "420 cases ≈ 45 s", "Liveness; division by CPU counts."),
'C14': ("N+M", "New set with the same entries; membership by a plain set.", "5–40 operations on ≤ 3 live sets; Qhull/memory/interrupt failures", "1200 cases ≈ 15 s", "Cache invalidation."),
'C15': ("N", "Same operation alone on equal entries; entries exactly as before afterwards.", "1–4 threads with switches at statement boundaries; failure at a seeded statement", "5000 cases ≈ 40 s", "Interleavings inside as_dict and friends."),
'C16': ("M", "Filter of the whole database by the definition.", "0–30 materials, 1–17 elements, failing queries and cursor reads, another fetch in between", "1600 cases ≈ 55 s", "Query splitting at 10 and 13 elements; cursor failures."),
'C17': ("M", "Newest completed matching document by the simulated clock.", "1–8 completions, skewed and repeated clocks, torn documents, 2–4 lookups", "1400 cases ≈ 95 s", "Storage order vs. completion order."),
'C18': ("N+M", "New diagram asked only that question; domains, offsets and distances from the definition by half-space vertices computed in the check.", "3–12 queries, numerical failures inside", "1500 cases ≈ 55 s", "Query-history dependence."),
'C19': ("R", "Everything observable before the crash = after, in another interpreter.", "all saveable classes, four ways to restore", "900 cases ≈ 95 s", "Second interpreter, other hash seed."),
'C20': ("R", "Each caller's result when alone.", "2–4 threads × 1–2 operations, switches at cluster calls and statements, faults on one caller", "220 cases ≈ 110 s", "Shared module state and wait lists."),
'C21': ("M", "Direct calls of the package's functions on the stored inputs, entries step by step; C07/C09 models for networks and scores.", "flows with 0–3 potentials, ≤ 3 competition jobs, or chains of makers with own settings; job order, processes, transparent faults", "200 cases ≈ 60–100 s", "Wiring between jobs, reuse of makers."),
'C22': ("N", "Newly created tools on newly created inputs with the same settings and contents.", "3–7 uses of 1–3 tools on 1–3 sets at two temperatures with edits in between, or 2–4 solves with one solver; a new cluster for each use; fatal and transparent faults", "220 cases ≈ 100 s", "State kept from one use to the next."),
'C23': ("M", "A reaction as plain numbers (entry numbers, amounts, temperature, data, potentials) carried through the same derivations; energies and fractions from their definitions.", "1–3 reactions (basic, closed, open), 1–4 threads × 1–4 chains of ≤ 3 derivations, a failure at a seeded statement, edits of the caller's and of derived objects", "4000 cases ≈ 70 s", "Sharing between original and derived objects."),
'C24': ("M", "Coordinates from compositions, lower hull, all ways to split an interval counted one by one (`dst/hull.py`, `dst/props/c24.py`).", "1–20 reactions of 2–3 elements or ladders of 5–8 compounds, 1–3 threads × 2–10 questions, failures at a seeded statement, restores", "3000 cases ≈ 80 s", "Shapes of hulls (phases reacting alone, single points, many vertices) and cached intermediate results."),
}
HEAD = r"""# Deterministic simulation of reaction-network

Everything in this directory decides the properties of `properties.jsonl` by one technique: the real package runs
inside a simulator that owns every source of nondeterminism, a seed chooses inputs, schedules and faults, and a
reference (a small model written from the documentation, or the undisturbed run) says what must come out.

Contents: 1 the simulator; 2 how a check runs; 3 per property: oracle, bounds, cost, why tests cannot reach it;
4 defects found and repaired; 5 false alarms and what was changed; 6 planted bugs and mutants, which check catches
what; 7 what is not covered.

## 1. The simulator

The package is a Python library: batch computations fanned out over Ray, wrapped in jobflow jobs whose documents live
in document stores. What a result can depend on besides its arguments is: the order in which Ray tasks complete,
the size of the cluster, worker death / memory kills / lost objects and the retries they cause, the hash seed of each
interpreter (set order), caller threads, crashes between saving and restoring, document stores (order, failures,
crashes between writes), completion clocks and uuids, and numerical or memory failures inside a call. Each has a seam:

| source | seam | implementation |
|---|---|---|
| Ray scheduler, workers, object store, resources | the imported module `ray` (no hook in /repo) | `dst/shim/ray` + `dst/kernel.py` |
| worker death, memory kill, lost return value, lost/refused `put`, node loss, slow task, straggler, client think time | events of the kernel | `dst/kernel.py` |
| an exception *inside* a task or call (any statement) | `sys.settrace`/call hook at a seeded call or statement | kernel "body" faults, `dst/seams.py` |
| caller threads | real threads, exactly one runnable; switches at cluster calls and statement boundaries | `kernel.Threads` |
| process crash and restart | a new interpreter with another `PYTHONHASHSEED`, given only saved text | `dst/reborn.py` |
| result and entry databases | maggma `MemoryStore` (mongomock queries) behind a failing wrapper; state carried as text | `dst/stores.py` |
| clock of job completion | `datetime` of jobflow replaced by a simulated skewed clock | `dst/stores.py`, C17 |
| Qhull / half-space / KD-tree failures, `MemoryError`, interrupts | replaced constructors that fail at the i-th call | `dst/seams.py`, C14, C18 |
| cost functions that fail | passed in by the caller | C04, C06 |
| hash seed | eight lanes run under eight seeds; crossing runs use two | `dst/driver.py` |
| random numbers (jitter) | seeded numpy generator | C15 |

**Ray simulator.** One process, virtual time. Task bodies are the package's code; arguments and results really are
cloudpickled, and arrays come back read-only as from plasma. `num_cpus`, `memory`, `max_retries`, `retry_exceptions`,
`ray.wait`, `ray.get`, `ray.put`, `cluster_resources`, `nodes`, `is_initialized`, named object references, lineage
re-execution, errors as `RayTaskError`/`WorkerCrashedError`/`OutOfMemoryError`/`ObjectLostError` follow Ray's
documented behaviour. A request no node can meet is never scheduled; when nothing can progress the run ends as a hang
with the pending tasks named. `tools/fidelity.py` (not registered) compares the simulator with the installed real Ray
on the same programs.

**Keyed randomness.** Each decision is `hash(seed, site, index)`, never a stream, so deleting a fault, an operation or an
entry while minimising leaves all others as they were. One JSON case = one exactly repeatable execution.

**No hook in /repo.** `MANIFEST.json` lists none: the module `ray` is a seam already, and stores, cost functions and
numerical constructors are passed in or replaceable from outside.

## 2. How a check runs

`python3 check.py C0x quick|thorough` → `dst/driver.py` starts 8 workers (own hash seed each), generates
case *i* from `(VERIF_SEED, property, i)`, runs it, stops at the first violation, minimises it (drop faults,
operations, entries, simplify the schedule; same violation class required), confirms the minimised case in a fresh
process, writes `replays/<id>-<hash>.json` and prints `VIOLATION property=<id> replay=<path>`;
`python3 check.py --replay FILE` reproduces it exactly. The package under test is `/repo/src` of the working tree (nothing
is cached between runs). Wall limits: quick 150 s (200 s C12), thorough 780 s; the case counts are upper bounds and
evidence reports those that ran. Distinctness measure in the evidence: number of distinct *interleaving
signatures* (hash of the sequence of kernel events, or of the operation/fault history where no cluster is involved).
Thorough = same generator, wider bounds and 20–60 times the cases.

An execution is compared with a *reference*, one of: **M** a model written from the documented behaviour independently of
the implementation (`dst/enums.py`, `dst/net.py`, `dst/solve.py`, `dst/rx.py`, models inside the property
modules); **R** the same call undisturbed on a comfortable one-by-one schedule; **N** a newly created object asked
only that question.

## 3. Properties
"""

NA = {
 "C30": "balancing is a pure numerical function of one call's arguments: no schedule, time, I/O or history for a simulator to vary",
 "C31": "an energy is a pure function of temperature and tabulated data",
 "C32": "hull quantities are pure functions of one list of reactions (their use under chunking is C09)",
 "C33": "the Pareto front is a pure function of one table",
}

FALSE = """
Each of these was an alarm on correct code; the property or the machinery was corrected, never the alarm silenced.

* C13: a `node_down` fault took away the only node large enough for the memory the job had asked for; a real cluster
  would wait for a new node too. The fault now leaves a node at least as large.
* C21: entries were expected for the whole pool; the workflow asks for the elements of its precursors and targets.
* C20/kernel: an exception raised while a worker was restoring a task's arguments was thrown in the caller that happened
  to drive the simulator. It is that task's `RayTaskError`.
* C08/C19: reactions given with amounts per unreduced formula were built unbalanced by the generator (`rx.build` scales now).
* C08: the net reaction in other amounts was tolerated as a step at first; that turned out to be a defect (d7465d3), the
  check is strict.
* C11: building a network assigns the documented index to entries; the statement excepts it.
* C14: restoring a set that computes its hull on creation may fail where the hull is undefined.
* C07: the choice among routes of equal total cost (1e-8) is free.
* C15: entries that become equal at the new temperature may merge in a set.
* C19: coefficients of underdetermined, unbalanced or changed reactions are not unique (compared by settings only);
  which polymorph ends an interface hull is not compared.
* C16: a fetch through the job is compared after JSON normalisation.
* C12: jobflow writes the document before the blobs; the statement speaks of loading. Energies are compared rounded.
* C03: two reactions to be kept that differ in the last bit are one.
* C23: pymatgen names a phase by its reduced composition with diatomic gases kept (`O2`, `N2`); the model uses the same.
  `BasicReaction.normalize_to` starts with empty data (not compared); text shows four digits.
* C21: which conditions a job without an open element works at (network: those all reactions share; competition: those
  of the first set).
* Suspected, examined, and found right: C17's form of the stored open element.
"""

OUT = """
* The simulator schedules whole tasks (and, for exceptions, calls or statements inside them); it does not model the memory
  a task really uses, nor the network between nodes, nor Ray's internal races.
* Thread switches happen at Python statement boundaries of package code; not inside numpy, scipy or pymatgen.
* Storage is intact once acknowledged, except for the failing, torn, lost-acknowledgement and interrupted writes injected.
* What a single pymatgen/scipy call returns is taken as given.
* The seeds decide what is searched: a quiet check says that nothing was found in the runs its evidence counts.
* Oddities seen outside the statements, left alone:
  `BalancedPathway.get_comp_matrix` uses a nonexistent attribute; `GibbsEntrySet.copy()` drops flags;
  `PathwaySolverMaker`'s `@job(paths="paths")` names no output key; `GetEntrySetMaker.property_data` is unused;
  `to_dataframe` hands out its cached table.
"""


def main():
    o = [HEAD]
    props = {p["id"]: p for p in map(json.loads, open(f"{HERE}/properties.jsonl"))}
    for i, (kind, oracle, bounds, cost, why) in P.items():
        o.append(f"**{i} {props[i]['title']}.** *Oracle ({kind}):* {oracle} *Bounds (quick):* {bounds}. *Cost:* {cost}. "
                 f"*Beyond tests:* {why}\n")
    o.append("Not applicable: " + "; ".join(f"**{i}** {props[i]['title'][0].lower() + props[i]['title'][1:]} – {NA[i]}" for i in NA) + ".\n")
    k = json.load(open(f"{HERE}/known_findings.json"))
    k = k if isinstance(k, list) else k["findings"]
    fixed = [x for x in k if x["status"] == "fixed"]
    o.append(f"## 4. Defects found and repaired\n\n{len(fixed)} genuine defects, each found by the named check, repaired by one `fix:` commit "
             "(existing tests unchanged and passing); open findings: " + str(len(k) - len(fixed)) + ".\n")
    o += [f"* {x['property']} `{x['commit']}` {x['text'].split(' ', 3)[3]}" for x in fixed]
    o.append("\n## 5. False alarms and what was changed\n" + FALSE)
    c = json.load(open(f"{HERE}/tools/catches.json"))
    o.append("## 6. Planted bugs and mutants\n\nEach planted bug (`seeded/<id>`) was written from a property's text; `tools/plant.py` tries it in a scratch "
             "copy: demo quiet clean and failing patched, repository tests passing, check run with seed 1.\n")
    for i in sorted(os.listdir(f"{HERE}/seeded")):
        m = json.load(open(f"{HERE}/seeded/{i}/meta.json"))
        o.append(f"* `{i}` ({m['property']}): {m['what_it_breaks']} *Result:* {c['seeded'].get(i, 'not yet tried')}.")
    o.append("\n" + c["mutants"] + "\n\n## 7. What is not covered\n" + OUT)
    open(f"{HERE}/DESIGN.md", "w").write("\n".join(o))


if __name__ == "__main__":
    main()
