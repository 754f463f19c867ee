"""Source of properties.jsonl (python3 tools/props.py rewrites it)."""
import json, pathlib
P = []
def p(id, title, statement, over, text, why, files, state, mechanism, observe, hook=False):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=state, meaning='state the property is about', where=files[0])] if state!='none' else [], mechanism=[dict(name=mechanism, where=files[0])], observe_at=[observe], hook_needed=None)))
S = "src/rxn_network/"
p("C01", "Parallel enumeration yields exactly the sequential set of reactions",
  "For any entry set and enumerator settings (combinatorial, combinatorial with open phases, Gibbs-minimising, grand-potential-minimising), the reactions returned by enumeration are exactly those a sequential evaluation of the documented rules produces: each qualifying reaction is present, nothing is added, lost or repeated, every reaction is mass balanced, and cardinality, precursor/target (exclusive or not), open-phase and chemical-system restrictions are respected. This holds whatever the number of CPUs, the chunk size and job limit, the order in which parallel pieces finish, the retries of crashed workers and the hash seed of the interpreter. Running several enumerators together gives the duplicate-free union of what each gives alone.",
  ["schedules", "inputs", "configurations", "fault_sequences"],
  "every entry set, enumerator configuration, chunking, cluster size, completion order, transparent worker retry and interpreter hash seed",
  "The tests enumerate two fixed chemical systems on one machine with default chunk sizes that put almost everything in one chunk; they compare against recorded counts, never across chunkings, CPU counts, completion orders, retried tasks or hash seeds.",
  [S+"enumerators/basic.py", S+"enumerators/minimize.py", S+"enumerators/utils.py", S+"utils/ray.py", S+"utils/funcs.py"],
  "chunks of reactant/product combinations, per-chemical-system phase diagrams, the growing list of results",
  "combinations are grouped by chemical system, cut into chunks, evaluated as remote tasks and concatenated in completion order",
  "the reaction set returned by enumerate() and run_enumerators()")
p("C02", "A parallel operation returns its full result or an error, never part of it",
  "When workers die, run out of memory, are permanently lost, raise, or when stored objects disappear, every parallel operation (enumeration, phase-diagram building, duplicate filtering, pathway solving, competition scoring, chemical-potential-distance scoring) either returns exactly the result of a fault-free run or raises an error to the caller. It never silently returns a result with reactions, pathways or scores missing, repeated or altered. After such an error the same call on the same inputs with healthy workers returns the full result.",
  ["fault_sequences", "schedules"],
  "every placement of worker crashes, memory kills, application exceptions and object losses on the tasks and stored objects of the operation, transient or permanent",
  "No test injects a fault: a real local cluster never loses a worker within a unit test, so the error paths are never taken.",
  [S+"enumerators/basic.py", S+"reactions/reaction_set.py", S+"pathways/solver.py", S+"jobs/core.py", S+"utils/ray.py"],
  "remote task results in flight, partially accumulated result lists",
  "results are pulled one by one as they complete; an error raised by a pull must reach the caller",
  "return value or exception of the public operation, and of the same operation repeated afterwards")
p("C03", "Duplicate filtering keeps exactly one of each class of equivalent reactions",
  "Filtering duplicates of a reaction set keeps exactly one reaction out of each class of reactions that are positive multiples of each other (same phases in any order; a reverse reaction is not a duplicate), unchanged and with its own data, plus every reaction the caller asked to be kept. The parallel and the serial filter give the same set, whatever the CPU count, completion order and retries, and filtering twice changes nothing.",
  ["schedules", "inputs", "configurations", "fault_sequences"],
  "every reaction set, list of reactions to keep, CPU count (one included), completion order and transparent retry",
  "Tests filter one recorded set on the machine's own CPU count; grouping, chunking and result collection under other CPU counts and orders are unexplored, and a one-CPU cluster is never tried.",
  [S+"reactions/reaction_set.py", S+"utils/ray.py"],
  "index and coefficient arrays grouped by reaction size; indices to keep",
  "groups of reactions with equal phase sets are sent to workers in chunks sized by the CPU count and compared row by row",
  "the reaction set returned by filter_duplicates()")
p("C04", "A reaction set behaves like the list of its reactions through any history",
  "Through any sequence of combining, filtering, re-targeting to an open element and chemical potential, changing temperature, querying by reactants or product (as reactions or as a set), tabulating and saving/restoring after a crash, a reaction set contains exactly the reactions, coefficients, energies and attached data that a plain list treated the same way would contain. Queries return all and only the matching reactions, polymorphs included. No operation changes the set it is called on, even when the operation fails part way.",
  ["histories", "crash_points", "inputs"],
  "every history of operations with crash/restore and failing operations interleaved, on every set including empty ones, sets with empty size groups, polymorphs and mixed temperatures",
  "Tests run each operation once on one freshly loaded set; compositions of operations, restored sets, empty groups, first-listed phases and polymorphs are not sampled.",
  [S+"reactions/reaction_set.py", S+"reactions/computed.py", S+"reactions/open.py"],
  "entries list, index/coefficient/data arrays by reaction size, open element and chemical potential",
  "arrays are sliced and concatenated; objects are rebuilt on demand; JSON is the durable form",
  "reactions obtained by iterating the set or the query result")
p("C05", "A network restored after a crash continues as the uninterrupted one would",
  "Saving a reaction network at any point of its life (built, with or without precursors and target) and restoring it in a new interpreter yields a network with the same reactions, nodes, edges, precursors and target, and every later operation (finding pathways, changing precursors or target, rebuilding, saving again) gives the same result as on the network that was never interrupted. Restoring does not alter the saved form, so the same saved form can be restored any number of times.",
  ["crash_points", "histories", "inputs"],
  "every network, every operation history, every crash point between operations, any interpreter hash seed on restart",
  "Tests round-trip a freshly built network once and compare a few counts; they never continue working with the restored network, restore twice, or restart under a different hash seed.",
  [S+"network/base.py", S+"network/network.py", S+"network/entry.py"],
  "graph, precursors, target, entries and reactions of the network",
  "as_dict/from_dict with the graph and the selected phases stored apart",
  "observable state and pathfinding results of the restored network")
p("C06", "Network results depend only on its current configuration, not on its history",
  "After any sequence of building, setting precursors, setting targets and finding pathways, including calls that were rejected with an error, the network's graph and its pathfinding results equal those of a fresh network over the same reactions given only the most recent precursors and target. Building again starts afresh, without precursors and target. No edge or node belonging to an earlier choice of precursors or target survives.",
  ["histories", "inputs"],
  "every sequence of build / set precursors / set target / find pathways calls, rejected calls included",
  "Tests set precursors and target once on a new network; reconfiguration is exercised by one repeated call at most.",
  [S+"network/network.py"],
  "the graph with its precursor, target and loopback edges; current precursors and target",
  "the graph is edited in place on every reconfiguration",
  "graph nodes/edges and find_pathways() results")
p("C07", "Pathfinding returns the k cheapest loopless pathways in order",
  "Finding k pathways to a target returns the k cheapest distinct loopless routes through the reaction network from the chosen precursors to that target (all of them if there are fewer than k), in order of non-decreasing total cost, with each step's cost equal to that of its cheapest reaction. Each route is feasible step by step: every step starts only from precursors and products of the step before and ends with the target formed. Up to the choice among routes of equal total cost, the result does not depend on the order of the reactions, how the reaction set was produced in parallel, or the hash seed.",
  ["schedules", "inputs"],
  "every reaction set (including equal-cost and parallel reactions), precursors, targets, k, reaction order left by parallel production, and hash seed",
  "Tests compare one network's paths with a recorded answer; optimality over alternatives and independence of the order reactions arrive in are not examined.",
  [S+"network/network.py", S+"pathways/basic.py", S+"pathways/pathway_set.py", S+"costs/functions.py"],
  "directed multigraph whose edge order follows reaction arrival order; candidate and accepted path lists",
  "Yen-style spur search over Dijkstra shortest paths with temporary removal of edges",
  "find_pathways() result")
p("C08", "Solved pathways sum to the net reaction and none within the limits is missing",
  "Every balanced pathway returned by the pathway solver consists of at most the allowed number of distinct known or identified intermediate reactions (never the net reaction itself as a step, whatever the amounts it is written with) with positive multiplicities whose weighted sum is exactly the requested net reaction, carries the right cost per step, and the list is ordered by average cost without repeats. Every combination within the limits that satisfies this is returned (when that filter is on, minus the interdependent ones: those in which two or more steps, none of them running from the net reaction's precursors alone, each consume a phase that is not a precursor and that another of them makes). The result is the same for every chunk size, batch size, CPU count, completion order, transparent retry and hash seed.",
  ["schedules", "inputs", "configurations", "fault_sequences"],
  "every pathway set, net reaction, combination limit, chunk size, batch size, CPU count, completion order, retry and hash seed",
  "One recorded system is solved with default chunking on the test machine; chunks and batches never split there.",
  [S+"pathways/solver.py", S+"pathways/balanced.py", S+"pathways/pathway_set.py"],
  "stoichiometry matrices per combination size, batches of matrices, solved multiplicities",
  "combinations are chunked into remote tasks, concatenated in completion order, split again and solved in batches",
  "pathway set returned by solve()")
p("C09", "Competition scores do not depend on how the work was scheduled",
  "For every synthesis reaction to the target, the primary and secondary competition scores attached by the competition job equal those computed directly and sequentially from that reaction and all enumerated reactions whose reactants are drawn from its precursors (and the open phase, if any). Every synthesis reaction appears exactly once with its own scores; if one has more than two precursors beside the open phase, for which no score is defined, the job fails instead of scoring it. The result is independent of chunk size, CPU count, available memory, completion order, transparent retries and hash seed.",
  ["schedules", "inputs", "configurations", "fault_sequences"],
  "every set of enumerated reactions, target, open element and potential, chunk size, cluster CPU/memory and completion order",
  "Tests run the job on one system where a single chunk is formed and memory is plentiful; the memory-limited path and multi-chunk collection never run.",
  [S+"jobs/core.py", S+"reactions/hull.py", S+"costs/calculators.py", S+"reactions/reaction_set.py"],
  "chunks of target reactions, shared reduced reaction set, reaction data",
  "chunk size is derived from cluster memory; chunks are scored by remote tasks and collected in completion order",
  "reactions and data in the job's output document")
p("C10", "Chemical-potential distances do not depend on how the work was scheduled",
  "The chemical potential distance attached to a reaction by the competition job depends only on that reaction, the entry set, the open element and the calculator options: it equals the value obtained by evaluating that reaction alone in the diagram of its own chemical system, which is the distance that the entries' energies and the chosen aggregation define. It is independent of which other reactions share its chunk, of chunk size, completion order of this or an earlier parallel stage, transparent retries and hash seed.",
  ["schedules", "inputs", "configurations", "fault_sequences"],
  "every reaction set mixing chemical systems of different size, chunk size, CPU count, completion order and retry",
  "Tests check the presence of a value for one small fixed set in one chunk.",
  [S+"jobs/core.py", S+"costs/calculators.py", S+"thermo/chempot_diagram.py"],
  "per-chunk cache of chemical potential diagrams",
  "reactions are sorted, chunked and scored by remote tasks that reuse diagrams within a chunk",
  "chempot_distance in the reactions' data in the job's output document")
p("C11", "Parallel operations leave the caller's objects unchanged, even on failure",
  "Enumeration, duplicate filtering, network building, pathway solving, competition and chemical-potential-distance scoring do not alter any object the caller passed in, apart from the index that building a network assigns to entries (entry sets and the entries in them including their data, reaction sets, reactions and their data, pathway sets, settings), whether the operation succeeds, is retried, or fails at any point.",
  ["fault_sequences", "schedules", "inputs"],
  "every operation, completion order and fault placement",
  "Tests look at return values; none compares the inputs before and after, least of all after an injected failure.",
  [S+"enumerators/basic.py", S+"jobs/core.py", S+"pathways/solver.py", S+"reactions/reaction_set.py"],
  "caller-owned entries, reactions and settings shared by reference with the operation",
  "deep copies and object-store serialisation are meant to isolate the caller",
  "deep fingerprints of the inputs before and after")
p("C12", "A stored job document is complete and reloadable, or the job is not done",
  "For every job (entry set, enumeration, competition, network, pathway solver) run against stores that may fail or crash at any write, a job counts as done only if its document and everything it refers to were stored; loading a stored document in a new process either gives back exactly the entries, reactions, scores, network, pathways and settings that the job computed, or fails, and never gives partial or different content. Running the job again after a failed or interrupted attempt gives the same final result as an undisturbed run.",
  ["crash_points", "fault_sequences", "inputs"],
  "every job, store write at which a fault or crash occurs, and rerun",
  "Tests run each job once on in-memory stores that never fail and read the in-memory output, not the stored document in a new process.",
  [S+"jobs/core.py", S+"jobs/schema.py", S+"flows/core.py"],
  "task document and large objects placed in additional stores",
  "job outputs are serialised and split over the document store and additional stores",
  "documents loaded back from the stores")
p("C13", "Every parallel operation finishes on any feasible cluster",
  "On any cluster that offers at least one CPU and some memory, and with any finite number of worker failures, every parallel operation terminates within a bounded number of scheduling steps and produces its result; it never crashes because the cluster is small, and never asks for resources the cluster can not provide. Empty work (no candidate reactions, no duplicates, no solvable combination) completes with an empty result.",
  ["configurations", "schedules", "fault_sequences"],
  "every cluster size and memory, amount of work including none, and finite fault sequence",
  "Tests use the machine they run on (several CPUs, gigabytes of memory) and non-empty work.",
  [S+"reactions/reaction_set.py", S+"pathways/solver.py", S+"jobs/core.py", S+"enumerators/basic.py"],
  "chunk and batch sizes, resource requests derived from cluster resources",
  "sizes are computed by dividing by CPU counts and memory",
  "termination of the public operations in simulated time")
p("C14", "Entry-set queries always reflect the current entries",
  "After any sequence of additions, removals, bulk updates (also those whose source fails part way), copies, saves and restores of an entry set, and of queries that succeeded or failed, each query (listing, ground-state entry per formula, subset in a chemical system, chemical system, temperature, energy above hull, stability filter, stabilised and interpolated entries, assigned index) gives what a newly created set with the same entries would give, which is what looking at its entries one by one gives. Each entry's assigned index equals its position in the listing, also for polymorphs and after copying or restoring, and no query alters the entries.",
  ["histories", "fault_sequences", "crash_points"],
  "every history of mutations and queries with failures injected into the underlying phase-diagram computation, and crash/restore points",
  "Tests mutate and query in short fixed scripts; a cached answer surviving a later mutation or a failed computation needs a particular order of operations.",
  [S+"entries/entry_set.py", S+"thermo/utils.py"],
  "the set of entries and its cached derived values",
  "derived values are cached and cleared on mutation",
  "results of the query methods")
p("C15", "Serialising or re-deriving an entry never alters it, even on failure",
  "Saving an entry, deriving it at another temperature, or adjusting its energy leaves the entry and its data exactly as they were, also when the operation fails part way and when several threads use the same entry at the same time; the derived entry is the one that would have been made that way directly. A thread reading the entry meanwhile always sees its true data, and every saved form is complete and restores to an equal entry.",
  ["schedules", "fault_sequences", "inputs"],
  "every interleaving of threads at statement granularity, every failure point in serialisation, every kind of entry and data",
  "Tests serialise in a single thread and never make serialisation fail.",
  [S+"entries/gibbs.py", S+"entries/experimental.py", S+"entries/interpolated.py", S+"entries/entry_set.py"],
  "an entry's data dictionary",
  "serialisation works on the live entry object",
  "entry state observed by other threads and afterwards")
p("C16", "Entries fetched from an entry database are complete or the fetch fails",
  "Fetching all entries of a chemical system from an entry database returns each matching entry exactly once (those within the requested elements, subsystems included, preferring the +U calculation where both exist), independent of the order of documents or requested elements and of how many queries the fetch is split into; if any query or any read from a cursor fails, the fetch fails. A fetch for a large chemical system, which uses a different query, agrees with the definition above.",
  ["fault_sequences", "inputs", "schedules"],
  "every database content and order, requested system below and above the query-splitting limits, cursor failure point and slow or interleaved cursor",
  "The database helpers are exercised with no failing cursor and no multi-chunk or large-system query.",
  [S+"entries/utils.py", S+"jobs/core.py"],
  "list of entries accumulated over several cursors",
  "the request is expanded into subsystems and split into groups of queries",
  "the returned entries")
p("C17", "Retrieving stored reactions returns the newest matching completed result",
  "Retrieving reactions for a target, open element, chemical potential and optional workflow id from the results database returns the reactions of the most recently completed matching document, with data loaded, recomputed for the open element if one is given; it raises if nothing matches and fails if the store fails. The answer is the same whatever order documents were written or are returned in, with unrelated and repeated results present.",
  ["histories", "fault_sequences", "inputs"],
  "every history of job completions (duplicates, out-of-order and skewed completion clocks, unrelated documents), store order and read fault",
  "No test stores more than one result or looks up an open-element result written by the real job.",
  [S+"utils/database.py", S+"jobs/core.py", S+"jobs/schema.py"],
  "completed task documents and their large objects",
  "a query with sort on completion time over documents the jobs wrote",
  "reaction set returned by get_rxns_from_db()")
p("C18", "Chemical potential diagram answers do not depend on earlier queries",
  "Distances, offsets and domains obtained from a chemical potential diagram are the same in any order of queries, repeated or not, and after any query that failed; they equal those of a newly created diagram asked only that question, and those that the entries' energies define (with any aggregation of chemical potentials, also the caller's own function, and with open elements). Queries about metastable phases leave the diagram's and the caller's entries unchanged, even when they fail.",
  ["histories", "fault_sequences", "inputs"],
  "every sequence of stable and metastable queries, with failures injected into the nested diagram construction",
  "Tests ask single questions on a fresh diagram; a leftover temporary entry changes only later answers.",
  [S+"thermo/chempot_diagram.py", S+"entries/entry_set.py"],
  "the diagram's entry set and its cache of metastable domains",
  "a stabilised copy of a metastable entry is temporarily added to the shared entry set to build a nested diagram",
  "shortest_domain_distance(), get_offset(), domains, metastable_domains")
p("C19", "Saved objects restore equal in any interpreter",
  "Every saveable object of the package (entries of each kind, entry sets, reactions, open reactions, reaction sets, pathways, pathway sets, pathway solvers, networks, enumerators, cost functions) that is saved as JSON text before a crash and restored in a new interpreter with any hash seed is equal to the original in all observable respects: phases, energies, coefficients, data, costs, settings and the results of using it. Restoring from the same saved text repeatedly gives equal objects and leaves the decoded form unchanged.",
  ["crash_points", "inputs", "histories"],
  "every object reachable by using the package, at any point, restart hash seed and number of restores",
  "Round-trip tests, where they exist, stay in one process, on fresh objects of a few kinds.",
  [S+"entries/gibbs.py", S+"entries/entry_set.py", S+"entries/experimental.py", S+"entries/interpolated.py", S+"reactions/computed.py", S+"reactions/open.py", S+"reactions/reaction_set.py", S+"pathways/pathway_set.py", S+"pathways/solver.py", S+"enumerators/basic.py", S+"enumerators/minimize.py", S+"costs/functions.py"],
  "JSON text as the only durable state",
  "as_dict/from_dict of each class",
  "attributes and behaviour of the restored object in another process")
p("C20", "Operations issued concurrently by several callers do not affect one another",
  "When several caller threads of one process run enumerations, duplicate filters, network builds, pathway solves and scorings at the same time on shared inputs and one shared cluster, each gets exactly the result it would get running alone, under every interleaving of their requests and completions. A failure hitting one caller's tasks never changes or fails another caller's result.",
  ["schedules", "fault_sequences", "inputs"],
  "every interleaving of caller threads at cluster calls and statement boundaries, completion order and fault placement",
  "No test runs two operations at once.",
  [S+"enumerators/basic.py", S+"reactions/reaction_set.py", S+"pathways/solver.py", S+"jobs/core.py", S+"utils/ray.py"],
  "shared inputs, class- and module-level state, the shared cluster",
  "operations share entries by reference and one cluster connection",
  "results and errors seen by each caller")
p("C21", "The documents of a workflow hold what its steps give when called directly",
  "For every job and workflow (entry set from an entry database, enumeration, competition, network, balanced pathways; the reaction-pathway workflow with or without an open element at several chemical potentials), the result documents contain exactly the entries, reactions, networks, pathways and settings that the package's functions give when called directly, one after another, with the same settings. Each branch of a workflow uses its own open element and chemical potential and the results of its own earlier steps, and each document records the settings it was made with. This holds whatever order the ready jobs run in, in whichever process and hash seed each of them runs, whatever transparent faults and repeated attempts happen on the way, and whatever other workflows the same makers were used for before.",
  ["schedules", "fault_sequences", "inputs", "histories"],
  "every workflow configuration, order of its jobs, process layout and hash seed, cluster schedule and transparent fault, and earlier use of the makers",
  "Tests run each workflow once on one chemical system and look at a few fields of its documents.",
  [S+"flows/core.py", S+"jobs/core.py", S+"jobs/schema.py", S+"jobs/utils.py", S+"entries/utils.py", S+"enumerators/utils.py"],
  "the job store and its additional stores between jobs, makers shared by branches, the cluster",
  "output references resolved in another process, settings handed from flow to job to worker task",
  "task documents and the additional stores")
p("C22", "Results never depend on what tools and inputs were used for before",
  "An enumerator, several enumerators together, an enumeration, competition or network job maker, a pathway solver, and the entry sets given to them can be used any number of times. Each use gives exactly what newly created ones with the same settings and the same current contents would give, whatever they were used for before (other entry sets, temperatures, targets, reaction sets, net reactions, limits or options), whether those uses succeeded, were retried or failed, with entries added to or removed from the sets in between, and with the cluster stopped and started again at another size.",
  ["histories", "fault_sequences", "schedules", "inputs"],
  "every sequence of uses, edits of the entry sets in between, failures of uses, cluster sizes and schedules",
  "Tests use each tool once, on freshly made inputs.",
  [S+"enumerators/basic.py", S+"enumerators/minimize.py", S+"enumerators/utils.py", S+"pathways/solver.py", S+"jobs/core.py", S+"entries/entry_set.py", S+"utils/ray.py"],
  "attributes of tools, cached properties of entry sets, module- and worker-level state",
  "tools are reusable objects handed from call to call and into worker tasks",
  "return values of each use")
p("C23", "Deriving a reaction gives the right one and leaves the original as it was",
  "Copying, reversing, normalising, balancing anew, changing the temperature, moving to a chemical potential, decorating with scores, saving or reading a reaction leaves that reaction, its entries, data and chemical potentials exactly as they were, also when the operation fails part way and when several threads use the reaction at once. Later changes by the caller to the data dictionary, potentials or lists a reaction was made from, or to those of a derived reaction, do not reach it. Each derived reaction is of the same kind (open reactions stay open with the same potentials) and has the amounts, entries, data, energies, fractions, equality and text of the reaction made directly with those amounts, entries, temperature or potential.",
  ["schedules", "fault_sequences", "histories", "inputs"],
  "every chain of derivations on shared reactions, thread interleaving, failure point and later edit",
  "Tests derive one reaction once on one thread; shared dictionaries, arrays altered in place and cached values carried over show only later or under another thread or failure.",
  [S+"reactions/basic.py", S+"reactions/computed.py", S+"reactions/open.py", S+"costs/base.py"],
  "coefficients, data, chemical potentials, grand entries and cached properties of reactions",
  "derivations copy or share the parts of the original",
  "the derived reactions and the originals after each operation")
p("C24", "Interface hull answers depend on the hull's reactions alone",
  "An interface reaction hull gives, for any reactions between two phases (closed or open to an element, some of one phase only), the coordinates, hull energies, energies above the hull, reactions at a coordinate, stable and unstable reactions, and competition scores (primary, secondary with every option including the recursive variant, maximum, area) that these reactions' compositions and energies define. The answers are the same in any order of questions, repeated or not, from several threads at once, after a question that failed or was interrupted part way, after saving and restoring the hull, and whatever the caller later does to the list it gave; the reactions themselves stay as they were.",
  ["histories", "schedules", "fault_sequences", "crash_points", "inputs"],
  "every order of questions, thread interleaving, failure point and restore",
  "Tests ask one fixed hull a few questions on one thread; cached partial results and counts for particular shapes (a phase that reacts on alone, one point, many points) never arise.",
  [S+"reactions/hull.py", S+"reactions/computed.py", S+"reactions/open.py"],
  "coordinates, hull vertices, cached path counts and decomposition energies",
  "derived quantities are cached per hull and computed from intervals of the hull",
  "return values of the hull's methods")
# Broad guarantees that are pure functions of their input: not simulation targets.
p("C30", "Reaction balancing conserves every element",
  "Balancing a set of reactants and products either yields coefficients for which every element is conserved, with the constraint and error counts reported truthfully, or reports the reaction as unbalanced.",
  ["inputs"], "every list of reactant and product compositions",
  "Tests balance a handful of reactions.",
  [S+"reactions/basic.py"], "none", "linear algebra on composition matrices", "BasicReaction.balance()")
p("C31", "Gibbs energies follow the published descriptor at every temperature",
  "The Gibbs formation energy of a computed or experimental entry equals the published descriptor or tabulated/interpolated reference value at the requested temperature, and unsupported temperatures are rejected.",
  ["inputs"], "every composition, volume and temperature",
  "Tests evaluate a few compositions and temperatures.",
  [S+"entries/gibbs.py", S+"entries/experimental.py"], "none", "closed-form expression and interpolation", "entry energies")
p("C32", "Interface hull quantities match their definitions",
  "Primary and secondary competition, product fractions and reaction energies reported for an interface reaction hull match their definitions for any set of reactions on the interface, with the closed-form and recursive evaluations agreeing.",
  ["inputs"], "every interface hull", "Tests evaluate a few hulls.",
  [S+"reactions/hull.py"], "none", "convex hull and recursion over vertices", "InterfaceReactionHull methods")
p("C33", "The Pareto front contains exactly the non-dominated reactions",
  "The Pareto front of a table of reactions for a choice of metrics contains exactly the rows not dominated by another row.",
  ["inputs"], "every table", "Tests use one table.",
  [S+"costs/pareto.py"], "none", "pairwise comparison", "get_pareto_front()")
out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(x, ensure_ascii=False) + "\n" for x in P))
