From 48d93cb113e5c4b4b4402dace1405bb014357aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:20 +0000
Subject: [PATCH 01/47] fix: filter duplicates on a cluster with a single CPU

The number of CPUs minus one was used as a divisor, raising ZeroDivisionError
on a single-CPU cluster.
---
 src/rxn_network/reactions/reaction_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/reactions/reaction_set.py b/src/rxn_network/reactions/reaction_set.py
index a8ef34e..dd26686 100644
--- a/src/rxn_network/reactions/reaction_set.py
+++ b/src/rxn_network/reactions/reaction_set.py
@@ -425,7 +425,7 @@ class ReactionSet(MSONable):
         if parallelize:
             if not ray.is_initialized():
                 initialize_ray()
-            num_cpus = int(ray.cluster_resources()["CPU"]) - 1
+            num_cpus = max(int(ray.cluster_resources()["CPU"]) - 1, 1)
             chunk_refs = []
 
         ensure_idxs = {size: [] for size in self.indices}  # type: ignore
-- 
2.43.0


From 790ce1c4f5ac157576ecbc4fb3585e1866ec2dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:20 +0000
Subject: [PATCH 02/47] fix: schedule competition tasks when reactions exceed a
 node's memory

The per-task memory request could exceed what any node offers (the job then
waits forever) or the whole cluster (ZeroDivisionError in the chunk size).
---
 src/rxn_network/jobs/core.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/rxn_network/jobs/core.py b/src/rxn_network/jobs/core.py
index 093f27a..7ed564c 100644
--- a/src/rxn_network/jobs/core.py
+++ b/src/rxn_network/jobs/core.py
@@ -416,9 +416,14 @@ class CalculateCompetitionMaker(Maker):
         chunk_size = self.chunk_size
         needed_memory_per_cpu = memory_per_rxn * num_rxns
 
+        # a task runs on a single node; requesting more than any node has would never be scheduled
+        max_node_memory = max(n["Resources"].get("memory", 0) for n in ray.nodes() if n["Alive"])
+        needed_memory_per_cpu = int(min(needed_memory_per_cpu, max_node_memory))
+
         if num_cpus * needed_memory_per_cpu > available_memory:
             logger.info("Not enough memory to use all CPUs simultaneously. Adjusting....")
-            chunk_size = int(len(target_rxns) // (available_memory // needed_memory_per_cpu)) + 1
+            num_tasks = max(available_memory // needed_memory_per_cpu, 1)
+            chunk_size = int(len(target_rxns) // num_tasks) + 1
             logger.info(f"Setting new chunk size to {chunk_size}.")
 
         for chunk in grouper(
@@ -428,7 +433,7 @@ class CalculateCompetitionMaker(Maker):
         ):
             chunk_ref = ray.put(chunk)
             rxn_chunk_refs.append(
-                _get_competition_decorated_rxns_by_chunk.options(memory=num_rxns * memory_per_rxn).remote(
+                _get_competition_decorated_rxns_by_chunk.options(memory=needed_memory_per_cpu).remote(
                     chunk_ref, all_rxns, self.open_formula
                 )
             )
-- 
2.43.0


From ad5e5fe86dd71645af699ff3f286945979d22274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:49 +0000
Subject: [PATCH 03/47] fix: recalculate each polymorph of a reaction set at a
 new temperature

---
 src/rxn_network/reactions/computed.py     | 5 +++--
 src/rxn_network/reactions/open.py         | 6 +++---
 src/rxn_network/reactions/reaction_set.py | 4 ++--
 3 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/rxn_network/reactions/computed.py b/src/rxn_network/reactions/computed.py
index 0b2a2a1..0d1cc60 100644
--- a/src/rxn_network/reactions/computed.py
+++ b/src/rxn_network/reactions/computed.py
@@ -86,13 +86,14 @@ class ComputedReaction(BasicReaction):
         Args:
             new_temperature: New temperature in Kelvin
             entries_at_temp: A map of precomputed entries to draw from when recalculating this
-                entry at a new temperature
+                entry at a new temperature, keyed by original entry (needed to tell polymorphs
+                apart) or by composition.
         """
         try:
             if entries_at_temp is None:
                 new_entries = [e.get_new_temperature(new_temperature) for e in self.entries]
             else:
-                new_entries = [entries_at_temp.get(e.composition) for e in self.entries]
+                new_entries = [entries_at_temp.get(e, entries_at_temp.get(e.composition)) for e in self.entries]
         except AttributeError as e:
             raise AttributeError(
                 "One or more of the entries in the reaction is not associated with a"
diff --git a/src/rxn_network/reactions/open.py b/src/rxn_network/reactions/open.py
index 70c8e5d..1aba4a4 100644
--- a/src/rxn_network/reactions/open.py
+++ b/src/rxn_network/reactions/open.py
@@ -109,15 +109,15 @@ class OpenComputedReaction(ComputedReaction):
 
         Args:
             new_temperature: New temperature in Kelvin
-            entries_at_temp: A dictionary mapping entry compositions to Entry objects with energies
-                computed at the new temperature. Use this to avoid recomputing entries if you are
+            entries_at_temp: A dictionary mapping original entries (needed to tell polymorphs apart)
+                or entry compositions to Entry objects with energies computed at the new temperature. Use this to avoid recomputing entries if you are
                 applying this method to many reactions.
         """
         try:
             if entries_at_temp is None:
                 new_entries = [e.get_new_temperature(new_temperature) for e in self.entries]
             else:
-                new_entries = [entries_at_temp.get(e.composition) for e in self.entries]
+                new_entries = [entries_at_temp.get(e, entries_at_temp.get(e.composition)) for e in self.entries]
         except AttributeError as e:
             raise AttributeError(
                 "One or more of the entries in the reaction is not associated with a"
diff --git a/src/rxn_network/reactions/reaction_set.py b/src/rxn_network/reactions/reaction_set.py
index dd26686..f16b2d9 100644
--- a/src/rxn_network/reactions/reaction_set.py
+++ b/src/rxn_network/reactions/reaction_set.py
@@ -540,7 +540,7 @@ class ReactionSet(MSONable):
             The new ReactionSet containing the recalculated reactions.
         """
         new_rxns = []
-        entries = {e.composition: e.get_new_temperature(new_temp) for e in self.entries}
+        entries = {e: e.get_new_temperature(new_temp) for e in self.entries}
         for rxn in tqdm(list(self.get_rxns())):
             new_rxns.append(rxn.get_new_temperature(new_temp, entries))
 
@@ -562,7 +562,7 @@ class ReactionSet(MSONable):
         result = {}
         for t in tqdm(temp_list, desc="Computing reaction energies..."):
             new_rxns = []
-            entries = {e.composition: e.get_new_temperature(t) for e in self.entries}
+            entries = {e: e.get_new_temperature(t) for e in self.entries}
             for rxn in all_rxns:
                 new_rxns.append(rxn.get_new_temperature(t, entries))
 
-- 
2.43.0


From 87868276a65e8d809f50776816652797a57d6126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:26 +0000
Subject: [PATCH 04/47] fix: iterate over reaction sets created without data

---
 src/rxn_network/reactions/reaction_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/reactions/reaction_set.py b/src/rxn_network/reactions/reaction_set.py
index f16b2d9..82ea48b 100644
--- a/src/rxn_network/reactions/reaction_set.py
+++ b/src/rxn_network/reactions/reaction_set.py
@@ -66,7 +66,7 @@ class ReactionSet(MSONable):
         self.open_elem = open_elem
         self.chempot = chempot
         if all_data is None:
-            self.all_data = {int(i): np.array([]) for i in self.indices}
+            self.all_data = {int(i): np.array([{} for _ in arr], dtype=object) for i, arr in self.indices.items()}
         else:
             self.all_data = all_data
 
-- 
2.43.0


From 01d7ede4cd68d9428b1cc4092140d675f7348779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:26 +0000
Subject: [PATCH 05/47] fix: find every reaction forming a product, whichever
 entry is listed first

---
 src/rxn_network/reactions/reaction_set.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/rxn_network/reactions/reaction_set.py b/src/rxn_network/reactions/reaction_set.py
index 82ea48b..696c8b9 100644
--- a/src/rxn_network/reactions/reaction_set.py
+++ b/src/rxn_network/reactions/reaction_set.py
@@ -343,7 +343,7 @@ class ReactionSet(MSONable):
             {idx for idx, e in enumerate(self.entries) if e.composition.reduced_formula in reactants}
         )
 
-        if not reactant_indices:
+        if not reactant_indices and not return_set:
             return []
 
         idxs = {}  # type: ignore
@@ -375,19 +375,15 @@ class ReactionSet(MSONable):
         """
         product = Composition(product).reduced_formula
 
-        product_index = None
-        for idx, e in enumerate(self.entries):
-            if e.composition.reduced_formula == product:
-                product_index = idx
-                break
+        product_indices = [idx for idx, e in enumerate(self.entries) if e.composition.reduced_formula == product]
 
-        if not product_index:
+        if not product_indices and not return_set:
             return []
 
         idxs = {}  # type: ignore
         for size, indices in self.indices.items():
             idxs[size] = []
-            contains_product = np.isin(indices, product_index).any(axis=1)
+            contains_product = np.isin(indices, product_indices).any(axis=1)
 
             for idx, coeffs, indices in zip(
                 np.argwhere(contains_product).flatten(),
@@ -395,7 +391,7 @@ class ReactionSet(MSONable):
                 self.indices[size][contains_product], strict=False,
             ):
                 p_indices = {i for c, i in zip(coeffs, indices, strict=False) if c > -1e-12}
-                if product_index in p_indices:
+                if not p_indices.isdisjoint(product_indices):
                     idxs[size].append(idx)
 
         if return_set:
-- 
2.43.0


From 08a865c965432d705ffef12a06fd888130a34540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:10 +0000
Subject: [PATCH 06/47] fix: order the entries of a reaction set independently
 of hashing

---
 src/rxn_network/reactions/reaction_set.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/rxn_network/reactions/reaction_set.py b/src/rxn_network/reactions/reaction_set.py
index 696c8b9..83590b2 100644
--- a/src/rxn_network/reactions/reaction_set.py
+++ b/src/rxn_network/reactions/reaction_set.py
@@ -123,7 +123,8 @@ class ReactionSet(MSONable):
         if not entries:
             entries = cls._get_unique_entries(rxns)
 
-        entries = sorted(set(entries), key=lambda r: r.composition)
+        # break ties between polymorphs so that the order never depends on hashing
+        entries = sorted(set(entries), key=lambda r: (r.composition, r.energy_per_atom, str(r.entry_id)))
 
         # need to index by unique ID in case mixing different temperatures
         all_entry_indices = {}
@@ -298,6 +299,13 @@ class ReactionSet(MSONable):
         """
         new_rxn_set = ReactionSet.from_rxns(rxns, entries=self.entries)
 
+        # the entries of this set may be in another order than that of a newly created set
+        positions = {e: idx for idx, e in enumerate(self.entries)}
+        if new_rxn_set.entries != self.entries and all(e in positions for e in new_rxn_set.entries):
+            mapping = np.array([positions[e] for e in new_rxn_set.entries])
+            new_rxn_set.indices = {size: mapping[idxs] for size, idxs in new_rxn_set.indices.items()}
+            new_rxn_set.entries = self.entries
+
         return self.add_rxn_set(new_rxn_set)
 
     def add_rxn_set(self, rxn_set: ReactionSet) -> ReactionSet:
-- 
2.43.0


From d918346f08900a3ecd438fe72655c26e7fdacdb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:08 +0000
Subject: [PATCH 07/47] fix: keep the shape of empty groups of a restored
 reaction set

---
 src/rxn_network/reactions/reaction_set.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rxn_network/reactions/reaction_set.py b/src/rxn_network/reactions/reaction_set.py
index 83590b2..65ceb2f 100644
--- a/src/rxn_network/reactions/reaction_set.py
+++ b/src/rxn_network/reactions/reaction_set.py
@@ -85,6 +85,10 @@ class ReactionSet(MSONable):
         ):
             self.all_data = {int(size): np.array(arr) for size, arr in self.all_data.items()}
 
+        # a saved array without rows has lost its number of columns and type
+        self.indices = {k: v if len(v) else np.empty((0, k), dtype=int) for k, v in self.indices.items()}
+        self.coeffs = {k: v if len(v) else np.empty((0, k)) for k, v in self.coeffs.items()}
+
         self.open_elem = open_elem
         self.chempot = chempot
 
-- 
2.43.0


From d79194be5385a9eba13b44f09103474dc26a4160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:25 +0000
Subject: [PATCH 08/47] fix: order the entries of a set independently of
 hashing

---
 src/rxn_network/entries/entry_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/entries/entry_set.py b/src/rxn_network/entries/entry_set.py
index b452819..15445c4 100644
--- a/src/rxn_network/entries/entry_set.py
+++ b/src/rxn_network/entries/entry_set.py
@@ -557,7 +557,7 @@ class GibbsEntrySet(collections.abc.MutableSet, MSONable):
     @cached_property
     def entries_list(self) -> list[ComputedEntry]:
         """Returns a list of all entries in the entry set."""
-        return sorted(self.entries, key=lambda e: e.composition)
+        return sorted(self.entries, key=lambda e: (e.composition, e.energy_per_atom, str(e.entry_id)))
 
     @cached_property
     def min_entries_by_formula(self) -> dict[str, ComputedEntry]:
-- 
2.43.0


From 60972c6f45faf5bc0a8c74136566fd839f0fce0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:25 +0000
Subject: [PATCH 09/47] fix: solve pathways on a single CPU, and when no
 combination qualifies

---
 src/rxn_network/pathways/solver.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/rxn_network/pathways/solver.py b/src/rxn_network/pathways/solver.py
index 4fae0d4..5e6671f 100644
--- a/src/rxn_network/pathways/solver.py
+++ b/src/rxn_network/pathways/solver.py
@@ -198,15 +198,15 @@ class PathwaySolver(Solver):
                     costs.append(c)
 
         clean_r_set = ReactionSet.from_rxns(reactions, filter_duplicates=True)
-        cleaned_reactions, cleaned_costs = zip(
-            *[(r, c) for r, c in zip(reactions, costs, strict=False) if r in clean_r_set and r != net_rxn], strict=False
-        )
+        cleaned = [(r, c) for r, c in zip(reactions, costs, strict=False) if r in clean_r_set and r != net_rxn]
+        cleaned_reactions = [r for r, _ in cleaned]
+        cleaned_costs = [c for _, c in cleaned]
 
         net_rxn_vector = net_rxn.get_entry_idx_vector(num_entries)
 
         num_rxns = len(cleaned_reactions)
         num_cpus = ray.cluster_resources()["CPU"]
-        batch_size = self.batch_size or num_cpus - 1
+        batch_size = self.batch_size or max(num_cpus - 1, 1)
 
         net_coeff_filter = np.argwhere(net_rxn_vector != 0).flatten()
         net_coeff_filter = ray.put(net_coeff_filter)
@@ -232,10 +232,11 @@ class PathwaySolver(Solver):
                     pbar.update(1)
                     comp_matrices[n].append(comp_matrices_ref)
 
-                comp_matrices[n] = np.concatenate(comp_matrices[n])
-
-                if not comp_matrices[n].any():  # type: ignore
+                if not any(mat.any() for mat in comp_matrices[n]):  # also when there are fewer than n reactions
                     del comp_matrices[n]
+                    continue
+
+                comp_matrices[n] = np.concatenate(comp_matrices[n])
 
         logger.info("Comp matrices done...")
 
@@ -291,9 +292,8 @@ class PathwaySolver(Solver):
         ):
             c_m_mats.append(c_m_mats_ref)  # noqa: PERF402
 
-        c_mats, m_mats = zip(*c_m_mats, strict=False)
-        c_mats = [mat for mats in c_mats for mat in mats if mat is not None]  # type: ignore
-        m_mats = [mat for mats in m_mats for mat in mats if mat is not None]  # type: ignore
+        c_mats = [mat for mats, _ in c_m_mats for mat in mats if mat is not None]
+        m_mats = [mat for _, mats in c_m_mats for mat in mats if mat is not None]
 
         paths = []
         for c_mat, m_mat in zip(c_mats, m_mats, strict=False):
-- 
2.43.0


From 0162fad16d449175154b90a2a7c7a269a88ae565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:25 +0000
Subject: [PATCH 10/47] fix: keep the intermediate reactions found with an open
 element

---
 src/rxn_network/pathways/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/pathways/solver.py b/src/rxn_network/pathways/solver.py
index 5e6671f..5f06649 100644
--- a/src/rxn_network/pathways/solver.py
+++ b/src/rxn_network/pathways/solver.py
@@ -391,7 +391,7 @@ class PathwaySolver(Solver):
                     mu=self.chempot,
                     targets=target_formulas,
                 )
-                rxn_set.add_rxn_set(mgpe.enumerate(intermediates))
+                rxn_set = rxn_set.add_rxn_set(mgpe.enumerate(intermediates))
 
         rxns = list(filter(lambda x: x.energy_per_atom < energy_cutoff, rxn_set))
         rxns = [r for r in rxns if all(e in intermediates for e in r.entries)]
-- 
2.43.0


From 42264d7bc28b13db097a2a736abb6c71c1123705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:33 +0000
Subject: [PATCH 11/47] fix: connect to the cluster once when several threads
 start operations

---
 src/rxn_network/utils/ray.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/rxn_network/utils/ray.py b/src/rxn_network/utils/ray.py
index a3fe0ff..42eecf2 100644
--- a/src/rxn_network/utils/ray.py
+++ b/src/rxn_network/utils/ray.py
@@ -3,6 +3,7 @@
 from __future__ import annotations
 
 import os
+import threading
 
 import ray
 
@@ -10,6 +11,8 @@ from rxn_network.utils.funcs import get_logger
 
 logger = get_logger(__name__)
 
+_init_lock = threading.Lock()
+
 
 def initialize_ray(quiet: bool = False):
     """Simple function to initialize ray. Basic support for running ray on multiple nodes.
@@ -25,6 +28,12 @@ def initialize_ray(quiet: bool = False):
     """
     if not quiet:
         logger.setLevel("INFO")
+    with _init_lock:
+        _initialize_ray()
+
+
+def _initialize_ray():
+    """Connects to (or creates) a cluster if this process has not done so."""
     if not ray.is_initialized():
         logger.info("Ray is not initialized. Checking for existing cluster...")
         if os.environ.get("IP_HEAD") or int(os.environ.get("PBS_NNODES", "0")) > 1:
-- 
2.43.0


From bded5fca5781e9cdadb3e59296ea87d275cfaba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:39 +0000
Subject: [PATCH 12/47] fix: copy a shared entry set without its caches, which
 other threads may be filling

---
 src/rxn_network/enumerators/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/enumerators/basic.py b/src/rxn_network/enumerators/basic.py
index 17e0c4a..a4d17e4 100644
--- a/src/rxn_network/enumerators/basic.py
+++ b/src/rxn_network/enumerators/basic.py
@@ -335,7 +335,7 @@ class BasicEnumerator(Enumerator):
         precursors, targets = set(), set()
 
         entries_new = GibbsEntrySet(
-            deepcopy(entries),
+            deepcopy(list(entries)),
         )
 
         if self.precursors:
-- 
2.43.0


From 206ff079d31f6b0df5f6ea5d083ecf904da02546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:49 +0000
Subject: [PATCH 13/47] fix: score competition against reactions consuming the
 open phase

---
 src/rxn_network/jobs/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rxn_network/jobs/core.py b/src/rxn_network/jobs/core.py
index 7ed564c..74e7f9b 100644
--- a/src/rxn_network/jobs/core.py
+++ b/src/rxn_network/jobs/core.py
@@ -361,6 +361,8 @@ class CalculateCompetitionMaker(Maker):
         logger.info("Removing unnecessary reactions from total reactions to save memory...")
 
         all_target_reactants = {reactant.reduced_formula for r in target_rxns for reactant in r.reactants}
+        if self.open_formula:
+            all_target_reactants.add(self.open_formula)  # competing reactions may consume it
         all_rxns = all_rxns.get_rxns_by_reactants(
             all_target_reactants,
             return_set=True,  # type: ignore
-- 
2.43.0


From 3af9de5dba43419396bb14079de536e35dd91ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:30 +0000
Subject: [PATCH 14/47] fix: compute chemical potential distances in the
 reaction's own chemical system, whatever its chunk

---
 src/rxn_network/jobs/core.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/rxn_network/jobs/core.py b/src/rxn_network/jobs/core.py
index 74e7f9b..caf834a 100644
--- a/src/rxn_network/jobs/core.py
+++ b/src/rxn_network/jobs/core.py
@@ -778,11 +778,9 @@ def _get_chempot_decorated_rxns_by_chunk(rxn_chunk, entries, cpd_kwargs, open_el
         chemsys = rxn.chemical_system
         elems = chemsys.split("-")
 
-        for c, cpd_calculator in cpd_calc_dict.items():
-            if set(c.split("-")).issuperset(elems):
-                cpd_calc = cpd_calculator
-                break
-        else:
+        # distances depend on the chemical system: only reuse the diagram of exactly this system
+        cpd_calc = cpd_calc_dict.get(chemsys)
+        if cpd_calc is None:
             if open_elem:
                 filtered_entries = entries.get_subset_in_chemsys([*elems, str(open_elem)])
                 filtered_entries = [
-- 
2.43.0


From f5c40027db9c57ae0a7d74eeba48ad5c52f26293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:41 +0000
Subject: [PATCH 15/47] fix: identify the lowest-energy entries of a grand
 potential diagram independently of entry order

---
 src/rxn_network/thermo/chempot_diagram.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/rxn_network/thermo/chempot_diagram.py b/src/rxn_network/thermo/chempot_diagram.py
index 784fae5..3923cc1 100644
--- a/src/rxn_network/thermo/chempot_diagram.py
+++ b/src/rxn_network/thermo/chempot_diagram.py
@@ -189,6 +189,27 @@ class ChemicalPotentialDiagram(ChempotDiagram):
 
         return hyperplanes, hyperplane_entries
 
+    @staticmethod
+    def _get_min_entries_and_el_refs(entries):
+        """Returns the lowest-energy entry of each composition, and those of the elements.
+
+        Unlike the parent method, this considers the composition without any open
+        elements: grand potential entries of different (total) formulas can coincide.
+        """
+        min_entries: dict[str, PDEntry] = {}
+        el_refs = {}
+
+        for e in entries:
+            formula = e.composition.reduced_formula
+            if formula not in min_entries or e.energy_per_atom < min_entries[formula].energy_per_atom:
+                min_entries[formula] = e
+
+        for e in min_entries.values():
+            if e.composition.is_element:
+                el_refs[e.composition.elements[0]] = e
+
+        return list(min_entries.values()), el_refs
+
     def _get_hyperplane(self, entry):
         return np.array([entry.composition.get_atomic_fraction(el) for el in self.elements] + [-entry.energy_per_atom])
 
-- 
2.43.0


From 6d5903bfbfbb19fa33cf1f13c540ff9bd2b11225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:11 +0000
Subject: [PATCH 16/47] fix: build metastable domains without altering the
 diagram's own entries

---
 src/rxn_network/thermo/chempot_diagram.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/rxn_network/thermo/chempot_diagram.py b/src/rxn_network/thermo/chempot_diagram.py
index 3923cc1..28fde4d 100644
--- a/src/rxn_network/thermo/chempot_diagram.py
+++ b/src/rxn_network/thermo/chempot_diagram.py
@@ -222,18 +222,15 @@ class ChemicalPotentialDiagram(ChempotDiagram):
 
         orig_entry = self._entry_set.get_min_entry_by_formula(formula)
         new_entry = self._entry_set.get_stabilized_entry(orig_entry, tol=tol)
-        self._entry_set.add(new_entry)
-        cpd = ChemicalPotentialDiagram(self._entry_set, default_min_limit=-500)
+        cpd = ChemicalPotentialDiagram([*self._entry_set, new_entry], default_min_limit=-500)
 
         try:
             metastable_domain = cpd.domains[formula]
         except KeyError as exc:
             # sometimes if the entry is exactly on the hull it fails, so set force=True
             # and make bigger tolerance
-            self._entry_set.remove(new_entry)
             new_entry = self._entry_set.get_stabilized_entry(orig_entry, tol=1e-2, force=True)
-            self._entry_set.add(new_entry)
-            cpd = ChemicalPotentialDiagram(self._entry_set, default_min_limit=-500)
+            cpd = ChemicalPotentialDiagram([*self._entry_set, new_entry], default_min_limit=-500)
 
             try:
                 metastable_domain = cpd.domains[formula]
@@ -243,7 +240,6 @@ class ChemicalPotentialDiagram(ChempotDiagram):
                 ) from exc
 
         self._metastable_domains[formula] = metastable_domain
-        self._entry_set.remove(new_entry)
 
         return metastable_domain
 
-- 
2.43.0


From 9289c8027e29b1e71623e6728d4ceb30e08bf2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:55 +0000
Subject: [PATCH 17/47] fix: find every one of the k cheapest loopless paths,
 using the cheapest of parallel reactions

---
 src/rxn_network/network/network.py | 43 +++++++++++++++++-------------
 1 file changed, 24 insertions(+), 19 deletions(-)

diff --git a/src/rxn_network/network/network.py b/src/rxn_network/network/network.py
index a4e7ffa..97c8c2c 100644
--- a/src/rxn_network/network/network.py
+++ b/src/rxn_network/network/network.py
@@ -253,7 +253,7 @@ class ReactionNetwork(Network):
 
         for step, node in enumerate(path):
             if g.get_node_data(node).description.value == NetworkEntryType.Products.value:
-                e = g.get_edge_data(path[step - 1], node)
+                e = get_cheapest_edge(g, path[step - 1], node, cf)
 
                 rxns.append(e)
                 costs.append(get_edge_weight(e, cf))
@@ -344,6 +344,18 @@ def get_edge_weight(edge_obj: object, cf: CostFunction):
     raise ValueError("Unknown edge type")
 
 
+def get_cheapest_edge(g: rx.PyDiGraph, source: int, target: int, cf: CostFunction):
+    """Returns the lowest-cost edge among all (parallel) edges between two nodes.
+
+    Args:
+        g: the rustworkx PyDiGraph object.
+        source: index of the source node
+        target: index of the target node
+        cf: Cost function for evaluating edge weights
+    """
+    return min(g.get_all_edge_data(source, target), key=lambda e: get_edge_weight(e, cf))
+
+
 def yens_ksp(
     g: rx.PyGraph,
     cf: CostFunction,
@@ -375,15 +387,13 @@ def yens_ksp(
         """Calculates path cost given a list of nodes."""
         cost = 0
         for j in range(len(nodes) - 1):
-            cost += get_edge_weight(g.get_edge_data(nodes[j], nodes[j + 1]), cf)
+            cost += get_edge_weight(get_cheapest_edge(g, nodes[j], nodes[j + 1], cf), cf)
         return cost
 
     def get_edge_weight_with_cf(edge_obj):
         """Includes user-specified cost function in function call."""
         return get_edge_weight(edge_obj, cf)
 
-    g = g.copy()
-
     shortest_paths = rx.dijkstra_shortest_paths(
         g, precursors_node, target_node, weight_fn=get_edge_weight_with_cf
     )
@@ -407,28 +417,23 @@ def yens_ksp(
 
         for i in range(len(prev_path) - 1):
             spur_node = prev_path[i]
-            root_path = prev_path[:i]
-
-            removed_edges = []
+            root_path = prev_path[: i + 1]
 
+            # leave out the continuations of this root that are known already, as well as
+            # the nodes of the root itself (paths must be loopless)
+            spur_graph = g.copy()
             for path in a:
-                if len(path) - 1 > i and root_path == path[:i]:
-                    try:
-                        e = g.get_edge_data(path[i], path[i + 1])
-                    except rx.NoEdgeBetweenNodes:
-                        continue
-
-                    g.remove_edge(path[i], path[i + 1])
-                    removed_edges.append((path[i], path[i + 1], e))
+                if path[: i + 1] == root_path and len(path) - 1 > i:
+                    while spur_graph.has_edge(path[i], path[i + 1]):
+                        spur_graph.remove_edge(path[i], path[i + 1])
+            spur_graph.remove_nodes_from(root_path[:-1])
 
             spur_path = rx.dijkstra_shortest_paths(  # type: ignore
-                g, spur_node, target_node, weight_fn=get_edge_weight_with_cf
+                spur_graph, spur_node, target_node, weight_fn=get_edge_weight_with_cf
             )
 
-            g.add_edges_from(removed_edges)
-
             if spur_path:
-                total_path = list(root_path) + list(spur_path[target_node])
+                total_path = root_path[:-1] + list(spur_path[target_node])
                 total_path_cost = path_cost(total_path)
                 b.put((total_path_cost, total_path))
 
-- 
2.43.0


From 7d59c7fc438cfb20de7775268e74bcca9b6926a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:19 +0000
Subject: [PATCH 18/47] fix: forget precursors and target when a network is
 rebuilt without them

---
 src/rxn_network/network/network.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rxn_network/network/network.py b/src/rxn_network/network/network.py
index 97c8c2c..a042fc4 100644
--- a/src/rxn_network/network/network.py
+++ b/src/rxn_network/network/network.py
@@ -85,6 +85,8 @@ class ReactionNetwork(Network):
         logger.info(f"Built graph with {g.num_nodes()} nodes and {g.num_edges()} edges")
 
         self._g = g  # type: ignore
+        self._precursors = None
+        self._target = None
 
     def find_pathways(self, targets: list[Entry | str], k: int = 15) -> list[BasicPathway]:
         """Find the k-shortest paths to a provided list of one or more targets.
-- 
2.43.0


From 19c5123c8f53f1ded9d2dc75658d73589473a8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:06 +0000
Subject: [PATCH 19/47] fix: drop the loopback edges of earlier precursors

---
 src/rxn_network/network/network.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/rxn_network/network/network.py b/src/rxn_network/network/network.py
index a042fc4..e5892e5 100644
--- a/src/rxn_network/network/network.py
+++ b/src/rxn_network/network/network.py
@@ -142,7 +142,7 @@ class ReactionNetwork(Network):
             raise ValueError("One or more precursors are not included in network!")
 
         precursors_entry = NetworkEntry(precursors, NetworkEntryType.Precursors)
-        if self.precursors:  # remove old precursors
+        if self.precursors is not None:  # remove old precursors
             for node in g.node_indices():
                 if g.get_node_data(node).description.value == NetworkEntryType.Precursors.value:
                     g.remove_node(node)
@@ -150,6 +150,12 @@ class ReactionNetwork(Network):
             else:
                 raise ValueError("Old precursors node not found in graph!")
 
+            # remove the loopback edges which needed the old precursors
+            for edge_idx, (source, target, edge) in g.edge_index_map().items():
+                if isinstance(edge, str) and edge == "loopback_edge":
+                    if g.get_node_data(source).entries != g.get_node_data(target).entries:
+                        g.remove_edge_from_index(edge_idx)
+
         precursors_node = g.add_node(precursors_entry)
 
         edges_to_add = []
@@ -166,6 +172,8 @@ class ReactionNetwork(Network):
                     if entry2.description.value == NetworkEntryType.Reactants.value:
                         if precursors.issuperset(entry2.entries):
                             continue
+                        if entry.entries == entry2.entries:  # already added by build()
+                            continue
                         if precursors.union(entry.entries).issuperset(entry2.entries):
                             edges_to_add.append((node, node2, "loopback_edge"))
 
-- 
2.43.0


From 053904f6eb148b35253de6c74ab889d84886a0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:54 +0000
Subject: [PATCH 20/47] fix: restore precursors and target of a network,
 leaving the saved dict as is

---
 src/rxn_network/network/base.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/rxn_network/network/base.py b/src/rxn_network/network/base.py
index 75f8b4d..30975a3 100644
--- a/src/rxn_network/network/base.py
+++ b/src/rxn_network/network/base.py
@@ -65,9 +65,9 @@ class Network(MSONable, metaclass=ABCMeta):
         information.
         """
         d = super().as_dict()
-        d["precursors"] = list(self.precursors) if self.precursors else None
+        d["precursors"] = list(self.precursors) if self.precursors is not None else None
         d["target"] = self.target
-        d["graph"] = self.graph.as_dict()
+        d["graph"] = self.graph.as_dict() if self.graph is not None else None
         return d
 
     @classmethod
@@ -75,16 +75,15 @@ class Network(MSONable, metaclass=ABCMeta):
         """Instantiate object from MSONable dict. See monty package for more
         information.
         """
-        precursors = d.pop("precursors", None)
-        target = d.pop("target", None)
-        graph = d.pop("graph", None)
+        d = d.copy()  # leave the provided dict as is
+        precursors = MontyDecoder().process_decoded(d.pop("precursors", None))
+        target = MontyDecoder().process_decoded(d.pop("target", None))
+        graph = MontyDecoder().process_decoded(d.pop("graph", None))
 
         network = super().from_dict(d)
-        network._precursors = precursors  # pylint: disable=protected-access
+        network._precursors = set(precursors) if precursors is not None else None  # pylint: disable=protected-access
         network._target = target  # pylint: disable=protected-access
-        network._g = MontyDecoder().process_decoded(  # pylint: disable=protected-access
-            graph
-        )
+        network._g = graph  # pylint: disable=protected-access
 
         return network
 
-- 
2.43.0


From f9edb3bb4dabd360e8bbeb4c34419b312e5109dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:55 +0000
Subject: [PATCH 21/47] fix: serialise a computed entry without swapping its
 data

---
 src/rxn_network/entries/gibbs.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/rxn_network/entries/gibbs.py b/src/rxn_network/entries/gibbs.py
index aaecfa8..c33b61a 100644
--- a/src/rxn_network/entries/gibbs.py
+++ b/src/rxn_network/entries/gibbs.py
@@ -5,7 +5,7 @@ add extra functionality.
 
 from __future__ import annotations
 
-from copy import deepcopy
+from copy import copy, deepcopy
 from itertools import combinations
 from typing import TYPE_CHECKING
 
@@ -291,15 +291,14 @@ class GibbsComputedEntry(ComputedEntry):
 
     def as_dict(self) -> dict:
         """Returns an MSONable dict."""
-        # Temporarily swap self.data to sanitize Element keys for JSON serialization.
-        # MP API returns oxidation_states with Element keys (e.g., {Element('Li'): 1.0})
-        # which aren't valid JSON keys. We must swap the attribute because pymatgen's
-        # ComputedEntry.as_dict() directly accesses self.data - there's no way to pass
-        # sanitized data as an argument.
-        original_data = self.data
-        self.data = self._sanitize_data(original_data)
-        result = super().as_dict()
-        self.data = original_data
+        # Sanitize Element keys for JSON serialization. MP API returns oxidation_states
+        # with Element keys (e.g., {Element('Li'): 1.0}) which aren't valid JSON keys.
+        # pymatgen's ComputedEntry.as_dict() directly accesses self.data, so this is done
+        # on a shallow copy; the entry itself (which other threads may be using) and its
+        # data are left as they are, even if serialization fails.
+        sanitized_entry = copy(self)
+        sanitized_entry.data = self._sanitize_data(self.data)
+        result = super(GibbsComputedEntry, sanitized_entry).as_dict()
         result["volume_per_atom"] = self.volume_per_atom
         result["formation_energy_per_atom"] = self.formation_energy_per_atom
         result["temperature"] = self.temperature
-- 
2.43.0


From e7ab274c0666c2567d2d9e6e3331dc629021c305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:55 +0000
Subject: [PATCH 22/47] fix: update exactly the temperature-dependent
 adjustments of an entry at a new temperature

---
 src/rxn_network/entries/experimental.py | 3 ++-
 src/rxn_network/entries/gibbs.py        | 3 +++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rxn_network/entries/experimental.py b/src/rxn_network/entries/experimental.py
index 919e021..1d8a666 100644
--- a/src/rxn_network/entries/experimental.py
+++ b/src/rxn_network/entries/experimental.py
@@ -80,7 +80,8 @@ class ExperimentalReferenceEntry(ComputedEntry):
         """
         new_entry_dict = self.as_dict()
         for adj in new_entry_dict["energy_adjustments"]:
-            adj["temp"] = new_temperature
+            if "temp" in adj:
+                adj["temp"] = new_temperature
         new_entry_dict["temperature"] = new_temperature
 
         return self.from_dict(new_entry_dict)
diff --git a/src/rxn_network/entries/gibbs.py b/src/rxn_network/entries/gibbs.py
index c33b61a..0ed20a8 100644
--- a/src/rxn_network/entries/gibbs.py
+++ b/src/rxn_network/entries/gibbs.py
@@ -130,6 +130,9 @@ class GibbsComputedEntry(ComputedEntry):
             temperature.
         """
         new_entry_dict = self.as_dict()
+        for adj in new_entry_dict["energy_adjustments"]:
+            if "temp" in adj:
+                adj["temp"] = new_temperature
         new_entry_dict["temperature"] = new_temperature
 
         return self.from_dict(new_entry_dict)
-- 
2.43.0


From 5d3c59209777bbf078bf362bcb176037e92572fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:55 +0000
Subject: [PATCH 23/47] fix: keep the class and own the data of a copied
 interpolated entry

---
 src/rxn_network/entries/interpolated.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/rxn_network/entries/interpolated.py b/src/rxn_network/entries/interpolated.py
index c0d8362..3dd3f56 100644
--- a/src/rxn_network/entries/interpolated.py
+++ b/src/rxn_network/entries/interpolated.py
@@ -2,6 +2,7 @@
 
 from __future__ import annotations
 
+from copy import deepcopy
 from typing import TYPE_CHECKING
 
 import numpy as np
@@ -94,6 +95,10 @@ class InterpolatedEntry(ComputedEntry):
         )
         return self.copy()
 
+    def copy(self) -> InterpolatedEntry:
+        """Returns a deepcopy of the InterpolatedEntry object."""
+        return deepcopy(self)
+
     @property
     def unique_id(self) -> str:
         """Returns a unique ID for the entry."""
-- 
2.43.0


From 094c7153e2262b69b63c13a6c8d55fdb9209513f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:05 +0000
Subject: [PATCH 24/47] fix: restore an open reaction without altering the
 saved dict

---
 src/rxn_network/reactions/open.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rxn_network/reactions/open.py b/src/rxn_network/reactions/open.py
index 1aba4a4..370b0c8 100644
--- a/src/rxn_network/reactions/open.py
+++ b/src/rxn_network/reactions/open.py
@@ -229,8 +229,8 @@ class OpenComputedReaction(ComputedReaction):
     @classmethod
     def from_dict(cls, d) -> OpenComputedReaction:
         """Returns an OpenComputedReaction object from a dictionary representation."""
-        d["chempots"] = {Element(symbol): u for symbol, u in d["chempots"].items()}
-        return super().from_dict(d)
+        chempots = {Element(symbol): u for symbol, u in d["chempots"].items()}
+        return super().from_dict({**d, "chempots": chempots})
 
     def __repr__(self) -> str:
         cp = f"({','.join([f'mu_{e}={m}' for e, m in self.chempots.items()])})"
-- 
2.43.0


From c5a4d0fa6303714d6e08075ad0ba7c81510fe152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:22 +0000
Subject: [PATCH 25/47] fix: save an interface hull without the endpoint
 reactions it adds itself

---
 src/rxn_network/reactions/hull.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/rxn_network/reactions/hull.py b/src/rxn_network/reactions/hull.py
index 3aef106..4d3a075 100644
--- a/src/rxn_network/reactions/hull.py
+++ b/src/rxn_network/reactions/hull.py
@@ -92,6 +92,14 @@ class InterfaceReactionHull(MSONable):
 
         return fig
 
+    def as_dict(self) -> dict:
+        """Returns a dictionary representation of the hull. The endpoint reactions are left
+        out, as they are created anew upon initialization.
+        """
+        d = super().as_dict()
+        d["reactions"] = [r.as_dict() for r in self.reactions if not any(r is e for e in self.endpoint_reactions)]
+        return d
+
     def get_energy_above_hull(self, reaction: ComputedReaction) -> float:
         """Get the energy of a reaction above the reaction hull."""
         idx = self.reactions.index(reaction)
-- 
2.43.0


From f1fdd0adefab91104113f44961f8aa96471c53a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:22 +0000
Subject: [PATCH 26/47] fix: restore the entries of a set with the data they
 had when saved

---
 src/rxn_network/entries/entry_set.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/rxn_network/entries/entry_set.py b/src/rxn_network/entries/entry_set.py
index 15445c4..e521455 100644
--- a/src/rxn_network/entries/entry_set.py
+++ b/src/rxn_network/entries/entry_set.py
@@ -473,6 +473,21 @@ class GibbsEntrySet(collections.abc.MutableSet, MSONable):
         d["calculate_e_above_hulls"] = self.calculate_e_above_hulls
         return d
 
+    @classmethod
+    def from_dict(cls, d: dict) -> GibbsEntrySet:
+        """Returns a GibbsEntrySet object from MSONable dictionary. Entries are restored
+        along with the data they had when saved (e.g., indices and energies above hull),
+        i.e., without minimizing or calculating again.
+        """
+        decoded = {k: MontyDecoder().process_decoded(v) for k, v in d.items() if not k.startswith("@")}
+        calculate_e_above_hulls = decoded.pop("calculate_e_above_hulls", False)
+        minimize_obj_size = decoded.pop("minimize_obj_size", False)
+
+        entry_set = cls(**decoded)
+        entry_set.calculate_e_above_hulls = calculate_e_above_hulls
+        entry_set.minimize_obj_size = minimize_obj_size
+        return entry_set
+
     @classmethod
     def from_computed_entries(
         cls,
-- 
2.43.0


From 2dd3da219082a4fe436bd5378660b1ec7228a7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:11 +0000
Subject: [PATCH 27/47] fix: fetch each entry once when an element is named
 twice

---
 src/rxn_network/entries/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rxn_network/entries/utils.py b/src/rxn_network/entries/utils.py
index aa5f374..9b60dc5 100644
--- a/src/rxn_network/entries/utils.py
+++ b/src/rxn_network/entries/utils.py
@@ -190,6 +190,8 @@ def get_all_entries_in_chemsys_from_entry_db(
     if isinstance(elements, str):
         elements = elements.split("-")
 
+    elements = list(dict.fromkeys(elements))  # a repeated element would repeat chemical systems
+
     if len(elements) <= 13:
         all_chemsyses = []
         for i in range(len(elements)):
@@ -400,6 +402,8 @@ def get_all_entries_in_chemsys(
     if isinstance(elements, str):
         elements = elements.split("-")
 
+    elements = list(dict.fromkeys(elements))  # a repeated element would repeat chemical systems
+
     if len(elements) <= 13:
         all_chemsyses = []
         for i in range(len(elements)):
-- 
2.43.0


From 088951d885aa4dd8c2b29974ee7d5bf755e0ff2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:26 +0000
Subject: [PATCH 28/47] fix: order the elements in job documents independently
 of hashing

---
 src/rxn_network/jobs/core.py  | 2 +-
 src/rxn_network/jobs/utils.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/rxn_network/jobs/core.py b/src/rxn_network/jobs/core.py
index caf834a..d6d38d8 100644
--- a/src/rxn_network/jobs/core.py
+++ b/src/rxn_network/jobs/core.py
@@ -239,7 +239,7 @@ class ReactionEnumerationMaker(Maker):
 
     def _get_metadata(self, enumerators: Iterable[Enumerator], entries: GibbsEntrySet):
         """Acquires common metadata provided to output document."""
-        chemsys = "-".join(entries.chemsys)
+        chemsys = "-".join(sorted(entries.chemsys))
         targets = {target for enumerator in enumerators for target in enumerator.targets}
 
         added_elements = None
diff --git a/src/rxn_network/jobs/utils.py b/src/rxn_network/jobs/utils.py
index 128d53a..fa4f87a 100644
--- a/src/rxn_network/jobs/utils.py
+++ b/src/rxn_network/jobs/utils.py
@@ -28,8 +28,8 @@ def get_added_elem_data(entries: GibbsEntrySet, targets: Iterable[Composition |
     Returns:
         A tuple of the additional elements and their chemical system string.
     """
-    added_elems = entries.chemsys - {str(e) for target in targets for e in Composition(target).elements}
-    added_chemsys = "-".join(sorted(added_elems))
+    added_elems = sorted(entries.chemsys - {str(e) for target in targets for e in Composition(target).elements})
+    added_chemsys = "-".join(added_elems)
     added_elements = [Element(e) for e in added_elems]
 
     return added_elements, added_chemsys
-- 
2.43.0


From d7465d30fec836c3c1406cd81eb577b44c097ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:17 +0000
Subject: [PATCH 29/47] fix: leave the net reaction out of the steps whatever
 the amounts it is written with

---
 src/rxn_network/pathways/solver.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/rxn_network/pathways/solver.py b/src/rxn_network/pathways/solver.py
index 5f06649..68c36c8 100644
--- a/src/rxn_network/pathways/solver.py
+++ b/src/rxn_network/pathways/solver.py
@@ -198,12 +198,16 @@ class PathwaySolver(Solver):
                     costs.append(c)
 
         clean_r_set = ReactionSet.from_rxns(reactions, filter_duplicates=True)
-        cleaned = [(r, c) for r, c in zip(reactions, costs, strict=False) if r in clean_r_set and r != net_rxn]
+        net_rxn_vector = net_rxn.get_entry_idx_vector(num_entries)
+
+        def is_net_rxn(rxn):  # whatever the amounts it is written with
+            vector = rxn.get_entry_idx_vector(num_entries)
+            return np.allclose(vector / np.linalg.norm(vector), net_rxn_vector / np.linalg.norm(net_rxn_vector))
+
+        cleaned = [(r, c) for r, c in zip(reactions, costs, strict=False) if r in clean_r_set and not is_net_rxn(r)]
         cleaned_reactions = [r for r, _ in cleaned]
         cleaned_costs = [c for _, c in cleaned]
 
-        net_rxn_vector = net_rxn.get_entry_idx_vector(num_entries)
-
         num_rxns = len(cleaned_reactions)
         num_cpus = ray.cluster_resources()["CPU"]
         batch_size = self.batch_size or max(num_cpus - 1, 1)
-- 
2.43.0


From 9fb0191b9c9329087fb48ef49c1df5c25b87ceb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:29 +0000
Subject: [PATCH 30/47] fix: pathways with polymorphs of nearly equal energy
 were given back with another polymorph's reaction

---
 src/rxn_network/pathways/pathway_set.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/rxn_network/pathways/pathway_set.py b/src/rxn_network/pathways/pathway_set.py
index d4e87d6..68e0a67 100644
--- a/src/rxn_network/pathways/pathway_set.py
+++ b/src/rxn_network/pathways/pathway_set.py
@@ -96,7 +96,7 @@ class PathwaySet(MSONable):
         rxns = list(reaction_set.get_rxns())
 
         for path in paths:
-            indices.append([rxns.index(r) for r in path.reactions])
+            indices.append([cls._get_index(rxns, r) for r in path.reactions])
             coefficients.append(getattr(path, "coefficients", None))
             costs.append(path.costs)
 
@@ -107,6 +107,13 @@ class PathwaySet(MSONable):
             costs=costs,
         )
 
+    @staticmethod
+    def _get_index(rxns, rxn) -> int:
+        """Returns the index of a reaction in a list. Reactions of different polymorphs
+        with (nearly) the same energy are equal, so the entries are also compared.
+        """
+        return next(i for i, r in enumerate(rxns) if r == rxn and all(e in r.entries for e in rxn.entries))
+
     @staticmethod
     def _get_reaction_set(
         paths: list[Pathway],
-- 
2.43.0


From df84f6ed2c0e06ba1e78262c8aac82f3a9cee52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:02 +0000
Subject: [PATCH 31/47] fix: refuse to score reactions of more than two
 precursors when an element is open

The two precursors were picked out of a set, so that a reaction of three
phases got scores that depended on string hashing and left out the third.
---
 src/rxn_network/jobs/core.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/rxn_network/jobs/core.py b/src/rxn_network/jobs/core.py
index d6d38d8..a97c95e 100644
--- a/src/rxn_network/jobs/core.py
+++ b/src/rxn_network/jobs/core.py
@@ -753,9 +753,8 @@ def _get_competition_decorated_rxns_by_chunk(rxn_chunk, all_rxns, open_formula):
         competing_rxns = all_rxns.get_rxns_by_reactants(reactants_with_open)
 
         if len(reactant_formulas) >= 3:
-            if open_formula:
-                reactant_formulas = list(set(reactant_formulas) - {open_formula})
-            else:
+            reactant_formulas = [f for f in reactant_formulas if f != open_formula]
+            if len(reactant_formulas) >= 3:
                 raise ValueError("Can only have 2 precursors, excluding open element!")
 
         decorated_rxns.append(_get_competition_decorated_rxn(rxn, competing_rxns, reactant_formulas))
-- 
2.43.0


From c92284b97cc7f7a709748f554f5f6a04aee3acfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:54 +0000
Subject: [PATCH 32/47] fix: compare reduced precursor compositions when
 filtering interdependent pathways

---
 src/rxn_network/pathways/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/pathways/solver.py b/src/rxn_network/pathways/solver.py
index 68c36c8..7029fed 100644
--- a/src/rxn_network/pathways/solver.py
+++ b/src/rxn_network/pathways/solver.py
@@ -331,7 +331,7 @@ class PathwaySolver(Solver):
 
         filtered_paths = []
         if filter_interdependent:
-            precursor_comps = [p.composition for p in precursors]
+            precursor_comps = [p.composition.reduced_composition for p in precursors]
             for p in paths:
                 interdependent = p.contains_interdependent_rxns(precursor_comps)
                 if not interdependent:
-- 
2.43.0


From 6a1904a87702e9b4a6912ec5f0328d9ed4d3786e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:00 +0000
Subject: [PATCH 33/47] fix: compare ratios of reaction coefficients relatively
 when filtering duplicates

The default absolute tolerance of np.isclose makes any two small ratios equal:
of two different reactions between the same phases whose amounts differ by
several orders of magnitude, one was dropped and the other kept twice.
---
 src/rxn_network/reactions/reaction_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/reactions/reaction_set.py b/src/rxn_network/reactions/reaction_set.py
index 65ceb2f..002e5e1 100644
--- a/src/rxn_network/reactions/reaction_set.py
+++ b/src/rxn_network/reactions/reaction_set.py
@@ -675,7 +675,7 @@ def _get_idxs_to_keep(rows, ensure_idxs=None):
 
         multiples = sorted_rows / row
         duplicates = np.argwhere(
-            np.apply_along_axis(lambda r: np.isclose(abs(r[0]), r), axis=1, arr=multiples).all(axis=1)
+            np.apply_along_axis(lambda r: np.isclose(abs(r[0]), r, atol=0), axis=1, arr=multiples).all(axis=1)
         ).flatten()
 
         group = sorted_indices[duplicates]
-- 
2.43.0


From 0aa03a36fb2078b8d8447581fa8ade11f4f384a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:35 +0000
Subject: [PATCH 34/47] fix: choose between polymorphs of equal energy by
 identifier

Which of them was the ground state depended on the order in which the set
happened to be iterated: sets with the same entries gave different answers.
---
 src/rxn_network/entries/entry_set.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rxn_network/entries/entry_set.py b/src/rxn_network/entries/entry_set.py
index e521455..89a70de 100644
--- a/src/rxn_network/entries/entry_set.py
+++ b/src/rxn_network/entries/entry_set.py
@@ -185,7 +185,8 @@ class GibbsEntrySet(collections.abc.MutableSet, MSONable):
 
                 formula = entry.composition.reduced_formula
                 if not include_polymorphs and (formula in all_comps):
-                    if all_comps[formula].energy_per_atom < entry.energy_per_atom:
+                    old = all_comps[formula]
+                    if (old.energy_per_atom, str(old.entry_id)) < (entry.energy_per_atom, str(entry.entry_id)):
                         continue
                     filtered_entries.remove(all_comps[formula])
 
@@ -584,7 +585,7 @@ class GibbsEntrySet(collections.abc.MutableSet, MSONable):
             formula = e.composition.reduced_formula
             if formula not in min_entries:
                 entries = filter(lambda x: x.composition.reduced_formula == formula, self.entries)
-                min_entries[formula] = sorted(entries, key=lambda x: x.energy_per_atom)[0]
+                min_entries[formula] = min(entries, key=lambda x: (x.energy_per_atom, str(x.entry_id)))
 
         return min_entries
 
-- 
2.43.0


From a39b8aad97974cfd31d809a3a1246940e8adb4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:13 +0000
Subject: [PATCH 35/47] fix: order grand potential entries, which have no
 identifier of their own

---
 src/rxn_network/entries/entry_set.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/rxn_network/entries/entry_set.py b/src/rxn_network/entries/entry_set.py
index 89a70de..3d9f324 100644
--- a/src/rxn_network/entries/entry_set.py
+++ b/src/rxn_network/entries/entry_set.py
@@ -49,6 +49,11 @@ if TYPE_CHECKING:
     )
 
 
+def _get_id(entry) -> str:
+    """Identifier of an entry (for a grand potential entry, that of its original entry)."""
+    return str(getattr(getattr(entry, "original_entry", entry), "entry_id", None))
+
+
 class GibbsEntrySet(collections.abc.MutableSet, MSONable):
     """This object is based on pymatgen's EntrySet class and includes factory methods for
     constructing GibbsComputedEntry objects from "zero-temperature"
@@ -186,7 +191,7 @@ class GibbsEntrySet(collections.abc.MutableSet, MSONable):
                 formula = entry.composition.reduced_formula
                 if not include_polymorphs and (formula in all_comps):
                     old = all_comps[formula]
-                    if (old.energy_per_atom, str(old.entry_id)) < (entry.energy_per_atom, str(entry.entry_id)):
+                    if (old.energy_per_atom, _get_id(old)) < (entry.energy_per_atom, _get_id(entry)):
                         continue
                     filtered_entries.remove(all_comps[formula])
 
@@ -573,7 +578,7 @@ class GibbsEntrySet(collections.abc.MutableSet, MSONable):
     @cached_property
     def entries_list(self) -> list[ComputedEntry]:
         """Returns a list of all entries in the entry set."""
-        return sorted(self.entries, key=lambda e: (e.composition, e.energy_per_atom, str(e.entry_id)))
+        return sorted(self.entries, key=lambda e: (e.composition, e.energy_per_atom, _get_id(e)))
 
     @cached_property
     def min_entries_by_formula(self) -> dict[str, ComputedEntry]:
@@ -585,7 +590,7 @@ class GibbsEntrySet(collections.abc.MutableSet, MSONable):
             formula = e.composition.reduced_formula
             if formula not in min_entries:
                 entries = filter(lambda x: x.composition.reduced_formula == formula, self.entries)
-                min_entries[formula] = min(entries, key=lambda x: (x.energy_per_atom, str(x.entry_id)))
+                min_entries[formula] = min(entries, key=lambda x: (x.energy_per_atom, _get_id(x)))
 
         return min_entries
 
-- 
2.43.0


From a7dfe35224c51635e4d512f4a97e9f31010e0a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:13 +0000
Subject: [PATCH 36/47] fix: forget cached answers of an entry set also when an
 update fails part way

---
 src/rxn_network/entries/entry_set.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/rxn_network/entries/entry_set.py b/src/rxn_network/entries/entry_set.py
index 3d9f324..021d6cf 100644
--- a/src/rxn_network/entries/entry_set.py
+++ b/src/rxn_network/entries/entry_set.py
@@ -119,8 +119,10 @@ class GibbsEntrySet(collections.abc.MutableSet, MSONable):
         Args:
             entries: Iterable of entry objects to add to the set.
         """
-        self.entries.update(entries)
-        self._clear_cache()
+        try:
+            self.entries.update(entries)
+        finally:  # some may have been added even if this failed
+            self._clear_cache()
 
     def discard(self, entry: GibbsComputedEntry | ExperimentalReferenceEntry) -> None:
         """Discard an entry. This is an IN-PLACE method.
-- 
2.43.0


From c593b8329eb44a955ccebe2a5a69ab311d0c02f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:13 +0000
Subject: [PATCH 37/47] fix: keep chemical potential domains of elements whose
 plane is also a limit

---
 src/rxn_network/thermo/chempot_diagram.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/rxn_network/thermo/chempot_diagram.py b/src/rxn_network/thermo/chempot_diagram.py
index 28fde4d..da77ca5 100644
--- a/src/rxn_network/thermo/chempot_diagram.py
+++ b/src/rxn_network/thermo/chempot_diagram.py
@@ -163,8 +163,18 @@ class ChemicalPotentialDiagram(ChempotDiagram):
         domains: dict[str, list] = {entry.composition.reduced_formula: [] for entry in self._hyperplane_entries}
         entries = self._hyperplane_entries
 
+        # an element and the limit of its chemical potential can be the same plane, of which
+        # the intersection keeps either one
+        n = len(self._hyperplanes)
+        same = {
+            n + i: j
+            for i, border in enumerate(self._border_hyperplanes)
+            for j, plane in enumerate(self._hyperplanes)
+            if np.allclose(border, plane, rtol=0, atol=1e-12)
+        }
+
         for intersection, facet in zip(self.hs_int.intersections, self.hs_int.dual_facets, strict=False):
-            for v in facet:
+            for v in {same.get(v, v) for v in facet}:
                 if v not in self._border_hyperplane_indices:
                     this_entry = entries[v]
                     formula = this_entry.composition.reduced_formula
-- 
2.43.0


From 52028121205c95665f1cf71a787d1d54a597d069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:13 +0000
Subject: [PATCH 38/47] fix: use an aggregation function given to
 ChempotDistanceCalculator

---
 src/rxn_network/costs/calculators.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rxn_network/costs/calculators.py b/src/rxn_network/costs/calculators.py
index bfa70ac..86ffd7e 100644
--- a/src/rxn_network/costs/calculators.py
+++ b/src/rxn_network/costs/calculators.py
@@ -59,6 +59,8 @@ class ChempotDistanceCalculator(Calculator):
             self.mu_func = sum  # type: ignore
         elif isinstance(mu_func, str):
             raise ValueError("Provided mu_func name is not a known function; please provide the function directly.")
+        else:
+            self.mu_func = mu_func
 
         self._open_elems = set()
         if cpd.entries[0].__class__.__name__ == "GrandPotPDEntry":
-- 
2.43.0


From ad4f7374437dea5b3715039f56ea5f26062c5f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:13 +0000
Subject: [PATCH 39/47] fix: give every reaction its own data dictionary

---
 src/rxn_network/reactions/basic.py    | 6 ++----
 src/rxn_network/reactions/computed.py | 4 +---
 src/rxn_network/reactions/open.py     | 4 +---
 3 files changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/rxn_network/reactions/basic.py b/src/rxn_network/reactions/basic.py
index 668b91b..4fea4ec 100644
--- a/src/rxn_network/reactions/basic.py
+++ b/src/rxn_network/reactions/basic.py
@@ -76,7 +76,7 @@ class BasicReaction(Reaction):
             else:
                 self.balanced = True
 
-        self.data = data if data else {}
+        self.data = dict(data) if data else {}
         self.lowest_num_errors = lowest_num_errors
 
     @classmethod
@@ -96,9 +96,7 @@ class BasicReaction(Reaction):
         """
         compositions = list(reactants + products)
         coeffs, lowest_num_errors, num_constraints = cls._balance_coeffs(reactants, products)
-        if not data:
-            data = {}
-        data["num_constraints"] = num_constraints
+        data = {**(data or {}), "num_constraints": num_constraints}
 
         balanced = True
         if coeffs is None or lowest_num_errors == np.inf:
diff --git a/src/rxn_network/reactions/computed.py b/src/rxn_network/reactions/computed.py
index 0d1cc60..22e4b95 100644
--- a/src/rxn_network/reactions/computed.py
+++ b/src/rxn_network/reactions/computed.py
@@ -67,9 +67,7 @@ class ComputedReaction(BasicReaction):
         product_comps = [e.composition.reduced_composition for e in product_entries]
         coefficients, lowest_num_errors, num_constraints = cls._balance_coeffs(reactant_comps, product_comps)
 
-        if not data:
-            data = {}
-        data["num_constraints"] = num_constraints
+        data = {**(data or {}), "num_constraints": num_constraints}
 
         return cls(
             entries=list(reactant_entries) + list(product_entries),
diff --git a/src/rxn_network/reactions/open.py b/src/rxn_network/reactions/open.py
index 370b0c8..0006d9d 100644
--- a/src/rxn_network/reactions/open.py
+++ b/src/rxn_network/reactions/open.py
@@ -89,9 +89,7 @@ class OpenComputedReaction(ComputedReaction):
         product_comps = [e.composition.reduced_composition for e in product_entries]
         coefficients, lowest_num_errors, num_constraints = cls._balance_coeffs(reactant_comps, product_comps)
 
-        if not data:
-            data = {}
-        data["num_constraints"] = num_constraints
+        data = {**(data or {}), "num_constraints": num_constraints}
 
         entries = list(reactant_entries) + list(product_entries)
 
-- 
2.43.0


From bcc78ba6dd34c75580446f34bd8c0dd5adbbc725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:13 +0000
Subject: [PATCH 40/47] fix: accept whole numbers as coefficients of a reaction

---
 src/rxn_network/reactions/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/reactions/basic.py b/src/rxn_network/reactions/basic.py
index 4fea4ec..50c6902 100644
--- a/src/rxn_network/reactions/basic.py
+++ b/src/rxn_network/reactions/basic.py
@@ -56,7 +56,7 @@ class BasicReaction(Reaction):
                 phases may be shuffled or removed entirely).
         """
         self._compositions = [Composition(c) for c in compositions]
-        self._coefficients = np.array(coefficients)
+        self._coefficients = np.array(coefficients, dtype=float)
 
         self.reactant_coeffs = {
             comp: coeff for comp, coeff in zip(self._compositions, self._coefficients, strict=False) if coeff < 0
-- 
2.43.0


From d50f5dba6073087d3742a42ea53356b2b77c3433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:13 +0000
Subject: [PATCH 41/47] fix: give every open reaction its own chemical
 potentials

---
 src/rxn_network/reactions/open.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/rxn_network/reactions/open.py b/src/rxn_network/reactions/open.py
index 0006d9d..cf47ea8 100644
--- a/src/rxn_network/reactions/open.py
+++ b/src/rxn_network/reactions/open.py
@@ -49,8 +49,8 @@ class OpenComputedReaction(ComputedReaction):
             lowest_num_errors=lowest_num_errors,
         )
 
-        self.chempots = chempots
-        self.open_elems = list(chempots.keys())
+        self.chempots = dict(chempots)
+        self.open_elems = list(self.chempots.keys())
 
         grand_entries = []
         for e in entries:
@@ -58,7 +58,7 @@ class OpenComputedReaction(ComputedReaction):
             if len(comp.elements) == 1 and comp.elements[0] in self.open_elems:
                 grand_entries.append(e)
             else:
-                grand_entries.append(GrandPotPDEntry(e, chempots))
+                grand_entries.append(GrandPotPDEntry(e, self.chempots))
 
         self.grand_entries = grand_entries
 
-- 
2.43.0


From 76af7395532bb9fc0b04a86701b286cbe828b4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:13 +0000
Subject: [PATCH 42/47] fix: keep a reaction open when it is normalized

---
 src/rxn_network/reactions/open.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/rxn_network/reactions/open.py b/src/rxn_network/reactions/open.py
index cf47ea8..e59b3e3 100644
--- a/src/rxn_network/reactions/open.py
+++ b/src/rxn_network/reactions/open.py
@@ -177,6 +177,18 @@ class OpenComputedReaction(ComputedReaction):
             self.lowest_num_errors,
         )
 
+    def normalize_to(self, comp: Composition, factor: float = 1) -> OpenComputedReaction:
+        """Normalizes the reaction to one of the compositions via the provided factor. See
+        ComputedReaction.normalize_to(); the chemical potentials are kept.
+        """
+        return self.from_computed_rxn(super().normalize_to(comp, factor), self.chempots)
+
+    def normalize_to_element(self, element: Element, factor: float = 1) -> OpenComputedReaction:
+        """Normalizes the reaction to one of the elements. See
+        ComputedReaction.normalize_to_element(); the chemical potentials are kept.
+        """
+        return self.from_computed_rxn(super().normalize_to_element(element, factor), self.chempots)
+
     @cached_property
     def reactant_atomic_fractions(self) -> dict:
         """Returns the atomic mixing ratio of reactants in the reaction."""
-- 
2.43.0


From bdd21464a1e1f4048bf044f1843fd1684431126a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:13 +0000
Subject: [PATCH 43/47] fix: let entries_at_temp be left out for open reactions
 too

---
 src/rxn_network/reactions/open.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/reactions/open.py b/src/rxn_network/reactions/open.py
index e59b3e3..3de3a61 100644
--- a/src/rxn_network/reactions/open.py
+++ b/src/rxn_network/reactions/open.py
@@ -102,7 +102,7 @@ class OpenComputedReaction(ComputedReaction):
 
         return ComputedReaction(**kwargs) if not chempots else cls(chempots=chempots, **kwargs)
 
-    def get_new_temperature(self, new_temperature: float, entries_at_temp: dict | None) -> OpenComputedReaction:
+    def get_new_temperature(self, new_temperature: float, entries_at_temp: dict | None = None) -> OpenComputedReaction:
         """Returns a new reaction with the temperature changed.
 
         Args:
-- 
2.43.0


From 912a5ca33017059516eec829ea6ca2f7ea75976f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:13 +0000
Subject: [PATCH 44/47] fix: weight product fractions of open reactions by
 their coefficients

---
 src/rxn_network/reactions/open.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/reactions/open.py b/src/rxn_network/reactions/open.py
index 3de3a61..2502557 100644
--- a/src/rxn_network/reactions/open.py
+++ b/src/rxn_network/reactions/open.py
@@ -207,7 +207,7 @@ class OpenComputedReaction(ComputedReaction):
             raise ValueError("Reaction is not balanced")
 
         return {
-            c.reduced_composition: sum(c[el] for el in self.elements) / self.num_atoms
+            c.reduced_composition: coeff * sum(c[el] for el in self.elements) / self.num_atoms
             for c, coeff in self.product_coeffs.items()
         }
 
-- 
2.43.0


From fa329a95b28e440edfcb8c56c495bef046a230aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:13 +0000
Subject: [PATCH 45/47] fix: return no decomposition area where an interval
 holds one point

---
 src/rxn_network/reactions/hull.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/reactions/hull.py b/src/rxn_network/reactions/hull.py
index 4d3a075..d04dabb 100644
--- a/src/rxn_network/reactions/hull.py
+++ b/src/rxn_network/reactions/hull.py
@@ -353,7 +353,7 @@ class InterfaceReactionHull(MSONable):
             The area of reaction decomposition between the two points.
         """
         coords = self.get_coords_in_range(x1, x2)
-        if len(coords) == 2:
+        if len(coords) < 3:
             return 0
 
         return ConvexHull(coords, qhull_options="QJ i").volume  # this is how area is defined in scipy
-- 
2.43.0


From 4dcbdbdf3d3ae5a51b4161d31b48fe37e7ccbda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:13 +0000
Subject: [PATCH 46/47] fix: count one decomposition path in intervals of a
 single point

---
 src/rxn_network/reactions/hull.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rxn_network/reactions/hull.py b/src/rxn_network/reactions/hull.py
index d04dabb..1112f0a 100644
--- a/src/rxn_network/reactions/hull.py
+++ b/src/rxn_network/reactions/hull.py
@@ -407,6 +407,9 @@ class InterfaceReactionHull(MSONable):
         Args:
             num: Number of product vertices.
         """
+        if num < 1:
+            return 1
+
         counts = [
             1,
             1,
-- 
2.43.0


From 9d93148157ac7d1e5eb9a86dcc365fbfc16dd2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:13 +0000
Subject: [PATCH 47/47] fix: keep reactants as references in recursive
 decomposition energies

---
 src/rxn_network/reactions/hull.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/rxn_network/reactions/hull.py b/src/rxn_network/reactions/hull.py
index 1112f0a..67bc047 100644
--- a/src/rxn_network/reactions/hull.py
+++ b/src/rxn_network/reactions/hull.py
@@ -485,20 +485,23 @@ class InterfaceReactionHull(MSONable):
         val = 0
         total = 0
         for c in coords:
-            if c[0] == 0.0 and not np.isclose(c[1], 0.0):
-                use_x_min_ref = False
-            elif c[0] == 1.0 and not np.isclose(c[1], 0.0):
-                use_x_max_ref = False
+            # the references lie beyond the decomposed reactants, i.e., in one of both parts only
+            is_x_min = c[0] == 0.0 and not np.isclose(c[1], 0.0)
+            is_x_max = c[0] == 1.0 and not np.isclose(c[1], 0.0)
 
             height = self._calculate_altitude([x_min, y_min], c, [x_max, y_max])  # type: ignore
             (
                 left_decomp,
                 left_total,
-            ) = self.get_decomposition_energy_and_num_paths_recursive(x_min, c[0], use_x_min_ref, use_x_max_ref)
+            ) = self.get_decomposition_energy_and_num_paths_recursive(
+                x_min, c[0], use_x_min_ref, use_x_max_ref and not is_x_max
+            )
             (
                 right_decomp,
                 right_total,
-            ) = self.get_decomposition_energy_and_num_paths_recursive(c[0], x_max, use_x_min_ref, use_x_max_ref)
+            ) = self.get_decomposition_energy_and_num_paths_recursive(
+                c[0], x_max, use_x_min_ref and not is_x_min, use_x_max_ref
+            )
 
             val += height * (left_total * right_total) + left_decomp * right_total + right_decomp * left_total
             total += left_total * right_total
-- 
2.43.0

