From 15ac9cce4afa14b94b768ee1c153bc0b86d25643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:37 +0000
Subject: [PATCH 001/126] fix: keep the recorded current best/worst agents
 independent of later in-place changes

---
 mealpy/optimizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/optimizer.py b/mealpy/optimizer.py
index 8b54ec7..8c2f805 100644
--- a/mealpy/optimizer.py
+++ b/mealpy/optimizer.py
@@ -622,11 +622,11 @@ class Optimizer:
         c_best, c_worst = sorted_pop[0], sorted_pop[-1]
         if save:
             ## Save current best
-            self.history.list_current_best.append(c_best)
+            self.history.list_current_best.append(c_best.copy())
             better = self.get_better_agent(c_best, self.history.list_global_best[-1], self.problem.minmax)
             self.history.list_global_best.append(better)
             ## Save current worst
-            self.history.list_current_worst.append(c_worst)
+            self.history.list_current_worst.append(c_worst.copy())
             worse = self.get_better_agent(c_worst, self.history.list_global_worst[-1], self.problem.minmax, reverse=True)
             self.history.list_global_worst.append(worse)
             return sorted_pop, better
-- 
2.43.0


From de05830585724f8031e6dc6881f3dc977d97a3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:37 +0000
Subject: [PATCH 002/126] fix: tournament selection draws at least as many
 candidates as it must return

---
 mealpy/optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/optimizer.py b/mealpy/optimizer.py
index 8c2f805..ae9502d 100644
--- a/mealpy/optimizer.py
+++ b/mealpy/optimizer.py
@@ -705,7 +705,7 @@ class Optimizer:
             list: List of the selected indexes
         """
         if 0 < k_way < 1:
-            k_way = int(k_way * len(pop))
+            k_way = max(output, int(k_way * len(pop)))
         list_id = self.generator.choice(range(len(pop)), k_way, replace=False)
         list_parents = [[idx, pop[idx].target.fitness] for idx in list_id]
         if self.problem.minmax == "min":
-- 
2.43.0


From a9853cf4872b86f0b1d845d4b0fb38b036baeb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:29 +0000
Subject: [PATCH 003/126] fix: Agent.copy shares no position array with the
 original

---
 mealpy/utils/agent.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mealpy/utils/agent.py b/mealpy/utils/agent.py
index e93d7ab..4df9945 100644
--- a/mealpy/utils/agent.py
+++ b/mealpy/utils/agent.py
@@ -28,7 +28,9 @@ class Agent:
             setattr(self, key, value)
 
     def copy(self) -> 'Agent':
-        agent = Agent(self.solution, self.target.copy(), **self.kwargs)
+        # The copy owns its position: in-place changes of one agent must not move the other one
+        solution = self.solution.copy() if hasattr(self.solution, "copy") else self.solution
+        agent = Agent(solution, self.target.copy(), **self.kwargs)
         # Copy any changes made to the attributes
         for attr, value in vars(self).items():
             if attr not in ['target', 'solution', 'id', 'kwargs']:
-- 
2.43.0


From 0c8e1ecace9598e0b437e7cbeb2b7ee79efeffd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:29 +0000
Subject: [PATCH 004/126] fix: FOA evaluates bounded smell positions

---
 mealpy/swarm_based/FOA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/FOA.py b/mealpy/swarm_based/FOA.py
index e7f40ca..c89c03d 100644
--- a/mealpy/swarm_based/FOA.py
+++ b/mealpy/swarm_based/FOA.py
@@ -62,7 +62,7 @@ class OriginalFOA(Optimizer):
     def generate_empty_agent(self, solution: np.ndarray = None) -> Agent:
         if solution is None:
             solution = self.problem.generate_solution(encoded=True)
-        solution = self.norm_consecutive_adjacent__(solution)
+            solution = self.correct_solution(self.norm_consecutive_adjacent__(solution))
         return Agent(solution=solution)
 
     def evolve(self, epoch):
-- 
2.43.0


From 0771285670c1129ec0907f2c4f6c7e84531a3886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:29 +0000
Subject: [PATCH 005/126] fix: TWO variants evaluate the corrected position
 they store

---
 mealpy/physics_based/TWO.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mealpy/physics_based/TWO.py b/mealpy/physics_based/TWO.py
index 759bb1a..3bcf3c3 100644
--- a/mealpy/physics_based/TWO.py
+++ b/mealpy/physics_based/TWO.py
@@ -214,7 +214,7 @@ class OppoTWO(OriginalTWO):
             pos_new = np.where(conditions, pos_new, self.pop[idx].solution)
             pop_new[idx].solution = self.correct_solution(pos_new)
             if self.mode not in self.AVAILABLE_MODES:
-                pop_new[idx].target = self.get_target(pos_new)
+                pop_new[idx].target = self.get_target(pop_new[idx].solution)
                 self.pop[idx] = self.get_better_agent(pop_new[idx], self.pop[idx], self.problem.minmax)
         if self.mode in self.AVAILABLE_MODES:
             pop_new = self.update_target_for_population(pop_new)
@@ -306,7 +306,7 @@ class LevyTWO(OriginalTWO):
                             pos_new[jdx] = self.problem.ub[jdx]
             pop_new[idx].solution = self.correct_solution(pos_new)
             if self.mode not in self.AVAILABLE_MODES:
-                pop_new[idx].target = self.get_target(pos_new)
+                pop_new[idx].target = self.get_target(pop_new[idx].solution)
                 self.pop[idx] = self.get_better_agent(pop_new[idx], self.pop[idx], self.problem.minmax)
         if self.mode in self.AVAILABLE_MODES:
             pop_new = self.update_target_for_population(pop_new)
@@ -420,7 +420,7 @@ class EnhancedTWO(OppoTWO, LevyTWO):
                             pos_new[jdx] = self.problem.ub[jdx]
             pop_new[idx].solution = self.correct_solution(pos_new)
             if self.mode not in self.AVAILABLE_MODES:
-                pop_new[idx].target = self.get_target(pos_new)
+                pop_new[idx].target = self.get_target(pop_new[idx].solution)
                 self.pop[idx] = self.get_better_agent(pop_new[idx], self.pop[idx], self.problem.minmax)
         if self.mode in self.AVAILABLE_MODES:
             pop_new = self.update_target_for_population(pop_new)
-- 
2.43.0


From 720e75a85c3402f26db9bcca321a7425576f5a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:29 +0000
Subject: [PATCH 006/126] fix: ArchOA evaluates the corrected position it
 stores

---
 mealpy/physics_based/ArchOA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/physics_based/ArchOA.py b/mealpy/physics_based/ArchOA.py
index e0efd68..988f4b7 100644
--- a/mealpy/physics_based/ArchOA.py
+++ b/mealpy/physics_based/ArchOA.py
@@ -142,7 +142,7 @@ class OriginalArchOA(Optimizer):
             agent.solution = self.correct_solution(pos_new)
             pop_new.append(agent)
             if self.mode not in self.AVAILABLE_MODES:
-                agent.target = self.get_target(pos_new)
+                agent.target = self.get_target(agent.solution)
                 self.pop[idx] = self.get_better_agent(agent, self.pop[idx], self.problem.minmax)
         if self.mode in self.AVAILABLE_MODES:
             pop_new = self.update_target_for_population(pop_new)
-- 
2.43.0


From 07922c898fdeaac5ed80397a748681d1d4348822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:29 +0000
Subject: [PATCH 007/126] fix: BCO swimming step evaluates the corrected
 position it stores

---
 mealpy/bio_based/BCO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/bio_based/BCO.py b/mealpy/bio_based/BCO.py
index 781d6ce..62c0555 100644
--- a/mealpy/bio_based/BCO.py
+++ b/mealpy/bio_based/BCO.py
@@ -116,7 +116,7 @@ class OriginalBCO(Optimizer):
                 # Continue swimming without turbulence
                 pos_new = self.pop[idx].solution + step * step_direction
                 agent_new.solution = self.correct_solution(pos_new)
-                agent_new.target = self.get_target(pos_new)
+                agent_new.target = self.get_target(agent_new.solution)
                 m += 1
 
         # 2. Interactive Exchange
-- 
2.43.0


From 4c966a7cf7f87a0ae45ed8082da6190accd8f0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:29 +0000
Subject: [PATCH 008/126] fix: BeesA dance no longer moves the dancing bee
 without re-evaluating it

---
 mealpy/swarm_based/BeesA.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mealpy/swarm_based/BeesA.py b/mealpy/swarm_based/BeesA.py
index d78d976..ce35914 100644
--- a/mealpy/swarm_based/BeesA.py
+++ b/mealpy/swarm_based/BeesA.py
@@ -215,6 +215,7 @@ class OriginalBeesA(Optimizer):
 
     def perform_dance__(self, position, r):
         jdx = self.generator.choice(range(0, self.problem.n_dims))
+        position = position.copy()
         position[jdx] = position[jdx] + r * self.generator.uniform(-1, 1)
         return self.correct_solution(position)
 
@@ -329,6 +330,7 @@ class ProbBeesA(Optimizer):
 
     def perform_dance__(self, position, r):
         jdx = self.generator.choice(list(range(0, self.problem.n_dims)))
+        position = position.copy()
         position[jdx] = position[jdx] + r * self.generator.uniform(-1, 1)
         return self.correct_solution(position)
 
-- 
2.43.0


From 9783b7b9524ff13775c1a5871ed1f61ca7091516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:29 +0000
Subject: [PATCH 009/126] fix: AAA helical movement no longer moves an accepted
 agent in place

---
 mealpy/bio_based/AAA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/bio_based/AAA.py b/mealpy/bio_based/AAA.py
index e8183dc..4f1877a 100644
--- a/mealpy/bio_based/AAA.py
+++ b/mealpy/bio_based/AAA.py
@@ -164,7 +164,7 @@ class OriginalAAA(Optimizer):
                 # Movement cost
                 energy[idx] = energy[idx] - self.e_loss / 2
                 pos_new = self.correct_solution(pos_new)
-                agent_new = self.generate_agent(pos_new)
+                agent_new = self.generate_agent(pos_new.copy())
                 if self.compare_target(agent_new.target, self.pop[idx].target, self.problem.minmax):
                     self.pop[idx] = agent_new
                     self.starvation[idx] = 0
-- 
2.43.0


From 9ce9591013c9c085ff5b67b872557777e668f265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:29 +0000
Subject: [PATCH 010/126] fix: OriginalSBO stores the new position together
 with its target in single mode

---
 mealpy/bio_based/SBO.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mealpy/bio_based/SBO.py b/mealpy/bio_based/SBO.py
index a88bcb1..9ad2168 100644
--- a/mealpy/bio_based/SBO.py
+++ b/mealpy/bio_based/SBO.py
@@ -225,6 +225,7 @@ class OriginalSBO(DevSBO):
             agent = self.generate_empty_agent(pos_new)
             pop_new.append(agent)
             if self.mode not in self.AVAILABLE_MODES:
-                self.pop[idx].target = self.get_target(pos_new)
+                agent.target = self.get_target(pos_new)
+                self.pop[idx] = agent
         if self.mode in self.AVAILABLE_MODES:
             self.pop = self.update_target_for_population(pop_new)
-- 
2.43.0


From 06c13d3ff96406099d80ac62b14d08b85d57a77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:29 +0000
Subject: [PATCH 011/126] fix: WHO social memory stores the corrected position
 it evaluated

---
 mealpy/bio_based/WHO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/bio_based/WHO.py b/mealpy/bio_based/WHO.py
index 8d5ffef..eaf3c54 100644
--- a/mealpy/bio_based/WHO.py
+++ b/mealpy/bio_based/WHO.py
@@ -169,7 +169,7 @@ class OriginalWHO(Optimizer):
             for jdx in range(0, self.n_exploit_step):
                 temp = g_best.solution + 0.1 * self.generator.uniform(self.problem.lb, self.problem.ub)
                 pos_new = self.correct_solution(temp)
-                agent = self.generate_empty_agent(temp)
+                agent = self.generate_empty_agent(pos_new)
                 pop_child.append(agent)
                 if self.mode not in self.AVAILABLE_MODES:
                     agent.target = self.get_target(pos_new)
-- 
2.43.0


From 5b6c5bd529d46c110b9f154ff5e4f5a9e5769530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:29 +0000
Subject: [PATCH 012/126] fix: THRO training works on a copy of the horse's
 position

---
 mealpy/game_based/THRO.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/game_based/THRO.py b/mealpy/game_based/THRO.py
index 8920b69..82cd73e 100644
--- a/mealpy/game_based/THRO.py
+++ b/mealpy/game_based/THRO.py
@@ -292,7 +292,7 @@ class OriginalTHRO(Optimizer):
 
         for idx in range(self.n_pop):
             # Training for Tianji's population
-            pos_new = self.pop_tianji[idx].solution
+            pos_new = self.pop_tianji[idx].solution.copy()
             for jdx in range(self.problem.n_dims):
                 if self.generator.random() > 0.5:       # Levy flight based training
                     tr4, tr5 = self.generator.choice(list(set(range(self.n_pop)) - {idx}), size=2, replace=False)
@@ -307,7 +307,7 @@ class OriginalTHRO(Optimizer):
                 self.pop_tianji[idx] = agent
 
             # Training for King's population
-            pos_new = self.pop_tianji[idx].solution
+            pos_new = self.pop_tianji[idx].solution.copy()
             for jdx in range(self.problem.n_dims):
                 if self.generator.random() > 0.5:       # Levy flight based training
                     kr1, kr2 = self.generator.choice(list(set(range(self.n_pop)) - {idx}), size=2, replace=False)
-- 
2.43.0


From 77e8adec7701542dfb9cae0f0b29db28545eade0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:29 +0000
Subject: [PATCH 013/126] fix: SA corrects the perturbed position before
 evaluating it

---
 mealpy/physics_based/SA.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/physics_based/SA.py b/mealpy/physics_based/SA.py
index c2618af..88bd40a 100644
--- a/mealpy/physics_based/SA.py
+++ b/mealpy/physics_based/SA.py
@@ -82,7 +82,7 @@ class OriginalSA(Optimizer):
         # Perturb the current solution
 
         pos_new = self.agent_current.solution + self.generator.standard_normal(self.problem.n_dims) * self.step_size
-        agent = self.generate_agent(pos_new)
+        agent = self.generate_agent(self.correct_solution(pos_new))
         # Accept or reject the new solution
         if self.compare_target(agent.target, self.agent_current.target, self.problem.minmax):
             self.agent_current = agent
@@ -176,7 +176,7 @@ class GaussianSA(Optimizer):
         """
         # Perturb the current solution
         pos_new = self.agent_current.solution + self.generator.normal(scale=self.scale, size=self.problem.n_dims)
-        agent = self.generate_agent(pos_new)
+        agent = self.generate_agent(self.correct_solution(pos_new))
         # Accept or reject the new solution
         if self.compare_target(agent.target, self.agent_current.target, self.problem.minmax):
             self.agent_current = agent
-- 
2.43.0


From 919f0f03ed14dfc17c117aefcf9a51e0600810cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:29 +0000
Subject: [PATCH 014/126] fix: GA selection returns copies so mutation cannot
 move the parents

---
 mealpy/evolutionary_based/GA.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mealpy/evolutionary_based/GA.py b/mealpy/evolutionary_based/GA.py
index 550a084..89b0d5f 100644
--- a/mealpy/evolutionary_based/GA.py
+++ b/mealpy/evolutionary_based/GA.py
@@ -142,7 +142,7 @@ class BaseGA(Optimizer):
             id_c1, id_c2 = self.generator.choice(range(self.pop_size), 2, replace=False)
         else:   ## tournament
             id_c1, id_c2 = self.get_index_kway_tournament_selection(self.pop, k_way=self.k_way, output=2)
-        return self.pop[id_c1].solution, self.pop[id_c2].solution
+        return self.pop[id_c1].solution.copy(), self.pop[id_c2].solution.copy()
 
     def selection_process_00__(self, pop_selected):
         """
@@ -168,7 +168,7 @@ class BaseGA(Optimizer):
             id_c1, id_c2 = self.generator.choice(range(len(pop_selected)), 2, replace=False)
         else:   ## tournament
             id_c1, id_c2 = self.get_index_kway_tournament_selection(pop_selected, k_way=self.k_way, output=2)
-        return pop_selected[id_c1].solution, pop_selected[id_c2].solution
+        return pop_selected[id_c1].solution.copy(), pop_selected[id_c2].solution.copy()
 
     def selection_process_01__(self, pop_dad, pop_mom):
         """
@@ -192,7 +192,7 @@ class BaseGA(Optimizer):
         else:   ## tournament
             id_c1 = self.get_index_kway_tournament_selection(pop_dad, k_way=self.k_way, output=1)[0]
             id_c2 = self.get_index_kway_tournament_selection(pop_mom, k_way=self.k_way, output=1)[0]
-        return pop_dad[id_c1].solution, pop_mom[id_c2].solution
+        return pop_dad[id_c1].solution.copy(), pop_mom[id_c2].solution.copy()
 
     def crossover_process__(self, dad, mom):
         """
-- 
2.43.0


From 6656175eda933918b075439210b4841e353ea2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:51 +0000
Subject: [PATCH 015/126] fix: undefined coordinates (0/0 in an update rule)
 never reach the objective function

---
 mealpy/optimizer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mealpy/optimizer.py b/mealpy/optimizer.py
index ae9502d..d30b0da 100644
--- a/mealpy/optimizer.py
+++ b/mealpy/optimizer.py
@@ -387,6 +387,9 @@ class Optimizer:
             The correct solution that can be used to calculate target
         """
         solution = self.amend_solution(solution)
+        undefined = np.isnan(solution)
+        if np.any(undefined):   # an update rule degenerated (e.g. 0/0): restart these coordinates at random
+            solution = np.where(undefined, self.problem.generate_solution(encoded=True), solution)
         return self.problem.correct_solution(solution)
 
     def update_target_for_population(self, pop: List[Agent] = None) -> List[Agent]:
-- 
2.43.0


From b90d9ce860bd388b1f450152ca28675ac01f9e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:01 +0000
Subject: [PATCH 016/126] fix: TSeedA works with a single seed and evaluates
 the corrected position it stores

---
 mealpy/bio_based/TSeedA.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mealpy/bio_based/TSeedA.py b/mealpy/bio_based/TSeedA.py
index aa2d642..45a9c14 100644
--- a/mealpy/bio_based/TSeedA.py
+++ b/mealpy/bio_based/TSeedA.py
@@ -4,6 +4,7 @@
 # Github: https://github.com/tunayalc
 # ----------------------------------------------%
 
+import numpy as np
 from mealpy.optimizer import Optimizer
 from mealpy.utils.opt_info import OptInfo, ScientificConcern
 
@@ -88,6 +89,7 @@ class OriginalTSeedA(Optimizer):
             
             pop_new = []
             rdx_list = self.sample_indexes_exclude_one(self.generator, self.pop_size, idx, n_samples=n_seeds, replace=True)
+            rdx_list = np.atleast_1d(rdx_list)      # a scalar when there is only one seed
             for jdx in range(n_seeds):
                 # Select a random tree 'r' different from 'i'
                 rdx = rdx_list[jdx]
@@ -112,7 +114,7 @@ class OriginalTSeedA(Optimizer):
                 # agent = self.generate_empty_agent(pos_new)
                 pop_new.append(self.generate_empty_agent(pos_new))
                 if self.mode not in self.AVAILABLE_MODES:
-                    pop_new[-1].target = self.get_target(seed)
+                    pop_new[-1].target = self.get_target(pos_new)
             # Update parallel
             if self.mode in self.AVAILABLE_MODES:
                 pop_new = self.update_target_for_population(pop_new)
-- 
2.43.0


From 98acf90f23a78d0b632829d5139620fff380cc51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:01 +0000
Subject: [PATCH 017/126] fix: SMO no longer fails when a local group has a
 single member

---
 mealpy/swarm_based/SMO.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/swarm_based/SMO.py b/mealpy/swarm_based/SMO.py
index 131cfc4..406ca4f 100644
--- a/mealpy/swarm_based/SMO.py
+++ b/mealpy/swarm_based/SMO.py
@@ -123,7 +123,7 @@ class DevSMO(Optimizer):
         for group_idx, group in enumerate(self.groups):
             n_items = len(group)
             for idx in range(n_items):
-                list_rand = self.generator.choice(list(set(range(n_items)) - {idx}), size=self.problem.n_dims, replace=True)
+                list_rand = self.generator.choice(list(set(range(n_items)) - {idx}) or [idx], size=self.problem.n_dims, replace=True)
                 vector = np.array([group[jdx].solution[kdx] for kdx, jdx in enumerate(list_rand)])
                 pos_new = group[idx].solution + self.generator.uniform(0, 1, self.problem.n_dims) * \
                           (self.local_leaders[group_idx].solution - group[idx].solution) + \
@@ -157,7 +157,7 @@ class DevSMO(Optimizer):
                         # Randomly select dimension to update
                         k = self.generator.integers(0, self.problem.n_dims)
                         # Select random monkey
-                        jdx = self.generator.choice(list(set(range(self.group_size)) - {idx}))
+                        jdx = self.generator.choice(list(set(range(len(group))) - {idx}) or [idx])
                         pos_new = agent.solution.copy()
                         # Update using equation (4)
                         pos_new[k] = pos_new[k] + self.generator.uniform(0, 1) * (self.g_best.solution[k] - pos_new[k]) +\
-- 
2.43.0


From 19cb392a934fc8761cf36e4c3546b80775dbf65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:01 +0000
Subject: [PATCH 018/126] fix: PSS draws its initial sample from the seeded
 generator and no longer fails on small samples

---
 mealpy/math_based/PSS.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/math_based/PSS.py b/mealpy/math_based/PSS.py
index c6934d6..29cda9c 100644
--- a/mealpy/math_based/PSS.py
+++ b/mealpy/math_based/PSS.py
@@ -75,9 +75,9 @@ class OriginalPSS(Optimizer):
 
     def create_population(self, pop_size=None):
         if self.sampling_method == "MC":
-            pop = self.generator.random(self.pop_size, self.problem.n_dims)
+            pop = self.generator.random((self.pop_size, self.problem.n_dims))
         else:       # Default: "LHS"
-            sampler = qmc.LatinHypercube(d=self.problem.n_dims)
+            sampler = qmc.LatinHypercube(d=self.problem.n_dims, seed=self.generator)
             pop = sampler.random(n=pop_size)
         return pop
 
-- 
2.43.0


From 1f52a8c3fb646be63cb6452ab302e4b3f11ed4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:01 +0000
Subject: [PATCH 019/126] fix: SHO cluster size is limited by the population

---
 mealpy/swarm_based/SHO.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mealpy/swarm_based/SHO.py b/mealpy/swarm_based/SHO.py
index af0b011..894cea0 100644
--- a/mealpy/swarm_based/SHO.py
+++ b/mealpy/swarm_based/SHO.py
@@ -98,6 +98,7 @@ class OriginalSHO(Optimizer):
                         break
                     N += 1
                 circle_list = []
+                N = min(N, self.pop_size)
                 idx_list = self.generator.choice(range(0, self.pop_size), N, replace=False)
                 for j in range(0, N):
                     D_h = np.abs(np.dot(B, self.g_best.solution) - self.pop[idx_list[j]].solution)
-- 
2.43.0


From acbade67428075e49bfc57784a4185fc657b5834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:01 +0000
Subject: [PATCH 020/126] fix: SOO collects each phase's candidates separately

---
 mealpy/physics_based/SOO.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mealpy/physics_based/SOO.py b/mealpy/physics_based/SOO.py
index f70ad77..9f5b935 100644
--- a/mealpy/physics_based/SOO.py
+++ b/mealpy/physics_based/SOO.py
@@ -122,6 +122,7 @@ class OriginalSOO(Optimizer):
         _, best3, _ = self.get_special_agents(self.pop, n_best=3, minmax=self.problem.minmax)
 
         # Perform oscillatory movement update
+        pop_new = []
         for idx in range(self.pop_size):
             # Average of top star positions
             avg3 = np.mean([agent.solution for agent in best3], axis=0)
-- 
2.43.0


From f87bf22973953c430efc4acc9cda8b1fd5fe6e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:01 +0000
Subject: [PATCH 021/126] fix: SquirrelSA handles its smallest food source
 counts and the end of the winter season

---
 mealpy/swarm_based/SquirrelSA.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mealpy/swarm_based/SquirrelSA.py b/mealpy/swarm_based/SquirrelSA.py
index 08e8247..bd38ff6 100644
--- a/mealpy/swarm_based/SquirrelSA.py
+++ b/mealpy/swarm_based/SquirrelSA.py
@@ -137,10 +137,10 @@ class OriginalSquirrelSA(Optimizer):
         indices_random = np.array(list(range(self.pop_size - self.n_food_sources)))
         self.generator.shuffle(indices_random)
         indices_random = indices_random + self.n_food_sources # True indices of normal squirrels
-        n_cut = self.generator.integers(1, self.pop_size - self.n_food_sources - 1)
+        n_cut = self.generator.integers(1, max(2, self.pop_size - self.n_food_sources - 1))
         for idx in indices_random[n_cut:]:
             # Select random acorn tree
-            jdx = self.generator.integers(0, self.n_acorn_trees) + 1
+            jdx = self.generator.integers(0, self.n_acorn_trees) + 1 if self.n_acorn_trees > 0 else 0
             d_g = self.calculate_gliding_distance()
             if self.generator.random() >= self.predator_prob:
                 # No predator: move toward acorn
@@ -176,7 +176,7 @@ class OriginalSquirrelSA(Optimizer):
 
         if S_c < S_min:
             # Winter season is over: randomly relocate some squirrels
-            n_relocate = max(1, len(self.pop_size - self.n_food_sources) // 4)
+            n_relocate = max(1, (self.pop_size - self.n_food_sources) // 4)
             relocate_indices = self.generator.choice(indices_random, n_relocate, replace=False)
             for idx in relocate_indices:
                 levy = self.get_levy_flight_step(beta = self.beta, multiplier = 0.01, size = self.problem.n_dims, case = -1)
-- 
2.43.0


From 72f7e3cbd279a99dad66e0e17ad3a550d36d2a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:01 +0000
Subject: [PATCH 022/126] fix: WCA tolerates rivers without streams

---
 mealpy/system_based/WCA.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mealpy/system_based/WCA.py b/mealpy/system_based/WCA.py
index a8c809f..aa9610b 100644
--- a/mealpy/system_based/WCA.py
+++ b/mealpy/system_based/WCA.py
@@ -133,9 +133,10 @@ class OriginalWCA(Optimizer):
                     stream_new[-1].target = self.get_target(pos_new)
             stream_new = self.update_target_for_population(stream_new)
             self.streams[idx] = stream_new
-            stream_best, _ = self.get_best_agent(stream_new, self.problem.minmax)
-            if self.compare_target(stream_best.target, self.pop_best[idx].target, self.problem.minmax):
-                self.pop_best[idx] = stream_best.copy()
+            if len(stream_new) > 0:
+                stream_best, _ = self.get_best_agent(stream_new, self.problem.minmax)
+                if self.compare_target(stream_best.target, self.pop_best[idx].target, self.problem.minmax):
+                    self.pop_best[idx] = stream_best.copy()
             # Update river
             pos_new = self.pop_best[idx].solution + self.generator.uniform() * self.wc * (self.g_best.solution - self.pop_best[idx].solution)
             pos_new = self.correct_solution(pos_new)
-- 
2.43.0


From 7eab956d9fe52eb4447c6ece97fac84db4d157cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:01 +0000
Subject: [PATCH 023/126] fix: JADE keeps at least one top solution and draws
 from the seeded generator

---
 mealpy/evolutionary_based/DE.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/evolutionary_based/DE.py b/mealpy/evolutionary_based/DE.py
index 33da76c..0783598 100644
--- a/mealpy/evolutionary_based/DE.py
+++ b/mealpy/evolutionary_based/DE.py
@@ -261,7 +261,7 @@ class JADE(Optimizer):
             cr = self.generator.normal(self.dyn_miu_cr, 0.1)
             cr = np.clip(cr, 0, 1)
             while True:
-                f = cauchy.rvs(self.dyn_miu_f, 0.1)
+                f = cauchy.rvs(self.dyn_miu_f, 0.1, random_state=self.generator)
                 if f < 0:
                     continue
                 elif f > 1:
@@ -269,7 +269,7 @@ class JADE(Optimizer):
                 break
             temp_f.append(f)
             temp_cr.append(cr)
-            top = int(self.pop_size * self.pt)
+            top = max(1, int(self.pop_size * self.pt))
             x_best = pop_sorted[self.generator.integers(0, top)]
             r1_idx = self.generator.choice(list(set(range(0, self.pop_size)) - {idx}))
             new_pop = self.pop + self.dyn_pop_archive
-- 
2.43.0


From f336c7790a769f3e513319e3877526d329bd1ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:01 +0000
Subject: [PATCH 024/126] fix: SHADE and L-SHADE draw from the seeded generator

---
 mealpy/evolutionary_based/SHADE.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/evolutionary_based/SHADE.py b/mealpy/evolutionary_based/SHADE.py
index dd136b1..f0dd529 100644
--- a/mealpy/evolutionary_based/SHADE.py
+++ b/mealpy/evolutionary_based/SHADE.py
@@ -105,7 +105,7 @@ class OriginalSHADE(Optimizer):
             cr = self.generator.normal(self.dyn_miu_cr[idx_rand], 0.1)
             cr = np.clip(cr, 0, 1)
             while True:
-                f = cauchy.rvs(self.dyn_miu_f[idx_rand], 0.1)
+                f = cauchy.rvs(self.dyn_miu_f[idx_rand], 0.1, random_state=self.generator)
                 if f < 0:
                     continue
                 elif f > 1:
@@ -271,7 +271,7 @@ class L_SHADE(Optimizer):
             cr = self.generator.normal(self.dyn_miu_cr[idx_rand], 0.1)
             cr = np.clip(cr, 0, 1)
             while True:
-                f = cauchy.rvs(self.dyn_miu_f[idx_rand], 0.1)
+                f = cauchy.rvs(self.dyn_miu_f[idx_rand], 0.1, random_state=self.generator)
                 if f < 0:
                     continue
                 elif f > 1:
-- 
2.43.0


From df20030b4af3363876f75d23a76c0732abbe7239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:01 +0000
Subject: [PATCH 025/126] fix: LSHADEcnEpSin draws from the seeded generator
 and never reduces to more agents than it has

---
 mealpy/sota_based/LSHADEcnEpSin.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/mealpy/sota_based/LSHADEcnEpSin.py b/mealpy/sota_based/LSHADEcnEpSin.py
index 059faac..7556e1c 100644
--- a/mealpy/sota_based/LSHADEcnEpSin.py
+++ b/mealpy/sota_based/LSHADEcnEpSin.py
@@ -96,7 +96,7 @@ class OriginalLSHADEcnEpSin(Optimizer):
 
     def initialize_variables(self):
         self.NP_init = self.pop_size if self.pop_size else 18 * self.problem.n_dims
-        self.NP_min = self.pop_size_min  # Minimum population size
+        self.NP_min = min(self.pop_size_min, self.NP_init)  # Minimum population size
         self.NP = self.NP_init      # population size will be updated in each iteration
 
         # Memory settings
@@ -185,7 +185,7 @@ class OriginalLSHADEcnEpSin(Optimizer):
         """Standard binomial crossover"""
         if CR is None:
             r_idx = self.generator.integers(0, self.H)
-            CR = norm.rvs(loc=self.M_CR[r_idx], scale=0.1)
+            CR = norm.rvs(loc=self.M_CR[r_idx], scale=0.1, random_state=self.generator)
             CR = np.clip(CR, 0, 1)
         trial = np.where(self.generator.uniform(0, 1, self.problem.n_dims) <= CR, mutant, target)
         j_rand = self.generator.integers(0, self.problem.n_dims)
@@ -222,7 +222,7 @@ class OriginalLSHADEcnEpSin(Optimizer):
 
                 # Generate random CR for this crossover
                 r_idx = self.generator.integers(0, self.H)
-                CR = norm.rvs(loc=self.M_CR[r_idx], scale=0.1)
+                CR = norm.rvs(loc=self.M_CR[r_idx], scale=0.1, random_state=self.generator)
                 CR = np.clip(CR, 0, 1)
 
                 # Binomial crossover in eigen space
@@ -291,20 +291,20 @@ class OriginalLSHADEcnEpSin(Optimizer):
                 else:
                     # Configuration 2: adaptive increasing
                     r_idx = self.generator.integers(0, self.H)
-                    freq = cauchy.rvs(loc=self.M_freq[r_idx], scale=0.1)
+                    freq = cauchy.rvs(loc=self.M_freq[r_idx], scale=0.1, random_state=self.generator)
                     freq = np.clip(freq, 0.1, 2.0)
                     F = self.sinusoidal_adaptation(epoch, self.epoch, config_type=2, freq=freq)
                     config_used = 2
             else:
                 # Second half: standard LSHADE
                 r_idx = self.generator.integers(0, self.H)
-                F = cauchy.rvs(loc=self.M_F[r_idx], scale=0.1)
+                F = cauchy.rvs(loc=self.M_F[r_idx], scale=0.1, random_state=self.generator)
                 F = np.clip(F, 0.1, 1.0)
                 config_used = 0
 
             # Generate CR
             r_idx = self.generator.integers(0, self.H)
-            CR = norm.rvs(loc=self.M_CR[r_idx], scale=0.1)
+            CR = norm.rvs(loc=self.M_CR[r_idx], scale=0.1, random_state=self.generator)
             CR = np.clip(CR, 0, 1)
 
             # Mutation
-- 
2.43.0


From 1670ade2299e9273e42ce69f49a8821f0a940873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:01 +0000
Subject: [PATCH 026/126] fix: GA crossover points are legal for every number
 of variables

---
 mealpy/evolutionary_based/GA.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/evolutionary_based/GA.py b/mealpy/evolutionary_based/GA.py
index 89b0d5f..cf9129d 100644
--- a/mealpy/evolutionary_based/GA.py
+++ b/mealpy/evolutionary_based/GA.py
@@ -212,11 +212,11 @@ class BaseGA(Optimizer):
         if self.crossover == "arithmetic":
             w1, w2 = self.crossover_arithmetic(dad, mom)
         elif self.crossover == "one_point":
-            cut = self.generator.integers(1, self.problem.n_dims-1)
+            cut = self.generator.integers(1, self.problem.n_dims)
             w1 = np.concatenate([dad[:cut], mom[cut:]])
             w2 = np.concatenate([mom[:cut], dad[cut:]])
         elif self.crossover == "multi_points":
-            idxs = self.generator.choice(range(1, self.problem.n_dims-1), 2, replace=False)
+            idxs = self.generator.choice(range(0, self.problem.n_dims + 1), 2, replace=False)
             cut1, cut2 = np.min(idxs), np.max(idxs)
             w1 = np.concatenate([dad[:cut1], mom[cut1:cut2], dad[cut2:]])
             w2 = np.concatenate([mom[:cut1], dad[cut1:cut2], mom[cut2:]])
-- 
2.43.0


From b576ba3e60949e0b158766f091933c17c1487229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:01 +0000
Subject: [PATCH 027/126] fix: CA accepts at least one solution in its belief
 space

---
 mealpy/human_based/CA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/human_based/CA.py b/mealpy/human_based/CA.py
index 1919c0f..4017464 100644
--- a/mealpy/human_based/CA.py
+++ b/mealpy/human_based/CA.py
@@ -71,7 +71,7 @@ class OriginalCA(Optimizer):
             "lb": self.problem.lb,
             "ub": self.problem.ub,
         }
-        self.dyn_accepted_num = int(self.accepted_rate * self.pop_size)
+        self.dyn_accepted_num = max(1, int(self.accepted_rate * self.pop_size))
         # update situational knowledge (g_best here is an element inside belief space)
 
     def create_faithful__(self, lb, ub):
-- 
2.43.0


From b5a88fc53fdc633c294fc1ec4ff956301bf3ddc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:01 +0000
Subject: [PATCH 028/126] fix: COA accepts packs of fewer than three coyotes

---
 mealpy/swarm_based/COA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/COA.py b/mealpy/swarm_based/COA.py
index fd65e0d..0072931 100644
--- a/mealpy/swarm_based/COA.py
+++ b/mealpy/swarm_based/COA.py
@@ -101,7 +101,7 @@ class OriginalCOA(Optimizer):
             #  Update coyotes' social condition
             pop_new = []
             for i in range(self.n_coyotes):
-                rc1, rc2 = self.generator.choice(list(set(range(0, self.n_coyotes)) - {i}), 2, replace=False)
+                rc1, rc2 = self.generator.choice(list(set(range(0, self.n_coyotes)) - {i}), 2, replace=self.n_coyotes < 3)
                 # Try to update the social condition according to the alpha and the pack tendency(Eq. 12)
                 pos_new = self.pop_group[p][i].solution + self.generator.random() * (self.pop_group[p][0].solution - self.pop_group[p][rc1].solution) + \
                           self.generator.random() * (tendency - self.pop_group[p][rc2].solution)
-- 
2.43.0


From 04a2b4b2b420b56939b2f577e8e1a648c02c9855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:01 +0000
Subject: [PATCH 029/126] fix: AAA handles problems with fewer than three
 variables

---
 mealpy/bio_based/AAA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/bio_based/AAA.py b/mealpy/bio_based/AAA.py
index 4f1877a..401bf2f 100644
--- a/mealpy/bio_based/AAA.py
+++ b/mealpy/bio_based/AAA.py
@@ -156,7 +156,7 @@ class OriginalAAA(Optimizer):
             pos_new = self.pop[idx].solution.copy()
             while energy[idx] >= 0:
                 ndx = self.get_index_kway_tournament_selection(self.pop, k_way=0.2, output=1)[0]
-                rd1, rd2, rd3 = self.generator.choice(self.problem.n_dims, 3, False)
+                rd1, rd2, rd3 = self.generator.choice(self.problem.n_dims, 3, self.problem.n_dims < 3)
                 pos_new[rd1] += (self.pop[ndx].solution[rd1] - pos_new[rd1]) * (self.s_force - alg_friction[idx]) * ((self.generator.random() - 0.5) * 2)
                 pos_new[rd2] += (self.pop[ndx].solution[rd2] - pos_new[rd2]) * (self.s_force - alg_friction[idx]) * np.cos(self.generator.random() * 2 * np.pi)
                 pos_new[rd3] += (self.pop[ndx].solution[rd3] - pos_new[rd3]) * (self.s_force - alg_friction[idx]) * np.sin(self.generator.random() * 2 * np.pi)
-- 
2.43.0


From 1e0c6ec012d8ef6e4f72c3abdcf3a664a3fa1564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:01 +0000
Subject: [PATCH 030/126] fix: DOA uses the upper bound of the variable it
 updates

---
 mealpy/human_based/DOA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/human_based/DOA.py b/mealpy/human_based/DOA.py
index a98dbae..b94fa2d 100644
--- a/mealpy/human_based/DOA.py
+++ b/mealpy/human_based/DOA.py
@@ -139,7 +139,7 @@ class OriginalDOA(Optimizer):
                 pos_new = self.g_best.solution.copy()
                 for jdx in in_indices:
                     cos_term = (np.cos(epoch * np.pi / self.epoch) + 1) / 2
-                    pos_new[jdx] = pos_new[jdx] + (self.generator.random() * (self.problem.ub[idx] - self.problem.lb[idx]) + self.problem.lb[idx]) * cos_term
+                    pos_new[jdx] = pos_new[jdx] + (self.generator.random() * (self.problem.ub[jdx] - self.problem.lb[jdx]) + self.problem.lb[jdx]) * cos_term
                     # Boundary handling
                     if pos_new[jdx] > self.problem.ub[jdx] or pos_new[jdx] < self.problem.lb[jdx]:
                         if self.problem.n_dims > 15:
-- 
2.43.0


From 5dd3f44c960ab235dec1de1e1e062ec6ff556435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:01 +0000
Subject: [PATCH 031/126] fix: FOA scale stays non-negative for negative upper
 bounds

---
 mealpy/swarm_based/FOA.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/swarm_based/FOA.py b/mealpy/swarm_based/FOA.py
index c89c03d..f64adca 100644
--- a/mealpy/swarm_based/FOA.py
+++ b/mealpy/swarm_based/FOA.py
@@ -74,7 +74,7 @@ class OriginalFOA(Optimizer):
         """
         pop_new = []
         for idx in range(0, self.pop_size):
-            pos_new = self.pop[idx].solution + self.generator.random() * self.generator.normal(self.problem.lb, self.problem.ub)
+            pos_new = self.pop[idx].solution + self.generator.random() * self.generator.normal(self.problem.lb, np.abs(self.problem.ub))
             pos_new = self.norm_consecutive_adjacent__(pos_new)
             pos_new = self.correct_solution(pos_new)
             agent = self.generate_empty_agent(pos_new)
@@ -139,7 +139,7 @@ class DevFOA(OriginalFOA):
         c = 1 - epoch / self.epoch
         pop_new = []
         for idx in range(0, self.pop_size):
-            pos_new = self.pop[idx].solution + self.generator.normal(self.problem.lb, self.problem.ub)
+            pos_new = self.pop[idx].solution + self.generator.normal(self.problem.lb, np.abs(self.problem.ub))
             pos_new = c * self.generator.random() * self.norm_consecutive_adjacent__(pos_new)
             pos_new = self.correct_solution(pos_new)
             agent = self.generate_empty_agent(pos_new)
-- 
2.43.0


From 3dc3bba65c0203c948cd2ee5807239fb23521328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:01 +0000
Subject: [PATCH 032/126] fix: HS bandwidth stays non-negative for negative
 upper bounds

---
 mealpy/music_based/HS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/music_based/HS.py b/mealpy/music_based/HS.py
index a14da0b..d02a1b9 100644
--- a/mealpy/music_based/HS.py
+++ b/mealpy/music_based/HS.py
@@ -82,7 +82,7 @@ class DevHS(Optimizer):
         for idx in range(0, self.pop_size):
             # Create New Harmony Position
             pos_new = self.generator.uniform(self.problem.lb, self.problem.ub)
-            delta = self.dyn_fw * self.generator.normal(self.problem.lb, self.problem.ub)
+            delta = self.dyn_fw * self.generator.normal(self.problem.lb, np.abs(self.problem.ub))
             # Use Harmony Memory
             pos_new = np.where(self.generator.random(self.problem.n_dims) < self.c_r, self.g_best.solution, pos_new)
             # Pitch Adjustment
-- 
2.43.0


From 9ca2920ce66423f8c5da76cc6ba8eb73106bb51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:01 +0000
Subject: [PATCH 033/126] fix: QSA tolerates service times that sum to zero

---
 mealpy/human_based/QSA.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/human_based/QSA.py b/mealpy/human_based/QSA.py
index 3b6855f..7030223 100644
--- a/mealpy/human_based/QSA.py
+++ b/mealpy/human_based/QSA.py
@@ -72,7 +72,7 @@ class DevQSA(Optimizer):
             + t2 = t2 * 1.0e+100
             + t3 = t3 * 1.0e+100
         """
-        if t1 > 1.0e-6:
+        if min(t1, t2, t3) > 1.0e-6:
             n1 = (1 / t1) / ((1 / t1) + (1 / t2) + (1 / t3))
             n2 = (1 / t2) / ((1 / t1) + (1 / t2) + (1 / t3))
         else:
@@ -324,7 +324,7 @@ class LevyQSA(DevQSA):
         t1, t2, t3 = pop[0].target.fitness, pop[1].target.fitness, pop[2].target.fitness
         q1, q2, q3 = self.calculate_queue_length__(t1, t2, t3)
         pr = [idx / self.pop_size for idx in range(1, self.pop_size + 1)]
-        if t1 > 1.0e-6:
+        if min(t1, t2, t3) > 1.0e-6:
             cv = t1 / (t2 + t3)
         else:
             cv = 1 / 2
-- 
2.43.0


From 3500374c2db52fb287b1ff41f5a8d2fcc9d03aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:01 +0000
Subject: [PATCH 034/126] fix: SSpiderA builds its whole population in swarm
 mode

---
 mealpy/swarm_based/SSpiderA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/SSpiderA.py b/mealpy/swarm_based/SSpiderA.py
index 8bf4b70..129dd6e 100644
--- a/mealpy/swarm_based/SSpiderA.py
+++ b/mealpy/swarm_based/SSpiderA.py
@@ -139,7 +139,7 @@ class DevSSpiderA(Optimizer):
             if self.mode not in self.AVAILABLE_MODES:
                 agent.target = self.get_target(agent.solution)
                 agent.intensity = np.log(1. / (np.abs(agent.target.fitness) + self.EPSILON) + 1)
-                pop_new.append(agent)
+            pop_new.append(agent)
         pop_new = self.update_target_for_population(pop_new)
 
         for idx in range(0, self.pop_size):
-- 
2.43.0


From 7feefae3368c6267b2b469241626b08e55d0afff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:01 +0000
Subject: [PATCH 035/126] fix: FLA transfer counts stay inside the population

---
 mealpy/physics_based/FLA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/physics_based/FLA.py b/mealpy/physics_based/FLA.py
index a2910f5..4a74ead 100644
--- a/mealpy/physics_based/FLA.py
+++ b/mealpy/physics_based/FLA.py
@@ -126,7 +126,7 @@ class OriginalFLA(Optimizer):
             tdo = self.C5 * tf - self.generator.random()
             if tdo < self.generator.random():
                 m1n, m2n = self.C3*self.n1, self.C4*self.n1
-                nt12 = int(np.round((m2n - m1n)*self.generator.random() + m1n))
+                nt12 = int(np.clip(np.round((m2n - m1n)*self.generator.random() + m1n), 0, self.n1))
                 for idx in range(0, nt12):
                     dfg = self.generator.integers(1, 3)
                     jj = -self.DD * (xm2 - xm1) / (np.linalg.norm(self.best2.solution - self.pop1[idx].solution) + self.EPSILON)
-- 
2.43.0


From 0c5b6ae6baf302c47f100a3c98e8518abaa3ddba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:01 +0000
Subject: [PATCH 036/126] fix: GSKA falls back to the agent itself when there
 is no better or worse neighbour

---
 mealpy/human_based/GSKA.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/mealpy/human_based/GSKA.py b/mealpy/human_based/GSKA.py
index 07bc4e3..411962b 100644
--- a/mealpy/human_based/GSKA.py
+++ b/mealpy/human_based/GSKA.py
@@ -104,9 +104,9 @@ class DevGSKA(Optimizer):
                 if self.generator.uniform() <= self.kr:
                     id1 = int(self.pb * self.pop_size)
                     id2 = int(id1 + self.pop_size * (1 - 2 * self.pb))
-                    rand_best = self.generator.choice(list(set(range(0, id1)) - {idx}))
-                    rand_worst = self.generator.choice(list(set(range(id2, self.pop_size)) - {idx}))
-                    rand_mid = self.generator.choice(list(set(range(id1, id2)) - {idx}))
+                    rand_best = self.generator.choice(list(set(range(0, id1)) - {idx}) or [idx])
+                    rand_worst = self.generator.choice(list(set(range(id2, self.pop_size)) - {idx}) or [idx])
+                    rand_mid = self.generator.choice(list(set(range(id1, id2)) - {idx}) or [idx])
                     if self.compare_target(self.pop[rand_mid].target, self.pop[idx].target, self.problem.minmax):
                         pos_new = self.pop[idx].solution + self.generator.uniform(0, 1, self.problem.n_dims) * \
                                   (self.pop[rand_best].solution - self.pop[rand_worst].solution + self.pop[rand_mid].solution - self.pop[idx].solution)
@@ -234,9 +234,9 @@ class OriginalGSKA(Optimizer):
                     if self.generator.uniform() <= self.kr:
                         id1 = int(self.pb * self.pop_size)
                         id2 = int(id1 + self.pop_size * (1 - 2 * self.pb))
-                        rand_best = self.generator.choice(list(set(range(0, id1)) - {idx}))
-                        rand_worst = self.generator.choice(list(set(range(id2, self.pop_size)) - {idx}))
-                        rand_mid = self.generator.choice(list(set(range(id1, id2)) - {idx}))
+                        rand_best = self.generator.choice(list(set(range(0, id1)) - {idx}) or [idx])
+                        rand_worst = self.generator.choice(list(set(range(id2, self.pop_size)) - {idx}) or [idx])
+                        rand_mid = self.generator.choice(list(set(range(id1, id2)) - {idx}) or [idx])
                         if self.compare_target(self.pop[rand_mid].target, self.pop[idx].target, self.problem.minmax):
                             pos_new[j] = self.pop[idx].solution[j] + self.kf * \
                                          (self.pop[rand_best].solution[j] - self.pop[rand_worst].solution[j] +
-- 
2.43.0


From 73412fbfd3a4a62dea442514e1a2ec1c60ba1a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:01 +0000
Subject: [PATCH 037/126] fix: DS_GWO uses at most as many groups as agents

---
 mealpy/swarm_based/GWO.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mealpy/swarm_based/GWO.py b/mealpy/swarm_based/GWO.py
index 52316fa..4ce191d 100644
--- a/mealpy/swarm_based/GWO.py
+++ b/mealpy/swarm_based/GWO.py
@@ -881,12 +881,13 @@ class DS_GWO(Optimizer):
         4. Set delta candidate farthest from alpha as beta
         """
         # Divide population into n_groups
-        group_size = self.pop_size // self.n_groups
+        n_groups = min(self.n_groups, self.pop_size)
+        group_size = self.pop_size // n_groups
         self.delta_candidates = []
 
-        for idx in range(self.n_groups):
+        for idx in range(n_groups):
             start_idx = idx * group_size
-            if idx == self.n_groups - 1:  # Last group takes remaining wolves
+            if idx == n_groups - 1:  # Last group takes remaining wolves
                 end_idx = self.pop_size
             else:
                 end_idx = (idx + 1) * group_size
-- 
2.43.0


From 6a6dc9c85bd0c26ce8209a2d85a4ccd4be15dbae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:01 +0000
Subject: [PATCH 038/126] fix: NRO uses the Levy step of the variable it
 updates

---
 mealpy/physics_based/NRO.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/physics_based/NRO.py b/mealpy/physics_based/NRO.py
index dcf4dfd..874a95c 100644
--- a/mealpy/physics_based/NRO.py
+++ b/mealpy/physics_based/NRO.py
@@ -124,7 +124,7 @@ class OriginalNRO(Optimizer):
                 for j in range(self.problem.n_dims):
                     #### Levy flight strategy is described as Eq. 18
                     if self.pop[i2].solution[j] == self.pop[idx].solution[j]:
-                        X_ion[j] = self.pop[idx].solution[j] + levy_b * (self.pop[idx].solution[j] - self.g_best.solution[j])
+                        X_ion[j] = self.pop[idx].solution[j] + levy_b[j] * (self.pop[idx].solution[j] - self.g_best.solution[j])
                     #### If not, based on Eq. 11, 12
                     else:
                         if self.generator.uniform() <= 0.5:
@@ -137,7 +137,7 @@ class OriginalNRO(Optimizer):
                 for j in range(self.problem.n_dims):
                     ##### Based on Eq. 21
                     if X_worst.solution[j] == self.g_best.solution[j]:
-                        X_ion[j] = self.pop[idx].solution[j] + levy_b * (self.problem.ub[j] - self.problem.lb[j])
+                        X_ion[j] = self.pop[idx].solution[j] + levy_b[j] * (self.problem.ub[j] - self.problem.lb[j])
                     ##### Based on Eq. 13
                     else:
                         X_ion[j] = self.pop[idx].solution[j] + round(self.generator.uniform()) * self.generator.uniform() * \
-- 
2.43.0


From fc9a35d865285ce966391ae07665a0a563405b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:01 +0000
Subject: [PATCH 039/126] fix: EFO fields are never empty

---
 mealpy/physics_based/EFO.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/mealpy/physics_based/EFO.py b/mealpy/physics_based/EFO.py
index 4c112bf..2d0db3c 100644
--- a/mealpy/physics_based/EFO.py
+++ b/mealpy/physics_based/EFO.py
@@ -78,6 +78,13 @@ class DevEFO(Optimizer):
         self.phi = (1 + np.sqrt(5)) / 2  # golden ratio
         self.sort_flag = True
 
+    def get_field_ranges__(self):
+        # index ranges of the positive (top), negative (bottom) and neutral (middle) fields, none of them empty
+        top = max(1, int(self.pop_size * self.p_field))
+        bottom = min(self.pop_size - 1, int(self.pop_size * (1 - self.n_field)))
+        middle = min(int((self.pop_size * self.p_field) + 1), self.pop_size - 1)
+        return (0, top), (bottom, self.pop_size), (middle, max(middle + 1, bottom))
+
     def evolve(self, epoch):
         """
         The main operations (equations) of algorithm. Inherit from Optimizer class
@@ -87,9 +94,10 @@ class DevEFO(Optimizer):
         """
         pop_new = []
         for idx in range(0, self.pop_size):
-            r_idx1 = self.generator.integers(0, int(self.pop_size * self.p_field))  # top
-            r_idx2 = self.generator.integers(int(self.pop_size * (1 - self.n_field)), self.pop_size)  # bottom
-            r_idx3 = self.generator.integers(int((self.pop_size * self.p_field) + 1), int(self.pop_size * (1 - self.n_field)))  # middle
+            (t1, t2), (b1, b2), (m1, m2) = self.get_field_ranges__()
+            r_idx1 = self.generator.integers(t1, t2)  # top
+            r_idx2 = self.generator.integers(b1, b2)  # bottom
+            r_idx3 = self.generator.integers(m1, m2)  # middle
             if self.generator.random() < self.ps_rate:
                 pos_new = self.pop[r_idx1].solution + self.phi * self.generator.random() * (self.g_best.solution - self.pop[r_idx3].solution) \
                           + self.generator.random() * (self.g_best.solution - self.pop[r_idx2].solution)
@@ -188,11 +196,12 @@ class OriginalEFO(DevEFO):
             self.pop = self.generate_population(self.pop_size)
         # %random vectors (this is to increase the calculation speed instead of determining the random values in each
         # iteration we allocate them in the beginning before algorithm start
-        self.r_index1 = self.generator.integers(0, int(self.pop_size * self.p_field), (self.problem.n_dims, self.epoch))
+        (t1, t2), (b1, b2), (m1, m2) = self.get_field_ranges__()
+        self.r_index1 = self.generator.integers(t1, t2, (self.problem.n_dims, self.epoch))
         # random particles from positive field
-        self.r_index2 = self.generator.integers(int(self.pop_size * (1 - self.n_field)), self.pop_size, (self.problem.n_dims, self.epoch))
+        self.r_index2 = self.generator.integers(b1, b2, (self.problem.n_dims, self.epoch))
         # random particles from negative field
-        self.r_index3 = self.generator.integers(int((self.pop_size * self.p_field) + 1), int(self.pop_size * (1 - self.n_field)), (self.problem.n_dims, self.epoch))
+        self.r_index3 = self.generator.integers(m1, m2, (self.problem.n_dims, self.epoch))
         # random particles from neutral field
         self.ps = self.generator.uniform(0, 1, (self.problem.n_dims, self.epoch))
         # Probability of selecting electromagnets of generated particle from the positive field
-- 
2.43.0


From 9c684beb07a5a09615ed775366658ff35e3450c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:01 +0000
Subject: [PATCH 040/126] fix: ABFO keeps its parameters and population size
 between generations and runs

---
 mealpy/swarm_based/BFO.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/mealpy/swarm_based/BFO.py b/mealpy/swarm_based/BFO.py
index c498f5b..7aeb49a 100644
--- a/mealpy/swarm_based/BFO.py
+++ b/mealpy/swarm_based/BFO.py
@@ -249,8 +249,8 @@ class ABFO(Optimizer):
         self.sort_flag = False
 
     def initialize_variables(self):
-        self.C_s = self.C_s * (self.problem.ub - self.problem.lb)
-        self.C_e = self.C_e * (self.problem.ub - self.problem.lb)
+        self.dyn_C_s = self.C_s * (self.problem.ub - self.problem.lb)
+        self.dyn_C_e = self.C_e * (self.problem.ub - self.problem.lb)
 
     def generate_empty_agent(self, solution: np.ndarray = None) -> Agent:
         if solution is None:
@@ -267,7 +267,7 @@ class ABFO(Optimizer):
 
     def update_step_size__(self, pop=None, idx=None):
         total_fitness = np.sum([agent.target.fitness for agent in pop])
-        step_size = self.C_s - (self.C_s - self.C_e) * pop[idx].target.fitness / total_fitness
+        step_size = self.dyn_C_s - (self.dyn_C_s - self.dyn_C_e) * pop[idx].target.fitness / total_fitness
         step_size = step_size / self.pop[idx].nutrients if self.pop[idx].nutrients > 0 else step_size
         return step_size
 
@@ -295,13 +295,13 @@ class ABFO(Optimizer):
                         self.pop[idx].update(local_solution=pos_new.copy(), local_target=agent.target.copy())
                 else:
                     self.pop[idx].nutrients -= 1
-            if self.pop[idx].nutrients > max(self.N_split, int(self.N_split + (len(self.pop) - self.pop_size) / self.N_adapt)):
+            if self.pop[idx].nutrients > max(self.N_split, int(self.N_split + (len(self.pop) - self.pop_size) / max(1, self.N_adapt))):
                 tt = self.generator.normal(0, 1, self.problem.n_dims)
                 pos_new = tt * self.pop[idx].solution + (1 - tt) * (self.g_best.solution - self.pop[idx].solution)
                 pos_new = self.correct_solution(pos_new)
                 agent = self.generate_agent(pos_new)
                 self.pop.append(agent)
-            nut_min = min(self.N_adapt, int(self.N_adapt + (len(self.pop) - self.pop_size) / self.N_adapt))
+            nut_min = min(self.N_adapt, int(self.N_adapt + (len(self.pop) - self.pop_size) / max(1, self.N_adapt)))
             if self.pop[idx].nutrients < nut_min or self.generator.random() < self.p_eliminate:
                 self.pop[idx] = self.generate_agent()
         ## Make sure the population does not have duplicates.
@@ -314,7 +314,7 @@ class ABFO(Optimizer):
         ## Balance the population by adding more agents or remove some agents
         n_agents = len(self.pop) - self.pop_size
         if n_agents < 0:
-            for idx in range(0, n_agents):
+            for idx in range(0, -n_agents):
                 agent = self.generate_agent()
                 self.pop.append(agent)
         elif n_agents > 0:
-- 
2.43.0


From 69c560acc84a3c79ab47ef4bfa07656fdd0520ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:01 +0000
Subject: [PATCH 041/126] fix: OrcaOA keeps its best agent and accepts a
 negative initial radius

---
 mealpy/swarm_based/ORCA.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/swarm_based/ORCA.py b/mealpy/swarm_based/ORCA.py
index 8dece2d..0d6eb5c 100644
--- a/mealpy/swarm_based/ORCA.py
+++ b/mealpy/swarm_based/ORCA.py
@@ -94,7 +94,7 @@ class OriginalOrcaOA(Optimizer):
                 if norm > 0:
                     direction /= norm
                 # Random position between R-d_i and R
-                r_dist = self.generator.uniform(self.R - d_list[idx], self.R)
+                r_dist = self.generator.uniform(min(self.R - d_list[idx], self.R), max(self.R - d_list[idx], self.R))
                 # Update position
                 pos_new = self.pop[0].solution + r_dist * direction
             else:
@@ -107,7 +107,7 @@ class OriginalOrcaOA(Optimizer):
         # Evaluate fitness in parallel
         if self.mode in self.AVAILABLE_MODES:
             pop_new = self.update_target_for_population(pop_new)
-        self.pop = pop_new
+        self.pop = [self.pop[0]] + pop_new
 
         # Reduce the radius of the ice floe (simulated linear decay)
         self.R = self.R0 * (1. - epoch / self.epoch)
-- 
2.43.0


From 4a7d07587bab98bbd341280fb6a3388b95e84782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:01 +0000
Subject: [PATCH 042/126] fix: DMOA selection weights are finite for every
 fitness

---
 mealpy/swarm_based/DMOA.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mealpy/swarm_based/DMOA.py b/mealpy/swarm_based/DMOA.py
index 67e9e65..4998572 100644
--- a/mealpy/swarm_based/DMOA.py
+++ b/mealpy/swarm_based/DMOA.py
@@ -89,7 +89,9 @@ class OriginalDMOA(Optimizer):
         CF = (1. - epoch/self.epoch)**(2.*epoch/self.epoch)
         fit_list = np.array([agent.target.fitness for agent in self.pop])
         mean_cost = np.mean(fit_list)
-        fi = np.exp(-fit_list / mean_cost)
+        if mean_cost == 0:
+            mean_cost = self.EPSILON
+        fi = np.exp(np.clip(-fit_list / mean_cost, -100., 100.))
         for idx in range(0, self.pop_size):
             alpha = self.get_index_roulette_wheel_selection(fi)
             k = self.generator.choice(list(set(range(0, self.pop_size)) - {idx, alpha}))
@@ -199,7 +201,9 @@ class DevDMOA(Optimizer):
         CF = (1. - epoch / self.epoch) ** (2. * epoch / self.epoch)
         fit_list = np.array([agent.target.fitness for agent in self.pop])
         mean_cost = np.mean(fit_list)
-        fi = np.exp(-fit_list / mean_cost)
+        if mean_cost == 0:
+            mean_cost = self.EPSILON
+        fi = np.exp(np.clip(-fit_list / mean_cost, -100., 100.))
 
         ## Foraging led by Alpha female
         for idx in range(0, self.pop_size):
-- 
2.43.0


From 80a23fb147e06aad2963c89a1ff5e26d1ef8266a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:01 +0000
Subject: [PATCH 043/126] fix: ProbBeesA recruits a finite number of bees for
 every fitness

---
 mealpy/swarm_based/BeesA.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/swarm_based/BeesA.py b/mealpy/swarm_based/BeesA.py
index ce35914..03322e4 100644
--- a/mealpy/swarm_based/BeesA.py
+++ b/mealpy/swarm_based/BeesA.py
@@ -344,7 +344,7 @@ class ProbBeesA(Optimizer):
         # Calculate Scores
         fit_list = np.array([agent.target.fitness for agent in self.pop])
         fit_list = 1.0 / (fit_list + self.EPSILON)
-        d_fit = fit_list / np.mean(fit_list)
+        d_fit = np.nan_to_num(fit_list / np.mean(fit_list), nan=1.0)
         for idx in range(0, self.pop_size):
             # Determine Rejection Probability based on Score
             if d_fit[idx] < 0.9:
@@ -358,7 +358,7 @@ class ProbBeesA(Optimizer):
             # Check for Acceptance/Rejection
             if self.generator.random() >= reject_prob:  # Acceptance
                 # Calculate New Bees Count
-                bee_count = int(np.ceil(d_fit[idx] * self.recruited_bee_count))
+                bee_count = int(np.ceil(min(d_fit[idx] * self.recruited_bee_count, self.pop_size)))
                 if bee_count < 2: bee_count = 2
                 if bee_count > self.pop_size: bee_count = self.pop_size
                 # Create New Bees(Solutions)
-- 
2.43.0


From 9f9833110f1808c459b9f110daaeedf95e16f9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:52 +0000
Subject: [PATCH 044/126] fix: parallel modes draw the initial population in
 the caller, keep its order and count its evaluations

---
 mealpy/optimizer.py | 36 +++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/mealpy/optimizer.py b/mealpy/optimizer.py
index d30b0da..ab162b8 100644
--- a/mealpy/optimizer.py
+++ b/mealpy/optimizer.py
@@ -19,6 +19,7 @@ from mealpy.utils.termination import Termination
 from mealpy.utils.logger import Logger
 from mealpy.utils.validator import Validator
 from math import gamma as mgama
+import copy
 import concurrent.futures as parallel
 from functools import partial
 import os
@@ -335,6 +336,20 @@ class Optimizer:
         agent.target = self.get_target(agent.solution)
         return agent
 
+    def complete_agent__(self, agent: Agent) -> Tuple[Agent, int]:
+        """
+        Run generate_agent() on an agent that was already drawn. It is used by the workers of parallel modes.
+
+        Args:
+            agent (Agent): The agent generated by generate_empty_agent()
+
+        Returns:
+            The agent with full information and the number of function evaluations it took
+        """
+        worker = copy.copy(self)
+        worker.generate_empty_agent = lambda solution=None: agent
+        return worker.generate_agent(agent.solution), worker.nfe_counter - self.nfe_counter
+
     def generate_population(self, pop_size: int = None) -> List[Agent]:
         """
         Args:
@@ -345,19 +360,14 @@ class Optimizer:
         """
         if pop_size is None:
             pop_size = self.pop_size
-        pop = []
-        if self.mode == "thread":
-            with parallel.ThreadPoolExecutor(self.n_workers) as executor:
-                list_executors = [executor.submit(self.generate_agent) for _ in range(pop_size)]
-                # This method yield the result everytime a thread finished their job (not by order)
-                for f in parallel.as_completed(list_executors):
-                    pop.append(f.result())
-        elif self.mode == "process":
-            with parallel.ProcessPoolExecutor(self.n_workers) as executor:
-                list_executors = [executor.submit(self.generate_agent) for _ in range(pop_size)]
-                # This method yield the result everytime a cpu finished their job (not by order).
-                for f in parallel.as_completed(list_executors):
-                    pop.append(f.result())
+        if self.mode in self.PARALLEL_MODES:
+            # Agents are drawn here, so that they do not depend on the workers; executor.map keeps their order
+            agents = [self.generate_empty_agent() for _ in range(0, pop_size)]
+            pool = parallel.ThreadPoolExecutor if self.mode == "thread" else parallel.ProcessPoolExecutor
+            with pool(self.n_workers) as executor:
+                results = list(executor.map(self.complete_agent__, agents))
+            pop = [agent for agent, _ in results]
+            self.nfe_counter += sum(n_evals for _, n_evals in results)
         else:
             pop = [self.generate_agent() for _ in range(0, pop_size)]
         return pop
-- 
2.43.0


From 588beac06050aa16515d9b2bc7e6fc89ee920b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:27 +0000
Subject: [PATCH 045/126] fix: the evaluation counter starts at zero for every
 run

---
 mealpy/optimizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/optimizer.py b/mealpy/optimizer.py
index ab162b8..761d360 100644
--- a/mealpy/optimizer.py
+++ b/mealpy/optimizer.py
@@ -60,7 +60,7 @@ class Optimizer:
 
         if self.name is None: self.name = self.__class__.__name__
         self.sort_flag = False
-        self.nfe_counter = 1  # The first one is tested in Problem class
+        self.nfe_counter = 0
         self.parameters, self.params_name_ordered = {}, None
         self.is_parallelizable = True
         self.generator, self.rng = None, None     # random module for numpy and random (python)
@@ -195,6 +195,7 @@ class Optimizer:
 
     def check_termination(self, mode="start", termination=None, epoch=None):
         if mode == "start":
+            self.nfe_counter = 0
             self.termination = termination
             if termination is not None:
                 if isinstance(termination, Termination):
@@ -203,7 +204,6 @@ class Optimizer:
                     self.termination = Termination(log_to=self.problem.log_to, log_file=self.problem.log_file, **termination)
                 else:
                     raise ValueError("Termination needs to be a dict or an instance of Termination class.")
-                self.nfe_counter = 0
                 self.termination.set_start_values(0, self.nfe_counter, time.perf_counter(), 0)
         else:
             finished = False
-- 
2.43.0


From 70e5f3e6bfdb8120a413ff72020a7925619fc349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:27 +0000
Subject: [PATCH 046/126] fix: FFA keeps its population size

---
 mealpy/swarm_based/FFA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/FFA.py b/mealpy/swarm_based/FFA.py
index 365b32f..d8363d5 100644
--- a/mealpy/swarm_based/FFA.py
+++ b/mealpy/swarm_based/FFA.py
@@ -120,7 +120,7 @@ class OriginalFFA(Optimizer):
             # Compare to Previous Solution
             if self.compare_target(local_best.target, agent.target, self.problem.minmax):
                 self.pop[idx] = local_best
-        self.pop.append(self.g_best)
+        self.pop = self.get_sorted_and_trimmed_population(self.pop + [self.g_best.copy()], self.pop_size, self.problem.minmax)
         self.dyn_alpha = self.alpha_damp * self.alpha
 
 
-- 
2.43.0


From bb319cb875fb969eb30d2348d303b97dd99d1c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:27 +0000
Subject: [PATCH 047/126] fix: DBO forgets the previous run's positions

---
 mealpy/swarm_based/DBO.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/mealpy/swarm_based/DBO.py b/mealpy/swarm_based/DBO.py
index 0a40f02..c1c79a7 100644
--- a/mealpy/swarm_based/DBO.py
+++ b/mealpy/swarm_based/DBO.py
@@ -74,9 +74,8 @@ class OriginalDBO(Optimizer):
     def initialization(self):
         if self.pop is None:
             self.pop = self.generate_population(self.pop_size)
-        # Initialize previous positions x(t−1) on the first call
-        if self._prev_positions is None:
-            self._prev_positions = np.array([agent.solution.copy() for agent in self.pop])
+        # Initialize previous positions x(t−1)
+        self._prev_positions = np.array([agent.solution.copy() for agent in self.pop])
 
     def evolve(self, epoch: int):
         """
-- 
2.43.0


From b9cba7599cdafc019079fc6e0e2e4740a2a4fe0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:27 +0000
Subject: [PATCH 048/126] fix: SAP_DE starts every run with the requested
 population size

---
 mealpy/evolutionary_based/DE.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mealpy/evolutionary_based/DE.py b/mealpy/evolutionary_based/DE.py
index 0783598..3ef51aa 100644
--- a/mealpy/evolutionary_based/DE.py
+++ b/mealpy/evolutionary_based/DE.py
@@ -487,6 +487,9 @@ class SAP_DE(Optimizer):
         self.fixed_pop_size = self.pop_size
         self.sort_flag = False
 
+    def initialize_variables(self):
+        self.pop_size = self.fixed_pop_size
+
     def generate_empty_agent(self, solution: np.ndarray = None) -> Agent:
         if solution is None:
             solution = self.problem.generate_solution(encoded=True)
-- 
2.43.0


From c840968ad99fb6bf9ddb66d5fbb2c85495f82be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:27 +0000
Subject: [PATCH 049/126] fix: WCA never assigns more streams than there are

---
 mealpy/system_based/WCA.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mealpy/system_based/WCA.py b/mealpy/system_based/WCA.py
index aa9610b..821f5aa 100644
--- a/mealpy/system_based/WCA.py
+++ b/mealpy/system_based/WCA.py
@@ -103,7 +103,8 @@ class OriginalWCA(Optimizer):
         idx_already_selected = []
         for i in range(0, self.nsr - 1):
             streams[i] = []
-            idx_list = self.generator.choice(list(set(range(0, n_stream)) - set(idx_already_selected)), num_child_in_river_list[i], replace=False).tolist()
+            idx_left = list(set(range(0, n_stream)) - set(idx_already_selected))
+            idx_list = self.generator.choice(idx_left, min(num_child_in_river_list[i], len(idx_left)), replace=False).tolist() if idx_left else []
             idx_already_selected += idx_list
             for idx in idx_list:
                 streams[i].append(self.pop_stream[idx])
-- 
2.43.0


From 0845c4fb3c739504605bd12f9cb27b106b3925fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:27 +0000
Subject: [PATCH 050/126] fix: BeesA starts every run with the initial dance
 radius

---
 mealpy/swarm_based/BeesA.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/mealpy/swarm_based/BeesA.py b/mealpy/swarm_based/BeesA.py
index 03322e4..57eb60a 100644
--- a/mealpy/swarm_based/BeesA.py
+++ b/mealpy/swarm_based/BeesA.py
@@ -205,14 +205,16 @@ class OriginalBeesA(Optimizer):
         self.dance_reduction = self.validator.check_float("dance_reduction", dance_reduction, (0, 1.0))
         self.set_parameters(["epoch", "pop_size", "selected_site_ratio", "elite_site_ratio", "selected_site_bee_ratio", 
                              "elite_site_bee_ratio", "dance_radius", "dance_reduction"])
-        # Initial Value of Dance Radius
-        self.dyn_radius = self.dance_radius
         self.n_selected_bees = int(round(self.selected_site_ratio * self.pop_size))
         self.n_elite_bees = int(round(self.elite_site_ratio * self.n_selected_bees))
         self.n_selected_bees_local = int(round(self.selected_site_bee_ratio * self.pop_size))
         self.n_elite_bees_local = int(round(self.elite_site_bee_ratio * self.n_selected_bees_local))
         self.sort_flag = True
 
+    def initialize_variables(self):
+        # Initial Value of Dance Radius
+        self.dyn_radius = self.dance_radius
+
     def perform_dance__(self, position, r):
         jdx = self.generator.choice(range(0, self.problem.n_dims))
         position = position.copy()
@@ -324,9 +326,11 @@ class ProbBeesA(Optimizer):
         self.dance_reduction = self.validator.check_float("dance_reduction", dance_reduction, (0, 1.0))
         self.set_parameters(["epoch", "pop_size", "recruited_bee_ratio", "dance_radius", "dance_reduction"])
         self.sort_flag = True
+        self.recruited_bee_count = int(round(self.recruited_bee_ratio * self.pop_size))
+
+    def initialize_variables(self):
         # Initial Value of Dance Radius
         self.dyn_radius = self.dance_radius
-        self.recruited_bee_count = int(round(self.recruited_bee_ratio * self.pop_size))
 
     def perform_dance__(self, position, r):
         jdx = self.generator.choice(list(range(0, self.problem.n_dims)))
-- 
2.43.0


From 7ffb5d1fb3594d8600ae9d526c31ab6a3ed74839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:27 +0000
Subject: [PATCH 051/126] fix: OrcaOA starts every run with the initial radius

---
 mealpy/swarm_based/ORCA.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/ORCA.py b/mealpy/swarm_based/ORCA.py
index 0d6eb5c..d1d4b37 100644
--- a/mealpy/swarm_based/ORCA.py
+++ b/mealpy/swarm_based/ORCA.py
@@ -59,10 +59,12 @@ class OriginalOrcaOA(Optimizer):
         self.p_percent = self.validator.check_float("p_percent", p_percent, [0, 1.0])
         self.R0 = self.validator.check_float("R0", R0, [-1000, 1000])
         self.set_parameters(["epoch", "pop_size", "p_percent", "R0"])
-        self.R = self.R0
         self.sort_flag = True
         self.n_removes = int(self.p_percent * pop_size)
 
+    def initialize_variables(self):
+        self.R = self.R0
+
     def evolve(self, epoch: int):
         """
         The main operations (equations) of algorithm. Inherit from Optimizer class
-- 
2.43.0


From 9831cb64ed7ba3711d4da4a6ff393e997bbd9e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:22 +0000
Subject: [PATCH 052/126] fix: ICA keeps its colonies disjoint and its empires
 non-empty for every fitness

---
 mealpy/human_based/ICA.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/mealpy/human_based/ICA.py b/mealpy/human_based/ICA.py
index 7a8940e..dddee5e 100644
--- a/mealpy/human_based/ICA.py
+++ b/mealpy/human_based/ICA.py
@@ -110,13 +110,17 @@ class OriginalICA(Optimizer):
 
         cost_empires_list = np.array([agent.target.fitness for agent in self.pop_empires])
         cost_empires_list_normalized = cost_empires_list - (np.max(cost_empires_list) + np.min(cost_empires_list))
-        prob_empires_list = np.abs(cost_empires_list_normalized / np.sum(cost_empires_list_normalized))
+        total_cost = np.sum(cost_empires_list_normalized)
+        if np.isclose(total_cost, 0):
+            prob_empires_list = np.ones(self.empire_count) / self.empire_count
+        else:
+            prob_empires_list = np.abs(cost_empires_list_normalized / total_cost)
         # Randomly choose colonies to empires
         self.empires = {}
         idx_already_selected = []
         for i in range(0, self.empire_count - 1):
             self.empires[i] = []
-            n_colonies = int(round(prob_empires_list[i] * colony_count))
+            n_colonies = int(min(round(prob_empires_list[i] * colony_count), colony_count - len(idx_already_selected)))
             idx_list = self.generator.choice(list(set(range(0, colony_count)) - set(idx_already_selected)), n_colonies, replace=False).tolist()
             idx_already_selected += idx_list
             for idx in idx_list:
@@ -171,7 +175,7 @@ class OriginalICA(Optimizer):
         cost_empires_list = []
         for idx, colonies in self.empires.items():
             fit_list = np.array([agent.target.fitness for agent in colonies])
-            fit_empire = self.pop_empires[idx].target.fitness + self.zeta * np.mean(fit_list)
+            fit_empire = self.pop_empires[idx].target.fitness + self.zeta * (np.mean(fit_list) if len(fit_list) > 0 else 0)
             cost_empires_list.append(fit_empire)
         cost_empires_list = np.array(cost_empires_list)
         # Find possession probability of each empire based on its total power
@@ -184,8 +188,13 @@ class OriginalICA(Optimizer):
         idx_weakest_empire = np.argmax(cost_empires_list)
         if len(self.empires[idx_weakest_empire]) > 0:
             colonies_sorted, _ = self.get_sorted_population(self.empires[idx_weakest_empire], self.problem.minmax)
-            self.empires[idx_empire].append(colonies_sorted.pop(-1))
-        else:
+            weakest_colony = colonies_sorted.pop(-1)
+            self.empires[idx_weakest_empire] = colonies_sorted
+            self.empires[idx_empire].append(weakest_colony)
+        elif idx_empire != idx_weakest_empire:
+            # The empire without colonies collapses, its imperialist becomes a colony of the winner
             self.empires[idx_empire].append(self.pop_empires.pop(idx_weakest_empire))
-
+            del self.empires[idx_weakest_empire]
+            self.empires = dict(enumerate(self.empires.values()))
+        self.pop_colonies = [colony for colonies in self.empires.values() for colony in colonies]
         self.pop = self.pop_empires + self.pop_colonies
-- 
2.43.0


From 3383f57433d724f0ab05655881b25a8b98e5f69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:22 +0000
Subject: [PATCH 053/126] fix: indexing a ParameterGrid gives the point of the
 iteration

---
 mealpy/tuner.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mealpy/tuner.py b/mealpy/tuner.py
index 61fd74e..d998005 100644
--- a/mealpy/tuner.py
+++ b/mealpy/tuner.py
@@ -131,17 +131,18 @@ class ParameterGrid:
             ## My version: Don't sort the values and don't reverse here. Keep it as it is
             keys, values_lists = zip(*sub_grid.items())
             sizes = [len(v_list) for v_list in values_lists]
-            total = np.product(sizes)
+            total = int(np.prod(sizes))
 
             if ind >= total:
                 # Try the next grid
                 ind -= total
             else:
                 out = {}
-                for key, v_list, n in zip(keys, values_lists, sizes):
+                # The last parameter cycles fastest, as in the iteration
+                for key, v_list, n in reversed(list(zip(keys, values_lists, sizes))):
                     ind, offset = divmod(ind, n)
                     out[key] = v_list[offset]
-                return out
+                return {key: out[key] for key in keys}
 
         raise IndexError("ParameterGrid index out of range")
 
-- 
2.43.0


From b9983dd8b8d63ce6820aa572aba299748a18427b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:22 +0000
Subject: [PATCH 054/126] fix: Tuner accepts Problem instances and the default
 problem direction

---
 mealpy/tuner.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mealpy/tuner.py b/mealpy/tuner.py
index d998005..9346865 100644
--- a/mealpy/tuner.py
+++ b/mealpy/tuner.py
@@ -397,7 +397,8 @@ class Tuner:
 
         list_params_grid = list(ParameterGrid(self.param_grid))
         trial_columns = [f"trial_{id_trial}" for id_trial in range(1, self.n_trials + 1)]
-        ascending = True if self.problem["minmax"] == "min" else False
+        minmax = self.problem.minmax if isinstance(self.problem, Problem) else self.problem.get("minmax", "min")
+        ascending = True if minmax == "min" else False
 
         best_fit_results = []
         loss_results = []
-- 
2.43.0


From 893e4f2a2bc689a8537857d6b3cc193bb39e531c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:22 +0000
Subject: [PATCH 055/126] fix: Multitask accepts terminations and modes per
 algorithm and per algorithm-problem pair

---
 mealpy/multitask.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/multitask.py b/mealpy/multitask.py
index a902db0..54b7db4 100644
--- a/mealpy/multitask.py
+++ b/mealpy/multitask.py
@@ -101,11 +101,11 @@ class Multitask:
             if len(values) == 1:
                 values_final = [[deepcopy(values[0]) for _ in range(0, self.m_problems)] for _ in range(0, self.n_algorithms)]
             elif len(values) == self.n_algorithms:
-                values_final = [deepcopy(values[idx] for _ in range(0, self.m_problems)) for idx in range(0, self.n_algorithms)]
+                values_final = [[deepcopy(values[idx]) for _ in range(0, self.m_problems)] for idx in range(0, self.n_algorithms)]
             elif len(values) == self.m_problems:
                 values_final = [deepcopy(values) for _ in range(0, self.n_algorithms)]
             elif len(values) == (self.n_algorithms * self.m_problems):
-                values_final = values
+                values_final = [list(values[idx * self.m_problems:(idx + 1) * self.m_problems]) for idx in range(0, self.n_algorithms)]
             else:
                 raise ValueError(f"{name} should be list of {kind} instances with size (1) or (n) or (m) or (n*m), n: #algorithms, m: #problems.")
             return values_final
-- 
2.43.0


From 10709f197ce329befa63a529edf9aa18aa648bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:22 +0000
Subject: [PATCH 056/126] fix: PermutationVar decodes what it encodes and
 corrects a position only once

---
 mealpy/utils/space.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mealpy/utils/space.py b/mealpy/utils/space.py
index 12fe047..a1ea2f4 100644
--- a/mealpy/utils/space.py
+++ b/mealpy/utils/space.py
@@ -333,7 +333,8 @@ class PermutationVar(BaseVar):
         return self.le.inverse_transform(x)
 
     def correct(self, x):
-        return np.argsort(x)
+        # Ranks of the random keys: a corrected (or encoded) permutation stays as it is
+        return np.argsort(np.argsort(x))
 
     def generate(self):
         return self.generator.permutation(self.valid_set)
-- 
2.43.0


From 8c65dbe4abf14ff8b51d37e88e452187e56a2c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:22 +0000
Subject: [PATCH 057/126] fix: transfer variables use the lower bound they are
 given

---
 mealpy/utils/space.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/utils/space.py b/mealpy/utils/space.py
index a1ea2f4..effb4de 100644
--- a/mealpy/utils/space.py
+++ b/mealpy/utils/space.py
@@ -373,7 +373,7 @@ class TransferBinaryVar(BinaryVar):
             self.tf_func = getattr(transfer, tf_func)
         else:
             raise ValueError(f"Invalid transfer function! The supported TF funcs are: {self.SUPPORTED_TF_FUNCS}")
-        self.lb = lb * np.zeros(self.n_vars)
+        self.lb = lb * np.ones(self.n_vars)
         self.ub = ub * np.ones(self.n_vars)
         self.all_zeros = all_zeros
 
@@ -431,7 +431,7 @@ class TransferBoolVar(BoolVar):
             self.tf_func = getattr(transfer, tf_func)
         else:
             raise ValueError(f"Invalid transfer function! The supported TF funcs are: {self.SUPPORTED_TF_FUNCS}")
-        self.lb = lb * np.zeros(self.n_vars)
+        self.lb = lb * np.ones(self.n_vars)
         self.ub = ub * np.ones(self.n_vars)
 
     def correct(self, x):
-- 
2.43.0


From a754023c9c450f70f3286fbc912a61a8afb1925b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:22 +0000
Subject: [PATCH 058/126] fix: transfer variables decode a corrected position
 to itself

---
 mealpy/utils/space.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mealpy/utils/space.py b/mealpy/utils/space.py
index effb4de..123ce78 100644
--- a/mealpy/utils/space.py
+++ b/mealpy/utils/space.py
@@ -386,6 +386,9 @@ class TransferBinaryVar(BinaryVar):
             return x
 
     def correct(self, x):
+        x = np.array(x)
+        if np.all((x == 0) | (x == 1)):     # already binary: the position that was evaluated stays as it is
+            return self._get_correct_x(x.astype(int))
         x = np.clip(x, self.lb, self.ub)
         x = self.tf_func(x)
         cons = self.generator.random(len(x))
@@ -435,6 +438,9 @@ class TransferBoolVar(BoolVar):
         self.ub = ub * np.ones(self.n_vars)
 
     def correct(self, x):
+        x = np.array(x)
+        if np.all((x == 0) | (x == 1)):     # already binary: the position that was evaluated stays as it is
+            return x.astype(int)
         x = np.clip(x, self.lb, self.ub)
         x = self.tf_func(x)
         cons = self.generator.random(len(x))
-- 
2.43.0


From 74361d7a84903ee8eaa6bae29fabbc99f5fd803c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:39 +0000
Subject: [PATCH 059/126] fix: repeated labels of a StringVar do not decode to
 unknown

---
 mealpy/utils/space.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/utils/space.py b/mealpy/utils/space.py
index 123ce78..1c936ee 100644
--- a/mealpy/utils/space.py
+++ b/mealpy/utils/space.py
@@ -236,7 +236,7 @@ class StringVar(BaseVar):
                 le = LabelEncoder().fit(valid_sets)
                 self.list_le = (le,)
                 self.lb = np.array([0., ])
-                self.ub = np.array([len(valid_sets) - self.eps, ])
+                self.ub = np.array([len(le.unique_labels) - self.eps, ])
             else:
                 self.n_vars = len(valid_sets)
                 if all(len(item) > 1 for item in valid_sets):
@@ -246,7 +246,7 @@ class StringVar(BaseVar):
                     for vl_set in valid_sets:
                         le = LabelEncoder().fit(vl_set)
                         self.list_le.append(le)
-                        ub.append(len(vl_set) - self.eps)
+                        ub.append(len(le.unique_labels) - self.eps)
                     self.lb = np.zeros(self.n_vars)
                     self.ub = np.array(ub)
                 else:
-- 
2.43.0


From 58b4d27fc5ab6965cab520e33c15fc6204b7908f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:39 +0000
Subject: [PATCH 060/126] fix: CategoricalVar generates tuple valued categories

---
 mealpy/utils/space.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/utils/space.py b/mealpy/utils/space.py
index 1c936ee..31b5e6e 100644
--- a/mealpy/utils/space.py
+++ b/mealpy/utils/space.py
@@ -274,7 +274,7 @@ class CategoricalVar(StringVar):
         super().__init__(valid_sets, name)
 
     def generate(self):
-        return [self.generator.choice(np.array(vl_set, dtype=object)) for vl_set in self.valid_sets]
+        return [vl_set[int(self.generator.integers(0, len(vl_set)))] for vl_set in self.valid_sets]
 
 
 class SequenceVar(BaseVar):
-- 
2.43.0


From dae9cffc3e6a2fece334988c3dd1c8b833babfda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:39 +0000
Subject: [PATCH 061/126] fix: IntegerVar generates its whole range for every
 bound

---
 mealpy/utils/space.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/utils/space.py b/mealpy/utils/space.py
index 31b5e6e..c0d27b1 100644
--- a/mealpy/utils/space.py
+++ b/mealpy/utils/space.py
@@ -219,7 +219,7 @@ class IntegerVar(BaseVar):
         return np.clip(x, self.lb, self.ub)
 
     def generate(self):
-        return self.generator.integers(self.lb+0.5, self.ub+0.5+self.eps)
+        return self.generator.integers(np.rint(self.lb + 0.5).astype(int), np.rint(self.ub + 0.5 + self.eps).astype(int))
 
 
 class StringVar(BaseVar):
-- 
2.43.0


From e423e3fa22f27f60b8031f3a78074a4d267a7ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:39 +0000
Subject: [PATCH 062/126] fix: solve leaves the caller's problem dictionary
 unchanged

---
 mealpy/optimizer.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mealpy/optimizer.py b/mealpy/optimizer.py
index 761d360..bdbe500 100644
--- a/mealpy/optimizer.py
+++ b/mealpy/optimizer.py
@@ -166,8 +166,7 @@ class Optimizer:
             problem.set_seed(seed)
             self.problem = problem
         elif type(problem) == dict:
-            problem["seed"] = seed
-            self.problem = Problem(**problem)
+            self.problem = Problem(**{**problem, "seed": seed})
         else:
             raise ValueError("problem needs to be a dict or an instance of Problem class.")
         self.generator = np.random.default_rng(seed)
-- 
2.43.0


From 37602f5cd0c3c01e99daca1bc0437bf250fd35a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:39 +0000
Subject: [PATCH 063/126] fix: improved_ms keeps the best half for maximisation
 problems too

---
 mealpy/optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/optimizer.py b/mealpy/optimizer.py
index bdbe500..1bfc930 100644
--- a/mealpy/optimizer.py
+++ b/mealpy/optimizer.py
@@ -822,7 +822,7 @@ class Optimizer:
     def improved_ms(self, pop=None, g_best=None):  ## m: mutation, s: search
         pop_len = int(len(pop) / 2)
         ## Sort the updated population based on fitness
-        pop = sorted(pop, key=lambda agent: agent.target.fitness)
+        pop, _ = self.get_sorted_population(pop, self.problem.minmax)
         pop_s1, pop_s2 = pop[:pop_len], pop[pop_len:]
 
         ## Mutation scheme
-- 
2.43.0


From fa66902fa893d25d80ea1b9acba11a46b90744b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:12 +0000
Subject: [PATCH 064/126] fix: categorical variables encode tuple valued
 categories

---
 mealpy/utils/space.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/utils/space.py b/mealpy/utils/space.py
index c0d27b1..3aa143b 100644
--- a/mealpy/utils/space.py
+++ b/mealpy/utils/space.py
@@ -255,7 +255,7 @@ class StringVar(BaseVar):
             raise TypeError(f"Invalid valid_sets. It should be {self.SUPPORTED_ARRAY}.")
 
     def encode(self, x):
-        return np.array([le.transform(val)[0] for (le, val) in zip(self.list_le, x)], dtype=float)
+        return np.array([le.transform((val,))[0] for (le, val) in zip(self.list_le, x)], dtype=float)
 
     def decode(self, x):
         x = self.correct(x)
-- 
2.43.0


From c025ee0a3b9305f5ce84b39da0843007eef09eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:48 +0000
Subject: [PATCH 065/126] fix: n_jobs=1 runs Tuner and Multitask sequentially

---
 mealpy/multitask.py | 2 +-
 mealpy/tuner.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/multitask.py b/mealpy/multitask.py
index 54b7db4..6228442 100644
--- a/mealpy/multitask.py
+++ b/mealpy/multitask.py
@@ -173,7 +173,7 @@ class Multitask:
         """
         n_trials = self.validator.check_int("n_trials", n_trials, [1, 100000])
         n_processors = None
-        if (n_jobs is not None) and (n_jobs >= 1):
+        if (n_jobs is not None) and (n_jobs > 1):
             n_processors = self.validator.check_int("n_jobs", n_jobs, [2, min(61, os.cpu_count() - 1)])
 
         ## Get export function
diff --git a/mealpy/tuner.py b/mealpy/tuner.py
index 9346865..42a0ca6 100644
--- a/mealpy/tuner.py
+++ b/mealpy/tuner.py
@@ -389,7 +389,7 @@ class Tuner:
         self.problem = problem
         self.n_trials = self.validator.check_int("n_trials", n_trials, [1, 100000])
         n_cpus = None
-        if (n_jobs is not None) and (n_jobs >= 1):
+        if (n_jobs is not None) and (n_jobs > 1):
             n_cpus = self.validator.check_int("n_jobs", n_jobs, [2, min(61, os.cpu_count() - 1)])
 
         if mode not in ("process", "thread", "single", "swarm"):
-- 
2.43.0


From 927d0571dd40717847e9f03882b0c1b02846dc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:50 +0000
Subject: [PATCH 066/126] fix: Termination accepts its criteria as a dictionary

---
 mealpy/utils/termination.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/utils/termination.py b/mealpy/utils/termination.py
index 95ad04a..8033193 100644
--- a/mealpy/utils/termination.py
+++ b/mealpy/utils/termination.py
@@ -73,7 +73,7 @@ class Termination:
     def __set_keyword_arguments(self, kwargs):
         if type(kwargs) == dict:
             if type(kwargs.get("termination")) == dict:
-                for key, value in kwargs.items():
+                for key, value in kwargs["termination"].items():
                     setattr(self, key, value)
             for key, value in kwargs.items():
                 setattr(self, key, value)
-- 
2.43.0


From 5087c2aa62ba3c7094471cb6ccd37a73164b3e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:03 +0000
Subject: [PATCH 067/126] fix: Tuner picks the best parameters of maximisation
 problems

---
 mealpy/tuner.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/tuner.py b/mealpy/tuner.py
index 42a0ca6..060b407 100644
--- a/mealpy/tuner.py
+++ b/mealpy/tuner.py
@@ -428,8 +428,8 @@ class Tuner:
         self.df_fit["trial_mean"] = self.df_fit[trial_columns].mean(axis=1)
         self.df_fit["trial_std"] = self.df_fit[trial_columns].std(axis=1)
         self.df_fit["rank_mean"] = self.df_fit["trial_mean"].rank(ascending=ascending)
-        self.df_fit["rank_std"] = self.df_fit["trial_std"].rank(ascending=ascending)
-        self.df_fit["rank_mean_std"] = self.df_fit[["rank_mean", "rank_std"]].apply(tuple, axis=1).rank(method='dense', ascending=ascending)
+        self.df_fit["rank_std"] = self.df_fit["trial_std"].rank(ascending=True)
+        self.df_fit["rank_mean_std"] = self.df_fit[["rank_mean", "rank_std"]].apply(tuple, axis=1).rank(method='dense', ascending=True)
         self._best_row = self.df_fit[self.df_fit["rank_mean_std"] == self.df_fit["rank_mean_std"].min()]
         self._best_params = self._best_row["params"].values[0]
         self._best_score = self._best_row["trial_mean"].values[0]
-- 
2.43.0


From 1bb0d7ebad74770a8eacef910dd87e848cb71511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:18 +0000
Subject: [PATCH 068/126] fix: ETLBO corrects the random positions replacing
 duplicates before evaluating them

---
 mealpy/human_based/TLO.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mealpy/human_based/TLO.py b/mealpy/human_based/TLO.py
index b4215df..092d9be 100644
--- a/mealpy/human_based/TLO.py
+++ b/mealpy/human_based/TLO.py
@@ -122,6 +122,7 @@ class ETLBO(Optimizer):
         for idx in duplicate_indices:
             # Randomly mutate duplicate solutions within bounds
             pos_new = self.problem.lb + self.generator.random(self.problem.n_dims) * (self.problem.ub - self.problem.lb)
+            pos_new = self.correct_solution(pos_new)
             self.pop[idx] = self.generate_agent(pos_new)
 
 
-- 
2.43.0


From 8017c5635b1a2249c3faf1973ab0aaab1a412a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:18 +0000
Subject: [PATCH 069/126] fix: OGWO corrects opposite positions before
 evaluating them

---
 mealpy/swarm_based/GWO.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/swarm_based/GWO.py b/mealpy/swarm_based/GWO.py
index 4ce191d..40e8df2 100644
--- a/mealpy/swarm_based/GWO.py
+++ b/mealpy/swarm_based/GWO.py
@@ -1099,7 +1099,7 @@ class OGWO(Optimizer):
         # Generate opposition population using equation (12)
         pop_opposite = []
         for agent in self.pop:
-            pos_opposite = self.problem.lb + self.problem.ub - agent.solution
+            pos_opposite = self.correct_solution(self.problem.lb + self.problem.ub - agent.solution)
             agent_opposite = self.generate_empty_agent(pos_opposite)
             agent_opposite.target = self.get_target(pos_opposite)
             pop_opposite.append(agent_opposite)
@@ -1143,7 +1143,7 @@ class OGWO(Optimizer):
             # Generate opposition population using equation (12)
             pop_opposite = []
             for agent in self.pop:
-                pos_opposite = self.problem.lb + self.problem.ub - agent.solution
+                pos_opposite = self.correct_solution(self.problem.lb + self.problem.ub - agent.solution)
                 agent_opposite = self.generate_empty_agent(pos_opposite)
                 agent_opposite.target = self.get_target(pos_opposite)
                 pop_opposite.append(agent_opposite)
-- 
2.43.0


From 5b5e80d74152d0d62d0a187a8763195d9fe7c19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:18 +0000
Subject: [PATCH 070/126] fix: IOBL_GWO corrects opposite positions of the
 leaders before evaluating them

---
 mealpy/swarm_based/GWO.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mealpy/swarm_based/GWO.py b/mealpy/swarm_based/GWO.py
index 40e8df2..8f94d89 100644
--- a/mealpy/swarm_based/GWO.py
+++ b/mealpy/swarm_based/GWO.py
@@ -1021,9 +1021,9 @@ class IOBL_GWO(Optimizer):
         # Apply Opposition-Based Learning (OBL) for leading wolves
         _, list_best, _ = self.get_special_agents(self.pop, n_best=3, minmax=self.problem.minmax)
         pop_sorted, indices = self.get_sorted_population(self.pop, minmax=self.problem.minmax)
-        obl_alpha = self.generate_agent(solution=self.problem.lb + self.problem.ub - pop_sorted[0].solution)
-        obl_beta = self.generate_agent(solution=self.problem.lb + self.problem.ub - pop_sorted[1].solution)
-        obl_delta = self.generate_agent(solution=self.problem.lb + self.problem.ub - pop_sorted[2].solution)
+        obl_alpha = self.generate_agent(solution=self.correct_solution(self.problem.lb + self.problem.ub - pop_sorted[0].solution))
+        obl_beta = self.generate_agent(solution=self.correct_solution(self.problem.lb + self.problem.ub - pop_sorted[1].solution))
+        obl_delta = self.generate_agent(solution=self.correct_solution(self.problem.lb + self.problem.ub - pop_sorted[2].solution))
         obl_pop = [obl_alpha, obl_beta, obl_delta]
 
         # Replace worst 3 wolves with opposite solutions if they are better
-- 
2.43.0


From 47f3f75dd84514c1199a323939241e8e531b12f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:18 +0000
Subject: [PATCH 071/126] fix: OriginalCA corrects the positions drawn from the
 belief space before evaluating them

---
 mealpy/human_based/CA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/human_based/CA.py b/mealpy/human_based/CA.py
index 4017464..55c95c6 100644
--- a/mealpy/human_based/CA.py
+++ b/mealpy/human_based/CA.py
@@ -75,7 +75,7 @@ class OriginalCA(Optimizer):
         # update situational knowledge (g_best here is an element inside belief space)
 
     def create_faithful__(self, lb, ub):
-        pos = self.generator.uniform(lb, ub)
+        pos = self.correct_solution(self.generator.uniform(lb, ub))
         return self.generate_agent(pos)
 
     def update_belief_space__(self, belief_space, pop_accepted):
-- 
2.43.0


From ed52f04bfedca9a29cf12292e091b89ccbe20598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:18 +0000
Subject: [PATCH 072/126] fix: OriginalPO corrects positions for the problem
 before evaluating them

---
 mealpy/human_based/PO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/human_based/PO.py b/mealpy/human_based/PO.py
index d7c25bf..b4fad22 100644
--- a/mealpy/human_based/PO.py
+++ b/mealpy/human_based/PO.py
@@ -171,7 +171,7 @@ class OriginalPO(Optimizer):
             pos_new = self.rppus_update(pos_new, self.pop_prev[k].solution, m_const, is_improved)
 
             # Apply boundary constraints
-            self.pop[k].solution = self.amend_solution(pos_new)
+            self.pop[k].solution = self.correct_solution(pos_new)
 
         # Party Switching Phase
         for k in range(self.pop_size):
-- 
2.43.0


From bd7e38bfd1f8b308c4f8d88612437e3325f84694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:18 +0000
Subject: [PATCH 073/126] fix: OriginalCSA corrects the positions of new nests
 before evaluating them

---
 mealpy/swarm_based/CSA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/CSA.py b/mealpy/swarm_based/CSA.py
index cde8fed..d0fd6f6 100644
--- a/mealpy/swarm_based/CSA.py
+++ b/mealpy/swarm_based/CSA.py
@@ -92,7 +92,7 @@ class OriginalCSA(Optimizer):
         pop = self.get_sorted_and_trimmed_population(self.pop, self.pop_size, self.problem.minmax)
         pop_new = []
         for idx in range(0, self.n_cut):
-            pos_new = self.generator.uniform(self.problem.lb, self.problem.ub)
+            pos_new = self.correct_solution(self.generator.uniform(self.problem.lb, self.problem.ub))
             agent = self.generate_empty_agent(pos_new)
             pop_new.append(agent)
             if self.mode not in self.AVAILABLE_MODES:
-- 
2.43.0


From 5fc400b6f253c91e6657919cc923df6d928d30f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:18 +0000
Subject: [PATCH 074/126] fix: OriginalBRO corrects the position of a respawned
 soldier before evaluating it

---
 mealpy/human_based/BRO.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mealpy/human_based/BRO.py b/mealpy/human_based/BRO.py
index c6043f1..c4b88b2 100644
--- a/mealpy/human_based/BRO.py
+++ b/mealpy/human_based/BRO.py
@@ -223,6 +223,7 @@ class OriginalBRO(DevBRO):
                 self.pop[vic].damage = 0
             else:
                 pos_new = self.generator.uniform(self.problem.lb_updated, self.problem.ub_updated)
+                pos_new = self.correct_solution(pos_new)
                 agent = self.generate_agent(pos_new)
                 self.pop[dam] = agent
         if epoch >= self.dyn_delta:
-- 
2.43.0


From 927df8fe5100e5a94400c8ff906151d085b6128d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:47 +0000
Subject: [PATCH 075/126] fix: OriginalBCO accepts its documented default
 n_chemotaxis

---
 mealpy/bio_based/BCO.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/bio_based/BCO.py b/mealpy/bio_based/BCO.py
index 62c0555..456bb5f 100644
--- a/mealpy/bio_based/BCO.py
+++ b/mealpy/bio_based/BCO.py
@@ -23,7 +23,7 @@ class OriginalBCO(Optimizer):
     c_max : float
         Maximum chemotaxis step size, in range (c_min, 10.0). Default is 0.2.
     n_chemotaxis : int
-        Nonlinear parameter for chemotaxis step, in range (1, 5). Default is 1.
+        Nonlinear parameter for chemotaxis step, in range [1, 5]. Default is 1.
     max_swim_steps : int
         Maximum swimming steps, in range (2, 10). Default is 4.
     migration_prob : float
@@ -68,7 +68,7 @@ class OriginalBCO(Optimizer):
         self.pop_size = self.validator.check_int("pop_size", pop_size, [5, 10000])
         self.c_min = self.validator.check_float("c_min", c_min, (0., 1.0))
         self.c_max = self.validator.check_float("c_max", c_max, (c_min, 10.0))
-        self.n_chemotaxis = self.validator.check_int("n_chemotaxis", n_chemotaxis, (1, 5))
+        self.n_chemotaxis = self.validator.check_int("n_chemotaxis", n_chemotaxis, [1, 5])
         self.max_swim_steps = self.validator.check_int("max_swim_steps", max_swim_steps, (2, 10))
         self.migration_prob = self.validator.check_float("migration_prob", migration_prob, (0., 1.0))
         self.set_parameters(["epoch", "pop_size", "c_min", "c_max", "n_chemotaxis", "max_swim_steps", "migration_prob"])
-- 
2.43.0


From a250eb0ca19bbb764a771350bfd1b6c1ed3e80a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:47 +0000
Subject: [PATCH 076/126] fix: OriginalBFO keeps the step size Ci as a float
 instead of truncating it to zero

---
 mealpy/swarm_based/BFO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/BFO.py b/mealpy/swarm_based/BFO.py
index 7aeb49a..0fa00f4 100644
--- a/mealpy/swarm_based/BFO.py
+++ b/mealpy/swarm_based/BFO.py
@@ -95,7 +95,7 @@ class OriginalBFO(Optimizer):
         super().__init__(**kwargs)
         self.epoch = self.validator.check_int("epoch", epoch, [1, 100000])
         self.pop_size = self.validator.check_int("pop_size", pop_size, [5, 10000])
-        self.step_size = self.Ci = self.validator.check_int("Ci", Ci, (0, 5.0))
+        self.step_size = self.Ci = self.validator.check_float("Ci", Ci, (0, 5.0))
         self.p_eliminate = self.Ped = self.validator.check_float("Ped", Ped, (0, 1.0))
         self.chem_steps = self.Nc = self.validator.check_int("Nc", Nc, [2, 100])
         self.swim_length = self.Ns = self.validator.check_int("Ns", Ns, [2, 100])
-- 
2.43.0


From cf62d88f86f26933eac268bd50b3b7483175f7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:36 +0000
Subject: [PATCH 077/126] fix: GA crossover and mutation work for problems with
 one dimension

---
 mealpy/evolutionary_based/GA.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/mealpy/evolutionary_based/GA.py b/mealpy/evolutionary_based/GA.py
index cf9129d..c5b65c7 100644
--- a/mealpy/evolutionary_based/GA.py
+++ b/mealpy/evolutionary_based/GA.py
@@ -212,7 +212,7 @@ class BaseGA(Optimizer):
         if self.crossover == "arithmetic":
             w1, w2 = self.crossover_arithmetic(dad, mom)
         elif self.crossover == "one_point":
-            cut = self.generator.integers(1, self.problem.n_dims)
+            cut = self.generator.integers(1, max(2, self.problem.n_dims))
             w1 = np.concatenate([dad[:cut], mom[cut:]])
             w2 = np.concatenate([mom[:cut], dad[cut:]])
         elif self.crossover == "multi_points":
@@ -251,7 +251,7 @@ class BaseGA(Optimizer):
         if self.mutation_multipoints:
             if self.mutation == "swap":
                 for idx in range(self.problem.n_dims):
-                    idx_swap = self.generator.choice(list(set(range(0, self.problem.n_dims)) - {idx}))
+                    idx_swap = self.generator.choice(list(set(range(0, self.problem.n_dims)) - {idx}) or [idx])
                     child[idx], child[idx_swap] = child[idx_swap], child[idx]
                     return child
             else:       # "flip"
@@ -260,17 +260,17 @@ class BaseGA(Optimizer):
                 return np.where(flag_child, mutation_child, child)
         else:
             if self.mutation == "swap":
-                idx1, idx2 = self.generator.choice(range(0, self.problem.n_dims), 2, replace=False)
+                idx1, idx2 = self.generator.choice(range(0, self.problem.n_dims), 2, replace=self.problem.n_dims < 2)
                 child[idx1], child[idx2] = child[idx2], child[idx1]
                 return child
             elif self.mutation == "inversion":
-                cut1, cut2 = self.generator.choice(range(0, self.problem.n_dims), 2, replace=False)
+                cut1, cut2 = self.generator.choice(range(0, self.problem.n_dims), 2, replace=self.problem.n_dims < 2)
                 temp = child[cut1:cut2]
                 temp = temp[::-1]
                 child[cut1:cut2] = temp
                 return child
             elif self.mutation == "scramble":
-                cut1, cut2 = self.generator.choice(range(0, self.problem.n_dims), 2, replace=False)
+                cut1, cut2 = self.generator.choice(range(0, self.problem.n_dims), 2, replace=self.problem.n_dims < 2)
                 temp = child[cut1:cut2]
                 self.generator.shuffle(temp)
                 child[cut1:cut2] = temp
@@ -431,17 +431,17 @@ class SingleGA(BaseGA):
             np.array: The mutated vector of the child
         """
         if self.mutation == "swap":
-            idx1, idx2 = self.generator.choice(range(0, self.problem.n_dims), 2, replace=False)
+            idx1, idx2 = self.generator.choice(range(0, self.problem.n_dims), 2, replace=self.problem.n_dims < 2)
             child[idx1], child[idx2] = child[idx2], child[idx1]
             return child
         elif self.mutation == "inversion":
-            cut1, cut2 = self.generator.choice(range(0, self.problem.n_dims), 2, replace=False)
+            cut1, cut2 = self.generator.choice(range(0, self.problem.n_dims), 2, replace=self.problem.n_dims < 2)
             temp = child[cut1:cut2]
             temp = temp[::-1]
             child[cut1:cut2] = temp
             return child
         elif self.mutation == "scramble":
-            cut1, cut2 = self.generator.choice(range(0, self.problem.n_dims), 2, replace=False)
+            cut1, cut2 = self.generator.choice(range(0, self.problem.n_dims), 2, replace=self.problem.n_dims < 2)
             temp = child[cut1:cut2]
             self.generator.shuffle(temp)
             child[cut1:cut2] = temp
@@ -684,7 +684,7 @@ class MultiGA(BaseGA):
         """
         if self.mutation == "swap":
             for idx in range(self.problem.n_dims):
-                idx_swap = self.generator.choice(list(set(range(0, self.problem.n_dims)) - {idx}))
+                idx_swap = self.generator.choice(list(set(range(0, self.problem.n_dims)) - {idx}) or [idx])
                 child[idx], child[idx_swap] = child[idx_swap], child[idx]
                 return child
         else:       # "flip"
-- 
2.43.0


From 052da068b151e47330fc2ba40a07b35aab9a1185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:36 +0000
Subject: [PATCH 078/126] fix: CRO crossover works for problems with one
 dimension

---
 mealpy/evolutionary_based/CRO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/evolutionary_based/CRO.py b/mealpy/evolutionary_based/CRO.py
index fd5c5dc..f7e4596 100644
--- a/mealpy/evolutionary_based/CRO.py
+++ b/mealpy/evolutionary_based/CRO.py
@@ -119,7 +119,7 @@ class OriginalCRO(Optimizer):
 
     ### Crossover
     def multi_point_cross__(self, pos1, pos2):
-        p1, p2 = self.generator.choice(list(range(len(pos1))), 2, replace=False)
+        p1, p2 = self.generator.choice(list(range(len(pos1))), 2, replace=len(pos1) < 2)
         start, end = min(p1, p2), max(p1, p2)
         pos_new = np.concatenate((pos1[:start], pos2[start:end], pos1[end:]), axis=0)
         return self.correct_solution(pos_new)
-- 
2.43.0


From d18e2bd6ae66d7c91bcee530763adeb68652763d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:36 +0000
Subject: [PATCH 079/126] fix: DOA works for problems with one dimension

---
 mealpy/human_based/DOA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/human_based/DOA.py b/mealpy/human_based/DOA.py
index b94fa2d..1213c1f 100644
--- a/mealpy/human_based/DOA.py
+++ b/mealpy/human_based/DOA.py
@@ -135,7 +135,7 @@ class OriginalDOA(Optimizer):
             for idx in range(self.pop_size):
                 km = max(2, int(np.ceil(self.problem.n_dims / 3)))
                 k = self.generator.integers(2, km + 1)
-                in_indices = self.generator.choice(self.problem.n_dims, size=k, replace=False)
+                in_indices = self.generator.choice(self.problem.n_dims, size=min(k, self.problem.n_dims), replace=False)
                 pos_new = self.g_best.solution.copy()
                 for jdx in in_indices:
                     cos_term = (np.cos(epoch * np.pi / self.epoch) + 1) / 2
-- 
2.43.0


From a54f59ebbbd8cc968494633183c3cd274c867734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:36 +0000
Subject: [PATCH 080/126] fix: LSHADEcnEpSin works for problems with one
 dimension

---
 mealpy/sota_based/LSHADEcnEpSin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/sota_based/LSHADEcnEpSin.py b/mealpy/sota_based/LSHADEcnEpSin.py
index 7556e1c..d59550e 100644
--- a/mealpy/sota_based/LSHADEcnEpSin.py
+++ b/mealpy/sota_based/LSHADEcnEpSin.py
@@ -206,7 +206,7 @@ class OriginalLSHADEcnEpSin(Optimizer):
 
         # Compute covariance matrix
         if neighborhood.shape[0] > 1:
-            cov_matrix = np.cov(neighborhood.T)
+            cov_matrix = np.atleast_2d(np.cov(neighborhood.T))
             # Ensure positive definite
             cov_matrix += np.eye(self.problem.n_dims) * 1e-8
 
-- 
2.43.0


From c268358d3be6d73b356d620bfba5c277f1fa45e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:36 +0000
Subject: [PATCH 081/126] fix: ImprovedNMRA works for problems with one
 dimension

---
 mealpy/swarm_based/NMRA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/NMRA.py b/mealpy/swarm_based/NMRA.py
index 5f9a22d..41c80ad 100644
--- a/mealpy/swarm_based/NMRA.py
+++ b/mealpy/swarm_based/NMRA.py
@@ -147,7 +147,7 @@ class ImprovedNMRA(Optimizer):
         self.size_b = int(self.pop_size / 5)
 
     def crossover_random__(self, pop, g_best):
-        start_point = self.generator.integers(0, self.problem.n_dims / 2)
+        start_point = self.generator.integers(0, max(1, self.problem.n_dims // 2))
         id1 = start_point
         id2 = int(start_point + self.problem.n_dims / 3)
         id3 = int(self.problem.n_dims)
-- 
2.43.0


From 2bfc6faff45d93f29e20eb582865eded64f35e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:36 +0000
Subject: [PATCH 082/126] fix: SFO updates at most all dimensions when the
 attack power is below -1

---
 mealpy/swarm_based/SFO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/SFO.py b/mealpy/swarm_based/SFO.py
index 2d9db03..4b07531 100644
--- a/mealpy/swarm_based/SFO.py
+++ b/mealpy/swarm_based/SFO.py
@@ -107,7 +107,7 @@ class OriginalSFO(Optimizer):
         AP = self.AP * (1. - 2. * epoch * self.epsilon)
         if AP < 0.5:
             alpha = int(self.s_size * np.abs(AP))
-            beta = int(self.problem.n_dims * np.abs(AP))
+            beta = min(int(self.problem.n_dims * np.abs(AP)), self.problem.n_dims)
             ### Random self.generator.choice number of sardines which will be updated their position
             list1 = self.generator.choice(range(0, self.s_size), alpha)
             for idx in range(0, self.s_size):
-- 
2.43.0


From 4225290fb7ef2a3f85e284e31341ee771cb92660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:36 +0000
Subject: [PATCH 083/126] fix: TS stays where it is when every neighbour is
 tabu

---
 mealpy/math_based/TS.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mealpy/math_based/TS.py b/mealpy/math_based/TS.py
index 64bea42..9f135c6 100644
--- a/mealpy/math_based/TS.py
+++ b/mealpy/math_based/TS.py
@@ -106,6 +106,10 @@ class OriginalTS(Optimizer):
             if self.mode not in self.AVAILABLE_MODES:
                 list_candidates[-1].target = self.get_target(pos_new)
         list_candidates = self.update_target_for_population(list_candidates)
+        if len(list_candidates) == 0:       # Every neighbour is tabu, stay at the current solution
+            if len(self.pop) == 0:
+                self.pop = [self.g_best.copy()]
+            return
         best_candidate, _ = self.get_best_agent(list_candidates, self.problem.minmax)
         self.x = best_candidate.solution
         # Update tabu list
-- 
2.43.0


From a43858bdf2ecac2b9d55860c50da660897f2691f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:36 +0000
Subject: [PATCH 084/126] fix: CleverBookBeesA searches along every dimension

---
 mealpy/swarm_based/BeesA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/BeesA.py b/mealpy/swarm_based/BeesA.py
index 57eb60a..ee490bd 100644
--- a/mealpy/swarm_based/BeesA.py
+++ b/mealpy/swarm_based/BeesA.py
@@ -96,7 +96,7 @@ class CleverBookBeesA(Optimizer):
         """
         pop_neigh = []
         for idx in range(0, neigh_size):
-            t1 = self.generator.integers(0, len(parent.solution) - 1)
+            t1 = self.generator.integers(0, len(parent.solution))
             new_bee = parent.solution.copy()
             new_bee[t1] = (parent.solution[t1] + self.generator.uniform() * self.patch_size) if self.generator.uniform() < 0.5 \
                 else (parent.solution[t1] - self.generator.uniform() * self.patch_size)
-- 
2.43.0


From 85fe41292991daaac9dc58143746981c12a079b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:54 +0000
Subject: [PATCH 085/126] fix: CHIO copes with an empty susceptible or immune
 list

---
 mealpy/human_based/CHIO.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mealpy/human_based/CHIO.py b/mealpy/human_based/CHIO.py
index 3c3a264..fd42dfc 100644
--- a/mealpy/human_based/CHIO.py
+++ b/mealpy/human_based/CHIO.py
@@ -95,10 +95,15 @@ class OriginalCHIO(Optimizer):
                     is_corona_list[i] = True
                 elif (1.0 / 3) * self.brr <= rand < (2.0 / 3) * self.brr:
                     idx_candidates = np.where(self.immunity_type_list == 0)  # Susceptible list
+                    if idx_candidates[0].size == 0:
+                        self.finished = True
+                        break
                     idx_selected = self.generator.choice(idx_candidates[0])
                     pos_new[j] = self.pop[i].solution[j] + self.generator.uniform() * (self.pop[i].solution[j] - self.pop[idx_selected].solution[j])
                 elif (2.0 / 3) * self.brr <= rand < self.brr:
                     idx_candidates = np.where(self.immunity_type_list == 2)  # Immunity list
+                    if idx_candidates[0].size == 0:
+                        continue
                     fit_list = np.array([self.pop[item].target.fitness for item in idx_candidates[0]])
                     idx_selected = idx_candidates[0][np.argmin(fit_list)]  # Found the index of best fitness
                     pos_new[j] = self.pop[i].solution[j] + self.generator.uniform() * (self.pop[i].solution[j] - self.pop[idx_selected].solution[j])
@@ -214,6 +219,8 @@ class DevCHIO(OriginalCHIO):
                     pos_new[j] = self.pop[i].solution[j] + self.generator.uniform() * (self.pop[i].solution[j] - self.pop[idx_selected].solution[j])
                 elif (2.0 / 3) * self.brr <= rand < self.brr:
                     idx_candidates = np.where(self.immunity_type_list == 2)  # Immunity list
+                    if idx_candidates[0].size == 0:
+                        continue
                     fit_list = np.array([self.pop[item].target.fitness for item in idx_candidates[0]])
                     idx_selected = idx_candidates[0][np.argmin(fit_list)]  # Found the index of best fitness
                     pos_new[j] = self.pop[i].solution[j] + self.generator.uniform() * (self.pop[i].solution[j] - self.pop[idx_selected].solution[j])
-- 
2.43.0


From ce595f66d3c6f7f22ba6088c46d5fe1731d1a1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:54 +0000
Subject: [PATCH 086/126] fix: GA roulette selection ends when a single agent
 can be drawn

---
 mealpy/evolutionary_based/GA.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/mealpy/evolutionary_based/GA.py b/mealpy/evolutionary_based/GA.py
index c5b65c7..fd19b2a 100644
--- a/mealpy/evolutionary_based/GA.py
+++ b/mealpy/evolutionary_based/GA.py
@@ -135,9 +135,8 @@ class BaseGA(Optimizer):
         """
         if self.selection == "roulette":
             id_c1 = self.get_index_roulette_wheel_selection(list_fitness)
-            id_c2 = self.get_index_roulette_wheel_selection(list_fitness)
-            while id_c2 == id_c1:
-                id_c2 = self.get_index_roulette_wheel_selection(list_fitness)
+            others = np.delete(np.arange(len(list_fitness)), id_c1)
+            id_c2 = others[self.get_index_roulette_wheel_selection(list_fitness[others])]
         elif self.selection == "random":
             id_c1, id_c2 = self.generator.choice(range(self.pop_size), 2, replace=False)
         else:   ## tournament
@@ -161,9 +160,8 @@ class BaseGA(Optimizer):
         if self.selection == "roulette":
             list_fitness = np.array([agent.target.fitness for agent in pop_selected])
             id_c1 = self.get_index_roulette_wheel_selection(list_fitness)
-            id_c2 = self.get_index_roulette_wheel_selection(list_fitness)
-            while id_c2 == id_c1:
-                id_c2 = self.get_index_roulette_wheel_selection(list_fitness)
+            others = np.delete(np.arange(len(list_fitness)), id_c1)
+            id_c2 = others[self.get_index_roulette_wheel_selection(list_fitness[others])]
         elif self.selection == "random":
             id_c1, id_c2 = self.generator.choice(range(len(pop_selected)), 2, replace=False)
         else:   ## tournament
-- 
2.43.0


From 54c0b3fca1fc7b948fc757bb8178463d1d8b212f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:35 +0000
Subject: [PATCH 087/126] fix: TPO starts from the starting solutions instead
 of dropping them

---
 mealpy/bio_based/TPO.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mealpy/bio_based/TPO.py b/mealpy/bio_based/TPO.py
index fa0da9c..0614871 100644
--- a/mealpy/bio_based/TPO.py
+++ b/mealpy/bio_based/TPO.py
@@ -92,10 +92,14 @@ class DevTPO(Optimizer):
         self.roots = self.generator.uniform(0, 1, (self.n_leafs, self.problem.n_dims))
 
     def initialization(self):
+        starts = self.pop                   # The starting solutions (if any) are the first leafs of the branches
         self.pop_total = []
         self.pop = []                       # The best leaf in each branches
         for idx in range(self.pop_size):
-            leafs = self.generate_population(self.n_leafs)
+            if starts is None:
+                leafs = self.generate_population(self.n_leafs)
+            else:
+                leafs = [starts[idx]] + self.generate_population(self.n_leafs - 1)
             best, _ = self.get_best_agent(leafs, self.problem.minmax)
             self.pop.append(best)
             self.pop_total.append(leafs)
-- 
2.43.0


From 752abe85d1b403bedb9c1f2626a5441587dc459d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:35 +0000
Subject: [PATCH 088/126] fix: PSS starts from the starting solutions instead
 of dropping them

---
 mealpy/math_based/PSS.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mealpy/math_based/PSS.py b/mealpy/math_based/PSS.py
index 29cda9c..cd60b83 100644
--- a/mealpy/math_based/PSS.py
+++ b/mealpy/math_based/PSS.py
@@ -82,6 +82,8 @@ class OriginalPSS(Optimizer):
         return pop
 
     def initialization(self):
+        if self.pop is not None:        # The starting solutions
+            return
         lb_pop = np.repeat(np.reshape(self.problem.lb, (1, -1)), self.pop_size, axis=0)
         ub_pop = np.repeat(np.reshape(self.problem.ub, (1, -1)), self.pop_size, axis=0)
         steps_mat = np.repeat(np.reshape(self.steps, (1, -1)), self.pop_size, axis=0)
-- 
2.43.0


From d005520a4da97ff631d69ecb8b0049096619098e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:35 +0000
Subject: [PATCH 089/126] fix: ModifiedSLO and ImprovedSLO keep the best
 initial position as the leader

---
 mealpy/swarm_based/SLO.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/mealpy/swarm_based/SLO.py b/mealpy/swarm_based/SLO.py
index 37c9647..905dd11 100644
--- a/mealpy/swarm_based/SLO.py
+++ b/mealpy/swarm_based/SLO.py
@@ -164,6 +164,15 @@ class ModifiedSLO(Optimizer):
             agent.update(solution=t1, target=target, local_solution=t2, local_target=local_target)
         return agent
 
+    def initialization(self) -> None:
+        super().initialization()
+        # The best known position leads the group, so at least one agent has to be there
+        best = self.pop[0]
+        for agent in self.pop[1:]:
+            if self.compare_target(agent.local_target, best.local_target, self.problem.minmax):
+                best = agent
+        best.update(solution=best.local_solution.copy(), target=best.local_target.copy())
+
     def evolve(self, epoch):
         """
         The main operations (equations) of algorithm. Inherit from Optimizer class
-- 
2.43.0


From 510662c12957aea41f88a53a1b1a457490aade5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:02 +0000
Subject: [PATCH 090/126] fix: NRO works for problems with one dimension

---
 mealpy/physics_based/NRO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/physics_based/NRO.py b/mealpy/physics_based/NRO.py
index 874a95c..47b4ebe 100644
--- a/mealpy/physics_based/NRO.py
+++ b/mealpy/physics_based/NRO.py
@@ -71,7 +71,7 @@ class OriginalNRO(Optimizer):
         Args:
             epoch (int): The current iteration
         """
-        levy_b = self.get_levy_flight_step(beta=1.5, multiplier=0.01, size=self.problem.n_dims, case=-1)
+        levy_b = np.atleast_1d(self.get_levy_flight_step(beta=1.5, multiplier=0.01, size=self.problem.n_dims, case=-1))
         # NFi phase
         Pb = self.generator.uniform()
         Pfi = self.generator.uniform()
-- 
2.43.0


From e7c05a3617009b5a94e510f472ec16d99d083b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:10 +0000
Subject: [PATCH 091/126] fix: OriginalOrcaPA corrects positions moved to the
 lower bound before evaluating them

---
 mealpy/swarm_based/ORCA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/ORCA.py b/mealpy/swarm_based/ORCA.py
index d1d4b37..6e5a056 100644
--- a/mealpy/swarm_based/ORCA.py
+++ b/mealpy/swarm_based/ORCA.py
@@ -256,6 +256,6 @@ class OriginalOrcaPA(Optimizer):
                     # Assign the minimum boundary value (lb) for some dimensions
                     cond = self.generator.random(self.problem.n_dims) < self.p2
                     pos_new = np.where(cond, self.problem.lb, pop_chase[idx].solution)
-                    self.pop[idx] = self.generate_agent(pos_new)
+                    self.pop[idx] = self.generate_agent(self.correct_solution(pos_new))
                 else:
                     self.pop[idx] = pop_chase[idx].copy()
-- 
2.43.0


From 2f62592bbeb69122bcd714b2effc60221fb06f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:10 +0000
Subject: [PATCH 092/126] fix: OppoTWO keeps the best of its initial agents and
 their opposites

---
 mealpy/physics_based/TWO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/physics_based/TWO.py b/mealpy/physics_based/TWO.py
index 3bcf3c3..354f4c1 100644
--- a/mealpy/physics_based/TWO.py
+++ b/mealpy/physics_based/TWO.py
@@ -182,7 +182,7 @@ class OppoTWO(OriginalTWO):
             if self.mode not in self.AVAILABLE_MODES:
                 pop_oppo[-1].target = self.get_target(pos_opposite)
         pop_oppo = self.update_target_for_population(pop_oppo)
-        self.pop = pop_temp + pop_oppo
+        self.pop = self.get_sorted_and_trimmed_population(self.pop + pop_oppo, self.pop_size, self.problem.minmax)
         self.pop = self.update_weight__(self.pop)
 
     def evolve(self, epoch):
-- 
2.43.0


From 1b1d3be8edd9519f83221a63a6e7554e5d9d61e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:06 +0000
Subject: [PATCH 093/126] fix: EnhancedTWO keeps the initial agents next to
 their opposites

---
 mealpy/physics_based/TWO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/physics_based/TWO.py b/mealpy/physics_based/TWO.py
index 354f4c1..3f1d606 100644
--- a/mealpy/physics_based/TWO.py
+++ b/mealpy/physics_based/TWO.py
@@ -374,7 +374,7 @@ class EnhancedTWO(OppoTWO, LevyTWO):
     def initialization(self):
         if self.pop is None:
             self.pop = self.generate_population(self.pop_size)
-        pop_oppo = self.pop.copy()
+        pop_oppo = [agent.copy() for agent in self.pop]
         for idx in range(self.pop_size):
             pos_opposite = self.problem.ub + self.problem.lb - self.pop[idx].solution
             pos_new = self.correct_solution(pos_opposite)
-- 
2.43.0


From 3eeebad1811e73009a27f9617269c249db7b50d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:56 +0000
Subject: [PATCH 094/126] fix: PermutationVar generates the items it was given

np.array() turned items of mixed kinds into strings and tuples into rows, so a
generated permutation could not be encoded (KeyError, TypeError).
---
 mealpy/utils/space.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/utils/space.py b/mealpy/utils/space.py
index 3aa143b..1be2a48 100644
--- a/mealpy/utils/space.py
+++ b/mealpy/utils/space.py
@@ -317,7 +317,7 @@ class PermutationVar(BaseVar):
 
     def _set_bounds(self, valid_set):
         if type(valid_set) in self.SUPPORTED_ARRAY and len(valid_set) > 1:
-            self.valid_set = np.array(valid_set)
+            self.valid_set = list(valid_set)    # as they are: numpy would turn mixed items into strings, and tuples into rows
             self.n_vars = len(valid_set)
             self.le = LabelEncoder().fit(valid_set)
             self.lb = np.zeros(self.n_vars)
@@ -337,7 +337,7 @@ class PermutationVar(BaseVar):
         return np.argsort(np.argsort(x))
 
     def generate(self):
-        return self.generator.permutation(self.valid_set)
+        return [self.valid_set[idx] for idx in self.generator.permutation(self.n_vars)]
 
 
 class BinaryVar(BaseVar):
-- 
2.43.0


From f5b200f2137ff46d19e1e16e90351e0df8efa78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:37 +0000
Subject: [PATCH 095/126] fix: export_figures draws grids of a single parameter

groupby() of no columns raised ValueError, so a grid with one parameter could
not be exported.
---
 mealpy/tuner.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mealpy/tuner.py b/mealpy/tuner.py
index 060b407..9ddadcc 100644
--- a/mealpy/tuner.py
+++ b/mealpy/tuner.py
@@ -310,7 +310,8 @@ class Tuner:
             Path(save_path_new).mkdir(parents=True, exist_ok=True)
             for idx_para, para in enumerate(para_columns):
                 selected_paras = para_columns[:idx_para] + para_columns[idx_para + 1:]
-                group_paras = groups.groupby(selected_paras)
+                # A grid of one parameter has no others to group by
+                group_paras = groups.groupby(selected_paras) if selected_paras else [((), groups)]
                 for idx_group, group_df in group_paras:
                     if len(group_df) <= 1:
                         continue
@@ -336,7 +337,7 @@ class Tuner:
                     plt.xlabel(x_label)
                     plt.ylabel(y_label)
                     plt.legend(legends)
-                    fname = "-".join([f"{x}_{y}" for x, y in zip(selected_paras, idx_group)])
+                    fname = "-".join([f"{x}_{y}" for x, y in zip(selected_paras, idx_group)]) or para
                     for idx, ext in enumerate(exts):
                         plt.savefig(f"{save_path_new}/{fname}{ext}", bbox_inches='tight')
                     if platform.system() != "Linux" and verbose:
-- 
2.43.0


From e2b63fadbc8be1be780f27120ab1ddd7de44e29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:37 +0000
Subject: [PATCH 096/126] fix: a target is not better than an equal one on
 maximisation problems

compare_target and compare_fitness returned True for equal values when maximising
and False when minimising, so an agent was better than itself.
---
 mealpy/optimizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/optimizer.py b/mealpy/optimizer.py
index 1bfc930..1a444d6 100644
--- a/mealpy/optimizer.py
+++ b/mealpy/optimizer.py
@@ -452,14 +452,14 @@ class Optimizer:
         if minmax == "min":
             return True if target_x.fitness < target_y.fitness else False
         else:
-            return False if target_x.fitness < target_y.fitness else True
+            return True if target_x.fitness > target_y.fitness else False
 
     @staticmethod
     def compare_fitness(fitness_x: Union[float, int], fitness_y: Union[float, int], minmax: str = "min") -> bool:
         if minmax == "min":
             return True if fitness_x < fitness_y else False
         else:
-            return False if fitness_x < fitness_y else True
+            return True if fitness_x > fitness_y else False
 
     @staticmethod
     def duplicate_pop(pop: List[Agent]) -> List[Agent]:
-- 
2.43.0


From 565780823cd92c965788c7abd235571fea30603e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:37 +0000
Subject: [PATCH 097/126] fix: OriginalNGO follows the problem's direction when
 it chooses its prey

---
 mealpy/swarm_based/NGO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/NGO.py b/mealpy/swarm_based/NGO.py
index 25fb791..355879f 100644
--- a/mealpy/swarm_based/NGO.py
+++ b/mealpy/swarm_based/NGO.py
@@ -93,7 +93,7 @@ class OriginalNGO(Optimizer):
         for idx in range(0, self.pop_size):
             # Phase 1: Exploration
             kk = self.generator.permutation(self.pop_size)[0]
-            if self.compare_target(self.pop[kk].target, self.pop[idx].target):     # Eq. 4
+            if self.compare_target(self.pop[kk].target, self.pop[idx].target, self.problem.minmax):     # Eq. 4
                 pos_new = self.pop[idx].solution + self.generator.random(self.problem.n_dims) * (self.pop[kk].solution - self.generator.integers(1, 3) * self.pop[idx].solution)
             else:
                 pos_new = self.pop[idx].solution + self.generator.random(self.problem.n_dims) * (self.pop[idx].solution - self.pop[kk].solution)
-- 
2.43.0


From 4f8850e048ee12579fc109d4d63ecdcf1c42c16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:37 +0000
Subject: [PATCH 098/126] fix: OriginalIMODE keeps the better agents on
 maximisation problems

---
 mealpy/sota_based/IMODE.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/sota_based/IMODE.py b/mealpy/sota_based/IMODE.py
index d8fa722..7eac38c 100644
--- a/mealpy/sota_based/IMODE.py
+++ b/mealpy/sota_based/IMODE.py
@@ -281,7 +281,7 @@ class OriginalIMODE(Optimizer):
         for idx in range(len(matrix_child)):
             pos_new = self.correct_solution(matrix_child[idx])
             agent = self.generate_agent(pos_new)
-            if self.compare_target(agent.target, self.pop[idx].target):
+            if self.compare_target(agent.target, self.pop[idx].target, self.problem.minmax):
                 improvement_mask[idx] = True
             improvements[idx] = np.abs(self.pop[idx].target.fitness - agent.target.fitness)
             pop_new.append(agent)
-- 
2.43.0


From cd61a033ccd8a11dc3fc68eaba25d2ea98afd421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:37 +0000
Subject: [PATCH 099/126] fix: OriginalCCO keeps the better agents on
 maximisation problems

---
 mealpy/swarm_based/CCO.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/swarm_based/CCO.py b/mealpy/swarm_based/CCO.py
index 1fd31d8..23b88cd 100644
--- a/mealpy/swarm_based/CCO.py
+++ b/mealpy/swarm_based/CCO.py
@@ -184,7 +184,7 @@ class OriginalCCO(Optimizer):
                             else:
                                 V = 2 * (rng.random() * (self.pop[kk[1]].solution - self.pop[kk[2]].solution) + rng.random() * (self.pop[kk[0]].solution - pos_ii))
 
-                            if self.compare_target(self.pop[idx].target, self.pop[kk[idx]].target):
+                            if self.compare_target(self.pop[idx].target, self.pop[kk[idx]].target, self.problem.minmax):
                                 step = pos_ii - E * self.pop[kk[idx]].solution
                                 if (idx + 1) % 2 == 1:
                                     pos_new = (pos_ii + (T ** 2) * self.y[idx] * (1 - R1) * np.abs(step)) + F * R1 * step / 2 + V * J_i / epoch
@@ -262,7 +262,7 @@ class OriginalCCO(Optimizer):
             agent = self.generate_agent(pos_new)
 
             # Replacement logic
-            if self.compare_target(agent.target, self.pop[idx].target):
+            if self.compare_target(agent.target, self.pop[idx].target, self.problem.minmax):
                 self.pop[idx] = agent
                 # Q=1 logic: Replace the current worst in population
                 if Q == 1:
-- 
2.43.0


From aac10a22e5c7e9bc991f5780f5cf2e69d01fdad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:37 +0000
Subject: [PATCH 100/126] fix: OriginalEEFO follows the problem's direction
 when agents interact

---
 mealpy/swarm_based/EEFO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/EEFO.py b/mealpy/swarm_based/EEFO.py
index f0e7236..fca9bdb 100644
--- a/mealpy/swarm_based/EEFO.py
+++ b/mealpy/swarm_based/EEFO.py
@@ -119,7 +119,7 @@ class OriginalEEFO(Optimizer):
                 agent_j = self.pop[jdx]
 
                 # Eq. (7): Interaction based on fitness comparison
-                if self.compare_target(agent_j.target, agent.target):
+                if self.compare_target(agent_j.target, agent.target, self.problem.minmax):
                     if self.generator.random() > 0.5:
                         pos_new = agent_j.solution + self.generator.standard_normal() * direct_vector * (mean_pop_pos - x)
                     else:
-- 
2.43.0


From 36a07d327b177f8ffeaeaa8aa590a32d511f1551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:08 +0000
Subject: [PATCH 101/126] fix: C_PSO weighs and moves its particles in the
 problem's direction on maximisation problems

---
 mealpy/swarm_based/PSO.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/mealpy/swarm_based/PSO.py b/mealpy/swarm_based/PSO.py
index 9ccd223..640d7ed 100644
--- a/mealpy/swarm_based/PSO.py
+++ b/mealpy/swarm_based/PSO.py
@@ -608,12 +608,12 @@ class C_PSO(P_PSO):
         self.dyn_lb = self.problem.lb.copy()
         self.dyn_ub = self.problem.ub.copy()
 
-    def get_weights__(self, fit, fit_avg, fit_min):
-        temp1 = self.w_min + (self.w_max - self.w_min) * (fit - fit_min) / (fit_avg - fit_min)
+    def get_weights__(self, fit, fit_avg, fit_best):
+        temp1 = self.w_min + (self.w_max - self.w_min) * (fit - fit_best) / (fit_avg - fit_best)
         if self.problem.minmax == "min":
             output = temp1 if fit <= fit_avg else self.w_max
         else:
-            output = self.w_max if fit <= fit_avg else temp1
+            output = temp1 if fit >= fit_avg else self.w_max
         return output
 
     def bounded_solution(self, solution: np.ndarray) -> np.ndarray:
@@ -628,9 +628,9 @@ class C_PSO(P_PSO):
         """
         list_fits = [agent.target.fitness for agent in self.pop]
         fit_avg = np.mean(list_fits)
-        fit_min = np.min(list_fits)
+        fit_best = np.min(list_fits) if self.problem.minmax == "min" else np.max(list_fits)
         for idx in range(self.pop_size):
-            w = self.get_weights__(self.pop[idx].target.fitness, fit_avg, fit_min)
+            w = self.get_weights__(self.pop[idx].target.fitness, fit_avg, fit_best)
             v_new = w * self.pop[idx].velocity + self.c1 * self.generator.random() * (self.pop[idx].local_solution - self.pop[idx].solution) + \
                     self.c2 * self.generator.random() * (self.g_best.solution - self.pop[idx].solution)
             v_new = np.clip(v_new, self.v_min, self.v_max)
@@ -651,7 +651,7 @@ class C_PSO(P_PSO):
         x_best = self.problem.lb + cx_best_1 * (self.problem.ub - self.problem.lb)  # Eq. 8
         x_best = self.correct_solution(x_best)
         target_best = self.get_target(x_best)
-        if self.compare_target(target_best, self.g_best.target):
+        if self.compare_target(target_best, self.g_best.target, self.problem.minmax):
             g_best.update(solution=x_best, target=target_best)
 
         r = self.generator.random()
-- 
2.43.0


From 8dc11cceee8cd5fb4064ee20aa51728908d1aaf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:08 +0000
Subject: [PATCH 102/126] fix: OriginalESO follows the problem's direction on
 maximisation problems

---
 mealpy/physics_based/ESO.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mealpy/physics_based/ESO.py b/mealpy/physics_based/ESO.py
index 967c6e2..30915e0 100644
--- a/mealpy/physics_based/ESO.py
+++ b/mealpy/physics_based/ESO.py
@@ -81,8 +81,10 @@ class OriginalESO(Optimizer):
             percentile_threshold = (resistance / 2) * 100
             # Find solutions better than percentile
             fits = np.array([agent.target.fitness for agent in self.pop])
-            fitness_percentile = np.percentile(fits, percentile_threshold)
-            ionized_indices = np.where(fits <= fitness_percentile)[0]
+            if self.problem.minmax == "min":
+                ionized_indices = np.where(fits <= np.percentile(fits, percentile_threshold))[0]
+            else:
+                ionized_indices = np.where(fits >= np.percentile(fits, 100 - percentile_threshold))[0]
             ionized_pop = [self.pop[idx] for idx in ionized_indices]
 
         # Calculate field conductivity using logistic function
@@ -161,7 +163,7 @@ class OriginalESO(Optimizer):
             agent_new = self.generate_agent(pos_new)
 
             # Select better position
-            if self.compare_target(agent_new.target, agent.target):
+            if self.compare_target(agent_new.target, agent.target, self.problem.minmax):
                 pop_new.append(agent_new)
             else:
                 pop_new.append(agent)
-- 
2.43.0


From 5f6237310fcc0381dde953677950782922671a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:08 +0000
Subject: [PATCH 103/126] fix: OriginalGRSA follows the problem's direction on
 maximisation problems

---
 mealpy/physics_based/GRSA.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mealpy/physics_based/GRSA.py b/mealpy/physics_based/GRSA.py
index f6e0c95..370d671 100644
--- a/mealpy/physics_based/GRSA.py
+++ b/mealpy/physics_based/GRSA.py
@@ -110,8 +110,8 @@ class OriginalGRSA(Optimizer):
 
         # Current status
         x_p = np.array([agent.solution for agent in self.pop])
-        fitness_list = np.array([agent.target.fitness for agent in self.pop])
-        sorted_indices = np.argsort(fitness_list)
+        _, sorted_indices = self.get_sorted_population(self.pop, self.problem.minmax)
+        sorted_indices = np.array(sorted_indices)
 
         # Precompute geometry indices
         sg_idx = np.array([i * n_orn_g for i in range(self.n_geometry)])
@@ -170,7 +170,7 @@ class OriginalGRSA(Optimizer):
             self.pop = self.update_target_for_population(pop_new)
 
         for idx in range(self.pop_size):
-            if self.compare_fitness(self.pop[idx].target.fitness, self.geodesic_f[idx]):
+            if self.compare_fitness(self.pop[idx].target.fitness, self.geodesic_f[idx], self.problem.minmax):
                 self.geodesic_f[idx] = self.pop[idx].target.fitness
                 self.geodesic_x_p[idx] = self.pop[idx].solution.copy()
 
-- 
2.43.0


From f565af668cafaaf284723295deb4b619990b5864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:08 +0000
Subject: [PATCH 104/126] fix: OriginalHGSO re-initialises its worst agents,
 not its best ones

---
 mealpy/physics_based/HGSO.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mealpy/physics_based/HGSO.py b/mealpy/physics_based/HGSO.py
index 69750fc..e069af9 100644
--- a/mealpy/physics_based/HGSO.py
+++ b/mealpy/physics_based/HGSO.py
@@ -127,7 +127,8 @@ class OriginalHGSO(Optimizer):
         ## Rank and select the number of worst agents using Eq. 11
         N_w = int(self.pop_size * (self.generator.uniform(0, 0.1) + 0.1))
         ## Update the position of the worst agents using Eq. 12
-        sorted_id_pos = np.argsort([x.target.fitness for x in self.pop])
+        _, sorted_id_pos = self.get_sorted_population(self.pop, self.problem.minmax)
+        sorted_id_pos = sorted_id_pos[::-1]
 
         pop_new = []
         pop_idx = []
-- 
2.43.0


From 245e126fa742bb935d9b613e14a8b4559b62cb0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:08 +0000
Subject: [PATCH 105/126] fix: OriginalNRO ranks its nuclei in the problem's
 direction

---
 mealpy/physics_based/NRO.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/physics_based/NRO.py b/mealpy/physics_based/NRO.py
index 47b4ebe..38a7ad5 100644
--- a/mealpy/physics_based/NRO.py
+++ b/mealpy/physics_based/NRO.py
@@ -116,7 +116,7 @@ class OriginalNRO(Optimizer):
         ## Ionization stage
         ## Calculate the Pa through Eq. (10)
         pop_child = []
-        ranked_pop = np.argsort([self.pop[i].target.fitness for i in range(self.pop_size)])
+        _, ranked_pop = self.get_sorted_population(self.pop, self.problem.minmax)
         for idx in range(self.pop_size):
             X_ion = self.pop[idx].solution.copy()
             if (ranked_pop[idx] * 1.0 / self.pop_size) < self.generator.random():
@@ -156,7 +156,7 @@ class OriginalNRO(Optimizer):
         ## Fusion Stage
         ### all ions obtained from ionization are ranked based on (14) - Calculate the Pc through Eq. (14)
         pop_new = []
-        ranked_pop = np.argsort([self.pop[i].target.fitness for i in range(self.pop_size)])
+        _, ranked_pop = self.get_sorted_population(self.pop, self.problem.minmax)
         for idx in range(self.pop_size):
             i1, i2 = self.generator.choice(list(set(range(0, self.pop_size)) - {idx}), 2, replace=False)
             #### Generate fusion nucleus
-- 
2.43.0


From cfdcb2a2987e3203d77b28d165eec1671108116f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:08 +0000
Subject: [PATCH 106/126] fix: FBIO searches at random around the worst
 suspects on maximisation problems too

---
 mealpy/human_based/FBIO.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mealpy/human_based/FBIO.py b/mealpy/human_based/FBIO.py
index c87f824..635fc6e 100644
--- a/mealpy/human_based/FBIO.py
+++ b/mealpy/human_based/FBIO.py
@@ -56,6 +56,8 @@ class DevFBIO(Optimizer):
     def probability__(self, list_fitness=None):  # Eq.(3) in FBI Inspired Meta-Optimization
         max1 = np.max(list_fitness)
         min1 = np.min(list_fitness)
+        if self.problem.minmax == "max":
+            return (list_fitness - min1) / (max1 - min1 + self.EPSILON)
         return (max1 - list_fitness) / (max1 - min1 + self.EPSILON)
 
     def evolve(self, epoch):
-- 
2.43.0


From 1c75690bb3b134a67f2aecb181e3985bb49e8153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:08 +0000
Subject: [PATCH 107/126] fix: OriginalCOA replaces the oldest coyote on
 maximisation problems too

---
 mealpy/swarm_based/COA.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/mealpy/swarm_based/COA.py b/mealpy/swarm_based/COA.py
index 0072931..f43a86f 100644
--- a/mealpy/swarm_based/COA.py
+++ b/mealpy/swarm_based/COA.py
@@ -131,10 +131,7 @@ class OriginalCOA(Optimizer):
             packs, _ = self.get_sorted_population(self.pop_group[p], self.problem.minmax)
             # Find index of element has fitness larger than new child. If existed an element like that, new child is good
             if self.compare_target(agent.target, packs[-1].target, self.problem.minmax):
-                if self.problem.minmax == "min":
-                    packs = sorted(packs, key=lambda agent: agent.age)
-                else:
-                    packs = sorted(packs, key=lambda agent: agent.age, reverse=True)
+                packs = sorted(packs, key=lambda agent: agent.age)
                 # Replace worst element by new child, New born child with age = 0
                 packs[-1] = agent
                 self.pop_group[p] = [agent.copy() for agent in packs]
-- 
2.43.0


From 2bb078aca570d82a5d72e6f9654345986b21b354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:08 +0000
Subject: [PATCH 108/126] fix: OriginalTOA moves towards better teams on
 maximisation problems too

---
 mealpy/human_based/TOA.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mealpy/human_based/TOA.py b/mealpy/human_based/TOA.py
index 4342cb8..b4cbad0 100644
--- a/mealpy/human_based/TOA.py
+++ b/mealpy/human_based/TOA.py
@@ -108,8 +108,10 @@ class OriginalTOA(Optimizer):
                 sf_pos = np.array([self.pop[jdx].solution for jdx in idxs])
                 sf_pos = self.correct_solution(np.mean(sf_pos, axis=0))
                 sf = self.generate_agent(sf_pos)
-            pos_new = self.pop[idx].solution + self.generator.random() * (sf.solution - self.generator.integers(1, 3) *
-                                    self.pop[idx].solution) * np.sign(self.pop[idx].target.fitness - sf.target.fitness)
+            sign = np.sign(self.pop[idx].target.fitness - sf.target.fitness)
+            if self.problem.minmax == "max":
+                sign = -sign
+            pos_new = self.pop[idx].solution + self.generator.random() * (sf.solution - self.generator.integers(1, 3) * self.pop[idx].solution) * sign
             pos_new = self.correct_solution(pos_new)
             agent = self.generate_agent(pos_new)
             if self.compare_target(agent.target, self.pop[idx].target, self.problem.minmax):
-- 
2.43.0


From 4950daf4467f0425a61ecaa36fd19347bbe592f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:08 +0000
Subject: [PATCH 109/126] fix: TWO gives the better teams the larger weights on
 maximisation problems

---
 mealpy/physics_based/TWO.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mealpy/physics_based/TWO.py b/mealpy/physics_based/TWO.py
index 3f1d606..ef6ff6d 100644
--- a/mealpy/physics_based/TWO.py
+++ b/mealpy/physics_based/TWO.py
@@ -79,6 +79,8 @@ class OriginalTWO(Optimizer):
 
     def update_weight__(self, teams):
         list_fits = np.array([agent.target.fitness for agent in teams])
+        if self.problem.minmax == "max":
+            list_fits = -list_fits
         maxx, minn = np.max(list_fits), np.min(list_fits)
         if maxx == minn:
             list_fits = self.generator.uniform(0.0, 1.0, self.pop_size)
-- 
2.43.0


From 7584001f7356170a362db07a03c8f74e0fc3a931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:08 +0000
Subject: [PATCH 110/126] fix: OriginalASO gives the better atoms the larger
 masses on maximisation problems

---
 mealpy/physics_based/ASO.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/mealpy/physics_based/ASO.py b/mealpy/physics_based/ASO.py
index 46c6e4d..5dcbfcc 100644
--- a/mealpy/physics_based/ASO.py
+++ b/mealpy/physics_based/ASO.py
@@ -87,6 +87,8 @@ class OriginalASO(Optimizer):
 
     def update_mass__(self, population):
         list_fit = np.array([agent.target.fitness for agent in population])
+        if self.problem.minmax == "max":
+            list_fit = -list_fit
         list_fit = np.exp(-(list_fit - np.max(list_fit)) / (np.max(list_fit) - np.min(list_fit) + self.EPSILON))
         list_fit = list_fit / np.sum(list_fit)
         for idx in range(0, self.pop_size):
@@ -113,10 +115,7 @@ class OriginalASO(Optimizer):
         pop = self.update_mass__(population)
         G = np.exp(-20.0 * iteration / self.epoch)
         k_best = int(self.pop_size - (self.pop_size - 2) * (iteration / self.epoch) ** 0.5) + 1
-        if self.problem.minmax == "min":
-            k_best_pop = sorted(pop, key=lambda agent: agent.mass, reverse=True)[:k_best].copy()
-        else:
-            k_best_pop = sorted(pop, key=lambda agent: agent.mass)[:k_best].copy()
+        k_best_pop = sorted(pop, key=lambda agent: agent.mass, reverse=True)[:k_best].copy()
         mk_average = np.mean([agent.solution for agent in k_best_pop])
         acc_list = np.zeros((self.pop_size, self.problem.n_dims))
         for idx in range(0, self.pop_size):
-- 
2.43.0


From 1e262ab00df6975b266104cfe412c5a3e6f58daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:15 +0000
Subject: [PATCH 111/126] fix: ICA takes a colony from the weakest empire on
 maximisation problems too

---
 mealpy/human_based/ICA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/human_based/ICA.py b/mealpy/human_based/ICA.py
index dddee5e..782f08d 100644
--- a/mealpy/human_based/ICA.py
+++ b/mealpy/human_based/ICA.py
@@ -185,7 +185,7 @@ class OriginalICA(Optimizer):
         vector_D = prob_empires_list - uniform_list
         idx_empire = np.argmax(vector_D)
         # Find the weakest empire and weakest colony inside it
-        idx_weakest_empire = np.argmax(cost_empires_list)
+        idx_weakest_empire = np.argmax(cost_empires_list) if self.problem.minmax == "min" else np.argmin(cost_empires_list)
         if len(self.empires[idx_weakest_empire]) > 0:
             colonies_sorted, _ = self.get_sorted_population(self.empires[idx_weakest_empire], self.problem.minmax)
             weakest_colony = colonies_sorted.pop(-1)
-- 
2.43.0


From 965c1241c863ca6fa4c90c04bee3897f9b70653f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:11 +0000
Subject: [PATCH 112/126] fix: an equal agent does not replace the one at hand
 on maximisation problems

get_better_agent returned its first argument for equal agents when maximising and
its second when minimising.
---
 mealpy/optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/optimizer.py b/mealpy/optimizer.py
index 1a444d6..d3d63be 100644
--- a/mealpy/optimizer.py
+++ b/mealpy/optimizer.py
@@ -582,7 +582,7 @@ class Optimizer:
         if idx == 0:
             return agent_x.copy() if agent_x.target.fitness < agent_y.target.fitness else agent_y.copy()
         else:
-            return agent_y.copy() if agent_x.target.fitness < agent_y.target.fitness else agent_x.copy()
+            return agent_x.copy() if agent_x.target.fitness > agent_y.target.fitness else agent_y.copy()
 
     ### Survivor Selection
     @staticmethod
-- 
2.43.0


From 58aa61aa4baa8c1315fc0111c1d0f38cf65f39dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:11 +0000
Subject: [PATCH 113/126] fix: CRO removes its worst corals on maximisation
 problems too

---
 mealpy/evolutionary_based/CRO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/evolutionary_based/CRO.py b/mealpy/evolutionary_based/CRO.py
index f7e4596..7977b87 100644
--- a/mealpy/evolutionary_based/CRO.py
+++ b/mealpy/evolutionary_based/CRO.py
@@ -142,7 +142,7 @@ class OriginalCRO(Optimizer):
     def sort_occupied_reef__(self):
         def reef_fitness(idx):
             return self.pop[idx].target.fitness
-        return sorted(self.occupied_idx_list, key=reef_fitness)
+        return sorted(self.occupied_idx_list, key=reef_fitness, reverse=self.problem.minmax == "max")
 
     def broadcast_spawning_brooding__(self):
         # Step 1a
-- 
2.43.0


From f93f1f0f6c9cff4f24b289082df33147d3301da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:11 +0000
Subject: [PATCH 114/126] fix: OriginalHCO moves in the problem's direction on
 maximisation problems

---
 mealpy/human_based/HCO.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mealpy/human_based/HCO.py b/mealpy/human_based/HCO.py
index 9adb38e..9d9938c 100644
--- a/mealpy/human_based/HCO.py
+++ b/mealpy/human_based/HCO.py
@@ -133,6 +133,8 @@ class OriginalHCO(Optimizer):
         rr = (fit_mean - fits) ** 2
         ll = RR - rr
         LL = (self.g_best.target.fitness - fit_mean)
+        if self.problem.minmax == "max":
+            LL = -LL
         VV = lamda * (ll / (4 * neu * LL))
         pop_new = []
         for idx in range(0, self.pop_size):
-- 
2.43.0


From a249cb90e5662d62051bb642bc37ed18a0196d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:11 +0000
Subject: [PATCH 115/126] fix: OriginalSRSR measures improvements in the
 problem's direction

---
 mealpy/swarm_based/SRSR.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mealpy/swarm_based/SRSR.py b/mealpy/swarm_based/SRSR.py
index 4aebe28..cc5343b 100644
--- a/mealpy/swarm_based/SRSR.py
+++ b/mealpy/swarm_based/SRSR.py
@@ -124,6 +124,8 @@ class OriginalSRSR(Optimizer):
         for idx in range(0, self.pop_size):
             # --------- Calculate Degree Of Cost Movement Of Robots During Movement --------------
             self.pop[idx].target_move = self.pop[idx].target.fitness - self.pop[idx].target_new.fitness
+            if self.problem.minmax == "max":
+                self.pop[idx].target_move = -self.pop[idx].target_move
             self.pop[idx].solution_new = pop_new[idx].solution.copy()
             self.pop[idx].target_new = pop_new[idx].target.copy()
             # ---------- Progress Assessment: Replacing More Quality Solutions With Previous Ones ------
@@ -162,6 +164,8 @@ class OriginalSRSR(Optimizer):
         for idx in range(0, self.pop_size):
             # --------- Calculate Degree Of Cost Movement Of Robots During Movement --------------
             self.pop[idx].target_move = self.pop[idx].target.fitness - self.pop[idx].target_new.fitness
+            if self.problem.minmax == "max":
+                self.pop[idx].target_move = -self.pop[idx].target_move
             self.pop[idx].solution_new = pop_new[idx].solution.copy()
             self.pop[idx].target_new = pop_new[idx].target.copy()
             # ---------- Progress Assessment: Replacing More Quality Solutions With Previous Ones ------
-- 
2.43.0


From 6c226a0b2754f074886ced920a1025ca08fa531d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:11 +0000
Subject: [PATCH 116/126] fix: OriginalIMODE measures improvements in the
 problem's direction

---
 mealpy/sota_based/IMODE.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mealpy/sota_based/IMODE.py b/mealpy/sota_based/IMODE.py
index 7eac38c..afe2955 100644
--- a/mealpy/sota_based/IMODE.py
+++ b/mealpy/sota_based/IMODE.py
@@ -290,7 +290,8 @@ class OriginalIMODE(Optimizer):
         op1_mask, op2_mask, op3_mask = self._select_operator_indices()
         fits = np.array([agent.target.fitness for agent in self.pop])
         fits_child = np.array([agent.target.fitness for agent in pop_new])
-        relative_improvements = np.maximum(0, (fits - fits_child) / np.abs(fits))
+        gains = fits - fits_child if self.problem.minmax == "min" else fits_child - fits
+        relative_improvements = np.maximum(0, gains / np.abs(fits))
 
         # Update archive with improved solutions
         if np.any(improvement_mask):
-- 
2.43.0


From 04789573fdd82aafac869281997338739bed8fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:11 +0000
Subject: [PATCH 117/126] fix: OriginalOrcaOA gives the best orcas the least
 energy on maximisation problems too

---
 mealpy/swarm_based/ORCA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/ORCA.py b/mealpy/swarm_based/ORCA.py
index 6e5a056..567d273 100644
--- a/mealpy/swarm_based/ORCA.py
+++ b/mealpy/swarm_based/ORCA.py
@@ -74,7 +74,7 @@ class OriginalOrcaOA(Optimizer):
         """
         fit_list = np.array([agent.target.fitness for agent in self.pop])
         # Calculate energy (e_i = F_i - F_s)
-        e = fit_list - self.g_best.target.fitness
+        e = np.abs(fit_list - self.g_best.target.fitness)
         e_min = np.min(e)
         e_max = np.max(e)
 
-- 
2.43.0


From c00fbd62f52b2f71ef019dd3e1f1ece5fcfca504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:11 +0000
Subject: [PATCH 118/126] fix: CG_GWO widens its mutation for worse leaders on
 maximisation problems too

---
 mealpy/swarm_based/GWO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/GWO.py b/mealpy/swarm_based/GWO.py
index 8f94d89..6f93ced 100644
--- a/mealpy/swarm_based/GWO.py
+++ b/mealpy/swarm_based/GWO.py
@@ -1322,7 +1322,7 @@ class CG_GWO(Optimizer):
 
         # Calculate sigma (equation 9)
         if abs(best.target.fitness) > 1e-10:
-            sigma = np.exp((leader.target.fitness - best.target.fitness) / abs(best.target.fitness))
+            sigma = np.exp(abs(leader.target.fitness - best.target.fitness) / abs(best.target.fitness))
         else:
             sigma = 1.0
         # Generate Cauchy and Gaussian random variables
-- 
2.43.0


From f1b1b8b7b78463dce9190d026acbbd0450acbf5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:49 +0000
Subject: [PATCH 119/126] fix: OriginalAAA gives the greater colonies the
 energy on maximisation problems too

The size matrix already grows with the quality of a colony, whatever the direction;
energy and friction reversed it once more.
---
 mealpy/bio_based/AAA.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/bio_based/AAA.py b/mealpy/bio_based/AAA.py
index 401bf2f..170ab1c 100644
--- a/mealpy/bio_based/AAA.py
+++ b/mealpy/bio_based/AAA.py
@@ -149,8 +149,8 @@ class OriginalAAA(Optimizer):
         Args:
             epoch: The current iteration
         """
-        energy = self.calculate_energy(self.alg_size_matrix, self.problem.minmax)
-        alg_friction = self.calculate_friction(self.alg_size_matrix, self.problem.minmax)
+        energy = self.calculate_energy(self.alg_size_matrix)
+        alg_friction = self.calculate_friction(self.alg_size_matrix)
         # 1. Helical Movement Phase
         for idx in range(self.pop_size):
             pos_new = self.pop[idx].solution.copy()
-- 
2.43.0


From 4f22dab8368147194e3ac13e7377899c124646c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:55 +0000
Subject: [PATCH 120/126] fix: CHIO follows the best immune case on
 maximisation problems too

---
 mealpy/human_based/CHIO.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mealpy/human_based/CHIO.py b/mealpy/human_based/CHIO.py
index fd42dfc..cc65b1e 100644
--- a/mealpy/human_based/CHIO.py
+++ b/mealpy/human_based/CHIO.py
@@ -104,8 +104,8 @@ class OriginalCHIO(Optimizer):
                     idx_candidates = np.where(self.immunity_type_list == 2)  # Immunity list
                     if idx_candidates[0].size == 0:
                         continue
-                    fit_list = np.array([self.pop[item].target.fitness for item in idx_candidates[0]])
-                    idx_selected = idx_candidates[0][np.argmin(fit_list)]  # Found the index of best fitness
+                    _, idx_best = self.get_best_agent([self.pop[item] for item in idx_candidates[0]], self.problem.minmax)
+                    idx_selected = idx_candidates[0][idx_best]  # Found the index of best fitness
                     pos_new[j] = self.pop[i].solution[j] + self.generator.uniform() * (self.pop[i].solution[j] - self.pop[idx_selected].solution[j])
             if self.finished:
                 break
@@ -221,8 +221,8 @@ class DevCHIO(OriginalCHIO):
                     idx_candidates = np.where(self.immunity_type_list == 2)  # Immunity list
                     if idx_candidates[0].size == 0:
                         continue
-                    fit_list = np.array([self.pop[item].target.fitness for item in idx_candidates[0]])
-                    idx_selected = idx_candidates[0][np.argmin(fit_list)]  # Found the index of best fitness
+                    _, idx_best = self.get_best_agent([self.pop[item] for item in idx_candidates[0]], self.problem.minmax)
+                    idx_selected = idx_candidates[0][idx_best]  # Found the index of best fitness
                     pos_new[j] = self.pop[i].solution[j] + self.generator.uniform() * (self.pop[i].solution[j] - self.pop[idx_selected].solution[j])
             if self.finished:
                 break
-- 
2.43.0


From 4509fe1c7b228e4a09f57a6b5f1f474e14a339e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:55 +0000
Subject: [PATCH 121/126] fix: DevSARO compares its clues in the problem's
 direction

---
 mealpy/human_based/SARO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/human_based/SARO.py b/mealpy/human_based/SARO.py
index 658f82c..0cb8d9f 100644
--- a/mealpy/human_based/SARO.py
+++ b/mealpy/human_based/SARO.py
@@ -99,7 +99,7 @@ class DevSARO(Optimizer):
             #### Remove third loop here, also using random flight back when out of bound
             pos_new_1 = self.pop[k].solution + self.generator.uniform() * sd
             pos_new_2 = pop_x[idx].solution + self.generator.uniform() * sd
-            condition = np.logical_and(self.generator.uniform(0, 1, self.problem.n_dims) < self.se, self.pop[k].target.fitness < pop_x[idx].target.fitness)
+            condition = np.logical_and(self.generator.uniform(0, 1, self.problem.n_dims) < self.se, self.compare_target(self.pop[k].target, pop_x[idx].target, self.problem.minmax))
             pos_new = np.where(condition, pos_new_1, pos_new_2)
             pos_new = self.correct_solution(pos_new)
             agent = self.generate_empty_agent(pos_new)
-- 
2.43.0


From 31952e20c4763392ade63e4fcbc3fa5964ffee79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:48 +0000
Subject: [PATCH 122/126] fix: starting solutions may be lists or tuples of
 numbers, as documented

---
 mealpy/optimizer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mealpy/optimizer.py b/mealpy/optimizer.py
index d3d63be..93017af 100644
--- a/mealpy/optimizer.py
+++ b/mealpy/optimizer.py
@@ -133,6 +133,7 @@ class Optimizer:
             pass
         elif type(starting_solutions) in self.SUPPORTED_ARRAYS and len(starting_solutions) == self.pop_size:
             if type(starting_solutions[0]) in self.SUPPORTED_ARRAYS and len(starting_solutions[0]) == self.problem.n_dims:
+                starting_solutions = [np.array(solution, dtype=float) for solution in starting_solutions]
                 if self.mode in self.AVAILABLE_MODES:
                     self.pop = [self.generate_empty_agent(solution) for solution in starting_solutions]
                     self.pop = self.update_target_for_population(self.pop)
-- 
2.43.0


From 0c14f9b9207698969ae36b8f6ac113a70087b23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:48 +0000
Subject: [PATCH 123/126] fix: every starting solution has to have the
 problem's number of dimensions, not only the first

---
 mealpy/optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/optimizer.py b/mealpy/optimizer.py
index 93017af..6377995 100644
--- a/mealpy/optimizer.py
+++ b/mealpy/optimizer.py
@@ -132,7 +132,7 @@ class Optimizer:
         if starting_solutions is None:
             pass
         elif type(starting_solutions) in self.SUPPORTED_ARRAYS and len(starting_solutions) == self.pop_size:
-            if type(starting_solutions[0]) in self.SUPPORTED_ARRAYS and len(starting_solutions[0]) == self.problem.n_dims:
+            if all(type(solution) in self.SUPPORTED_ARRAYS and len(solution) == self.problem.n_dims for solution in starting_solutions):
                 starting_solutions = [np.array(solution, dtype=float) for solution in starting_solutions]
                 if self.mode in self.AVAILABLE_MODES:
                     self.pop = [self.generate_empty_agent(solution) for solution in starting_solutions]
-- 
2.43.0


From f0221c5bc76449e408e72c80c436c6aef8874480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:48 +0000
Subject: [PATCH 124/126] fix: exploration and exploitation are percentages
 also when all agents coincide

---
 mealpy/optimizer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mealpy/optimizer.py b/mealpy/optimizer.py
index 6377995..cdd22e0 100644
--- a/mealpy/optimizer.py
+++ b/mealpy/optimizer.py
@@ -307,6 +307,8 @@ class Optimizer:
         """
         self.history.epoch = len(self.history.list_diversity)
         div_max = np.max(self.history.list_diversity)
+        if div_max == 0:    # agents that never differed explored nothing
+            div_max = 1.
         self.history.list_exploration = 100 * (np.array(self.history.list_diversity) / div_max)
         self.history.list_exploitation = 100 - self.history.list_exploration
         self.history.list_global_best = self.history.list_global_best[1:]
-- 
2.43.0


From 0dda370d42a9fda7a3c162987ca1a3231d7d7498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:56 +0000
Subject: [PATCH 125/126] fix: starting solutions make complete agents in swarm
 and parallel modes too

---
 mealpy/optimizer.py | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/mealpy/optimizer.py b/mealpy/optimizer.py
index cdd22e0..f3188f1 100644
--- a/mealpy/optimizer.py
+++ b/mealpy/optimizer.py
@@ -134,9 +134,8 @@ class Optimizer:
         elif type(starting_solutions) in self.SUPPORTED_ARRAYS and len(starting_solutions) == self.pop_size:
             if all(type(solution) in self.SUPPORTED_ARRAYS and len(solution) == self.problem.n_dims for solution in starting_solutions):
                 starting_solutions = [np.array(solution, dtype=float) for solution in starting_solutions]
-                if self.mode in self.AVAILABLE_MODES:
-                    self.pop = [self.generate_empty_agent(solution) for solution in starting_solutions]
-                    self.pop = self.update_target_for_population(self.pop)
+                if self.mode in self.PARALLEL_MODES:
+                    self.pop = self.complete_population__([self.generate_empty_agent(solution) for solution in starting_solutions])
                 else:
                     self.pop = [self.generate_agent(solution) for solution in starting_solutions]
             else:
@@ -352,6 +351,22 @@ class Optimizer:
         worker.generate_empty_agent = lambda solution=None: agent
         return worker.generate_agent(agent.solution), worker.nfe_counter - self.nfe_counter
 
+    def complete_population__(self, agents: List[Agent]) -> List[Agent]:
+        """
+        Complete the agents in the workers of the current parallel mode, in the order they are given
+
+        Args:
+            agents (list): The agents generated by generate_empty_agent()
+
+        Returns:
+            list: agents with full information
+        """
+        pool = parallel.ThreadPoolExecutor if self.mode == "thread" else parallel.ProcessPoolExecutor
+        with pool(self.n_workers) as executor:
+            results = list(executor.map(self.complete_agent__, agents))
+        self.nfe_counter += sum(n_evals for _, n_evals in results)
+        return [agent for agent, _ in results]
+
     def generate_population(self, pop_size: int = None) -> List[Agent]:
         """
         Args:
@@ -364,12 +379,7 @@ class Optimizer:
             pop_size = self.pop_size
         if self.mode in self.PARALLEL_MODES:
             # Agents are drawn here, so that they do not depend on the workers; executor.map keeps their order
-            agents = [self.generate_empty_agent() for _ in range(0, pop_size)]
-            pool = parallel.ThreadPoolExecutor if self.mode == "thread" else parallel.ProcessPoolExecutor
-            with pool(self.n_workers) as executor:
-                results = list(executor.map(self.complete_agent__, agents))
-            pop = [agent for agent, _ in results]
-            self.nfe_counter += sum(n_evals for _, n_evals in results)
+            pop = self.complete_population__([self.generate_empty_agent() for _ in range(0, pop_size)])
         else:
             pop = [self.generate_agent() for _ in range(0, pop_size)]
         return pop
-- 
2.43.0


From 246522ab835b6c670e79d635e111ecdeb921b588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:55:03 +0000
Subject: [PATCH 126/126] fix: WCA assigns streams also when the rivers'
 fitness sums to zero

---
 mealpy/system_based/WCA.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mealpy/system_based/WCA.py b/mealpy/system_based/WCA.py
index 821f5aa..cdebaab 100644
--- a/mealpy/system_based/WCA.py
+++ b/mealpy/system_based/WCA.py
@@ -96,7 +96,9 @@ class OriginalWCA(Optimizer):
 
         # Designate streams to rivers and sea
         cost_river_list = np.array([agent.target.fitness for agent in self.pop_best])
-        num_child_in_river_list = np.round(np.abs(cost_river_list / np.sum(cost_river_list)) * n_stream).astype(int)
+        total_cost = np.sum(cost_river_list)
+        rates = np.abs(cost_river_list / total_cost) if total_cost != 0 else np.full(self.nsr, 1. / self.nsr)
+        num_child_in_river_list = np.round(np.minimum(rates, 1.) * n_stream).astype(int)
         if np.sum(num_child_in_river_list) < n_stream:
             num_child_in_river_list[-1] += n_stream - np.sum(num_child_in_river_list)
         streams = {}
-- 
2.43.0

