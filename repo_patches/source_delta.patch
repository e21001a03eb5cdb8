From 48efe9e23baa5da3298c9ca5b570428f9e59e40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:03 +0000
Subject: [PATCH 001/142] fix: keep the history of states when stepping a
 domain with unbounded or length-1 memory

---
 skdecide/builders/domain/dynamics.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/skdecide/builders/domain/dynamics.py b/skdecide/builders/domain/dynamics.py
index f85a2d2..b7f3515 100644
--- a/skdecide/builders/domain/dynamics.py
+++ b/skdecide/builders/domain/dynamics.py
@@ -7,7 +7,7 @@ from __future__ import annotations
 import functools
 from typing import Optional
 
-from skdecide.core import D, Distribution, DiscreteDistribution, SingleValueDistribution, TransitionValue, \
+from skdecide.core import D, Memory, Distribution, DiscreteDistribution, SingleValueDistribution, TransitionValue, \
     EnvironmentOutcome, TransitionOutcome, autocastable
 
 __all__ = ['Environment', 'Simulation', 'UncertainTransitions', 'EnumerableTransitions', 'DeterministicTransitions']
@@ -75,10 +75,10 @@ class Environment:
         transition_outcome = self._state_step(action)
         next_state = transition_outcome.state
         observation = self._get_observation_distribution(next_state, action).sample()
-        if self._get_memory_maxlen() == 1:
-            self._memory = next_state
-        elif self._get_memory_maxlen() > 1:
+        if self.T_memory == Memory:
             self._memory.append(next_state)
+        elif self._get_memory_maxlen() == 1:
+            self._memory = next_state
         return EnvironmentOutcome(observation, transition_outcome.value, transition_outcome.termination,
                                   transition_outcome.info)
 
-- 
2.43.0


From bd66b22531f7245c12d44f3fad6c5d1dc607fdae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:43 +0000
Subject: [PATCH 002/142] fix: nothing belongs to the empty space

---
 skdecide/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/skdecide/core.py b/skdecide/core.py
index 6ed60c0..853df42 100644
--- a/skdecide/core.py
+++ b/skdecide/core.py
@@ -105,6 +105,9 @@ class EnumerableSpace(Space[T]):
 class EmptySpace(Space[T]):
     """A space which elements can be enumerated."""
 
+    def contains(self, x: T) -> bool:
+        return False
+
     def get_elements(self) -> Iterable[T]:
         return ()
 
-- 
2.43.0


From 476960df5e04c2120ced62fd8332f12d426b5c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:50 +0000
Subject: [PATCH 003/142] fix: data space contains the records whose fields
 belong to the field spaces

---
 skdecide/hub/space/gym/gym.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/skdecide/hub/space/gym/gym.py b/skdecide/hub/space/gym/gym.py
index 5c30994..aa250cd 100644
--- a/skdecide/hub/space/gym/gym.py
+++ b/skdecide/hub/space/gym/gym.py
@@ -255,9 +255,9 @@ class DataSpace(GymSpace[T]):
 
     def contains(self, x: T) -> bool:
         # works even when fields of the dataclass have been recast (e.g. numpy 0-dimensional array to scalar)
-        return super().contains(super().from_jsonable(self.to_jsonable([x]))[0])
-        # # bug: does not work when fields of the dataclass have been recast (e.g. numpy 0-dimensional array to scalar)
-        # return super().contains(asdict(x))
+        # (whereas the plain test accepts arrays whose dtype would be lost in the jsonable form, e.g. float32 boxes)
+        return (super().contains(asdict(x))
+                or super().contains(super().from_jsonable(self.to_jsonable([x]))[0]))
 
     def sample(self) -> T:
         # TODO: convert to simple types (get rid of ndarray created by gym dict space...)?
-- 
2.43.0


From 52292edfaeccdb6fdfadd58cbc708fc0819ee2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:50 +0000
Subject: [PATCH 004/142] fix: rollout_episode resets the domain and keeps its
 memory when no starting memory is given

---
 skdecide/utils.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/skdecide/utils.py b/skdecide/utils.py
index f5f3e74..a9c3881 100644
--- a/skdecide/utils.py
+++ b/skdecide/utils.py
@@ -17,7 +17,7 @@ from typing import Any, Union, Optional, Type, Iterable, Tuple, List, Dict, Call
 from pkg_resources import iter_entry_points, EntryPoint, DistributionNotFound
 
 from skdecide import Domain, Solver, D, Space, EnvironmentOutcome, autocast_all, autocastable
-from skdecide.builders.domain import Goals, Markovian, Renderable, FullyObservable
+from skdecide.builders.domain import Goals, Markovian, Renderable, FullyObservable, Simulation
 from skdecide.builders.solver import Policies
 
 __all__ = ['get_registered_domains', 'get_registered_solvers', 'load_registered_domain', 'load_registered_solver',
@@ -302,12 +302,13 @@ def rollout_episode(domain: Domain, solver: Optional[Union[Solver, Policies]] =
     has_render = isinstance(domain, Renderable)
     has_goal = isinstance(domain, Goals)
     has_memory = not isinstance(domain, Markovian)
+    # the last observation can stand for the memory of the domain only when it is the whole of it
+    can_restore_state = isinstance(domain, Simulation) and isinstance(domain, FullyObservable) and not has_memory
     for i_episode in range(num_episodes):
         # Initialize episode
         solver.reset()
         if from_memory is None:
-            #observation = domain.reset()
-            pass
+            observation = domain.reset()
         else:
             domain.set_memory(from_memory)
             last_state = from_memory[-1] if has_memory else from_memory
@@ -331,7 +332,8 @@ def rollout_episode(domain: Domain, solver: Optional[Union[Solver, Policies]] =
             action = solver.sample_action(observation)
             if action_formatter is not None:
                 logger.debug('Action: {}'.format(action_formatter(action)))
-            domain.set_memory(observations[-1])
+            if can_restore_state:
+                domain.set_memory(observations[-1])
             outcome = domain.step(action)
             observation = outcome.observation
             observations.append(observation)
-- 
2.43.0


From 799ddb65629fa98c9fad436b0fed0edaf1a011e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:52 +0000
Subject: [PATCH 005/142] fix: every rollout episode starts from the given
 memory, which is left unchanged

---
 skdecide/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skdecide/utils.py b/skdecide/utils.py
index a9c3881..e3a267c 100644
--- a/skdecide/utils.py
+++ b/skdecide/utils.py
@@ -156,7 +156,7 @@ def rollout(domain: Domain, solver: Optional[Solver] = None, from_memory: Option
         if from_memory is None:
             observation = domain.reset()
         else:
-            domain.set_memory(from_memory)
+            domain.set_memory(copy.copy(from_memory) if has_memory else from_memory)
             last_state = from_memory[-1] if has_memory else from_memory
             observation = domain.get_observation_distribution(last_state, from_action).sample()
         logger.debug(f'Episode {i_episode + 1} started with following observation:')
@@ -310,7 +310,7 @@ def rollout_episode(domain: Domain, solver: Optional[Union[Solver, Policies]] =
         if from_memory is None:
             observation = domain.reset()
         else:
-            domain.set_memory(from_memory)
+            domain.set_memory(copy.copy(from_memory) if has_memory else from_memory)
             last_state = from_memory[-1] if has_memory else from_memory
             observation = domain.get_observation_distribution(last_state, from_action).sample()
         if verbose:
-- 
2.43.0


From 2dba7a001b3e8966e71c0410d4bb42286cf441f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:13 +0000
Subject: [PATCH 006/142] fix: LazyAstar returns the empty plan when it starts
 in a goal state

---
 skdecide/hub/solver/lazy_astar/lazy_astar.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skdecide/hub/solver/lazy_astar/lazy_astar.py b/skdecide/hub/solver/lazy_astar/lazy_astar.py
index f090105..1aeb908 100644
--- a/skdecide/hub/solver/lazy_astar/lazy_astar.py
+++ b/skdecide/hub/solver/lazy_astar/lazy_astar.py
@@ -85,8 +85,9 @@ class LazyAstar(Solver, DeterministicPolicies, Utilities):
             if self._verbose:
                 print(curnode, f'- cumulated cost: {dist} - estimated total cost: {estim_total}')
             if self._domain.is_goal(curnode):
-                path = [(parent, label),
-                        (curnode, None)]
+                path = [(curnode, None)]
+                if parent is not None:  # otherwise the source is already a goal
+                    path.insert(0, (parent, label))
                 node = parent
                 while node is not None:
                     (parent, label) = explored[node]
-- 
2.43.0


From ce97da8b2b11206042f62068326264a91c22cf14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:13 +0000
Subject: [PATCH 007/142] fix: LazyAstar forgets the values and plan of its
 previous resolution

---
 skdecide/hub/solver/lazy_astar/lazy_astar.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skdecide/hub/solver/lazy_astar/lazy_astar.py b/skdecide/hub/solver/lazy_astar/lazy_astar.py
index 1aeb908..f573d9a 100644
--- a/skdecide/hub/solver/lazy_astar/lazy_astar.py
+++ b/skdecide/hub/solver/lazy_astar/lazy_astar.py
@@ -116,6 +116,8 @@ class LazyAstar(Solver, DeterministicPolicies, Utilities):
                 enqueued[neighbor] = ncost, h
                 push(queue, (ncost + (self._weight * h), next(c), neighbor, ncost, curnode, lbl))
         self._policy = {}
+        self._values = {}
+        self._plan = []
         for node, label in path:
             self._policy[node] = label['action'] if label is not None else None
             self._values[node] = estim_total - enqueued[node][0]
-- 
2.43.0


From 2c0de2c77876e7f51e93f172d63b8ed547191664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:13 +0000
Subject: [PATCH 008/142] fix: LRTAstar knows the states its policy is defined
 for

---
 skdecide/hub/solver/lrtastar/lrtastar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/hub/solver/lrtastar/lrtastar.py b/skdecide/hub/solver/lrtastar/lrtastar.py
index 21d909f..c080d9a 100644
--- a/skdecide/hub/solver/lrtastar/lrtastar.py
+++ b/skdecide/hub/solver/lrtastar/lrtastar.py
@@ -26,7 +26,7 @@ class LRTAstar(Solver, DeterministicPolicies, Utilities):
         return self._policy.get(observation, None)
 
     def _is_policy_defined_for(self, observation: D.T_agent[D.T_observation]) -> bool:
-        return observation is self._policy
+        return observation in self._policy
 
     def _get_utility(self, observation: D.T_agent[D.T_observation]) -> D.T_value:
         if observation not in self.values:
-- 
2.43.0


From 333908e10af0786064798fe6c1e832def3fceb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:14 +0000
Subject: [PATCH 009/142] fix: LRTAstar accepts to start in a goal state

---
 skdecide/hub/solver/lrtastar/lrtastar.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skdecide/hub/solver/lrtastar/lrtastar.py b/skdecide/hub/solver/lrtastar/lrtastar.py
index c080d9a..17645c5 100644
--- a/skdecide/hub/solver/lrtastar/lrtastar.py
+++ b/skdecide/hub/solver/lrtastar/lrtastar.py
@@ -127,5 +127,7 @@ class LRTAstar(Solver, DeterministicPolicies, Utilities):
             current_roll.append(current_state)
         current_roll_and_action.append((current_state,
                                         {"action": None}))
+        if current_state not in self.values:  # the trial starts in a goal state
+            self.values[current_state] = self._heuristic(self._domain, current_state)
         cumulated_reward += self.values[current_state]
         return dead_end, cumulated_reward, current_roll_and_action, list_action
-- 
2.43.0


From 6ce82059e269a7bb064a8c0476f90a56171f4d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:14 +0000
Subject: [PATCH 010/142] fix: LRTAstar forgets the policy of its previous
 resolution

---
 skdecide/hub/solver/lrtastar/lrtastar.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skdecide/hub/solver/lrtastar/lrtastar.py b/skdecide/hub/solver/lrtastar/lrtastar.py
index 17645c5..f474e94 100644
--- a/skdecide/hub/solver/lrtastar/lrtastar.py
+++ b/skdecide/hub/solver/lrtastar/lrtastar.py
@@ -56,6 +56,7 @@ class LRTAstar(Solver, DeterministicPolicies, Utilities):
     def _solve_domain(self, domain_factory: Callable[[], D]) -> None:
         self._domain = domain_factory()
         self.values = {}
+        self._policy = {}
         iteration = 0
         best_cost = float('inf')
         if self._from_state is None:
-- 
2.43.0


From c28cec2fd2c2f55f3cdaec15bb0c6607f6e5376d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:21 +0000
Subject: [PATCH 011/142] fix: SimpleGreedy handles values independent of the
 next state

---
 skdecide/hub/solver/simple_greedy/simple_greedy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/hub/solver/simple_greedy/simple_greedy.py b/skdecide/hub/solver/simple_greedy/simple_greedy.py
index e92e5dd..5085dcb 100644
--- a/skdecide/hub/solver/simple_greedy/simple_greedy.py
+++ b/skdecide/hub/solver/simple_greedy/simple_greedy.py
@@ -36,7 +36,7 @@ class SimpleGreedy(DeterministicPolicySolver):
                 expected_value = sum(p * domain.get_transition_value(memory, [a], s).reward for s, p in next_state_prob)
                 values.append(expected_value)
         else:
-            values = [domain.get_transition_value(memory, a).reward for a in applicable_actions]
+            values = [domain.get_transition_value(memory, [a]).reward for a in applicable_actions.get_elements()]
         argmax = max(range(len(values)), key=lambda i: values[i])
         return [applicable_actions.get_elements()[argmax]]  # list of action here because we handle Parallel domains
 
-- 
2.43.0


From e97476baa1cb0bfe628d16732c5e2f6710fea9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:43 +0000
Subject: [PATCH 012/142] fix: policy evaluation accepts successors of
 probability zero

---
 skdecide/hub/solver/policy_evaluators/policy_evaluator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skdecide/hub/solver/policy_evaluators/policy_evaluator.py b/skdecide/hub/solver/policy_evaluators/policy_evaluator.py
index 700b876..3e9e8de 100644
--- a/skdecide/hub/solver/policy_evaluators/policy_evaluator.py
+++ b/skdecide/hub/solver/policy_evaluators/policy_evaluator.py
@@ -31,7 +31,7 @@ def construct_dict_policy(domain: GoalMDPDomain, policy: DeterministicPolicies)-
     # Sanity check that successors and predecessors are equal
     for state, successor_pairs in succs.items():
         for succ, prob in successor_pairs:
-            assert (state in preds[succ])
+            assert (prob == 0 or state in preds[succ])
     return policy_dict, preds, succs
 
 
@@ -55,6 +55,8 @@ def expected_costs_for_policy(domain,
         a = policy_dict[s]
         main_cost = 0
         for succ, prob in succs[s]:
+            if prob == 0:
+                continue
             # evaluate objective function on transition
             val = domain.get_transition_value(s, a, succ)
             main_cost += prob * (val.cost + opt_val[succ])
-- 
2.43.0


From 9c8c028eb57c80e1725708b2bf93ac83333d9581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:43 +0000
Subject: [PATCH 013/142] fix: MasterMind observation space contains the
 winning score

---
 skdecide/hub/domain/mastermind/mastermind.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/hub/domain/mastermind/mastermind.py b/skdecide/hub/domain/mastermind/mastermind.py
index 6f36ade..89573e6 100644
--- a/skdecide/hub/domain/mastermind/mastermind.py
+++ b/skdecide/hub/domain/mastermind/mastermind.py
@@ -81,7 +81,7 @@ class MasterMind(D):
         return self._calc_score(state, action)
 
     def _get_observation_space_(self) -> D.T_agent[Space[D.T_observation]]:
-        return MultiDiscreteSpace([self._n_positions, self._n_positions])
+        return MultiDiscreteSpace([self._n_positions + 1, self._n_positions + 1])
 
     def _list_hidden_solutions(self):
         """Return a list of all possible hidden solutions (n_colours ** n_positions)."""
-- 
2.43.0


From 5a21a4055b1145ddc6a3735fb2d215a091e728c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:40 +0000
Subject: [PATCH 014/142] fix: POMCP simulations observe the state reached by
 each action

---
 skdecide/hub/solver/pomcp/pomcp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skdecide/hub/solver/pomcp/pomcp.py b/skdecide/hub/solver/pomcp/pomcp.py
index 0ef4564..9223300 100644
--- a/skdecide/hub/solver/pomcp/pomcp.py
+++ b/skdecide/hub/solver/pomcp/pomcp.py
@@ -151,7 +151,7 @@ class POMCP(Solver, DeterministicPolicies):
             # simulate outcome of this action:
             new_state = self._domain.get_next_state_distribution(Memory([state]), action).sample()
             TV = self._domain.get_transition_value(Memory([state]), action, new_state)
-            new_obs = self._domain.get_observation_distribution(state, action).sample()
+            new_obs = self._domain.get_observation_distribution(new_state, action).sample()
             if self._domain.is_goal(new_obs):
                 s_cost = TV.cost
             else:
@@ -173,7 +173,7 @@ class POMCP(Solver, DeterministicPolicies):
         assert action is not None
         new_state = self._domain.get_next_state_distribution(Memory([state]), action).sample()
         TV = self._domain.get_transition_value(Memory([state]), action, new_state)
-        new_obs = self._domain.get_observation_distribution(state, action).sample()
+        new_obs = self._domain.get_observation_distribution(new_state, action).sample()
         if self._domain.is_goal(new_obs):
             s_cost = TV.cost
         else:
-- 
2.43.0


From 2e187ad6b37127ec1afda31ccaeb81b8334fd29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:51 +0000
Subject: [PATCH 015/142] fix: POMCP belief is filtered by the observation of
 the reached state

---
 skdecide/hub/solver/pomcp/pomcp.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/skdecide/hub/solver/pomcp/pomcp.py b/skdecide/hub/solver/pomcp/pomcp.py
index 9223300..810b0da 100644
--- a/skdecide/hub/solver/pomcp/pomcp.py
+++ b/skdecide/hub/solver/pomcp/pomcp.py
@@ -53,18 +53,19 @@ class POMCP(Solver, DeterministicPolicies):
         # Get the next action from the solver's current policy:
         # this corresponds to the top-level Search procedure in the POMCP paper
 
-        # Since we have now received a new observation, update our
-        # belief state with this information; note that obs may
+        # Update each state in the belief with the effects of the last
+        # action taken (if any):
+        if self._act_history[-1] is not None:
+            self._belief = self._update_belief_state(self._belief, self._act_history[-1])
+
+        # Since we have now received a new observation of the reached state,
+        # update our belief state with this information; note that obs may
         # depend on the last action taken:
         self._belief = self._filter_belief_state(self._belief, self._act_history[-1], observation)
 
         # Record the added observation:
         self._obs_history = self._obs_history + (observation,)
 
-        # Then, update each state in the filtered belief with the
-        # effects of the last action taken:
-        self._belief = self._update_belief_state(self._belief, self._act_history[-1])
-        
         # Now, we can make a decision from the new belief state:
         iterations = 0
         while iterations < self._max_iterations:  # or some other cut-off
-- 
2.43.0


From 18c05198d08a131d0a2a56aa96116805aa7dd6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:14 +0000
Subject: [PATCH 016/142] fix: rollout-based policy evaluation accepts goal
 MDPs other than scheduling domains

---
 skdecide/hub/solver/policy_evaluators/policy_evaluator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skdecide/hub/solver/policy_evaluators/policy_evaluator.py b/skdecide/hub/solver/policy_evaluators/policy_evaluator.py
index 3e9e8de..145135a 100644
--- a/skdecide/hub/solver/policy_evaluators/policy_evaluator.py
+++ b/skdecide/hub/solver/policy_evaluators/policy_evaluator.py
@@ -78,7 +78,10 @@ def my_custom_rollout(domain: GoalMDPDomain, state, policy: DeterministicPolicie
     actions = []
     while True:
         action = policy.get_next_action(states[-1])
-        next_state = SchedulingDomain._state_sample(domain, states[-1], action).state
+        if isinstance(domain, SchedulingDomain):
+            next_state = SchedulingDomain._state_sample(domain, states[-1], action).state
+        else:
+            next_state = domain._state_sample(states[-1], action).state
         value = domain.get_transition_value(states[-1], action, next_state)
         values += [value.cost]
         summed_value += value.cost
-- 
2.43.0


From b37f7bce46088491815953f9183e0ce5c0e51a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:52 +0000
Subject: [PATCH 017/142] fix: action space of graph domains answers membership

---
 skdecide/hub/solver/graph_explorer/GraphDomain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/hub/solver/graph_explorer/GraphDomain.py b/skdecide/hub/solver/graph_explorer/GraphDomain.py
index c8e2be1..c7295ab 100644
--- a/skdecide/hub/solver/graph_explorer/GraphDomain.py
+++ b/skdecide/hub/solver/graph_explorer/GraphDomain.py
@@ -14,7 +14,7 @@ class ActionSpace(EnumerableSpace, SamplableSpace):
         return random.choice(self.l)
 
     def contains(self, x: T) -> bool:
-        pass
+        return x in self.l
 
     def __init__(self, l: List[object]):
         self.l = l
-- 
2.43.0


From 171560f275dc44ca28fd6013ab60e22e8960fc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:52 +0000
Subject: [PATCH 018/142] fix: graph domains and explorers use the state as
 Markovian memory

---
 skdecide/hub/solver/graph_explorer/DFSExploration.py       | 2 +-
 skdecide/hub/solver/graph_explorer/FullSpaceExploration.py | 4 ++--
 skdecide/hub/solver/graph_explorer/GraphDomain.py          | 6 +++---
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/skdecide/hub/solver/graph_explorer/DFSExploration.py b/skdecide/hub/solver/graph_explorer/DFSExploration.py
index cb7077b..018bbb4 100644
--- a/skdecide/hub/solver/graph_explorer/DFSExploration.py
+++ b/skdecide/hub/solver/graph_explorer/DFSExploration.py
@@ -38,7 +38,7 @@ class DFSExploration(GraphExploration):
             (vertex, path) = stack.pop()
             actions = self.domain.get_applicable_actions(vertex).get_elements()
             for action in actions:
-                next = self.domain.get_next_state(Memory([vertex]), action)
+                next = self.domain.get_next_state(vertex, action)
                 if action not in next_state_map[vertex]:
                     nb_edges += 1
                 else:
diff --git a/skdecide/hub/solver/graph_explorer/FullSpaceExploration.py b/skdecide/hub/solver/graph_explorer/FullSpaceExploration.py
index 467fe70..4f23923 100644
--- a/skdecide/hub/solver/graph_explorer/FullSpaceExploration.py
+++ b/skdecide/hub/solver/graph_explorer/FullSpaceExploration.py
@@ -40,10 +40,10 @@ class FullSpaceExploration(GraphExploration):
                 if action not in next_state_map[vertex]:
                     nb_edges += 1
                 next_state_map[vertex][action] = next
-                next_state_attributes[vertex][action] = {"cost": self.domain.get_transition_value(Memory([vertex]),
+                next_state_attributes[vertex][action] = {"cost": self.domain.get_transition_value(vertex,
                                                                                                   action,
                                                                                                   next).cost,
-                                                         "reward": self.domain.get_transition_value(Memory([vertex]),
+                                                         "reward": self.domain.get_transition_value(vertex,
                                                                                                     action,
                                                                                                     next).reward}
                 if self.domain.is_goal(next):
diff --git a/skdecide/hub/solver/graph_explorer/GraphDomain.py b/skdecide/hub/solver/graph_explorer/GraphDomain.py
index c7295ab..120b759 100644
--- a/skdecide/hub/solver/graph_explorer/GraphDomain.py
+++ b/skdecide/hub/solver/graph_explorer/GraphDomain.py
@@ -133,13 +133,13 @@ class GraphDomain(Domain,
         self.attribute_weight = attribute_weight
 
     def _get_next_state(self, memory: D.T_memory[D.T_state], event: D.T_event) -> D.T_state:
-        return self.next_state_map[memory[-1]][event]
+        return self.next_state_map[memory][event]
 
     def _get_transition_value(self, memory: D.T_memory[D.T_state],
                               event: D.T_event,
                               next_state: Optional[D.T_state] = None) \
             -> TransitionValue[D.T_value]:
-        return TransitionValue(cost=self.next_state_attributes[memory[-1]][event][self.attribute_weight])
+        return TransitionValue(cost=self.next_state_attributes[memory][event][self.attribute_weight])
 
     def is_terminal(self, state: D.T_state) -> bool:
         return state in self.targets
@@ -148,7 +148,7 @@ class GraphDomain(Domain,
         return ImplicitSpace(lambda x: True)
 
     def _get_applicable_actions_from(self, memory: D.T_memory[D.T_state])-> Space[D.T_event]:
-        return ActionSpace(list(self.next_state_map[memory[-1]].keys()))
+        return ActionSpace(list(self.next_state_map[memory].keys()))
 
     def _get_goals_(self) -> Space[D.T_observation]:
         return ImplicitSpace(lambda x: (x in self.targets))
-- 
2.43.0


From c6783358969a5d0261930b6fd34b4d91fead0120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:52 +0000
Subject: [PATCH 019/142] fix: uncertain graph domain returns the distribution
 of next states

---
 skdecide/hub/solver/graph_explorer/GraphDomain.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skdecide/hub/solver/graph_explorer/GraphDomain.py b/skdecide/hub/solver/graph_explorer/GraphDomain.py
index 120b759..3f1e384 100644
--- a/skdecide/hub/solver/graph_explorer/GraphDomain.py
+++ b/skdecide/hub/solver/graph_explorer/GraphDomain.py
@@ -2,7 +2,8 @@ from __future__ import annotations
 import matplotlib.pyplot as plt
 from collections import defaultdict
 from typing import Any, Dict, List, Iterable, Optional, Union, Tuple
-from skdecide import Memory, Space, TransitionValue, EnumerableSpace, SamplableSpace, T, ImplicitSpace, Distribution
+from skdecide import Memory, Space, TransitionValue, EnumerableSpace, SamplableSpace, T, ImplicitSpace, Distribution, \
+    DiscreteDistribution
 import random
 from skdecide.builders.domain import DeterministicTransitions, Actions, Goals, Markovian, \
     FullyObservable, PositiveCosts, UncertainTransitions
@@ -93,7 +94,7 @@ class GraphDomainUncertain(Domain,
                                      action: D.T_agent[D.T_concurrency[D.T_event]]) -> Distribution[D.T_state]:
         possible_states = [(s, self.next_state_map[memory][action][s][0])
                            for s in self.next_state_map[memory][action]]
-        return random.choices(possible_states, weights=[p[1] for p in possible_states], k=1)[0]
+        return DiscreteDistribution(possible_states)
 
 
 
-- 
2.43.0


From aaa7f9ce8b8b8345b560a961ee3761f514c3572e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:16 +0000
Subject: [PATCH 020/142] fix: uncertain exploration records the transitions to
 known states

---
 .../solver/graph_explorer/DFS_Uncertain_Exploration.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/skdecide/hub/solver/graph_explorer/DFS_Uncertain_Exploration.py b/skdecide/hub/solver/graph_explorer/DFS_Uncertain_Exploration.py
index 8269fed..ebb3ade 100644
--- a/skdecide/hub/solver/graph_explorer/DFS_Uncertain_Exploration.py
+++ b/skdecide/hub/solver/graph_explorer/DFS_Uncertain_Exploration.py
@@ -65,14 +65,16 @@ class DFSExploration(GraphExploration):
                         next_state_map[s] = {}
                     if action not in next_state_map[s]:
                         next_state_map[s][action] = {}
-                    if prob != 0 and succ not in result:
+                    if prob == 0:
+                        continue
+                    nb_edges += 1
+                    cost = domain.get_transition_value(s, action, succ)
+                    next_state_map[s][action][succ] = (prob, cost.cost)
+                    if succ not in result:
                         nb_states += 1
-                        nb_edges += 1
                         result.add(succ)
                         heappush(stack, (self.score_function(succ),
                                          succ))
-                        cost = domain.get_transition_value(s, action, succ)
-                        next_state_map[s][action][succ] = (prob, cost.cost)
                         state_goal[succ] = domain.is_goal(succ)
                         state_terminal[succ] = domain.is_terminal(succ)
             if (nb_states > self.max_nodes) \
-- 
2.43.0


From 5ab8e1edc6dbc8125a95161f3a90571814bf5f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:16 +0000
Subject: [PATCH 021/142] fix: graph explorations without limits explore
 everything

---
 skdecide/hub/solver/graph_explorer/DFSExploration.py        | 6 +++---
 .../hub/solver/graph_explorer/DFS_Uncertain_Exploration.py  | 6 +++---
 skdecide/hub/solver/graph_explorer/FullSpaceExploration.py  | 6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/skdecide/hub/solver/graph_explorer/DFSExploration.py b/skdecide/hub/solver/graph_explorer/DFSExploration.py
index 018bbb4..655d083 100644
--- a/skdecide/hub/solver/graph_explorer/DFSExploration.py
+++ b/skdecide/hub/solver/graph_explorer/DFSExploration.py
@@ -12,9 +12,9 @@ class DFSExploration(GraphExploration):
                  max_nodes=None,
                  max_path=None):
         self.domain = domain
-        self.max_edges = max_edges
-        self.max_nodes = max_nodes
-        self.max_path = max_path
+        self.max_edges = float('inf') if max_edges is None else max_edges
+        self.max_nodes = float('inf') if max_nodes is None else max_nodes
+        self.max_path = float('inf') if max_path is None else max_path
 
     def build_graph_domain(self, init_state: Any=None,
                            transition_extractor=None,
diff --git a/skdecide/hub/solver/graph_explorer/DFS_Uncertain_Exploration.py b/skdecide/hub/solver/graph_explorer/DFS_Uncertain_Exploration.py
index ebb3ade..6a214ac 100644
--- a/skdecide/hub/solver/graph_explorer/DFS_Uncertain_Exploration.py
+++ b/skdecide/hub/solver/graph_explorer/DFS_Uncertain_Exploration.py
@@ -19,9 +19,9 @@ class DFSExploration(GraphExploration):
         self.c = count()
         if score_function is None:
             self.score_function = lambda s: (next(self.c))
-        self.max_edges = max_edges
-        self.max_nodes = max_nodes
-        self.max_path = max_path
+        self.max_edges = float('inf') if max_edges is None else max_edges
+        self.max_nodes = float('inf') if max_nodes is None else max_nodes
+        self.max_path = float('inf') if max_path is None else max_path
 
     def build_graph_domain(self, init_state: Any = None) -> GraphDomainUncertain:
         if init_state is None:
diff --git a/skdecide/hub/solver/graph_explorer/FullSpaceExploration.py b/skdecide/hub/solver/graph_explorer/FullSpaceExploration.py
index 4f23923..67e34c3 100644
--- a/skdecide/hub/solver/graph_explorer/FullSpaceExploration.py
+++ b/skdecide/hub/solver/graph_explorer/FullSpaceExploration.py
@@ -13,9 +13,9 @@ class FullSpaceExploration(GraphExploration):
                  max_nodes=None,
                  max_path=None):
         self.domain = domain
-        self.max_edges = max_edges
-        self.max_nodes = max_nodes
-        self.max_path = max_path
+        self.max_edges = float('inf') if max_edges is None else max_edges
+        self.max_nodes = float('inf') if max_nodes is None else max_nodes
+        self.max_path = float('inf') if max_path is None else max_path
 
     def build_graph_domain(self, init_state: Any=None) -> GraphDomain:
         next_state_map = {}
-- 
2.43.0


From de0d111f2b9c155bd39d4029c7fa87d0b01f8aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:16 +0000
Subject: [PATCH 022/142] fix: full space exploration goes on beyond the first
 states

---
 skdecide/hub/solver/graph_explorer/FullSpaceExploration.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skdecide/hub/solver/graph_explorer/FullSpaceExploration.py b/skdecide/hub/solver/graph_explorer/FullSpaceExploration.py
index 67e34c3..6666a17 100644
--- a/skdecide/hub/solver/graph_explorer/FullSpaceExploration.py
+++ b/skdecide/hub/solver/graph_explorer/FullSpaceExploration.py
@@ -33,7 +33,8 @@ class FullSpaceExploration(GraphExploration):
             actions = self.domain.get_applicable_actions(vertex).get_elements()
             for action in actions:
                 next = self.domain.get_next_state(vertex, action)
-                if next not in next_state_map:
+                is_new = next not in next_state_map
+                if is_new:
                     next_state_map[next] = {}
                     next_state_attributes[next] = {}
                     nb_nodes += 1
@@ -49,7 +50,7 @@ class FullSpaceExploration(GraphExploration):
                 if self.domain.is_goal(next):
                     nb_path += 1
                 else:
-                    if next not in next_state_map:
+                    if is_new:
                         stack.append((next, path+[next]))
             if nb_path > self.max_path or (nb_nodes > self.max_nodes and nb_path >= 1) \
                 or (nb_edges > self.max_edges and nb_path >= 1):
-- 
2.43.0


From 8e0dc17bcf46328d7da245246c6f3929d08de652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:30 +0000
Subject: [PATCH 023/142] fix: explored graph domain keeps the goals and costs
 of the domain

---
 skdecide/hub/solver/graph_explorer/DFSExploration.py       | 4 +++-
 skdecide/hub/solver/graph_explorer/FullSpaceExploration.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/skdecide/hub/solver/graph_explorer/DFSExploration.py b/skdecide/hub/solver/graph_explorer/DFSExploration.py
index 655d083..eeb71c9 100644
--- a/skdecide/hub/solver/graph_explorer/DFSExploration.py
+++ b/skdecide/hub/solver/graph_explorer/DFSExploration.py
@@ -28,6 +28,7 @@ class DFSExploration(GraphExploration):
         if init_state is None:
             init_state = self.domain.get_initial_state()
         stack = [(init_state, [init_state])]
+        goals = {init_state} if self.domain.is_goal(init_state) else set()
         nb_nodes = 1
         nb_edges = 0
         nb_path = 0
@@ -47,6 +48,7 @@ class DFSExploration(GraphExploration):
                 next_state_attributes[vertex][action] = transition_extractor(vertex, action, next)
                 if self.domain.is_goal(next):
                     nb_path += 1
+                    goals.add(next)
                     if verbose:
                         print(nb_path, " / ", self.max_path)
                         print("nodes  ", nb_nodes, " / ", self.max_nodes)
@@ -68,6 +70,6 @@ class DFSExploration(GraphExploration):
                 break
         return GraphDomain(next_state_map,
                            next_state_attributes,
-                           None, None)
+                           goals, 'cost')
 
 
diff --git a/skdecide/hub/solver/graph_explorer/FullSpaceExploration.py b/skdecide/hub/solver/graph_explorer/FullSpaceExploration.py
index 6666a17..3bc603c 100644
--- a/skdecide/hub/solver/graph_explorer/FullSpaceExploration.py
+++ b/skdecide/hub/solver/graph_explorer/FullSpaceExploration.py
@@ -23,6 +23,7 @@ class FullSpaceExploration(GraphExploration):
         if init_state is None:
             init_state = self.domain.get_initial_state()
         stack = [(init_state, [init_state])]
+        goals = {init_state} if self.domain.is_goal(init_state) else set()
         nb_nodes = 1
         nb_edges = 0
         nb_path = 0
@@ -49,6 +50,7 @@ class FullSpaceExploration(GraphExploration):
                                                                                                     next).reward}
                 if self.domain.is_goal(next):
                     nb_path += 1
+                    goals.add(next)
                 else:
                     if is_new:
                         stack.append((next, path+[next]))
@@ -57,7 +59,7 @@ class FullSpaceExploration(GraphExploration):
                 break
         return GraphDomain(next_state_map,
                            next_state_attributes,
-                           None, None)
+                           goals, 'cost')
 
 
 def reachable_states(self, s0: Any):
-- 
2.43.0


From c97069e72dc0063fd9d12418a2503a99f1a39083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:02 +0000
Subject: [PATCH 024/142] fix: graph domains are single-agent sequential
 domains

---
 skdecide/hub/solver/graph_explorer/GraphDomain.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/skdecide/hub/solver/graph_explorer/GraphDomain.py b/skdecide/hub/solver/graph_explorer/GraphDomain.py
index 3f1e384..0a7b4c2 100644
--- a/skdecide/hub/solver/graph_explorer/GraphDomain.py
+++ b/skdecide/hub/solver/graph_explorer/GraphDomain.py
@@ -6,7 +6,7 @@ from skdecide import Memory, Space, TransitionValue, EnumerableSpace, SamplableS
     DiscreteDistribution
 import random
 from skdecide.builders.domain import DeterministicTransitions, Actions, Goals, Markovian, \
-    FullyObservable, PositiveCosts, UncertainTransitions
+    FullyObservable, PositiveCosts, UncertainTransitions, SingleAgent, Sequential
 from skdecide import Domain, DeterministicPlanningDomain, D
 import networkx as nx
 
@@ -25,6 +25,8 @@ class ActionSpace(EnumerableSpace, SamplableSpace):
 
 
 class GraphDomainUncertain(Domain,
+                           SingleAgent,
+                           Sequential,
                            UncertainTransitions,
                            Actions,
                            Goals,
@@ -99,6 +101,8 @@ class GraphDomainUncertain(Domain,
 
 
 class GraphDomain(Domain,
+                  SingleAgent,
+                  Sequential,
                   DeterministicTransitions,
                   Actions,
                   Goals,
-- 
2.43.0


From 43c9735c354946826f9ea61105086cd8765c0351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:21 +0000
Subject: [PATCH 025/142] fix: discretized box actions set every dimension

---
 skdecide/hub/domain/gym/gym.py | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/skdecide/hub/domain/gym/gym.py b/skdecide/hub/domain/gym/gym.py
index 7ba20a0..6257636 100644
--- a/skdecide/hub/domain/gym/gym.py
+++ b/skdecide/hub/domain/gym/gym.py
@@ -658,16 +658,7 @@ class GymDiscreteActionDomain(UnrestrictedActions):
                 clist.append(a)
                 self._generate_box_action_combinations(actions, shape, dtype, index+1, clist, rlist)
         else:
-            ar = np.ndarray(shape=shape, dtype=dtype)
-            if len(shape) == 1:
-                ar[0] = alist[0]
-            else:
-                k = 0
-                for i, in np.nditer(ar, op_flags=['readwrite']):
-                    print(str(i))
-                    i = alist[k]
-                    k += 1
-            rlist += [ar]
+            rlist += [np.array(alist, dtype=dtype).reshape(shape)]
 
 
 class D(Domain, SingleAgent, Sequential, DeterministicTransitions, UnrestrictedActions, DeterministicInitialized,
-- 
2.43.0


From f399972cbe51b6947bd951f5d23d31fde7d1427a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:21 +0000
Subject: [PATCH 026/142] fix: multi-binary action spaces can be discretized

---
 skdecide/hub/domain/gym/gym.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/hub/domain/gym/gym.py b/skdecide/hub/domain/gym/gym.py
index 6257636..3eb65e3 100644
--- a/skdecide/hub/domain/gym/gym.py
+++ b/skdecide/hub/domain/gym/gym.py
@@ -635,7 +635,7 @@ class GymDiscreteActionDomain(UnrestrictedActions):
             return ListSpace(generate(0))
         elif isinstance(action_space, gym.spaces.multi_binary.MultiBinary):
             generate = lambda d: ([[e] + g for e in [True, False] for g in generate(d+1)]
-                                  if d < len(action_space.n)-1 else
+                                  if d < action_space.n-1 else
                                   [[e] for e in [True, False]])
             return ListSpace(generate(0))
         elif isinstance(action_space, gym.spaces.tuple.Tuple):
-- 
2.43.0


From cdc15fea276c2406c6830cd2fcfb9f9c4375e139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:21 +0000
Subject: [PATCH 027/142] fix: dictionary action spaces can be discretized

---
 skdecide/hub/domain/gym/gym.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skdecide/hub/domain/gym/gym.py b/skdecide/hub/domain/gym/gym.py
index 3eb65e3..77e622e 100644
--- a/skdecide/hub/domain/gym/gym.py
+++ b/skdecide/hub/domain/gym/gym.py
@@ -644,10 +644,11 @@ class GymDiscreteActionDomain(UnrestrictedActions):
                                   [[e] for e in self._discretize_action_space(action_space.spaces[d]).get_elements()])
             return ListSpace(generate(0))
         elif isinstance(action_space, gym.spaces.dict.Dict):
-            dkeys = action_space.spaces.keys()
+            dkeys = list(action_space.spaces.keys())
             generate = lambda d: ([[e] + g for e in self._discretize_action_space(action_space.spaces[dkeys[d]]).get_elements() for g in generate(d+1)]
                                   if d < len(dkeys)-1 else
                                   [[e] for e in self._discretize_action_space(action_space.spaces[dkeys[d]]).get_elements()])
+            return ListSpace([dict(zip(dkeys, a)) for a in generate(0)])
         else:
             raise RuntimeError('Unknown Gym space element of type ' + str(type(action_space)))
     
-- 
2.43.0


From 3db82ca5a1fae79df57241120aa60d107b1c2af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:21 +0000
Subject: [PATCH 028/142] fix: number of binary features of a gym width domain

---
 skdecide/hub/domain/gym/gym.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/skdecide/hub/domain/gym/gym.py b/skdecide/hub/domain/gym/gym.py
index 77e622e..882b798 100644
--- a/skdecide/hub/domain/gym/gym.py
+++ b/skdecide/hub/domain/gym/gym.py
@@ -439,10 +439,8 @@ class GymWidthDomain:
     def nb_of_binary_features(self) -> int:
         """Return the size of the bit vector encoding an observation
         """
-        return self._binary_features(self._gym_env.observation_space,
-                                                self._gym_env.observation_space.sample(),
-                                                0,
-                                                lambda i: None)
+        return len(self._binary_features(self._gym_env.observation_space,
+                                         self._gym_env.observation_space.sample()))
 
     def binary_features(self, memory: D.T_memory[D.T_state]):
         """Transform state in a bit vector and call f on each true value of this vector
-- 
2.43.0


From c76ba71b1de33300fa8d502841d027f6337e8e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:21 +0000
Subject: [PATCH 029/142] fix: gym features of dictionary observation spaces

---
 skdecide/hub/domain/gym/gym.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/skdecide/hub/domain/gym/gym.py b/skdecide/hub/domain/gym/gym.py
index 882b798..bc538f6 100644
--- a/skdecide/hub/domain/gym/gym.py
+++ b/skdecide/hub/domain/gym/gym.py
@@ -279,7 +279,7 @@ class GymWidthDomain:
             for s in range(len(space.spaces)):
                 self._init_bee1_features(space.spaces[s], state[s])
         elif isinstance(space, gym.spaces.dict.Dict):
-            for k, s in space.spaces:
+            for k, s in space.spaces.items():
                 self._init_bee1_features(s, state[k])
         else:
             raise RuntimeError('Unknown Gym space element of type ' + str(type(space)))
@@ -391,7 +391,7 @@ class GymWidthDomain:
             for s in range(len(space.spaces)):
                 self._init_bee2_features(space.spaces[s], state[s])
         elif isinstance(space, gym.spaces.dict.Dict):
-            for k, s in space.spaces:
+            for k, s in space.spaces.items():
                 self._init_bee2_features(s, state[k])
         else:
             raise RuntimeError('Unknown Gym space element of type ' + str(type(space)))
@@ -507,7 +507,7 @@ class GymWidthDomain:
             return features
         elif isinstance(space, gym.spaces.dict.Dict):
             features = []
-            for k, v in space.spaces:
+            for k, v in space.spaces.items():
                 l = self._binary_features(v, element[k])
                 features += l
             return features
@@ -578,7 +578,7 @@ class GymWidthDomain:
         elif isinstance(space, gym.spaces.dict.Dict):
             var = []
             for k in space.spaces.keys():
-                index, l = self._get_variables(space.spaces[k], element[k])
+                l = self._get_variables(space.spaces[k], element[k])
                 var += l
             return var
         else:
-- 
2.43.0


From b471999a26f2a4481bb56fa5335de054de319c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:44 +0000
Subject: [PATCH 030/142] fix: gym width features accept discrete observation
 elements

---
 skdecide/hub/domain/gym/gym.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/skdecide/hub/domain/gym/gym.py b/skdecide/hub/domain/gym/gym.py
index bc538f6..598e6df 100644
--- a/skdecide/hub/domain/gym/gym.py
+++ b/skdecide/hub/domain/gym/gym.py
@@ -281,6 +281,10 @@ class GymWidthDomain:
         elif isinstance(space, gym.spaces.dict.Dict):
             for k, s in space.spaces.items():
                 self._init_bee1_features(s, state[k])
+        elif isinstance(space, (gym.spaces.discrete.Discrete,
+                                gym.spaces.multi_discrete.MultiDiscrete,
+                                gym.spaces.multi_binary.MultiBinary)):
+            pass  # discrete elements are their own features
         else:
             raise RuntimeError('Unknown Gym space element of type ' + str(type(space)))
 
@@ -393,6 +397,10 @@ class GymWidthDomain:
         elif isinstance(space, gym.spaces.dict.Dict):
             for k, s in space.spaces.items():
                 self._init_bee2_features(s, state[k])
+        elif isinstance(space, (gym.spaces.discrete.Discrete,
+                                gym.spaces.multi_discrete.MultiDiscrete,
+                                gym.spaces.multi_binary.MultiBinary)):
+            pass  # discrete elements are their own features
         else:
             raise RuntimeError('Unknown Gym space element of type ' + str(type(space)))
 
-- 
2.43.0


From 382546d6d413300532647ac04e64e164371b3283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:44 +0000
Subject: [PATCH 031/142] fix: AsGymEnv unwraps the observation of a reset as
 it does for steps

---
 skdecide/hub/domain/gym/gym.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/hub/domain/gym/gym.py b/skdecide/hub/domain/gym/gym.py
index 598e6df..e955fc2 100644
--- a/skdecide/hub/domain/gym/gym.py
+++ b/skdecide/hub/domain/gym/gym.py
@@ -930,7 +930,7 @@ class AsGymEnv(gym.Env):
         # Returns
         observation (object): The initial observation of the space.
         """
-        return self._domain.reset()
+        return next(iter(self._domain.get_observation_space().to_unwrapped([self._domain.reset()])))
 
     def render(self, mode='human'):
         """Render the environment.
-- 
2.43.0


From c9438376a219e65e24bcf3852ba1c68b91788e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:39 +0000
Subject: [PATCH 032/142] fix: knapsack greedy copes with items heavier than
 the capacity

---
 .../discrete_optimization/knapsack/solvers/greedy_solvers.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/knapsack/solvers/greedy_solvers.py b/skdecide/builders/discrete_optimization/knapsack/solvers/greedy_solvers.py
index a29c174..e3af871 100644
--- a/skdecide/builders/discrete_optimization/knapsack/solvers/greedy_solvers.py
+++ b/skdecide/builders/discrete_optimization/knapsack/solvers/greedy_solvers.py
@@ -26,7 +26,7 @@ def greedy_using_queue(knapsack_model: KnapsackModel, method_queue=None)->Knapsa
     weight = 0
     taken = [0]*knapsack_model.nb_items
     sorted_per_density = method_queue(knapsack_model)
-    for i in range(len(taken)):
+    for i in range(len(sorted_per_density)):
         if sorted_per_density[i].weight+weight<=knapsack_model.max_capacity:
             taken[sorted_per_density[i].index] = 1
             value += sorted_per_density[i].value
-- 
2.43.0


From a913f5d9cf5f662c8f8fd8df9c643885ea412627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:53 +0000
Subject: [PATCH 033/142] fix: knapsack solvers mark the items taken at their
 position, whatever their index

---
 .../knapsack/solvers/cp_solvers.py                  | 13 ++++++-------
 .../knapsack/solvers/dyn_prog_knapsack.py           |  4 ++--
 .../knapsack/solvers/greedy_solvers.py              |  2 +-
 3 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/knapsack/solvers/cp_solvers.py b/skdecide/builders/discrete_optimization/knapsack/solvers/cp_solvers.py
index 5f01035..03864d1 100644
--- a/skdecide/builders/discrete_optimization/knapsack/solvers/cp_solvers.py
+++ b/skdecide/builders/discrete_optimization/knapsack/solvers/cp_solvers.py
@@ -39,7 +39,7 @@ class CPKnapsackMZN(CPSolver):
             value = 0
             for i in range(len(items)):
                 if items[i] != 0:
-                    taken[self.knapsack_model.list_items[items[i] - 1].index] = 1
+                    taken[items[i] - 1] = 1
                     weight += self.knapsack_model.list_items[items[i] - 1].weight
                     value += self.knapsack_model.list_items[items[i] - 1].value
             sol = KnapsackSolution(problem=self.knapsack_model,
@@ -114,7 +114,7 @@ class CPKnapsackMZN2(CPSolver):
             value = 0
             for i in range(len(items_taken)):
                 if items_taken[i] != 0:
-                    taken[self.knapsack_model.list_items[i].index] = 1
+                    taken[i] = 1
                     weight += self.knapsack_model.list_items[i].weight
                     value += self.knapsack_model.list_items[i].value
             sol = KnapsackSolution(problem=self.knapsack_model,
@@ -135,7 +135,7 @@ class CPKnapsackMZN2(CPSolver):
         value = 0
         for i in range(len(items_taken)):
             if items_taken[i] != 0:
-                taken[self.knapsack_model.list_items[i].index] = 1
+                taken[i] = 1
                 weight += self.knapsack_model.list_items[i].weight
                 value += self.knapsack_model.list_items[i].value
         return [KnapsackSolution(problem=self.knapsack_model,
@@ -146,7 +146,7 @@ class CPKnapsackMZN2(CPSolver):
                   fraction_decision_fixed: float, 
                   nb_iteration_max: int, 
                   max_time_per_iteration_s: float, save_results=True):
-        taken_current_solution = [init_solution.list_taken[item.index] for item in self.knapsack_model.list_items]
+        taken_current_solution = list(init_solution.list_taken)
         current_objective = init_solution.value
         nb_items = self.knapsack_model.nb_items
         range_item = list(range(nb_items))
@@ -169,8 +169,7 @@ class CPKnapsackMZN2(CPSolver):
                     current_objective = res["objective"]
                     iteration += 1
                     current_solution = solution
-                    taken_current_solution = [solution.list_taken[item.index]
-                                              for item in self.knapsack_model.list_items]
+                    taken_current_solution = list(solution.list_taken)
                     print("Improved ", current_objective)
                     if save_results:
                         results["taken"] += [taken_current_solution]
@@ -180,7 +179,7 @@ class CPKnapsackMZN2(CPSolver):
                     iteration += 1
                     if res.solution is not None:
                         objective = res["objective"]
-                        taken_solution = [solution.list_taken[item.index] for item in self.knapsack_model.list_items]
+                        taken_solution = list(solution.list_taken)
                         if save_results:
                             results["taken"] += [taken_solution]
                             results["objective"] += [objective]
diff --git a/skdecide/builders/discrete_optimization/knapsack/solvers/dyn_prog_knapsack.py b/skdecide/builders/discrete_optimization/knapsack/solvers/dyn_prog_knapsack.py
index 2397a27..e776cf8 100644
--- a/skdecide/builders/discrete_optimization/knapsack/solvers/dyn_prog_knapsack.py
+++ b/skdecide/builders/discrete_optimization/knapsack/solvers/dyn_prog_knapsack.py
@@ -69,7 +69,7 @@ class KnapsackDynProg(SolverDO):
             value_left = self.table[cur_indexes[0]-1, cur_indexes[1]]
             if cur_value != value_left:
                 index_item = self.knapsack_model.index_to_index_list[index_promising[cur_indexes[0]-1]] 
-                taken[self.knapsack_model.list_items[index_item].index] = 1
+                taken[index_item] = 1
                 value += self.knapsack_model.list_items[index_item].value
                 weight += self.knapsack_model.list_items[index_item].weight
                 cur_indexes = (cur_indexes[0]-1, 
@@ -126,7 +126,7 @@ class KnapsackDynProg(SolverDO):
             value_left = self.table[cur_indexes[0]-1, cur_indexes[1]]
             if cur_value != value_left:
                 index_item = self.knapsack_model.index_to_index_list[index_promising[cur_indexes[0]-1]] 
-                taken[self.knapsack_model.list_items[index_item].index] = 1
+                taken[index_item] = 1
                 value += self.knapsack_model.list_items[index_item].value
                 weight += self.knapsack_model.list_items[index_item].weight
                 cur_indexes = (cur_indexes[0]-1, 
diff --git a/skdecide/builders/discrete_optimization/knapsack/solvers/greedy_solvers.py b/skdecide/builders/discrete_optimization/knapsack/solvers/greedy_solvers.py
index e3af871..0e2a4ab 100644
--- a/skdecide/builders/discrete_optimization/knapsack/solvers/greedy_solvers.py
+++ b/skdecide/builders/discrete_optimization/knapsack/solvers/greedy_solvers.py
@@ -28,7 +28,7 @@ def greedy_using_queue(knapsack_model: KnapsackModel, method_queue=None)->Knapsa
     sorted_per_density = method_queue(knapsack_model)
     for i in range(len(sorted_per_density)):
         if sorted_per_density[i].weight+weight<=knapsack_model.max_capacity:
-            taken[sorted_per_density[i].index] = 1
+            taken[knapsack_model.index_to_index_list[sorted_per_density[i].index]] = 1
             value += sorted_per_density[i].value
             weight += sorted_per_density[i].weight
         else:
-- 
2.43.0


From 839cff691b8614adb672b73cee53dd065a9795b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:53 +0000
Subject: [PATCH 034/142] fix: knapsack dynamic programming copes with items
 heavier than the capacity

---
 .../knapsack/solvers/dyn_prog_knapsack.py                      | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/knapsack/solvers/dyn_prog_knapsack.py b/skdecide/builders/discrete_optimization/knapsack/solvers/dyn_prog_knapsack.py
index e776cf8..583d8cf 100644
--- a/skdecide/builders/discrete_optimization/knapsack/solvers/dyn_prog_knapsack.py
+++ b/skdecide/builders/discrete_optimization/knapsack/solvers/dyn_prog_knapsack.py
@@ -26,7 +26,6 @@ class KnapsackDynProg(SolverDO):
         start_by_most_promising = args.get('greedy_start', False)
         stop_after_n_item = args.get('stop_after_n_item', False)
         max_items = args.get('max_items', self.knapsack_model.nb_items+1)
-        max_items = min(self.knapsack_model.nb_items+1, max_items)
         max_time_seconds = args.get('max_time_seconds', None)
         verbose = args.get('verbose', False)
         if max_time_seconds is None:
@@ -41,6 +40,7 @@ class KnapsackDynProg(SolverDO):
             index_promising = [l.index for l in promising]
         else:
             index_promising = [l.index for l in self.knapsack_model.list_items]
+        max_items = min(len(index_promising)+1, max_items)
         if do_time:
             t_start = time.time()
         cur_indexes = (0, 0)
@@ -102,6 +102,7 @@ class KnapsackDynProg(SolverDO):
             index_promising = [l.index for l in promising]
         else:
             index_promising = [l.index for l in self.knapsack_model.list_items]
+        max_items = min(len(index_promising)+1, max_items)
         if do_time:
             t_start = time.time()
         cur_indexes = (0, 0)
-- 
2.43.0


From 4f43933d96884693a08b0ce520906c2343cd4548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:53 +0000
Subject: [PATCH 035/142] fix: vectorised knapsack dynamic programming takes
 only items that fit

---
 .../discrete_optimization/knapsack/solvers/dyn_prog_knapsack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/knapsack/solvers/dyn_prog_knapsack.py b/skdecide/builders/discrete_optimization/knapsack/solvers/dyn_prog_knapsack.py
index 583d8cf..3b6018f 100644
--- a/skdecide/builders/discrete_optimization/knapsack/solvers/dyn_prog_knapsack.py
+++ b/skdecide/builders/discrete_optimization/knapsack/solvers/dyn_prog_knapsack.py
@@ -115,7 +115,7 @@ class KnapsackDynProg(SolverDO):
             value = self.knapsack_model.list_items[index_item].value
             vec_1 = self.table[nb_item-1, :]
             ind = [max(capacity-weight, 0) for capacity in range(self.capacity+1)]
-            vec_2 = vec_1[ind]+value*(ind!=0)
+            vec_2 = np.where(np.arange(self.capacity+1) >= weight, vec_1[ind]+value, vec_1)
             self.table[nb_item, :] = np.maximum(vec_1, vec_2)
             cur_indexes = (nb_item, self.capacity)
             print("Cur obj : ", self.table[nb_item, self.capacity])
-- 
2.43.0


From b093405a9071a9a933ff48bcc1397db36522277a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:53 +0000
Subject: [PATCH 036/142] fix: objectives of the multi-objective knapsack have
 a sense

---
 .../builders/discrete_optimization/knapsack/knapsack_model.py  | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/knapsack/knapsack_model.py b/skdecide/builders/discrete_optimization/knapsack/knapsack_model.py
index 2c16f42..cbe9806 100644
--- a/skdecide/builders/discrete_optimization/knapsack/knapsack_model.py
+++ b/skdecide/builders/discrete_optimization/knapsack/knapsack_model.py
@@ -154,7 +154,8 @@ class KnapsackModel_Mobj(KnapsackModel):
                           "heaviest_item": {"type": TypeObjective.OBJECTIVE, "default_weight": 1},
                           "weight": {"type": TypeObjective.OBJECTIVE, "default_weight": -1},
                           "value": {"type": TypeObjective.OBJECTIVE, "default_weight": 1}}
-        return ObjectiveRegister(objective_handling=ObjectiveHandling.MULTI_OBJ,
+        return ObjectiveRegister(objective_sense=ModeOptim.MAXIMIZATION,
+                                 objective_handling=ObjectiveHandling.MULTI_OBJ,
                                  dict_objective_to_doc=dict_objective)
 
     def evaluate(self, knapsack_solution: KnapsackSolution):
-- 
2.43.0


From 494f8c44744cc75206da900e4722363f89bade8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:05 +0000
Subject: [PATCH 037/142] fix: knapsack evaluation computes a missing or
 outdated weight

---
 .../builders/discrete_optimization/knapsack/knapsack_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/knapsack/knapsack_model.py b/skdecide/builders/discrete_optimization/knapsack/knapsack_model.py
index cbe9806..078f402 100644
--- a/skdecide/builders/discrete_optimization/knapsack/knapsack_model.py
+++ b/skdecide/builders/discrete_optimization/knapsack/knapsack_model.py
@@ -99,7 +99,7 @@ class KnapsackModel(Problem):
         return objectives
 
     def evaluate(self, knapsack_solution: KnapsackSolution):
-        if knapsack_solution.value is None or self.force_recompute_values:
+        if knapsack_solution.value is None or knapsack_solution.weight is None or self.force_recompute_values:
             val = self.evaluate_value(knapsack_solution)
         else:
             val = knapsack_solution.value
@@ -121,7 +121,7 @@ class KnapsackModel(Problem):
                    knapsack_solution.weight - self.max_capacity)
 
     def satisfy(self, knapsack_solution: KnapsackSolution):
-        if knapsack_solution.value is None:
+        if knapsack_solution.value is None or knapsack_solution.weight is None or self.force_recompute_values:
             self.evaluate(knapsack_solution)
         return knapsack_solution.weight <= self.max_capacity
 
-- 
2.43.0


From 6fa3c240cd031e73d77166ece02d96c9eea5bb12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:05 +0000
Subject: [PATCH 038/142] fix: equal knapsack solutions have equal hashes

---
 .../builders/discrete_optimization/knapsack/knapsack_model.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/knapsack/knapsack_model.py b/skdecide/builders/discrete_optimization/knapsack/knapsack_model.py
index 078f402..7c2853f 100644
--- a/skdecide/builders/discrete_optimization/knapsack/knapsack_model.py
+++ b/skdecide/builders/discrete_optimization/knapsack/knapsack_model.py
@@ -49,7 +49,7 @@ class KnapsackSolution(Solution):
         return s
 
     def __hash__(self):
-        return hash(str(self))
+        return hash(tuple(self.list_taken))
 
     def __eq__(self, other):
         return self.list_taken == other.list_taken
-- 
2.43.0


From 9895866d64deae09859100e0109021e52b1abd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:05 +0000
Subject: [PATCH 039/142] fix: knapsack solution moved to another problem
 forgets its value and weight

---
 .../builders/discrete_optimization/knapsack/knapsack_model.py   | 2 --
 1 file changed, 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/knapsack/knapsack_model.py b/skdecide/builders/discrete_optimization/knapsack/knapsack_model.py
index 7c2853f..68faccf 100644
--- a/skdecide/builders/discrete_optimization/knapsack/knapsack_model.py
+++ b/skdecide/builders/discrete_optimization/knapsack/knapsack_model.py
@@ -38,8 +38,6 @@ class KnapsackSolution(Solution):
 
     def change_problem(self, new_problem):
         self.__init__(problem=new_problem,
-                      value=self.value,
-                      weight=self.weight,
                       list_taken=list(self.list_taken))
 
     def __str__(self):
-- 
2.43.0


From 2481714f824c40b2281502da0137fe169cd5018e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:05 +0000
Subject: [PATCH 040/142] fix: knapsack bit flip returns the objectives of the
 new solution

---
 .../knapsack/mutation/mutation_knapsack.py                      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/knapsack/mutation/mutation_knapsack.py b/skdecide/builders/discrete_optimization/knapsack/mutation/mutation_knapsack.py
index 78eb63b..616a5d4 100644
--- a/skdecide/builders/discrete_optimization/knapsack/mutation/mutation_knapsack.py
+++ b/skdecide/builders/discrete_optimization/knapsack/mutation/mutation_knapsack.py
@@ -51,7 +51,7 @@ class KnapsackMutationSingleBitFlip(Mutation):
             obj = {'value': new_value,
                    'weight_violation': max(0, new_weight - self.problem.max_capacity)}
         else:
-            obj = self.problem.evaluate(solution)
+            obj = self.problem.evaluate(new_sol)
         return new_sol, move, obj
 
     @staticmethod
-- 
2.43.0


From c924f85d021572cd4461637d9066cc2ad31bc636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:47 +0000
Subject: [PATCH 041/142] fix: swaps are undone in reverse order

---
 .../generic_tools/mutations/permutation_mutations.py            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py b/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py
index fd85ef7..1befb6a 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py
@@ -146,7 +146,7 @@ class SwapsLocalMove(LocalMove):
 
     def backtrack_local_move(self, solution: Solution) -> Solution:
         current = getattr(solution, self.attribute)
-        for i1, i2 in self.list_index_swap:
+        for i1, i2 in self.list_index_swap[::-1]:
             v1, v2 = current[i1], current[i2]
             current[i1], current[i2] = v2, v1
         return solution
-- 
2.43.0


From 0b4189833ffbefac331e177606377e96cb517771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:47 +0000
Subject: [PATCH 042/142] fix: swap mutation can exchange the last element

---
 .../generic_tools/mutations/permutation_mutations.py          | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py b/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py
index 1befb6a..a9e090d 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py
@@ -178,7 +178,7 @@ class PermutationSwap(Mutation):
         self.length = len(self.register.dict_attribute_to_type[self.attribute]["range"])
 
     def mutate(self, solution: Solution)->Tuple[Solution, LocalMove]:
-        swaps = np.random.randint(low=0, high=self.length-1, size=(self.nb_swap, 2))
+        swaps = np.random.randint(low=0, high=self.length, size=(self.nb_swap, 2))
         move = SwapsLocalMove(self.attribute, [(swaps[i, 0], swaps[i, 1]) for i in range(self.nb_swap)])
         next_sol = move.apply_local_move(solution)
         return (next_sol, move)
@@ -288,7 +288,7 @@ class TwoOptMutation(LocalMove):
 #             self.length = len(self.register.dict_attribute_to_type[self.attribute]["range"])
 
 #     def mutate(self, solution: Solution)->Tuple[Solution, LocalMove]:
-#         swaps = np.random.randint(low=0, high=self.length-1, size=(self.nb_swap, 2))
+#         swaps = np.random.randint(low=0, high=self.length, size=(self.nb_swap, 2))
 #         move = SwapsLocalMove(self.attribute, [(swaps[i, 0], swaps[i, 1]) for i in range(self.nb_swap)])
 #         next_sol = move.apply_local_move(solution)
 #         return (next_sol, move)
-- 
2.43.0


From 668c709e663c847fa9f83b8a9f2ae811d8026622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:47 +0000
Subject: [PATCH 043/142] fix: partial shuffle mutation leaves the mutated
 solution unchanged

---
 .../generic_tools/mutations/permutation_mutations.py            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py b/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py
index a9e090d..8f64727 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py
@@ -116,7 +116,7 @@ class PermutationPartialShuffleMutation(Mutation):
         random.shuffle(self.range_int_total)
         int_to_move = self.range_int_total[:self.n_to_move]
         random.shuffle(self.range_int)
-        new = getattr(solution, self.attribute)
+        new = list(previous)
         for k in range(self.n_to_move):
             #prevs += [new[int_to_move[k]]]
             new[int_to_move[k]] = previous[int_to_move[self.range_int[k]]]
-- 
2.43.0


From 2c93ad70fe9197df416a973826974d499a09f758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:47 +0000
Subject: [PATCH 044/142] fix: portfolio mutation no longer relies on np.int

---
 .../generic_tools/mutations/mixed_mutation.py                 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/mutations/mixed_mutation.py b/skdecide/builders/discrete_optimization/generic_tools/mutations/mixed_mutation.py
index 85f5b64..24601b6 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/mutations/mixed_mutation.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/mutations/mixed_mutation.py
@@ -14,7 +14,7 @@ class BasicPortfolioMutation(Mutation):
         if isinstance(self.weight_mutation, list):
             self.weight_mutation = np.array(self.weight_mutation)
         self.weight_mutation = self.weight_mutation/np.sum(self.weight_mutation)
-        self.index_np = np.array(range(len(self.list_mutation)), dtype=np.int)
+        self.index_np = np.array(range(len(self.list_mutation)), dtype=int)
         print(len(self.list_mutation), " mutation available")
 
     def mutate(self, solution: Solution):
@@ -35,7 +35,7 @@ class BasicPortfolioMutationTrack(Mutation):
         if isinstance(self.weight_mutation, list):
             self.weight_mutation = np.array(self.weight_mutation)
         self.weight_mutation = self.weight_mutation/np.sum(self.weight_mutation)
-        self.index_np = np.array(range(len(self.list_mutation)), dtype=np.int)
+        self.index_np = np.array(range(len(self.list_mutation)), dtype=int)
 
     def mutate(self, solution: Solution):
         choice = np.random.choice(self.index_np, 
-- 
2.43.0


From 857f9fa259bdbeda0c9f5a99b62d31d65f94ec93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:47 +0000
Subject: [PATCH 045/142] fix: result storage that starts empty accepts
 solutions

---
 .../generic_tools/result_storage/result_storage.py            | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/result_storage/result_storage.py b/skdecide/builders/discrete_optimization/generic_tools/result_storage/result_storage.py
index 96f6dae..402ed42 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/result_storage/result_storage.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/result_storage/result_storage.py
@@ -53,6 +53,10 @@ class ResultStorage:
         if solution not in self.map_solutions:
             self.map_solutions[solution] = fitness
             self.list_solution_fits += [(solution, fitness)]
+        if len(self.heap) == 0:
+            self.min = fitness
+            self.max = fitness
+            self.best_solution = solution
         if self.maximize and fitness > self.max \
                 or (not self.maximize and fitness < self.min):
             self.best_solution = solution
-- 
2.43.0


From 6ddd7cd2cda4480cbea6ba2a8147eac3436c4690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:47 +0000
Subject: [PATCH 046/142] fix: result storage returns its n best solutions

---
 .../generic_tools/result_storage/result_storage.py            | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/result_storage/result_storage.py b/skdecide/builders/discrete_optimization/generic_tools/result_storage/result_storage.py
index 402ed42..e689f1a 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/result_storage/result_storage.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/result_storage/result_storage.py
@@ -110,10 +110,8 @@ class ResultStorage:
         return f(self.list_solution_fits, key=lambda x: x[1])[0]
 
     def get_n_best_solution(self, n_solutions: int):
-        f = max if self.maximize else min
         n = min(n_solutions, len(self.list_solution_fits))
-
-
+        return sorted(self.list_solution_fits, key=lambda x: x[1], reverse=self.maximize)[:n]
 
     def remove_duplicate_solutions(self, var_name):
         index_to_remove = []
-- 
2.43.0


From f306894dd730cd16402657d94d2e7d2120a883ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:47 +0000
Subject: [PATCH 047/142] fix: local search storages know the sense of
 optimisation

---
 .../discrete_optimization/generic_tools/ls/hill_climber.py     | 3 +++
 .../generic_tools/ls/simulated_annealing.py                    | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/ls/hill_climber.py b/skdecide/builders/discrete_optimization/generic_tools/ls/hill_climber.py
index 0944e6f..dbfe941 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/ls/hill_climber.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/ls/hill_climber.py
@@ -39,12 +39,14 @@ class HillClimber:
         if self.store_solution:
             store = ResultStorage(list_solution_fits=[(initial_variable, objective)],
                                   best_solution=initial_variable.copy(),
+                                  mode_optim=self.mode_optim,
                                   limit_store=True,
                                   nb_best_store=1000)
         else:
             store = ResultStorage(list_solution_fits=[(initial_variable,
                                                        objective)],
                                   best_solution=initial_variable.copy(),
+                                  mode_optim=self.mode_optim,
                                   limit_store=True,
                                   nb_best_store=1)
         cur_best_variable = initial_variable.copy()
@@ -125,6 +127,7 @@ class HillClimberPareto(HillClimber):
         pareto_front = ParetoFront(list_solution_fits=
                                    [(initial_variable, objective)],
                                    best_solution=initial_variable.copy(),
+                                   mode_optim=self.mode_optim,
                                    limit_store=True,
                                    nb_best_store=1000)
         cur_variable = initial_variable.copy()
diff --git a/skdecide/builders/discrete_optimization/generic_tools/ls/simulated_annealing.py b/skdecide/builders/discrete_optimization/generic_tools/ls/simulated_annealing.py
index fed5413..c07e46a 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/ls/simulated_annealing.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/ls/simulated_annealing.py
@@ -55,12 +55,14 @@ class SimulatedAnnealing:
         if self.store_solution:
             store = ResultStorage(list_solution_fits=[(initial_variable, objective)],
                                   best_solution=initial_variable.copy(),
+                                  mode_optim=self.mode_optim,
                                   limit_store=True,
                                   nb_best_store=1000)
         else:
             store = ResultStorage(list_solution_fits=[(initial_variable,
                                                        objective)],
                                   best_solution=initial_variable.copy(),
+                                  mode_optim=self.mode_optim,
                                   limit_store=True,
                                   nb_best_store=1)
         self.restart_handler.best_fitness = objective
-- 
2.43.0


From 3e4c588f28746889c53482fd8b940463d2ca5d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:19 +0000
Subject: [PATCH 048/142] fix: local search stores copies of the solutions it
 evaluated

---
 .../discrete_optimization/generic_tools/ls/hill_climber.py  | 6 +++---
 .../generic_tools/ls/simulated_annealing.py                 | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/ls/hill_climber.py b/skdecide/builders/discrete_optimization/generic_tools/ls/hill_climber.py
index dbfe941..105a1a1 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/ls/hill_climber.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/ls/hill_climber.py
@@ -72,20 +72,20 @@ class HillClimber:
                 accept = True 
                 local_improvement = True
                 global_improvement = objective > cur_best_objective
+            if self.store_solution:
+                store.add_solution(nv.copy(), objective)
             if accept:
                 cur_objective = objective
                 cur_variable = nv
             else:
                 cur_variable = move.backtrack_local_move(nv)
-            if self.store_solution:
-                store.add_solution(nv, objective)
             if global_improvement: 
                 print("iter ", iteration)
                 print("new obj ", objective, " better than ", cur_best_objective)
                 cur_best_objective = objective
                 cur_best_variable = cur_variable.copy()
                 if not self.store_solution:
-                    store.add_solution(cur_variable, objective)
+                    store.add_solution(cur_variable.copy(), objective)
             # Update the temperature
             self.restart_handler.update(nv, objective, 
                                         global_improvement,
diff --git a/skdecide/builders/discrete_optimization/generic_tools/ls/simulated_annealing.py b/skdecide/builders/discrete_optimization/generic_tools/ls/simulated_annealing.py
index c07e46a..330604a 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/ls/simulated_annealing.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/ls/simulated_annealing.py
@@ -91,6 +91,8 @@ class SimulatedAnnealing:
                 p = math.exp(fac*(objective-cur_objective)/self.temperature_handler.temperature)
                 accept = p > r
                 local_move_accepted = accept
+            if self.store_solution:
+                store.add_solution(nv.copy(), objective)
             if accept:
                 cur_objective = objective
                 cur_variable = nv
@@ -100,8 +102,6 @@ class SimulatedAnnealing:
                 cur_variable = move.backtrack_local_move(nv)
                 # print(move)
                 # print("cur_variable", cur_variable)
-            if self.store_solution:
-                store.add_solution(nv.copy(), objective)
             if global_improvement: 
                 print("iter ", iteration)
                 # print(cur_variable)
-- 
2.43.0


From 7ee2f06fe4a2eb2040350c20074b3634924b7d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:19 +0000
Subject: [PATCH 049/142] fix: merged pareto front keeps the sense of
 optimisation

---
 .../generic_tools/result_storage/resultcomparator.py           | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/result_storage/resultcomparator.py b/skdecide/builders/discrete_optimization/generic_tools/result_storage/resultcomparator.py
index dd488a5..db93e63 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/result_storage/resultcomparator.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/result_storage/resultcomparator.py
@@ -89,7 +89,8 @@ class ResultComparator:
         for rs in self.list_result_storage:
             for s in rs.list_solution_fits:
                 sols.append(s)
-        rs = ResultStorage(list_solution_fits=sols, best_solution=None)
+        rs = ResultStorage(list_solution_fits=sols, best_solution=None,
+                           mode_optim=self.list_result_storage[0].mode_optim)
         # print('len(rs): ', len(rs.list_solution_fits))
         pareto_store = result_storage_to_pareto_front(result_storage=rs, problem=None)
         # print('len(pareto_store): ', len(pareto_store.list_solution_fits))
-- 
2.43.0


From 224968ac70f19441a85cb5a8e1cfdb2420afc676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:19 +0000
Subject: [PATCH 050/142] fix: local search falls back on the objectives of the
 problem

---
 .../discrete_optimization/generic_tools/ls/hill_climber.py    | 4 +++-
 .../generic_tools/ls/simulated_annealing.py                   | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/ls/hill_climber.py b/skdecide/builders/discrete_optimization/generic_tools/ls/hill_climber.py
index 105a1a1..4217a70 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/ls/hill_climber.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/ls/hill_climber.py
@@ -1,7 +1,7 @@
 import pickle
 from typing import Optional, Union, List
 from skdecide.builders.discrete_optimization.generic_tools.do_problem import Solution, Problem, \
-    build_evaluate_function_aggregated, ObjectiveHandling, ModeOptim, ParamsObjectiveFunction
+    build_evaluate_function_aggregated, get_default_objective_setup, ObjectiveHandling, ModeOptim, ParamsObjectiveFunction
 from skdecide.builders.discrete_optimization.generic_tools.ls.local_search import RestartHandler, \
                                                              ModeMutation, ResultLS
 from skdecide.builders.discrete_optimization.generic_tools.do_mutation import Mutation
@@ -21,6 +21,8 @@ class HillClimber:
         self.mutator = mutator
         self.restart_handler = restart_handler
         self.mode_mutation = mode_mutation
+        if params_objective_function is None:
+            params_objective_function = get_default_objective_setup(evaluator)
         self.params_objective_function = params_objective_function
         self.mode_optim = params_objective_function.sense_function
         self.aggreg_from_solution, self.aggreg_from_dict_values = \
diff --git a/skdecide/builders/discrete_optimization/generic_tools/ls/simulated_annealing.py b/skdecide/builders/discrete_optimization/generic_tools/ls/simulated_annealing.py
index 330604a..e72ece9 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/ls/simulated_annealing.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/ls/simulated_annealing.py
@@ -2,7 +2,7 @@ import math
 import random
 import pickle
 from skdecide.builders.discrete_optimization.generic_tools.do_problem import Problem, Solution, \
-    build_evaluate_function_aggregated, ModeOptim, ParamsObjectiveFunction
+    build_evaluate_function_aggregated, get_default_objective_setup, ModeOptim, ParamsObjectiveFunction
 from skdecide.builders.discrete_optimization.generic_tools.ls.local_search import RestartHandler, ModeMutation, ResultLS
 from skdecide.builders.discrete_optimization.generic_tools.do_mutation import Mutation
 from skdecide.builders.discrete_optimization.generic_tools.result_storage.result_storage import ResultStorage
@@ -34,6 +34,8 @@ class SimulatedAnnealing:
         self.restart_handler = restart_handler
         self.temperature_handler = temperature_handler
         self.mode_mutation = mode_mutation
+        if params_objective_function is None:
+            params_objective_function = get_default_objective_setup(evaluator)
         self.params_objective_function = params_objective_function
         self.aggreg_from_solution, self.aggreg_from_dict_values = \
             build_evaluate_function_aggregated(evaluator,
-- 
2.43.0


From 45ee84b7b4c03265ebff6ebaec0e6a2afd1755ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:19 +0000
Subject: [PATCH 051/142] fix: colouring moved to another problem forgets its
 counts

---
 .../builders/discrete_optimization/coloring/coloring_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/coloring/coloring_model.py b/skdecide/builders/discrete_optimization/coloring/coloring_model.py
index 0733eb8..3d0eaa4 100644
--- a/skdecide/builders/discrete_optimization/coloring/coloring_model.py
+++ b/skdecide/builders/discrete_optimization/coloring/coloring_model.py
@@ -53,8 +53,8 @@ class ColoringSolution(Solution):
         self.__init__(problem=new_problem,
                       colors=list(self.colors),
                       # colors_from0=list(self.colors_from0),
-                      nb_color=self.nb_color,
-                      nb_violations=self.nb_violations)
+                      nb_color=None,
+                      nb_violations=None)
 
 
 def transform_color_values_to_value_precede(color_vector: List[int]):
-- 
2.43.0


From bccb48ecb58033f9395f41748ea136348ad1131c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:19 +0000
Subject: [PATCH 052/142] fix: colouring evaluation computes missing violations

---
 .../builders/discrete_optimization/coloring/coloring_model.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/coloring/coloring_model.py b/skdecide/builders/discrete_optimization/coloring/coloring_model.py
index 3d0eaa4..766b5cf 100644
--- a/skdecide/builders/discrete_optimization/coloring/coloring_model.py
+++ b/skdecide/builders/discrete_optimization/coloring/coloring_model.py
@@ -85,7 +85,7 @@ class ColoringProblem(Problem):
         #     counter += 1
 
     def evaluate(self, variable: ColoringSolution) -> Dict[str, float]:
-        if variable.nb_color is None:
+        if variable.nb_color is None or variable.nb_violations is None:
             variable.nb_color = len(set(variable.colors))
             variable.nb_violations = self.count_violations(variable)
         return {"nb_colors": variable.nb_color, "nb_violations": variable.nb_violations}
-- 
2.43.0


From c89c2bc61e44996141ddacca8e3addd6094f71f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:19 +0000
Subject: [PATCH 053/142] fix: greedy colouring accepts the dsatur strategy

---
 .../discrete_optimization/coloring/solvers/greedy_coloring.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/coloring/solvers/greedy_coloring.py b/skdecide/builders/discrete_optimization/coloring/solvers/greedy_coloring.py
index 4f6c6f7..6494537 100644
--- a/skdecide/builders/discrete_optimization/coloring/solvers/greedy_coloring.py
+++ b/skdecide/builders/discrete_optimization/coloring/solvers/greedy_coloring.py
@@ -44,7 +44,7 @@ class GreedyColoring(SolverDO):
         strategy: NXGreedyColoringMethod = kwargs.get("strategy", NXGreedyColoringMethod.best)
         print(strategy)
         verbose: bool = kwargs.get("verbose", False)
-        strategy_name = strategy.name
+        strategy_name = strategy.value
         if strategy_name == "best":
             strategies_to_test = strategies
         else:
-- 
2.43.0


From 705051a23a15e2b686d5e8208e15ea9044fdaf74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:19 +0000
Subject: [PATCH 054/142] fix: enumeration of all cliques no longer fails

---
 .../builders/discrete_optimization/coloring/coloring_toolbox.py  | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skdecide/builders/discrete_optimization/coloring/coloring_toolbox.py b/skdecide/builders/discrete_optimization/coloring/coloring_toolbox.py
index 2509957..50fcfe2 100644
--- a/skdecide/builders/discrete_optimization/coloring/coloring_toolbox.py
+++ b/skdecide/builders/discrete_optimization/coloring/coloring_toolbox.py
@@ -4,6 +4,7 @@ import networkx as nx
 def compute_cliques(g, nb_max=None):
     cliques = []
     nb = 0
+    not_all = False
     for c in nx.algorithms.clique.find_cliques(g):
         print(c)
         cliques += [c]
-- 
2.43.0


From 44adc226aadcdd7f21ce6eb334890165c351ad60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:19 +0000
Subject: [PATCH 055/142] fix: capacity violation counts every facility

---
 .../builders/discrete_optimization/facility/facility_model.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/facility/facility_model.py b/skdecide/builders/discrete_optimization/facility/facility_model.py
index 3df6b88..6fe6432 100644
--- a/skdecide/builders/discrete_optimization/facility/facility_model.py
+++ b/skdecide/builders/discrete_optimization/facility/facility_model.py
@@ -61,7 +61,7 @@ class FacilityProblem(Problem):
         d = self.evaluate_cost(variable)
         capacity_constraint_violation = 0
         for f in d["details"]:
-            capacity_constraint_violation = max(d["details"][f]["capacity_used"]-self.facilities[f].capacity, 0)
+            capacity_constraint_violation += max(d["details"][f]["capacity_used"]-self.facilities[f].capacity, 0)
         d["capacity_constraint_violation"] = capacity_constraint_violation
         return d
 
-- 
2.43.0


From 98348a17723a7c0aa5f8aad60d6cda192650c9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:19 +0000
Subject: [PATCH 056/142] fix: facility solution moved to another problem
 forgets its evaluation

---
 .../builders/discrete_optimization/facility/facility_model.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/facility/facility_model.py b/skdecide/builders/discrete_optimization/facility/facility_model.py
index 6fe6432..725267e 100644
--- a/skdecide/builders/discrete_optimization/facility/facility_model.py
+++ b/skdecide/builders/discrete_optimization/facility/facility_model.py
@@ -39,7 +39,7 @@ class FacilitySolution(Solution):
     def change_problem(self, new_problem):
         self.__init__(problem=new_problem,
                       facility_for_customers=list(self.facility_for_customers),
-                      dict_details=deepcopy(self.dict_details))
+                      dict_details=None)
 
 class FacilityProblem(Problem):
     def __init__(self, facility_count: int,
-- 
2.43.0


From 8febe435a3a2be379c3227c1fd5a4b5cd5060c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:19 +0000
Subject: [PATCH 057/142] fix: routing solution moved to another problem
 forgets its evaluation

---
 skdecide/builders/discrete_optimization/vrp/vrp_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/vrp/vrp_model.py b/skdecide/builders/discrete_optimization/vrp/vrp_model.py
index 11d0ac5..1128bf7 100644
--- a/skdecide/builders/discrete_optimization/vrp/vrp_model.py
+++ b/skdecide/builders/discrete_optimization/vrp/vrp_model.py
@@ -49,8 +49,8 @@ class VrpSolution(Solution):
         self.__init__(problem=new_problem,
                       list_start_index=self.list_start_index,
                       list_end_index=self.list_end_index,
-                      list_paths=deepcopy(self.list_paths), lengths=deepcopy(self.lengths),
-                      length=self.length, capacities=deepcopy(self.capacities))
+                      list_paths=deepcopy(self.list_paths), lengths=None,
+                      length=None, capacities=None)
 
 
 class BasicCustomer:
-- 
2.43.0


From b20dcf92a411205425f789240edcf85b5d5c018f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:19 +0000
Subject: [PATCH 058/142] fix: pruned distance matrix keeps the distances

---
 skdecide/builders/discrete_optimization/vrp/vrp_toolbox.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/vrp/vrp_toolbox.py b/skdecide/builders/discrete_optimization/vrp/vrp_toolbox.py
index 22732c2..d868744 100644
--- a/skdecide/builders/discrete_optimization/vrp/vrp_toolbox.py
+++ b/skdecide/builders/discrete_optimization/vrp/vrp_toolbox.py
@@ -22,7 +22,7 @@ def compute_length_matrix(vrp_model: VrpProblem):
 def prune_search_space(vrp_model: VrpProblem,
                        n_shortest=10):
     closest, matrix_distance = compute_length_matrix(vrp_model)
-    matrix_adjacency = np.zeros(matrix_distance.shape, dtype=np.int)
+    matrix_adjacency = np.zeros(matrix_distance.shape)
     nb_customers = vrp_model.customer_count
     if n_shortest < nb_customers:
         for c in range(matrix_adjacency.shape[0]):
-- 
2.43.0


From 65eb48583cf2cdab39fae640ec3f49aaf3f93407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:34 +0000
Subject: [PATCH 059/142] fix: routing graph no longer relies on a removed
 networkx function

---
 skdecide/builders/discrete_optimization/vrp/vrp_toolbox.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/vrp/vrp_toolbox.py b/skdecide/builders/discrete_optimization/vrp/vrp_toolbox.py
index d868744..dfabadf 100644
--- a/skdecide/builders/discrete_optimization/vrp/vrp_toolbox.py
+++ b/skdecide/builders/discrete_optimization/vrp/vrp_toolbox.py
@@ -36,7 +36,7 @@ def prune_search_space(vrp_model: VrpProblem,
 def build_graph(vrp_model: VrpProblem):
     matrix_adjacency, matrix_distance = prune_search_space(vrp_model=vrp_model,
                                                            n_shortest=vrp_model.customer_count)
-    G = nx.from_numpy_matrix(matrix_adjacency, create_using=nx.DiGraph)
+    G = nx.from_numpy_array(matrix_adjacency, create_using=nx.DiGraph)
     G.add_edge(0, 0, weight=0)
     return G, matrix_distance
 
-- 
2.43.0


From 5a4e22fb02cac1641fcfb8556c0220c6780b698e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:13 +0000
Subject: [PATCH 060/142] fix: a task of duration zero gives its resources back

---
 skdecide/builders/scheduling/scheduling_domains.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index 2557166..04f5503 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -425,6 +425,9 @@ class SchedulingDomain(WithPrecedence,
                 next_state.tasks_progress[task] = 1
                 next_state.tasks_ongoing.remove(task)
                 next_state.tasks_details[task].end = next_state.t
+                for res in next_state.resource_used_for_task[task]:
+                    if self.is_renewable(res):
+                        next_state.resource_used[res] -= next_state.resource_used_for_task[task][res]
                 next_state.resource_used_for_task.pop(task)
         return next_state
 
@@ -440,6 +443,9 @@ class SchedulingDomain(WithPrecedence,
                     next_state.tasks_progress[task] = 1
                     next_state.tasks_ongoing.remove(task)
                     next_state.tasks_details[task].end = next_state.t
+                    for res in next_state.resource_used_for_task[task]:
+                        if self.is_renewable(res):
+                            next_state.resource_used[res] -= next_state.resource_used_for_task[task][res]
                     next_state.resource_used_for_task.pop(task)
         return next_states
 
-- 
2.43.0


From 27edbe91491cf23b1c7400d116f5ef8a094a7701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:54 +0000
Subject: [PATCH 061/142] fix: every mode in which a task can start or resume
 is offered

---
 skdecide/builders/scheduling/scheduling_domains.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index 04f5503..d3ec087 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -678,8 +678,10 @@ class SchedulingDomain(WithPrecedence,
                                                                           time=state.t) >= 0
                                                for key in self.get_resource_types_names())]
         # print("Possible task with ressource : ", possible_task_with_ressource)
-        return {n: {mode: self.get_task_modes(n)[mode].get_non_zero_ressource_need_names(0)}
-                for n, mode in possible_task_with_ressource}
+        possible = {}
+        for n, mode in possible_task_with_ressource:
+            possible.setdefault(n, {})[mode] = self.get_task_modes(n)[mode].get_non_zero_ressource_need_names(0)
+        return possible
 
     def get_possible_resume_tasks(self, state: State):
         possible_task_precedence = [(n, mode)
@@ -697,8 +699,10 @@ class SchedulingDomain(WithPrecedence,
                                                                           time=state.t) >= 0
                                                for key in self.get_resource_types_names())]
         # print("Possible task with ressource : ", possible_task_with_ressource)
-        return {n: {mode: self.get_task_modes(n)[mode].get_non_zero_ressource_need_names(0)}
-                for n, mode in possible_task_with_ressource}
+        possible = {}
+        for n, mode in possible_task_with_ressource:
+            possible.setdefault(n, {})[mode] = self.get_task_modes(n)[mode].get_non_zero_ressource_need_names(0)
+        return possible
 
     def state_is_overconsuming(self, state: State):
         return any(state.resource_used[k] > state.resource_availability[k] for k in state.resource_used)
-- 
2.43.0


From cb67e07a321fa6abc8a6e25d36f84fa44dd2c39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:16 +0000
Subject: [PATCH 062/142] fix: the need of a task about to start is its need at
 the start of its execution

---
 skdecide/builders/scheduling/scheduling_domains.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index d3ec087..9f5215e 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -675,7 +675,7 @@ class SchedulingDomain(WithPrecedence,
                                                state.resource_used[key] -
                                                self.get_task_modes(n)[mode]
                                                .get_resource_need_at_time(resource_name=key,
-                                                                          time=state.t) >= 0
+                                                                          time=0) >= 0
                                                for key in self.get_resource_types_names())]
         # print("Possible task with ressource : ", possible_task_with_ressource)
         possible = {}
-- 
2.43.0


From e6c85bfdcfebd93255ab2377224ec0872436dbac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:16 +0000
Subject: [PATCH 063/142] fix: consumption of a completed task is no longer
 read past its end

---
 skdecide/builders/scheduling/scheduling_domains.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index 9f5215e..ee432e6 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -234,8 +234,8 @@ class SchedulingDomain(WithPrecedence,
         next_state = state #.copy()
         if action.time_progress:
             next_state = self.update_progress(next_state)
-            next_state = self.update_res_consumption(next_state)
             next_state = self.update_complete_tasks(next_state)
+            next_state = self.update_res_consumption(next_state)
             next_state.t = state.t+1
         return next_state
 
@@ -244,8 +244,8 @@ class SchedulingDomain(WithPrecedence,
         next_states = DiscreteDistribution([(state, prob) for (state, prob) in states.get_values()])
         if action.time_progress:
             next_states = self.update_progress_uncertain(next_states)
-            next_states = self.update_res_consumption_uncertain(next_states)
             next_states = self.update_complete_tasks_uncertain(next_states)
+            next_states = self.update_res_consumption_uncertain(next_states)
             for next_state, _ in next_states.get_values():
                 next_state.t = next_state.t+1
         return next_states
@@ -256,8 +256,8 @@ class SchedulingDomain(WithPrecedence,
         next_state = state #.copy()
         if action.time_progress:
             next_state = self.update_progress_simulation(next_state)
-            next_state = self.update_res_consumption_simulation(next_state)
             next_state = self.update_complete_tasks_simulation(next_state)
+            next_state = self.update_res_consumption_simulation(next_state)
             next_state.t = state.t+1
         return next_state
 
-- 
2.43.0


From 130c5b2dcc4da3c4127ba56a30a778aeb8aeefbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:16 +0000
Subject: [PATCH 064/142] fix: whether a paused task returns its non renewable
 resources is a property of the task

---
 skdecide/builders/scheduling/scheduling_domains.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index ee432e6..d482d4e 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -466,7 +466,7 @@ class SchedulingDomain(WithPrecedence,
             for res in next_state.resource_used_for_task[paused_task]:
                 res_consumption = next_state.resource_used_for_task[paused_task][res]
                 if self.is_renewable(res) or (not self.is_renewable(res)
-                                              and self.get_task_paused_non_renewable_resource_returned()[res]):
+                                              and self.get_task_paused_non_renewable_resource_returned()[paused_task]):
                     next_state.resource_used[res] -= res_consumption
             next_state.resource_used_for_task.pop(paused_task)
             next_state.tasks_details[paused_task].paused.append(next_state.t)
-- 
2.43.0


From 37e1ce4d8633c80a6b1663db7b278c94d479cebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:16 +0000
Subject: [PATCH 065/142] fix: active time of a task that is currently paused

---
 skdecide/builders/scheduling/task.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/scheduling/task.py b/skdecide/builders/scheduling/task.py
index c86d367..0e0f6ec 100644
--- a/skdecide/builders/scheduling/task.py
+++ b/skdecide/builders/scheduling/task.py
@@ -41,7 +41,7 @@ class Task:
         time_since_start = tt - self.start
         time_paused = 0
         for i in range(len(self.paused)):
-            time_paused += self.resumed[i] - self.paused[i]
+            time_paused += (self.resumed[i] if i < len(self.resumed) else tt) - self.paused[i]
         total_active_time = time_since_start - time_paused
         return total_active_time
 
-- 
2.43.0


From a3840369b23a40e80cd98164bb2e726ea9c461dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:16 +0000
Subject: [PATCH 066/142] fix: a task that cannot be resumed stays paused

---
 skdecide/builders/scheduling/scheduling_domains.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index d482d4e..979360a 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -494,13 +494,16 @@ class SchedulingDomain(WithPrecedence,
             mode = action.mode  # use mode specified in action if any
             if mode is None:
                 mode = state.tasks_mode[resumed_task]  # or use previous mode
-            next_state.tasks_ongoing.add(resumed_task)
-            next_state.tasks_paused.remove(resumed_task)
-            next_state.tasks_details[resumed_task].resumed.append(next_state.t) # Need to call this before get_task_active_time()
-            time_since_start = next_state.tasks_details[resumed_task].get_task_active_time(next_state.t)
-            b, resource_to_use = self.check_if_action_can_be_started(next_state, action=action)
+            b, resource_to_use = self.check_if_action_can_be_started(
+                next_state, action=SchedulingAction(task=resumed_task, action=action.action, mode=mode,
+                                                    time_progress=action.time_progress,
+                                                    resource_unit_names=action.resource_unit_names))
             if not b:
                 return next_state
+            next_state.tasks_ongoing.add(resumed_task)
+            next_state.tasks_paused.remove(resumed_task)
+            next_state.tasks_mode[resumed_task] = mode
+            next_state.tasks_details[resumed_task].resumed.append(next_state.t)
             for res in resource_to_use:
                 next_state.resource_used[res] += resource_to_use[res]
             next_state.resource_used_for_task[resumed_task] = resource_to_use
-- 
2.43.0


From 48125bc7ca463043bae097bba886999659c41eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:45 +0000
Subject: [PATCH 067/142] fix: resuming is offered when, and only when, the
 task can be resumed

---
 .../builders/scheduling/scheduling_domains.py    | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index 979360a..bfeb6c9 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -691,7 +691,7 @@ class SchedulingDomain(WithPrecedence,
                                     for n in state.tasks_paused
                                     for mode in self.get_task_modes(n).keys()
                                     if all(m in state.tasks_complete
-                                           for m in self.ancestors[n])]
+                                           for m in set(self.ancestors[n]).intersection(self.get_available_tasks(state)))]
         # print("Possible task precedence : ", possible_task_precedence)
         possible_task_with_ressource = [(n, mode)
                                         for n, mode in possible_task_precedence
@@ -699,7 +699,8 @@ class SchedulingDomain(WithPrecedence,
                                                state.resource_used[key] -
                                                self.get_task_modes(n)[mode]
                                                .get_resource_need_at_time(resource_name=key,
-                                                                          time=state.t) >= 0
+                                                                          time=state.tasks_details[n]
+                                                                          .get_task_active_time(state.t)) >= 0
                                                for key in self.get_resource_types_names())]
         # print("Possible task with ressource : ", possible_task_with_ressource)
         possible = {}
@@ -932,11 +933,12 @@ class SchedulingActionSpace(EnumerableSpace[SchedulingAction], SamplableSpace[Sc
                                 for t in task_possible_to_pause
                                 if self.domain.get_task_preemptivity()[t]]
             if choice == SchedulingActionEnum.RESUME:
-                task_possible_to_resume = self.state.tasks_paused
+                task_possible_to_resume = self.domain.get_possible_resume_tasks(self.state)
                 list_action += [SchedulingAction(task=t, action=SchedulingActionEnum.RESUME,
                                                  mode=self.state.tasks_mode[t],
                                                  time_progress=False)
-                                for t in task_possible_to_resume]
+                                for t in task_possible_to_resume
+                                if self.state.tasks_mode[t] in task_possible_to_resume[t]]
             if choice == SchedulingActionEnum.TIME_PR:
                 list_action.append(SchedulingAction(task=None,
                                                     action=SchedulingActionEnum.TIME_PR,
@@ -994,15 +996,17 @@ class SchedulingActionSpaceWithResourceUnit(EnumerableSpace[SchedulingAction], S
                                 for t in task_possible_to_pause
                                 if self.domain.get_task_preemptivity()[t]]
             if choice == SchedulingActionEnum.RESUME:
-                task_possible_to_resume = self.state.tasks_paused
+                task_possible_to_resume = self.domain.get_possible_resume_tasks(self.state)
 
                 for possible_to_resume in task_possible_to_resume:
+                    if self.state.tasks_mode[possible_to_resume] not in task_possible_to_resume[possible_to_resume]:
+                        continue
                     possible = self.domain.find_one_ressource_to_do_one_task(task=possible_to_resume,
                                                                              mode=
                                                                              self.state.tasks_mode[possible_to_resume])
 
                     list_action += [SchedulingAction(task=possible_to_resume,
-                                                     action=SchedulingActionEnum.START,
+                                                     action=SchedulingActionEnum.RESUME,
                                                      mode=self.state.tasks_mode[possible_to_resume],
                                                      time_progress=False,
                                                      resource_unit_names={r} if r is not None else None)
-- 
2.43.0


From 16119c6ffea2a4576803d07afb6c8277b78c55d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:45 +0000
Subject: [PATCH 068/142] fix: a task whose resuming type is Restart starts
 again from scratch

---
 .../builders/scheduling/scheduling_domains.py | 28 +++++++++++++------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index bfeb6c9..0988de3 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -8,7 +8,7 @@ from skdecide.builders.domain import SingleAgent, Sequential, DeterministicTrans
 from skdecide.builders.scheduling.modes import SingleMode, MultiMode
 from skdecide.builders.scheduling.resource_consumption import VariableResourceConsumption, ConstantResourceConsumption
 from skdecide.builders.scheduling.precedence import WithPrecedence
-from skdecide.builders.scheduling.preemptivity import WithPreemptivity, WithoutPreemptivity
+from skdecide.builders.scheduling.preemptivity import WithPreemptivity, WithoutPreemptivity, ResumeType
 from skdecide.builders.scheduling.resource_type import WithResourceTypes, WithResourceUnits, WithoutResourceUnit
 from skdecide.builders.scheduling.resource_renewability import RenewableOnly, MixedRenewable
 from skdecide.builders.scheduling.scheduling_domains_modelling import SchedulingActionEnum, State, \
@@ -268,8 +268,8 @@ class SchedulingDomain(WithPrecedence,
             resource_to_use = self.get_resource_used(task=task_id,
                                                      mode=state.tasks_mode[task_id],
                                                      resource_unit_names=set(),
-                                                     time_since_start=
-                                                     state.tasks_details[task_id].get_task_active_time(state.t+1))
+                                                     time_since_start=self._get_time_since_start(state, task_id,
+                                                                                                 state.t+1))
             for r in resource_to_use:
                 prev = next_state.resource_used_for_task[task_id][r]
                 new = resource_to_use[r]
@@ -285,8 +285,8 @@ class SchedulingDomain(WithPrecedence,
                 resource_to_use = self.get_resource_used(task=task_id,
                                                          mode=next_state.tasks_mode[task_id],
                                                          resource_unit_names=set(),
-                                                         time_since_start=
-                                                         next_state.tasks_details[task_id].get_task_active_time(next_state.t+1))
+                                                         time_since_start=self._get_time_since_start(
+                                                             next_state, task_id, next_state.t+1))
                 for r in resource_to_use:
                     prev = next_state.resource_used_for_task[task_id][r]
                     new = resource_to_use[r]
@@ -504,6 +504,8 @@ class SchedulingDomain(WithPrecedence,
             next_state.tasks_paused.remove(resumed_task)
             next_state.tasks_mode[resumed_task] = mode
             next_state.tasks_details[resumed_task].resumed.append(next_state.t)
+            if self.get_task_resuming_type()[resumed_task] == ResumeType.Restart:
+                next_state.tasks_progress[resumed_task] = 0.
             for res in resource_to_use:
                 next_state.resource_used[res] += resource_to_use[res]
             next_state.resource_used_for_task[resumed_task] = resource_to_use
@@ -545,6 +547,14 @@ class SchedulingDomain(WithPrecedence,
         resumed."""
         return self.update_resume_tasks(state, action)
 
+    def _get_time_since_start(self, state: State, task: int, t: int) -> int:
+        """Return the time the task has been executed for at time t (since it was last restarted, for the tasks
+        that start again from scratch when they are resumed)."""
+        details = state.tasks_details[task]
+        if len(details.paused) > 0 and self.get_task_resuming_type()[task] == ResumeType.Restart:
+            return 0 if task in state.tasks_paused else t-details.resumed[-1]
+        return details.get_task_active_time(t)
+
     def check_if_action_can_be_started(self, state: State, action: SchedulingAction)->Tuple[bool, Dict[str, int]]:
         """Check if a start or resume action can be applied. It returns a boolean and a dictionary of resources to use.
         """
@@ -554,8 +564,8 @@ class SchedulingDomain(WithPrecedence,
         resource_to_use = self.get_resource_used(task=started_task,
                                                  mode=action.mode,
                                                  resource_unit_names=action.resource_unit_names,
-                                                 time_since_start=
-                                                 state.tasks_details[started_task].get_task_active_time(state.t))
+                                                 time_since_start=self._get_time_since_start(state, started_task,
+                                                                                             state.t))
         if any(resource_to_use[r] >
                state.resource_availability[r]-state.resource_used[r]
                for r in resource_to_use):
@@ -699,8 +709,8 @@ class SchedulingDomain(WithPrecedence,
                                                state.resource_used[key] -
                                                self.get_task_modes(n)[mode]
                                                .get_resource_need_at_time(resource_name=key,
-                                                                          time=state.tasks_details[n]
-                                                                          .get_task_active_time(state.t)) >= 0
+                                                                          time=self._get_time_since_start(
+                                                                              state, n, state.t)) >= 0
                                                for key in self.get_resource_types_names())]
         # print("Possible task with ressource : ", possible_task_with_ressource)
         possible = {}
-- 
2.43.0


From 7199ed281da886b75a2b09774271daffd8b218b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:45 +0000
Subject: [PATCH 069/142] fix: cost of the non renewable resources

---
 skdecide/builders/scheduling/scheduling_domains.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index 0988de3..0473380 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -808,14 +808,14 @@ class SchedulingDomain(WithPrecedence,
                 if self.is_renewable(res):
                     renewable_type_cost_val += self.get_resource_cost_per_time_unit()[res] * next_state.resource_used[res]
                 else:
-                    nonrenewable_type_cost_val += (next_state.resource_used[res] - memory[-1].resource_used[res])  # res used not decreased for NR resources so need to compute difference from previous state
+                    nonrenewable_type_cost_val += (next_state.resource_used[res] - memory.resource_used[res])  # res used not decreased for NR resources so need to compute difference from previous state
             renewable_unit_cost_val = 0.
             nonrenewable_unit_cost_val = 0.
             for res in self.get_resource_units_names():
                 if self.is_renewable(res):
                     renewable_unit_cost_val += self.get_resource_cost_per_time_unit()[res] * next_state.resource_used[res]
                 else:
-                    nonrenewable_unit_cost_val += (next_state.resource_used[res] - memory[-1].resource_used[res])  # res used not decreased for NR resources so need to compute difference from previous state
+                    nonrenewable_unit_cost_val += (next_state.resource_used[res] - memory.resource_used[res])  # res used not decreased for NR resources so need to compute difference from previous state
             transition_cost = mode_cost_val + renewable_type_cost_val + nonrenewable_type_cost_val + renewable_unit_cost_val + nonrenewable_unit_cost_val
 
         # TODO: Handle more than 1 objective in the transition value (need weights ?)
-- 
2.43.0


From 6b631a34019068687dde00d1b16fd86f30ce2513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:45 +0000
Subject: [PATCH 070/142] fix: renewable resources are paid for the time they
 are used

---
 skdecide/builders/scheduling/scheduling_domains.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index 0473380..b16ce37 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -804,16 +804,17 @@ class SchedulingDomain(WithPrecedence,
                 mode_cost_val += self.get_mode_costs()[action.task][action.mode]
             renewable_type_cost_val = 0.
             nonrenewable_type_cost_val = 0.
+            elapsed = next_state.t - memory.t
             for res in self.get_resource_types_names():
                 if self.is_renewable(res):
-                    renewable_type_cost_val += self.get_resource_cost_per_time_unit()[res] * next_state.resource_used[res]
+                    renewable_type_cost_val += self.get_resource_cost_per_time_unit()[res] * memory.resource_used[res] * elapsed
                 else:
                     nonrenewable_type_cost_val += (next_state.resource_used[res] - memory.resource_used[res])  # res used not decreased for NR resources so need to compute difference from previous state
             renewable_unit_cost_val = 0.
             nonrenewable_unit_cost_val = 0.
             for res in self.get_resource_units_names():
                 if self.is_renewable(res):
-                    renewable_unit_cost_val += self.get_resource_cost_per_time_unit()[res] * next_state.resource_used[res]
+                    renewable_unit_cost_val += self.get_resource_cost_per_time_unit()[res] * memory.resource_used[res] * elapsed
                 else:
                     nonrenewable_unit_cost_val += (next_state.resource_used[res] - memory.resource_used[res])  # res used not decreased for NR resources so need to compute difference from previous state
             transition_cost = mode_cost_val + renewable_type_cost_val + nonrenewable_type_cost_val + renewable_unit_cost_val + nonrenewable_unit_cost_val
-- 
2.43.0


From 2ced71c785aa8272038b231d1412b1306779e69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:00 +0000
Subject: [PATCH 071/142] fix: each on-completion distribution adds one
 condition, with its probability

---
 .../builders/scheduling/scheduling_domains.py | 47 +++++++------------
 1 file changed, 17 insertions(+), 30 deletions(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index b16ce37..bc34df6 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -360,15 +360,13 @@ class SchedulingDomain(WithPrecedence,
         next_states = DiscreteDistribution([(state, prob) for (state, prob) in states.get_values()])
 
         states_and_proba = []
-        for next_state, _ in next_states.get_values():
+        for next_state, state_proba in next_states.get_values():
             completed_tmp = []
             for task_id in next_state.tasks_ongoing:
                 if next_state.tasks_progress[task_id] >= 0.9999:
                     next_state.tasks_progress[task_id] = 1
                     completed_tmp.append(task_id)
 
-            all_values = []
-            all_models = {}
             for completed_task in completed_tmp:
                 next_state.tasks_complete.add(completed_task)
                 next_state.tasks_ongoing.remove(completed_task)
@@ -378,35 +376,24 @@ class SchedulingDomain(WithPrecedence,
                         next_state.resource_used[res] -= res_consumption
                 next_state.resource_used_for_task.pop(completed_task)
                 next_state.tasks_details[completed_task].end = next_state.t+1  # WARNING : considering how it's coded, we should put +1 here.
-                if completed_task in self.get_task_on_completion_added_conditions():
-                    all_models[completed_task] = []
-                    for i in range(len(self.get_task_on_completion_added_conditions()[completed_task])):
-                        for j in range(len(self.get_task_on_completion_added_conditions()[completed_task][i].get_values())):
-                            all_values.append({'task': completed_task,
-                                               'cond': self.get_task_on_completion_added_conditions()[completed_task][i]
-                                              .get_values()[j][0],
-                                               'prob': self.get_task_on_completion_added_conditions()[completed_task][i]
-                                              .get_values()[j][1]})
-                            all_models[completed_task].append(len(all_values)-1)
-
-            combinations = list(product(*all_models.values()))
-            # for comb in combinations:
-            #     next_state_2 = next_state.copy()
-            #     proba = 1.
-            #     for i in comb:
-            #         next_state_2._current_conditions.add(all_values[i]['cond'])
-            #         proba *= all_values[i]['prob']
-            #     states_and_proba += [(next_state_2, proba)]
-            for comb in combinations:
-                do_copy = len(comb) > 0
-                next_state_2 = next_state.copy() if do_copy else next_state
-                proba = 1.
-                for i in comb:
-                    next_state_2._current_conditions.add(all_values[i]['cond'])
-                    proba *= all_values[i]['prob']
-                states_and_proba += [(next_state_2, proba)]
+            states_and_proba += self._add_completion_conditions(next_state, state_proba, completed_tmp)
         return DiscreteDistribution(states_and_proba)
 
+    def _add_completion_conditions(self, state: State, proba: float, completed_tasks: List[int]):
+        """Return the possible states, with their probabilities, after each on-completion distribution of the given
+        tasks has added one condition to the given state (of given probability)."""
+        conditions = self.get_task_on_completion_added_conditions()
+        distributions = [distribution for task in completed_tasks for distribution in conditions.get(task, [])]
+        states_and_proba = []
+        for combination in product(*[distribution.get_values() for distribution in distributions]):
+            next_state = state.copy() if len(combination) > 0 else state
+            next_proba = proba
+            for condition, condition_proba in combination:
+                next_state._current_conditions.add(condition)
+                next_proba *= condition_proba
+            states_and_proba += [(next_state, next_proba)]
+        return states_and_proba
+
     def update_complete_tasks_simulation(self, state: State):
         """In a simulated scheduling environment, update the status of newly completed tasks in the state from ongoing to complete
         and update resource availability. This function will also log in task_details the time it was complete"""
-- 
2.43.0


From 83df264fb55f0eb69ced2f9c5a3e1faca763b6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:00 +0000
Subject: [PATCH 072/142] fix: a task of duration zero adds its on-completion
 conditions

---
 skdecide/builders/scheduling/scheduling_domains.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index bc34df6..19cd029 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -424,7 +424,8 @@ class SchedulingDomain(WithPrecedence,
         next_states = DiscreteDistribution([(state, prob) for (state, prob) in states.get_values()])
         if action.action == SchedulingActionEnum.START:
             task = action.task
-            for next_state, _ in next_states.get_values():
+            states_and_proba = []
+            for next_state, state_proba in next_states.get_values():
                 if next_state.tasks_details[task].sampled_duration == 0:
                     next_state.tasks_complete.add(task)
                     next_state.tasks_progress[task] = 1
@@ -434,12 +435,16 @@ class SchedulingDomain(WithPrecedence,
                         if self.is_renewable(res):
                             next_state.resource_used[res] -= next_state.resource_used_for_task[task][res]
                     next_state.resource_used_for_task.pop(task)
+                    states_and_proba += self._add_completion_conditions(next_state, state_proba, [task])
+                else:
+                    states_and_proba += [(next_state, state_proba)]
+            return DiscreteDistribution(states_and_proba)
         return next_states
 
     def update_complete_dummy_tasks_simulation(self, state: State, action: SchedulingAction):
         """In a simulated scheduling environment, update the status of newly started tasks whose duration is 0
         from ongoing to complete."""
-        return self.update_complete_dummy_tasks(state, action)
+        return self.update_complete_dummy_tasks_uncertain(DiscreteDistribution([(state, 1.)]), action).sample()
 
     def update_pause_tasks(self, state: State, action: SchedulingAction):
         """Update the status of a task from ongoing to paused if specified in the action
-- 
2.43.0


From 5ea114b86d869a7218328c5ad82c4404fda62cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:00 +0000
Subject: [PATCH 073/142] fix: a conditional task remains to be done as soon as
 its conditions are met

---
 .../builders/scheduling/scheduling_domains.py | 22 +++++++++----------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index 19cd029..83025b8 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -95,8 +95,8 @@ class SchedulingDomain(WithPrecedence,
         next_state = self.update_resume_tasks_simulation(next_state, action)
         next_state = self.update_start_tasks_simulation(next_state, action)
         next_state = self.update_complete_dummy_tasks_simulation(next_state, action)
-        next_state = self.update_conditional_tasks_simulation(next_state, action)
         next_state = self.update_time_simulation(next_state, action)
+        next_state = self.update_conditional_tasks_simulation(next_state, action)
         next_state = self.update_resource_availability_simulation(next_state,
                                                                   action)
         is_terminal = self._is_terminal(next_state)
@@ -117,8 +117,8 @@ class SchedulingDomain(WithPrecedence,
         next_state = self.update_resume_tasks_uncertain(next_state, action)
         next_state_distrib = self.update_start_tasks_uncertain(next_state, action)
         next_state_distrib = self.update_complete_dummy_tasks_uncertain(next_state_distrib, action)
-        next_state_distrib = self.update_conditional_tasks_uncertain(next_state_distrib, action)
         next_state_distrib = self.update_time_uncertain(next_state_distrib, action)
+        next_state_distrib = self.update_conditional_tasks_uncertain(next_state_distrib, action)
         next_state_distrib = self.update_resource_availability_uncertain(next_state_distrib,
                                                                          action)  # maybe this should be done after self.update_time too ??
         return next_state_distrib
@@ -135,8 +135,8 @@ class SchedulingDomain(WithPrecedence,
         next_state = self.update_resume_tasks(next_state, action)
         next_state = self.update_start_tasks(next_state, action)
         next_state = self.update_complete_dummy_tasks(next_state, action)
-        next_state = self.update_conditional_tasks(next_state, action)
         next_state = self.update_time(next_state, action)
+        next_state = self.update_conditional_tasks(next_state, action)
         next_state = self.update_resource_availability(next_state, action)  # maybe this should be done after self.update_time too ??
 
         return next_state
@@ -759,15 +759,13 @@ class SchedulingDomain(WithPrecedence,
         """Update remaining tasks by checking conditions and potentially adding conditional tasks."""
         next_states = DiscreteDistribution([(state, prob) for (state, prob) in states.get_values()])
 
-        if action.time_progress:
-            for next_state, _ in next_states.get_values():
-                all_available_tasks = self.get_available_tasks(next_state)
-                all_considered_tasks = next_state.tasks_remaining.union(next_state.tasks_ongoing).union(
-                    next_state.tasks_progress).union(next_state.tasks_complete)
-                new_tasks = all_available_tasks.symmetric_difference(all_considered_tasks)
-                for task in new_tasks:
-                    next_state.tasks_remaining.add(task)
-            return next_states
+        for next_state, _ in next_states.get_values():
+            all_available_tasks = self.get_available_tasks(next_state)
+            all_considered_tasks = next_state.tasks_remaining.union(next_state.tasks_ongoing).union(
+                next_state.tasks_progress).union(next_state.tasks_complete)
+            new_tasks = all_available_tasks.difference(all_considered_tasks)
+            for task in new_tasks:
+                next_state.tasks_remaining.add(task)
         return next_states
 
     def update_conditional_tasks_simulation(self, state: State, action: SchedulingAction):
-- 
2.43.0


From 06255e349eb08b5cd797d2d480ebee60b6bb51f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:00 +0000
Subject: [PATCH 074/142] fix: the possible outcomes of a start do not share
 their resources

---
 skdecide/builders/scheduling/scheduling_domains.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index 83025b8..8160e9d 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -595,7 +595,7 @@ class SchedulingDomain(WithPrecedence,
             next_state.tasks_ongoing.add(started_task)
             next_state.tasks_remaining.remove(started_task)
             next_state.tasks_details[started_task].start = next_state.t
-            next_state.tasks_details[started_task].resources = resource_to_use
+            next_state.tasks_details[started_task].resources = dict(resource_to_use)
             next_state.tasks_details[started_task].sampled_duration = \
                 self.get_latest_sampled_duration(task=started_task, mode=mode, progress_from=0.)  # TODO: what to do with this, so far the sample is stored and then used by get_task_progress()
             for res in resource_to_use:
@@ -627,10 +627,11 @@ class SchedulingDomain(WithPrecedence,
                 next_state.tasks_ongoing.add(started_task)
                 next_state.tasks_remaining.remove(started_task)
                 next_state.tasks_details[started_task].start = next_state.t
+                next_state.tasks_details[started_task].resources = dict(resource_to_use)
                 next_state.tasks_details[started_task].sampled_duration = value_duration[0]
                 for res in resource_to_use:
                     next_state.resource_used[res] += resource_to_use[res]
-                next_state.resource_used_for_task[started_task] = resource_to_use
+                next_state.resource_used_for_task[started_task] = dict(resource_to_use)
                 next_state.tasks_progress[started_task] = 0.
 
                 states_and_proba += [(next_state, value_duration[1])]
-- 
2.43.0


From e98243659961d96b32cb23e96ddb1296f81bff3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:57 +0000
Subject: [PATCH 075/142] fix: stochastic RCPSP keeps its non renewable
 resources

---
 skdecide/hub/domain/rcpsp/rcpsp_sk.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/skdecide/hub/domain/rcpsp/rcpsp_sk.py b/skdecide/hub/domain/rcpsp/rcpsp_sk.py
index 59ea74a..d240fc1 100644
--- a/skdecide/hub/domain/rcpsp/rcpsp_sk.py
+++ b/skdecide/hub/domain/rcpsp/rcpsp_sk.py
@@ -206,6 +206,14 @@ class Stochastic_RCPSP(MultiModeRCPSP_Stochastic_Durations):
     def _get_resource_types_names(self) -> List[str]:
         return self.resource_names
 
+    def _get_resource_renewability(self) -> Dict[str, bool]:
+        if self.resource_renewable is None:
+            return super()._get_resource_renewability()
+        return self.resource_renewable
+
+    def is_renewable(self, resource: str):
+        return self.get_resource_renewability()[resource]
+
     def __init__(self,
                  resource_names: List[str]=None,
                  task_ids: List[int]=None,
-- 
2.43.0


From b9ae478e7126f66c5259ae2e600111ef8724a95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:05 +0000
Subject: [PATCH 076/142] fix: original quantities of the resources with a
 calendar

---
 skdecide/hub/domain/rcpsp/rcpsp_sk.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/skdecide/hub/domain/rcpsp/rcpsp_sk.py b/skdecide/hub/domain/rcpsp/rcpsp_sk.py
index d240fc1..26fd766 100644
--- a/skdecide/hub/domain/rcpsp/rcpsp_sk.py
+++ b/skdecide/hub/domain/rcpsp/rcpsp_sk.py
@@ -334,6 +334,9 @@ class SMRCPSPCalendar(D):
         self.successors = successors
         self.max_horizon = max_horizon
         self.resource_availability = resource_availability
+        self.original_resource_availability = {r: max(self.resource_availability[r])
+                                               for r in self.resource_availability}
+
         self.resource_renewable = resource_renewable
         self.duration_distribution = duration_distribution
         self.initialize_domain()
@@ -503,6 +506,9 @@ class MSRCPSPCalendar(D):
         self.successors = successors
         self.max_horizon = max_horizon
         self.resource_availability = resource_availability
+        self.original_resource_availability = {r: max(self.resource_availability[r])
+                                               for r in self.resource_availability}
+
         self.resource_renewable = resource_renewable
         self.initialize_domain()
 
@@ -534,7 +540,7 @@ class MSRCPSPCalendar(D):
         return self.duration_dict[task][mode]
 
     def _get_original_quantity_resource(self, resource: str, **kwargs) -> int:
-        return self.resource_availability[resource]
+        return self.original_resource_availability[resource]
 
     def _get_resource_renewability(self) -> Dict[str, bool]:
         return self.resource_renewable
-- 
2.43.0


From edc8affa4e3fe7da6a740c0475a67a5176d60c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:42 +0000
Subject: [PATCH 077/142] fix: scheduling states with the same content are
 equal

---
 .../scheduling/scheduling_domains_modelling.py        | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains_modelling.py b/skdecide/builders/scheduling/scheduling_domains_modelling.py
index 925823a..3a44750 100644
--- a/skdecide/builders/scheduling/scheduling_domains_modelling.py
+++ b/skdecide/builders/scheduling/scheduling_domains_modelling.py
@@ -19,6 +19,15 @@ class SchedulingActionEnum(Enum):
     TIME_PR = 3
 
 
+def _ordered_str(value: Any) -> str:
+    """String of a value where sets and dictionaries are ordered by content rather than by insertion."""
+    if isinstance(value, dict):
+        return "{"+", ".join(sorted(repr(k)+": "+_ordered_str(v) for k, v in value.items()))+"}"
+    if isinstance(value, (set, frozenset)):
+        return "{"+", ".join(sorted(repr(v) for v in value))+"}"
+    return str(value)
+
+
 class State:
     """Class modelling a scheduling state and used by sk-decide scheduling domains.
 
@@ -119,7 +128,7 @@ class State:
                 for key2 in sorted(self.tasks_details.keys()):
                     s += str(self.tasks_details[key2])+"\t"
             else:
-                s += str(key)+":"+str(getattr(self, key))+"\n"
+                s += str(key)+":"+_ordered_str(getattr(self, key))+"\n"
         return s
 
     def __repr__(self):
-- 
2.43.0


From 0db02ee37a399d3cc36d92e9d3927f193ed1d462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:42 +0000
Subject: [PATCH 078/142] fix: scheduling actions with the same content are
 equal

---
 .../scheduling/scheduling_domains_modelling.py         | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/skdecide/builders/scheduling/scheduling_domains_modelling.py b/skdecide/builders/scheduling/scheduling_domains_modelling.py
index 3a44750..1fb0e9d 100644
--- a/skdecide/builders/scheduling/scheduling_domains_modelling.py
+++ b/skdecide/builders/scheduling/scheduling_domains_modelling.py
@@ -212,3 +212,13 @@ class SchedulingAction:
 
     def __repr__(self):
         return str(self)
+
+    def _key(self):
+        units = None if self.resource_unit_names is None else frozenset(self.resource_unit_names)
+        return self.task, self.action, self.mode, self.time_progress, units
+
+    def __hash__(self):
+        return hash(self._key())
+
+    def __eq__(self, other):
+        return isinstance(other, SchedulingAction) and self._key() == other._key()
-- 
2.43.0


From e3f42834569fd96b975a1cec69f36ddb36958f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:30 +0000
Subject: [PATCH 079/142] fix: only the resources used by a task bring their
 skills

---
 skdecide/builders/scheduling/skills.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skdecide/builders/scheduling/skills.py b/skdecide/builders/scheduling/skills.py
index 23cdb50..5203fc0 100644
--- a/skdecide/builders/scheduling/skills.py
+++ b/skdecide/builders/scheduling/skills.py
@@ -38,7 +38,7 @@ class WithResourceSkills:
 
     def get_skills_of_resource(self, resource: str) -> Dict[str, Any]:
         """ Return the skills of a given resource"""
-        return self.get_all_resources_skills()[resource]
+        return self.get_all_resources_skills().get(resource, {})
 
     def get_all_tasks_skills(self) -> Dict[int, Dict[int, Dict[str, Any]]]:
         """ Return a nested dictionary where the first key is the name of a task
@@ -80,6 +80,8 @@ class WithResourceSkills:
             return True  # No need of skills here.
         skills = {s: 0 for s in skill_of_task}
         for r in resource_used:
+            if resource_used[r] <= 0:
+                continue
             skill_of_ressource = self.get_skills_of_resource(resource=r)
             for s in skill_of_ressource:
                 if s in skills:
-- 
2.43.0


From 4e9d63a5711b5a8633b1066db514e5553d0ac823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:30 +0000
Subject: [PATCH 080/142] fix: time lag without maximum

---
 skdecide/builders/scheduling/time_lag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/scheduling/time_lag.py b/skdecide/builders/scheduling/time_lag.py
index 83e71d8..c40f1d3 100644
--- a/skdecide/builders/scheduling/time_lag.py
+++ b/skdecide/builders/scheduling/time_lag.py
@@ -17,7 +17,7 @@ class MinimumOnlyTimeLag(TimeLag):
 
     def __init__(self, minimum_time_lag):
         self.minimum_time_lag = minimum_time_lag
-        self.maximum_time_lags = self.get_max_horizon()
+        self.maximum_time_lags = float("inf")
 
 
 class MaximumOnlyTimeLag(TimeLag):
-- 
2.43.0


From e8bb3c1245b46a1ccd348e9fc12d685f170d4758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:30 +0000
Subject: [PATCH 081/142] fix: durations from a given progress of the task

---
 skdecide/builders/scheduling/task_duration.py | 24 +++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/skdecide/builders/scheduling/task_duration.py b/skdecide/builders/scheduling/task_duration.py
index b42e9d2..531eb1b 100644
--- a/skdecide/builders/scheduling/task_duration.py
+++ b/skdecide/builders/scheduling/task_duration.py
@@ -44,7 +44,7 @@ class UncertainMultivariateTaskDuration(SimulatedTaskDuration):
     def _sample_task_duration(self, task: int, mode: Optional[int] = 1, progress_from: Optional[float]=0.) -> int:
         """Return a task duration for the given task in the given mode,
         sampled from the underlying multiivariate distribution."""
-        return self.get_task_duration_distribution(task, mode).sample()
+        return self.get_task_duration_distribution(task, mode, progress_from).sample()
 
     def get_task_duration_distribution(self, task: int, mode: Optional[int] = 1, progress_from: Optional[float]=0.,
                                        multivariate_settings: Optional[Dict[str, int]] = None) -> Distribution:
@@ -65,7 +65,7 @@ class UncertainUnivariateTaskDuration(UncertainMultivariateTaskDuration):
     def _sample_task_duration(self, task: int, mode: Optional[int] = 1, progress_from: Optional[float]=0.) -> int:
         """Return a task duration for the given task in the given mode,
         sampled from the underlying univariate distribution."""
-        return self.get_task_duration_distribution(task, mode).sample()
+        return self.get_task_duration_distribution(task, mode, progress_from).sample()
 
     def _get_task_duration_distribution(self, task: int, mode: Optional[int] = 1,
                                         progress_from: Optional[float]=0.,
@@ -81,7 +81,7 @@ class UncertainBoundedTaskDuration(UncertainUnivariateTaskDuration):
     def _sample_task_duration(self, task: int, mode: Optional[int] = 1, progress_from: Optional[float]=0.) -> int:
         """Return a task duration for the given task in the given mode,
         sampled from the underlying univariate bounded distribution."""
-        return self.get_task_duration_distribution(task, mode).sample()
+        return self.get_task_duration_distribution(task, mode, progress_from).sample()
 
     def _get_task_duration_distribution(self, task: int, mode: Optional[int] = 1, progress_from: Optional[float]=0.,
                                         multivariate_settings: Optional[Dict[str, int]] = None) -> DiscreteDistribution:
@@ -113,14 +113,14 @@ class UniformBoundedTaskDuration(UncertainBoundedTaskDuration):
     def _sample_task_duration(self, task: int, mode: Optional[int] = 1, progress_from: Optional[float]=0.) -> int:
         """Return a task duration for the given task in the given mode,
         sampled from the underlying univariate uniform bounded distribution."""
-        return self.get_task_duration_distribution(task, mode).sample()
+        return self.get_task_duration_distribution(task, mode, progress_from).sample()
 
     def _get_task_duration_distribution(self, task: int, mode: Optional[int] = 1, progress_from: Optional[float]=0.,
                                         multivariate_settings: Optional[Dict[str, int]] = None) -> DiscreteDistribution:
         """Return the Distribution of the duration of the given task in the given mode.
         The distribution is uniform between the defined lower and upper bounds."""
-        lb = self.get_task_duration_lower_bound(task, mode)
-        ub = self.get_task_duration_upper_bound(task, mode)
+        lb = self.get_task_duration_lower_bound(task, mode, progress_from)
+        ub = self.get_task_duration_upper_bound(task, mode, progress_from)
         n_vals = ub - lb + 1
         p = 1.0 / float(n_vals)
         values = [(x, p) for x in range(lb, ub+1)]
@@ -140,7 +140,7 @@ class EnumerableTaskDuration(UncertainBoundedTaskDuration):
 
     def _sample_task_duration(self, task: int, mode: Optional[int] = 1, progress_from: Optional[float]=0.) -> int:
         """Return a task duration for the given task in the given mode."""
-        return self.get_task_duration_distribution(task, mode).sample()
+        return self.get_task_duration_distribution(task, mode, progress_from).sample()
 
     def _get_task_duration_distribution(self, task: int, mode: Optional[int] = 1, progress_from: Optional[float]=0.,
                                         multivariate_settings: Optional[Dict[str, int]] = None) -> DiscreteDistribution:
@@ -150,12 +150,12 @@ class EnumerableTaskDuration(UncertainBoundedTaskDuration):
 
     def _get_task_duration_upper_bound(self, task: int, mode: Optional[int] = 1, progress_from: Optional[float]=0.) -> int:
         """Return the upper bound for the task duration of the given task in the given mode."""
-        duration_vals = [x[0] for x in self.get_task_duration_distribution(task, mode).get_values()]
+        duration_vals = [x[0] for x in self.get_task_duration_distribution(task, mode, progress_from).get_values()]
         return max(duration_vals)
 
     def _get_task_duration_lower_bound(self, task: int, mode: Optional[int] = 1, progress_from: Optional[float]=0.) -> int:
         """Return the lower bound for the task duration of the given task in the given mode."""
-        duration_vals = [x[0] for x in self.get_task_duration_distribution(task, mode).get_values()]
+        duration_vals = [x[0] for x in self.get_task_duration_distribution(task, mode, progress_from).get_values()]
         return min(duration_vals)
 
 
@@ -178,12 +178,12 @@ class DeterministicTaskDuration(EnumerableTaskDuration):
                                         multivariate_settings: Optional[Dict[str, int]] = None):
         """Return the Distribution of the duration of the given task in the given mode.
         Because the duration is deterministic, the distribution always returns the same duration."""
-        return DiscreteDistribution([(self.get_task_duration(task, mode), 1)])
+        return DiscreteDistribution([(self.get_task_duration(task, mode, progress_from), 1)])
 
     def _get_task_duration_upper_bound(self, task: int, mode: Optional[int] = 1, progress_from: Optional[float]=0.) -> int:
         """Return the upper bound for the task duration of the given task in the given mode."""
-        return self.get_task_duration(task, mode)
+        return self.get_task_duration(task, mode, progress_from)
 
     def _get_task_duration_lower_bound(self, task: int, mode: Optional[int] = 1, progress_from: Optional[float]=0.) -> int:
         """Return the lower bound for the task duration of the given task in the given mode."""
-        return self.get_task_duration(task, mode)
+        return self.get_task_duration(task, mode, progress_from)
-- 
2.43.0


From cbaa930d232cf038a1cd0cef11f11a3d8dd842e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:30 +0000
Subject: [PATCH 082/142] fix: action space of a domain with resource units
 contains its applicable actions only

---
 .../builders/scheduling/scheduling_domains.py   | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index 8160e9d..6393d11 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -1052,7 +1052,8 @@ class SchedulingActionSpaceWithResourceUnitSamplable(SamplableSpace[SchedulingAc
                                              Dict[int, List[str]]] = self.domain.get_possible_resume_tasks(self.state)
             task_modes = [(t, m)
                           for t in task_possible_to_start
-                          for m in task_possible_to_start[t]]
+                          for m in task_possible_to_start[t]
+                          if random_choice == SchedulingActionEnum.START or m == self.state.tasks_mode[t]]
             if len(task_modes) > 0:
                 random_ch = random.choice(task_modes)
                 possible_to_start = random_ch[0]
@@ -1118,7 +1119,19 @@ class SchedulingActionSpaceWithResourceUnitSamplable(SamplableSpace[SchedulingAc
                                     time_progress=True)
 
     def contains(self, x: T) -> bool:
-        return True
+        if x.action == SchedulingActionEnum.TIME_PR:
+            return True
+        if x.action == SchedulingActionEnum.PAUSE:
+            return x.task in self.state.tasks_ongoing and self.domain.get_task_preemptivity()[x.task]
+        if self.domain.state_is_overconsuming(self.state):
+            return False
+        if x.action == SchedulingActionEnum.START:
+            possible = self.domain.get_possible_starting_tasks(self.state)
+        else:
+            possible = self.domain.get_possible_resume_tasks(self.state)
+            if x.mode != self.state.tasks_mode.get(x.task, None):
+                return False
+        return x.mode in possible.get(x.task, {}) and self.domain.check_if_action_can_be_started(self.state, x)[0]
 
 
 class SingleModeRCPSP(DeterministicSchedulingDomain,
-- 
2.43.0


From 330f0786060c27fa4b583fc3d96cbdab7cc657be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:28 +0000
Subject: [PATCH 083/142] fix: the pile policy waits with an action that the
 domain offers

---
 skdecide/hub/solver/pile_policy/pile_policy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/hub/solver/pile_policy/pile_policy.py b/skdecide/hub/solver/pile_policy/pile_policy.py
index 08a4b52..8e891ea 100644
--- a/skdecide/hub/solver/pile_policy/pile_policy.py
+++ b/skdecide/hub/solver/pile_policy/pile_policy.py
@@ -83,7 +83,7 @@ class PilePolicy(Solver, DeterministicPolicies):
                                     action=SchedulingActionEnum.START,
                                     time_progress=False)
         else:
-            return SchedulingAction(task=None, mode=1,
+            return SchedulingAction(task=None, mode=None,
                                     action=SchedulingActionEnum.TIME_PR,
                                     time_progress=True)
 
-- 
2.43.0


From 8bd20a03f8c51dd250bfe950ba8aadb0b4b0233f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:28 +0000
Subject: [PATCH 084/142] fix: a predecessor whose conditions are not met is
 not waited for

---
 skdecide/builders/scheduling/precedence.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/scheduling/precedence.py b/skdecide/builders/scheduling/precedence.py
index 82d54b2..98cfba0 100644
--- a/skdecide/builders/scheduling/precedence.py
+++ b/skdecide/builders/scheduling/precedence.py
@@ -56,7 +56,7 @@ class WithPrecedence:
                 for n in state.tasks_remaining
                 for mode in self.get_task_modes(n).keys()
                 if all(m in state.tasks_complete
-                       for m in self.ancestors[n])]
+                       for m in set(self.ancestors[n]).intersection(self.get_available_tasks(state)))]
 
     def task_modes_possible_to_launch(self, state: State):
         return self._task_modes_possible_to_launch(state=state)
@@ -65,7 +65,7 @@ class WithPrecedence:
         return [n
                 for n in state.tasks_remaining
                 if all(m in state.tasks_complete
-                       for m in self.ancestors[n])]
+                       for m in set(self.ancestors[n]).intersection(self.get_available_tasks(state)))]
 
     def task_possible_to_launch_precedence(self, state: State):
         return self._task_possible_to_launch_precedence(state=state)
-- 
2.43.0


From 48a217b4e27ae49924d9ac7d4d0ac63a3b7d72f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:28 +0000
Subject: [PATCH 085/142] fix: evaluating scheduling policies leaves the domain
 as it was

---
 .../hub/solver/meta_policy/meta_policies.py   | 30 +++++++++++--------
 .../policy_evaluators/policy_evaluator.py     | 16 ++++++----
 2 files changed, 27 insertions(+), 19 deletions(-)

diff --git a/skdecide/hub/solver/meta_policy/meta_policies.py b/skdecide/hub/solver/meta_policy/meta_policies.py
index 618a1f7..63b0ed8 100644
--- a/skdecide/hub/solver/meta_policy/meta_policies.py
+++ b/skdecide/hub/solver/meta_policy/meta_policies.py
@@ -28,22 +28,26 @@ class MetaPolicy(DeterministicPolicies):
     def _get_next_action(self, observation: D.T_agent[D.T_observation]) -> D.T_agent[D.T_concurrency[D.T_event]]:
         results = {}
         actions_map = {}
-        self.known_domain.set_inplace_environment(True)
         actions_c = [self.policies[method].get_next_action(observation)
                      for method in self.policies]
         if len(set(actions_c)) > 1:
-            for method in self.policies:
-                results[method] = 0.
-                for j in range(self.nb_rollout_estimation):
-                    states, actions, values = rollout_episode(domain=self.known_domain,
-                                                              solver=self.policies[method],
-                                                              outcome_formatter=None,
-                                                              action_formatter=None,
-                                                              verbose=False,
-                                                              from_memory=observation.copy())
-                    # cost = sum(v.cost for v in values)
-                    results[method] += states[-1].t-observation.t # TODO, this is a trick...
-                    actions_map[method] = actions[0]
+            inplace = self.known_domain.inplace_environment
+            self.known_domain.set_inplace_environment(True)
+            try:
+                for method in self.policies:
+                    results[method] = 0.
+                    for j in range(self.nb_rollout_estimation):
+                        states, actions, values = rollout_episode(domain=self.known_domain,
+                                                                  solver=self.policies[method],
+                                                                  outcome_formatter=None,
+                                                                  action_formatter=None,
+                                                                  verbose=False,
+                                                                  from_memory=observation.copy())
+                        # cost = sum(v.cost for v in values)
+                        results[method] += states[-1].t-observation.t # TODO, this is a trick...
+                        actions_map[method] = actions[0]
+            finally:
+                self.known_domain.set_inplace_environment(inplace)
             if self.verbose:
                 # print(results)
                 print(actions_map[min(results, key=lambda x: results[x])])
diff --git a/skdecide/hub/solver/policy_evaluators/policy_evaluator.py b/skdecide/hub/solver/policy_evaluators/policy_evaluator.py
index 145135a..cf52bf2 100644
--- a/skdecide/hub/solver/policy_evaluators/policy_evaluator.py
+++ b/skdecide/hub/solver/policy_evaluators/policy_evaluator.py
@@ -152,13 +152,17 @@ def rollout_based_policy_estimation_fast_scheduling(domain: SchedulingDomain,
     s = domain.get_initial_state()
     summed_value[s] = 0
     nb_visit_dict[s] = 0
+    inplace = domain.inplace_environment
     domain.set_inplace_environment(True)
-    for rollout in range(nb_rollout):
-        states, summed_value_rollout, values, actions = my_custom_rollout(domain,
-                                                                          s.copy(),
-                                                                          policy)
-        summed_value[s] += states[-1].t-s.t
-        nb_visit_dict[s] += 1
+    try:
+        for rollout in range(nb_rollout):
+            states, summed_value_rollout, values, actions = my_custom_rollout(domain,
+                                                                              s.copy(),
+                                                                              policy)
+            summed_value[s] += states[-1].t-s.t
+            nb_visit_dict[s] += 1
+    finally:
+        domain.set_inplace_environment(inplace)
     final_value = {st: summed_value[st]/nb_visit_dict[st] for st in summed_value}
     return final_value, policy_dict, preds, succs
 
-- 
2.43.0


From a74104c3da787cd3485d5f5e4b17247a8c0067d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:28 +0000
Subject: [PATCH 086/142] fix: the meta policy does not prefer a policy that
 fails

---
 skdecide/hub/solver/meta_policy/meta_policies.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/skdecide/hub/solver/meta_policy/meta_policies.py b/skdecide/hub/solver/meta_policy/meta_policies.py
index 63b0ed8..7fea0b6 100644
--- a/skdecide/hub/solver/meta_policy/meta_policies.py
+++ b/skdecide/hub/solver/meta_policy/meta_policies.py
@@ -44,7 +44,11 @@ class MetaPolicy(DeterministicPolicies):
                                                                   verbose=False,
                                                                   from_memory=observation.copy())
                         # cost = sum(v.cost for v in values)
-                        results[method] += states[-1].t-observation.t # TODO, this is a trick...
+                        end = states[-1].t
+                        if not self.known_domain.is_goal(states[-1]):
+                            # a rollout that does not finish the project is worse than any that does.
+                            end = max(end, self.known_domain.get_max_horizon()+1)
+                        results[method] += end-observation.t # TODO, this is a trick...
                         actions_map[method] = actions[0]
             finally:
                 self.known_domain.set_inplace_environment(inplace)
-- 
2.43.0


From e5c8ac906192ebadfcb68894def63e390745a597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:44 +0000
Subject: [PATCH 087/142] fix: changing the modes of an RCPSP solution changes
 its schedule

---
 skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
index 517d25b..79b45f1 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
@@ -37,7 +37,6 @@ class RCPSPSolution(Solution):
         self.problem = problem
         self.rcpsp_permutation = rcpsp_permutation
         self.rcpsp_schedule = rcpsp_schedule
-        self._schedule_to_recompute = rcpsp_schedule is None
         self.rcpsp_modes = rcpsp_modes
         self.rcpsp_schedule_feasible = rcpsp_schedule_feasible
         self.standardised_permutation = standardised_permutation
@@ -49,6 +48,7 @@ class RCPSPSolution(Solution):
             else:
             # elif isinstance(self.problem, MultiModeRCPSPModel):
                 self.rcpsp_modes = self.problem.fixed_modes
+        self._schedule_to_recompute = rcpsp_schedule is None
 
         if self.rcpsp_permutation is None:
             if isinstance(self.problem, MultiModeRCPSPModel):
@@ -75,7 +75,7 @@ class RCPSPSolution(Solution):
 
     def __setattr__(self, key, value):
         super.__setattr__(self, key, value)
-        if key == "rcpsp_permutation":
+        if key in ("rcpsp_permutation", "rcpsp_modes"):
             self._schedule_to_recompute = True
 
     def copy(self):
-- 
2.43.0


From 201a8c67b0106fa3a8173cd18ab9dd9bdf2bd2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:44 +0000
Subject: [PATCH 088/142] fix: a copy of a changed RCPSP solution still has its
 schedule to recompute

---
 .../rcpsp/rcpsp_model.py                      | 28 +++++++++++--------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
index 79b45f1..6081dfd 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
@@ -79,20 +79,24 @@ class RCPSPSolution(Solution):
             self._schedule_to_recompute = True
 
     def copy(self):
-        return RCPSPSolution(problem=self.problem,
-                             rcpsp_permutation=deepcopy(self.rcpsp_permutation),
-                             rcpsp_modes=deepcopy(self.rcpsp_modes),
-                             rcpsp_schedule=self.rcpsp_schedule,
-                             rcpsp_schedule_feasible=self.rcpsp_schedule_feasible,
-                             standardised_permutation=self.standardised_permutation)
+        sol = RCPSPSolution(problem=self.problem,
+                            rcpsp_permutation=deepcopy(self.rcpsp_permutation),
+                            rcpsp_modes=deepcopy(self.rcpsp_modes),
+                            rcpsp_schedule=deepcopy(self.rcpsp_schedule),
+                            rcpsp_schedule_feasible=self.rcpsp_schedule_feasible,
+                            standardised_permutation=self.standardised_permutation)
+        sol._schedule_to_recompute = self._schedule_to_recompute
+        return sol
 
     def lazy_copy(self):
-        return RCPSPSolution(problem=self.problem,
-                             rcpsp_permutation=self.rcpsp_permutation,
-                             rcpsp_modes=self.rcpsp_modes,
-                             rcpsp_schedule=self.rcpsp_schedule,
-                             rcpsp_schedule_feasible=self.rcpsp_schedule_feasible,
-                             standardised_permutation=self.standardised_permutation)
+        sol = RCPSPSolution(problem=self.problem,
+                            rcpsp_permutation=self.rcpsp_permutation,
+                            rcpsp_modes=self.rcpsp_modes,
+                            rcpsp_schedule=self.rcpsp_schedule,
+                            rcpsp_schedule_feasible=self.rcpsp_schedule_feasible,
+                            standardised_permutation=self.standardised_permutation)
+        sol._schedule_to_recompute = self._schedule_to_recompute
+        return sol
 
     def __str__(self):
         if self.rcpsp_schedule is None:
-- 
2.43.0


From 83fe8304d8250a127ea5ca7538beefc299aceaff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:44 +0000
Subject: [PATCH 089/142] fix: feasibility of a changed RCPSP solution is the
 one of its new schedule

---
 skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
index 6081dfd..6265133 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
@@ -544,6 +544,8 @@ class RCPSPModel(Problem):
                             2)
 
     def satisfy(self, rcpsp_sol: RCPSPSolution)->bool:
+        if rcpsp_sol._schedule_to_recompute:
+            rcpsp_sol.generate_schedule_from_permutation_serial_sgs()
         if rcpsp_sol.rcpsp_schedule_feasible is False:
             print('Schedule flagged as infeasible when generated')
             return False
@@ -724,6 +726,8 @@ class RCPSPModelCalendar(RCPSPModel):
                                   name_ressource_to_index=self.name_ressource_to_index)
 
     def satisfy(self, rcpsp_sol: RCPSPSolution)->bool:
+        if rcpsp_sol._schedule_to_recompute:
+            rcpsp_sol.generate_schedule_from_permutation_serial_sgs()
         if rcpsp_sol.rcpsp_schedule_feasible is False:
             print('Schedule flagged as infeasible when generated')
             return False
-- 
2.43.0


From 8e69f6571bd8a54e5ec37532c6f4eeb330be60f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:44 +0000
Subject: [PATCH 090/142] fix: resources of a copied RCPSP problem are its own

---
 .../builders/discrete_optimization/rcpsp/rcpsp_model.py     | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
index 6265133..7543a1e 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
@@ -665,7 +665,7 @@ class RCPSPModel(Problem):
             ax[i].legend()
 
     def copy(self):
-        return RCPSPModel(resources=self.resources,
+        return RCPSPModel(resources=deepcopy(self.resources),
                           non_renewable_resources=self.non_renewable_resources,
                           mode_details=deepcopy(self.mode_details),
                           successors=deepcopy(self.successors),
@@ -807,7 +807,7 @@ class SingleModeRCPSPModel(RCPSPModel):
         return objectives
 
     def copy(self):
-        return SingleModeRCPSPModel(resources=self.resources,
+        return SingleModeRCPSPModel(resources=deepcopy(self.resources),
                                     non_renewable_resources=self.non_renewable_resources,
                                     mode_details=deepcopy(self.mode_details),
                                     successors=deepcopy(self.successors),
@@ -862,7 +862,7 @@ class MultiModeRCPSPModel(RCPSPModel):
         return objectives
 
     def copy(self):
-        mm = MultiModeRCPSPModel(resources=self.resources,
+        mm = MultiModeRCPSPModel(resources=deepcopy(self.resources),
                                  non_renewable_resources=self.non_renewable_resources,
                                  mode_details=deepcopy(self.mode_details),
                                  successors=deepcopy(self.successors),
-- 
2.43.0


From d0dc7d6016f1e1aee5a4c9ae57d1e5d25bf6da3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:04 +0000
Subject: [PATCH 091/142] fix: resource reserve of an RCPSP solution counts
 used up resources

---
 skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
index 7543a1e..92da163 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
@@ -139,8 +139,8 @@ class RCPSPSolution(Solution):
                 for t in range(start_time, end_time):
                     for res in resource_avail_in_time.keys():
                         resource_avail_in_time[res][t] -= self.problem.mode_details[act_id][mode][res]  # 17
-                        if res in self.problem.non_renewable_resources and t == end_time:
-                            for tt in range(end_time + 1, makespan):
+                        if res in self.problem.non_renewable_resources and t == end_time - 1:
+                            for tt in range(end_time, makespan):
                                 resource_avail_in_time[res][tt] -= \
                                 self.problem.mode_details[act_id][mode][res]
         # print('resource_avail_in_time: ', resource_avail_in_time)
-- 
2.43.0


From e943322da505eb088874b3bd8e792adc7e95c456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:04 +0000
Subject: [PATCH 092/142] fix: ongoing tasks keep their start when the rest of
 an RCPSP schedule is generated

---
 skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
index 92da163..69ca177 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
@@ -306,6 +306,8 @@ class RCPSPSolution(Solution):
         all_activities = [x for x in list(self.problem.resources.keys()) if x not in list(completed_tasks)]
         # print('all_activities: ', all_activities)
         perm_extended = [x for x in perm_extended if x not in list(completed_tasks)]
+        # ongoing tasks first : they hold their resources since their start.
+        perm_extended.sort(key=lambda x: x not in scheduled_tasks_start_times)
         # print('perm_extended - removed completed_tasks: ', perm_extended)
 
         # fix modes in case specified mode not in mode details for the activites
-- 
2.43.0


From 7f6a62eb0577b658254ef1b23f5631aa321a17e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:16 +0000
Subject: [PATCH 093/142] fix: a swap move tells the solution that its
 permutation changed

---
 .../generic_tools/mutations/permutation_mutations.py            | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py b/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py
index 8f64727..5ce8a8a 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py
@@ -142,6 +142,7 @@ class SwapsLocalMove(LocalMove):
         for i1, i2 in self.list_index_swap:
             v1, v2 = current[i1], current[i2]
             current[i1], current[i2] = v2, v1
+        setattr(solution, self.attribute, current)
         return solution
 
     def backtrack_local_move(self, solution: Solution) -> Solution:
@@ -149,6 +150,7 @@ class SwapsLocalMove(LocalMove):
         for i1, i2 in self.list_index_swap[::-1]:
             v1, v2 = current[i1], current[i2]
             current[i1], current[i2] = v2, v1
+        setattr(solution, self.attribute, current)
         return solution
 
 
-- 
2.43.0


From 4b9afb6cb5b0ed0a194bd0633bae5f14f521a351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:12 +0000
Subject: [PATCH 094/142] fix: an infeasible RCPSP schedule is penalised on its
 last task

---
 skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
index 69ca177..96fa3b3 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
@@ -262,7 +262,7 @@ class RCPSPSolution(Solution):
             self.rcpsp_schedule[act_id]['end_time'] = activity_end_times[act_id]
         if unfeasible_non_renewable_resources:
             self.rcpsp_schedule_feasible = False
-            last_act_id = list(self.problem.successors.keys())[-1]
+            last_act_id = max(self.problem.successors.keys())
             if last_act_id not in self.rcpsp_schedule.keys():
                 self.rcpsp_schedule[last_act_id] = {}
                 self.rcpsp_schedule[last_act_id]['start_time'] = 99999999
@@ -394,7 +394,7 @@ class RCPSPSolution(Solution):
             self.rcpsp_schedule[act_id]['end_time'] = completed_tasks[act_id].end
         if unfeasible_non_renewable_resources:
             self.rcpsp_schedule_feasible = False
-            last_act_id = list(self.problem.successors.keys())[-1]
+            last_act_id = max(self.problem.successors.keys())
             if last_act_id not in self.rcpsp_schedule.keys():
                 self.rcpsp_schedule[last_act_id] = {}
                 self.rcpsp_schedule[last_act_id]['start_time'] = 99999999
-- 
2.43.0


From 8065502531e1e0ad3ac88089b6c29ddb0fbf0e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:42 +0000
Subject: [PATCH 095/142] fix: average duration of an uncertain RCPSP is not
 rounded below itself

---
 skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
index 96fa3b3..24c40c2 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
@@ -1071,7 +1071,7 @@ class UncertainRCPSPModel:
                 for detail in self.probas[activity][mode]:
                     if method_robustification.method_base == MethodBaseRobustification.AVERAGE:
                         model.mode_details[activity][mode][detail] = \
-                            int(self.probas[activity][mode][detail]["prob-distribution"].mean())
+                            int(round(self.probas[activity][mode][detail]["prob-distribution"].mean(), 6))
                     if method_robustification.method_base == MethodBaseRobustification.WORST_CASE:
                         model.mode_details[activity][mode][detail] = \
                             self.probas[activity][mode][detail]["prob-distribution"].support()[1]
-- 
2.43.0


From 92f96c5f8c7774195b3e872cde48ccb0841edc1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:17 +0000
Subject: [PATCH 096/142] fix: TSP points can be defined and the TSP modules
 imported

---
 skdecide/builders/discrete_optimization/tsp/tsp_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/tsp/tsp_model.py b/skdecide/builders/discrete_optimization/tsp/tsp_model.py
index c0a71e6..22f5fcb 100644
--- a/skdecide/builders/discrete_optimization/tsp/tsp_model.py
+++ b/skdecide/builders/discrete_optimization/tsp/tsp_model.py
@@ -202,7 +202,7 @@ class TSPModel(Problem):
 
 
 # One 
-class Point2D(Point, NamedTuple):
+class Point2D(NamedTuple):
     x: float
     y: float
 
-- 
2.43.0


From fcc3dd051f2a07f97705768f224bd6844b931632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:17 +0000
Subject: [PATCH 097/142] fix: a TSP solution is satisfying when it visits
 every other point once

---
 skdecide/builders/discrete_optimization/tsp/tsp_model.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/tsp/tsp_model.py b/skdecide/builders/discrete_optimization/tsp/tsp_model.py
index 22f5fcb..114e241 100644
--- a/skdecide/builders/discrete_optimization/tsp/tsp_model.py
+++ b/skdecide/builders/discrete_optimization/tsp/tsp_model.py
@@ -153,9 +153,8 @@ class TSPModel(Problem):
         # return obj
     
     def satisfy(self, var_tsp: SolutionTSP)->bool:
-        b = var_tsp.permutation[0] == self.start_index and var_tsp.permutation[-1] == self.end_index
-        if not b:
-            return False
+        # start and end are not part of the permutation
+        return sorted(var_tsp.permutation) == self.ind_in_permutation
     
     def get_dummy_solution(self):
         var = SolutionTSP(problem=self, start_index=self.start_index,
-- 
2.43.0


From 5c74cf9a93f7ba19faf9dfdbef6eae35664d2486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:17 +0000
Subject: [PATCH 098/142] fix: lengths of the TSP legs computed with numba are
 those of the tour

---
 .../builders/discrete_optimization/tsp/tsp_model.py    | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/tsp/tsp_model.py b/skdecide/builders/discrete_optimization/tsp/tsp_model.py
index 114e241..331c0cd 100644
--- a/skdecide/builders/discrete_optimization/tsp/tsp_model.py
+++ b/skdecide/builders/discrete_optimization/tsp/tsp_model.py
@@ -262,17 +262,17 @@ def compute_length_np(start_index,
                       length_permutation)->Tuple[Union[List[float], np.array], float]:
     obj = np.sqrt((np_points[start_index, 0]-np_points[solution[0], 0])**2+\
                   (np_points[start_index, 1]-np_points[solution[0], 1])**2)
-    lengths = np.zeros((node_count))
+    lengths = np.zeros((length_permutation+1))
     lengths[0] = obj
     pp = obj
     for index in range(0, length_permutation-1):
         ll = math.sqrt((np_points[solution[index], 0]-np_points[solution[index+1], 0])**2+\
                        (np_points[solution[index], 1]-np_points[solution[index+1], 1])**2)
         obj += ll
-        lengths[index] = ll
-    lengths[node_count-1] = np.sqrt((np_points[end_index, 0]-np_points[solution[-1], 0])**2+\
-                                    (np_points[end_index, 1]-np_points[solution[-1], 1])**2)
-    obj += lengths[node_count-1]
+        lengths[index+1] = ll
+    lengths[length_permutation] = np.sqrt((np_points[end_index, 0]-np_points[solution[-1], 0])**2+\
+                                          (np_points[end_index, 1]-np_points[solution[-1], 1])**2)
+    obj += lengths[length_permutation]
     return lengths, obj
 
 def build_evaluate_function(tsp_model: TSPModel):
-- 
2.43.0


From dfa9c99db3b53637a14768f2bfb432600d5d2369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:17 +0000
Subject: [PATCH 099/142] fix: a TSP solution moved to another problem is
 evaluated on it

---
 skdecide/builders/discrete_optimization/tsp/tsp_model.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/tsp/tsp_model.py b/skdecide/builders/discrete_optimization/tsp/tsp_model.py
index 331c0cd..d89e9f5 100644
--- a/skdecide/builders/discrete_optimization/tsp/tsp_model.py
+++ b/skdecide/builders/discrete_optimization/tsp/tsp_model.py
@@ -78,9 +78,8 @@ class SolutionTSP(Solution):
                       start_index=self.start_index,
                       end_index=self.end_index,
                       permutation=list(self.permutation),
-                      lengths=list(self.lengths),
-                      length=self.length,
-                      permutation_from0=deepcopy(self.permutation_from0))
+                      lengths=None,
+                      length=None)
 
 class Point:
     ...
-- 
2.43.0


From 27ebde3b45737fcf93921296b91f11a11233519d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:17 +0000
Subject: [PATCH 100/142] fix: both encodings of a TSP solution are always the
 same tour

---
 .../discrete_optimization/tsp/tsp_model.py    | 20 ++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/tsp/tsp_model.py b/skdecide/builders/discrete_optimization/tsp/tsp_model.py
index d89e9f5..a1bb691 100644
--- a/skdecide/builders/discrete_optimization/tsp/tsp_model.py
+++ b/skdecide/builders/discrete_optimization/tsp/tsp_model.py
@@ -12,7 +12,6 @@ from copy import deepcopy
 
 
 class SolutionTSP(Solution):
-    permutation_from0: Union[List[int], np.array]
     start_index: int
     end_index: int
     permutation: Union[List[int], np.array]
@@ -35,7 +34,6 @@ class SolutionTSP(Solution):
         self.permutation = permutation
         self.lengths = lengths
         self.length = length
-        self.permutation_from0 = permutation_from0
         self.problem = problem
         if self.start_index is None:
             self.start_index = problem.start_index
@@ -43,23 +41,28 @@ class SolutionTSP(Solution):
             self.end_index = problem.end_index
         # convert perm
         if self.permutation is None:
-            self.permutation = self.problem.convert_perm_from0_to_original_perm(self.permutation_from0)
-        if self.permutation_from0 is None:
-            self.permutation_from0 = self.problem.convert_original_perm_to_perm_from0(self.permutation)
+            self.permutation_from0 = permutation_from0
         # print('problem__:', problem)
         # print('permutation_from0__:', self.permutation_from0)
         # TODO: Think about moving this into another function (to prevent unecessary calls to evaluate()
         if self.length is None:
             self.problem.evaluate(self)
 
+    @property
+    def permutation_from0(self):
+        return self.problem.convert_original_perm_to_perm_from0(self.permutation)
+
+    @permutation_from0.setter
+    def permutation_from0(self, permutation_from0):
+        self.permutation = self.problem.convert_perm_from0_to_original_perm(permutation_from0)
+
     def copy(self):
         return SolutionTSP(problem=self.problem,
                            start_index=self.start_index,
                            end_index=self.end_index,
                            permutation=list(self.permutation),
                            lengths=list(self.lengths),
-                           length=self.length,
-                           permutation_from0=deepcopy(self.permutation_from0))
+                           length=self.length)
 
     def lazy_copy(self):
         return SolutionTSP(problem=self.problem,
@@ -67,8 +70,7 @@ class SolutionTSP(Solution):
                            end_index=self.end_index,
                            permutation=self.permutation,
                            lengths=self.lengths,
-                           length=self.length,
-                           permutation_from0=self.permutation_from0)
+                           length=self.length)
 
     def __str__(self):
         return "perm :"+str(self.permutation)+"\nobj="+str(self.length)
-- 
2.43.0


From 7d81c38fb0a4c3e672ff6032130c2bc1e169389d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:17 +0000
Subject: [PATCH 101/142] fix: 2-opt mutations of a TSP can be built without a
 number of tests

---
 .../builders/discrete_optimization/tsp/mutation/mutation_tsp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/tsp/mutation/mutation_tsp.py b/skdecide/builders/discrete_optimization/tsp/mutation/mutation_tsp.py
index 23cb0d3..9a66de7 100644
--- a/skdecide/builders/discrete_optimization/tsp/mutation/mutation_tsp.py
+++ b/skdecide/builders/discrete_optimization/tsp/mutation/mutation_tsp.py
@@ -72,7 +72,7 @@ class Mutation2Opt(Mutation):
         self.length_permutation = tsp_model.length_permutation
         self.points = tsp_model.list_points
         self.test_all = test_all
-        self.nb_test = min(nb_test, self.node_count-1)
+        self.nb_test = min(nb_test, self.node_count-1) if nb_test is not None else None
         self.evaluate_function_indexes = tsp_model.evaluate_function_indexes
         self.return_only_improvement = return_only_improvement
         self.tsp_model = tsp_model
-- 
2.43.0


From e38e8ce36afc9d97c304ca30543fc47ec505a519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:17 +0000
Subject: [PATCH 102/142] fix: 2-opt mutation of a TSP always tests at least
 one move

---
 .../builders/discrete_optimization/tsp/mutation/mutation_tsp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/tsp/mutation/mutation_tsp.py b/skdecide/builders/discrete_optimization/tsp/mutation/mutation_tsp.py
index 9a66de7..a8de141 100644
--- a/skdecide/builders/discrete_optimization/tsp/mutation/mutation_tsp.py
+++ b/skdecide/builders/discrete_optimization/tsp/mutation/mutation_tsp.py
@@ -117,7 +117,7 @@ class Mutation2Opt(Mutation):
         point_before_it, point_it, point_jt, point_after_jt = self.get_points(it, jt, variable)
         min_change = float('inf')
         range_its = range(self.length_permutation) if self.test_all \
-            else random.sample(range(self.length_permutation), min(self.nb_test, self.length_permutation))
+            else random.sample(range(self.length_permutation-1), min(self.nb_test, self.length_permutation-1))
         for i in range_its:
             #print( min(self.nb_test, self.nodeCount-i-1))
             #print(i+1, self.nodeCount-1)
-- 
2.43.0


From e3dcf320cce4186e2a155298243cd523037028bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:17 +0000
Subject: [PATCH 103/142] fix: 2-opt mutation on intersections reports
 objectives and the length of every leg

---
 .../discrete_optimization/tsp/mutation/mutation_tsp.py        | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/tsp/mutation/mutation_tsp.py b/skdecide/builders/discrete_optimization/tsp/mutation/mutation_tsp.py
index a8de141..b98652e 100644
--- a/skdecide/builders/discrete_optimization/tsp/mutation/mutation_tsp.py
+++ b/skdecide/builders/discrete_optimization/tsp/mutation/mutation_tsp.py
@@ -210,7 +210,7 @@ class Mutation2OptIntersection(Mutation2Opt):
                                      nb_tests=min(3000, self.node_count-2))
             self.i_j_pairs = ints
             if len(self.i_j_pairs) == 0:
-                return variable, LocalMoveDefault(variable, variable), variable.length
+                return variable, LocalMoveDefault(variable, variable), {"length": variable.length}
         min_change = float('inf')
         perm = variable.permutation
         for i, j in self.i_j_pairs:
@@ -232,6 +232,8 @@ class Mutation2OptIntersection(Mutation2Opt):
         lengths += [self.evaluate_function_indexes(i_before, j_)]
         lengths += variable.lengths[it+1:jt+1][::-1]
         lengths += [self.evaluate_function_indexes(i_, j_after)]
+        if jt < self.length_permutation-1:
+            lengths += variable.lengths[jt+2:]
         if False:
             print(len(variable.lengths))
             print(len(lengths))
-- 
2.43.0


From dcd27b6c80afe3f30ed4a65af45e0856111c2aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:17 +0000
Subject: [PATCH 104/142] fix: importing the TSP tools does not change the
 current directory

---
 .../builders/discrete_optimization/tsp/common_tools_tsp.py     | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/tsp/common_tools_tsp.py b/skdecide/builders/discrete_optimization/tsp/common_tools_tsp.py
index 08d9df5..a276d7e 100644
--- a/skdecide/builders/discrete_optimization/tsp/common_tools_tsp.py
+++ b/skdecide/builders/discrete_optimization/tsp/common_tools_tsp.py
@@ -1,14 +1,11 @@
 
 import math
 from collections import namedtuple
-import os
 import networkx as nx
 from typing import List
 import numpy as np
 import matplotlib.pyplot as plt
 from skdecide.builders.discrete_optimization.tsp.tsp_model import Point2D, length
-this_path = os.path.dirname(os.path.abspath(__file__))
-os.chdir(this_path)
 
 
 def length_1(point1, point2):
-- 
2.43.0


From 9b854abe5a9b642ec8283a3b4e523f2d1a6f4bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:17 +0000
Subject: [PATCH 105/142] fix: default distance matrix of a TSP measures the
 points

---
 skdecide/builders/discrete_optimization/tsp/common_tools_tsp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/tsp/common_tools_tsp.py b/skdecide/builders/discrete_optimization/tsp/common_tools_tsp.py
index a276d7e..4ef4576 100644
--- a/skdecide/builders/discrete_optimization/tsp/common_tools_tsp.py
+++ b/skdecide/builders/discrete_optimization/tsp/common_tools_tsp.py
@@ -50,7 +50,7 @@ def baseline_in_order(nodeCount: int, points: List[Point2D]):
 
 def build_matrice_distance(nodeCount: int, points: List[Point2D], method=None):
     if method is None:
-        method = length
+        def method(i, j): return length(points[i], points[j])
     matrix = np.zeros((nodeCount, nodeCount))
     for i in range(nodeCount):
         for j in range(i+1, nodeCount):
-- 
2.43.0


From 8788fbe59aa4d9798951a7eb68bea4b5225fd960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:17 +0000
Subject: [PATCH 106/142] fix: ortools TSP solver measures distances between
 points, without rounding them first

---
 .../discrete_optimization/tsp/solver/solver_ortools.py       | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/tsp/solver/solver_ortools.py b/skdecide/builders/discrete_optimization/tsp/solver/solver_ortools.py
index 73e4741..5ee0a92 100644
--- a/skdecide/builders/discrete_optimization/tsp/solver/solver_ortools.py
+++ b/skdecide/builders/discrete_optimization/tsp/solver/solver_ortools.py
@@ -29,7 +29,7 @@ class TSP_ORtools(SolverDO):
             matrix = build_matrice_distance(self.node_count, 
                                             self.list_points, 
                                             method=self.tsp_model.evaluate_function_indexes)
-            distance_matrix = (10**6*matrix.astype(np.int))
+            distance_matrix = (10**6*matrix).astype(int)
             def distance_callback(from_index, to_index):
                 from_node = manager.IndexToNode(from_index)
                 to_node = manager.IndexToNode(to_index)
@@ -38,8 +38,7 @@ class TSP_ORtools(SolverDO):
             def distance_callback(from_index, to_index):
                 from_node = manager.IndexToNode(from_index)
                 to_node = manager.IndexToNode(to_index)
-                return int(10**6*self.tsp_model.evaluate_function_indexes(self.list_points[from_node], 
-                                                                          self.list_points[to_node]))
+                return int(10**6*self.tsp_model.evaluate_function_indexes(from_node, to_node))
         # Create the routing index manager.
         manager = pywrapcp.RoutingIndexManager(self.node_count,
                                                1, 
-- 
2.43.0


From c5bf1c2b5a2abd1a761399ffe540f0e4b0597f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:31 +0000
Subject: [PATCH 107/142] fix: closest point heuristic finds points located at
 the same place

---
 skdecide/builders/discrete_optimization/tsp/common_tools_tsp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/tsp/common_tools_tsp.py b/skdecide/builders/discrete_optimization/tsp/common_tools_tsp.py
index 4ef4576..e6dc3d4 100644
--- a/skdecide/builders/discrete_optimization/tsp/common_tools_tsp.py
+++ b/skdecide/builders/discrete_optimization/tsp/common_tools_tsp.py
@@ -84,7 +84,7 @@ def closest_greedy(nodeCount: int, points: List[Point2D]):
     sol = [0]
     length_circuit = 0.
     index_in_sol = set([0])
-    s = sd[:, 1:]
+    s = sd
     # print(matrix.shape)
     # print(s.shape)
     # print(s)
-- 
2.43.0


From dec218486b4d0d8582a34b8944f758c1386cf5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:18 +0000
Subject: [PATCH 108/142] fix: lengths of the TSP legs are a list, as its moves
 expect, with numba as well

---
 skdecide/builders/discrete_optimization/tsp/tsp_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/tsp/tsp_model.py b/skdecide/builders/discrete_optimization/tsp/tsp_model.py
index a1bb691..b6307cb 100644
--- a/skdecide/builders/discrete_optimization/tsp/tsp_model.py
+++ b/skdecide/builders/discrete_optimization/tsp/tsp_model.py
@@ -149,7 +149,7 @@ class TSPModel(Problem):
     def evaluate(self, var_tsp: SolutionTSP)-> Dict[str, float]:
         lengths, obj = self.evaluate_function(var_tsp)
         var_tsp.length = obj
-        var_tsp.lengths = lengths
+        var_tsp.lengths = list(lengths)
         return {'length': obj}
         # return obj
     
-- 
2.43.0


From eb11c595ace0ad6908956d8abf09ec08a2489ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:58 +0000
Subject: [PATCH 109/142] fix: results of a shared memory domain with several
 values of a type use their own registers

---
 skdecide/domains.py | 1692 +++++++++++++++++++++----------------------
 1 file changed, 846 insertions(+), 846 deletions(-)

diff --git a/skdecide/domains.py b/skdecide/domains.py
index 80314b4..1de9511 100644
--- a/skdecide/domains.py
+++ b/skdecide/domains.py
@@ -1,846 +1,846 @@
-# Copyright (c) AIRBUS and its affiliates.
-# This source code is licensed under the MIT license found in the
-# LICENSE file in the root directory of this source tree.
-
-"""This module contains base classes for quickly building domains."""
-from __future__ import annotations
-
-import os
-import logging
-from typing import NewType, Optional, Callable
-
-from pathos.helpers import mp
-import tempfile
-from pynng import Push0
-
-# Following import is required to make Enum objects serializable
-# (useful when multiprocessing and pickling domains that use Enum classes)
-import dill
-dill.settings['byref'] = True
-
-from skdecide.core import autocast_all
-from skdecide.builders.domain.agent import MultiAgent, SingleAgent
-from skdecide.builders.domain.concurrency import Parallel, Sequential
-from skdecide.builders.domain.dynamics import Environment, Simulation, EnumerableTransitions, DeterministicTransitions
-from skdecide.builders.domain.events import Events, Actions
-from skdecide.builders.domain.goals import Goals
-from skdecide.builders.domain.initialization import Initializable, UncertainInitialized, DeterministicInitialized
-from skdecide.builders.domain.memory import History, Markovian
-from skdecide.builders.domain.observability import PartiallyObservable, TransformedObservable, FullyObservable
-from skdecide.builders.domain.value import Rewards, PositiveCosts
-if False:  # trick to avoid circular import & IDE error ("Unresolved reference 'Solver'")
-    from skdecide.solvers import Solver
-
-__all__ = ['Domain', 'RLDomain', 'MultiAgentRLDomain', 'StatelessSimulatorDomain', 'MDPDomain', 'POMDPDomain',
-           'GoalMDPDomain', 'GoalPOMDPDomain', 'DeterministicPlanningDomain']
-
-logger = logging.getLogger('skdecide.domains')
-
-logger.setLevel(logging.INFO)
-
-if not len(logger.handlers):
-    ch = logging.StreamHandler()
-    # create formatter and add it to the handlers
-    formatter = logging.Formatter('%(asctime)s | %(name)s | %(levelname)s | %(message)s')
-    ch.setFormatter(formatter)
-    # add the handlers to the logger
-    logger.addHandler(ch)
-    logger.propagate = False
-
-
-# MAIN BASE CLASS
-
-class Domain(MultiAgent, Parallel, Environment, Events, History, PartiallyObservable, Rewards):
-    """This is the highest level domain class (inheriting top-level class for each mandatory domain characteristic).
-
-    This helper class can be used as the main base class for domains.
-
-    Typical use:
-    ```python
-    class D(Domain, ...)
-    ```
-
-    with "..." replaced when needed by a number of classes from following domain characteristics (the ones in
-    parentheses are optional):
-
-    - **agent**: MultiAgent -> SingleAgent
-    - **concurrency**: Parallel -> Sequential
-    - **(constraints)**: Constrained
-    - **dynamics**: Environment -> Simulation -> UncertainTransitions -> EnumerableTransitions
-      -> DeterministicTransitions
-    - **events**: Events -> Actions -> UnrestrictedActions
-    - **(goals)**: Goals
-    - **(initialization)**: Initializable -> UncertainInitialized -> DeterministicInitialized
-    - **memory**: History -> FiniteHistory -> Markovian -> Memoryless
-    - **observability**: PartiallyObservable -> TransformedObservable -> FullyObservable
-    - **(renderability)**: Renderable
-    - **value**: Rewards -> PositiveCosts
-    """
-    T_state = NewType('T_state', object)
-    T_observation = NewType('T_observation', object)
-    T_event = NewType('T_event', object)
-    T_value = NewType('T_value', object)
-    T_info = NewType('T_info', object)
-
-    @classmethod
-    def solve_with(cls, solver: Solver,
-                   domain_factory: Optional[Callable[[], Domain]] = None, load_path: Optional[str] = None) -> Solver:
-        """Solve the domain with a new or loaded solver and return it auto-cast to the level of the domain.
-
-        By default, #Solver.check_domain() provides some boilerplate code and internally
-        calls #Solver._check_domain_additional() (which returns True by default but can be overridden  to define
-        specific checks in addition to the "domain requirements"). The boilerplate code automatically checks whether all
-        domain requirements are met.
-
-        # Parameters
-        solver: The solver.
-        domain_factory: A callable with no argument returning the domain to solve (factory is the domain class if None).
-        load_path: The path to restore the solver state from (if None, the solving process will be launched instead).
-
-        # Returns
-        The new solver (auto-cast to the level of the domain).
-        """
-        if domain_factory is None:
-            domain_factory = cls
-        if load_path is not None:
-
-            # TODO: avoid repeating this code somehow (identical in solver.solve(...))? Is factory necessary (vs cls)?
-            def cast_domain_factory():
-                domain = domain_factory()
-                autocast_all(domain, domain, solver.T_domain)
-                return domain
-
-            solver.load(load_path, cast_domain_factory)
-        else:
-            solver.solve(domain_factory)
-        autocast_all(solver, solver.T_domain, cls)
-        return solver
-
-
-# ALTERNATE BASE CLASSES (for typical combinations)
-
-class RLDomain(Domain, SingleAgent, Sequential, Environment, Actions, Initializable, Markovian, TransformedObservable,
-               Rewards):
-    """This is a typical Reinforcement Learning domain class.
-
-    This helper class can be used as an alternate base class for domains, inheriting the following:
-
-    - Domain
-    - SingleAgent
-    - Sequential
-    - Environment
-    - Actions
-    - Initializable
-    - Markovian
-    - TransformedObservable
-    - Rewards
-
-    Typical use:
-    ```python
-    class D(RLDomain)
-    ```
-
-    !!! tip
-        It is also possible to refine any alternate base class, like for instance:
-        ```python
-        class D(RLDomain, FullyObservable)
-        ```
-    """
-    pass
-
-
-class MultiAgentRLDomain(Domain, MultiAgent, Sequential, Environment, Actions, Initializable, Markovian,
-                         TransformedObservable, Rewards):
-    """This is a typical multi-agent Reinforcement Learning domain class.
-
-    This helper class can be used as an alternate base class for domains, inheriting the following:
-
-    - Domain
-    - MultiAgent
-    - Sequential
-    - Environment
-    - Actions
-    - Initializable
-    - Markovian
-    - TransformedObservable
-    - Rewards
-
-    Typical use:
-    ```python
-    class D(RLDomain)
-    ```
-
-    !!! tip
-        It is also possible to refine any alternate base class, like for instance:
-        ```python
-        class D(RLDomain, FullyObservable)
-        ```
-    """
-    pass
-
-
-class StatelessSimulatorDomain(Domain, SingleAgent, Sequential, Simulation, Actions, Markovian, TransformedObservable,
-                               Rewards):
-    """This is a typical stateless simulator domain class.
-
-    This helper class can be used as an alternate base class for domains, inheriting the following:
-
-    - Domain
-    - SingleAgent
-    - Sequential
-    - Simulation
-    - Actions
-    - Markovian
-    - TransformedObservable
-    - Rewards
-
-    Typical use:
-    ```python
-    class D(StatelessSimulatorDomain)
-    ```
-
-    !!! tip
-        It is also possible to refine any alternate base class, like for instance:
-        ```python
-        class D(RLDomain, FullyObservable)
-        ```
-    """
-    pass
-
-
-class MDPDomain(Domain, SingleAgent, Sequential, EnumerableTransitions, Actions, DeterministicInitialized, Markovian,
-                FullyObservable, Rewards):
-    """This is a typical Markov Decision Process domain class.
-
-    This helper class can be used as an alternate base class for domains, inheriting the following:
-
-    - Domain
-    - SingleAgent
-    - Sequential
-    - EnumerableTransitions
-    - Actions
-    - DeterministicInitialized
-    - Markovian
-    - FullyObservable
-    - Rewards
-
-    Typical use:
-    ```python
-    class D(MDPDomain)
-    ```
-
-    !!! tip
-        It is also possible to refine any alternate base class, like for instance:
-        ```python
-        class D(RLDomain, FullyObservable)
-        ```
-    """
-    pass
-
-
-class POMDPDomain(Domain, SingleAgent, Sequential, EnumerableTransitions, Actions, UncertainInitialized, Markovian,
-                  PartiallyObservable, Rewards):
-    """This is a typical Partially Observable Markov Decision Process domain class.
-
-    This helper class can be used as an alternate base class for domains, inheriting the following:
-
-    - Domain
-    - SingleAgent
-    - Sequential
-    - EnumerableTransitions
-    - Actions
-    - UncertainInitialized
-    - Markovian
-    - PartiallyObservable
-    - Rewards
-
-    Typical use:
-    ```python
-    class D(POMDPDomain)
-    ```
-
-    !!! tip
-        It is also possible to refine any alternate base class, like for instance:
-        ```python
-        class D(RLDomain, FullyObservable)
-        ```
-    """
-    pass
-
-
-class GoalMDPDomain(Domain, SingleAgent, Sequential, EnumerableTransitions, Actions, Goals, DeterministicInitialized,
-                    Markovian, FullyObservable, PositiveCosts):
-    """This is a typical Goal Markov Decision Process domain class.
-
-    This helper class can be used as an alternate base class for domains, inheriting the following:
-
-    - Domain
-    - SingleAgent
-    - Sequential
-    - EnumerableTransitions
-    - Actions
-    - Goals
-    - DeterministicInitialized
-    - Markovian
-    - FullyObservable
-    - PositiveCosts
-
-    Typical use:
-    ```python
-    class D(GoalMDPDomain)
-    ```
-
-    !!! tip
-        It is also possible to refine any alternate base class, like for instance:
-        ```python
-        class D(RLDomain, FullyObservable)
-        ```
-    """
-    pass
-
-
-class GoalPOMDPDomain(Domain, SingleAgent, Sequential, EnumerableTransitions, Actions, Goals, UncertainInitialized,
-                      Markovian, PartiallyObservable, PositiveCosts):
-    """This is a typical Goal Partially Observable Markov Decision Process domain class.
-
-    This helper class can be used as an alternate base class for domains, inheriting the following:
-
-    - Domain
-    - SingleAgent
-    - Sequential
-    - EnumerableTransitions
-    - Actions
-    - Goals
-    - UncertainInitialized
-    - Markovian
-    - PartiallyObservable
-    - PositiveCosts
-
-    Typical use:
-    ```python
-    class D(GoalPOMDPDomain)
-    ```
-
-    !!! tip
-        It is also possible to refine any alternate base class, like for instance:
-        ```python
-        class D(RLDomain, FullyObservable)
-        ```
-    """
-    pass
-
-
-class DeterministicPlanningDomain(Domain, SingleAgent, Sequential, DeterministicTransitions, Actions, Goals,
-                                  DeterministicInitialized, Markovian, FullyObservable, PositiveCosts):
-    """This is a typical deterministic planning domain class.
-
-    This helper class can be used as an alternate base class for domains, inheriting the following:
-
-    - Domain
-    - SingleAgent
-    - Sequential
-    - DeterministicTransitions
-    - Actions
-    - Goals
-    - DeterministicInitialized
-    - Markovian
-    - FullyObservable
-    - PositiveCosts
-
-    Typical use:
-    ```python
-    class D(DeterministicPlanningDomain)
-    ```
-
-    !!! tip
-        It is also possible to refine any alternate base class, like for instance:
-        ```python
-        class D(RLDomain, FullyObservable)
-        ```
-    """
-    pass
-
-
-class ParallelDomain:
-    """Base class for creating and launching n domains in separate processes.
-    Each domain listens for incoming domain requests.
-    Each request can indicate which domain should serve it, otherwise the first available
-    domain i is chosen and its id is returned to the incoming request.
-    """
-    def __init__(self,
-                 domain_factory,
-                 lambdas=None,
-                 nb_domains=os.cpu_count(),
-                 ipc_notify=False):
-        self._domain_factory = domain_factory
-        self._lambdas = lambdas
-        self._active_domains = mp.Array('b', [False for i in range(nb_domains)], lock=True)
-        self._temp_connections = [None] * nb_domains
-        self._ipc_connections = [None] * nb_domains
-        self._processes = [None] * nb_domains
-        self._ipc_notify = ipc_notify
-    
-    def open_ipc_connection(self, i):
-        self._temp_connections[i] = tempfile.NamedTemporaryFile()
-        self._ipc_connections[i] = 'ipc://' + self._temp_connections[i].name + '.ipc'
-    
-    def close_ipc_connection(self, i):
-        self._temp_connections[i].close()
-        self._ipc_connections[i] = None
-    
-    def _launch_processes(self):
-        raise NotImplementedError
-    
-    def close(self):
-        raise NotImplementedError
-
-    def __enter__(self):
-        self._launch_processes()
-        return self
-        
-    def __exit__ (self, type, value, tb):
-        self.close()
-
-    def launch(self, i, name, *args):
-        raise NotImplementedError
-
-    def get_proc_connections(self):  # process connections for use in python
-        raise NotImplementedError
-    
-    def get_ipc_connections(self):  # inter-process connections for use with C++
-        return self._ipc_connections
-    
-    def get_parallel_capacity(self):
-        return self.nb_domains()
-    
-    def nb_domains(self):
-        return len(self._processes)
-    
-    def wake_up_domain(self, i=None):
-        if i is None:
-            while True:
-                for j, v in enumerate(self._active_domains):
-                    if not v:
-                        self._active_domains[j] = True
-                        return j
-        else:
-            self._active_domains[i] = True
-            return i
-    
-    def reset(self, i=None):
-        return self.launch(i, 'reset')
-    
-    def get_initial_state_distribution(self, i=None):
-        return self.launch(i, 'get_initial_state_distribution')
-    
-    def get_initial_state(self, i=None):
-        return self.launch(i, 'get_initial_state')
-    
-    def get_observation_space(self, i=None):
-        return self.launch(i, 'get_observation_space')
-    
-    def is_observation(self, observation, i=None):
-        return self.launch(i, 'is_observation', observation)
-    
-    def get_observation_distribution(self, state, action, i=None):
-        return self.launch(i, 'get_observation_distribution', state, action)
-    
-    def get_observation(self, state, action, i=None):
-        return self.launch(i, 'get_observation', state, action)
-    
-    def get_enabled_events(self, memory, i=None):
-        return self.launch(i, 'get_enabled_events', memory)
-    
-    def is_enabled_event(self, event, memory, i=None):
-        return self.launch(i, 'is_enabled_event', event, memory)
-    
-    def get_action_space(self, i=None):
-        return self.launch(i, 'get_action_space')
-
-    def is_action(self, event, i=None):
-        return self.launch(i, 'is_action', event)
-    
-    def get_applicable_actions(self, memory, i=None):
-        return self.launch(i, 'get_applicable_actions', memory)
-    
-    def is_applicable_action(self, action, memory, i=None):
-        return self.launch(i, 'is_applicable_action', action, memory)
-    
-    def step(self, action, i=None):
-        return self.launch(i, 'step', action)
-    
-    def sample(self, memory, action, i=None):
-        return self.launch(i, 'sample', memory, action)
-    
-    def get_next_state_distribution(self, memory, action, i=None):
-        return self.launch(i, 'get_next_state_distribution', memory, action)
-    
-    def get_next_state(self, memory, action, i=None):
-        return self.launch(i, 'get_next_state', memory, action)
-    
-    def get_transition_value(self, memory, action, next_state, i=None):
-        return self.launch(i, 'get_transition_value', memory, action, next_state)
-    
-    def is_transition_value_dependent_on_next_state(self, i=None):
-        return self.launch(i, 'is_transition_value_dependent_on_next_state')
-    
-    def get_goals(self, i=None):
-        return self.launch(i, 'get_goals')
-    
-    def is_goal(self, observation, i=None):
-        return self.launch(i, 'is_goal', observation)
-    
-    def is_terminal(self, state, i=None):
-        return self.launch(i, 'is_terminal', state)
-    
-    def check_value(self, value, i=None):
-        return self.launch(i, 'check_value', value)
-    
-    def render(self, memory, i=None):
-        return self.launch(i, 'render', memory)
-
-    # Call a lambda function (usually involves the original domain)
-    def call(self, i, lambda_id, *args):
-        return self.launch(i, lambda_id, *args)
-    
-    # The original sequential domain may have methods we don't know
-    def __getattr__(self, name):
-        def method(*args, i=None):
-            return self.launch(i, name, *args)
-        return method
-    
-    # Bypass __getattr_.method() when serializing the class.
-    # Required on Windows when spawning the main process.
-    def __getstate__(self):
-        d = self.__dict__.copy()
-        del d['_temp_connections']  # we cannot serialize a file
-        return d
-
-    # Bypass __getattr_.method() when serializing the class.
-    # Required on Windows when spawning the main process.
-    def __setstate__(self, state):
-        self.__dict__ = state
-        # TODO: reopen the temp connection from _ipc_connections
-
-def _launch_domain_server_(domain_factory, lambdas, i,
-                           job_results, conn, ipc_conn, logger):
-    domain = domain_factory()
-    if ipc_conn is not None:
-        pusher = Push0()
-        pusher.dial(ipc_conn)
-    while True:
-        job = conn.recv()
-        job_results[i] = None
-        if job is None:
-            if ipc_conn is not None:
-                pusher.close()
-            conn.close()
-            break
-        else:
-            try:
-                if isinstance(job[0], str):  # job[0] is a domain class' method
-                    r = getattr(domain, job[0])(*job[1])
-                else:  # job[0] is a lambda function
-                    r = lambdas[job[0]](domain, *job[1])
-                job_results[i] = r
-                if ipc_conn is not None:
-                    pusher.send(b'0')  # send success
-                conn.send('0')  # send success
-            except Exception as e:
-                logger.error(rf'/!\ Unable to perform job {job[0]}: {e}')
-                if ipc_conn is not None:
-                    pusher.send(str(e).encode(encoding='UTF-8'))  # send error message
-                else:
-                    conn.send(str(e))  # send failure (!= 0)
-
-class PipeParallelDomain(ParallelDomain):
-    """This class can be used to create and launch n domains in separate processes.
-    Each domain listens for incoming domain requests.
-    Each request can indicate which domain should serve it, otherwise the first available
-    domain i is chosen and its id is returned to the incoming request.
-    """
-    def __init__(self,
-                 domain_factory,
-                 lambdas=None,
-                 nb_domains=os.cpu_count(),
-                 ipc_notify=False):
-        super().__init__(domain_factory, lambdas, nb_domains, ipc_notify)
-        self._manager = mp.Manager()
-        self._waiting_jobs = [None] * nb_domains
-        self._job_results = self._manager.list([None for i in range(nb_domains)])
-        logger.info(rf'Using {nb_domains} parallel piped domains')
-    
-    def get_proc_connections(self):
-        return self._waiting_jobs
-    
-    def launch(self, i, function, *args):
-        if not any(self._processes):
-            self._launch_processes()
-        try:
-            mi = self.wake_up_domain(i)
-            self._waiting_jobs[mi].send((function, args))
-            return mi
-        except Exception as e:
-            if isinstance(function, str):
-                logger.error(rf'/!\ Unable to launch job {function}: {e}')
-            else:
-                logger.error(rf'/!\ Unable to launch job lambdas[{function}]: {e}')
-    
-    def get_result(self, i):
-        self._waiting_jobs[i].recv()
-        r = self._job_results[i]
-        self._job_results[i] = None
-        self._active_domains[i] = False
-        return r
-    
-    def _launch_processes(self):
-        for i in range(len(self._job_results)):
-            self.open_ipc_connection(i)
-            pparent, pchild = mp.Pipe()
-            self._waiting_jobs[i] = pparent
-            self._processes[i] = mp.Process(target=_launch_domain_server_,
-                                            args=[self._domain_factory, self._lambdas, i,
-                                                    self._job_results, pchild,
-                                                    self._ipc_connections[i] if self._ipc_notify else None, logger])
-            self._processes[i].start()
-        # Waits for all jobs to be launched and waiting each for requests
-        while True in set(self._active_domains):
-            continue
-    
-    def close(self):
-        for i in range(len(self._job_results)):
-            self._waiting_jobs[i].send(None)
-            self._processes[i].join()
-            self._processes[i].close()
-            self._waiting_jobs[i].close()
-            self._processes[i] = None
-            self.close_ipc_connection(i)
-
-
-def _shm_launch_domain_server_(domain_factory, lambdas, i,
-                               shm_proxy, shm_registers, shm_types, shm_sizes,
-                               rsize, shm_arrays, shm_lambdas, shm_names, shm_params,
-                               activation, done, cond, ipc_conn, logger):
-    domain = domain_factory()
-    if ipc_conn is not None:
-        pusher = Push0()
-        pusher.dial(ipc_conn)
-    
-    def get_string(s):
-        for i, c in enumerate(s):
-            if c == b'\x00':
-                return s[:i].decode()
-        return s.decode()
-
-    while True:
-        with cond:
-            cond.wait_for(lambda: bool(activation.value) == True)
-            activation.value = False
-        if int(shm_lambdas[i].value) == -1 and shm_names[i][0] == b'\x00':
-            if ipc_conn is not None:
-                pusher.close()
-            break
-        else:
-            try:
-                job_args = []
-                for p in shm_params[i]:
-                    if p >= 0:
-                        sz = shm_sizes[shm_types[p].__name__]
-                        if sz > 1:
-                            si = (i * rsize) + p
-                            job_args.append(shm_proxy.decode(shm_types[p], shm_arrays[si:(si + sz)]))
-                        else:
-                            job_args.append(shm_proxy.decode(shm_types[p], shm_arrays[(i * rsize) + p]))
-                    else:
-                        break  # no more args
-                if int(shm_lambdas[i].value) == -1:  # we are working with a domain class' method
-                    result = getattr(domain, get_string(shm_names[i]))(*job_args)
-                else:  # we are working with a lambda function
-                    result = lambdas[int(shm_lambdas[i].value)](domain, *job_args)
-                shm_params[i][:] = [-1] * len(shm_params[i])
-                if type(result) is not tuple:
-                    result = (result,)
-                if result[0] is not None:
-                    type_counters = {}
-                    for j, r in enumerate(result):
-                        res_name = type(r).__name__
-                        (start, end) = shm_registers[res_name]
-                        if res_name in type_counters:
-                            type_counters[res_name] += 1
-                            k = type_counters[res_name]
-                            if (k >= end):
-                                raise IndexError('''No more available register for type {}. 
-                                                    Please increase the number of registers 
-                                                    for that type.'''.format(res_name))
-                        else:
-                            type_counters[res_name] = start
-                            k = start
-                        shm_params[i][j] = k
-                        sz = shm_sizes[res_name]
-                        if sz > 1:
-                            si = (i * rsize) + k
-                            shm_proxy.encode(r, shm_arrays[si:(si + sz)])
-                        else:
-                            shm_proxy.encode(r, shm_arrays[(i * rsize) + k])
-                if ipc_conn is not None:
-                    pusher.send(b'0')  # send success
-            except Exception as e:
-                if int(shm_lambdas[i].value) == -1:
-                    logger.error(rf'/!\ Unable to perform job {get_string(shm_names[i])}: {e}')
-                else:
-                    logger.error(rf'/!\ Unable to perform job {int(shm_lambdas[i].value)}: {e}')
-                if ipc_conn is not None:
-                    pusher.send(str(e).encode(encoding='UTF-8'))  # send error message
-            with cond:
-                done.value = True
-                cond.notify_all()  # send finished status (no success nor failure information)
-                
-
-class ShmParallelDomain(ParallelDomain):
-    """This class can be used to create and launch n domains in separate processes
-    with shared memory between the Python processes.
-    Each domain listens for incoming domain requests.
-    Each request can indicate which domain should serve it, otherwise the first available
-    domain is chosen and its id is returned to the incoming request.
-    """
-    def __init__(self,
-                 domain_factory,
-                 shm_proxy,
-                 lambdas=None,
-                 nb_domains=os.cpu_count(),
-                 ipc_notify=False):
-        super().__init__(domain_factory, lambdas, nb_domains, ipc_notify)
-        self._activations = [mp.Value('b', False, lock=True) for i in range(nb_domains)]
-        self._dones = [mp.Value('b', False, lock=True) for i in range(nb_domains)]
-        self._conditions = [mp.Condition() for i in range(nb_domains)]
-        self._shm_proxy = shm_proxy
-        self._shm_registers = {}  # Maps from registered method parameter types to vectorized array ranges
-        self._shm_types = {}  # Maps from register index to type
-        self._shm_sizes = {}  # Maps from register method parameter types to number of arrays encoding each type
-        self._shm_arrays = []  # Methods' vectorized parameters
-        self._rsize = 0  # Total size of the register (updated below)
-        self._shm_lambdas = [None] * nb_domains  # Vectorized lambdas' ids
-        self._shm_names = [None] * nb_domains  # Vectorized methods' names
-        self._shm_params = [None] * nb_domains  # Indices of methods' vectorized parameters
-        for i in range(nb_domains):
-            j = 0
-            for r in shm_proxy.register():
-                for k in range(r[1]):
-                    m = shm_proxy.initialize(r[0])
-                    if type(m) == list or type(m) == tuple:
-                        if i == 0 and k == 0:  # do it once for all the domains and redundant initializers
-                            self._shm_sizes[r[0].__name__] = len(m)
-                            self._shm_registers[r[0].__name__] = (j, j + (r[1] * len(m)))
-                            self._shm_types.update({kk: r[0] for kk in range(j, j + (r[1] * len(m)), len(m))})
-                            self._rsize += (r[1] * len(m))
-                        self._shm_arrays.extend(m)
-                        j += len(m)
-                    else:
-                        if i == 0 and k == 0:  # do it once for all the domains and redundant initializers
-                            self._shm_sizes[r[0].__name__] = 1
-                            self._shm_registers[r[0].__name__] = (j, j + r[1])
-                            self._shm_types.update({kk: r[0] for kk in range(j, j + r[1])})
-                            self._rsize += r[1]
-                        self._shm_arrays.append(m)
-                        j += 1
-            self._shm_lambdas[i] = mp.Value('i', -1, lock=True)
-            self._shm_names[i] = mp.Array('c', bytearray(100))
-            self._shm_params[i] = mp.Array('i', [-1] * sum(r[1] for r in shm_proxy.register()))
-        logger.info(rf'Using {nb_domains} parallel shared memory domains')
-    
-    def get_proc_connections(self):
-        return (self._activations, self._conditions)
-    
-    def launch(self, i, function, *args):
-        if not any(self._processes):
-            self._launch_processes()
-        try:
-            mi = self.wake_up_domain(i)
-            if isinstance(function, str):  # function is a domain class' method
-                self._shm_lambdas[mi].value = -1
-                self._shm_names[mi][:] = bytearray(function, encoding='utf-8') + \
-                                         bytearray(len(self._shm_names[mi]) - len(function))
-            else:  # function is a lambda id
-                self._shm_lambdas[mi].value = int(function)
-                self._shm_names[mi][:] = bytearray(len(self._shm_names[mi]))  # reset with null bytes
-            self._shm_params[mi][:] = [-1] * len(self._shm_params[mi])
-            type_counters = {}
-            for j, a in enumerate(args):
-                arg_name = type(a).__name__
-                (start, end) = self._shm_registers[arg_name]
-                if arg_name in type_counters:
-                    type_counters[arg_name] += self._shm_sizes[arg_name]
-                    k = type_counters[arg_name]
-                    if (k >= end):
-                        raise IndexError('''No more available register for type {}. 
-                                            Please increase the number of registers 
-                                            for that type.'''.format(arg_name))
-                else:
-                    type_counters[arg_name] = start
-                    k = start
-                self._shm_params[mi][j] = k
-                sz = self._shm_sizes[arg_name]
-                if sz > 1:
-                    si = (mi * self._rsize) + k
-                    self._shm_proxy.encode(a, self._shm_arrays[si:(si + sz)])
-                else:
-                    self._shm_proxy.encode(a, self._shm_arrays[(mi * self._rsize) + k])
-            with self._conditions[mi]:
-                self._activations[mi].value = True
-                self._conditions[mi].notify_all()
-            return mi
-        except Exception as e:
-            if isinstance(function, str):
-                logger.error(rf'/!\ Unable to launch job {function}: {e}')
-            else:
-                logger.error(rf'/!\ Unable to launch job lambdas[{function}]: {e}')
-    
-    def get_result(self, i):
-        with self._conditions[i]:
-            self._conditions[i].wait_for(lambda: bool(self._dones[i].value) == True)
-            self._dones[i].value = False
-        results = []
-        for r in self._shm_params[i]:
-            if r >= 0:
-                sz = self._shm_sizes[self._shm_types[r].__name__]
-                if sz > 1:
-                    si = (i * self._rsize) + r
-                    results.append(self._shm_proxy.decode(self._shm_types[r], self._shm_arrays[si:(si + sz)]))
-                else:
-                    results.append(self._shm_proxy.decode(self._shm_types[r], self._shm_arrays[(i * self._rsize) + r]))
-            else:
-                break  # no more params
-        self._active_domains[i] = False
-        return results if len(results) > 1 else results[0] if len(results) > 0 else None
-    
-    def _launch_processes(self):
-        for i in range(len(self._processes)):
-            self.open_ipc_connection(i)
-            self._processes[i] = mp.Process(target=_shm_launch_domain_server_,
-                                            args=[self._domain_factory, self._lambdas, i,
-                                                    self._shm_proxy.copy(),
-                                                    dict(self._shm_registers),
-                                                    dict(self._shm_types),
-                                                    dict(self._shm_sizes),
-                                                    self._rsize, list(self._shm_arrays),
-                                                    list(self._shm_lambdas), list(self._shm_names), list(self._shm_params),
-                                                    self._activations[i], self._dones[i], self._conditions[i],
-                                                    self._ipc_connections[i] if self._ipc_notify else None,
-                                                    logger])
-            self._processes[i].start()
-        # Waits for all jobs to be launched and waiting each for requests
-        while True in set(self._active_domains):
-            continue
-    
-    def close(self):
-        for i in range(len(self._processes)):
-            self._shm_lambdas[i].value = -1
-            self._shm_names[i][:] = bytearray(len(self._shm_names[i]))  # reset with null bytes
-            self._shm_params[i][:] = [-1] * len(self._shm_params[i])
-            with self._conditions[i]:
-                self._activations[i].value = True
-                self._conditions[i].notify_all()
-            self._processes[i].join()
-            self._processes[i].close()
-            self._processes[i] = None
-            self.close_ipc_connection(i)
+# Copyright (c) AIRBUS and its affiliates.
+# This source code is licensed under the MIT license found in the
+# LICENSE file in the root directory of this source tree.
+
+"""This module contains base classes for quickly building domains."""
+from __future__ import annotations
+
+import os
+import logging
+from typing import NewType, Optional, Callable
+
+from pathos.helpers import mp
+import tempfile
+from pynng import Push0
+
+# Following import is required to make Enum objects serializable
+# (useful when multiprocessing and pickling domains that use Enum classes)
+import dill
+dill.settings['byref'] = True
+
+from skdecide.core import autocast_all
+from skdecide.builders.domain.agent import MultiAgent, SingleAgent
+from skdecide.builders.domain.concurrency import Parallel, Sequential
+from skdecide.builders.domain.dynamics import Environment, Simulation, EnumerableTransitions, DeterministicTransitions
+from skdecide.builders.domain.events import Events, Actions
+from skdecide.builders.domain.goals import Goals
+from skdecide.builders.domain.initialization import Initializable, UncertainInitialized, DeterministicInitialized
+from skdecide.builders.domain.memory import History, Markovian
+from skdecide.builders.domain.observability import PartiallyObservable, TransformedObservable, FullyObservable
+from skdecide.builders.domain.value import Rewards, PositiveCosts
+if False:  # trick to avoid circular import & IDE error ("Unresolved reference 'Solver'")
+    from skdecide.solvers import Solver
+
+__all__ = ['Domain', 'RLDomain', 'MultiAgentRLDomain', 'StatelessSimulatorDomain', 'MDPDomain', 'POMDPDomain',
+           'GoalMDPDomain', 'GoalPOMDPDomain', 'DeterministicPlanningDomain']
+
+logger = logging.getLogger('skdecide.domains')
+
+logger.setLevel(logging.INFO)
+
+if not len(logger.handlers):
+    ch = logging.StreamHandler()
+    # create formatter and add it to the handlers
+    formatter = logging.Formatter('%(asctime)s | %(name)s | %(levelname)s | %(message)s')
+    ch.setFormatter(formatter)
+    # add the handlers to the logger
+    logger.addHandler(ch)
+    logger.propagate = False
+
+
+# MAIN BASE CLASS
+
+class Domain(MultiAgent, Parallel, Environment, Events, History, PartiallyObservable, Rewards):
+    """This is the highest level domain class (inheriting top-level class for each mandatory domain characteristic).
+
+    This helper class can be used as the main base class for domains.
+
+    Typical use:
+    ```python
+    class D(Domain, ...)
+    ```
+
+    with "..." replaced when needed by a number of classes from following domain characteristics (the ones in
+    parentheses are optional):
+
+    - **agent**: MultiAgent -> SingleAgent
+    - **concurrency**: Parallel -> Sequential
+    - **(constraints)**: Constrained
+    - **dynamics**: Environment -> Simulation -> UncertainTransitions -> EnumerableTransitions
+      -> DeterministicTransitions
+    - **events**: Events -> Actions -> UnrestrictedActions
+    - **(goals)**: Goals
+    - **(initialization)**: Initializable -> UncertainInitialized -> DeterministicInitialized
+    - **memory**: History -> FiniteHistory -> Markovian -> Memoryless
+    - **observability**: PartiallyObservable -> TransformedObservable -> FullyObservable
+    - **(renderability)**: Renderable
+    - **value**: Rewards -> PositiveCosts
+    """
+    T_state = NewType('T_state', object)
+    T_observation = NewType('T_observation', object)
+    T_event = NewType('T_event', object)
+    T_value = NewType('T_value', object)
+    T_info = NewType('T_info', object)
+
+    @classmethod
+    def solve_with(cls, solver: Solver,
+                   domain_factory: Optional[Callable[[], Domain]] = None, load_path: Optional[str] = None) -> Solver:
+        """Solve the domain with a new or loaded solver and return it auto-cast to the level of the domain.
+
+        By default, #Solver.check_domain() provides some boilerplate code and internally
+        calls #Solver._check_domain_additional() (which returns True by default but can be overridden  to define
+        specific checks in addition to the "domain requirements"). The boilerplate code automatically checks whether all
+        domain requirements are met.
+
+        # Parameters
+        solver: The solver.
+        domain_factory: A callable with no argument returning the domain to solve (factory is the domain class if None).
+        load_path: The path to restore the solver state from (if None, the solving process will be launched instead).
+
+        # Returns
+        The new solver (auto-cast to the level of the domain).
+        """
+        if domain_factory is None:
+            domain_factory = cls
+        if load_path is not None:
+
+            # TODO: avoid repeating this code somehow (identical in solver.solve(...))? Is factory necessary (vs cls)?
+            def cast_domain_factory():
+                domain = domain_factory()
+                autocast_all(domain, domain, solver.T_domain)
+                return domain
+
+            solver.load(load_path, cast_domain_factory)
+        else:
+            solver.solve(domain_factory)
+        autocast_all(solver, solver.T_domain, cls)
+        return solver
+
+
+# ALTERNATE BASE CLASSES (for typical combinations)
+
+class RLDomain(Domain, SingleAgent, Sequential, Environment, Actions, Initializable, Markovian, TransformedObservable,
+               Rewards):
+    """This is a typical Reinforcement Learning domain class.
+
+    This helper class can be used as an alternate base class for domains, inheriting the following:
+
+    - Domain
+    - SingleAgent
+    - Sequential
+    - Environment
+    - Actions
+    - Initializable
+    - Markovian
+    - TransformedObservable
+    - Rewards
+
+    Typical use:
+    ```python
+    class D(RLDomain)
+    ```
+
+    !!! tip
+        It is also possible to refine any alternate base class, like for instance:
+        ```python
+        class D(RLDomain, FullyObservable)
+        ```
+    """
+    pass
+
+
+class MultiAgentRLDomain(Domain, MultiAgent, Sequential, Environment, Actions, Initializable, Markovian,
+                         TransformedObservable, Rewards):
+    """This is a typical multi-agent Reinforcement Learning domain class.
+
+    This helper class can be used as an alternate base class for domains, inheriting the following:
+
+    - Domain
+    - MultiAgent
+    - Sequential
+    - Environment
+    - Actions
+    - Initializable
+    - Markovian
+    - TransformedObservable
+    - Rewards
+
+    Typical use:
+    ```python
+    class D(RLDomain)
+    ```
+
+    !!! tip
+        It is also possible to refine any alternate base class, like for instance:
+        ```python
+        class D(RLDomain, FullyObservable)
+        ```
+    """
+    pass
+
+
+class StatelessSimulatorDomain(Domain, SingleAgent, Sequential, Simulation, Actions, Markovian, TransformedObservable,
+                               Rewards):
+    """This is a typical stateless simulator domain class.
+
+    This helper class can be used as an alternate base class for domains, inheriting the following:
+
+    - Domain
+    - SingleAgent
+    - Sequential
+    - Simulation
+    - Actions
+    - Markovian
+    - TransformedObservable
+    - Rewards
+
+    Typical use:
+    ```python
+    class D(StatelessSimulatorDomain)
+    ```
+
+    !!! tip
+        It is also possible to refine any alternate base class, like for instance:
+        ```python
+        class D(RLDomain, FullyObservable)
+        ```
+    """
+    pass
+
+
+class MDPDomain(Domain, SingleAgent, Sequential, EnumerableTransitions, Actions, DeterministicInitialized, Markovian,
+                FullyObservable, Rewards):
+    """This is a typical Markov Decision Process domain class.
+
+    This helper class can be used as an alternate base class for domains, inheriting the following:
+
+    - Domain
+    - SingleAgent
+    - Sequential
+    - EnumerableTransitions
+    - Actions
+    - DeterministicInitialized
+    - Markovian
+    - FullyObservable
+    - Rewards
+
+    Typical use:
+    ```python
+    class D(MDPDomain)
+    ```
+
+    !!! tip
+        It is also possible to refine any alternate base class, like for instance:
+        ```python
+        class D(RLDomain, FullyObservable)
+        ```
+    """
+    pass
+
+
+class POMDPDomain(Domain, SingleAgent, Sequential, EnumerableTransitions, Actions, UncertainInitialized, Markovian,
+                  PartiallyObservable, Rewards):
+    """This is a typical Partially Observable Markov Decision Process domain class.
+
+    This helper class can be used as an alternate base class for domains, inheriting the following:
+
+    - Domain
+    - SingleAgent
+    - Sequential
+    - EnumerableTransitions
+    - Actions
+    - UncertainInitialized
+    - Markovian
+    - PartiallyObservable
+    - Rewards
+
+    Typical use:
+    ```python
+    class D(POMDPDomain)
+    ```
+
+    !!! tip
+        It is also possible to refine any alternate base class, like for instance:
+        ```python
+        class D(RLDomain, FullyObservable)
+        ```
+    """
+    pass
+
+
+class GoalMDPDomain(Domain, SingleAgent, Sequential, EnumerableTransitions, Actions, Goals, DeterministicInitialized,
+                    Markovian, FullyObservable, PositiveCosts):
+    """This is a typical Goal Markov Decision Process domain class.
+
+    This helper class can be used as an alternate base class for domains, inheriting the following:
+
+    - Domain
+    - SingleAgent
+    - Sequential
+    - EnumerableTransitions
+    - Actions
+    - Goals
+    - DeterministicInitialized
+    - Markovian
+    - FullyObservable
+    - PositiveCosts
+
+    Typical use:
+    ```python
+    class D(GoalMDPDomain)
+    ```
+
+    !!! tip
+        It is also possible to refine any alternate base class, like for instance:
+        ```python
+        class D(RLDomain, FullyObservable)
+        ```
+    """
+    pass
+
+
+class GoalPOMDPDomain(Domain, SingleAgent, Sequential, EnumerableTransitions, Actions, Goals, UncertainInitialized,
+                      Markovian, PartiallyObservable, PositiveCosts):
+    """This is a typical Goal Partially Observable Markov Decision Process domain class.
+
+    This helper class can be used as an alternate base class for domains, inheriting the following:
+
+    - Domain
+    - SingleAgent
+    - Sequential
+    - EnumerableTransitions
+    - Actions
+    - Goals
+    - UncertainInitialized
+    - Markovian
+    - PartiallyObservable
+    - PositiveCosts
+
+    Typical use:
+    ```python
+    class D(GoalPOMDPDomain)
+    ```
+
+    !!! tip
+        It is also possible to refine any alternate base class, like for instance:
+        ```python
+        class D(RLDomain, FullyObservable)
+        ```
+    """
+    pass
+
+
+class DeterministicPlanningDomain(Domain, SingleAgent, Sequential, DeterministicTransitions, Actions, Goals,
+                                  DeterministicInitialized, Markovian, FullyObservable, PositiveCosts):
+    """This is a typical deterministic planning domain class.
+
+    This helper class can be used as an alternate base class for domains, inheriting the following:
+
+    - Domain
+    - SingleAgent
+    - Sequential
+    - DeterministicTransitions
+    - Actions
+    - Goals
+    - DeterministicInitialized
+    - Markovian
+    - FullyObservable
+    - PositiveCosts
+
+    Typical use:
+    ```python
+    class D(DeterministicPlanningDomain)
+    ```
+
+    !!! tip
+        It is also possible to refine any alternate base class, like for instance:
+        ```python
+        class D(RLDomain, FullyObservable)
+        ```
+    """
+    pass
+
+
+class ParallelDomain:
+    """Base class for creating and launching n domains in separate processes.
+    Each domain listens for incoming domain requests.
+    Each request can indicate which domain should serve it, otherwise the first available
+    domain i is chosen and its id is returned to the incoming request.
+    """
+    def __init__(self,
+                 domain_factory,
+                 lambdas=None,
+                 nb_domains=os.cpu_count(),
+                 ipc_notify=False):
+        self._domain_factory = domain_factory
+        self._lambdas = lambdas
+        self._active_domains = mp.Array('b', [False for i in range(nb_domains)], lock=True)
+        self._temp_connections = [None] * nb_domains
+        self._ipc_connections = [None] * nb_domains
+        self._processes = [None] * nb_domains
+        self._ipc_notify = ipc_notify
+    
+    def open_ipc_connection(self, i):
+        self._temp_connections[i] = tempfile.NamedTemporaryFile()
+        self._ipc_connections[i] = 'ipc://' + self._temp_connections[i].name + '.ipc'
+    
+    def close_ipc_connection(self, i):
+        self._temp_connections[i].close()
+        self._ipc_connections[i] = None
+    
+    def _launch_processes(self):
+        raise NotImplementedError
+    
+    def close(self):
+        raise NotImplementedError
+
+    def __enter__(self):
+        self._launch_processes()
+        return self
+        
+    def __exit__ (self, type, value, tb):
+        self.close()
+
+    def launch(self, i, name, *args):
+        raise NotImplementedError
+
+    def get_proc_connections(self):  # process connections for use in python
+        raise NotImplementedError
+    
+    def get_ipc_connections(self):  # inter-process connections for use with C++
+        return self._ipc_connections
+    
+    def get_parallel_capacity(self):
+        return self.nb_domains()
+    
+    def nb_domains(self):
+        return len(self._processes)
+    
+    def wake_up_domain(self, i=None):
+        if i is None:
+            while True:
+                for j, v in enumerate(self._active_domains):
+                    if not v:
+                        self._active_domains[j] = True
+                        return j
+        else:
+            self._active_domains[i] = True
+            return i
+    
+    def reset(self, i=None):
+        return self.launch(i, 'reset')
+    
+    def get_initial_state_distribution(self, i=None):
+        return self.launch(i, 'get_initial_state_distribution')
+    
+    def get_initial_state(self, i=None):
+        return self.launch(i, 'get_initial_state')
+    
+    def get_observation_space(self, i=None):
+        return self.launch(i, 'get_observation_space')
+    
+    def is_observation(self, observation, i=None):
+        return self.launch(i, 'is_observation', observation)
+    
+    def get_observation_distribution(self, state, action, i=None):
+        return self.launch(i, 'get_observation_distribution', state, action)
+    
+    def get_observation(self, state, action, i=None):
+        return self.launch(i, 'get_observation', state, action)
+    
+    def get_enabled_events(self, memory, i=None):
+        return self.launch(i, 'get_enabled_events', memory)
+    
+    def is_enabled_event(self, event, memory, i=None):
+        return self.launch(i, 'is_enabled_event', event, memory)
+    
+    def get_action_space(self, i=None):
+        return self.launch(i, 'get_action_space')
+
+    def is_action(self, event, i=None):
+        return self.launch(i, 'is_action', event)
+    
+    def get_applicable_actions(self, memory, i=None):
+        return self.launch(i, 'get_applicable_actions', memory)
+    
+    def is_applicable_action(self, action, memory, i=None):
+        return self.launch(i, 'is_applicable_action', action, memory)
+    
+    def step(self, action, i=None):
+        return self.launch(i, 'step', action)
+    
+    def sample(self, memory, action, i=None):
+        return self.launch(i, 'sample', memory, action)
+    
+    def get_next_state_distribution(self, memory, action, i=None):
+        return self.launch(i, 'get_next_state_distribution', memory, action)
+    
+    def get_next_state(self, memory, action, i=None):
+        return self.launch(i, 'get_next_state', memory, action)
+    
+    def get_transition_value(self, memory, action, next_state, i=None):
+        return self.launch(i, 'get_transition_value', memory, action, next_state)
+    
+    def is_transition_value_dependent_on_next_state(self, i=None):
+        return self.launch(i, 'is_transition_value_dependent_on_next_state')
+    
+    def get_goals(self, i=None):
+        return self.launch(i, 'get_goals')
+    
+    def is_goal(self, observation, i=None):
+        return self.launch(i, 'is_goal', observation)
+    
+    def is_terminal(self, state, i=None):
+        return self.launch(i, 'is_terminal', state)
+    
+    def check_value(self, value, i=None):
+        return self.launch(i, 'check_value', value)
+    
+    def render(self, memory, i=None):
+        return self.launch(i, 'render', memory)
+
+    # Call a lambda function (usually involves the original domain)
+    def call(self, i, lambda_id, *args):
+        return self.launch(i, lambda_id, *args)
+    
+    # The original sequential domain may have methods we don't know
+    def __getattr__(self, name):
+        def method(*args, i=None):
+            return self.launch(i, name, *args)
+        return method
+    
+    # Bypass __getattr_.method() when serializing the class.
+    # Required on Windows when spawning the main process.
+    def __getstate__(self):
+        d = self.__dict__.copy()
+        del d['_temp_connections']  # we cannot serialize a file
+        return d
+
+    # Bypass __getattr_.method() when serializing the class.
+    # Required on Windows when spawning the main process.
+    def __setstate__(self, state):
+        self.__dict__ = state
+        # TODO: reopen the temp connection from _ipc_connections
+
+def _launch_domain_server_(domain_factory, lambdas, i,
+                           job_results, conn, ipc_conn, logger):
+    domain = domain_factory()
+    if ipc_conn is not None:
+        pusher = Push0()
+        pusher.dial(ipc_conn)
+    while True:
+        job = conn.recv()
+        job_results[i] = None
+        if job is None:
+            if ipc_conn is not None:
+                pusher.close()
+            conn.close()
+            break
+        else:
+            try:
+                if isinstance(job[0], str):  # job[0] is a domain class' method
+                    r = getattr(domain, job[0])(*job[1])
+                else:  # job[0] is a lambda function
+                    r = lambdas[job[0]](domain, *job[1])
+                job_results[i] = r
+                if ipc_conn is not None:
+                    pusher.send(b'0')  # send success
+                conn.send('0')  # send success
+            except Exception as e:
+                logger.error(rf'/!\ Unable to perform job {job[0]}: {e}')
+                if ipc_conn is not None:
+                    pusher.send(str(e).encode(encoding='UTF-8'))  # send error message
+                else:
+                    conn.send(str(e))  # send failure (!= 0)
+
+class PipeParallelDomain(ParallelDomain):
+    """This class can be used to create and launch n domains in separate processes.
+    Each domain listens for incoming domain requests.
+    Each request can indicate which domain should serve it, otherwise the first available
+    domain i is chosen and its id is returned to the incoming request.
+    """
+    def __init__(self,
+                 domain_factory,
+                 lambdas=None,
+                 nb_domains=os.cpu_count(),
+                 ipc_notify=False):
+        super().__init__(domain_factory, lambdas, nb_domains, ipc_notify)
+        self._manager = mp.Manager()
+        self._waiting_jobs = [None] * nb_domains
+        self._job_results = self._manager.list([None for i in range(nb_domains)])
+        logger.info(rf'Using {nb_domains} parallel piped domains')
+    
+    def get_proc_connections(self):
+        return self._waiting_jobs
+    
+    def launch(self, i, function, *args):
+        if not any(self._processes):
+            self._launch_processes()
+        try:
+            mi = self.wake_up_domain(i)
+            self._waiting_jobs[mi].send((function, args))
+            return mi
+        except Exception as e:
+            if isinstance(function, str):
+                logger.error(rf'/!\ Unable to launch job {function}: {e}')
+            else:
+                logger.error(rf'/!\ Unable to launch job lambdas[{function}]: {e}')
+    
+    def get_result(self, i):
+        self._waiting_jobs[i].recv()
+        r = self._job_results[i]
+        self._job_results[i] = None
+        self._active_domains[i] = False
+        return r
+    
+    def _launch_processes(self):
+        for i in range(len(self._job_results)):
+            self.open_ipc_connection(i)
+            pparent, pchild = mp.Pipe()
+            self._waiting_jobs[i] = pparent
+            self._processes[i] = mp.Process(target=_launch_domain_server_,
+                                            args=[self._domain_factory, self._lambdas, i,
+                                                    self._job_results, pchild,
+                                                    self._ipc_connections[i] if self._ipc_notify else None, logger])
+            self._processes[i].start()
+        # Waits for all jobs to be launched and waiting each for requests
+        while True in set(self._active_domains):
+            continue
+    
+    def close(self):
+        for i in range(len(self._job_results)):
+            self._waiting_jobs[i].send(None)
+            self._processes[i].join()
+            self._processes[i].close()
+            self._waiting_jobs[i].close()
+            self._processes[i] = None
+            self.close_ipc_connection(i)
+
+
+def _shm_launch_domain_server_(domain_factory, lambdas, i,
+                               shm_proxy, shm_registers, shm_types, shm_sizes,
+                               rsize, shm_arrays, shm_lambdas, shm_names, shm_params,
+                               activation, done, cond, ipc_conn, logger):
+    domain = domain_factory()
+    if ipc_conn is not None:
+        pusher = Push0()
+        pusher.dial(ipc_conn)
+    
+    def get_string(s):
+        for i, c in enumerate(s):
+            if c == b'\x00':
+                return s[:i].decode()
+        return s.decode()
+
+    while True:
+        with cond:
+            cond.wait_for(lambda: bool(activation.value) == True)
+            activation.value = False
+        if int(shm_lambdas[i].value) == -1 and shm_names[i][0] == b'\x00':
+            if ipc_conn is not None:
+                pusher.close()
+            break
+        else:
+            try:
+                job_args = []
+                for p in shm_params[i]:
+                    if p >= 0:
+                        sz = shm_sizes[shm_types[p].__name__]
+                        if sz > 1:
+                            si = (i * rsize) + p
+                            job_args.append(shm_proxy.decode(shm_types[p], shm_arrays[si:(si + sz)]))
+                        else:
+                            job_args.append(shm_proxy.decode(shm_types[p], shm_arrays[(i * rsize) + p]))
+                    else:
+                        break  # no more args
+                if int(shm_lambdas[i].value) == -1:  # we are working with a domain class' method
+                    result = getattr(domain, get_string(shm_names[i]))(*job_args)
+                else:  # we are working with a lambda function
+                    result = lambdas[int(shm_lambdas[i].value)](domain, *job_args)
+                shm_params[i][:] = [-1] * len(shm_params[i])
+                if type(result) is not tuple:
+                    result = (result,)
+                if result[0] is not None:
+                    type_counters = {}
+                    for j, r in enumerate(result):
+                        res_name = type(r).__name__
+                        (start, end) = shm_registers[res_name]
+                        if res_name in type_counters:
+                            type_counters[res_name] += shm_sizes[res_name]
+                            k = type_counters[res_name]
+                            if (k >= end):
+                                raise IndexError('''No more available register for type {}. 
+                                                    Please increase the number of registers 
+                                                    for that type.'''.format(res_name))
+                        else:
+                            type_counters[res_name] = start
+                            k = start
+                        shm_params[i][j] = k
+                        sz = shm_sizes[res_name]
+                        if sz > 1:
+                            si = (i * rsize) + k
+                            shm_proxy.encode(r, shm_arrays[si:(si + sz)])
+                        else:
+                            shm_proxy.encode(r, shm_arrays[(i * rsize) + k])
+                if ipc_conn is not None:
+                    pusher.send(b'0')  # send success
+            except Exception as e:
+                if int(shm_lambdas[i].value) == -1:
+                    logger.error(rf'/!\ Unable to perform job {get_string(shm_names[i])}: {e}')
+                else:
+                    logger.error(rf'/!\ Unable to perform job {int(shm_lambdas[i].value)}: {e}')
+                if ipc_conn is not None:
+                    pusher.send(str(e).encode(encoding='UTF-8'))  # send error message
+            with cond:
+                done.value = True
+                cond.notify_all()  # send finished status (no success nor failure information)
+                
+
+class ShmParallelDomain(ParallelDomain):
+    """This class can be used to create and launch n domains in separate processes
+    with shared memory between the Python processes.
+    Each domain listens for incoming domain requests.
+    Each request can indicate which domain should serve it, otherwise the first available
+    domain is chosen and its id is returned to the incoming request.
+    """
+    def __init__(self,
+                 domain_factory,
+                 shm_proxy,
+                 lambdas=None,
+                 nb_domains=os.cpu_count(),
+                 ipc_notify=False):
+        super().__init__(domain_factory, lambdas, nb_domains, ipc_notify)
+        self._activations = [mp.Value('b', False, lock=True) for i in range(nb_domains)]
+        self._dones = [mp.Value('b', False, lock=True) for i in range(nb_domains)]
+        self._conditions = [mp.Condition() for i in range(nb_domains)]
+        self._shm_proxy = shm_proxy
+        self._shm_registers = {}  # Maps from registered method parameter types to vectorized array ranges
+        self._shm_types = {}  # Maps from register index to type
+        self._shm_sizes = {}  # Maps from register method parameter types to number of arrays encoding each type
+        self._shm_arrays = []  # Methods' vectorized parameters
+        self._rsize = 0  # Total size of the register (updated below)
+        self._shm_lambdas = [None] * nb_domains  # Vectorized lambdas' ids
+        self._shm_names = [None] * nb_domains  # Vectorized methods' names
+        self._shm_params = [None] * nb_domains  # Indices of methods' vectorized parameters
+        for i in range(nb_domains):
+            j = 0
+            for r in shm_proxy.register():
+                for k in range(r[1]):
+                    m = shm_proxy.initialize(r[0])
+                    if type(m) == list or type(m) == tuple:
+                        if i == 0 and k == 0:  # do it once for all the domains and redundant initializers
+                            self._shm_sizes[r[0].__name__] = len(m)
+                            self._shm_registers[r[0].__name__] = (j, j + (r[1] * len(m)))
+                            self._shm_types.update({kk: r[0] for kk in range(j, j + (r[1] * len(m)), len(m))})
+                            self._rsize += (r[1] * len(m))
+                        self._shm_arrays.extend(m)
+                        j += len(m)
+                    else:
+                        if i == 0 and k == 0:  # do it once for all the domains and redundant initializers
+                            self._shm_sizes[r[0].__name__] = 1
+                            self._shm_registers[r[0].__name__] = (j, j + r[1])
+                            self._shm_types.update({kk: r[0] for kk in range(j, j + r[1])})
+                            self._rsize += r[1]
+                        self._shm_arrays.append(m)
+                        j += 1
+            self._shm_lambdas[i] = mp.Value('i', -1, lock=True)
+            self._shm_names[i] = mp.Array('c', bytearray(100))
+            self._shm_params[i] = mp.Array('i', [-1] * sum(r[1] for r in shm_proxy.register()))
+        logger.info(rf'Using {nb_domains} parallel shared memory domains')
+    
+    def get_proc_connections(self):
+        return (self._activations, self._conditions)
+    
+    def launch(self, i, function, *args):
+        if not any(self._processes):
+            self._launch_processes()
+        try:
+            mi = self.wake_up_domain(i)
+            if isinstance(function, str):  # function is a domain class' method
+                self._shm_lambdas[mi].value = -1
+                self._shm_names[mi][:] = bytearray(function, encoding='utf-8') + \
+                                         bytearray(len(self._shm_names[mi]) - len(function))
+            else:  # function is a lambda id
+                self._shm_lambdas[mi].value = int(function)
+                self._shm_names[mi][:] = bytearray(len(self._shm_names[mi]))  # reset with null bytes
+            self._shm_params[mi][:] = [-1] * len(self._shm_params[mi])
+            type_counters = {}
+            for j, a in enumerate(args):
+                arg_name = type(a).__name__
+                (start, end) = self._shm_registers[arg_name]
+                if arg_name in type_counters:
+                    type_counters[arg_name] += self._shm_sizes[arg_name]
+                    k = type_counters[arg_name]
+                    if (k >= end):
+                        raise IndexError('''No more available register for type {}. 
+                                            Please increase the number of registers 
+                                            for that type.'''.format(arg_name))
+                else:
+                    type_counters[arg_name] = start
+                    k = start
+                self._shm_params[mi][j] = k
+                sz = self._shm_sizes[arg_name]
+                if sz > 1:
+                    si = (mi * self._rsize) + k
+                    self._shm_proxy.encode(a, self._shm_arrays[si:(si + sz)])
+                else:
+                    self._shm_proxy.encode(a, self._shm_arrays[(mi * self._rsize) + k])
+            with self._conditions[mi]:
+                self._activations[mi].value = True
+                self._conditions[mi].notify_all()
+            return mi
+        except Exception as e:
+            if isinstance(function, str):
+                logger.error(rf'/!\ Unable to launch job {function}: {e}')
+            else:
+                logger.error(rf'/!\ Unable to launch job lambdas[{function}]: {e}')
+    
+    def get_result(self, i):
+        with self._conditions[i]:
+            self._conditions[i].wait_for(lambda: bool(self._dones[i].value) == True)
+            self._dones[i].value = False
+        results = []
+        for r in self._shm_params[i]:
+            if r >= 0:
+                sz = self._shm_sizes[self._shm_types[r].__name__]
+                if sz > 1:
+                    si = (i * self._rsize) + r
+                    results.append(self._shm_proxy.decode(self._shm_types[r], self._shm_arrays[si:(si + sz)]))
+                else:
+                    results.append(self._shm_proxy.decode(self._shm_types[r], self._shm_arrays[(i * self._rsize) + r]))
+            else:
+                break  # no more params
+        self._active_domains[i] = False
+        return results if len(results) > 1 else results[0] if len(results) > 0 else None
+    
+    def _launch_processes(self):
+        for i in range(len(self._processes)):
+            self.open_ipc_connection(i)
+            self._processes[i] = mp.Process(target=_shm_launch_domain_server_,
+                                            args=[self._domain_factory, self._lambdas, i,
+                                                    self._shm_proxy.copy(),
+                                                    dict(self._shm_registers),
+                                                    dict(self._shm_types),
+                                                    dict(self._shm_sizes),
+                                                    self._rsize, list(self._shm_arrays),
+                                                    list(self._shm_lambdas), list(self._shm_names), list(self._shm_params),
+                                                    self._activations[i], self._dones[i], self._conditions[i],
+                                                    self._ipc_connections[i] if self._ipc_notify else None,
+                                                    logger])
+            self._processes[i].start()
+        # Waits for all jobs to be launched and waiting each for requests
+        while True in set(self._active_domains):
+            continue
+    
+    def close(self):
+        for i in range(len(self._processes)):
+            self._shm_lambdas[i].value = -1
+            self._shm_names[i][:] = bytearray(len(self._shm_names[i]))  # reset with null bytes
+            self._shm_params[i][:] = [-1] * len(self._shm_params[i])
+            with self._conditions[i]:
+                self._activations[i].value = True
+                self._conditions[i].notify_all()
+            self._processes[i].join()
+            self._processes[i].close()
+            self._processes[i] = None
+            self.close_ipc_connection(i)
-- 
2.43.0


From 055e942b0a1c58803bc06954ba5b41a497aff2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:58 +0000
Subject: [PATCH 110/142] fix: a failed job of a shared memory domain has no
 result (it was given back its arguments)

---
 skdecide/domains.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skdecide/domains.py b/skdecide/domains.py
index 1de9511..d914c6d 100644
--- a/skdecide/domains.py
+++ b/skdecide/domains.py
@@ -689,6 +689,7 @@ def _shm_launch_domain_server_(domain_factory, lambdas, i,
                     logger.error(rf'/!\ Unable to perform job {get_string(shm_names[i])}: {e}')
                 else:
                     logger.error(rf'/!\ Unable to perform job {int(shm_lambdas[i].value)}: {e}')
+                shm_params[i][:] = [-1] * len(shm_params[i])  # no result
                 if ipc_conn is not None:
                     pusher.send(str(e).encode(encoding='UTF-8'))  # send error message
             with cond:
-- 
2.43.0


From 407beb9a75f265c177a0bc947b8b1797e0a23091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:13 +0000
Subject: [PATCH 111/142] fix: two jobs launched at the same time are not given
 the same parallel domain

---
 skdecide/domains.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/skdecide/domains.py b/skdecide/domains.py
index d914c6d..09a1fd0 100644
--- a/skdecide/domains.py
+++ b/skdecide/domains.py
@@ -419,10 +419,11 @@ class ParallelDomain:
     def wake_up_domain(self, i=None):
         if i is None:
             while True:
-                for j, v in enumerate(self._active_domains):
-                    if not v:
-                        self._active_domains[j] = True
-                        return j
+                with self._active_domains.get_lock():
+                    for j, v in enumerate(self._active_domains):
+                        if not v:
+                            self._active_domains[j] = True
+                            return j
         else:
             self._active_domains[i] = True
             return i
-- 
2.43.0


From 239c63ac828698e87e85929da632c4c7e52fc15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:13 +0000
Subject: [PATCH 112/142] fix: a parallel domain whose job cannot be launched
 stays available

---
 skdecide/domains.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/skdecide/domains.py b/skdecide/domains.py
index 09a1fd0..c36c39d 100644
--- a/skdecide/domains.py
+++ b/skdecide/domains.py
@@ -577,11 +577,14 @@ class PipeParallelDomain(ParallelDomain):
     def launch(self, i, function, *args):
         if not any(self._processes):
             self._launch_processes()
+        mi = None
         try:
             mi = self.wake_up_domain(i)
             self._waiting_jobs[mi].send((function, args))
             return mi
         except Exception as e:
+            if mi is not None:
+                self._active_domains[mi] = False  # no job is running
             if isinstance(function, str):
                 logger.error(rf'/!\ Unable to launch job {function}: {e}')
             else:
@@ -756,6 +759,7 @@ class ShmParallelDomain(ParallelDomain):
     def launch(self, i, function, *args):
         if not any(self._processes):
             self._launch_processes()
+        mi = None
         try:
             mi = self.wake_up_domain(i)
             if isinstance(function, str):  # function is a domain class' method
@@ -792,6 +796,8 @@ class ShmParallelDomain(ParallelDomain):
                 self._conditions[mi].notify_all()
             return mi
         except Exception as e:
+            if mi is not None:
+                self._active_domains[mi] = False  # no job is running
             if isinstance(function, str):
                 logger.error(rf'/!\ Unable to launch job {function}: {e}')
             else:
-- 
2.43.0


From eb3e23bcbbf0f9410485cf6d761c51d686bc5ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:13 +0000
Subject: [PATCH 113/142] fix: a parallel solver creates its domain when it is
 asked for it

---
 skdecide/builders/solver/parallelability.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/solver/parallelability.py b/skdecide/builders/solver/parallelability.py
index 4e3134c..2a530ce 100644
--- a/skdecide/builders/solver/parallelability.py
+++ b/skdecide/builders/solver/parallelability.py
@@ -66,7 +66,7 @@ class ParallelSolver:
         Returns the domain, optionnally creating a parallel domain if not already created.
         """
         if self._domain is None:
-            self._create_domain()
+            self._initialize()
         return self._domain
     
     def call_domain_method(self, name, *args):
-- 
2.43.0


From 6471847d308a92d064ce74495163cc90d0bdd38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:03 +0000
Subject: [PATCH 114/142] fix: POMCP chooses an action even when no simulation
 reaches the goal

---
 skdecide/hub/solver/pomcp/pomcp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/hub/solver/pomcp/pomcp.py b/skdecide/hub/solver/pomcp/pomcp.py
index 810b0da..b7a6124 100644
--- a/skdecide/hub/solver/pomcp/pomcp.py
+++ b/skdecide/hub/solver/pomcp/pomcp.py
@@ -107,7 +107,7 @@ class POMCP(Solver, DeterministicPolicies):
         else it's just the action with min expected cost.
         """
         best_action = None
-        best_action_score = self._VLV
+        best_action_score = math.inf
         if w > 0:
             parent = self._tree[(h_act, h_obs)]
         for action in self._domain.get_action_space().get_elements():
-- 
2.43.0


From 45fc75e302272e998c8ade6af85455c0b416a07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:25 +0000
Subject: [PATCH 115/142] fix: the linear colouring programs accept any node
 names

---
 .../coloring/solvers/coloring_lp_solvers.py            | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/coloring/solvers/coloring_lp_solvers.py b/skdecide/builders/discrete_optimization/coloring/solvers/coloring_lp_solvers.py
index 61fc3f0..403fa48 100644
--- a/skdecide/builders/discrete_optimization/coloring/solvers/coloring_lp_solvers.py
+++ b/skdecide/builders/discrete_optimization/coloring/solvers/coloring_lp_solvers.py
@@ -52,7 +52,6 @@ class ColoringLP(MilpSolver):
         nb_colors = self.start_solution.nb_color
         color_model = Model("color")
         colors_var = {}
-        range_node = range(self.number_of_nodes)
         range_color = range(nb_colors)
         for node in self.nodes_name:
             for color in range_color:
@@ -60,7 +59,7 @@ class ColoringLP(MilpSolver):
                                                              obj=0,
                                                              name="x_" + str((node, color)))
         one_color_constraints = {}
-        for n in range_node:
+        for n in self.nodes_name:
             one_color_constraints[n] = color_model.addConstr(quicksum([colors_var[n, c] for c in range_color]) == 1)
         color_model.update()
         cliques = []
@@ -91,7 +90,7 @@ class ColoringLP(MilpSolver):
             for c in range_color:
                 constraints_neighbors[(e[0], e[1], c)] = \
                     color_model.addConstr(colors_var[e[0], c] + colors_var[e[1], c] <= 1)
-        for n in range_node:
+        for n in self.nodes_name:
             color_model.addConstr(quicksum([(color_i + 1) * colors_var[n, color_i] for color_i in range_color]) <= opt)
         color_model.update()
         color_model.modelSense = GRB.MINIMIZE
@@ -171,7 +170,6 @@ class ColoringLP_MIP(ColoringLP):
                                 sense=mip.MINIMIZE,
                                 solver_name=self.solver_name)
         colors_var = {}
-        range_node = range(self.number_of_nodes)
         range_color = range(nb_colors)
         for node in self.nodes_name:
             for color in range_color:
@@ -179,7 +177,7 @@ class ColoringLP_MIP(ColoringLP):
                                                               obj=0,
                                                               name="x_" + str((node, color)))
         one_color_constraints = {}
-        for n in range_node:
+        for n in self.nodes_name:
             one_color_constraints[n] = color_model.add_constr(xsum([colors_var[n, c] for c in range_color]) == 1)
         cliques = []
         g = self.graph.to_networkx()
@@ -209,7 +207,7 @@ class ColoringLP_MIP(ColoringLP):
             for c in range_color:
                 constraints_neighbors[(e[0], e[1], c)] = \
                     color_model.add_constr(colors_var[e[0], c] + colors_var[e[1], c] <= 1)
-        for n in range_node:
+        for n in self.nodes_name:
             color_model.add_constr(xsum([(color_i + 1) * colors_var[n, color_i] for color_i in range_color]) <= opt)
         self.model = color_model
         self.variable_decision = {"colors_var": colors_var}
-- 
2.43.0


From db4686152a4f9cbcfed8d19f6941d155b5036dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:18 +0000
Subject: [PATCH 116/142] fix: the facility programs do not use a name that
 numpy has removed

---
 .../facility/solvers/facility_lp_solver.py                      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/facility/solvers/facility_lp_solver.py b/skdecide/builders/discrete_optimization/facility/solvers/facility_lp_solver.py
index 8218c0f..4f1a6fe 100644
--- a/skdecide/builders/discrete_optimization/facility/solvers/facility_lp_solver.py
+++ b/skdecide/builders/discrete_optimization/facility/solvers/facility_lp_solver.py
@@ -36,7 +36,7 @@ def prune_search_space(facility_problem: FacilityProblem,
     customers = facility_problem.customers
     nb_facilities = len(facilities)
     nb_customers = len(customers)
-    matrix_fc_indicator = np.zeros((nb_facilities, nb_customers), dtype=np.int)
+    matrix_fc_indicator = np.zeros((nb_facilities, nb_customers), dtype=int)
     matrix_fc_indicator[sorted_costs[:n_cheapest], :] = 2
     for c in range(nb_customers):
         matrix_fc_indicator[closest[:n_shortest, c], c] = 2
-- 
2.43.0


From 03afe8432f59c322c7c933d84d63b1e5533a223b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:18 +0000
Subject: [PATCH 117/142] fix: the knapsack programs follow the order of the
 items whatever their indexes

---
 .../knapsack/solvers/lp_solvers.py             | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/knapsack/solvers/lp_solvers.py b/skdecide/builders/discrete_optimization/knapsack/solvers/lp_solvers.py
index 8145498..d89713c 100644
--- a/skdecide/builders/discrete_optimization/knapsack/solvers/lp_solvers.py
+++ b/skdecide/builders/discrete_optimization/knapsack/solvers/lp_solvers.py
@@ -82,7 +82,7 @@ class LPKnapsackGurobi(SolverDO):
             solutions += [KnapsackSolution(problem=self.knapsack_model,
                                            value=obj,
                                            weight=weight, 
-                                           list_taken=[xs[e] for e in sorted(xs)])]
+                                           list_taken=[xs[item.index] for item in self.knapsack_model.list_items])]
             fits += [self.aggreg_sol(solutions[-1])]
         return ResultStorage(list_solution_fits=[(s, f) for s, f in zip(solutions, fits)],
                              mode_optim=self.params_objective_function.sense_function)
@@ -147,13 +147,13 @@ class LPKnapsackGurobi(SolverDO):
 
     def add_init_solution(self, init_solution: KnapsackSolution):
         for i in self.variable_decision["x"]:
-            self.variable_decision["x"][i].start = init_solution.list_taken[i]
-            self.variable_decision["x"][i].varhintval = init_solution.list_taken[i]
+            self.variable_decision["x"][i].start = init_solution.list_taken[self.knapsack_model.index_to_index_list[i]]
+            self.variable_decision["x"][i].varhintval = init_solution.list_taken[self.knapsack_model.index_to_index_list[i]]
 
     def fix_decision(self,  init_solution: KnapsackSolution, fixed_variable_keys):
         constraints = {}
         for i in fixed_variable_keys:
-            constraints[i] = self.model.addConstr(self.variable_decision["x"][i] == init_solution.list_taken[i])
+            constraints[i] = self.model.addConstr(self.variable_decision["x"][i] == init_solution.list_taken[self.knapsack_model.index_to_index_list[i]])
         return constraints
 
     def describe_the_model(self):
@@ -226,7 +226,7 @@ class LPKnapsackCBC(SolverDO):
         sol = KnapsackSolution(problem=self.knapsack_model,
                                  value=objective,
                                  weight=weight, 
-                                 list_taken=[xs[e] for e in sorted(xs)])
+                                 list_taken=[xs[item.index] for item in self.knapsack_model.list_items])
         fit = self.aggreg_sol(sol)
         return ResultStorage(list_solution_fits=[(sol, fit)],
                              mode_optim=self.params_objective_function.sense_function)
@@ -306,7 +306,7 @@ class LPKnapsack(MilpSolver):
             solutions += [KnapsackSolution(problem=self.knapsack_model,
                                            value=value_kp,
                                            weight=weight,
-                                           list_taken=[xs[e] for e in sorted(xs)])]
+                                           list_taken=[xs[item.index] for item in self.knapsack_model.list_items])]
             fits += [self.aggreg_sol(solutions[-1])]
             print(self.aggreg_sol)
 
@@ -363,13 +363,13 @@ class LPKnapsack(MilpSolver):
     def add_init_solution(self, init_solution: KnapsackSolution):
         start = []
         for i in self.variable_decision["x"]:
-            start += [(self.variable_decision["x"][i], init_solution.list_taken[i])]
+            start += [(self.variable_decision["x"][i], init_solution.list_taken[self.knapsack_model.index_to_index_list[i]])]
         self.model.start = start
 
     def fix_decision(self, init_solution: KnapsackSolution, fixed_variable_keys):
         constraints = {}
         for i in fixed_variable_keys:
-            constraints[i] = self.model.add_constr(self.variable_decision["x"][i] == init_solution.list_taken[i])
+            constraints[i] = self.model.add_constr(self.variable_decision["x"][i] == init_solution.list_taken[self.knapsack_model.index_to_index_list[i]])
         return constraints
 
     def describe_the_model(self):
@@ -414,7 +414,7 @@ class KnapsackORTools(SolverDO):
         sol = KnapsackSolution(problem=self.knapsack_model,
                                value=value,
                                weight=weight,
-                               list_taken=[xs[e] for e in sorted(xs)])
+                               list_taken=[xs[item.index] for item in self.knapsack_model.list_items])
         fit = self.aggreg_sol(sol)
         return ResultStorage(list_solution_fits=[(sol, fit)],
                              mode_optim=self.params_objective_function.sense_function)
-- 
2.43.0


From 3b19fd49a78fcc7a303ee7082490343644a1aaf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:14 +0000
Subject: [PATCH 118/142] fix: every knapsack solution of the gurobi pool has
 its own value

---
 .../discrete_optimization/knapsack/solvers/lp_solvers.py     | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/knapsack/solvers/lp_solvers.py b/skdecide/builders/discrete_optimization/knapsack/solvers/lp_solvers.py
index d89713c..e99eed3 100644
--- a/skdecide/builders/discrete_optimization/knapsack/solvers/lp_solvers.py
+++ b/skdecide/builders/discrete_optimization/knapsack/solvers/lp_solvers.py
@@ -69,9 +69,9 @@ class LPKnapsackGurobi(SolverDO):
         # x = S.getVars()
         for s in range_solutions:
             weight = 0
+            value_kp = 0
             xs = {}
             self.model.params.SolutionNumber = s
-            obj = self.model.getAttr("ObjVal")
             for e in self.variable_decision["x"]:
                 value = self.variable_decision["x"][e].getAttr('Xn')
                 if value <= 0.1:
@@ -79,8 +79,9 @@ class LPKnapsackGurobi(SolverDO):
                     continue
                 xs[e] = 1
                 weight += self.knapsack_model.index_to_item[e].weight
+                value_kp += self.knapsack_model.index_to_item[e].value
             solutions += [KnapsackSolution(problem=self.knapsack_model,
-                                           value=obj,
+                                           value=value_kp,
                                            weight=weight, 
                                            list_taken=[xs[item.index] for item in self.knapsack_model.list_items])]
             fits += [self.aggreg_sol(solutions[-1])]
-- 
2.43.0


From fc9aeea9eb2c96154aa3109b6482bca63486afb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:43 +0000
Subject: [PATCH 119/142] fix: the gurobi scheduling program accepts time steps
 at which no task can run

---
 .../discrete_optimization/rcpsp/solver/rcpsp_lp_solver.py     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_lp_solver.py b/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_lp_solver.py
index caf2946..b180be7 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_lp_solver.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_lp_solver.py
@@ -516,12 +516,12 @@ class LP_MRCPSP_GUROBI(MilpSolver):
 
         #for r, t in product(renewable, self.T):
         #    self.model.addConstr(gurobi.quicksum(int(self.rcpsp_model.mode_details[key[0]][key[1]][r]) * self.x[key]
-        #                                          for key in keys_for_t[t])
+        #                                          for key in keys_for_t.get(t, ()))
         #                          <= renewable_quantity[r][t])
         #    print(r, t)
 
         self.model.addConstrs(gurobi.quicksum(int(self.rcpsp_model.mode_details[key[0]][key[1]][r]) * self.x[key]
-                                              for key in keys_for_t[t])
+                                              for key in keys_for_t.get(t, ()))
                                               <= renewable_quantity[r][t]
                               for (r,t) in product(renewable, self.T))
 
-- 
2.43.0


From bf040dbeadff9fe8b94115761c6737af90ad10b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:43 +0000
Subject: [PATCH 120/142] fix: a partial schedule has the constraints that the
 linear programs read

---
 .../discrete_optimization/rcpsp/rcpsp_model.py        | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
index 24c40c2..2ec4449 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
@@ -465,7 +465,11 @@ class PartialSolution:
                  start_times: Dict[int, int]=None,
                  end_times: Dict[int, int]=None,
                  partial_permutation: List[int]=None,
-                 list_partial_order: List[List[int]]=None):
+                 list_partial_order: List[List[int]]=None,
+                 start_together: List[Tuple[int, int]]=None,
+                 start_at_end: List[Tuple[int, int]]=None,
+                 start_at_end_plus_offset: List[Tuple[int, int, int]]=None,
+                 start_after_nunit: List[Tuple[int, int, int]]=None):
         self.task_mode = task_mode
         self.start_times = start_times
         self.end_times = end_times
@@ -473,6 +477,11 @@ class PartialSolution:
         self.list_partial_order = list_partial_order
         # one element in self.list_partial_order is a list [l1, l2, l3]
         # indicating that l1 should be started before l1, and  l2 before l3 for example
+        self.start_together = start_together  # (t1, t2) : t2 starts with t1
+        self.start_at_end = start_at_end  # (t1, t2) : t2 starts at the end of t1
+        self.start_at_end_plus_offset = start_at_end_plus_offset
+        # (t1, t2, delta) : t2 starts at least delta after the end of t1
+        self.start_after_nunit = start_after_nunit  # (t1, t2, delta) : t2 starts at least delta after the start of t1
 
 
 class RCPSPModel(Problem):
-- 
2.43.0


From 8e30a23c8353d79a6af3912f0b2661b9f2c1c0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:12 +0000
Subject: [PATCH 121/142] fix: the gurobi scheduling program combines start
 times with other partial solutions

---
 .../discrete_optimization/rcpsp/solver/rcpsp_lp_solver.py   | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_lp_solver.py b/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_lp_solver.py
index b180be7..b7ec401 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_lp_solver.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_lp_solver.py
@@ -572,9 +572,9 @@ class LP_MRCPSP_GUROBI(MilpSolver):
         if p_s is not None:
             constraints = []
             if p_s.start_times is not None:
-                constraints = self.model.addConstrs(gurobi.quicksum([self.x[k] for k in self.variable_per_task[task]
-                                                                if k[2] == p_s.start_times[task]]) == 1
-                                                    for task in p_s.start_times)
+                constraints = [self.model.addConstr(gurobi.quicksum([self.x[k] for k in self.variable_per_task[task]
+                                                                     if k[2] == p_s.start_times[task]]) == 1)
+                               for task in p_s.start_times]
             if p_s.partial_permutation is not None:
                 for t1, t2 in zip(p_s.partial_permutation[:-1], p_s.partial_permutation[1:]):
                     constraints += [self.model.addConstr(gurobi.quicksum([key[2] * self.x[key] for key in variable_per_task[t1]]
-- 
2.43.0


From e0a7bd9f96e3e21c2dd5883dfc37623e89e784e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:19 +0000
Subject: [PATCH 122/142] fix: the integer programs of the travelling salesman
 allow the tour of two points

---
 .../discrete_optimization/tsp/solver/solver_lp_iterative.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/tsp/solver/solver_lp_iterative.py b/skdecide/builders/discrete_optimization/tsp/solver/solver_lp_iterative.py
index c7f3c51..e1a1abb 100644
--- a/skdecide/builders/discrete_optimization/tsp/solver/solver_lp_iterative.py
+++ b/skdecide/builders/discrete_optimization/tsp/solver/solver_lp_iterative.py
@@ -165,7 +165,8 @@ class LP_TSP_Iterative(SolverDO):
         constraint_tour_2length = {}
         cnt_tour = 0
         for edge in edges:
-            if (edge[1], edge[0]) in edges:
+            # a tour of two points goes back the way it came
+            if (edge[1], edge[0]) in edges and self.node_count > 2:
                 constraint_tour_2length[cnt_tour] = tsp_model.addConstr(x_var[edge]+x_var[(edge[1], edge[0])]<=1, name="Tour_"+str(cnt_tour))
                 cnt_tour += 1
         tsp_model.update()
@@ -231,7 +232,8 @@ class LP_TSP_Iterative(SolverDO):
         constraint_tour_2length = {}
         cnt_tour = 0
         for edge in edges:
-            if (edge[1], edge[0]) in edges:
+            # a tour of two points goes back the way it came
+            if (edge[1], edge[0]) in edges and self.node_count > 2:
                 constraint_tour_2length[cnt_tour] = tsp_model.Add(x_var[edge]+x_var[(edge[1], edge[0])]<=1)
                 cnt_tour += 1
         # constraint_flow_in = {}
-- 
2.43.0


From 45851673e3c8fa162433b14be6ddfc14d00fd000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:20 +0000
Subject: [PATCH 123/142] fix: the parallel domains module has its original
 line endings

---
 skdecide/domains.py | 1708 +++++++++++++++++++++----------------------
 1 file changed, 854 insertions(+), 854 deletions(-)

diff --git a/skdecide/domains.py b/skdecide/domains.py
index c36c39d..d1c28ad 100644
--- a/skdecide/domains.py
+++ b/skdecide/domains.py
@@ -1,854 +1,854 @@
-# Copyright (c) AIRBUS and its affiliates.
-# This source code is licensed under the MIT license found in the
-# LICENSE file in the root directory of this source tree.
-
-"""This module contains base classes for quickly building domains."""
-from __future__ import annotations
-
-import os
-import logging
-from typing import NewType, Optional, Callable
-
-from pathos.helpers import mp
-import tempfile
-from pynng import Push0
-
-# Following import is required to make Enum objects serializable
-# (useful when multiprocessing and pickling domains that use Enum classes)
-import dill
-dill.settings['byref'] = True
-
-from skdecide.core import autocast_all
-from skdecide.builders.domain.agent import MultiAgent, SingleAgent
-from skdecide.builders.domain.concurrency import Parallel, Sequential
-from skdecide.builders.domain.dynamics import Environment, Simulation, EnumerableTransitions, DeterministicTransitions
-from skdecide.builders.domain.events import Events, Actions
-from skdecide.builders.domain.goals import Goals
-from skdecide.builders.domain.initialization import Initializable, UncertainInitialized, DeterministicInitialized
-from skdecide.builders.domain.memory import History, Markovian
-from skdecide.builders.domain.observability import PartiallyObservable, TransformedObservable, FullyObservable
-from skdecide.builders.domain.value import Rewards, PositiveCosts
-if False:  # trick to avoid circular import & IDE error ("Unresolved reference 'Solver'")
-    from skdecide.solvers import Solver
-
-__all__ = ['Domain', 'RLDomain', 'MultiAgentRLDomain', 'StatelessSimulatorDomain', 'MDPDomain', 'POMDPDomain',
-           'GoalMDPDomain', 'GoalPOMDPDomain', 'DeterministicPlanningDomain']
-
-logger = logging.getLogger('skdecide.domains')
-
-logger.setLevel(logging.INFO)
-
-if not len(logger.handlers):
-    ch = logging.StreamHandler()
-    # create formatter and add it to the handlers
-    formatter = logging.Formatter('%(asctime)s | %(name)s | %(levelname)s | %(message)s')
-    ch.setFormatter(formatter)
-    # add the handlers to the logger
-    logger.addHandler(ch)
-    logger.propagate = False
-
-
-# MAIN BASE CLASS
-
-class Domain(MultiAgent, Parallel, Environment, Events, History, PartiallyObservable, Rewards):
-    """This is the highest level domain class (inheriting top-level class for each mandatory domain characteristic).
-
-    This helper class can be used as the main base class for domains.
-
-    Typical use:
-    ```python
-    class D(Domain, ...)
-    ```
-
-    with "..." replaced when needed by a number of classes from following domain characteristics (the ones in
-    parentheses are optional):
-
-    - **agent**: MultiAgent -> SingleAgent
-    - **concurrency**: Parallel -> Sequential
-    - **(constraints)**: Constrained
-    - **dynamics**: Environment -> Simulation -> UncertainTransitions -> EnumerableTransitions
-      -> DeterministicTransitions
-    - **events**: Events -> Actions -> UnrestrictedActions
-    - **(goals)**: Goals
-    - **(initialization)**: Initializable -> UncertainInitialized -> DeterministicInitialized
-    - **memory**: History -> FiniteHistory -> Markovian -> Memoryless
-    - **observability**: PartiallyObservable -> TransformedObservable -> FullyObservable
-    - **(renderability)**: Renderable
-    - **value**: Rewards -> PositiveCosts
-    """
-    T_state = NewType('T_state', object)
-    T_observation = NewType('T_observation', object)
-    T_event = NewType('T_event', object)
-    T_value = NewType('T_value', object)
-    T_info = NewType('T_info', object)
-
-    @classmethod
-    def solve_with(cls, solver: Solver,
-                   domain_factory: Optional[Callable[[], Domain]] = None, load_path: Optional[str] = None) -> Solver:
-        """Solve the domain with a new or loaded solver and return it auto-cast to the level of the domain.
-
-        By default, #Solver.check_domain() provides some boilerplate code and internally
-        calls #Solver._check_domain_additional() (which returns True by default but can be overridden  to define
-        specific checks in addition to the "domain requirements"). The boilerplate code automatically checks whether all
-        domain requirements are met.
-
-        # Parameters
-        solver: The solver.
-        domain_factory: A callable with no argument returning the domain to solve (factory is the domain class if None).
-        load_path: The path to restore the solver state from (if None, the solving process will be launched instead).
-
-        # Returns
-        The new solver (auto-cast to the level of the domain).
-        """
-        if domain_factory is None:
-            domain_factory = cls
-        if load_path is not None:
-
-            # TODO: avoid repeating this code somehow (identical in solver.solve(...))? Is factory necessary (vs cls)?
-            def cast_domain_factory():
-                domain = domain_factory()
-                autocast_all(domain, domain, solver.T_domain)
-                return domain
-
-            solver.load(load_path, cast_domain_factory)
-        else:
-            solver.solve(domain_factory)
-        autocast_all(solver, solver.T_domain, cls)
-        return solver
-
-
-# ALTERNATE BASE CLASSES (for typical combinations)
-
-class RLDomain(Domain, SingleAgent, Sequential, Environment, Actions, Initializable, Markovian, TransformedObservable,
-               Rewards):
-    """This is a typical Reinforcement Learning domain class.
-
-    This helper class can be used as an alternate base class for domains, inheriting the following:
-
-    - Domain
-    - SingleAgent
-    - Sequential
-    - Environment
-    - Actions
-    - Initializable
-    - Markovian
-    - TransformedObservable
-    - Rewards
-
-    Typical use:
-    ```python
-    class D(RLDomain)
-    ```
-
-    !!! tip
-        It is also possible to refine any alternate base class, like for instance:
-        ```python
-        class D(RLDomain, FullyObservable)
-        ```
-    """
-    pass
-
-
-class MultiAgentRLDomain(Domain, MultiAgent, Sequential, Environment, Actions, Initializable, Markovian,
-                         TransformedObservable, Rewards):
-    """This is a typical multi-agent Reinforcement Learning domain class.
-
-    This helper class can be used as an alternate base class for domains, inheriting the following:
-
-    - Domain
-    - MultiAgent
-    - Sequential
-    - Environment
-    - Actions
-    - Initializable
-    - Markovian
-    - TransformedObservable
-    - Rewards
-
-    Typical use:
-    ```python
-    class D(RLDomain)
-    ```
-
-    !!! tip
-        It is also possible to refine any alternate base class, like for instance:
-        ```python
-        class D(RLDomain, FullyObservable)
-        ```
-    """
-    pass
-
-
-class StatelessSimulatorDomain(Domain, SingleAgent, Sequential, Simulation, Actions, Markovian, TransformedObservable,
-                               Rewards):
-    """This is a typical stateless simulator domain class.
-
-    This helper class can be used as an alternate base class for domains, inheriting the following:
-
-    - Domain
-    - SingleAgent
-    - Sequential
-    - Simulation
-    - Actions
-    - Markovian
-    - TransformedObservable
-    - Rewards
-
-    Typical use:
-    ```python
-    class D(StatelessSimulatorDomain)
-    ```
-
-    !!! tip
-        It is also possible to refine any alternate base class, like for instance:
-        ```python
-        class D(RLDomain, FullyObservable)
-        ```
-    """
-    pass
-
-
-class MDPDomain(Domain, SingleAgent, Sequential, EnumerableTransitions, Actions, DeterministicInitialized, Markovian,
-                FullyObservable, Rewards):
-    """This is a typical Markov Decision Process domain class.
-
-    This helper class can be used as an alternate base class for domains, inheriting the following:
-
-    - Domain
-    - SingleAgent
-    - Sequential
-    - EnumerableTransitions
-    - Actions
-    - DeterministicInitialized
-    - Markovian
-    - FullyObservable
-    - Rewards
-
-    Typical use:
-    ```python
-    class D(MDPDomain)
-    ```
-
-    !!! tip
-        It is also possible to refine any alternate base class, like for instance:
-        ```python
-        class D(RLDomain, FullyObservable)
-        ```
-    """
-    pass
-
-
-class POMDPDomain(Domain, SingleAgent, Sequential, EnumerableTransitions, Actions, UncertainInitialized, Markovian,
-                  PartiallyObservable, Rewards):
-    """This is a typical Partially Observable Markov Decision Process domain class.
-
-    This helper class can be used as an alternate base class for domains, inheriting the following:
-
-    - Domain
-    - SingleAgent
-    - Sequential
-    - EnumerableTransitions
-    - Actions
-    - UncertainInitialized
-    - Markovian
-    - PartiallyObservable
-    - Rewards
-
-    Typical use:
-    ```python
-    class D(POMDPDomain)
-    ```
-
-    !!! tip
-        It is also possible to refine any alternate base class, like for instance:
-        ```python
-        class D(RLDomain, FullyObservable)
-        ```
-    """
-    pass
-
-
-class GoalMDPDomain(Domain, SingleAgent, Sequential, EnumerableTransitions, Actions, Goals, DeterministicInitialized,
-                    Markovian, FullyObservable, PositiveCosts):
-    """This is a typical Goal Markov Decision Process domain class.
-
-    This helper class can be used as an alternate base class for domains, inheriting the following:
-
-    - Domain
-    - SingleAgent
-    - Sequential
-    - EnumerableTransitions
-    - Actions
-    - Goals
-    - DeterministicInitialized
-    - Markovian
-    - FullyObservable
-    - PositiveCosts
-
-    Typical use:
-    ```python
-    class D(GoalMDPDomain)
-    ```
-
-    !!! tip
-        It is also possible to refine any alternate base class, like for instance:
-        ```python
-        class D(RLDomain, FullyObservable)
-        ```
-    """
-    pass
-
-
-class GoalPOMDPDomain(Domain, SingleAgent, Sequential, EnumerableTransitions, Actions, Goals, UncertainInitialized,
-                      Markovian, PartiallyObservable, PositiveCosts):
-    """This is a typical Goal Partially Observable Markov Decision Process domain class.
-
-    This helper class can be used as an alternate base class for domains, inheriting the following:
-
-    - Domain
-    - SingleAgent
-    - Sequential
-    - EnumerableTransitions
-    - Actions
-    - Goals
-    - UncertainInitialized
-    - Markovian
-    - PartiallyObservable
-    - PositiveCosts
-
-    Typical use:
-    ```python
-    class D(GoalPOMDPDomain)
-    ```
-
-    !!! tip
-        It is also possible to refine any alternate base class, like for instance:
-        ```python
-        class D(RLDomain, FullyObservable)
-        ```
-    """
-    pass
-
-
-class DeterministicPlanningDomain(Domain, SingleAgent, Sequential, DeterministicTransitions, Actions, Goals,
-                                  DeterministicInitialized, Markovian, FullyObservable, PositiveCosts):
-    """This is a typical deterministic planning domain class.
-
-    This helper class can be used as an alternate base class for domains, inheriting the following:
-
-    - Domain
-    - SingleAgent
-    - Sequential
-    - DeterministicTransitions
-    - Actions
-    - Goals
-    - DeterministicInitialized
-    - Markovian
-    - FullyObservable
-    - PositiveCosts
-
-    Typical use:
-    ```python
-    class D(DeterministicPlanningDomain)
-    ```
-
-    !!! tip
-        It is also possible to refine any alternate base class, like for instance:
-        ```python
-        class D(RLDomain, FullyObservable)
-        ```
-    """
-    pass
-
-
-class ParallelDomain:
-    """Base class for creating and launching n domains in separate processes.
-    Each domain listens for incoming domain requests.
-    Each request can indicate which domain should serve it, otherwise the first available
-    domain i is chosen and its id is returned to the incoming request.
-    """
-    def __init__(self,
-                 domain_factory,
-                 lambdas=None,
-                 nb_domains=os.cpu_count(),
-                 ipc_notify=False):
-        self._domain_factory = domain_factory
-        self._lambdas = lambdas
-        self._active_domains = mp.Array('b', [False for i in range(nb_domains)], lock=True)
-        self._temp_connections = [None] * nb_domains
-        self._ipc_connections = [None] * nb_domains
-        self._processes = [None] * nb_domains
-        self._ipc_notify = ipc_notify
-    
-    def open_ipc_connection(self, i):
-        self._temp_connections[i] = tempfile.NamedTemporaryFile()
-        self._ipc_connections[i] = 'ipc://' + self._temp_connections[i].name + '.ipc'
-    
-    def close_ipc_connection(self, i):
-        self._temp_connections[i].close()
-        self._ipc_connections[i] = None
-    
-    def _launch_processes(self):
-        raise NotImplementedError
-    
-    def close(self):
-        raise NotImplementedError
-
-    def __enter__(self):
-        self._launch_processes()
-        return self
-        
-    def __exit__ (self, type, value, tb):
-        self.close()
-
-    def launch(self, i, name, *args):
-        raise NotImplementedError
-
-    def get_proc_connections(self):  # process connections for use in python
-        raise NotImplementedError
-    
-    def get_ipc_connections(self):  # inter-process connections for use with C++
-        return self._ipc_connections
-    
-    def get_parallel_capacity(self):
-        return self.nb_domains()
-    
-    def nb_domains(self):
-        return len(self._processes)
-    
-    def wake_up_domain(self, i=None):
-        if i is None:
-            while True:
-                with self._active_domains.get_lock():
-                    for j, v in enumerate(self._active_domains):
-                        if not v:
-                            self._active_domains[j] = True
-                            return j
-        else:
-            self._active_domains[i] = True
-            return i
-    
-    def reset(self, i=None):
-        return self.launch(i, 'reset')
-    
-    def get_initial_state_distribution(self, i=None):
-        return self.launch(i, 'get_initial_state_distribution')
-    
-    def get_initial_state(self, i=None):
-        return self.launch(i, 'get_initial_state')
-    
-    def get_observation_space(self, i=None):
-        return self.launch(i, 'get_observation_space')
-    
-    def is_observation(self, observation, i=None):
-        return self.launch(i, 'is_observation', observation)
-    
-    def get_observation_distribution(self, state, action, i=None):
-        return self.launch(i, 'get_observation_distribution', state, action)
-    
-    def get_observation(self, state, action, i=None):
-        return self.launch(i, 'get_observation', state, action)
-    
-    def get_enabled_events(self, memory, i=None):
-        return self.launch(i, 'get_enabled_events', memory)
-    
-    def is_enabled_event(self, event, memory, i=None):
-        return self.launch(i, 'is_enabled_event', event, memory)
-    
-    def get_action_space(self, i=None):
-        return self.launch(i, 'get_action_space')
-
-    def is_action(self, event, i=None):
-        return self.launch(i, 'is_action', event)
-    
-    def get_applicable_actions(self, memory, i=None):
-        return self.launch(i, 'get_applicable_actions', memory)
-    
-    def is_applicable_action(self, action, memory, i=None):
-        return self.launch(i, 'is_applicable_action', action, memory)
-    
-    def step(self, action, i=None):
-        return self.launch(i, 'step', action)
-    
-    def sample(self, memory, action, i=None):
-        return self.launch(i, 'sample', memory, action)
-    
-    def get_next_state_distribution(self, memory, action, i=None):
-        return self.launch(i, 'get_next_state_distribution', memory, action)
-    
-    def get_next_state(self, memory, action, i=None):
-        return self.launch(i, 'get_next_state', memory, action)
-    
-    def get_transition_value(self, memory, action, next_state, i=None):
-        return self.launch(i, 'get_transition_value', memory, action, next_state)
-    
-    def is_transition_value_dependent_on_next_state(self, i=None):
-        return self.launch(i, 'is_transition_value_dependent_on_next_state')
-    
-    def get_goals(self, i=None):
-        return self.launch(i, 'get_goals')
-    
-    def is_goal(self, observation, i=None):
-        return self.launch(i, 'is_goal', observation)
-    
-    def is_terminal(self, state, i=None):
-        return self.launch(i, 'is_terminal', state)
-    
-    def check_value(self, value, i=None):
-        return self.launch(i, 'check_value', value)
-    
-    def render(self, memory, i=None):
-        return self.launch(i, 'render', memory)
-
-    # Call a lambda function (usually involves the original domain)
-    def call(self, i, lambda_id, *args):
-        return self.launch(i, lambda_id, *args)
-    
-    # The original sequential domain may have methods we don't know
-    def __getattr__(self, name):
-        def method(*args, i=None):
-            return self.launch(i, name, *args)
-        return method
-    
-    # Bypass __getattr_.method() when serializing the class.
-    # Required on Windows when spawning the main process.
-    def __getstate__(self):
-        d = self.__dict__.copy()
-        del d['_temp_connections']  # we cannot serialize a file
-        return d
-
-    # Bypass __getattr_.method() when serializing the class.
-    # Required on Windows when spawning the main process.
-    def __setstate__(self, state):
-        self.__dict__ = state
-        # TODO: reopen the temp connection from _ipc_connections
-
-def _launch_domain_server_(domain_factory, lambdas, i,
-                           job_results, conn, ipc_conn, logger):
-    domain = domain_factory()
-    if ipc_conn is not None:
-        pusher = Push0()
-        pusher.dial(ipc_conn)
-    while True:
-        job = conn.recv()
-        job_results[i] = None
-        if job is None:
-            if ipc_conn is not None:
-                pusher.close()
-            conn.close()
-            break
-        else:
-            try:
-                if isinstance(job[0], str):  # job[0] is a domain class' method
-                    r = getattr(domain, job[0])(*job[1])
-                else:  # job[0] is a lambda function
-                    r = lambdas[job[0]](domain, *job[1])
-                job_results[i] = r
-                if ipc_conn is not None:
-                    pusher.send(b'0')  # send success
-                conn.send('0')  # send success
-            except Exception as e:
-                logger.error(rf'/!\ Unable to perform job {job[0]}: {e}')
-                if ipc_conn is not None:
-                    pusher.send(str(e).encode(encoding='UTF-8'))  # send error message
-                else:
-                    conn.send(str(e))  # send failure (!= 0)
-
-class PipeParallelDomain(ParallelDomain):
-    """This class can be used to create and launch n domains in separate processes.
-    Each domain listens for incoming domain requests.
-    Each request can indicate which domain should serve it, otherwise the first available
-    domain i is chosen and its id is returned to the incoming request.
-    """
-    def __init__(self,
-                 domain_factory,
-                 lambdas=None,
-                 nb_domains=os.cpu_count(),
-                 ipc_notify=False):
-        super().__init__(domain_factory, lambdas, nb_domains, ipc_notify)
-        self._manager = mp.Manager()
-        self._waiting_jobs = [None] * nb_domains
-        self._job_results = self._manager.list([None for i in range(nb_domains)])
-        logger.info(rf'Using {nb_domains} parallel piped domains')
-    
-    def get_proc_connections(self):
-        return self._waiting_jobs
-    
-    def launch(self, i, function, *args):
-        if not any(self._processes):
-            self._launch_processes()
-        mi = None
-        try:
-            mi = self.wake_up_domain(i)
-            self._waiting_jobs[mi].send((function, args))
-            return mi
-        except Exception as e:
-            if mi is not None:
-                self._active_domains[mi] = False  # no job is running
-            if isinstance(function, str):
-                logger.error(rf'/!\ Unable to launch job {function}: {e}')
-            else:
-                logger.error(rf'/!\ Unable to launch job lambdas[{function}]: {e}')
-    
-    def get_result(self, i):
-        self._waiting_jobs[i].recv()
-        r = self._job_results[i]
-        self._job_results[i] = None
-        self._active_domains[i] = False
-        return r
-    
-    def _launch_processes(self):
-        for i in range(len(self._job_results)):
-            self.open_ipc_connection(i)
-            pparent, pchild = mp.Pipe()
-            self._waiting_jobs[i] = pparent
-            self._processes[i] = mp.Process(target=_launch_domain_server_,
-                                            args=[self._domain_factory, self._lambdas, i,
-                                                    self._job_results, pchild,
-                                                    self._ipc_connections[i] if self._ipc_notify else None, logger])
-            self._processes[i].start()
-        # Waits for all jobs to be launched and waiting each for requests
-        while True in set(self._active_domains):
-            continue
-    
-    def close(self):
-        for i in range(len(self._job_results)):
-            self._waiting_jobs[i].send(None)
-            self._processes[i].join()
-            self._processes[i].close()
-            self._waiting_jobs[i].close()
-            self._processes[i] = None
-            self.close_ipc_connection(i)
-
-
-def _shm_launch_domain_server_(domain_factory, lambdas, i,
-                               shm_proxy, shm_registers, shm_types, shm_sizes,
-                               rsize, shm_arrays, shm_lambdas, shm_names, shm_params,
-                               activation, done, cond, ipc_conn, logger):
-    domain = domain_factory()
-    if ipc_conn is not None:
-        pusher = Push0()
-        pusher.dial(ipc_conn)
-    
-    def get_string(s):
-        for i, c in enumerate(s):
-            if c == b'\x00':
-                return s[:i].decode()
-        return s.decode()
-
-    while True:
-        with cond:
-            cond.wait_for(lambda: bool(activation.value) == True)
-            activation.value = False
-        if int(shm_lambdas[i].value) == -1 and shm_names[i][0] == b'\x00':
-            if ipc_conn is not None:
-                pusher.close()
-            break
-        else:
-            try:
-                job_args = []
-                for p in shm_params[i]:
-                    if p >= 0:
-                        sz = shm_sizes[shm_types[p].__name__]
-                        if sz > 1:
-                            si = (i * rsize) + p
-                            job_args.append(shm_proxy.decode(shm_types[p], shm_arrays[si:(si + sz)]))
-                        else:
-                            job_args.append(shm_proxy.decode(shm_types[p], shm_arrays[(i * rsize) + p]))
-                    else:
-                        break  # no more args
-                if int(shm_lambdas[i].value) == -1:  # we are working with a domain class' method
-                    result = getattr(domain, get_string(shm_names[i]))(*job_args)
-                else:  # we are working with a lambda function
-                    result = lambdas[int(shm_lambdas[i].value)](domain, *job_args)
-                shm_params[i][:] = [-1] * len(shm_params[i])
-                if type(result) is not tuple:
-                    result = (result,)
-                if result[0] is not None:
-                    type_counters = {}
-                    for j, r in enumerate(result):
-                        res_name = type(r).__name__
-                        (start, end) = shm_registers[res_name]
-                        if res_name in type_counters:
-                            type_counters[res_name] += shm_sizes[res_name]
-                            k = type_counters[res_name]
-                            if (k >= end):
-                                raise IndexError('''No more available register for type {}. 
-                                                    Please increase the number of registers 
-                                                    for that type.'''.format(res_name))
-                        else:
-                            type_counters[res_name] = start
-                            k = start
-                        shm_params[i][j] = k
-                        sz = shm_sizes[res_name]
-                        if sz > 1:
-                            si = (i * rsize) + k
-                            shm_proxy.encode(r, shm_arrays[si:(si + sz)])
-                        else:
-                            shm_proxy.encode(r, shm_arrays[(i * rsize) + k])
-                if ipc_conn is not None:
-                    pusher.send(b'0')  # send success
-            except Exception as e:
-                if int(shm_lambdas[i].value) == -1:
-                    logger.error(rf'/!\ Unable to perform job {get_string(shm_names[i])}: {e}')
-                else:
-                    logger.error(rf'/!\ Unable to perform job {int(shm_lambdas[i].value)}: {e}')
-                shm_params[i][:] = [-1] * len(shm_params[i])  # no result
-                if ipc_conn is not None:
-                    pusher.send(str(e).encode(encoding='UTF-8'))  # send error message
-            with cond:
-                done.value = True
-                cond.notify_all()  # send finished status (no success nor failure information)
-                
-
-class ShmParallelDomain(ParallelDomain):
-    """This class can be used to create and launch n domains in separate processes
-    with shared memory between the Python processes.
-    Each domain listens for incoming domain requests.
-    Each request can indicate which domain should serve it, otherwise the first available
-    domain is chosen and its id is returned to the incoming request.
-    """
-    def __init__(self,
-                 domain_factory,
-                 shm_proxy,
-                 lambdas=None,
-                 nb_domains=os.cpu_count(),
-                 ipc_notify=False):
-        super().__init__(domain_factory, lambdas, nb_domains, ipc_notify)
-        self._activations = [mp.Value('b', False, lock=True) for i in range(nb_domains)]
-        self._dones = [mp.Value('b', False, lock=True) for i in range(nb_domains)]
-        self._conditions = [mp.Condition() for i in range(nb_domains)]
-        self._shm_proxy = shm_proxy
-        self._shm_registers = {}  # Maps from registered method parameter types to vectorized array ranges
-        self._shm_types = {}  # Maps from register index to type
-        self._shm_sizes = {}  # Maps from register method parameter types to number of arrays encoding each type
-        self._shm_arrays = []  # Methods' vectorized parameters
-        self._rsize = 0  # Total size of the register (updated below)
-        self._shm_lambdas = [None] * nb_domains  # Vectorized lambdas' ids
-        self._shm_names = [None] * nb_domains  # Vectorized methods' names
-        self._shm_params = [None] * nb_domains  # Indices of methods' vectorized parameters
-        for i in range(nb_domains):
-            j = 0
-            for r in shm_proxy.register():
-                for k in range(r[1]):
-                    m = shm_proxy.initialize(r[0])
-                    if type(m) == list or type(m) == tuple:
-                        if i == 0 and k == 0:  # do it once for all the domains and redundant initializers
-                            self._shm_sizes[r[0].__name__] = len(m)
-                            self._shm_registers[r[0].__name__] = (j, j + (r[1] * len(m)))
-                            self._shm_types.update({kk: r[0] for kk in range(j, j + (r[1] * len(m)), len(m))})
-                            self._rsize += (r[1] * len(m))
-                        self._shm_arrays.extend(m)
-                        j += len(m)
-                    else:
-                        if i == 0 and k == 0:  # do it once for all the domains and redundant initializers
-                            self._shm_sizes[r[0].__name__] = 1
-                            self._shm_registers[r[0].__name__] = (j, j + r[1])
-                            self._shm_types.update({kk: r[0] for kk in range(j, j + r[1])})
-                            self._rsize += r[1]
-                        self._shm_arrays.append(m)
-                        j += 1
-            self._shm_lambdas[i] = mp.Value('i', -1, lock=True)
-            self._shm_names[i] = mp.Array('c', bytearray(100))
-            self._shm_params[i] = mp.Array('i', [-1] * sum(r[1] for r in shm_proxy.register()))
-        logger.info(rf'Using {nb_domains} parallel shared memory domains')
-    
-    def get_proc_connections(self):
-        return (self._activations, self._conditions)
-    
-    def launch(self, i, function, *args):
-        if not any(self._processes):
-            self._launch_processes()
-        mi = None
-        try:
-            mi = self.wake_up_domain(i)
-            if isinstance(function, str):  # function is a domain class' method
-                self._shm_lambdas[mi].value = -1
-                self._shm_names[mi][:] = bytearray(function, encoding='utf-8') + \
-                                         bytearray(len(self._shm_names[mi]) - len(function))
-            else:  # function is a lambda id
-                self._shm_lambdas[mi].value = int(function)
-                self._shm_names[mi][:] = bytearray(len(self._shm_names[mi]))  # reset with null bytes
-            self._shm_params[mi][:] = [-1] * len(self._shm_params[mi])
-            type_counters = {}
-            for j, a in enumerate(args):
-                arg_name = type(a).__name__
-                (start, end) = self._shm_registers[arg_name]
-                if arg_name in type_counters:
-                    type_counters[arg_name] += self._shm_sizes[arg_name]
-                    k = type_counters[arg_name]
-                    if (k >= end):
-                        raise IndexError('''No more available register for type {}. 
-                                            Please increase the number of registers 
-                                            for that type.'''.format(arg_name))
-                else:
-                    type_counters[arg_name] = start
-                    k = start
-                self._shm_params[mi][j] = k
-                sz = self._shm_sizes[arg_name]
-                if sz > 1:
-                    si = (mi * self._rsize) + k
-                    self._shm_proxy.encode(a, self._shm_arrays[si:(si + sz)])
-                else:
-                    self._shm_proxy.encode(a, self._shm_arrays[(mi * self._rsize) + k])
-            with self._conditions[mi]:
-                self._activations[mi].value = True
-                self._conditions[mi].notify_all()
-            return mi
-        except Exception as e:
-            if mi is not None:
-                self._active_domains[mi] = False  # no job is running
-            if isinstance(function, str):
-                logger.error(rf'/!\ Unable to launch job {function}: {e}')
-            else:
-                logger.error(rf'/!\ Unable to launch job lambdas[{function}]: {e}')
-    
-    def get_result(self, i):
-        with self._conditions[i]:
-            self._conditions[i].wait_for(lambda: bool(self._dones[i].value) == True)
-            self._dones[i].value = False
-        results = []
-        for r in self._shm_params[i]:
-            if r >= 0:
-                sz = self._shm_sizes[self._shm_types[r].__name__]
-                if sz > 1:
-                    si = (i * self._rsize) + r
-                    results.append(self._shm_proxy.decode(self._shm_types[r], self._shm_arrays[si:(si + sz)]))
-                else:
-                    results.append(self._shm_proxy.decode(self._shm_types[r], self._shm_arrays[(i * self._rsize) + r]))
-            else:
-                break  # no more params
-        self._active_domains[i] = False
-        return results if len(results) > 1 else results[0] if len(results) > 0 else None
-    
-    def _launch_processes(self):
-        for i in range(len(self._processes)):
-            self.open_ipc_connection(i)
-            self._processes[i] = mp.Process(target=_shm_launch_domain_server_,
-                                            args=[self._domain_factory, self._lambdas, i,
-                                                    self._shm_proxy.copy(),
-                                                    dict(self._shm_registers),
-                                                    dict(self._shm_types),
-                                                    dict(self._shm_sizes),
-                                                    self._rsize, list(self._shm_arrays),
-                                                    list(self._shm_lambdas), list(self._shm_names), list(self._shm_params),
-                                                    self._activations[i], self._dones[i], self._conditions[i],
-                                                    self._ipc_connections[i] if self._ipc_notify else None,
-                                                    logger])
-            self._processes[i].start()
-        # Waits for all jobs to be launched and waiting each for requests
-        while True in set(self._active_domains):
-            continue
-    
-    def close(self):
-        for i in range(len(self._processes)):
-            self._shm_lambdas[i].value = -1
-            self._shm_names[i][:] = bytearray(len(self._shm_names[i]))  # reset with null bytes
-            self._shm_params[i][:] = [-1] * len(self._shm_params[i])
-            with self._conditions[i]:
-                self._activations[i].value = True
-                self._conditions[i].notify_all()
-            self._processes[i].join()
-            self._processes[i].close()
-            self._processes[i] = None
-            self.close_ipc_connection(i)
+# Copyright (c) AIRBUS and its affiliates.
+# This source code is licensed under the MIT license found in the
+# LICENSE file in the root directory of this source tree.
+
+"""This module contains base classes for quickly building domains."""
+from __future__ import annotations
+
+import os
+import logging
+from typing import NewType, Optional, Callable
+
+from pathos.helpers import mp
+import tempfile
+from pynng import Push0
+
+# Following import is required to make Enum objects serializable
+# (useful when multiprocessing and pickling domains that use Enum classes)
+import dill
+dill.settings['byref'] = True
+
+from skdecide.core import autocast_all
+from skdecide.builders.domain.agent import MultiAgent, SingleAgent
+from skdecide.builders.domain.concurrency import Parallel, Sequential
+from skdecide.builders.domain.dynamics import Environment, Simulation, EnumerableTransitions, DeterministicTransitions
+from skdecide.builders.domain.events import Events, Actions
+from skdecide.builders.domain.goals import Goals
+from skdecide.builders.domain.initialization import Initializable, UncertainInitialized, DeterministicInitialized
+from skdecide.builders.domain.memory import History, Markovian
+from skdecide.builders.domain.observability import PartiallyObservable, TransformedObservable, FullyObservable
+from skdecide.builders.domain.value import Rewards, PositiveCosts
+if False:  # trick to avoid circular import & IDE error ("Unresolved reference 'Solver'")
+    from skdecide.solvers import Solver
+
+__all__ = ['Domain', 'RLDomain', 'MultiAgentRLDomain', 'StatelessSimulatorDomain', 'MDPDomain', 'POMDPDomain',
+           'GoalMDPDomain', 'GoalPOMDPDomain', 'DeterministicPlanningDomain']
+
+logger = logging.getLogger('skdecide.domains')
+
+logger.setLevel(logging.INFO)
+
+if not len(logger.handlers):
+    ch = logging.StreamHandler()
+    # create formatter and add it to the handlers
+    formatter = logging.Formatter('%(asctime)s | %(name)s | %(levelname)s | %(message)s')
+    ch.setFormatter(formatter)
+    # add the handlers to the logger
+    logger.addHandler(ch)
+    logger.propagate = False
+
+
+# MAIN BASE CLASS
+
+class Domain(MultiAgent, Parallel, Environment, Events, History, PartiallyObservable, Rewards):
+    """This is the highest level domain class (inheriting top-level class for each mandatory domain characteristic).
+
+    This helper class can be used as the main base class for domains.
+
+    Typical use:
+    ```python
+    class D(Domain, ...)
+    ```
+
+    with "..." replaced when needed by a number of classes from following domain characteristics (the ones in
+    parentheses are optional):
+
+    - **agent**: MultiAgent -> SingleAgent
+    - **concurrency**: Parallel -> Sequential
+    - **(constraints)**: Constrained
+    - **dynamics**: Environment -> Simulation -> UncertainTransitions -> EnumerableTransitions
+      -> DeterministicTransitions
+    - **events**: Events -> Actions -> UnrestrictedActions
+    - **(goals)**: Goals
+    - **(initialization)**: Initializable -> UncertainInitialized -> DeterministicInitialized
+    - **memory**: History -> FiniteHistory -> Markovian -> Memoryless
+    - **observability**: PartiallyObservable -> TransformedObservable -> FullyObservable
+    - **(renderability)**: Renderable
+    - **value**: Rewards -> PositiveCosts
+    """
+    T_state = NewType('T_state', object)
+    T_observation = NewType('T_observation', object)
+    T_event = NewType('T_event', object)
+    T_value = NewType('T_value', object)
+    T_info = NewType('T_info', object)
+
+    @classmethod
+    def solve_with(cls, solver: Solver,
+                   domain_factory: Optional[Callable[[], Domain]] = None, load_path: Optional[str] = None) -> Solver:
+        """Solve the domain with a new or loaded solver and return it auto-cast to the level of the domain.
+
+        By default, #Solver.check_domain() provides some boilerplate code and internally
+        calls #Solver._check_domain_additional() (which returns True by default but can be overridden  to define
+        specific checks in addition to the "domain requirements"). The boilerplate code automatically checks whether all
+        domain requirements are met.
+
+        # Parameters
+        solver: The solver.
+        domain_factory: A callable with no argument returning the domain to solve (factory is the domain class if None).
+        load_path: The path to restore the solver state from (if None, the solving process will be launched instead).
+
+        # Returns
+        The new solver (auto-cast to the level of the domain).
+        """
+        if domain_factory is None:
+            domain_factory = cls
+        if load_path is not None:
+
+            # TODO: avoid repeating this code somehow (identical in solver.solve(...))? Is factory necessary (vs cls)?
+            def cast_domain_factory():
+                domain = domain_factory()
+                autocast_all(domain, domain, solver.T_domain)
+                return domain
+
+            solver.load(load_path, cast_domain_factory)
+        else:
+            solver.solve(domain_factory)
+        autocast_all(solver, solver.T_domain, cls)
+        return solver
+
+
+# ALTERNATE BASE CLASSES (for typical combinations)
+
+class RLDomain(Domain, SingleAgent, Sequential, Environment, Actions, Initializable, Markovian, TransformedObservable,
+               Rewards):
+    """This is a typical Reinforcement Learning domain class.
+
+    This helper class can be used as an alternate base class for domains, inheriting the following:
+
+    - Domain
+    - SingleAgent
+    - Sequential
+    - Environment
+    - Actions
+    - Initializable
+    - Markovian
+    - TransformedObservable
+    - Rewards
+
+    Typical use:
+    ```python
+    class D(RLDomain)
+    ```
+
+    !!! tip
+        It is also possible to refine any alternate base class, like for instance:
+        ```python
+        class D(RLDomain, FullyObservable)
+        ```
+    """
+    pass
+
+
+class MultiAgentRLDomain(Domain, MultiAgent, Sequential, Environment, Actions, Initializable, Markovian,
+                         TransformedObservable, Rewards):
+    """This is a typical multi-agent Reinforcement Learning domain class.
+
+    This helper class can be used as an alternate base class for domains, inheriting the following:
+
+    - Domain
+    - MultiAgent
+    - Sequential
+    - Environment
+    - Actions
+    - Initializable
+    - Markovian
+    - TransformedObservable
+    - Rewards
+
+    Typical use:
+    ```python
+    class D(RLDomain)
+    ```
+
+    !!! tip
+        It is also possible to refine any alternate base class, like for instance:
+        ```python
+        class D(RLDomain, FullyObservable)
+        ```
+    """
+    pass
+
+
+class StatelessSimulatorDomain(Domain, SingleAgent, Sequential, Simulation, Actions, Markovian, TransformedObservable,
+                               Rewards):
+    """This is a typical stateless simulator domain class.
+
+    This helper class can be used as an alternate base class for domains, inheriting the following:
+
+    - Domain
+    - SingleAgent
+    - Sequential
+    - Simulation
+    - Actions
+    - Markovian
+    - TransformedObservable
+    - Rewards
+
+    Typical use:
+    ```python
+    class D(StatelessSimulatorDomain)
+    ```
+
+    !!! tip
+        It is also possible to refine any alternate base class, like for instance:
+        ```python
+        class D(RLDomain, FullyObservable)
+        ```
+    """
+    pass
+
+
+class MDPDomain(Domain, SingleAgent, Sequential, EnumerableTransitions, Actions, DeterministicInitialized, Markovian,
+                FullyObservable, Rewards):
+    """This is a typical Markov Decision Process domain class.
+
+    This helper class can be used as an alternate base class for domains, inheriting the following:
+
+    - Domain
+    - SingleAgent
+    - Sequential
+    - EnumerableTransitions
+    - Actions
+    - DeterministicInitialized
+    - Markovian
+    - FullyObservable
+    - Rewards
+
+    Typical use:
+    ```python
+    class D(MDPDomain)
+    ```
+
+    !!! tip
+        It is also possible to refine any alternate base class, like for instance:
+        ```python
+        class D(RLDomain, FullyObservable)
+        ```
+    """
+    pass
+
+
+class POMDPDomain(Domain, SingleAgent, Sequential, EnumerableTransitions, Actions, UncertainInitialized, Markovian,
+                  PartiallyObservable, Rewards):
+    """This is a typical Partially Observable Markov Decision Process domain class.
+
+    This helper class can be used as an alternate base class for domains, inheriting the following:
+
+    - Domain
+    - SingleAgent
+    - Sequential
+    - EnumerableTransitions
+    - Actions
+    - UncertainInitialized
+    - Markovian
+    - PartiallyObservable
+    - Rewards
+
+    Typical use:
+    ```python
+    class D(POMDPDomain)
+    ```
+
+    !!! tip
+        It is also possible to refine any alternate base class, like for instance:
+        ```python
+        class D(RLDomain, FullyObservable)
+        ```
+    """
+    pass
+
+
+class GoalMDPDomain(Domain, SingleAgent, Sequential, EnumerableTransitions, Actions, Goals, DeterministicInitialized,
+                    Markovian, FullyObservable, PositiveCosts):
+    """This is a typical Goal Markov Decision Process domain class.
+
+    This helper class can be used as an alternate base class for domains, inheriting the following:
+
+    - Domain
+    - SingleAgent
+    - Sequential
+    - EnumerableTransitions
+    - Actions
+    - Goals
+    - DeterministicInitialized
+    - Markovian
+    - FullyObservable
+    - PositiveCosts
+
+    Typical use:
+    ```python
+    class D(GoalMDPDomain)
+    ```
+
+    !!! tip
+        It is also possible to refine any alternate base class, like for instance:
+        ```python
+        class D(RLDomain, FullyObservable)
+        ```
+    """
+    pass
+
+
+class GoalPOMDPDomain(Domain, SingleAgent, Sequential, EnumerableTransitions, Actions, Goals, UncertainInitialized,
+                      Markovian, PartiallyObservable, PositiveCosts):
+    """This is a typical Goal Partially Observable Markov Decision Process domain class.
+
+    This helper class can be used as an alternate base class for domains, inheriting the following:
+
+    - Domain
+    - SingleAgent
+    - Sequential
+    - EnumerableTransitions
+    - Actions
+    - Goals
+    - UncertainInitialized
+    - Markovian
+    - PartiallyObservable
+    - PositiveCosts
+
+    Typical use:
+    ```python
+    class D(GoalPOMDPDomain)
+    ```
+
+    !!! tip
+        It is also possible to refine any alternate base class, like for instance:
+        ```python
+        class D(RLDomain, FullyObservable)
+        ```
+    """
+    pass
+
+
+class DeterministicPlanningDomain(Domain, SingleAgent, Sequential, DeterministicTransitions, Actions, Goals,
+                                  DeterministicInitialized, Markovian, FullyObservable, PositiveCosts):
+    """This is a typical deterministic planning domain class.
+
+    This helper class can be used as an alternate base class for domains, inheriting the following:
+
+    - Domain
+    - SingleAgent
+    - Sequential
+    - DeterministicTransitions
+    - Actions
+    - Goals
+    - DeterministicInitialized
+    - Markovian
+    - FullyObservable
+    - PositiveCosts
+
+    Typical use:
+    ```python
+    class D(DeterministicPlanningDomain)
+    ```
+
+    !!! tip
+        It is also possible to refine any alternate base class, like for instance:
+        ```python
+        class D(RLDomain, FullyObservable)
+        ```
+    """
+    pass
+
+
+class ParallelDomain:
+    """Base class for creating and launching n domains in separate processes.
+    Each domain listens for incoming domain requests.
+    Each request can indicate which domain should serve it, otherwise the first available
+    domain i is chosen and its id is returned to the incoming request.
+    """
+    def __init__(self,
+                 domain_factory,
+                 lambdas=None,
+                 nb_domains=os.cpu_count(),
+                 ipc_notify=False):
+        self._domain_factory = domain_factory
+        self._lambdas = lambdas
+        self._active_domains = mp.Array('b', [False for i in range(nb_domains)], lock=True)
+        self._temp_connections = [None] * nb_domains
+        self._ipc_connections = [None] * nb_domains
+        self._processes = [None] * nb_domains
+        self._ipc_notify = ipc_notify
+    
+    def open_ipc_connection(self, i):
+        self._temp_connections[i] = tempfile.NamedTemporaryFile()
+        self._ipc_connections[i] = 'ipc://' + self._temp_connections[i].name + '.ipc'
+    
+    def close_ipc_connection(self, i):
+        self._temp_connections[i].close()
+        self._ipc_connections[i] = None
+    
+    def _launch_processes(self):
+        raise NotImplementedError
+    
+    def close(self):
+        raise NotImplementedError
+
+    def __enter__(self):
+        self._launch_processes()
+        return self
+        
+    def __exit__ (self, type, value, tb):
+        self.close()
+
+    def launch(self, i, name, *args):
+        raise NotImplementedError
+
+    def get_proc_connections(self):  # process connections for use in python
+        raise NotImplementedError
+    
+    def get_ipc_connections(self):  # inter-process connections for use with C++
+        return self._ipc_connections
+    
+    def get_parallel_capacity(self):
+        return self.nb_domains()
+    
+    def nb_domains(self):
+        return len(self._processes)
+    
+    def wake_up_domain(self, i=None):
+        if i is None:
+            while True:
+                with self._active_domains.get_lock():
+                    for j, v in enumerate(self._active_domains):
+                        if not v:
+                            self._active_domains[j] = True
+                            return j
+        else:
+            self._active_domains[i] = True
+            return i
+    
+    def reset(self, i=None):
+        return self.launch(i, 'reset')
+    
+    def get_initial_state_distribution(self, i=None):
+        return self.launch(i, 'get_initial_state_distribution')
+    
+    def get_initial_state(self, i=None):
+        return self.launch(i, 'get_initial_state')
+    
+    def get_observation_space(self, i=None):
+        return self.launch(i, 'get_observation_space')
+    
+    def is_observation(self, observation, i=None):
+        return self.launch(i, 'is_observation', observation)
+    
+    def get_observation_distribution(self, state, action, i=None):
+        return self.launch(i, 'get_observation_distribution', state, action)
+    
+    def get_observation(self, state, action, i=None):
+        return self.launch(i, 'get_observation', state, action)
+    
+    def get_enabled_events(self, memory, i=None):
+        return self.launch(i, 'get_enabled_events', memory)
+    
+    def is_enabled_event(self, event, memory, i=None):
+        return self.launch(i, 'is_enabled_event', event, memory)
+    
+    def get_action_space(self, i=None):
+        return self.launch(i, 'get_action_space')
+
+    def is_action(self, event, i=None):
+        return self.launch(i, 'is_action', event)
+    
+    def get_applicable_actions(self, memory, i=None):
+        return self.launch(i, 'get_applicable_actions', memory)
+    
+    def is_applicable_action(self, action, memory, i=None):
+        return self.launch(i, 'is_applicable_action', action, memory)
+    
+    def step(self, action, i=None):
+        return self.launch(i, 'step', action)
+    
+    def sample(self, memory, action, i=None):
+        return self.launch(i, 'sample', memory, action)
+    
+    def get_next_state_distribution(self, memory, action, i=None):
+        return self.launch(i, 'get_next_state_distribution', memory, action)
+    
+    def get_next_state(self, memory, action, i=None):
+        return self.launch(i, 'get_next_state', memory, action)
+    
+    def get_transition_value(self, memory, action, next_state, i=None):
+        return self.launch(i, 'get_transition_value', memory, action, next_state)
+    
+    def is_transition_value_dependent_on_next_state(self, i=None):
+        return self.launch(i, 'is_transition_value_dependent_on_next_state')
+    
+    def get_goals(self, i=None):
+        return self.launch(i, 'get_goals')
+    
+    def is_goal(self, observation, i=None):
+        return self.launch(i, 'is_goal', observation)
+    
+    def is_terminal(self, state, i=None):
+        return self.launch(i, 'is_terminal', state)
+    
+    def check_value(self, value, i=None):
+        return self.launch(i, 'check_value', value)
+    
+    def render(self, memory, i=None):
+        return self.launch(i, 'render', memory)
+
+    # Call a lambda function (usually involves the original domain)
+    def call(self, i, lambda_id, *args):
+        return self.launch(i, lambda_id, *args)
+    
+    # The original sequential domain may have methods we don't know
+    def __getattr__(self, name):
+        def method(*args, i=None):
+            return self.launch(i, name, *args)
+        return method
+    
+    # Bypass __getattr_.method() when serializing the class.
+    # Required on Windows when spawning the main process.
+    def __getstate__(self):
+        d = self.__dict__.copy()
+        del d['_temp_connections']  # we cannot serialize a file
+        return d
+
+    # Bypass __getattr_.method() when serializing the class.
+    # Required on Windows when spawning the main process.
+    def __setstate__(self, state):
+        self.__dict__ = state
+        # TODO: reopen the temp connection from _ipc_connections
+
+def _launch_domain_server_(domain_factory, lambdas, i,
+                           job_results, conn, ipc_conn, logger):
+    domain = domain_factory()
+    if ipc_conn is not None:
+        pusher = Push0()
+        pusher.dial(ipc_conn)
+    while True:
+        job = conn.recv()
+        job_results[i] = None
+        if job is None:
+            if ipc_conn is not None:
+                pusher.close()
+            conn.close()
+            break
+        else:
+            try:
+                if isinstance(job[0], str):  # job[0] is a domain class' method
+                    r = getattr(domain, job[0])(*job[1])
+                else:  # job[0] is a lambda function
+                    r = lambdas[job[0]](domain, *job[1])
+                job_results[i] = r
+                if ipc_conn is not None:
+                    pusher.send(b'0')  # send success
+                conn.send('0')  # send success
+            except Exception as e:
+                logger.error(rf'/!\ Unable to perform job {job[0]}: {e}')
+                if ipc_conn is not None:
+                    pusher.send(str(e).encode(encoding='UTF-8'))  # send error message
+                else:
+                    conn.send(str(e))  # send failure (!= 0)
+
+class PipeParallelDomain(ParallelDomain):
+    """This class can be used to create and launch n domains in separate processes.
+    Each domain listens for incoming domain requests.
+    Each request can indicate which domain should serve it, otherwise the first available
+    domain i is chosen and its id is returned to the incoming request.
+    """
+    def __init__(self,
+                 domain_factory,
+                 lambdas=None,
+                 nb_domains=os.cpu_count(),
+                 ipc_notify=False):
+        super().__init__(domain_factory, lambdas, nb_domains, ipc_notify)
+        self._manager = mp.Manager()
+        self._waiting_jobs = [None] * nb_domains
+        self._job_results = self._manager.list([None for i in range(nb_domains)])
+        logger.info(rf'Using {nb_domains} parallel piped domains')
+    
+    def get_proc_connections(self):
+        return self._waiting_jobs
+    
+    def launch(self, i, function, *args):
+        if not any(self._processes):
+            self._launch_processes()
+        mi = None
+        try:
+            mi = self.wake_up_domain(i)
+            self._waiting_jobs[mi].send((function, args))
+            return mi
+        except Exception as e:
+            if mi is not None:
+                self._active_domains[mi] = False  # no job is running
+            if isinstance(function, str):
+                logger.error(rf'/!\ Unable to launch job {function}: {e}')
+            else:
+                logger.error(rf'/!\ Unable to launch job lambdas[{function}]: {e}')
+    
+    def get_result(self, i):
+        self._waiting_jobs[i].recv()
+        r = self._job_results[i]
+        self._job_results[i] = None
+        self._active_domains[i] = False
+        return r
+    
+    def _launch_processes(self):
+        for i in range(len(self._job_results)):
+            self.open_ipc_connection(i)
+            pparent, pchild = mp.Pipe()
+            self._waiting_jobs[i] = pparent
+            self._processes[i] = mp.Process(target=_launch_domain_server_,
+                                            args=[self._domain_factory, self._lambdas, i,
+                                                    self._job_results, pchild,
+                                                    self._ipc_connections[i] if self._ipc_notify else None, logger])
+            self._processes[i].start()
+        # Waits for all jobs to be launched and waiting each for requests
+        while True in set(self._active_domains):
+            continue
+    
+    def close(self):
+        for i in range(len(self._job_results)):
+            self._waiting_jobs[i].send(None)
+            self._processes[i].join()
+            self._processes[i].close()
+            self._waiting_jobs[i].close()
+            self._processes[i] = None
+            self.close_ipc_connection(i)
+
+
+def _shm_launch_domain_server_(domain_factory, lambdas, i,
+                               shm_proxy, shm_registers, shm_types, shm_sizes,
+                               rsize, shm_arrays, shm_lambdas, shm_names, shm_params,
+                               activation, done, cond, ipc_conn, logger):
+    domain = domain_factory()
+    if ipc_conn is not None:
+        pusher = Push0()
+        pusher.dial(ipc_conn)
+    
+    def get_string(s):
+        for i, c in enumerate(s):
+            if c == b'\x00':
+                return s[:i].decode()
+        return s.decode()
+
+    while True:
+        with cond:
+            cond.wait_for(lambda: bool(activation.value) == True)
+            activation.value = False
+        if int(shm_lambdas[i].value) == -1 and shm_names[i][0] == b'\x00':
+            if ipc_conn is not None:
+                pusher.close()
+            break
+        else:
+            try:
+                job_args = []
+                for p in shm_params[i]:
+                    if p >= 0:
+                        sz = shm_sizes[shm_types[p].__name__]
+                        if sz > 1:
+                            si = (i * rsize) + p
+                            job_args.append(shm_proxy.decode(shm_types[p], shm_arrays[si:(si + sz)]))
+                        else:
+                            job_args.append(shm_proxy.decode(shm_types[p], shm_arrays[(i * rsize) + p]))
+                    else:
+                        break  # no more args
+                if int(shm_lambdas[i].value) == -1:  # we are working with a domain class' method
+                    result = getattr(domain, get_string(shm_names[i]))(*job_args)
+                else:  # we are working with a lambda function
+                    result = lambdas[int(shm_lambdas[i].value)](domain, *job_args)
+                shm_params[i][:] = [-1] * len(shm_params[i])
+                if type(result) is not tuple:
+                    result = (result,)
+                if result[0] is not None:
+                    type_counters = {}
+                    for j, r in enumerate(result):
+                        res_name = type(r).__name__
+                        (start, end) = shm_registers[res_name]
+                        if res_name in type_counters:
+                            type_counters[res_name] += shm_sizes[res_name]
+                            k = type_counters[res_name]
+                            if (k >= end):
+                                raise IndexError('''No more available register for type {}. 
+                                                    Please increase the number of registers 
+                                                    for that type.'''.format(res_name))
+                        else:
+                            type_counters[res_name] = start
+                            k = start
+                        shm_params[i][j] = k
+                        sz = shm_sizes[res_name]
+                        if sz > 1:
+                            si = (i * rsize) + k
+                            shm_proxy.encode(r, shm_arrays[si:(si + sz)])
+                        else:
+                            shm_proxy.encode(r, shm_arrays[(i * rsize) + k])
+                if ipc_conn is not None:
+                    pusher.send(b'0')  # send success
+            except Exception as e:
+                if int(shm_lambdas[i].value) == -1:
+                    logger.error(rf'/!\ Unable to perform job {get_string(shm_names[i])}: {e}')
+                else:
+                    logger.error(rf'/!\ Unable to perform job {int(shm_lambdas[i].value)}: {e}')
+                shm_params[i][:] = [-1] * len(shm_params[i])  # no result
+                if ipc_conn is not None:
+                    pusher.send(str(e).encode(encoding='UTF-8'))  # send error message
+            with cond:
+                done.value = True
+                cond.notify_all()  # send finished status (no success nor failure information)
+                
+
+class ShmParallelDomain(ParallelDomain):
+    """This class can be used to create and launch n domains in separate processes
+    with shared memory between the Python processes.
+    Each domain listens for incoming domain requests.
+    Each request can indicate which domain should serve it, otherwise the first available
+    domain is chosen and its id is returned to the incoming request.
+    """
+    def __init__(self,
+                 domain_factory,
+                 shm_proxy,
+                 lambdas=None,
+                 nb_domains=os.cpu_count(),
+                 ipc_notify=False):
+        super().__init__(domain_factory, lambdas, nb_domains, ipc_notify)
+        self._activations = [mp.Value('b', False, lock=True) for i in range(nb_domains)]
+        self._dones = [mp.Value('b', False, lock=True) for i in range(nb_domains)]
+        self._conditions = [mp.Condition() for i in range(nb_domains)]
+        self._shm_proxy = shm_proxy
+        self._shm_registers = {}  # Maps from registered method parameter types to vectorized array ranges
+        self._shm_types = {}  # Maps from register index to type
+        self._shm_sizes = {}  # Maps from register method parameter types to number of arrays encoding each type
+        self._shm_arrays = []  # Methods' vectorized parameters
+        self._rsize = 0  # Total size of the register (updated below)
+        self._shm_lambdas = [None] * nb_domains  # Vectorized lambdas' ids
+        self._shm_names = [None] * nb_domains  # Vectorized methods' names
+        self._shm_params = [None] * nb_domains  # Indices of methods' vectorized parameters
+        for i in range(nb_domains):
+            j = 0
+            for r in shm_proxy.register():
+                for k in range(r[1]):
+                    m = shm_proxy.initialize(r[0])
+                    if type(m) == list or type(m) == tuple:
+                        if i == 0 and k == 0:  # do it once for all the domains and redundant initializers
+                            self._shm_sizes[r[0].__name__] = len(m)
+                            self._shm_registers[r[0].__name__] = (j, j + (r[1] * len(m)))
+                            self._shm_types.update({kk: r[0] for kk in range(j, j + (r[1] * len(m)), len(m))})
+                            self._rsize += (r[1] * len(m))
+                        self._shm_arrays.extend(m)
+                        j += len(m)
+                    else:
+                        if i == 0 and k == 0:  # do it once for all the domains and redundant initializers
+                            self._shm_sizes[r[0].__name__] = 1
+                            self._shm_registers[r[0].__name__] = (j, j + r[1])
+                            self._shm_types.update({kk: r[0] for kk in range(j, j + r[1])})
+                            self._rsize += r[1]
+                        self._shm_arrays.append(m)
+                        j += 1
+            self._shm_lambdas[i] = mp.Value('i', -1, lock=True)
+            self._shm_names[i] = mp.Array('c', bytearray(100))
+            self._shm_params[i] = mp.Array('i', [-1] * sum(r[1] for r in shm_proxy.register()))
+        logger.info(rf'Using {nb_domains} parallel shared memory domains')
+    
+    def get_proc_connections(self):
+        return (self._activations, self._conditions)
+    
+    def launch(self, i, function, *args):
+        if not any(self._processes):
+            self._launch_processes()
+        mi = None
+        try:
+            mi = self.wake_up_domain(i)
+            if isinstance(function, str):  # function is a domain class' method
+                self._shm_lambdas[mi].value = -1
+                self._shm_names[mi][:] = bytearray(function, encoding='utf-8') + \
+                                         bytearray(len(self._shm_names[mi]) - len(function))
+            else:  # function is a lambda id
+                self._shm_lambdas[mi].value = int(function)
+                self._shm_names[mi][:] = bytearray(len(self._shm_names[mi]))  # reset with null bytes
+            self._shm_params[mi][:] = [-1] * len(self._shm_params[mi])
+            type_counters = {}
+            for j, a in enumerate(args):
+                arg_name = type(a).__name__
+                (start, end) = self._shm_registers[arg_name]
+                if arg_name in type_counters:
+                    type_counters[arg_name] += self._shm_sizes[arg_name]
+                    k = type_counters[arg_name]
+                    if (k >= end):
+                        raise IndexError('''No more available register for type {}. 
+                                            Please increase the number of registers 
+                                            for that type.'''.format(arg_name))
+                else:
+                    type_counters[arg_name] = start
+                    k = start
+                self._shm_params[mi][j] = k
+                sz = self._shm_sizes[arg_name]
+                if sz > 1:
+                    si = (mi * self._rsize) + k
+                    self._shm_proxy.encode(a, self._shm_arrays[si:(si + sz)])
+                else:
+                    self._shm_proxy.encode(a, self._shm_arrays[(mi * self._rsize) + k])
+            with self._conditions[mi]:
+                self._activations[mi].value = True
+                self._conditions[mi].notify_all()
+            return mi
+        except Exception as e:
+            if mi is not None:
+                self._active_domains[mi] = False  # no job is running
+            if isinstance(function, str):
+                logger.error(rf'/!\ Unable to launch job {function}: {e}')
+            else:
+                logger.error(rf'/!\ Unable to launch job lambdas[{function}]: {e}')
+    
+    def get_result(self, i):
+        with self._conditions[i]:
+            self._conditions[i].wait_for(lambda: bool(self._dones[i].value) == True)
+            self._dones[i].value = False
+        results = []
+        for r in self._shm_params[i]:
+            if r >= 0:
+                sz = self._shm_sizes[self._shm_types[r].__name__]
+                if sz > 1:
+                    si = (i * self._rsize) + r
+                    results.append(self._shm_proxy.decode(self._shm_types[r], self._shm_arrays[si:(si + sz)]))
+                else:
+                    results.append(self._shm_proxy.decode(self._shm_types[r], self._shm_arrays[(i * self._rsize) + r]))
+            else:
+                break  # no more params
+        self._active_domains[i] = False
+        return results if len(results) > 1 else results[0] if len(results) > 0 else None
+    
+    def _launch_processes(self):
+        for i in range(len(self._processes)):
+            self.open_ipc_connection(i)
+            self._processes[i] = mp.Process(target=_shm_launch_domain_server_,
+                                            args=[self._domain_factory, self._lambdas, i,
+                                                    self._shm_proxy.copy(),
+                                                    dict(self._shm_registers),
+                                                    dict(self._shm_types),
+                                                    dict(self._shm_sizes),
+                                                    self._rsize, list(self._shm_arrays),
+                                                    list(self._shm_lambdas), list(self._shm_names), list(self._shm_params),
+                                                    self._activations[i], self._dones[i], self._conditions[i],
+                                                    self._ipc_connections[i] if self._ipc_notify else None,
+                                                    logger])
+            self._processes[i].start()
+        # Waits for all jobs to be launched and waiting each for requests
+        while True in set(self._active_domains):
+            continue
+    
+    def close(self):
+        for i in range(len(self._processes)):
+            self._shm_lambdas[i].value = -1
+            self._shm_names[i][:] = bytearray(len(self._shm_names[i]))  # reset with null bytes
+            self._shm_params[i][:] = [-1] * len(self._shm_params[i])
+            with self._conditions[i]:
+                self._activations[i].value = True
+                self._conditions[i].notify_all()
+            self._processes[i].join()
+            self._processes[i].close()
+            self._processes[i] = None
+            self.close_ipc_connection(i)
-- 
2.43.0


From c92f277dab7cf6bd9a0a95f19be3625827e3630f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:07 +0000
Subject: [PATCH 124/142] fix: a multi-skill schedule may end exactly at the
 horizon

---
 .../discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
index 51dde23..a68e48d 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
@@ -183,7 +183,7 @@ def sgs_multi_skill(solution: MS_RCPSPSolution_Variant):
             range_time = range(current_min_time,
                                current_min_time
                                + problem.mode_details[act_id][mode]['duration'])
-            if current_min_time + problem.mode_details[act_id][mode]['duration'] >= problem.horizon:
+            if current_min_time + problem.mode_details[act_id][mode]['duration'] > problem.horizon:
                 unfeasible_in_horizon = True
                 break
             for t in range_time:  # 9
-- 
2.43.0


From a5a17b6d1d850eae75ab6a6a375720973ee27381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:08 +0000
Subject: [PATCH 125/142] fix: multi-skill solutions store the modes they were
 scheduled with

---
 .../discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
index a68e48d..ef3803a 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
@@ -147,13 +147,13 @@ def sgs_multi_skill(solution: MS_RCPSPSolution_Variant):
     modes_extended = deepcopy(solution.modes_vector)
     modes_extended.insert(0, 1)
     modes_extended.append(1)
-    modes_dict = {i+1: modes_extended[i] for i in range(len(modes_extended))}
     # print('pre-modes_extended: ', modes_extended)
     # fix modes in case specified mode not in mode details for the activites
     for i in range(len(modes_extended)):
         # print(list(self.problem.mode_details[i + 1].keys()))
         if modes_extended[i] not in list(problem.mode_details[i + 1].keys()):
             modes_extended[i] = 1
+    modes_dict = {i+1: modes_extended[i] for i in range(len(modes_extended))}
     # print('modes_extended: ', modes_extended)
     # print('start SGS')
     employee_usage = {}
-- 
2.43.0


From 37a767aca26bb75786965a1837dbbfe6235d173e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:08 +0000
Subject: [PATCH 126/142] fix: multi-skill scheduling only takes workers with a
 required skill

---
 .../discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
index ef3803a..1099659 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
@@ -258,7 +258,7 @@ def sgs_multi_skill(solution: MS_RCPSPSolution_Variant):
                 worker_used = []
                 current_skills = {s: 0. for s in required_skills}
                 for w in priority_list_this_task:
-                    if w in worker_ids:
+                    if w in worker_ids and any(s in current_skills for s in problem.employees[w].dict_skill):
                         worker_used += [w]
                         for s in problem.employees[w].dict_skill:
                             if s in current_skills:
-- 
2.43.0


From 9044656362710fb914c38d15324bda3f0de44201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:08 +0000
Subject: [PATCH 127/142] fix: multi-skill scheduling of one worker per task
 follows the priorities of workers

---
 .../discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py   | 1 -
 1 file changed, 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
index 1099659..d8f93d8 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
@@ -222,7 +222,6 @@ def sgs_multi_skill(solution: MS_RCPSPSolution_Variant):
                            else:
                                good = True
                                ws += [worker]
-                               break
                        valid = good
                        if good:
                            worker_ids = ws
-- 
2.43.0


From 05d91272874520fdcfe32f2b292f7fbca4186700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:08 +0000
Subject: [PATCH 128/142] fix: multi-skill feasibility of tasks without the
 workers they need

---
 .../rcpsp_multiskill/rcpsp_multiskill.py                     | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
index d8f93d8..2d59b02 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
@@ -478,8 +478,9 @@ class MS_RCPSPModel(Problem):
             if len(required_skills) > 0:
                 for skill in required_skills:
                     employees_used = [self.employees[emp].dict_skill[skill].skill_value
-                                      for emp in rcpsp_sol.employee_usage[task]
-                                      if skill in rcpsp_sol.employee_usage[task][emp]]
+                                      for emp in rcpsp_sol.employee_usage.get(task, {})
+                                      if skill in rcpsp_sol.employee_usage[task][emp]
+                                      and skill in self.employees[emp].dict_skill]
                     if sum(employees_used) < required_skills[skill]:
                         print('1')
                         return False
-- 
2.43.0


From 275da5bc8124392e8bcb33d42c3f73fc3f286a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:08 +0000
Subject: [PATCH 129/142] fix: multi-skill schedules beyond the horizon are not
 feasible

---
 .../rcpsp_multiskill/rcpsp_multiskill.py                      | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
index 2d59b02..d9a5270 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
@@ -469,6 +469,10 @@ class MS_RCPSPModel(Problem):
         # check the skills :
         if len(rcpsp_sol.schedule) != self.nb_tasks:
             return False
+        if any(rcpsp_sol.schedule[task]["end_time"] > self.horizon * self.horizon_multiplier
+               for task in self.tasks):
+            print('Schedule beyond the horizon')
+            return False
         for task in self.tasks:
             mode = rcpsp_sol.modes[task]
             required_skills = {s: self.mode_details[task][mode][s]
-- 
2.43.0


From 64a123f4131b337f22b3f9920db0dbd5e83ae914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:08 +0000
Subject: [PATCH 130/142] fix: multi-skill feasibility checks that a task has
 one worker where only one is allowed

---
 .../discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
index d9a5270..2549955 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
@@ -491,6 +491,9 @@ class MS_RCPSPModel(Problem):
             if task in rcpsp_sol.employee_usage:
                 employee_used = [emp for emp in rcpsp_sol.employee_usage[task]]
                 # print(rcpsp_sol.employee_usage)
+                if self.one_unit_per_task_max and len(employee_used) > 1:
+                    print('Too many employees on task ', task)
+                    return False
                 # employee available at this time
                 if len(employee_used) > 0:
                     for e in employee_used:
-- 
2.43.0


From 89487e591babd314c95acb8aa21f47e3cf212c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:08 +0000
Subject: [PATCH 131/142] fix: multi-skill modes fixed from a vector starting
 at 0

---
 .../discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
index 2549955..9399d59 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
@@ -710,7 +710,7 @@ class MS_RCPSPModel_Variant(MS_RCPSPModel):
             self.set_fixed_modes(sol.modes_vector)
             print('self.fixed_modes:', self.fixed_modes)
         elif att == 'modes_vector_from0':
-            modes_corrected = [x + 1 for x in sol.modes_vector]
+            modes_corrected = [x + 1 for x in sol.modes_vector_from0]
             self.set_fixed_modes(modes_corrected)
             print('self.fixed_modes:', self.fixed_modes)
         elif att == 'priority_worker_per_task':
-- 
2.43.0


From 896c9ca86482785f7159b87b63798fa65b8c6722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:08 +0000
Subject: [PATCH 132/142] fix: copies of multi-skill problems keep their
 source, sink, worker limit and variant

---
 .../rcpsp_multiskill/rcpsp_multiskill.py          | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
index 9399d59..984e863 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
@@ -600,7 +600,10 @@ class MS_RCPSPModel(Problem):
                              mode_details=self.mode_details,
                              successors=self.successors,
                              horizon=self.horizon,
-                             horizon_multiplier=self.horizon_multiplier)
+                             horizon_multiplier=self.horizon_multiplier,
+                             sink_task=self.sink_task,
+                             source_task=self.source_task,
+                             one_unit_per_task_max=self.one_unit_per_task_max)
 
     def to_variant_model(self):
         return MS_RCPSPModel_Variant(skills_set=self.skills_set,
@@ -613,6 +616,8 @@ class MS_RCPSPModel(Problem):
                                      successors=self.successors,
                                      horizon=self.horizon,
                                      horizon_multiplier=self.horizon_multiplier,
+                                     sink_task=self.sink_task,
+                                     source_task=self.source_task,
                                      one_unit_per_task_max=self.one_unit_per_task_max)
 
     def get_dummy_solution(self):
@@ -646,7 +651,10 @@ class MS_RCPSPModel_Variant(MS_RCPSPModel):
                              mode_details=mode_details,
                              successors=successors,
                              horizon=horizon,
-                             horizon_multiplier=horizon_multiplier)
+                             horizon_multiplier=horizon_multiplier,
+                             sink_task=sink_task,
+                             source_task=source_task,
+                             one_unit_per_task_max=one_unit_per_task_max)
         self.fixed_modes = None
         self.fixed_permutation = None
         self.fixed_priority_worker_per_task = None
@@ -688,6 +696,9 @@ class MS_RCPSPModel_Variant(MS_RCPSPModel):
                                            "type": [Dict[int, Dict[int, Set[str]]]]}
         return EncodingRegister(dict_register)
 
+    def copy(self):
+        return self.to_variant_model()
+
     def get_dummy_solution(self):
         # TODO
         return MS_RCPSPSolution_Variant(problem=self,
-- 
2.43.0


From f5a148610c3027a6a0d00a794961db1e54fe4f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:08 +0000
Subject: [PATCH 133/142] fix: copies of employees keep their salary

---
 .../discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
index 984e863..ad6e2cd 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
@@ -333,7 +333,8 @@ class Employee:
     def copy(self):
         return Employee(dict_skill={s: self.dict_skill[s].copy()
                                     for s in self.dict_skill},
-                        calendar_employee=list(self.calendar_employee))
+                        calendar_employee=list(self.calendar_employee),
+                        salary=self.salary)
 
 
 def intersect(i1, i2):
-- 
2.43.0


From 522386359564a4bd3a55b272ef8f60f98c249584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:08 +0000
Subject: [PATCH 134/142] fix: multi-skill problems announce the objectives
 they evaluate

---
 .../discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
index ad6e2cd..beac44d 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
@@ -585,8 +585,7 @@ class MS_RCPSPModel(Problem):
         return EncodingRegister(dict_register)
 
     def get_objective_register(self) -> ObjectiveRegister:
-        dict_objective = {"makespan": {"type": TypeObjective.OBJECTIVE, "default_weight": -1},
-                          "mean_resource_reserve": {"type": TypeObjective.OBJECTIVE, "default_weight": 1}}
+        dict_objective = {"makespan": {"type": TypeObjective.OBJECTIVE, "default_weight": -1}}
         return ObjectiveRegister(objective_sense=ModeOptim.MAXIMIZATION,
                                  objective_handling=ObjectiveHandling.SINGLE,
                                  dict_objective_to_doc=dict_objective)
-- 
2.43.0


From 93dad4f77b360493ef259727d3cee1bbc9aa72c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:08 +0000
Subject: [PATCH 135/142] fix: worker priorities encoded as a permutation name
 the employees of the problem

---
 .../rcpsp_multiskill/rcpsp_multiskill.py             | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
index beac44d..5bb71cc 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
@@ -745,11 +745,12 @@ class MS_RCPSPModel_Variant(MS_RCPSPModel):
 
     def convert_fixed_priority_worker_per_task_from_permutation(self, permutation):
         priority_worker_per_task_corrected = []
+        employees = list(self.employees)
         for i in range(self.n_jobs_non_dummy):
             tmp = []
             for j in range(len(self.employees.keys())):
                 tmp.append(permutation[i * len(self.employees.keys()) + j])
-            tmp_corrected = [int(x) for x in ss.rankdata(tmp)]
+            tmp_corrected = [employees[int(x)-1] for x in ss.rankdata(tmp)]
             priority_worker_per_task_corrected.append(tmp_corrected)
         return priority_worker_per_task_corrected
 
@@ -777,13 +778,8 @@ class MS_RCPSPModel_Variant(MS_RCPSPModel):
         elif encoding_name == 'priority_worker_per_task':
             # change the resource permutation priority lists in the solution from int_vector and set the permutation
             # with self.fixed_permutation and the modes with self.fixed_modes
-            priority_worker_per_task_corrected = []
-            for i in range(self.n_jobs_non_dummy):
-                tmp = []
-                for j in range(len(self.employees.keys())):
-                    tmp.append(int_vector[i*len(self.employees.keys())+j])
-                tmp_corrected = [int(x) for x in ss.rankdata(tmp)]
-                priority_worker_per_task_corrected.append(tmp_corrected)
+            priority_worker_per_task_corrected = \
+                self.convert_fixed_priority_worker_per_task_from_permutation(int_vector)
             rcpsp_sol = MS_RCPSPSolution_Variant(problem=self,
                                                  priority_list_task=self.fixed_permutation,
                                                  modes_vector=self.fixed_modes,
-- 
2.43.0


From 3e6cbdffd0d2d0016bd595a1d064a2f5acf989b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:38 +0000
Subject: [PATCH 136/142] fix: optimisation models state the needs that the
 tasks of a domain do not list

---
 skdecide/hub/solver/do_solver/sk_to_do_binding.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/skdecide/hub/solver/do_solver/sk_to_do_binding.py b/skdecide/hub/solver/do_solver/sk_to_do_binding.py
index 858a12b..446e5c2 100644
--- a/skdecide/hub/solver/do_solver/sk_to_do_binding.py
+++ b/skdecide/hub/solver/do_solver/sk_to_do_binding.py
@@ -38,7 +38,7 @@ def build_do_domain(scheduling_domain: Union[SingleModeRCPSP,
             mode_details_do[task] = {}
             for mode in modes_details[task]:
                 mode_details_do[task][mode] = {}
-                for r in modes_details[task][mode].get_ressource_names():
+                for r in scheduling_domain.get_resource_types_names():
                     mode_details_do[task][mode][r] = modes_details[task][mode].get_resource_need_at_time(r, time=0) # should be constant anyway
                 mode_details_do[task][mode]["duration"] = scheduling_domain.get_task_duration(task=task, mode=mode)
         return SingleModeRCPSPModel(resources={r: scheduling_domain.get_original_quantity_resource(r)
@@ -57,7 +57,7 @@ def build_do_domain(scheduling_domain: Union[SingleModeRCPSP,
             mode_details_do[task] = {}
             for mode in modes_details[task]:
                 mode_details_do[task][mode] = {}
-                for r in modes_details[task][mode].get_ressource_names():
+                for r in scheduling_domain.get_resource_types_names():
                     mode_details_do[task][mode][r] = modes_details[task][mode].get_resource_need_at_time(r, time=0) # should be constant anyway
                 mode_details_do[task][mode]["duration"] = scheduling_domain.sample_task_duration(task=task, mode=mode)
         return SingleModeRCPSPModel(resources={r: scheduling_domain.get_original_quantity_resource(r)
@@ -76,7 +76,7 @@ def build_do_domain(scheduling_domain: Union[SingleModeRCPSP,
             mode_details_do[task] = {}
             for mode in modes_details[task]:
                 mode_details_do[task][mode] = {}
-                for r in modes_details[task][mode].get_ressource_names():
+                for r in scheduling_domain.get_resource_types_names():
                     mode_details_do[task][mode][r] = modes_details[task][mode].get_resource_need_at_time(r, time=0) # should be constant anyway
                 mode_details_do[task][mode]["duration"] = scheduling_domain.get_task_duration(task=task, mode=mode)
         return MultiModeRCPSPModel(resources={r: scheduling_domain.get_original_quantity_resource(r)
@@ -95,7 +95,7 @@ def build_do_domain(scheduling_domain: Union[SingleModeRCPSP,
             mode_details_do[task] = {}
             for mode in modes_details[task]:
                 mode_details_do[task][mode] = {}
-                for r in modes_details[task][mode].get_ressource_names():
+                for r in scheduling_domain.get_resource_types_names():
                     mode_details_do[task][mode][r] = modes_details[task][mode].get_resource_need_at_time(r,
                                                                                                          time=0)  # should be constant anyway
                 mode_details_do[task][mode]["duration"] = scheduling_domain.get_task_duration(task=task, mode=mode)
@@ -118,7 +118,7 @@ def build_do_domain(scheduling_domain: Union[SingleModeRCPSP,
             mode_details_do[task] = {}
             for mode in modes_details[task]:
                 mode_details_do[task][mode] = {}
-                for r in modes_details[task][mode].get_ressource_names():
+                for r in scheduling_domain.get_resource_types_names():
                     mode_details_do[task][mode][r] = modes_details[task][mode].get_resource_need_at_time(r,
                                                                                                          time=0)  # should be constant anyway
                 skills = scheduling_domain.get_skills_of_task(task=task, mode=mode)
-- 
2.43.0


From f35aab81a78800370c3a5893ca25c513b2f46036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:04 +0000
Subject: [PATCH 137/142] fix: critical paths are made of consecutive critical
 tasks

---
 skdecide/builders/discrete_optimization/rcpsp/solver/cpm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/solver/cpm.py b/skdecide/builders/discrete_optimization/rcpsp/solver/cpm.py
index f49df65..16e7902 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/solver/cpm.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/solver/cpm.py
@@ -115,7 +115,8 @@ class CPM(SolverDO):
         while cur_node is not self.source:
             nodes = [n for n in
                      self.immediate_predecessors[cur_node]
-                     if self.map_node[n]._ESD == self.map_node[n]._LSD]
+                     if self.map_node[n]._ESD == self.map_node[n]._LSD
+                     and self.map_node[n]._EFD == self.map_node[cur_node]._ESD]
             cur_node = nodes[0]
             critical_path += [cur_node]
         return critical_path[::-1]
-- 
2.43.0


From 746b8cfe2a9c73a28f31009e8e53d2b5cf276d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:04 +0000
Subject: [PATCH 138/142] fix: critical path schedules may end at the horizon

---
 skdecide/builders/discrete_optimization/rcpsp/solver/cpm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/solver/cpm.py b/skdecide/builders/discrete_optimization/rcpsp/solver/cpm.py
index 16e7902..b211dc2 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/solver/cpm.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/solver/cpm.py
@@ -172,7 +172,7 @@ class CPM(SolverDO):
                                          if r != "duration"}
                 duration = self.rcpsp_model.mode_details[j][1]["duration"]
                 delayed_du_to_ressource = False
-                for time in range(early_start, self.rcpsp_model.horizon):
+                for time in range(early_start, self.rcpsp_model.horizon - duration + 1):
                     valid = True
                     for res in resource_avail_in_time:
                         for t in range(time, time+duration):
-- 
2.43.0


From 948a6520682705af213824e484311b45a146c766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:04 +0000
Subject: [PATCH 139/142] fix: the first time to do a task is one at which it
 can be done

---
 skdecide/builders/discrete_optimization/rcpsp/solver/cpm.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/solver/cpm.py b/skdecide/builders/discrete_optimization/rcpsp/solver/cpm.py
index b211dc2..afb6e38 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/solver/cpm.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/solver/cpm.py
@@ -264,16 +264,18 @@ class CPM(SolverDO):
                                  if r != "duration"}
         duration = self.rcpsp_model.mode_details[task_id][1]["duration"]
         time_start = None
-        for time in range(early_start, self.rcpsp_model.horizon):
+        for time in range(early_start, self.rcpsp_model.horizon - duration + 1):
             valid = True
             for res in resource_avail_in_time:
                 for t in range(time, time + duration):
                     if resource_avail_in_time[res][t] < ressource_consumption[res]:
                         valid = False
-                        time_start = time
                         break
                 if not valid:
                     break
+            if valid:
+                time_start = time
+                break
         return time_start, time_start+duration
 
     def run_sgs_time_loop(self,
-- 
2.43.0


From b5bfba6b862cd02261e176ddccd98e9f9a6193e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:04 +0000
Subject: [PATCH 140/142] fix: pooled priority rules can be drawn at random

---
 skdecide/hub/solver/gphh/gphh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/hub/solver/gphh/gphh.py b/skdecide/hub/solver/gphh/gphh.py
index 4322987..18cf43b 100644
--- a/skdecide/hub/solver/gphh/gphh.py
+++ b/skdecide/hub/solver/gphh/gphh.py
@@ -899,7 +899,7 @@ class PooledGPHHPolicy(DeterministicPolicies):
             elif self.pool_aggregation_method == PoolAggregationMethod.MEDIAN:
                 agg_value = np.median(output_values)
             elif self.pool_aggregation_method == PoolAggregationMethod.RANDOM:
-                index = random.randint(len(output_values))
+                index = random.randrange(len(output_values))
                 agg_value = output_values[index]
 
             # print('agg_value: ', agg_value)
-- 
2.43.0


From f805bcf25a340eee927ad91bda8753cc078f1439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:04 +0000
Subject: [PATCH 141/142] fix: priority features accept times when a resource
 is unavailable

---
 skdecide/hub/solver/gphh/gphh.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skdecide/hub/solver/gphh/gphh.py b/skdecide/hub/solver/gphh/gphh.py
index 18cf43b..b2660b5 100644
--- a/skdecide/hub/solver/gphh/gphh.py
+++ b/skdecide/hub/solver/gphh/gphh.py
@@ -76,7 +76,8 @@ def get_resource_requirements_across_duration(domain: SchedulingDomain, task_id:
             for t in range(duration):
                 need = domain.get_task_modes(task_id)[1].get_resource_need_at_time(res, t)
                 total = domain.sample_quantity_resource(res, t)
-                tmp += need / total
+                if total > 0:
+                    tmp += need / total
             values.append(tmp/duration)
     else:
         values = [0.]
-- 
2.43.0


From d2400a03fcf02ea9ecc97bcdb411c7f8f3bfe6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:04 +0000
Subject: [PATCH 142/142] fix: reference orders of the training domains are
 computed when none is given

---
 skdecide/hub/solver/gphh/gphh.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/skdecide/hub/solver/gphh/gphh.py b/skdecide/hub/solver/gphh/gphh.py
index b2660b5..49ec8a8 100644
--- a/skdecide/hub/solver/gphh/gphh.py
+++ b/skdecide/hub/solver/gphh/gphh.py
@@ -425,8 +425,12 @@ class GPHH(Solver, DeterministicPolicies):
         # if self.evaluation_method == EvaluationGPHH.SGS_DEVIATION:
         #     self.init_reference_makespans(reference_makespans, training_domains_names)
 
-    def init_reference_permutations(self, reference_permutations={}, training_domains_names=[]) -> None:
+    def init_reference_permutations(self, reference_permutations=None, training_domains_names=None) -> None:
         self.reference_permutations = {}
+        if reference_permutations is None:
+            reference_permutations = {}
+        if training_domains_names is None:
+            training_domains_names = [None] * len(self.training_domains)
         for i in range(len(self.training_domains)):
             td = self.training_domains[i]
             td_name = training_domains_names[i]
-- 
2.43.0

