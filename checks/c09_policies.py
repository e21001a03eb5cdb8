"""C09: greedy and sampling policies and policy evaluation follow the model's expected values."""
import math

from vsym.registry import harness
from vsym.engine import land, lor, smax, smin, implies
from skdecide import (DiscreteDistribution, Domain, EnumerableSpace, ImplicitSpace, Memory, SamplableSpace,
                      SingleValueDistribution, TransitionValue)
from skdecide.domains import GoalMDPDomain
from skdecide.builders.domain import (Actions, DeterministicInitialized, EnumerableTransitions, FullyObservable, Goals,
                                      History, Markovian, MultiAgent, Parallel, PartiallyObservable, PositiveCosts,
                                      Rewards, Sequential, SingleAgent, UncertainInitialized, TransformedObservable)
from skdecide.builders.solver import DeterministicPolicies
from skdecide.hub.solver.simple_greedy import SimpleGreedy
from skdecide.hub.solver.policy_evaluators import policy_evaluator as PE
from skdecide.hub.solver.pomcp import pomcp as PM


class Acts(EnumerableSpace, SamplableSpace):
    def __init__(self, l, ctx=None):
        self.l, self.ctx = l, ctx

    def get_elements(self):
        return self.l

    def contains(self, x):
        return x in self.l

    def sample(self):
        return self.ctx.choice("sampled action", self.l)


# ---------------------------------------------------------------- simple greedy
def greedy_cfgs(tier):
    return [dict(dep=d, conc=c, mem=m, restricted=r, n=3 if tier == "quick" else 4)
            for d in (False, True) for c in ("seq", "par") for m in ("markov", "hist") for r in (False, True)]


@harness("C09", "greedy", configs=greedy_cfgs, expect=("end",), functions=["SimpleGreedy.get_next_action"],
         bounds="3 actions (4 thorough), each any subset applicable, two successors, any probabilities in tenths, rewards -9..9, values dependent or "
                "not on the next state; sequential/parallel, Markovian/history domains")
def greedy(ctx):
    c = ctx.config
    n = c["n"]
    acts = list(range(n))
    avail = [a for a in acts if not c["restricted"] or a == 1 or ctx.bool("applicable%d" % a)]
    p = [ctx.int("p%d" % a, 0, 10) for a in acts]
    r = [[ctx.int("r%d.%d" % (a, s), -9, 9) for s in range(2)] for a in acts]
    cur = ctx.int("cur", 0, 50)
    par, hist = c["conc"] == "par", c["mem"] == "hist"

    def un(m, a):
        ctx.check(isinstance(m, Memory) == hist, "memory shape")
        st = m[-1] if hist else m
        ctx.check(st == cur, "asks about the current state")
        if par:
            ctx.check(isinstance(a, list) and len(a) == 1, "action shape")
            a = a[0]
        ctx.check(not isinstance(a, list) and a in avail, "asks only about applicable actions")
        return a

    class Dom(Domain, SingleAgent, Parallel if par else Sequential, EnumerableTransitions, Actions,
              History if hist else Markovian, FullyObservable, Rewards):
        def _get_action_space_(self):
            return Acts(acts)

        def _get_applicable_actions_from(self, memory):
            return Acts(avail)

        def _get_next_state_distribution(self, memory, action):
            a = un(memory, action)
            return DiscreteDistribution([("lo", p[a] / 10), ("hi", 1 - p[a] / 10)]) if a else SingleValueDistribution("lo")

        def _get_transition_value(self, memory, action, next_state=None):
            a = un(memory, action)
            ctx.check(not c["dep"] or next_state in ("lo", "hi"), "the value of a transition needs its next state")
            return TransitionValue(reward=r[a][1 if c["dep"] and next_state == "hi" else 0])

        def _is_transition_value_dependent_on_next_state_(self):
            return c["dep"]
    ctx.check(SimpleGreedy.check_domain(Dom()), "greedy accepts the domain")
    sol = Dom.solve_with(SimpleGreedy(), Dom)
    a = sol.get_next_action(cur)
    if par:
        ctx.check(isinstance(a, list) and len(a) == 1, "one concurrent action")
        a = a[0]
    ctx.check(a in avail, "greedy gives an applicable action")

    def exp(b):
        return 10 * r[b][0] if not c["dep"] or b == 0 else p[b] * r[b][0] + (10 - p[b]) * r[b][1]
    ctx.check(land(*[exp(a) >= exp(b) for b in avail]), "no applicable action has a higher expected reward")
    # (near-)ties are decided by floating point sums, so only strict differences are ordered
    ctx.check(land(*[exp(a) > exp(b) for b in avail if b < a and not c["dep"]]), "first of the best actions")
    ctx.check(sol.is_policy_defined_for(cur), "greedy is defined everywhere")
    ctx.reach("end")


# ---------------------------------------------------------------- policy evaluation
class Pol(DeterministicPolicies):
    def __init__(self, act):
        self.act, self.asked = act, []

    def _get_next_action(self, observation):
        self.asked.append(observation)
        return self.act[observation]

    def _is_policy_defined_for(self, observation):
        return True


def mdp(trans, goals, terminals, start, act):
    """trans: state -> list of (next, probability, cost)"""
    class M(GoalMDPDomain):
        def _get_action_space_(self):
            return ImplicitSpace(lambda x: True)

        def _get_applicable_actions_from(self, memory):
            return Acts([act[memory]])

        def _get_next_state_distribution(self, memory, action):
            assert action == act[memory]
            return DiscreteDistribution([(n, p) for n, p, k in trans[memory]])

        def _get_transition_value(self, memory, action, next_state=None):
            assert action == act[memory]
            return TransitionValue(cost=[k for n, p, k in trans[memory] if n == next_state][0])

        def _is_terminal(self, s):
            return s in terminals

        def _get_goals_(self):
            return ImplicitSpace(lambda s: s in goals)

        def _get_initial_state_(self):
            return start

        def _get_observation_space_(self):
            return ImplicitSpace(lambda x: True)
    return M()


EVAL = {
    "dag": {0: [1, 2], 1: [3, 2], 2: [4, 3], 3: [4]},
    "deadend": {0: [1, 2], 1: [3, 4], 2: [3]},  # with goal 3, dead end 4
    "wide": {0: [1, 2, 3], 1: [3], 2: [3]},
    "join": {0: [1, 2], 1: [3], 2: [3], 3: [4]},
}


@harness("C09", "expected_cost", configs=[dict(g=g, start=s) for g in EVAL for s in (0, 1)], expect=("end", "unknown"),
         functions=["compute_expected_cost_for_policy", "construct_dict_policy", "expected_costs_for_policy"],
         bounds="acyclic policies over up to 5 states, 1-3 successors each, probabilities 0..4 quarters, costs 0..9, dead "
                "ends, zero probabilities")
def expected_cost(ctx):
    g = EVAL[ctx.config["g"]]
    goal = {"dag": 4, "deadend": 3, "wide": 3, "join": 4}[ctx.config["g"]]
    terminals = {goal} | ({4} if ctx.config["g"] == "deadend" else set())
    act = {s: "a%d" % s for s in range(5)}
    trans, weights = {}, {}
    for s, succ in g.items():
        w = [ctx.int("w%d.%d" % (s, n), 0, 4) for n in succ[:-1]]
        ctx.assume(sum(w) <= 4)
        w.append(4 - sum(w))
        weights[s] = w
        trans[s] = [(n, k / 4, ctx.int("c%d.%d" % (s, n), 0, 9)) for n, k in zip(succ, w)]
    start = ctx.config["start"]
    pol = Pol(act)
    value, pd, preds, succs = PE.compute_expected_cost_for_policy(mdp(trans, {goal}, terminals, start, act), pol)
    # oracle: states reached, those that always end in the goal, and the expected cost of the latter
    reach, todo = set(), [start]
    while todo:
        s = todo.pop()
        if s in reach or s in terminals:
            reach.add(s)
            continue
        reach.add(s)
        todo += [n for (n, p, k), w in zip(trans[s], weights[s]) if w > 0]
    sure, exp = {goal}, {goal: 0}
    for s in (3, 2, 1, 0):
        if s in trans and s in reach and s not in terminals:
            nz = [(n, w, k) for (n, p, k), w in zip(trans[s], weights[s]) if w > 0]
            if all(n in sure for n, w, k in nz):
                sure.add(s)
                exp[s] = sum(w * (k + exp[n]) for n, w, k in nz) / 4
    ctx.check(set(pd) == {s for s in reach if s not in terminals}, "the policy is evaluated on the states it reaches")
    ctx.check(all(pd[s] == act[s] for s in pd), "actions of the policy")
    for s in reach - terminals:
        ctx.check((s in value) == (s in sure), "a cost is given exactly to the states always reaching the goal")
        if s in sure:
            d = value[s] - exp[s]
            ctx.check(land(d < 1e-6, d > -1e-6), "expected cost")
        else:
            ctx.reach("unknown")
    ctx.reach("end")


@harness("C09", "rollout_estimate", configs=[dict(g=g, nb=nb) for g in ("dag", "deadend", "join") for nb in (1, 2)],
         expect=("end",), functions=["rollout_based_policy_estimation", "rollout_based_compute_expected_cost_for_policy",
                                     "my_custom_rollout"],
         bounds="acyclic policies over up to 5 states, 1-2 rollouts, any sampled successors, costs 0..9")
def rollout_estimate(ctx):
    g, nb = EVAL[ctx.config["g"]], ctx.config["nb"]
    goal = {"dag": 4, "deadend": 3, "join": 4}[ctx.config["g"]]
    terminals = {goal} | ({4} if ctx.config["g"] == "deadend" else set())
    act = {s: "a%d" % s for s in range(5)}
    trans = {s: [(n, 1 / len(succ), ctx.int("c%d.%d" % (s, n), 0, 9)) for n in succ] for s, succ in g.items()}
    ctx.stub_random()
    dom = mdp(trans, {goal}, terminals, 0, act)
    log = []
    orig = dom.get_next_state_distribution

    def nsd(memory, action):
        d = orig(memory, action)

        class Rec:
            def sample(self):
                x = d.sample()
                log.append((memory, x))
                return x

            def __getattr__(self, k):
                return getattr(d, k)
        return Rec()
    dom.get_next_state_distribution = nsd
    dom._get_next_state_distribution, inner = nsd, dom._get_next_state_distribution
    orig = inner
    value, pd, preds, succs = PE.rollout_based_compute_expected_cost_for_policy(dom, Pol(act), nb_rollout=nb)
    eps, cur = [], []
    for s, n in log:
        cur.append((s, n))
        if n in terminals:
            eps.append(cur)
            cur = []
    ctx.check(not cur and len(eps) == nb and all(e[0][0] == 0 for e in eps), "each rollout goes from the start to an end")
    tot, cnt, sc, pr = {}, {}, {}, {}
    for e in eps:
        rest = 0
        for i in range(len(e) - 1, -1, -1):
            s, n = e[i]
            rest = rest + [k for m, p, k in trans[s] if m == n][0]
            tot[s] = tot.get(s, 0) + rest
            cnt[s] = cnt.get(s, 0) + 1
            sc.setdefault(s, set()).add(n)
            pr.setdefault(s, set())
            if i:
                pr[s].add(e[i - 1][0])
    ctx.check(set(value) == set(tot) == set(pd), "estimates exactly the visited states")
    for s in tot:
        ctx.check(value[s] * cnt[s] == tot[s], "estimate is the mean cost to go of the visits")
        ctx.check(pd[s] == act[s] and succs[s] == sc[s] and preds[s] == pr[s], "actions and neighbours seen")
    ctx.reach("end")


# ---------------------------------------------------------------- POMCP
class Sampled:
    """a distribution whose samples are recorded"""

    def __init__(self, d, rec):
        self.d, self.rec = d, rec

    def sample(self):
        x = self.d.sample()
        self.rec(x)
        return x

    def get_values(self):
        return self.d.get_values()


@harness("C09", "pomcp_model", configs=[dict(first=True, iters=1), dict(first=True, iters=2), dict(first=False, iters=1)],
         expect=("end",), functions=["POMCP.solve", "reset", "get_next_action"],
         bounds="2 hidden states, 2 actions, 2 samples, 1-2 iterations, depth 1, one decision (or two with 1 iteration), every random draw",
         stubs=["random draws return any value of positive weight"])
def pomcp_model(ctx):
    """every simulated step follows the model: observations of the state reached, beliefs compatible with what was seen"""
    c = ctx.config
    ctx.stub_random()
    states, acts = [0, 1], ["a", "b"]
    nxt = {(s, a): (s if a == "a" else 1 - s) for s in states for a in acts}
    if not c["first"]:
        stuck = ctx.bool("stuck")
        nxt[1, "b"] = 1 if stuck else 0
    log = []

    def obs_of(s, a):
        return ("init", s) if a is None else (a, s)

    class Dom(Domain, SingleAgent, Sequential, EnumerableTransitions, Actions, Goals, UncertainInitialized, Markovian,
              PartiallyObservable, PositiveCosts):
        def _get_action_space_(self):
            return Acts(acts, ctx)

        def _get_applicable_actions_from(self, memory):
            return Acts(acts, ctx)

        def _get_initial_state_distribution_(self):
            return DiscreteDistribution([(s, 0.5) for s in states])

        def _get_next_state_distribution(self, memory, action):
            ctx.check(memory in states and action in acts, "the model is asked about an action in a state")
            return Sampled(SingleValueDistribution(nxt[memory, action]),
                           lambda x: log.append(("next", memory, action, x)))

        def _get_transition_value(self, memory, action, next_state=None):
            ctx.check(log and log[-1] == ("next", memory, action, next_state), "the cost is that of the sampled transition")
            return TransitionValue(cost=1)

        def _get_observation_distribution(self, state, action=None):
            return Sampled(SingleValueDistribution(obs_of(state, action)), lambda x: log.append(("obs", state, action, x)))

        def _get_goals_(self):
            def f(o):
                ctx.check(log[-1][0] == "obs" and log[-2][0] == "next" and log[-1][1] == log[-2][3]
                          and log[-1][2] == log[-2][2], "the observation is that of the state reached")
                return o[0] != "init" and o[1] == 1
            return ImplicitSpace(f)

        def _get_observation_space_(self):
            return ImplicitSpace(lambda x: True)
    sol = PM.POMCP(max_iterations=c["iters"], max_depth=1, n_samples=2)
    Dom.solve_with(sol, Dom)
    sol.reset()
    start = ctx.choice("true state", states)
    ctx.assume(start in sol._initial_belief)
    a = sol.get_next_action(obs_of(start, None))
    ctx.check(a in acts, "an action is chosen")
    ctx.check(len(sol._belief) and all(s == start for s in sol._belief), "the belief is compatible with the observation")
    if not c["first"]:
        st = nxt[start, a]
        b = sol.get_next_action(obs_of(st, a))
        ctx.check(b in acts, "an action is chosen")
        ctx.check(len(sol._belief) and all(s == st for s in sol._belief), "the belief is compatible with the observation")
    ctx.reach("end")


@harness("C09", "pomcp_best", configs=[dict(n=2, k=k) for k in (0, 1, 2)] + [dict(n=3, k=0)], expect=("end",),
         functions=["POMCP.get_next_action"],
         bounds="2-3 actions leading to the goal at once, every cost 0..9, n+1 to n+3 iterations, every random draw",
         stubs=["random draws return any value of positive weight"])
def pomcp_best(ctx):
    n = ctx.config["n"]
    ctx.stub_random()
    acts = list(range(n))
    cost = [ctx.int("c%d" % a, 0, 9) for a in acts]

    class Dom(Domain, SingleAgent, Sequential, EnumerableTransitions, Actions, Goals, UncertainInitialized, Markovian,
              PartiallyObservable, PositiveCosts):
        def _get_action_space_(self):
            return Acts(acts, ctx)

        def _get_applicable_actions_from(self, memory):
            return Acts(acts, ctx)

        def _get_initial_state_distribution_(self):
            return SingleValueDistribution("s")

        def _get_next_state_distribution(self, memory, action):
            return SingleValueDistribution("g" if action is not None else memory)

        def _get_transition_value(self, memory, action, next_state=None):
            return TransitionValue(cost=cost[action])

        def _get_observation_distribution(self, state, action=None):
            return SingleValueDistribution((state, action))

        def _get_goals_(self):
            return ImplicitSpace(lambda o: o[1] is not None)

        def _get_observation_space_(self):
            return ImplicitSpace(lambda x: True)
    sol = PM.POMCP(max_iterations=n + 1 + ctx.config["k"], max_depth=10, n_samples=1)
    Dom.solve_with(sol, Dom)
    sol.reset()
    a = sol.get_next_action(("s", None))
    ctx.check(land(*[cost[a] <= k for k in cost]), "the cheapest action is chosen once every action has been tried")
    ctx.reach("end")


@harness("C09", "pomcp_average", configs=[dict(iters=i) for i in (3, 4, 5)], expect=("end",),
         functions=["POMCP.get_next_action"],
         bounds="2 actions leading to the goal at once, one with two possible costs, all costs 0..9, 3-5 iterations, every draw",
         stubs=["random draws return any value of positive weight"])
def pomcp_average(ctx):
    ctx.stub_random()
    acts = [0, 1]
    cost = {("g", 0): ctx.int("c0", 0, 9), ("h", 0): ctx.int("c0'", 0, 9), ("g", 1): ctx.int("c1", 0, 9)}
    log = []

    class Dom(Domain, SingleAgent, Sequential, EnumerableTransitions, Actions, Goals, UncertainInitialized, Markovian,
              PartiallyObservable, PositiveCosts):
        def _get_action_space_(self):
            return Acts(acts, ctx)

        def _get_applicable_actions_from(self, memory):
            return Acts(acts, ctx)

        def _get_initial_state_distribution_(self):
            return SingleValueDistribution("s")

        def _get_next_state_distribution(self, memory, action):
            d = DiscreteDistribution([("g", 0.5), ("h", 0.5)]) if action == 0 else SingleValueDistribution("g")
            return Sampled(d, lambda x: log.append((x, action)))

        def _get_transition_value(self, memory, action, next_state=None):
            return TransitionValue(cost=cost[next_state, action])

        def _get_observation_distribution(self, state, action=None):
            return SingleValueDistribution((state, action))

        def _get_goals_(self):
            return ImplicitSpace(lambda o: o[1] is not None)

        def _get_observation_space_(self):
            return ImplicitSpace(lambda x: True)
    sol = PM.POMCP(max_iterations=ctx.config["iters"], max_depth=10, n_samples=1)
    Dom.solve_with(sol, Dom)
    sol.reset()
    a = sol.get_next_action(("s", None))
    ctx.check(a in acts, "an action is chosen")

    def cheapest(runs):
        """a has the least average simulated cost"""
        by = {b: [cost[x] for x in runs if x[1] == b] for b in acts}
        if not by[a]:
            return False
        return land(*[sum(by[a]) * len(by[b]) <= sum(by[b]) * len(by[a]) for b in acts if by[b]])
    # the very first simulation only evaluates the root
    ctx.check(lor(cheapest(log), cheapest(log[1:])), "the action of least average simulated cost is chosen")
    ctx.reach("end")


@harness("C09", "pomcp_depth", configs=lambda tier: [dict(iters=i, depth=d) for i, d in ((1, 0), (2, 1), (3, 1)) + (((3, 2),) if tier != "quick" else ())], expect=("end",),
         functions=["POMCP.get_next_action"], bounds="an endless chain, 1 to 3 iterations, depths 0 to 2, any costs 0..9, every draw",
         stubs=["random draws return any value of positive weight"])
def pomcp_depth(ctx):
    ctx.stub_random()
    c = ctx.config
    cost = {}
    deepest = []

    class Dom(Domain, SingleAgent, Sequential, EnumerableTransitions, Actions, Goals, UncertainInitialized, Markovian,
              PartiallyObservable, PositiveCosts):
        def _get_action_space_(self):
            return Acts([0, 1], ctx)

        def _get_applicable_actions_from(self, memory):
            return Acts([0, 1], ctx)

        def _get_initial_state_distribution_(self):
            return SingleValueDistribution(0)

        def _get_next_state_distribution(self, memory, action):
            s = memory[-1] if hasattr(memory, "__getitem__") else memory
            deepest.append(s)
            ctx.check(s <= c["depth"], "simulations stop at the maximum depth")
            return SingleValueDistribution(s + 1)

        def _get_transition_value(self, memory, action, next_state=None):
            k = (next_state, action)
            if k not in cost:
                cost[k] = ctx.int("cost%s" % (k,), 0, 9)
            return TransitionValue(cost=cost[k])

        def _get_observation_distribution(self, state, action=None):
            return SingleValueDistribution(state)

        def _get_goals_(self):
            return ImplicitSpace(lambda o: False)

        def _get_observation_space_(self):
            return ImplicitSpace(lambda x: True)
    sol = PM.POMCP(max_iterations=c["iters"], max_depth=c["depth"], n_samples=1)
    Dom.solve_with(sol, Dom)
    sol.reset()
    a = sol.get_next_action(0)
    ctx.check(a in (0, 1), "an action is chosen")
    ctx.check(0 in deepest, "the current state is simulated")
    ctx.reach("end")
