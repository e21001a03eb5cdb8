"""C06: a rollout executes the policy in the domain, step by step, until termination or the step limit."""
import logging

from vsym.registry import harness
from vsym.engine import land, lor
from skdecide import (DiscreteDistribution, Domain, EnumerableSpace, Memory, SamplableSpace, Solver, TransitionOutcome,
                      TransitionValue, rollout)
from skdecide.utils import rollout_episode
from skdecide.builders.domain import (Actions, DeterministicInitialized, DeterministicTransitions, Environment,
                                      FullyObservable, Goals, History, Initializable, Markovian, MultiAgent, Parallel,
                                      PartiallyObservable, Renderable, Rewards, Sequential, Simulation, SingleAgent,
                                      TransformedObservable, UnrestrictedActions)
from skdecide.builders.solver import DeterministicPolicies

FUNCS = ["rollout", "rollout_episode", "RandomWalk (default policy)"]


def build(ctx, kind, multi=False):
    log = []
    BASE = {"env": (Environment, Markovian, TransformedObservable), "sim": (Simulation, Markovian, FullyObservable),
            "hist": (Simulation, History, FullyObservable), "obs": (Simulation, Markovian, TransformedObservable)}[kind]

    class B(Domain, SingleAgent, Sequential, BASE[0], UnrestrictedActions, Goals, Initializable, BASE[1], BASE[2],
            Rewards):
        pass

    class Dom(B):
        def _state_reset(self):
            s = ctx.int("s0", 0, 50)
            log.append(("reset", s))
            return s

        def _do(self, memory, action):
            s, t, v = ctx.int("s", 0, 50), ctx.bool("t"), TransitionValue(cost=ctx.int("c", 0, 9))
            log.append(("step", list(memory) if isinstance(memory, Memory) else memory, action, s, v, t))
            return TransitionOutcome(s, v, t)

        def _state_step(self, action):
            return self._do(self._memory, action) if kind == "env" else super()._state_step(action)

        def _state_sample(self, memory, action):
            return self._do(memory, action)

        def _get_observation(self, state, action=None):
            return super()._get_observation(state, action) if kind in ("sim", "hist") else state + 100

        def _is_goal(self, o):
            log.append(("goal", o))
            return True

        def _get_action_space_(self):
            return ActSpace(ctx)
    return Dom(), log


class ActSpace(EnumerableSpace, SamplableSpace):
    def __init__(self, ctx):
        self.ctx = ctx

    def get_elements(self):
        return [0, 1, 2]

    def contains(self, x):
        return lor(x == 0, x == 1, x == 2)

    def sample(self):
        return self.ctx.int("act", 0, 2)


class Pol(Solver, DeterministicPolicies):
    T_domain = Domain

    def __init__(self, ctx, log):
        self.ctx, self.log = ctx, log

    def _reset(self):
        self.log.append(("solver-reset",))

    def sample_action(self, observation):
        a = self.ctx.int("a", 0, 9)
        self.log.append(("act", observation, a))
        return a


def cfgs(tier):
    n = 3 if tier == "quick" else 4
    return [dict(kind=k, api=api, start=st, solver=so, maxs=n, eps=e)
            for k in ("env", "sim", "hist", "obs") for api in ("rollout", "episode") for st in ("reset", "memory")
            for so in ("given", "random") for e in ((1, 2) if api == "rollout" else (1,))
            if not (st == "memory" and k == "env")]


@harness("C06", "execution", configs=cfgs, expect=("terminated", "limit"), functions=FUNCS,
         bounds="up to 3 steps (4 thorough), 1-2 episodes; termination arbitrary at each step; arbitrary states, costs and "
                "actions; environment / simulator / history / transformed-observation domains; reset or given memory; "
                "given policy or the default random walk",
         stubs=["policy and model hooks return arbitrary values", "sampling the action space gives any of its elements"])
def execution(ctx):
    c = ctx.config
    logging.getLogger("skdecide.utils").disabled = True
    dom, log = build(ctx, c["kind"])
    sol = Pol(ctx, log) if c["solver"] == "given" else None
    maxs = 1 + ctx.index("max", c["maxs"])
    kw = dict(max_steps=maxs, verbose=False, render=False)
    if c["start"] == "memory":
        m = [ctx.int("m", 0, 50), ctx.int("m", 0, 50)]
        kw["from_memory"] = Memory(m) if c["kind"] == "hist" else m[0]
    outs = []
    if c["api"] == "rollout":
        rollout(dom, sol, num_episodes=c["eps"], outcome_formatter=None, action_formatter=None, **kw)
        obs = None
    else:
        obs, acts, vals = rollout_episode(dom, sol, **kw)
    # split the log by episodes
    full = c["kind"] in ("sim", "hist")
    pos = 0

    def nxt(kind):
        nonlocal pos
        ctx.check(pos < len(log) and log[pos][0] == kind, "expected %s" % kind)
        pos += 1
        return log[pos - 1]
    allobs, allacts, allvals = [], [], []
    for ep in range(c["eps"]):
        if sol is not None:
            nxt("solver-reset")
        if c["start"] == "reset":
            s = nxt("reset")[1]
            hist = [s]
        else:
            hist = list(m) if c["kind"] == "hist" else [m[0]]
        o = hist[-1] if full else hist[-1] + 100
        allobs = [o]
        n = 0
        while True:
            if sol is not None:
                e = nxt("act")
                ctx.check(e[1] == o, "the policy is asked for the last observation")
                a = e[2]
            e = nxt("step")
            if c["kind"] == "hist":
                ctx.check(len(e[1]) == len(hist) and land(*[x == y for x, y in zip(e[1], hist)]),
                          "each step starts from the whole history")
            else:
                ctx.check(e[1] == hist[-1], "each step starts from the state reached by the previous one")
            if sol is not None:
                ctx.check(e[2] == a, "the domain is stepped with the policy's action")
            else:
                ctx.check(lor(*[e[2] == k for k in (0, 1, 2)]), "a random action is applicable")
            hist.append(e[3])
            o = e[3] if full else e[3] + 100
            allobs.append(o)
            allacts.append(e[2])
            allvals.append(e[4])
            n += 1
            if e[5]:
                ctx.reach("terminated")
                break
            if n >= maxs:
                ctx.reach("limit")
                break
        if c["api"] == "rollout":
            g = nxt("goal")
            ctx.check(g[1] == o, "the goal is tested on the last observation")
    if c["start"] == "memory" and c["kind"] == "hist":
        ctx.check(len(kw["from_memory"]) == 2, "the given starting memory is left as it was")
    while pos < len(log) and log[pos][0] == "goal":
        pos += 1
    ctx.check(pos == len(log), "no step beyond termination or the limit")
    if obs is not None:
        ctx.check(len(obs) == len(allobs) and land(*[x == y for x, y in zip(obs, allobs)]),
                  "the returned observations are those of the episode")
        ctx.check(len(acts) == len(allacts) and land(*[x == y for x, y in zip(acts, allacts)]),
                  "the returned actions are those applied")
        ctx.check(len(vals) == len(allvals) and land(*[x.cost == y.cost for x, y in zip(vals, allvals)]),
                  "the returned values are those obtained")


@harness("C06", "multiagent_random_walk", configs=[dict(agent=a, conc=c) for a in ("multi", "single") for c in (
    "par", "seq")], expect=("end",), functions=FUNCS, bounds="2 agents (or one), sequential or concurrent, 2 steps",
         stubs=["sampling the action space gives any of its elements"])
def multiagent_random_walk(ctx):
    logging.getLogger("skdecide.utils").disabled = True
    c = ctx.config
    multi, par = c["agent"] == "multi", c["conc"] == "par"
    seen = []

    class B(Domain, MultiAgent if multi else SingleAgent, Parallel if par else Sequential, Environment, Actions,
            Initializable, Markovian, TransformedObservable, Rewards):
        pass

    class Dom(B):
        def _state_reset(self):
            return 0

        def _state_step(self, action):
            seen.append(action)
            return TransitionOutcome(1, {"p": TransitionValue(), "q": TransitionValue()} if multi else TransitionValue(),
                                     False, {"p": None, "q": None} if multi else None)

        def _get_observation(self, state, action=None):
            return {"p": state, "q": state} if multi else state

        def _get_applicable_actions_from(self, memory):
            return {"p": sp, "q": sq} if multi else sp
    sp, sq = ActSpace(ctx), ActSpace(ctx)
    rollout(Dom(), max_steps=2, verbose=False, render=False, outcome_formatter=None, action_formatter=None)
    ctx.check(len(seen) == 2, "two steps")
    for a in seen:
        if multi:
            ctx.check(isinstance(a, dict) and set(a) == {"p", "q"}, "an action for each agent")
        for x in (a.values() if multi else [a]):
            if par:
                ctx.check(isinstance(x, list) and len(x) == 1, "concurrent actions are listed")
                x = x[0]
            ctx.check(lor(x == 0, x == 1, x == 2), "each action is applicable")
    ctx.reach("end")
