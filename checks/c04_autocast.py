"""C04: a domain or solver adapted to another level of agents / concurrency / memory gives the same content, reshaped."""
from typing import List, Optional, Union

from vsym.registry import harness
from vsym.engine import land, lor
from skdecide import (D, Constraint, BoundConstraint, DiscreteDistribution, Distribution, Domain, EnvironmentOutcome,
                      ImplicitConstraint, ImplicitDistribution, Memory, SingleValueDistribution, Solver, Space, StrDict,
                      TransitionOutcome, TransitionValue, autocast_all, autocastable)
from skdecide.core import autocast, cast
from skdecide.builders.domain import (Actions, Constrained, DeterministicInitialized, EnumerableTransitions, Events,
                                      FiniteHistory, FullyObservable, Goals, History, Markovian, MultiAgent, Parallel,
                                      PartiallyObservable, Rewards, Sequential, Simulation, SingleAgent)
from skdecide.builders.solver import Policies, UncertainPolicies, DeterministicPolicies, QValues

FUNCS = ["autocast", "autocast_all", "cast", "cast_needed", "parse_hint", "get_args_dict", "cast_dict", "*._cast"]

LEVELS = [(a, c, m) for a in ("multi", "single") for c in ("par", "seq") for m in ("hist", "markov")]


class Level:
    def __init__(self, lv):
        a, c, m = lv
        self.T_agent = StrDict if a == "multi" else Union
        self.T_concurrency = List if c == "par" else Union
        self.T_memory = Memory if m == "hist" else Union
        self.lv = lv
    T_state = T_observation = T_event = T_value = T_info = object


def mixin(lv):
    a, c, m = lv
    return (MultiAgent if a == "multi" else SingleAgent, Parallel if c == "par" else Sequential,
            History if m == "hist" else Markovian)


# shapes: A[x] agent-wise, C[x] concurrent, M[x] memory
def mk(lv, shape, x):
    """content x (a scalar) in the shape of level lv"""
    a, c, m = lv
    if shape == "":
        return x
    k, rest = shape[0], shape[1:]
    v = mk(lv, rest, x)
    if k == "A":
        return {"agent": v} if a == "multi" else v
    if k == "C":
        return [v] if c == "par" else v
    if k == "M":
        return Memory([v]) if m == "hist" else v


def eq(a, b):
    """same shape and content"""
    if isinstance(a, TransitionValue) or isinstance(b, TransitionValue):
        return isinstance(a, TransitionValue) and isinstance(b, TransitionValue) and land(a.cost == b.cost,
                                                                                          a.reward == b.reward)
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and isinstance(b, dict) and list(a) == list(b) and land(*[eq(a[k], b[k]) for k in a])
    if isinstance(a, (list, Memory)) or isinstance(b, (list, Memory)):
        return (isinstance(a, Memory) == isinstance(b, Memory) and isinstance(a, list) == isinstance(b, list)
                and len(a) == len(b) and land(*[eq(p, q) for p, q in zip(a, b)]))
    if a is None or b is None:
        return a is b
    return a == b


def pairs(tier):
    return [dict(src=s, dst=d) for s in LEVELS for d in LEVELS]


@harness("C04", "functions", configs=pairs, expect=("end",), functions=FUNCS,
         bounds="all 64 pairs of levels; arbitrary integer contents; positional and keyword arguments, missing optionals")
def functions(ctx):
    src, dst = ctx.config["src"], ctx.config["dst"]
    S, T = Level(src), Level(dst)
    x, y, z = ctx.int("x", -9, 9), ctx.int("y", -9, 9), ctx.int("z", -9, 9)
    seen = []

    def f(memory: 'D.T_memory[D.T_state]', action: 'D.T_agent[D.T_concurrency[D.T_event]]',
          state: 'Optional[D.T_state]' = None, opt: 'Optional[D.T_memory[D.T_state]]' = None, flag: 'bool' = True) \
            -> 'D.T_agent[D.T_concurrency[D.T_event]]':
        seen.append((memory, action, state, opt, flag))
        return mk(src, "AC", z)
    g = autocast(f, S, T)
    how = ctx.choice("how", ["pos", "kw", "mixed", "opt"])
    m, a = mk(dst, "M", x), mk(dst, "AC", y)
    if how == "pos":
        r = g(m, a, 5)
        exp = (mk(src, "M", x), mk(src, "AC", y), 5, None, True)
    elif how == "kw":
        r = g(action=a, memory=m, flag=False)
        exp = (mk(src, "M", x), mk(src, "AC", y), None, None, False)
    elif how == "mixed":
        r = g(m, action=a, state=z)
        exp = (mk(src, "M", x), mk(src, "AC", y), z, None, True)
    else:
        r = g(m, a, None, mk(dst, "M", z), False)
        exp = (mk(src, "M", x), mk(src, "AC", y), None, mk(src, "M", z), False)
    ctx.check(len(seen) == 1, "called once")
    for i in range(5):
        ctx.check(eq(seen[0][i], exp[i]), "argument %d reaches the function in its own shape" % i)
    ctx.check(eq(r, mk(dst, "AC", z)), "the result comes back in the caller's shape")
    ctx.reach("end")


def vec(lv, shape, xs):
    """two agents / two concurrent events / longer memories, for levels which keep the structure"""
    return None


@harness("C04", "containers", configs=pairs, expect=("end",), functions=FUNCS,
         bounds="all 64 pairs of levels; distributions of 1..3 values with arbitrary weights, outcomes, constraints")
def containers(ctx):
    ctx.stub_random()
    src, dst = ctx.config["src"], ctx.config["dst"]
    S, T = Level(src), Level(dst)
    kind = ctx.choice("kind", ["discrete", "single", "implicit", "env", "bound", "implicitc", "listed", "trans"])
    x, y, z = ctx.int("x", -9, 9), ctx.int("y", -9, 9), ctx.int("z", -9, 9)

    if kind in ("discrete", "single", "implicit"):
        n = 1 + ctx.index("n", 3)
        xs, ws = ctx.ints("v", n, -9, 9), ctx.ints("w", n, 0, 5)
        if kind == "discrete":
            d = DiscreteDistribution([(mk(src, "AC", v), w) for v, w in zip(xs, ws)])
        elif kind == "single":
            d = SingleValueDistribution(mk(src, "AC", x))
        else:
            d = ImplicitDistribution(lambda: mk(src, "AC", x))

        def f() -> 'Distribution[D.T_agent[D.T_concurrency[D.T_event]]]':
            return d
        r = autocast(f, S, T)()
        if kind == "discrete":
            vs = list(r.get_values())
            ctx.check(len(vs) == n, "support size kept")
            for i in range(n):
                ctx.check(land(eq(vs[i][0], mk(dst, "AC", xs[i])), vs[i][1] == ws[i]), "value and weight kept")
            ctx.assume(sum(ws) > 0)
            s = r.sample()
            ctx.check(lor(*[land(eq(s, mk(dst, "AC", v)), w > 0) for v, w in zip(xs, ws)]), "sample in the support")
        elif kind == "single":
            ctx.check(eq(r.get_value(), mk(dst, "AC", x)) & eq(r.sample(), mk(dst, "AC", x)), "single value kept")
            ctx.check(len(list(r.get_values())) == 1, "single value listed")
        else:
            ctx.check(eq(r.sample(), mk(dst, "AC", x)), "sample reshaped")
    elif kind == "env":
        t = ctx.bool("t")
        v = TransitionValue(cost=y)

        def f() -> 'EnvironmentOutcome[D.T_agent[D.T_observation], D.T_agent[TransitionValue[D.T_value]], ' \
                   'D.T_agent[D.T_info]]':
            return EnvironmentOutcome(mk(src, "A", x), mk(src, "A", v), t, mk(src, "A", z))
        r = autocast(f, S, T)()
        ctx.check(eq(r.observation, mk(dst, "A", x)), "observation reshaped")
        ctx.check(eq(r.value, mk(dst, "A", v)), "value reshaped")
        ctx.check(r.termination == t, "termination kept")
        ctx.check(eq(r.info, mk(dst, "A", z)), "info reshaped")
    elif kind == "trans":
        t = ctx.bool("t")
        v = TransitionValue(reward=y)

        def f() -> 'TransitionOutcome[D.T_state, D.T_agent[TransitionValue[D.T_value]], D.T_agent[D.T_info]]':
            return TransitionOutcome(x, mk(src, "A", v), t, mk(src, "A", z))
        r = autocast(f, S, T)()
        ctx.check(land(r.state == x, r.termination == t), "state and termination kept")
        ctx.check(eq(r.value, mk(dst, "A", v)) & eq(r.info, mk(dst, "A", z)), "value and info reshaped")
    elif kind in ("bound", "implicitc"):
        seen = []
        dep = ctx.choice("dep", [True, False])
        ineq = ctx.choice("ineq", ["<", "<=", ">", ">="]) if kind == "bound" else None
        val = ctx.int("val", -9, 9)
        b = ctx.bool("b")

        def ev(memory, action, next_state=None):
            seen.append((memory, action, next_state))
            return val if kind == "bound" else b
        co = BoundConstraint(ev, ineq, z, dep) if kind == "bound" else ImplicitConstraint(ev, dep)

        def f() -> 'List[Constraint[D.T_memory[D.T_state], D.T_agent[D.T_concurrency[D.T_event]], D.T_state]]':
            return [co]

        def f1() -> 'Constraint[D.T_memory[D.T_state], D.T_agent[D.T_concurrency[D.T_event]], D.T_state]':
            return co
        lst = ctx.choice("lst", [False, True])
        r = autocast(f, S, T)()[0] if lst else autocast(f1, S, T)()
        res = r.check(mk(dst, "M", x), mk(dst, "AC", y), 4)
        ctx.check(len(seen) == 1 and eq(seen[0][0], mk(src, "M", x)) & eq(seen[0][1], mk(src, "AC", y)) & eq(
            seen[0][2], 4), "the constraint is asked about the same memory, action and next state")
        if kind == "bound":
            exp = {"<": val < z, "<=": val <= z, ">": val > z, ">=": val >= z}[ineq]
            ctx.check(res == exp, "same verdict")
            ctx.check(land(r.evaluate(mk(dst, "M", x), mk(dst, "AC", y), 4) == val, r.get_bound() == z)
                      and r.get_inequality() == ineq, "same bound")
        else:
            ctx.check(res == b, "same verdict")
        ctx.check(r.is_constraint_dependent_on_next_state() == dep, "same dependence")
    else:
        # structures kept by both levels: several agents, several concurrent events, several states in memory
        if src[0] == "multi" and dst[0] == "multi":
            def f(a: 'D.T_agent[D.T_concurrency[D.T_event]]') -> 'D.T_agent[D.T_concurrency[D.T_event]]':
                seen.append(a)
                return {k: mk(src, "C", v) for k, v in (("p", z), ("q", y))}
            seen = []
            r = autocast(f, S, T)({"p": mk(dst, "C", x), "q": mk(dst, "C", y)})
            ctx.check(eq(seen[0], {"p": mk(src, "C", x), "q": mk(src, "C", y)}), "every agent's argument is kept")
            ctx.check(eq(r, {"p": mk(dst, "C", z), "q": mk(dst, "C", y)}), "every agent's result is kept")
        if src[1] == "par" and dst[1] == "par":
            def f(a: 'D.T_agent[D.T_concurrency[D.T_event]]') -> 'D.T_agent[D.T_concurrency[D.T_event]]':
                seen.append(a)
                return mk(src, "A", [z, y])
            seen = []
            r = autocast(f, S, T)(mk(dst, "A", [x, y, z]))
            ctx.check(eq(seen[0], mk(src, "A", [x, y, z])), "every concurrent event of the argument is kept")
            ctx.check(eq(r, mk(dst, "A", [z, y])), "every concurrent event of the result is kept")
        if src[2] == "hist" and dst[2] == "hist":
            def f(m: 'D.T_memory[D.T_state]', a: 'D.T_agent[D.T_event]') -> 'D.T_memory[D.T_state]':
                seen.append((m, a))
                return Memory([z, y])
            seen = []
            r = autocast(f, S, T)(Memory([x, y, z]), mk(dst, "A", 1))
            ctx.check(eq(seen[0][0], Memory([x, y, z])) & eq(seen[0][1], mk(src, "A", 1)), "the whole memory is kept")
            ctx.check(eq(r, Memory([z, y])), "the whole returned memory is kept")
    ctx.reach("end")


@harness("C04", "domain_and_solver", configs=[dict(src=s) for s in LEVELS], expect=("end",), functions=FUNCS,
         bounds="a domain at each of the 8 levels solved by a solver written for the most general level (and the domain "
                "used through it); arbitrary integer contents",
         stubs=["random.choices returns any element of positive weight"])
def domain_and_solver(ctx):
    ctx.stub_random()
    src = ctx.config["src"]
    GEN = ("multi", "par", "hist")
    A, C, M = mixin(src)
    st, ac, cost = ctx.int("st", 0, 9), ctx.int("ac", 0, 9), ctx.int("cost", 0, 9)
    calls = []

    class B(Domain, A, C, EnumerableTransitions, Actions, Goals, DeterministicInitialized, M, FullyObservable, Rewards):
        pass

    class Dom(B):
        T_state = T_observation = T_event = T_value = T_info = object

        def _get_next_state_distribution(self, memory, action):
            calls.append(("nsd", memory, action))
            return DiscreteDistribution([(ns, 1), (ns2, 2)])

        def _get_transition_value(self, memory, action, next_state=None):
            calls.append(("val", memory, action, next_state))
            return mk(src, "A", TransitionValue(cost=cost))

        def _is_terminal(self, state):
            calls.append(("term", state))
            return False

        def _get_initial_state_(self):
            return mk(src, "A", st)

        def _get_applicable_actions_from(self, memory):
            calls.append(("app", memory))
            return mk(src, "A", sp)

        def _get_action_space_(self):
            return mk(src, "A", sp)

        def _get_goals_(self):
            return mk(src, "A", sp)
    ns, ns2 = mk(src, "A", ctx.int("ns", 0, 9)), mk(src, "A", ctx.int("ns2", 0, 9))

    class Sp(Space):
        def contains(self, x):
            return True
    sp = Sp()
    got = {}

    class Sol(Solver, UncertainPolicies, QValues):
        T_domain = Domain

        def _solve_domain(self, domain_factory):
            d = domain_factory()
            mem = mk(GEN, "M", mk(src, "A", st))
            got["space"] = d.get_action_space()
            got["goals"] = d.get_goals()
            got["app"] = d.get_applicable_actions(mem)
            got["nsd"] = d.get_next_state_distribution(mem, mk(GEN, "AC", ac))
            got["val"] = d.get_transition_value(mem, mk(GEN, "AC", ac), ns)
            got["term"] = d.is_terminal(ns)
            got["goal"] = d.is_goal(mk(GEN, "A", st))
            got["reset"] = d.reset()
            got["step"] = d.step(mk(GEN, "AC", ac))

        def _get_next_action_distribution(self, observation):
            seen.append(observation)
            return DiscreteDistribution([(mk(GEN, "AC", ac), 1), (mk(GEN, "AC", cost), 3)])

        def _is_policy_defined_for(self, observation):
            seen.append(observation)
            return True

        def _get_q_value(self, observation, action):
            seen.append((observation, action))
            return cost

        def _solve_from(self, memory):
            seen.append(memory)
    seen = []
    sol = Dom.solve_with(Sol())
    ctx.check(isinstance(got["space"], dict) and got["space"] == {"agent": sp}, "action space seen per agent")
    ctx.check(got["app"] == {"agent": sp} and got["goals"] == {"agent": sp}, "applicable actions / goals seen per agent")
    mem = mk(src, "M", mk(src, "A", st))
    act = mk(src, "AC", ac)
    ctx.check(eq([c for c in calls if c[0] == "app"][0][1], mem), "the domain receives its own memory shape")
    n1 = [c for c in calls if c[0] == "nsd"]
    ctx.check(eq(n1[0][1], mem) & eq(n1[0][2], act), "the domain receives its own memory and action shapes")
    v1 = [c for c in calls if c[0] == "val"]
    ctx.check(eq(v1[0][1], mem) & eq(v1[0][2], act) & eq(v1[0][3], ns), "value asked in the domain's shapes")
    vals = list(got["nsd"].get_values())
    ctx.check(len(vals) == 2 and land(eq(vals[0][0], ns), eq(vals[1][0], ns2), vals[0][1] == 1, vals[1][1] == 2),
              "the distribution over states is unchanged")
    ctx.check(eq(got["val"], mk(GEN, "A", TransitionValue(cost=cost))), "value seen per agent")
    ctx.check(got["term"] is False and bool(got["goal"]) is True, "booleans unchanged")
    ctx.check(eq(got["reset"], mk(GEN, "A", st)), "observation seen per agent")
    ctx.check(eq(n1[1][2], act), "step gives the domain its own action shape")
    o = got["step"].observation
    ctx.check(lor(eq(o, mk(GEN, "A", ns["agent"] if src[0] == "multi" else ns)),
                  eq(o, mk(GEN, "A", ns2["agent"] if src[0] == "multi" else ns2))), "outcome seen per agent")
    ctx.check(eq(got["step"].value, mk(GEN, "A", TransitionValue(cost=cost))), "outcome value seen per agent")
    # the solver, used with the domain's own shapes
    a = sol.sample_action(mk(src, "A", st))
    ctx.check(eq(seen[0], mk(GEN, "A", st)), "the solver receives its own observation shape")
    ctx.check(lor(eq(a, mk(src, "AC", ac)), eq(a, mk(src, "AC", cost))), "the action comes back in the domain's shape")
    d = list(sol.get_next_action_distribution(mk(src, "A", st)).get_values())
    ctx.check(len(d) == 2 and land(eq(d[0][0], mk(src, "AC", ac)), d[0][1] == 1, eq(d[1][0], mk(src, "AC", cost)),
                                   d[1][1] == 3), "the action distribution comes back in the domain's shape")
    del seen[:]
    ctx.check(sol.is_policy_defined_for(mk(src, "A", st)) is True and eq(seen[0], mk(GEN, "A", st)), "policy defined")
    ctx.check(sol.get_q_value(mk(src, "A", st), mk(src, "AC", ac)) == cost, "q value unchanged")
    ctx.check(eq(seen[1][0], mk(GEN, "A", st)) & eq(seen[1][1], mk(GEN, "AC", ac)), "q value asked in solver shapes")
    sol.solve_from(mk(src, "M", mk(src, "A", st)))
    ctx.check(eq(seen[2], mk(GEN, "M", mk(src, "A", st))), "solve_from receives the solver's memory shape")
    ctx.reach("end")
