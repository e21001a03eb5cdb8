"""C05: distributions, values, outcomes and constraints mean what they say."""
from vsym.registry import harness
from vsym.engine import land, lor, lnot, implies, ite
from skdecide import (BoundConstraint, DiscreteDistribution, Domain, EnvironmentOutcome, ImplicitConstraint,
                      ImplicitDistribution, SingleValueDistribution, TransitionOutcome, TransitionValue, Solver)
from skdecide.builders.solver import DeterministicPolicies, UncertainPolicies
from skdecide.core import nocopy

FUNCS = ["DiscreteDistribution", "SingleValueDistribution", "ImplicitDistribution", "TransitionValue",
         "EnvironmentOutcome", "TransitionOutcome", "BoundConstraint", "ImplicitConstraint",
         "UncertainPolicies.sample_action", "DeterministicPolicies.get_next_action_distribution"]


@harness("C05", "discrete_distribution", expect=("end", "zero"), functions=FUNCS,
         bounds="1..4 arbitrary integer values (duplicates allowed), arbitrary non-negative weights with positive sum",
         stubs=["random.choices: any index of positive weight; a random.random-based draw: any number in [0,1)"])
def discrete_distribution(ctx):
    ctx.stub_random()
    n = 1 + ctx.index("n", 4)
    vs, ws = ctx.ints("v", n, 0, 3), ctx.ints("w", n, 0, 5)
    ctx.assume(sum(ws) > 0)
    d = DiscreteDistribution([(v, w) for v, w in zip(vs, ws)])
    got = list(d.get_values())
    ctx.check(len(got) == n and land(*[land(g[0] == v, g[1] == w) for g, v, w in zip(got, vs, ws)]),
              "the values and probabilities are those given")
    drawn = []
    import random
    inner = random.choices

    def spy(population, weights=None, *, cum_weights=None, k=1):
        drawn.append((list(population), None if weights is None else list(weights), k))
        return inner(population, weights, cum_weights=cum_weights, k=k)
    ctx.patch(random, "choices", spy)
    s = d.sample()
    ctx.check(lor(*[land(s == v, w > 0) for v, w in zip(vs, ws)]), "a sample has positive probability")
    if drawn and drawn[0][1] is not None:
        # the draw handed to the generator is proportional to the given weights, value by value
        p, w, k = drawn[0]
        tot, tot0 = sum(w), sum(ws)
        if len(p) == n and all(a is b for a, b in zip(p, vs)):
            ctx.check(land(*[x * tot0 == y * tot for x, y in zip(w, ws)]), "the draw is proportional to the probabilities")
        else:
            for v in vs:
                ctx.check(sum(ite(a == v, x, 0) for a, x in zip(p, w)) * tot0 == sum(ite(a == v, x, 0) for a, x in zip(vs, ws)) * tot,
                          "the draw is proportional to the probabilities")
    if ws[0] == 0:
        ctx.reach("zero")
    # sampling changes nothing
    got = list(d.get_values())
    ctx.check(len(got) == n and land(*[land(g[0] == v, g[1] == w) for g, v, w in zip(got, vs, ws)]),
              "sampling leaves the distribution unchanged")
    ctx.reach("end")


@harness("C05", "single_and_implicit", expect=("end",), functions=FUNCS, bounds="arbitrary integer value")
def single_and_implicit(ctx):
    v = ctx.int("v", -9, 9)
    d = SingleValueDistribution(v)
    vals = list(d.get_values())
    ctx.check(len(vals) == 1 and land(vals[0][0] == v, vals[0][1] == 1, d.sample() == v, d.get_value() == v),
              "all the mass on the value")
    draws = [ctx.int("d", -9, 9) for _ in range(2)]
    it = iter(draws)
    imp = ImplicitDistribution(lambda: next(it))
    ctx.check(land(imp.sample() == draws[0], imp.sample() == draws[1]), "each sample is a fresh draw")
    ctx.reach("end")


@harness("C05", "transition_value", expect=("end",), functions=FUNCS, bounds="arbitrary integer cost and reward")
def transition_value(ctx):
    x, y = ctx.int("x", -20, 20), ctx.int("y", -20, 20)
    a, b, c = TransitionValue(reward=x), TransitionValue(cost=x), TransitionValue()
    ctx.check(land(a.reward == x, a.cost == -x), "the cost of a reward is its opposite")
    ctx.check(land(b.cost == x, b.reward == -x), "the reward of a cost is its opposite")
    ctx.check(land(c.cost == 0, c.reward == 0), "no value is zero")
    e = TransitionValue(reward=x, cost=y)
    ctx.check(e.reward == -e.cost, "reward and cost are always opposite")
    ctx.check((a == TransitionValue(reward=y)) == (x == y), "values are equal exactly when their amounts are")
    ctx.reach("end")


@harness("C05", "outcomes", expect=("end",), functions=FUNCS, bounds="single agent or two agents, arbitrary integers")
def outcomes(ctx):
    x, y = ctx.int("x", 0, 9), ctx.int("y", 0, 9)
    multi = ctx.choice("multi", [False, True])
    cls = ctx.choice("cls", [EnvironmentOutcome, TransitionOutcome])
    t = ctx.choice("t", [None, False, True])
    given = ctx.choice("given", [False, True])
    main = {"a": x, "b": y} if multi else x
    v = {"a": TransitionValue(cost=x), "b": TransitionValue(cost=y)} if multi else TransitionValue(cost=y)
    inf = {"a": 1, "b": 2} if multi else 3
    kw = {}
    if t is not None:
        kw["termination"] = t
    if given:
        kw.update(value=v, info=inf)
    o = cls(main, **kw)
    got = o.observation if cls is EnvironmentOutcome else o.state
    ctx.check(got is main, "observation / state kept")
    ctx.check(o.termination is (t or False), "termination defaults to no")
    if given:
        ctx.check(o.value is v and o.info is inf, "value and info kept")
    elif multi:
        ctx.check(set(o.value) == {"a", "b"} and all(o.value[k].cost == 0 and o.value[k].reward == 0 for k in o.value),
                  "default value is zero for each agent")
        ctx.check(o.info == {"a": None, "b": None}, "no info for each agent")
    else:
        ctx.check(land(o.value.cost == 0, o.value.reward == 0) and o.info is None, "default value is zero")
    p = o.replace(termination=True)
    ctx.check(p.termination is True and o.termination is (t or False), "replace gives a changed copy")
    q = p.observation if cls is EnvironmentOutcome else p.state
    ctx.check(land(q["a"] == x, q["b"] == y) if multi else q == x, "replace keeps the rest")
    ctx.reach("end")


@harness("C05", "constraints", expect=("ok", "ko"), functions=FUNCS, bounds="arbitrary integer value and bound, 4 inequalities")
def constraints(ctx):
    val, bnd = ctx.int("val", -9, 9), ctx.int("bnd", -9, 9)
    ineq = ctx.choice("ineq", ["<", "<=", ">", ">="])
    dep = ctx.choice("dep", [None, True, False])
    seen = []

    def ev(m, a, n=None):
        seen.append((m, a, n))
        return val
    co = BoundConstraint(ev, ineq, bnd) if dep is None else BoundConstraint(ev, ineq, bnd, dep)
    r = bool(co.check("m", "a", "n"))
    ctx.reach("ok" if r else "ko")
    exp = {"<": val < bnd, "<=": val <= bnd, ">": val > bnd, ">=": val >= bnd}[ineq]
    ctx.check(r == exp, "the constraint holds exactly when the inequality does")
    ctx.check(seen == [("m", "a", "n")], "evaluated on the given transition")
    ctx.check(land(co.evaluate("m", "a") == val, co.get_bound() == bnd) and co.get_inequality() == ineq, "accessors")
    ctx.check(seen[1] == ("m", "a", None), "next state is optional")
    ctx.check(co.is_constraint_dependent_on_next_state() == (True if dep is None else dep), "dependence on next state")
    b = ctx.bool("b")
    ic = ImplicitConstraint(lambda m, a, n=None: b) if dep is None else ImplicitConstraint(lambda m, a, n=None: b, dep)
    ctx.check(ic.check("m", "a", "n") == b, "implicit constraint gives its own verdict")
    ctx.check(ic.is_constraint_dependent_on_next_state() == (True if dep is None else dep), "dependence on next state")


@harness("C05", "policies", expect=("end",), functions=FUNCS, bounds="arbitrary integer observation and actions",
         stubs=["random.choices returns any element of positive weight"])
def policies(ctx):
    ctx.stub_random()
    o, a, b = ctx.int("o", 0, 9), ctx.int("a", 0, 9), ctx.int("b", 0, 9)
    wa, wb = ctx.int("wa", 0, 3), ctx.int("wb", 0, 3)
    ctx.assume(wa + wb > 0)
    seen = []

    class U(Solver, UncertainPolicies):
        def _get_next_action_distribution(self, observation):
            seen.append(observation)
            return DiscreteDistribution([(a, wa), (b, wb)])

    class Dp(Solver, DeterministicPolicies):
        def _get_next_action(self, observation):
            seen.append(observation)
            return a
    s = U().sample_action(o)
    ctx.check(lor(land(s == a, wa > 0), land(s == b, wb > 0)), "sampled action is in the policy's support")
    d = Dp()
    ctx.check(land(d.sample_action(o) == a, d.get_next_action(o) == a), "a deterministic policy gives its action")
    vals = list(d.get_next_action_distribution(o).get_values())
    ctx.check(len(vals) == 1 and land(vals[0][0] == a, vals[0][1] == 1), "with probability one")
    ctx.check(land(*[x == o for x in seen]), "for the observation given")
    ctx.reach("end")
