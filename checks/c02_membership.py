"""C02: yes/no queries of a domain (applicable action, goal, observation, event, action, value) agree with the spaces
it declares, for the given memory or, when none is given, for the current one."""
from vsym.registry import harness
from vsym.engine import land, lor, lnot
from skdecide import (Domain, EmptySpace, EnumerableSpace, ImplicitSpace, Memory, Space, SingleValueDistribution,
                      TransitionOutcome, TransitionValue)
from skdecide.builders.domain import (Actions, Events, FullyObservable, Goals, History, FiniteHistory, Initializable,
                                      Markovian, Memoryless, MultiAgent, PartiallyObservable, PositiveCosts, Rewards,
                                      Sequential, Simulation, SingleAgent, UnrestrictedActions, Renderable)

FUNCS = ["Events.is_enabled_event/get_enabled_events/is_action/get_applicable_actions/is_applicable_action",
         "Actions", "UnrestrictedActions", "Goals.is_goal", "PartiallyObservable.is_observation",
         "Rewards/PositiveCosts.check_value", "EmptySpace", "ImplicitSpace", "EnumerableSpace", "Renderable.render"]


class SymSpace(Space):
    """Membership is an arbitrary function of the element: a fresh symbolic bool per (space, element) pair."""

    def __init__(self, ctx, tag):
        self.ctx, self.tag, self.known = ctx, tag, []

    def contains(self, x):
        for k, v in self.known:
            if k is x:
                return v
        b = self.ctx.bool("in_" + self.tag)
        self.known.append((x, b))
        return b


def make(ctx, mem, multi, events, goals=True):
    MEM = {"history": History, "finite2": FiniteHistory, "markov": Markovian, "memoryless": Memoryless}[mem]
    EV = {"events": Events, "actions": Actions, "unrestricted": UnrestrictedActions}[events]
    AG = MultiAgent if multi else SingleAgent
    agents = ["a", "b"]
    made = {"n": 0}
    asked = []

    def space(tag):
        made["n"] += 1
        return {k: SymSpace(ctx, tag + k) for k in agents} if multi else SymSpace(ctx, tag)

    class B(Domain, AG, Sequential, Simulation, EV, Goals, Initializable, MEM, FullyObservable, PositiveCosts,
            Renderable):
        pass

    class Dom(B):
        def _get_memory_maxlen_(self):
            return {"finite2": 2, "markov": 1, "memoryless": 0}[mem]

        def _state_reset(self):
            return ctx.int("s", 0, 9)

        def _state_sample(self, memory, action):
            return TransitionOutcome(state=ctx.int("s", 0, 9), value=TransitionValue(cost=1))

        def _get_action_space_(self):
            return space("act")

        def _get_goals_(self):
            return space("goal")

        def _get_observation_space_(self):
            return space("obs")

        def _get_applicable_actions_from(self, memory):
            if events == "unrestricted":
                return super()._get_applicable_actions_from(memory)
            sp = space("app")
            asked.append(("app", memory, sp))
            return sp

        def _get_enabled_events_from(self, memory):
            if events != "events":
                return super()._get_enabled_events_from(memory)
            sp = SymSpace(ctx, "ev")
            asked.append(("ev", memory, sp))
            return sp

        def _render_from(self, memory, **kw):
            asked.append(("render", memory, kw))
            return 7
    return Dom(), asked, agents


def mem_is(a, b):
    if isinstance(b, Memory):
        return isinstance(a, Memory) and len(a) == len(b) and land(*[x is y for x, y in zip(a, b)])
    return a is b


def cfgs(tier):
    return [dict(mem=m, multi=mu, events=e) for m in ("history", "finite2", "markov") for mu in (False, True)
            for e in ("events", "actions", "unrestricted")]


def truth(space, el, multi):
    if multi:
        return land(*[space[k].contains(v) for k, v in el.items()])
    return space.contains(el)


@harness("C02", "queries", configs=cfgs, expect=("end", "yes", "no"), functions=FUNCS,
         bounds="arbitrary spaces (membership of an element is an arbitrary boolean), one or two agents, histories of up "
                "to 3 states, the memory given or left to the current one",
         stubs=["membership in a user space is an arbitrary boolean"])
def queries(ctx):
    c = ctx.config
    multi = c["multi"]
    dom, asked, agents = make(ctx, c["mem"], multi, c["events"])
    o = dom.reset()
    hist = [o]
    steps = ctx.index("steps", 3)
    el = {"a": "x", "b": "y"} if multi else "x"
    for _ in range(steps):
        hist.append(dom.step(el).observation)
    curmem = {"history": Memory(hist), "finite2": Memory(hist[-2:]), "markov": hist[-1]}[c["mem"]]
    use_given = ctx.choice("given", [False, True])
    if c["mem"] == "markov":
        given = ctx.choice("given state", ["u", 0, (), ""])
    else:
        given = Memory(ctx.choice("given states", [["u", "v"], [0], []]))
    arg = (given,) if use_given else ()
    eff = given if use_given else curmem

    def expect_query(r, kind, sp=None):
        if sp is None:
            ctx.check(len(asked) == 1 and asked[0][0] == kind, kind + ": the model is consulted")
            ctx.check(mem_is(asked[0][1], eff), kind + ": for the right memory")
            sp = asked[0][2]
        return sp

    which = ctx.choice("which", ["app", "isapp", "ev", "isev", "goal", "obs", "act", "render"])
    del asked[:]
    if which == "app":
        sp = dom.get_applicable_actions(*arg)
        if c["events"] == "unrestricted":
            ctx.check(sp is dom.get_action_space(), "unrestricted: every action is applicable")
        else:
            ctx.check(sp is expect_query(sp, "app"), "applicable actions are the model's")
    elif which == "isapp":
        r = bool(dom.is_applicable_action(el, *arg))
        sp = dom.get_action_space() if c["events"] == "unrestricted" else expect_query(r, "app")
        ctx.check(r == truth(sp, el, multi), "is_applicable_action agrees with the applicable actions")
        ctx.reach("yes" if r else "no")
    elif which == "ev":
        sp = dom.get_enabled_events(*arg)
        if c["events"] == "events":
            ctx.check(sp is expect_query(sp, "ev"), "enabled events are the model's")
        else:
            ctx.check(lnot(bool(sp.contains("e"))), "no uncontrollable event")
            ctx.check(len(list(sp.get_elements())) == 0, "no uncontrollable event listed")
    elif which == "isev":
        r = bool(dom.is_enabled_event("e", *arg))
        if c["events"] == "events":
            sp = expect_query(r, "ev")
            ctx.check(r == sp.contains(asked and "e"), "is_enabled_event agrees with the enabled events")
        else:
            ctx.check(not r, "no uncontrollable event is enabled")
    elif which == "goal":
        r = bool(dom.is_goal(el))
        ctx.check(r == truth(dom.get_goals(), el, multi), "is_goal agrees with the goals")
        ctx.check(dom.get_goals() is dom.get_goals(), "goals are computed once")
    elif which == "obs":
        r = bool(dom.is_observation(el))
        ctx.check(r == truth(dom.get_observation_space(), el, multi), "is_observation agrees with the space")
        ctx.check(dom.get_observation_space() is dom.get_observation_space(), "space is computed once")
    elif which == "act":
        ctx.check(dom.get_action_space() is dom.get_action_space(), "action space is computed once")
        if not multi:
            r = bool(dom.is_action("x"))
            ctx.check(r == dom.get_action_space().contains("x"), "is_action agrees with the action space")
    else:
        r = dom.render(*arg, z=3)
        ctx.check(r == 7 and len(asked) == 1 and asked[0][2] == {"z": 3}, "render is the model's")
        ctx.check(mem_is(asked[0][1], eff), "render: for the right memory")
    ctx.reach("end")


@harness("C02", "values", expect=("pos", "neg"), functions=FUNCS, bounds="arbitrary integer cost or reward in +-20")
def values(ctx):
    class P(Domain, PositiveCosts):
        pass

    class R(Domain, Rewards):
        pass
    x = ctx.int("x", -20, 20)
    by = ctx.choice("by", ["cost", "reward"])
    v = TransitionValue(cost=x) if by == "cost" else TransitionValue(reward=x)
    cost = x if by == "cost" else -x
    r = P().check_value(v)
    if r:
        ctx.reach("pos")
        ctx.check(cost >= 0, "an accepted value has a non-negative cost")
    else:
        ctx.reach("neg")
        ctx.check(cost < 0, "a rejected value has a negative cost")
    ctx.check(R().check_value(v), "any reward is accepted without a positive-cost commitment")


@harness("C02", "generic_spaces", expect=("in", "out"), functions=FUNCS,
         bounds="enumerable spaces of 0..4 arbitrary integers, an arbitrary integer element")
def generic_spaces(ctx):
    n = ctx.index("n", 5)
    els = ctx.ints("e", n, 0, 5)
    x = ctx.int("x", 0, 5)

    class E(EnumerableSpace):
        def get_elements(self):
            return list(els)
    r = bool(E().contains(x))
    ctx.check(r == lor(*[e == x for e in els]), "enumerable membership")
    ctx.check(bool(x in E()) == r, "in operator")
    ctx.reach("in" if r else "out")
    t = ctx.int("t", 0, 5)
    sp = ImplicitSpace(lambda y: y >= t)
    ctx.check(bool(sp.contains(x)) == (x >= t), "implicit membership")
    ctx.check(not EmptySpace().contains(x), "nothing belongs to the empty space")
    ctx.check(len(list(EmptySpace().get_elements())) == 0, "empty space")
