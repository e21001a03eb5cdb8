"""C01: stepping / sampling a domain follows its own transition model with the documented memory discipline."""
from vsym.registry import harness
from vsym.engine import implies, land, lor, ite
from skdecide import (Domain, DiscreteDistribution, EnvironmentOutcome, Memory, Space, TransitionOutcome, TransitionValue)
from skdecide.builders.domain import (Actions, DeterministicInitialized, DeterministicTransitions, EnumerableTransitions,
                                      Environment, FiniteHistory, FullyObservable, History, Initializable, Markovian,
                                      Memoryless, MultiAgent, Parallel, PartiallyObservable, Rewards, Sequential,
                                      Simulation, SingleAgent, TransformedObservable, UncertainInitialized,
                                      UncertainTransitions)

FUNCS = ["Environment.step", "Simulation.sample/set_memory", "UncertainTransitions._state_sample",
         "DeterministicTransitions._get_next_state_distribution", "Initializable.reset", "History/FiniteHistory/"
         "Markovian/Memoryless._init_memory", "PartiallyObservable/TransformedObservable/FullyObservable "
         "observation chain", "DiscreteDistribution.sample", "SingleValueDistribution"]


def snap(memory):
    if isinstance(memory, Memory):
        return ("M", list(memory))
    return ("S", memory)


def build(ctx, dyn, mem, obs, init, multi):
    """A domain whose model hooks log their arguments and answer with fresh symbolic values."""
    log = []
    agents = ["a", "b"]

    def wrap(v):
        return {k: (v if k == "a" else v + 1000) for k in agents} if multi else v

    MEM = {"history": History, "finite1": FiniteHistory, "finite2": FiniteHistory, "finite3": FiniteHistory,
           "markov": Markovian, "memoryless": Memoryless}[mem]
    DYN = {"env": Environment, "sim": Simulation, "unc": UncertainTransitions, "enum": EnumerableTransitions,
           "det": DeterministicTransitions}[dyn]
    OBS = {"partial": PartiallyObservable, "transformed": TransformedObservable, "full": FullyObservable}[obs]
    INI = {"init": Initializable, "unc": UncertainInitialized, "det": DeterministicInitialized}[init]
    AG = MultiAgent if multi else SingleAgent

    class D0(Domain, AG, Sequential, DYN, Actions, INI, MEM, OBS, Rewards):
        pass

    class Dom(D0):
        if mem.startswith("finite"):
            def _get_memory_maxlen_(self):
                return int(mem[6:])

        def _mkvalue(self):
            if multi:
                return {k: TransitionValue(cost=ctx.int("cost", -5, 5)) for k in agents}
            return TransitionValue(cost=ctx.int("cost", -5, 5))

        # --- environment
        def _state_step(self, action):
            if dyn != "env":
                return super()._state_step(action)
            s, t, v = ctx.int("state", 0, 50), ctx.bool("term"), self._mkvalue()
            s = wrap(s) if multi else s
            log.append(("trans", snap(self._memory), action, s, v, t))
            return TransitionOutcome(state=s, value=v, termination=t)

        def _state_sample(self, memory, action):
            if dyn != "sim":
                return super()._state_sample(memory, action)
            s, t, v = ctx.int("state", 0, 50), ctx.bool("term"), self._mkvalue()
            s = wrap(s) if multi else s
            log.append(("trans", snap(memory), action, s, v, t))
            return TransitionOutcome(state=s, value=v, termination=t)

        def _get_next_state_distribution(self, memory, action):
            if dyn == "det":
                return super()._get_next_state_distribution(memory, action)
            k = 2
            ss = [wrap(ctx.int("state", 0, 50)) if multi else ctx.int("state", 0, 50) for _ in range(k)]
            ws = [ctx.int("w", 0, 3) for _ in range(k)]
            ctx.assume(sum(ws) > 0)
            log.append(("dist", snap(memory), action, ss, ws))
            return DiscreteDistribution(list(zip(ss, ws)))

        def _get_next_state(self, memory, action):
            s = wrap(ctx.int("state", 0, 50))
            log.append(("dist", snap(memory), action, [s], [1]))
            return s

        def _get_transition_value(self, memory, action, next_state=None):
            v = self._mkvalue()
            log.append(("value", snap(memory), action, next_state, v))
            return v

        def _is_terminal(self, state):
            t = ctx.bool("term")
            log.append(("term", state, t))
            return t

        # --- init
        def _state_reset(self):
            if init != "init":
                return super()._state_reset()
            s = wrap(ctx.int("init", 0, 50))
            log.append(("init", [s], [1]))
            return s

        def _get_initial_state_distribution_(self):
            if init == "det":
                return super()._get_initial_state_distribution_()
            ss = [wrap(ctx.int("init", 0, 50)) for _ in range(2)]
            ws = [ctx.int("iw", 0, 3) for _ in range(2)]
            ctx.assume(sum(ws) > 0)
            log.append(("init", ss, ws))
            return DiscreteDistribution(list(zip(ss, ws)))

        def _get_initial_state_(self):
            s = wrap(ctx.int("init", 0, 50))
            log.append(("init", [s], [1]))
            return s

        # --- observation
        def _get_observation_distribution(self, state, action=None):
            if obs != "partial":
                return super()._get_observation_distribution(state, action)
            oo = [wrap(ctx.int("obs", 0, 50)) for _ in range(2)]
            ws = [ctx.int("ow", 0, 3) for _ in range(2)]
            ctx.assume(sum(ws) > 0)
            log.append(("obs", state, action, oo, ws))
            return DiscreteDistribution(list(zip(oo, ws)))

        def _get_observation(self, state, action=None):
            if obs == "full":
                return super()._get_observation(state, action)
            o = wrap(ctx.int("obs", 0, 50))
            log.append(("obs", state, action, [o], [1]))
            return o
    return Dom(), log


def same(a, b):
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and isinstance(b, dict) and a.keys() == b.keys() and land(
            *[same(a[k], b[k]) for k in a])
    if isinstance(a, TransitionValue):
        return isinstance(b, TransitionValue) and land(a.cost == b.cost, a.reward == b.reward)
    return a == b


def in_support(x, vals, ws):
    return lor(*[land(same(x, v), w > 0) for v, w in zip(vals, ws)])


def expected_memory(mem, hist):
    if mem == "history":
        return ("M", list(hist))
    if mem.startswith("finite"):
        return ("M", list(hist)[-int(mem[6:]):])
    if mem == "markov":
        return ("S", hist[-1])
    return ("S", None)


def same_mem(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == "M":
        return len(a[1]) == len(b[1]) and land(*[same(x, y) for x, y in zip(a[1], b[1])])
    if a[1] is None or b[1] is None:
        return a[1] is None and b[1] is None
    return same(a[1], b[1])


def entries(log, kind):
    return [e for e in log if e[0] == kind]


def judge(ctx, log, dyn, obs, mem, hist, action, out, what):
    """the outcome of one step/sample is the model's answer for (memory, action); returns the new state"""
    em = expected_memory(mem, hist)
    if dyn in ("env", "sim"):
        tr = entries(log, "trans")
        ctx.check(len(tr) == 1, what + ": the transition model is consulted once")
        _, m, a, s, v, t = tr[0]
        ctx.check(same_mem(m, em), what + ": transition drawn from the current memory")
        ctx.check(same(a, action), what + ": transition drawn for the given action")
        ctx.check(same(out.value, v), what + ": value is the model's")
        ctx.check(out.termination == t, what + ": termination is the model's")
    else:
        ds = entries(log, "dist")
        ctx.check(len(ds) >= 1, what + ": the transition model is consulted")
        vs, ts = entries(log, "value"), entries(log, "term")
        ctx.check(len(vs) == 1 and len(ts) >= 1, what + ": value and termination come from the model")
        s = ts[-1][1]
        ctx.check(same_mem(ds[-1][1], em) & same(ds[-1][2], action), what + ": distribution of (memory, action)")
        ctx.check(in_support(s, ds[-1][3], ds[-1][4]), what + ": next state has positive probability")
        _, m, a, ns, v = vs[0]
        ctx.check(same_mem(m, em), what + ": value of the current memory")
        ctx.check(same(a, action), what + ": value of the given action")
        ctx.check(same(ns, s), what + ": value of the reached state")
        ctx.check(same(out.value, v), what + ": value is the model's")
        ctx.check(out.termination == ts[-1][2], what + ": termination is the model's for the reached state")
    if obs == "full":
        ctx.check(same(out.observation, s), what + ": full observation is the reached state")
    else:
        os_ = entries(log, "obs")
        ctx.check(len(os_) == 1, what + ": one observation is drawn")
        _, st, a, oo, ws = os_[0]
        ctx.check(same(st, s), what + ": observation of the reached state")
        ctx.check(a is not None and same(a, action), what + ": observation given the applied action")
        ctx.check(in_support(out.observation, oo, ws), what + ": observation has positive probability")
    return s


def configs(tier):
    cs = []
    mems = ["history", "finite1", "finite2", "finite3", "markov", "memoryless"]
    for dyn in ["env", "sim", "unc", "enum", "det"]:
        for i, mem in enumerate(mems):
            for obs in ["partial", "transformed", "full"]:
                for multi in (False, True):
                    if tier == "quick" and multi and not (mem in ("history", "markov") and dyn in ("sim", "det")):
                        continue
                    if tier == "quick" and obs != "full" and mem == "finite3":
                        continue
                    init = {"partial": "unc", "transformed": "init", "full": "det"}[obs]
                    branching = (dyn in ("unc", "enum")) + (obs == "partial")
                    if tier == "quick" and branching == 2 and mem in ("finite1", "finite3", "memoryless"):
                        continue
                    steps = {0: 4, 1: 3 if mem == "finite2" else 2, 2: 2 if mem == "history" else 1}[branching]
                    steps += tier == "thorough"
                    cs.append(dict(dyn=dyn, mem=mem, obs=obs, init=init, multi=multi, steps=steps))
    return cs


@harness("C01", "episode", configs=configs, expect=("stepped",), functions=FUNCS,
         bounds="reset then up to 1-4 steps by branching (one more thorough); memory: unbounded, last 1-3 states, last state, none; all "
                "five transition levels; three observability levels; supports of 2 values with arbitrary weights "
                "(zero included); states, observations, costs arbitrary integers in +-50; 1 agent (2 on some levels)",
         stubs=["random.choices returns any element of positive weight", "model hooks return arbitrary values"])
def episode(ctx):
    c = ctx.config
    ctx.stub_random()
    dom, log = build(ctx, c["dyn"], c["mem"], c["obs"], c["init"], c["multi"])
    o = dom.reset()
    ini = entries(log, "init")
    ctx.check(len(ini) == 1, "reset: initial state model consulted once")
    if c["obs"] == "full":
        s0 = o
        ctx.check(in_support(s0, ini[0][1], ini[0][2]), "reset: initial state has positive probability")
    else:
        os_ = entries(log, "obs")
        ctx.check(len(os_) == 1 and os_[0][2] is None, "reset: one initial observation, without action")
        s0 = os_[0][1]
        ctx.check(in_support(s0, ini[0][1], ini[0][2]), "reset: initial state has positive probability")
        ctx.check(in_support(o, os_[0][3], os_[0][4]), "reset: observation has positive probability")
    hist = [s0]
    for i in range(c["steps"]):
        del log[:]
        action = ctx.int("action", 0, 9)
        action = {"a": action, "b": action + 1} if c["multi"] else action
        out = dom.step(action)
        s = judge(ctx, log, c["dyn"], c["obs"], c["mem"], hist, action, out, "step")
        hist.append(s)
        ctx.observe("o", out.observation)
    ctx.reach("stepped")


def configs_sample(tier):
    cs = []
    for dyn in ["sim", "unc", "det"]:
        for mem in ["history", "finite2", "markov"]:
            for obs in ["partial", "transformed", "full"]:
                if not (dyn == "unc" and obs == "partial"):
                    cs.append(dict(dyn=dyn, mem=mem, obs=obs, init="det", multi=False))
    return cs


@harness("C01", "sample_is_pure", configs=configs_sample, expect=("end",), functions=FUNCS,
         bounds="reset, step, sample from an arbitrary foreign memory of up to 2 states, step; then set_memory, step",
         stubs=["random.choices returns any element of positive weight", "model hooks return arbitrary values"])
def sample_is_pure(ctx):
    c = ctx.config
    ctx.stub_random()
    dom, log = build(ctx, c["dyn"], c["mem"], c["obs"], c["init"], False)
    dom.reset()
    s0 = entries(log, "init")[0][1][0]
    hist = [s0]
    del log[:]
    out = dom.step(1)
    hist.append(judge(ctx, log, c["dyn"], c["obs"], c["mem"], hist, 1, out, "step"))
    # a stateless query about another memory
    n = {"history": 2, "finite2": 2, "markov": 1}[c["mem"]]
    foreign = [ctx.int("f", 100, 150) for _ in range(n)]
    fm = foreign[0] if c["mem"] == "markov" else Memory(foreign, maxlen=None if c["mem"] == "history" else 2)
    del log[:]
    out = dom.sample(fm, 2)
    judge(ctx, log, c["dyn"], c["obs"], c["mem"], foreign, 2, out, "sample")
    if c["mem"] != "markov":
        ctx.check(len(fm) == n and land(*[x == y for x, y in zip(fm, foreign)]),
                  "sample: the given memory is left as it was")
    del log[:]
    out = dom.step(3)
    hist.append(judge(ctx, log, c["dyn"], c["obs"], c["mem"], hist, 3, out, "step after sample"))
    # jump
    dom.set_memory(fm)
    hist = list(foreign)
    for a in (4, 5):
        del log[:]
        out = dom.step(a)
        hist.append(judge(ctx, log, c["dyn"], c["obs"], c["mem"], hist, a, out, "step after set_memory"))
    # a new episode starts from scratch
    del log[:]
    o = dom.reset()
    os_ = entries(log, "obs")
    s0 = o if c["obs"] == "full" else os_[0][1]
    hist = [s0]
    del log[:]
    out = dom.step(6)
    judge(ctx, log, c["dyn"], c["obs"], c["mem"], hist, 6, out, "step after a second reset")
    ctx.reach("end")


@harness("C01", "deterministic_distribution", expect=("end",), functions=FUNCS,
         bounds="one query, arbitrary integer state, action and hook answers")
def deterministic_distribution(ctx):
    dom, log = build(ctx, "det", "markov", "transformed", "det", False)
    s, a = ctx.int("s", 0, 50), ctx.int("a", 0, 9)
    d = dom.get_next_state_distribution(s, a)
    vals = list(d.get_values())
    e = entries(log, "dist")
    ctx.check(len(e) == 1 and same_mem(e[0][1], ("S", s)) and same(e[0][2], a), "model asked for (state, action)")
    ctx.check(len(vals) == 1 and land(vals[0][0] == e[0][3][0], vals[0][1] == 1), "all the mass on the next state")
    ctx.check(d.sample() == e[0][3][0], "sample is the next state")
    del log[:]
    do = dom.get_observation_distribution(s, a)
    e = entries(log, "obs")
    ctx.check(len(e) == 1 and land(e[0][1] == s, e[0][2] == a), "observation model asked for (state, action)")
    ctx.check(len(list(do.get_values())) == 1 and do.sample() == e[0][3][0], "all the mass on the observation")
    del log[:]
    di = dom.get_initial_state_distribution()
    s0 = dom.get_initial_state()
    ctx.check(land(di.sample() == s0, len(list(di.get_values())) == 1), "initial state distribution is the state")
    ctx.check(len(entries(log, "init")) == 1, "the initial state is computed once")
    ctx.reach("end")
