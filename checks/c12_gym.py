"""C12: gym environments wrapped as domains, and domains wrapped as gym environments, behave like what they wrap."""
import builtins

import gym
import numpy as np

from vsym.registry import harness
from vsym.engine import land, lor, ite, smin
from skdecide import TransitionOutcome, TransitionValue
from skdecide.hub.domain.gym import gym as M
from skdecide.hub.space.gym import EnumSpace, ListSpace


class Machine(gym.Env):
    """a deterministic environment: hidden state h in {0, 1, 2}, arbitrary transitions, rewards, observations and ends"""

    def __init__(self, ctx, table=None):
        self.ctx, self.h = ctx, None
        self.table = {} if table is None else table  # shared by the copies
        self.calls = []
        self.observation_space = gym.spaces.Discrete(100)
        self.action_space = gym.spaces.Discrete(3)

    def __deepcopy__(self, memo):
        e = Machine(self.ctx, self.table)
        e.h = self.h
        e.calls = []
        return e

    def model(self, h, a):
        k = (h, a)
        if k not in self.table:
            self.table[k] = (self.ctx.choice("next%s" % (k,), (0, 1, 2)), self.ctx.int("r%s" % (k,), -9, 9),
                             self.ctx.bool("done%s" % (k,)))
        return self.table[k]

    def obs(self, h):
        if h not in self.table:
            self.table[h] = self.ctx.int("obs%d" % h, 0, 99)
        return self.table[h]

    def reset(self):
        self.h = 0
        return self.obs(0)

    def step(self, a):
        n, r, d = self.model(self.h, a)
        self.h = n
        return self.obs(n), r, d, {"n": n}

    def render(self, mode=None):
        return ("frame", mode)


def set_state(env, h):
    env.h = h


def get_state(env):
    return env.h


def unproxy(s):
    return s._state if isinstance(s, M.GymDomainStateProxy) else s


def accessors(acc):
    """functions given to read and write the hidden state: both, one of them (not enough), or none"""
    return {True: (set_state, get_state), False: (None, None), "set": (set_state, None), "get": (None, get_state)}[acc]


@harness("C12", "step", configs=[dict(k=k, acc=a) for k in ("plain", "hash", "detinit") for a in (False, True, "set", "get")
                                 if a is False or k == "detinit"], expect=("end",),
         functions=["GymDomain", "GymDomainHashable", "DeterministicInitializedGymDomain"],
         bounds="arbitrary environments with 3 hidden states and 3 actions; two episodes of up to 2 steps")
def step(ctx):
    c = ctx.config
    env = Machine(ctx)
    if c["k"] == "detinit":
        dom = M.DeterministicInitializedGymDomain(env, *accessors(c["acc"]))
    else:
        dom = {"plain": M.GymDomain, "hash": M.GymDomainHashable}[c["k"]](env)
    ctx.check(dom.get_action_space().unwrapped() is env.action_space and
              dom.get_observation_space().unwrapped() is env.observation_space, "spaces of the environment")
    for ep in range(2):
        o = dom.reset()
        h = 0
        ctx.check(unproxy(o) == env.obs(0), "a reset observes the initial state")
        for _ in range(2):
            a = ctx.index("a", 2)
            out = dom.step(a)
            n, r, d = env.model(h, a)
            ctx.check(unproxy(out.observation) == env.obs(n), "the observation of the environment")
            ctx.check(land(out.value.reward == r, out.value.cost == -r), "the reward of the environment")
            ctx.check(out.termination == d, "the termination of the environment")
            ctx.check(out.info == {"n": n}, "the information of the environment")
            h = n
    ctx.check(dom.is_applicable_action(1) and not dom.is_applicable_action(3), "actions of the environment")
    if c["k"] != "detinit":
        ctx.check(dom.unwrapped() is env, "wrapped environment")
    ctx.check(dom.render() == ("frame", None) and dom.render(mode="x") == ("frame", "x"), "rendered by the environment")
    ctx.reach("end")


@harness("C12", "restart", configs=[dict(acc=a) for a in (False, True, "set", "get")], expect=("end",),
         functions=["DeterministicInitializedGymDomain.set_memory", "reset"],
         bounds="arbitrary environments with 3 hidden states; resets and set_memory in the middle of an episode")
def restart(ctx):
    env = Machine(ctx)
    dom = M.DeterministicInitializedGymDomain(env, *accessors(ctx.config["acc"]))
    s = dom.reset()
    h = 0
    for _ in range(2):
        a = ctx.index("a", 2)
        if ctx.bool("restart"):
            if ctx.bool("reset"):
                o = dom.reset()
                ctx.check(unproxy(o) == env.obs(0), "reset observation")
            else:
                dom.set_memory(s)
            h = 0
        out = dom.step(a)
        n, r, d = env.model(h, a)
        ctx.check(land(unproxy(out.observation) == env.obs(n), out.value.reward == r, out.termination == d),
                  "episodes restart from the same initial state")
        h = n
    ctx.reach("end")


@harness("C12", "functional", configs=[dict(acc=a, dom=d) for a in (False, True) for d in ("det", "cost", "plan")] + [dict(acc=a, dom="det") for a in ("set", "get")],
         expect=("goal", "no goal"),
         functions=["DeterministicGymDomain", "CostDeterministicGymDomain", "GymPlanningDomain"],
         bounds="arbitrary deterministic environments with 3 hidden states; 3 transitions, each from any state met before, "
                "in any order; depth limits 1-3")
def functional(ctx):
    """the successor of a state depends on that state and the action only, in whatever order states are expanded"""
    c = ctx.config
    ctx.patch(builtins, "print", lambda *a, **k: None)
    env = Machine(ctx)
    acc = accessors(c["acc"])
    if c["dom"] == "plan":
        tig, maxd = ctx.bool("termination_is_goal"), ctx.index("max_depth", 3) + 1
        dom = M.GymPlanningDomain(env, *acc, termination_is_goal=tig, max_depth=maxd)
    else:
        dom = {"det": M.DeterministicGymDomain, "cost": M.CostDeterministicGymDomain}[c["dom"]](env, *acc)
    s = dom.get_initial_state()
    ctx.check(unproxy(s) == env.obs(0), "initial state")
    ctx.check(not dom.is_terminal(s), "the initial state is not terminal")
    met = [(s, 0, 0, 0, False)]  # state, hidden, depth, reward before last, terminal
    for i in range(3 if c["dom"] == "det" else 2):
        st, h, depth, rew, _ = met[ctx.index("from", len(met))]
        a = ctx.index("a", 2)
        nx = dom.get_next_state(st, a)
        n, r, d = env.model(h, a)
        ctx.check(unproxy(nx) == env.obs(n), "next states are those of the environment")
        ctx.check(dom.get_transition_value(st, a, nx).reward == r, "rewards are those of the environment")
        ctx.check(bool(dom.is_terminal(nx)) == bool(d), "terminations are those of the environment")
        if c["dom"] == "plan":
            g = bool(lor(depth + 1 >= maxd, land(tig, d)))
            ctx.check(bool(dom.is_goal(nx)) == g, "a goal is a termination, if asked so, or the depth limit")
            ctx.reach("goal" if g else "no goal")
        met.append((nx, n, depth + 1, r, d))
    for st, h, depth, r, d in met:
        ctx.check(unproxy(st) == env.obs(h) and bool(dom.is_terminal(st)) == bool(d), "states met before do not change")


@harness("C12", "proxy", configs=[dict(k=k) for k in ("int", "array", "tuple", "dict", "nested")], expect=("equal", "differ"),
         functions=["GymDomainStateProxy"], bounds="states of up to 3 components: scalars, arrays, tuples, dictionaries")
def proxy(ctx):
    k = ctx.config["k"]

    def mk(p):
        # finite component values, so that hashes are those of plain numbers
        v = [ctx.index("%s%d" % (p, i), 2) for i in range(1 if k == "int" else 3)]
        return v, {"int": lambda: v[0], "array": lambda: np.array(v), "tuple": lambda: tuple(v),
                   "dict": lambda: dict(zip("abc", v)), "nested": lambda: (np.array(v[:2]), {"z": v[2]})}[k]()
    v1, s1 = mk("x")
    v2, s2 = mk("y")
    p1, p2 = M.GymDomainStateProxy(s1, context=1), M.GymDomainStateProxy(s2, context=[2])
    ctx.check((p1 == p2) == (v1 == v2), "proxies are equal exactly when the states are")
    if v1 == v2:
        ctx.check(hash(p1) == hash(p2), "equal proxies have the same hash")
        ctx.check(len({p1, p2}) == 1, "equal proxies are one element of a set")
    ctx.reach("equal" if v1 == v2 else "differ")


@harness("C12", "as_env", configs=[dict(sp=s) for s in ("enum", "list")], expect=("end",), functions=["AsGymEnv"],
         bounds="arbitrary domains with 3 observations and 2 actions, up to two steps")
def as_env(ctx):
    from enum import Enum
    Obs = Enum("Obs", "p q r")
    A = Enum("A", "u v")
    obs = list(Obs) if ctx.config["sp"] == "enum" else ["p", (1, 2), 7]
    acts = list(A) if ctx.config["sp"] == "enum" else ["u", "v"]
    log = []

    from skdecide.domains import RLDomain

    class R(RLDomain):
        def _state_reset(self):
            return ctx.index("s0", 3)

        def _state_step(self, action):
            log.append((self._memory, action))
            return TransitionOutcome(ctx.index("s", 3), TransitionValue(reward=ctx.int("r", -9, 9)), ctx.bool("t"),
                                     ctx.choice("info", [None, {"k": 1}]))

        def _get_observation(self, state, action=None):
            return obs[state]

        def _get_action_space_(self):
            return EnumSpace(A) if ctx.config["sp"] == "enum" else ListSpace(acts)

        def _get_observation_space_(self):
            return EnumSpace(Obs) if ctx.config["sp"] == "enum" else ListSpace(obs)
    dom = R()
    outs = []
    real = dom.step
    dom.step = lambda a: outs.append(real(a)) or outs[-1]
    real_reset = dom.reset
    firsts = []
    dom.reset = lambda: firsts.append(real_reset()) or firsts[-1]
    env = M.AsGymEnv(dom)
    ctx.check(env.action_space == gym.spaces.Discrete(2) and env.observation_space == gym.spaces.Discrete(3), "gym spaces")
    o = env.reset()
    ctx.check(o in (0, 1, 2) and obs[o] == firsts[0], "observation of the reset, in the gym space")
    for _ in range(2):
        a = ctx.index("a", 2)
        o, r, d, info = env.step(a)
        ctx.check(log[-1][1] == acts[a], "the domain is stepped with the action meant")
        ctx.check(o in (0, 1, 2) and obs[o] == outs[-1].observation, "observation of the step, in the gym space")
        ctx.check(land(r == outs[-1].value.reward, d == outs[-1].termination), "reward and termination of the step")
        ctx.check(info == (outs[-1].info or {}), "information")
    ctx.reach("end")


SPACES = {
    "discrete": lambda: gym.spaces.Discrete(4), "multi": lambda: gym.spaces.MultiDiscrete([2, 3]),
    "binary": lambda: gym.spaces.MultiBinary(3), "box1": lambda: gym.spaces.Box(-1., 3., (1,), np.float32),
    "box2": lambda: gym.spaces.Box(np.array([0., -2.]), np.array([1., 2.]), (2,), np.float64),
    "box22": lambda: gym.spaces.Box(0., 1., (2, 2), np.float64),
    "unbounded": lambda: gym.spaces.Box(-np.inf, np.inf, (1,), np.float32),
    "tuple": lambda: gym.spaces.Tuple((gym.spaces.Discrete(2), gym.spaces.MultiDiscrete([2, 2]))),
    "dict": lambda: gym.spaces.Dict({"a": gym.spaces.Discrete(2), "b": gym.spaces.Discrete(3)}),
}
COUNT = {"discrete": 4, "multi": 6, "binary": 8, "tuple": 8, "dict": 6}


@harness("C12", "discretize", configs=[dict(s=s) for s in SPACES], expect=("end",), functions=["GymDiscreteActionDomain"],
         bounds="gym action spaces of every kind, 2-3 points per dimension, any branching limit up to 9")
def discretize(ctx):
    ctx.stub_random()
    name = ctx.config["s"]
    sp = SPACES[name]()
    fac = 2 + ctx.index("factor", 2)
    lim = ctx.choice("limit", [None, 1, 2] if name != "dict" else [None, 1])

    class Env(gym.Env):
        action_space = sp
        observation_space = gym.spaces.Discrete(2)

    class Dom(M.GymDiscreteActionDomain, M.GymDomain):
        def __init__(self):
            M.GymDomain.__init__(self, Env())
            M.GymDiscreteActionDomain.__init__(self, discretization_factor=fac, branching_factor=lim)
    if COUNT.get(name, 100) > 6 and lim == 2:
        lim = 1
    acts = list(Dom().get_applicable_actions(0).get_elements())
    dims = {"box1": 1, "box2": 2, "box22": 4, "unbounded": 1}
    total = COUNT.get(name) or fac ** dims[name]
    ctx.check(len(acts) == (total if lim is None else min(total, lim)), "number of applicable actions")
    for i, a in enumerate(acts):
        ctx.check(sp.contains(a) or sp.contains(np.asarray(a)), "applicable actions belong to the action space")
        if name != "unbounded":
            ctx.check(not any(same(a, b) for b in acts[:i]), "no action twice")
    if lim is None and name in ("box1", "box2", "box22"):
        lo, hi = np.asarray(sp.low), np.asarray(sp.high)
        ctx.check(any(np.allclose(a, lo) for a in acts) and any(np.allclose(a, hi) for a in acts), "both bounds are reached")
        i = ctx.index("point", total)
        digits, k = [], i
        for _ in range(dims[name]):
            digits.append(k % fac)
            k //= fac
        pt = (lo.ravel() + (hi - lo).ravel() / (fac - 1) * np.array(digits)).reshape(lo.shape)
        ctx.check(sum(np.allclose(a, pt) for a in acts) == 1, "every point of the grid is an action")
    ctx.reach("end")


def same(a, b):
    if isinstance(a, dict):
        return all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return all(same(x, y) for x, y in zip(a, b))
    return bool(np.all(np.asarray(a) == np.asarray(b)))


FEAT = {
    "discrete": (lambda: gym.spaces.Discrete(6), 1), "multi": (lambda: gym.spaces.MultiDiscrete([2, 5]), 2),
    "binary": (lambda: gym.spaces.MultiBinary(3), 3),
    "tuple": (lambda: gym.spaces.Tuple((gym.spaces.Discrete(3), gym.spaces.MultiBinary(2))), 3),
    "dict": (lambda: gym.spaces.Dict({"a": gym.spaces.Discrete(3), "b": gym.spaces.Discrete(4)}), 2),
}
RANGES = {"discrete": [6], "multi": [2, 5], "binary": [2, 2, 2], "tuple": [3, 2, 2], "dict": [3, 4]}


def element(name, v):
    return {"discrete": lambda: v[0], "multi": lambda: v, "binary": lambda: v, "tuple": lambda: (v[0], v[1:]),
            "dict": lambda: {"a": v[0], "b": v[1]}}[name]()


class WidthDom(M.GymWidthDomain, M.GymDomain):
    def __init__(self, env, fid=1):
        M.GymDomain.__init__(self, env)
        M.GymWidthDomain.__init__(self, continuous_feature_fidelity=fid)


@harness("C12", "binary_features", configs=[dict(s=s) for s in FEAT], expect=("same", "different"),
         functions=["GymWidthDomain.binary_features", "nb_of_binary_features", "bee1_features", "bee2_features"],
         bounds="discrete observation spaces of every kind up to 12 elements, every pair of observations")
def binary_features(ctx):
    name = ctx.config["s"]

    class Env(gym.Env):
        observation_space = FEAT[name][0]()
        action_space = gym.spaces.Discrete(2)
    v1 = [ctx.index("x%d" % i, n) for i, n in enumerate(RANGES[name])]
    v2 = [ctx.index("y%d" % i, n) for i, n in enumerate(RANGES[name])]
    dom = WidthDom(Env())
    ctx.patch(dom._gym_env.observation_space, "sample", lambda *a, **k: element(name, [ctx.index("z%d" % i, n) for i, n in enumerate(RANGES[name])]))
    e1, e2 = element(name, v1), element(name, v2)
    f1, f2 = dom.binary_features(e1), dom.binary_features(M.GymDomainStateProxy(e2))
    ctx.check(len(f1) == len(f2) == dom.nb_of_binary_features(), "fixed number of binary features")
    ctx.check(all(b in (True, False) for b in f1), "binary features")
    ctx.check((f1 == f2) == (v1 == v2), "features identify the observation")
    for feats in (dom.bee1_features, dom.bee2_features):
        dom._reset_features()
        ctx.check(list(feats(e1)) == v1 and list(feats(M.GymDomainStateProxy(e2))) == v2, "discrete elements are features")
    ctx.reach("same" if v1 == v2 else "different")


def box(n=1):
    return gym.spaces.Box(low=-9, high=9, shape=(n,), dtype=np.int64)


CONT = {"box": (lambda: box(2), 2), "tuple": (lambda: gym.spaces.Tuple((gym.spaces.Discrete(3), box(), box())), 2),
        "dict": (lambda: gym.spaces.Dict({"a": box(), "b": gym.spaces.MultiBinary(2), "c": box()}), 2), "one": (lambda: box(), 1)}


def cont_state(name, v):
    arr = lambda *x: np.array(x, dtype=np.int64)
    return {"box": lambda: arr(*v), "tuple": lambda: (1, arr(v[0]), arr(v[1])), "dict": lambda: {"a": arr(v[0]), "b": [0, 1], "c": arr(v[1])},
            "one": lambda: arr(v[0])}[name]()


def cont_features(name, f, fid):
    """features of each continuous variable; the others are their own features"""
    f = [x for x in f]
    if name == "box":
        return [f[:fid], f[fid:]], True
    if name == "one":
        return [f], True
    if name == "tuple":
        return [f[1:1 + fid], f[1 + fid:]], f[0] == 1
    return [f[:fid], f[fid + 2:]], f[fid:fid + 2] == [0, 1]


@harness("C12", "continuous_features", configs=[dict(s=s, bee=b, fid=1) for s in CONT for b in (1, 2)] + [dict(s="one", bee=b, fid=2) for b in (1, 2)], expect=("new", "known"),
         functions=["GymWidthDomain.bee1_features", "bee2_features"],
         bounds="one or two continuous variables alone or among discrete ones, 4 (2) states of values -3..3 (-1..1) in any order, one or two features per variable")
def continuous_features(ctx):
    c = ctx.config
    nv, fid = CONT[c["s"]][1], c["fid"]

    class Env(gym.Env):
        observation_space = CONT[c["s"]][0]()
        action_space = gym.spaces.Discrete(2)
    dom = WidthDom(Env(), fid)
    get = dom.bee1_features if c["bee"] == 1 else dom.bee2_features
    big = nv == 1
    rng = [-3, -1, 0, 1, 3] if big else [-1, 0, 1]
    states = [[ctx.choice("v%d" % k, rng) for k in range(nv)] for _ in range(4 if big else 2)]
    feats = []
    for j, v in enumerate(states):
        st = cont_state(c["s"], v)
        f, rest = cont_features(c["s"], get(st if j % 2 else M.GymDomainStateProxy(st)), fid)
        ctx.check(rest, "discrete elements are features")
        ctx.check(len(f) == nv and all(len(x) == fid for x in f), "as many features as wanted for each variable")
        feats.append(f)
    for k in range(nv):
        x = [v[k] for v in states]
        f = [g[k][0] for g in feats]
        ctx.check(f[0] == 0, "the first value met is the origin")
        for j in range(1, len(x)):
            before = x[:j]
            if c["bee"] == 1:
                d = x[j] - x[0]
                ctx.check((f[j] > 0) == (d > 0) and (f[j] < 0) == (d < 0), "the feature tells the side of the origin")
                side = [i for i in range(j) if (x[i] - x[0]) * d > 0]
                if d and all(abs(x[i] - x[0]) < abs(d) for i in side):
                    ctx.check(all(abs(f[i]) < abs(f[j]) for i in side), "a value farther than those met is a new feature")
                for i in side:
                    ctx.check((abs(x[i] - x[0]) > abs(d)) <= (abs(f[i]) >= abs(f[j])), "farther values do not have lower features")
            else:
                new = x[j] > max(before) or x[j] < min(before)
                ctx.check((f[j] not in f[:j]) if new else (f[j] in f[:j]), "exactly the values outside of the range met are new features")
            if x[j] in before:
                ctx.check(f[j] == f[before.index(x[j])], "a value met again has the same feature")
        ctx.reach("new" if len(set(f)) > 1 else "known")
    if fid == 2 and c["bee"] == 1:
        f = {v[0]: g[0] for v, g in zip(states, feats)}
        for v, g in zip(states, feats):
            ctx.check(f[v[0]][0] == g[0][0], "a value met again has the same first feature")
    dom._reset_features()
    f, rest = cont_features(c["s"], get(cont_state(c["s"], states[-1])), fid)
    ctx.check(all(x[0] == 0 for x in f), "after a reset the first value met is the origin")
