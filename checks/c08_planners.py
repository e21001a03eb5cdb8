"""C08: LazyAstar and LRTAstar plan in the real transition graph of the domain."""
import builtins

from vsym.registry import harness
from vsym.engine import land, lor, smin, is_sym
from skdecide import EnumerableSpace, ImplicitSpace, TransitionValue
from skdecide.domains import DeterministicPlanningDomain
from skdecide.hub.solver.lazy_astar import LazyAstar
from skdecide.hub.solver.lrtastar import LRTAstar

INF = 10 ** 6


class Acts(EnumerableSpace):
    def __init__(self, l):
        self.l = l

    def get_elements(self):
        return self.l

    def contains(self, x):
        return x in self.l


class Graph(DeterministicPlanningDomain):
    """edges: (u, action) -> (v, cost); states are nodes (hashable), actions names"""

    def __init__(self, edges, goals, start):
        self.edges, self.goals, self.start, self.rendered = edges, goals, start, []

    def _get_action_space_(self):
        return ImplicitSpace(lambda x: True)

    def _get_applicable_actions_from(self, memory):
        return Acts([a for (u, a) in self.edges if u == memory])

    def _get_next_state(self, memory, action):
        return self.edges[memory, action][0]

    def _get_transition_value(self, memory, action, next_state=None):
        assert next_state == self.edges[memory, action][0]
        return TransitionValue(cost=self.edges[memory, action][1])

    def _get_goals_(self):
        return ImplicitSpace(lambda s: self.goals[s])

    def _get_initial_state_(self):
        return self.start

    def _get_observation_space_(self):
        return ImplicitSpace(lambda x: True)


def distances(edges, goals, nodes):
    """cost-to-goal of every node as one term (Bellman-Ford over the symbolic costs)"""
    d = {n: 0 if goals[n] else INF for n in nodes}
    for _ in range(len(nodes) - 1):
        d = {n: smin([d[n]] + [c + d[v] for (u, a), (v, c) in edges.items() if u == n]) if not goals[n] else 0
             for n in nodes}
    return d


SHAPES = {
    # (u, v) pairs present; the others absent
    "full3": [(u, v) for u in range(3) for v in range(3) if u != v],
    "full3loops": [(u, v) for u in range(3) for v in range(3)],
    "diamond": [(0, 1), (0, 2), (1, 2), (2, 1), (1, 3), (2, 3)],
    "twin": [(0, 1), (0, 1), (1, 2), (1, 2), (0, 2)],
    "chain4": [(0, 1), (1, 0), (1, 2), (2, 1), (0, 2), (2, 3), (0, 3)],
    "late4": [(0, 1), (0, 2), (0, 3), (2, 1), (3, 2), (1, 4), (2, 4)],
    "trap": [(0, 1), (1, 0), (1, 2), (2, 1), (0, 3), (3, 1), (3, 4)],
    "full4": [(u, v) for u in range(3) for v in range(4) if u != v],
}


def build(ctx, c):
    pairs = SHAPES[c["shape"]]
    n = 1 + max(max(p) for p in pairs)
    edges = {}
    for k, (u, v) in enumerate(pairs):
        if c.get("drop") is not None and k in c["drop"] and not ctx.bool("edge%d" % k):
            continue
        edges[u, "a%d" % k] = (v, ctx.int("c%d" % k, 0, c["maxc"]))
    goals = {i: i == n - 1 for i in range(n)}
    if c["goals"] == "any":
        for i in range(n):
            goals[i] = bool(ctx.bool("goal%d" % i))
    elif c["goals"] == "two":
        goals[n - 2] = True
    elif c["goals"] == "none":
        goals[n - 1] = False
    elif c["goals"] == "start":
        goals[0] = True
    return edges, goals, n


def heuristic(ctx, c, edges, goals, n):
    """consistent heuristic: any non-negative function, zero on goals, dropping by at most the cost along an edge"""
    if c["h"] == "none":
        return None, [0] * n
    hv = [0 if goals[i] else ctx.int("h%d" % i, 0, c["maxc"] * 2) for i in range(n)]
    if c["h"] == "consistent":
        for (u, a), (v, cost) in edges.items():
            ctx.assume(hv[u] <= cost + hv[v])
    return (lambda d, s: hv[s]), hv


def follow(ctx, solver, edges, goals, start, n):
    """the states visited and the cost of following the policy from the start, or None"""
    s, cost, seen = start, 0, [start]
    for _ in range(n + 1):
        if goals[s]:
            return seen, cost
        if not solver.is_policy_defined_for(s):
            return None
        a = solver.get_next_action(s)
        ctx.check((s, a) in edges, "the policy gives an applicable action")
        s, k = edges[s, a]
        seen.append(s)
        cost = cost + k
    ctx.check(False, "the policy reaches a goal without running in circles")


def astar_cfgs(tier):
    out = []
    for shape in ("full3", "full3loops", "diamond", "twin", "chain4", "late4") + (("full4",) if tier == "thorough" else ()):
        for h in ("none", "consistent"):
            for goals in ("last", "two", "none", "start") + (("any",) if shape in ("full3", "twin") else ()):
                out.append(dict(shape=shape, h=h, goals=goals, maxc=9, weight=1, frm=goals == "two",
                                drop=[0, 4] if goals == "last" and shape != "full3loops" else None))
        out.append(dict(shape=shape, h="consistent", goals="last", maxc=9, weight=2, frm=False, drop=None))
        out.append(dict(shape=shape, h="any", goals="last", maxc=9, weight=1, frm=False, drop=None))
    return out


@harness("C08", "lazy_astar", configs=astar_cfgs, expect=("plan", "no-plan", "trivial"),
         functions=["LazyAstar.solve", "get_next_action", "is_policy_defined_for", "get_utility"],
         bounds="7 graph shapes of up to 5 states with parallel edges and loops (edges optionally absent), every edge cost "
                "0..9, every consistent heuristic, weights 1 and 2, every start, zero, one or several goals")
def lazy_astar(ctx):
    c = ctx.config
    edges, goals, n = build(ctx, c)
    h, hv = heuristic(ctx, c, edges, goals, n)
    dist = distances(edges, goals, range(n))
    start = 1 if c["frm"] else 0
    kw = {}
    if c["frm"]:
        kw["from_state"] = start
    if h is not None:
        kw["heuristic"] = h
    if c["weight"] != 1:
        kw["weight"] = float(c["weight"])
    solver = LazyAstar(**kw)
    Graph.solve_with(solver, lambda: Graph(edges, goals, 0))
    check_astar(ctx, c, solver, edges, goals, start, n, dist, hv)


def check_astar(ctx, c, solver, edges, goals, start, n, dist, hv):
    path = follow(ctx, solver, edges, goals, start, n)
    ctx.check((path is not None) == (dist[start] < INF), "a plan is returned exactly when a goal is reachable")
    if path is None:
        ctx.reach("no-plan")
        return
    seen, cost = path
    ctx.reach("trivial" if len(seen) == 1 else "plan")
    if c["h"] != "any":
        ctx.check(cost <= c["weight"] * dist[start], "the plan is optimal (up to the weight)")
    rest = cost
    for i, s in enumerate(seen):
        ctx.check(solver.get_utility(s) == rest, "utility along the plan is the cost still to pay")
        if i + 1 < len(seen):
            rest = rest - edges[s, solver.get_next_action(s)][1]
    for s in range(n):
        if s not in seen:
            ctx.check(solver.get_utility(s) == hv[s], "utility off the plan is the heuristic")
    ctx.observe("cost", cost)


@harness("C08", "lazy_astar_resolve", configs=[dict(shape="full3", h="none", maxc=5, weight=1, goals="last"),
                                               dict(shape="diamond", h="none", maxc=5, weight=1, goals="last")],
         expect=("plan",), functions=["LazyAstar.solve"], bounds="two successive resolutions of different domains")
def lazy_astar_resolve(ctx):
    c = ctx.config
    edges, goals, n = build(ctx, c)
    solver = LazyAstar()
    first = {k: (v, 1 + (i % 3)) for i, (k, (v, _)) in enumerate(edges.items())}
    Graph.solve_with(solver, lambda: Graph(first, goals, 0))
    Graph.solve_with(solver, lambda: Graph(edges, goals, 0))
    check_astar(ctx, c, solver, edges, goals, 0, n, distances(edges, goals, range(n)), [0] * n)


def lrta_cfgs(tier):
    out = []
    for shape in ("full3", "diamond", "twin", "chain4", "late4", "trap"):
        for h in ("none", "consistent"):
            for goals in ("last", "two", "none", "start"):
                out.append(dict(shape=shape, h=h, goals=goals, maxc=3 if shape != 'late4' else 2, frm=goals == "two", again=h == "none", acyclic=shape in ("twin", "late4"),
                                drop=[0, 4] if goals == "last" else None))
    return out


@harness("C08", "lrtastar", configs=lrta_cfgs, expect=("plan", "no-plan", "trivial"),
         functions=["LRTAstar.solve", "doTrial", "get_next_action", "is_policy_defined_for", "get_utility"],
         bounds="graph shapes of up to 4 states, every edge cost 0..3, every consistent heuristic; no iteration limit reached")
def lrtastar(ctx):
    c = ctx.config
    ctx.patch(builtins, "print", lambda *a, **k: None)
    edges, goals, n = build(ctx, c)
    h, hv = heuristic(ctx, c, edges, goals, n)
    dist = distances(edges, goals, range(n))
    start = 1 if c["frm"] else 0
    kw = {}
    if c["frm"]:
        kw["from_state"] = start
    if h is not None:
        kw["heuristic"] = h
    if c["goals"] == "none":
        kw["max_iter"] = 20  # the trials would go on to the default limit of 5000
    solver = LRTAstar(**kw)
    if c["again"]:
        Graph.solve_with(solver, lambda: Graph({k: (v, 1) for k, (v, _) in edges.items() if v}, {**goals, n - 1: True},
                                               0))
    Graph.solve_with(solver, lambda: Graph(edges, goals, 0))
    path = follow(ctx, solver, edges, goals, start, n)
    ctx.check((path is not None) == (dist[start] < INF), "a plan is returned exactly when a goal is reachable")
    if path is None:
        ctx.reach("no-plan")
        return
    seen, cost = path
    ctx.check(cost >= dist[start], "no plan is cheaper than the optimum")
    if c["acyclic"]:
        ctx.check(cost == dist[start], "the plan is optimal when the domain has no cycle")
        rest = cost
        for i, s in enumerate(seen):
            ctx.check(solver.get_utility(s) == rest, "utility along the plan is the cost still to pay")
            if i + 1 < len(seen):
                rest = rest - edges[s, solver.get_next_action(s)][1]
    ctx.reach("trivial" if len(seen) == 1 else "plan")
    ctx.observe("cost", cost)
