"""C10: explored graph domains are exact copies of the reachable part of the explored domain."""
import builtins
from collections import deque

from vsym.registry import harness
from vsym.engine import land, lor
from skdecide import DiscreteDistribution, EnumerableSpace, ImplicitSpace, TransitionValue
from skdecide.domains import DeterministicPlanningDomain, GoalMDPDomain
from skdecide.hub.solver.graph_explorer.DFSExploration import DFSExploration
from skdecide.hub.solver.graph_explorer.DFS_Uncertain_Exploration import DFSExploration as UncertainExploration
from skdecide.hub.solver.graph_explorer.FullSpaceExploration import FullSpaceExploration
from skdecide.hub.solver.graph_explorer.GraphDomain import GraphDomain, GraphDomainUncertain
from checks.c08_planners import Acts, Graph

MAXA = 2


def det(ctx, n, few):
    """n states; action a of state s leads to an arbitrary state (chosen lazily), at an arbitrary cost"""
    class Lazy(dict):
        def __missing__(self, k):
            self[k] = (ctx.choice("next%s" % (k,), range(n)), ctx.int("cost%s" % (k,), 0, 9))
            return self[k]
    edges = Lazy()
    avail, goal = {}, {}

    class Dom(Graph):
        def __init__(self):
            self.start = 0

        def _get_applicable_actions_from(self, memory):
            ctx.check(memory in range(n), "the memory of a Markovian domain is its state")
            if memory not in avail:
                avail[memory] = [a for a in ("a", "b") if ctx.bool("avail%d%s" % (memory, a))] \
                    if few is False or memory == 0 else ["a"] if ctx.bool("avail%d" % memory) else []
            return Acts(avail[memory])

        def _get_next_state(self, memory, action):
            ctx.check(memory in range(n) and action in avail[memory], "only applicable actions are applied")
            return edges[memory, action][0]

        def _get_transition_value(self, memory, action, next_state=None):
            ctx.check(memory in range(n) and next_state == edges[memory, action][0], "the value asked is the transition's")
            return TransitionValue(cost=edges[memory, action][1])

        def _get_goals_(self):
            def f(s):
                if s not in goal:
                    goal[s] = bool(ctx.bool("goal%d" % s))
                return goal[s]
            return ImplicitSpace(f)
    return Dom(), edges, avail, goal


@harness("C10", "deterministic", configs=lambda tier: [dict(x=x, n=n, start=st, limit=l) for x in ("dfs", "full")
                                                       for n, st, l in ((2, None, None), (3, 1, None), (3, None, "path"),
                                                                        (3, None, "nodes"), (2, None, "edges"))],
         expect=("complete", "cut"), functions=["DFSExploration", "FullSpaceExploration", "GraphDomain"],
         bounds="all domains of up to 3 states with 2 actions (any applicability, successor, cost 0..9 and goals); any "
                "limits on edges, nodes and paths")
def deterministic(ctx):
    c = ctx.config
    ctx.patch(builtins, "print", lambda *a, **k: None)
    dom, edges, avail, goal = det(ctx, c["n"], ctx.tier == "quick" and bool(c["limit"]))
    kw = {}
    if c["limit"]:
        kw["max_" + c["limit"]] = ctx.index("limit", 4)
    X = {"dfs": DFSExploration, "full": FullSpaceExploration}[c["x"]]
    g = X(dom, **kw).build_graph_domain(**({"init_state": c["start"]} if c["start"] is not None else {}))
    init = c["start"] or 0
    ctx.check(isinstance(g, GraphDomain), "a graph domain is built")
    # oracle: breadth-first search over what the domain says, not beyond goals
    seen, todo = {init}, [init]
    while todo:
        s = todo.pop(0)
        if s != init and dom.is_goal(s):
            continue
        for a in dom.get_applicable_actions(s).get_elements():
            t = edges[s, a][0]
            if t not in seen:
                seen.add(t)
                todo.append(t)
    known = set(g.next_state_map)
    ctx.check(init in known and known <= seen, "only reachable states are explored")
    complete = True
    npath = nedge = 0
    for s in known:
        acts = list(g.get_applicable_actions(s).get_elements())
        want = avail.get(s, [])
        ctx.check(acts == [] or acts == want, "explored states keep all their actions")
        if acts != want:
            if s == init or not dom.is_goal(s):
                complete = False
            want = []
        for a in acts:
            nedge += 1
            t = g.get_next_state(s, a)
            ctx.check(t == edges[s, a][0] and t in known, "explored transitions are those of the domain")
            ctx.check(g.get_transition_value(s, a, t).cost == edges[s, a][1], "explored costs are those of the domain")
            ctx.check(g.is_applicable_action(a, s) and not g.is_applicable_action("zz", s), "actions are applicable")
            if c["x"] == "full":
                ctx.check(g.next_state_attributes[s][a]["reward"] == -edges[s, a][1], "rewards are recorded")
            npath += dom.is_goal(t)
        ctx.check(g.is_goal(s) == dom.is_goal(s) == bool(s in g.get_goals()), "goals of the graph are those of the domain")
    if complete:
        ctx.check(known == seen, "every reachable state is found")
        ctx.reach("complete")
    else:
        ctx.check(c["limit"] is not None, "without limits everything reachable is explored")
        n = {"path": npath, "edges": nedge, "nodes": len(known)}[c["limit"]]
        ctx.check(n > kw["max_" + c["limit"]], "exploration stops only beyond its limit")
        ctx.reach("cut")


@harness("C10", "merge", configs=[dict(other=o) for o in ((0, 1), (1, 2), (2, 3))], expect=("end",),
         functions=["GraphDomain.merge"], bounds="graphs of two states and two optional actions, overlapping or not")
def merge(ctx):
    def mk(tag, states):
        m, at = {}, {}
        for s in states:
            acts = [a for a in ("a", "b") if ctx.bool("has%s%d%s" % (tag, s, a))]
            m[s] = {a: ctx.int("n%s%d%s" % (tag, s, a), 0, 5) for a in acts}
            at[s] = {a: {"cost": ctx.int("c%s%d%s" % (tag, s, a), 0, 9)} for a in acts}
        return m, at
    m1, a1 = mk("x", (0, 1))
    m2, a2 = mk("y", ctx.config["other"])
    old = {s: dict(v) for s, v in m1.items()}, {s: dict(v) for s, v in a1.items()}
    g = GraphDomain(m1, a1, {0}, "cost").merge(GraphDomain(m2, a2, {2}, "cost"))
    for s in set(old[0]) | set(m2):
        acts = set(old[0].get(s, ())) | set(m2.get(s, ()))
        ctx.check(set(g.get_applicable_actions(s).get_elements()) == acts, "merging keeps the actions of both graphs")
        for a in acts:
            first = a in old[0].get(s, ())
            n, k = (old[0][s][a], old[1][s][a]) if first else (m2[s][a], a2[s][a])
            ctx.check(g.get_next_state(s, a) == n, "merged transitions")
            ctx.check(g.get_transition_value(s, a, n).cost == k["cost"], "merged costs")
    ctx.check(set(g.next_state_map) == set(old[0]) | set(m2), "merged states")
    ctx.reach("end")


@harness("C10", "uncertain", configs=lambda tier: [dict(n=n, score=sc, limit=l) for n, sc, l in
                                                   ((2, None, None), (3, None, None), (2, "any", None), (3, None, "nodes"),
                                                    (3, None, "edges"))],
         expect=("complete", "cut"), functions=["DFS_Uncertain_Exploration.DFSExploration", "GraphDomainUncertain"],
         bounds="2-3 states, one or two actions, up to two successors of any quarter probability, any goals and terminals, any "
                "limits, any score function")
def uncertain(ctx):
    c = ctx.config
    n = c["n"]
    ctx.patch(builtins, "print", lambda *a, **k: None)
    avail, trans, term, goal = {}, {}, {}, {}

    def lazy(d, k, f):
        if k not in d:
            d[k] = f()
        return d[k]

    def successors(k):
        if k not in trans:
            u = ctx.choice("succ%s" % (k,), range(n))
            v = (u + 1) % n
            w = ctx.int("w%s" % (k,), 0, 4)
            trans[k] = {u: (w, ctx.int("cost%s" % (k,), 0, 9)), v: (4 - w, ctx.int("cost'%s" % (k,), 0, 9))}
        return trans[k]

    class Dom(GoalMDPDomain):
        def _get_action_space_(self):
            return ImplicitSpace(lambda x: True)

        def _get_applicable_actions_from(self, s):
            return Acts(lazy(avail, s, lambda: ["a"] + (["b"] if s == 0 and (not c["limit"] or ctx.tier != "quick") and \
                             ctx.bool("avail%d" % s) else [])))

        def _get_next_state_distribution(self, s, a):
            ctx.check(s in range(n) and a in avail[s], "only applicable actions are applied")
            return DiscreteDistribution([(t, w / 4) for t, (w, k) in successors((s, a)).items()])

        def _get_transition_value(self, s, a, t=None):
            return TransitionValue(cost=trans[s, a][t][1])

        def _is_terminal(self, s):
            return lazy(term, s, lambda: bool(ctx.bool("terminal%d" % s))) if s == n - 1 else False

        def _get_goals_(self):
            return ImplicitSpace(lambda s: lazy(goal, s, lambda: bool(ctx.bool("goal%d" % s))) if s else False)

        def _get_initial_state_(self):
            return 0

        def _get_observation_space_(self):
            return ImplicitSpace(lambda x: True)
    dom = Dom()
    kw = {}
    if c["limit"]:
        kw["max_" + c["limit"]] = ctx.index("limit", 5)
    if c["score"]:
        sc = {}
        kw["score_function"] = lambda s: lazy(sc, s, lambda: ctx.int("score%d" % s, 0, 2))
    g = UncertainExploration(dom, **kw).build_graph_domain(**({"init_state": 0} if c["score"] else {}))
    ctx.check(isinstance(g, GraphDomainUncertain), "a graph domain is built")
    seen, todo = {0}, [0]
    while todo:
        s = todo.pop()
        if dom.is_goal(s) or dom.is_terminal(s):
            continue
        for a in dom.get_applicable_actions(s).get_elements():
            for t, (w, k) in successors((s, a)).items():
                if w > 0 and t not in seen:
                    seen.add(t)
                    todo.append(t)
    known = set(g.state_goal)
    ctx.check(0 in known and known <= seen and set(g.state_terminal) == known, "only reachable states are explored")
    cut = False
    nedge = 0
    for s in known:
        ctx.check(g.is_goal(s) == dom.is_goal(s) == bool(s in g.get_goals()), "goals of the graph are those of the domain")
        acts = list(g.get_applicable_actions(s).get_elements())
        end = dom.is_goal(s) or dom.is_terminal(s)
        ctx.check(acts == [] or acts == avail[s] and not end, "explored states keep all their actions")
        ctx.check(g.is_terminal(s) == (dom.is_terminal(s) or acts == []), "states without explored actions are terminal")
        if not acts and not end:
            cut = True
        for a in acts:
            want = {t: (w, k) for t, (w, k) in successors((s, a)).items() if w > 0}
            got = g.get_next_state_distribution(s, a).get_values()
            ctx.check(len(got) == len(want) and {t for t, p in got} == set(want), "same possible next states")
            for t, p in got:
                nedge += 1
                ctx.check(t in known and p * 4 == want[t][0], "same probabilities")
                ctx.check(g.get_transition_value(s, a, t).cost == want[t][1], "same costs")
    expanded = [s for s in known if list(g.get_applicable_actions(s).get_elements())]
    if c["limit"] and len(expanded) > 1:
        def size(x):
            arcs = [t for s in expanded if s != x for a in avail[s] for t, (w, k) in successors((s, a)).items() if w > 0]
            return len({0, *arcs}) if c["limit"] == "nodes" else len(arcs)
        ctx.check(any(size(x) <= kw["max_" + c["limit"]] for x in expanded), "exploration stops beyond its limit")
    if cut:
        ctx.check(c["limit"] is not None, "without limits everything reachable is explored")
        ctx.check((len(known) if c["limit"] == "nodes" else nedge) > kw["max_" + c["limit"]],
                  "exploration stops only beyond its limit")
        ctx.reach("cut")
    else:
        ctx.check(known == seen, "every reachable state is found")
        ctx.reach("complete")
