"""C17: graphs and colourings: queries, evaluation, feasibility and greedy colouring agree with the edges."""
from vsym.registry import harness
from vsym.engine import land, lor, lnot, ite, smax, implies, is_sym
from skdecide.builders.discrete_optimization.generic_tools.graph_api import Graph
from skdecide.builders.discrete_optimization.generic_tools.do_problem import ModeOptim, ObjectiveHandling, ParamsObjectiveFunction
from skdecide.builders.discrete_optimization.coloring.coloring_model import (
    ColoringProblem, ColoringSolution, transform_color_values_to_value_precede)
from skdecide.builders.discrete_optimization.coloring.coloring_toolbox import compute_cliques
from skdecide.builders.discrete_optimization.coloring.solvers.greedy_coloring import GreedyColoring, NXGreedyColoringMethod

FUNCS = ["Graph", "ColoringProblem.evaluate/satisfy/count_violations/...", "ColoringSolution", "transform_color_values_to_value_precede",
         "GreedyColoring.solve", "compute_cliques"]
NAMES = [[0, 1, 2, 3], ["b", "d", "a", "c"], [7, 3, 5, 1]]


def make(ctx, n, undirected=True, names=None, both=False):
    names = (names or ctx.choice("names", NAMES))[:n]
    pairs = [(i, j) for i in range(n) for j in range(i + 1, n)]
    es = []
    for k, (i, j) in enumerate(pairs):
        how = ctx.choice("edge", ["no", "forth", "back"] + (["both"] if both else []))
        if how in ("forth", "both"):
            es.append((names[i], names[j], {"weight": ctx.int("weight", 1, 9)}))
        if how in ("back", "both"):
            es.append((names[j], names[i], {"weight": ctx.int("weight", 1, 9)}))
    return names, es, Graph([(x, {"name": x, "k": i}) for i, x in enumerate(names)], list(es), undirected=undirected)


@harness("C17", "graph", configs=[dict(n=n, und=u) for n in (1, 2, 3) for u in (False, True)], expect=("end", "loop", "no loop"), functions=FUNCS,
         bounds="all graphs of 1 to 3 nodes, directed or not, any edge weights")
def graph(ctx):
    c = ctx.config
    n, und = c["n"], c["und"]
    names, es, g = make(ctx, n, und, both=not und)
    arcs = {}
    for a, b, d in es:
        arcs[a, b] = d
        if und:
            arcs[b, a] = d
    ctx.check(list(g.get_nodes()) == sorted(names), "nodes")
    ctx.check(set(g.get_edges()) == set(arcs), "edges")
    for a in names:
        ctx.check(set(g.get_neighbors(a)) == {y for x, y in arcs if x == a}, "neighbours")
        ctx.check(set(g.get_predecessors(a)) == {x for x, y in arcs if y == a}, "predecessors")
        ctx.check(g.get_attr_node(a, "k") == names.index(a) and g.get_attr_node(a, "z") is None, "attributes of nodes")
        for b in names:
            w = g.get_attr_edge(a, b, "weight")
            if (a, b) in arcs:
                ctx.check(w == arcs[a, b]["weight"], "attributes of edges")
            else:
                ctx.check(w is None, "no attribute without edge")
            ctx.check(g.get_attr_edge(a, b, "z") is None, "no such attribute")
    ctx.check(g.get_attr_node("zz", "k") is None and not g.get_neighbors("zz") and not g.get_predecessors("zz"), "unknown nodes")
    x = g.to_networkx()
    ctx.check(x.is_directed() != und and set(x.nodes) == set(names), "networkx graph")
    ctx.check(all(x.has_edge(a, b) == ((a, b) in arcs) for a in names for b in names), "networkx edges")
    ctx.check(land(*[x[a][b]["weight"] == arcs[a, b]["weight"] for a, b in arcs]), "networkx attributes")
    reach = {a: {a} for a in names}
    for _ in range(n):
        for a, b in arcs:
            reach[a] |= reach[b]
    if not und:
        loop = any(b in reach and a in reach[b] for a, b in arcs)
        ctx.check((g.check_loop() is not None) == loop, "loops are detected")
        ctx.reach("loop" if loop else "no loop")
        for a in names:
            ctx.check(set(g.precedessors_nodes(a)) == {b for b in names if b != a and a in reach[b]}, "ancestors")
    else:
        ctx.check((g.check_loop() is not None) == (len(es) == 3), "loops are detected")
    ctx.reach("end")


def violations(names, es, colors):
    pos = {x: i for i, x in enumerate(sorted(names))}
    return [colors[pos[a]] == colors[pos[b]] for a, b, _ in es]


@harness("C17", "model", configs=[dict(n=n, cached=k) for n in (1, 2, 3) for k in (False, True)], expect=("valid", "invalid"), functions=FUNCS,
         bounds="all graphs of 1 to 3 nodes, any colours 0..3, counts known or not")
def model(ctx):
    c = ctx.config
    n = c["n"]
    names, es, g = make(ctx, n)
    p = ColoringProblem(g)
    colors = [ctx.index("color", min(n + 1, 3)) for _ in range(n)]
    bad = sum(violations(names, es, colors))
    nb = len(set(colors))
    kw = ctx.choice("known", [dict(nb_color=nb, nb_violations=bad), dict(nb_color=nb)]) if c["cached"] else {}
    s = ColoringSolution(p, list(colors), **kw)
    for how in (0, 1, 2, 3):
        t = [s.copy(), s.lazy_copy(), s.to_reformated_solution(), s][how]
        e = p.evaluate(t)
        ctx.check(e["nb_colors"] == nb and e["nb_violations"] == bad, "evaluation counts colours and violated edges")
        ctx.check(bool(p.satisfy(t)) == (bad == 0), "feasible exactly without violation")
        ctx.check(t.nb_color == nb and t.nb_violations == bad, "counts of the solution")
        ctx.check(t.problem is p and len(t.colors) == n, "a solution of the problem")
        for i in range(n):
            for j in range(n):
                ctx.check((t.colors[i] == t.colors[j]) == (colors[i] == colors[j]), "same classes")
        if how != 2:
            ctx.check(list(t.colors) == colors, "same colours")
        else:
            seen = []
            for x in t.colors:
                ctx.check(x <= len(seen) and (x in seen or x == len(seen)), "colours are numbered in order of appearance")
                if x not in seen:
                    seen.append(x)
    cp = s.copy()
    cp.colors[0] += 1
    ctx.check(list(s.colors) == colors, "a copy is independent")
    ctx.check(p.count_violations(s) == bad, "number of violations")
    e = p.evaluate_from_encoding(list(colors), "colors")
    ctx.check(e["nb_colors"] == nb and e["nb_violations"] == bad, "evaluation of encoded colours")
    d = p.get_dummy_solution()
    ctx.check(p.satisfy(d) and p.evaluate(d)["nb_colors"] == n and p.evaluate(d)["nb_violations"] == 0, "dummy solution")
    r = p.get_objective_register()
    o, w = r.get_list_objective_and_default_weight()
    ctx.check(r.objective_sense == ModeOptim.MAXIMIZATION and dict(zip(o, w))["nb_colors"] < 0 and dict(zip(o, w))["nb_violations"] < 0 and set(o) == set(e), "objectives")
    # another problem on the same nodes
    full = [(a, b, {}) for i, a in enumerate(names) for b in names[:i]]
    p2 = ColoringProblem(Graph([(x, {}) for x in names], full, True))
    s.change_problem(p2)
    ctx.check(s.problem is p2 and list(s.colors) == colors, "moved to another problem")
    e = p2.evaluate(s)
    ctx.check(e["nb_colors"] == nb and e["nb_violations"] == sum(violations(names, full, colors)), "evaluation in the other problem")
    ctx.reach("invalid" if bad else "valid")


@harness("C17", "greedy", configs=lambda tier: [dict(m=m.name, n=n) for m in NXGreedyColoringMethod for n in ((2, 3) if tier == "quick" else (2, 3, 4))],
         expect=("end",), functions=FUNCS, bounds="all undirected graphs of 2 or 3 nodes (4 thorough), every strategy", stubs=["random draws return any value"])
def greedy(ctx):
    c = ctx.config
    n = c["n"]
    ctx.stub_random()
    names, es, g = make(ctx, n, True, ctx.choice("names", NAMES[1:]))
    p = ColoringProblem(g)
    rs = GreedyColoring(p).solve(strategy=NXGreedyColoringMethod[c["m"]])
    s, fit = rs.get_best_solution_fit()
    ctx.check(len(s.colors) == n and s.problem is p, "a colour for every node")
    ctx.check(not any(violations(names, es, s.colors)), "no edge joins nodes of the same colour")
    ctx.check(s.nb_color == len(set(s.colors)) and s.nb_violations == 0, "counts")
    ctx.check(sorted(set(s.colors)) == list(range(s.nb_color)), "colours are numbered from zero")
    ctx.check(fit == -s.nb_color, "fitness")
    deg = max([sum(1 for a, b, _ in es if x in (a, b)) for x in names])
    ctx.check(s.nb_color <= deg + 1 or c["m"] == "independent_set", "at most one colour more than the largest degree")
    if c["m"] == "best":
        for m in NXGreedyColoringMethod:
            if m.name not in ("best", "random_sequential"):
                ctx.check(GreedyColoring(p).solve(strategy=m).get_best_solution().nb_color >= s.nb_color, "the best strategy")
    ctx.reach("end")


@harness("C17", "cliques", configs=[dict(n=n) for n in (1, 2, 3)], expect=("end",), functions=FUNCS, bounds="all undirected graphs of 1 to 3 nodes, any maximal number of cliques up to 4")
def cliques(ctx):
    n = ctx.config["n"]
    names, es, g = make(ctx, n, True, NAMES[0])
    adj = lambda a, b: any({a, b} == {x, y} for x, y, _ in es)
    nb = ctx.choice("max", [None, 1, 2, 4])
    cl, part = compute_cliques(g.to_networkx(), nb)
    cs = [frozenset(k) for k in cl]
    subs = [frozenset(x for i, x in enumerate(names) if m >> i & 1) for m in range(1, 1 << n)]
    isc = lambda s: all(adj(a, b) for a in s for b in s if a != b)
    maxi = [s for s in subs if isc(s) and not any(s < t and isc(t) for t in subs)]
    ctx.check(len(set(cs)) == len(cs) and set(cs) <= set(maxi), "maximal cliques, each once")
    ctx.check(len(cs) == (len(maxi) if nb is None else min(nb, len(maxi))), "all of them, or as many as asked for")
    if len(cs) < len(maxi):
        ctx.check(bool(part), "cliques left out are announced")
    if nb is None or nb > len(maxi):
        ctx.check(not part, "nothing is announced to be left out")
    ctx.reach("end")
