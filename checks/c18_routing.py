"""C18: facility location, vehicle routing and travelling thief: evaluations and greedy solutions agree with the data."""
import math

import numpy as np

from vsym.registry import harness
from vsym.engine import land, lor, lnot, ite, smax, implies, is_sym
from skdecide.builders.discrete_optimization.generic_tools.do_problem import ModeOptim, ObjectiveHandling, ParamsObjectiveFunction
from skdecide.builders.discrete_optimization.facility import facility_model as FM
from skdecide.builders.discrete_optimization.facility.solvers.greedy_solvers import GreedySolverFacility
from skdecide.builders.discrete_optimization.vrp import vrp_model as VM, vrp_toolbox as VT
from skdecide.builders.discrete_optimization.vrp.solver.greedy_vrp import GreedyVRPSolver
from skdecide.builders.discrete_optimization.ttp import ttp_model as TM

FUNCS = ["FacilityProblem.evaluate/satisfy/...", "FacilityProblem2DPoints", "GreedySolverFacility.solve", "VrpProblem.evaluate/satisfy/...",
         "compute_length", "compute_length_np", "trivial_solution", "stupid_solution", "GreedyVRPSolver.solve", "compute_length_matrix", "TTPModel.evaluate", "evaluate_with_details"]
PTS = [(0, 0), (3, 4), (6, 8), (3, 0)]  # integer distances: 5, 10, 3, 5, 4, sqrt(73)


def dist(i, j):
    return math.sqrt((PTS[i][0] - PTS[j][0]) ** 2 + (PTS[i][1] - PTS[j][1]) ** 2)


def near(a, b):
    d = a - b
    return land(d < 1e-6, d > -1e-6)


def facility(ctx, nf, nc, caps=None, demands=None):
    fs = [FM.Facility(i, ctx.int("setup", 0, 9), (caps or [ctx.int("capacity", 0, 9) for _ in range(nf)])[i], FM.Point(*PTS[i])) for i in range(nf)]
    cs = [FM.Customer(i, (demands or [ctx.int("demand", 0, 5) for _ in range(nc)])[i], FM.Point(*PTS[(i + 1) % 4])) for i in range(nc)]
    return fs, cs, FM.FacilityProblem2DPoints(nf, nc, fs, cs)


def facility_values(fs, cs, assign):
    used = {f: sum(cs[i].demand for i in range(len(cs)) if assign[i] == f) for f in set(assign)}
    return (sum(dist(assign[i], (i + 1) % 4) for i in range(len(cs))), sum(fs[f].setup_cost for f in used),
            sum(smax([used[f] - fs[f].capacity, 0]) for f in used), used)


@harness("C18", "facility_model", configs=[dict(nf=f, nc=c) for f, c in ((1, 1), (2, 1), (2, 2), (2, 3), (3, 3))], expect=("feasible", "infeasible"), functions=FUNCS,
         bounds="1 to 3 facilities and customers, any setup costs, capacities, demands and assignment")
def facility_model(ctx):
    c = ctx.config
    fs, cs, p = facility(ctx, c["nf"], c["nc"])
    assign = [ctx.index("facility", c["nf"]) for _ in cs]
    cost, setup, over, used = facility_values(fs, cs, assign)
    s = FM.FacilitySolution(p, list(assign))
    for t in (s.copy(), s.lazy_copy(), s):
        e = p.evaluate(t)
        ctx.check(near(e["cost"], cost), "cost is the sum of the distances to the assigned facilities")
        ctx.check(e["setup_cost"] == setup, "setup cost counts each used facility once")
        ctx.check(e["capacity_constraint_violation"] == over, "violation is the total excess over the capacities")
        ctx.check(set(e["details"]) == set(used), "details of the used facilities")
        for f in used:
            d = e["details"][f]
            ctx.check(land(d["capacity_used"] == used[f], d["setup_cost"] == fs[f].setup_cost,
                           near(d["cost"], sum(dist(f, (i + 1) % 4) for i in range(len(cs)) if assign[i] == f))), "details of a facility")
            ctx.check(d["customers"] == {i for i in range(len(cs)) if assign[i] == f}, "customers of a facility")
    ok = land(*[used[f] <= fs[f].capacity for f in used])
    ctx.check(bool(p.satisfy(s)) == ok, "feasible exactly within the capacities")
    e = p.evaluate_from_encoding(list(assign), "facility_for_customers")
    ctx.check(land(near(e["cost"], cost), e["setup_cost"] == setup, e["capacity_constraint_violation"] == over), "evaluation of an encoded assignment")
    cp = s.copy()
    cp.facility_for_customers[0] = 77
    ctx.check(list(s.facility_for_customers) == assign and s.problem is p, "a copy is independent")
    known = FM.FacilitySolution(p, list(assign), dict_details=p.evaluate(s))
    cp = known.copy()
    ctx.check(cp.dict_details["details"].keys() == known.dict_details["details"].keys(), "a copy keeps the details")
    cp.dict_details["details"].clear()
    ctx.check(len(known.dict_details["details"]) > 0, "details of a copy are independent")
    d = p.get_dummy_solution()
    ctx.check(len(d.facility_for_customers) == len(cs) and all(0 <= f < len(fs) for f in d.facility_for_customers), "dummy solution")
    r = p.get_objective_register()
    o, w = r.get_list_objective_and_default_weight()
    ctx.check(r.objective_sense == ModeOptim.MAXIMIZATION and all(x < 0 for x in w) and set(o) == {"cost", "setup_cost", "capacity_constraint_violation"}, "objectives are costs")
    fs2 = [f._replace(capacity=f.capacity + 1, setup_cost=f.setup_cost + 1) for f in fs]
    p2 = FM.FacilityProblem2DPoints(len(fs), len(cs), fs2, cs)
    s2 = FM.FacilitySolution(p, list(assign), dict_details=p.evaluate(s))
    s2.change_problem(p2)
    e = p2.evaluate(s2)
    c2 = facility_values(fs2, cs, assign)
    ctx.check(s2.problem is p2 and list(s2.facility_for_customers) == assign, "moved to another problem")
    ctx.check(land(e["setup_cost"] == c2[1], e["capacity_constraint_violation"] == c2[2]), "evaluation in the other problem")
    ctx.reach("feasible" if ok else "infeasible")


@harness("C18", "facility_greedy", configs=[dict(nf=f, nc=c) for f, c in ((1, 1), (2, 2), (3, 3), (4, 3))], expect=("end",), functions=FUNCS,
         bounds="up to 4 facilities of the same capacity and 3 customers of demands up to the capacity")
def facility_greedy(ctx):
    c = ctx.config
    cap = ctx.int("capacity", 1, 6)
    dem = [ctx.int("demand", 0, 6) for _ in range(c["nc"])]
    for d in dem:
        ctx.assume(d <= cap)
    fs, cs, p = facility(ctx, c["nf"], c["nc"], [cap] * c["nf"], dem)
    s, fit = GreedySolverFacility(p).solve().get_best_solution_fit()
    a = s.facility_for_customers
    ctx.check(len(a) == len(cs) and all(0 <= f < len(fs) for f in a), "every customer has a facility")
    cost, setup, over, used = facility_values(fs, cs, a)
    ctx.check(over == 0, "within the capacities")
    ctx.check(near(fit, -cost - setup), "fitness")
    ctx.check(bool(p.satisfy(s)), "feasible")
    ctx.reach("end")


def vrp(ctx, nv, nc, caps=None, demands=None, ends=None):
    starts = [0] * nv
    ends = ends if ends is not None else [ctx.choice("end", [0, nc - 1]) for _ in range(nv)]
    cs = [VM.Customer2D("c%d" % i, (demands or [0] + [ctx.int("demand", 0, 5) for _ in range(nc - 1)])[i], *PTS[i]) for i in range(nc)]
    caps = caps or [ctx.int("capacity", 0, 9) for _ in range(nv)]
    return caps, cs, starts, ends, VM.VrpProblem2D(nv, caps, nc, cs, starts, ends)


def tour_values(cs, start, end, path):
    full = [start] + list(path) + [end]
    ls = [dist(a, b) for a, b in zip(full, full[1:])]
    return ls, sum(cs[i].demand for i in path) + cs[start].demand + (cs[end].demand if end != start else 0)


@harness("C18", "vrp_model", configs=[dict(nv=v, nc=c) for v, c in ((1, 2), (1, 4), (2, 3), (2, 4))], expect=("feasible", "infeasible"), functions=FUNCS,
         bounds="1 or 2 vehicles, up to 4 places, any demands and capacities, every split and order of the places")
def vrp_model(ctx):
    c = ctx.config
    caps, cs, st, en, p = vrp(ctx, c["nv"], c["nc"])
    inner = [i for i in range(1, c["nc"]) if i not in en]
    order = ctx.permutation("order", inner)
    cut = ctx.index("cut", len(order) + 1) if c["nv"] == 2 else len(order)
    paths = [order[:cut], order[cut:]][:c["nv"]]
    s = VM.VrpSolution(p, st, en, [list(x) for x in paths])
    vals = [tour_values(cs, st[v], en[v], paths[v]) for v in range(c["nv"])]
    total = sum(sum(l) for l, _ in vals)
    over = sum(smax([k - caps[v], 0]) for v, (_, k) in enumerate(vals))
    for t in (s.copy(), s.lazy_copy(), s, s.copy()):
        e = p.evaluate(t)
        ctx.check(near(e["length"], total), "length of the tours")
        ctx.check(e["capacity_violation"] == over, "total excess over the capacities")
        ctx.check(all(len(t.lengths[v]) == len(paths[v]) + 1 for v in range(c["nv"])) and land(*[near(x, y) for v in range(c["nv"]) for x, y in zip(t.lengths[v], vals[v][0])]), "lengths of the legs")
        ctx.check(land(*[t.capacities[v] == vals[v][1] for v in range(c["nv"])]), "loads")
        ctx.check([list(x) for x in t.list_paths] == [list(x) for x in paths], "the paths are unchanged")
    ok = land(*[k <= caps[v] for v, (_, k) in enumerate(vals)])
    ctx.check(bool(p.satisfy(s)) == ok, "feasible exactly within the capacities")
    cp = s.copy()
    cp.list_paths[0].append(0)
    cp.lengths[0].append(0)
    ctx.check(list(s.list_paths[0]) == list(paths[0]) and len(s.lengths[0]) == len(paths[0]) + 1, "a copy is independent")
    r = p.get_objective_register()
    o, w = r.get_list_objective_and_default_weight()
    ctx.check(r.objective_sense == ModeOptim.MAXIMIZATION and all(x < 0 for x in w) and set(o) == set(e), "objectives are costs")
    cs2 = [VM.Customer2D(k.name, k.demand + 1, k.x + i, k.y) for i, k in enumerate(cs)]
    p2 = VM.VrpProblem2D(c["nv"], caps, c["nc"], cs2, st, en)
    s.change_problem(p2)
    e = p2.evaluate(s)
    ctx.check(s.problem is p2 and e["capacity_violation"] == sum(smax([tour_values(cs2, st[v], en[v], paths[v])[1] - caps[v], 0]) for v in range(c["nv"])),
              "evaluation in another problem")
    if paths[0]:
        pts = np.array([[k.x, k.y] for k in cs], dtype=float)
        f = getattr(VM.compute_length_np, "py_func", VM.compute_length_np)
        ls, tot = f(st[0], en[0], list(paths[0]), pts)
        ctx.check(all(abs(x - y) < 1e-6 for x, y in zip(ls, vals[0][0])) and abs(tot - sum(vals[0][0])) < 1e-6, "vectorised length")
    ctx.reach("feasible" if ok else "infeasible")


@harness("C18", "vrp_greedy", configs=[dict(nv=v, nc=c, m=m) for v, c in ((1, 2), (1, 3), (2, 3), (2, 4)) for m in ("greedy", "dummy", "stupid")], expect=("end",), functions=FUNCS,
         bounds="1 or 2 vehicles, up to 4 places, any demands 0..4 and capacities 4..8 that cover the ends")
def vrp_greedy(ctx):
    c = ctx.config
    dem = [0] + [ctx.int("demand", 0, 4) for _ in range(c["nc"] - 1)]
    caps = [ctx.int("capacity", 4, 8) for _ in range(c["nv"])]
    caps, cs, st, en, p = vrp(ctx, c["nv"], c["nc"], caps, dem)
    if c["m"] == "greedy":
        s, fit = GreedyVRPSolver(p).solve().get_best_solution_fit()
    else:
        s = p.get_dummy_solution() if c["m"] == "dummy" else p.get_stupid_solution()
    vals = [tour_values(cs, st[v], en[v], s.list_paths[v]) for v in range(c["nv"])]
    total = sum(sum(l) for l, _ in vals)
    inner = [i for i in range(1, c["nc"]) if i not in en]
    served = [i for x in s.list_paths for i in x]
    ctx.check(len(s.list_paths) == c["nv"], "a path for each vehicle")
    ctx.check(len(set(served)) == len(served) and set(served) <= set(inner), "every place is served at most once, ends excluded")
    if c["m"] == "stupid":
        ctx.check(set(served) == set(inner) and len(s.list_paths[0]) == len(inner), "the first vehicle serves every place")
    else:
        ctx.check(land(*[k <= caps[v] for v, (_, k) in enumerate(vals)]), "within the capacities")
        left = [i for i in inner if i not in served]
        ctx.check(land(*[k + dem[i] > caps[v] for i in left for v, (_, k) in enumerate(vals)]), "no vehicle has room for a place left out")
    e = p.evaluate(s)
    ctx.check(near(e["length"], total), "length of the tours")
    if c["m"] == "greedy":
        ctx.check(near(fit, -total), "fitness")
    ctx.reach("end")


@harness("C18", "vrp_matrix", configs=[dict(n=n) for n in (2, 3, 4)], expect=("end",), functions=FUNCS + ["prune_search_space"], bounds="2 to 4 places among 4 points, any number of nearest places kept")
def vrp_matrix(ctx):
    n = ctx.config["n"]
    perm = ctx.permutation("points", range(n))
    cs = [VM.Customer2D("c%d" % i, 1, *PTS[perm[i]]) for i in range(n)]
    p = VM.VrpProblem2D(1, [9], n, cs, [0], [0])
    closest, m = VT.compute_length_matrix(p)
    for i in range(n):
        ctx.check(all(abs(m[i, j] - dist(perm[i], perm[j])) < 1e-9 for j in range(n)), "distances")
        ctx.check(sorted(closest[i]) == list(range(n)) and all(m[i, closest[i][k]] <= m[i, closest[i][k + 1]] for k in range(n - 1)), "nearest places first")
    k = 1 + ctx.index("k", n + 1)
    adj, m2 = VT.prune_search_space(p, k)
    ctx.check(bool((m2 == m).all()), "distances")
    for i in range(n):
        keep = set(range(n)) if k >= n else set(closest[i][:k]) | {0}
        ctx.check(all(abs(adj[i, j] - (m[i, j] if j in keep else 0)) < 1e-9 for j in range(n)), "distances to the nearest places and to the depot are kept")
    g, m3 = VT.build_graph(p)
    ctx.check(set(g.nodes) == set(range(n)) and bool((m3 == m).all()), "graph of the places")
    ctx.check(all(g.has_edge(i, j) and abs(g[i][j]["weight"] - m[i, j]) < 1e-9 for i in range(n) for j in range(n) if i != j), "graph of the places")
    ctx.reach("end")


@harness("C18", "ttp", configs=[dict(n=n, items=k) for n in (2, 3) for k in (1, 2)], expect=("end",), functions=FUNCS,
         bounds="2 or 3 cities in any order, 1 or 2 items of 2 weights, any profits and renting ratio, taken or not")
def ttp(ctx):
    c = ctx.config
    n = c["n"]
    order = [0] + ctx.permutation("order", range(1, n)) + [0]
    items = [{"index": i, "profit": ctx.int("profit", 0, 9), "weight": ctx.choice("weight", [1, 3]), "node_index": 1 + ctx.index("node", n - 1)} for i in range(c["items"])]
    nodes = np.array([[i, *PTS[i]] for i in range(n)])
    arr = np.array([[i, it["profit"], it["weight"], it["node_index"]] for i, it in enumerate(items)], dtype=object)
    cap, vmin, vmax = ctx.choice("capacity", [6, 10]), 0.25, 1
    rent = ctx.int("rent", 0, 4)
    m = TM.TTPModel(numberOfNodes=n, numberOfItems=len(items), capacityOfKnapsack=cap, minSpeed=vmin, maxSpeed=vmax, rentingRatio=rent,
                    nodes=None, items=items, nodes_array=nodes, items_array=arr)
    take = [ctx.index("take", 2) for _ in items]
    pack = [it["node_index"] if t else -1 for it, t in zip(items, take)]
    s = TM.TTPSolution(list(order), list(pack))
    w = time = d = 0
    ws = []
    for a, b in zip(order, order[1:]):
        w += sum(it["weight"] for it, t in zip(items, take) if t and it["node_index"] == a)
        ws.append(w)
        d += dist(a, b)
        time += dist(a, b) / (vmax - w * (vmax - vmin) / cap)
    profit = sum(it["profit"] for it, t in zip(items, take) if t)

    def verify(s, o):
        ctx.check(land(near(o, profit - rent * time), near(s.objective, profit - rent * time)), "objective: profits less the rent for the travel time")
        ctx.check(land(s.profit == profit, near(s.distance, d), near(s.time_trip, time), s.weight_used == w, s.weight_end == cap - w), "details of the trip")
    verify(s, m.evaluate(s)["obj"])
    s2 = TM.TTPSolution(list(order), list(pack))
    verify(s2, m.evaluate_details(s2))
    ctx.check(list(s2.weight_array) == ws, "weights along the trip")
    cp = s2.copy()
    ctx.check(list(cp.tour) == order and list(cp.packing) == pack and land(cp.profit == profit, near(cp.objective, s2.objective), cp.weight_used == w, cp.weight_end == cap - w,
                                                                           near(cp.distance, d), near(cp.time_trip, time)), "copies keep everything")
    cp.tour[0] = 99
    ctx.check(list(s2.tour) == order, "a copy is independent")
    r = m.get_objective_register()
    ctx.check(r.objective_sense == ModeOptim.MAXIMIZATION and r.get_list_objective_and_default_weight() == (["obj"], [1]), "maximised")
    ctx.reach("end")
