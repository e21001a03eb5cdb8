"""C27: the integer programs mean the problems: they allow exactly the solutions, at their cost, and are read back as such."""
import itertools
import random

import numpy as np

from vsym.registry import harness
from vsym.engine import land, lor, lnot, ite, smax, implies
from checks import milp
from checks.c17_coloring import make
from checks.c18_routing import facility, facility_values, dist, near
from skdecide.builders.discrete_optimization.generic_tools.do_problem import get_default_objective_setup
from skdecide.builders.discrete_optimization.generic_tools.lp_tools import MilpSolverName, ParametersMilp
from skdecide.builders.discrete_optimization.knapsack.knapsack_model import Item, KnapsackModel, KnapsackSolution
from skdecide.builders.discrete_optimization.knapsack.solvers import lp_solvers as KL
from skdecide.builders.discrete_optimization.coloring.coloring_model import ColoringProblem, ColoringSolution
from skdecide.builders.discrete_optimization.coloring.solvers import coloring_lp_solvers as CL
from skdecide.builders.discrete_optimization.facility import facility_model as FM
from skdecide.builders.discrete_optimization.facility.solvers import facility_lp_solver as FL
from checks.c24_rcpsp import Inst, symbolic_arrays, times_of
from skdecide.builders.discrete_optimization.rcpsp import rcpsp_model as RM
from skdecide.builders.discrete_optimization.rcpsp.solver import rcpsp_lp_solver as RL
from skdecide.builders.discrete_optimization.tsp import tsp_model as TM, common_tools_tsp as TC
from skdecide.builders.discrete_optimization.tsp.solver import solver_lp_iterative as TL

LIBS = ["the libraries of integer programming (mip, gurobi, ortools) are replaced by a recorder of the program"]


def all_true(xs):
    return land(*xs)


def exactly_one(bs):
    return land(lor(*bs), *[lnot(land(a, b)) for i, a in enumerate(bs) for b in bs[i + 1:]])


def as_int(b):
    return ite(b, 1, 0)


@harness("C27", "knapsack", configs=[dict(lib=l, n=n) for l in ("gurobi", "ortools", "mip") for n in (1, 2, 3)], expect=("end",), stubs=LIBS,
         functions=["LPKnapsackGurobi", "LPKnapsackCBC", "LPKnapsack"], bounds="1 to 3 items of any value 0..6 and weight 1..6, in any of two orders, capacity 0..12, any selection; any items fixed to those of another selection")
def knapsack(ctx):
    n, lib = ctx.config["n"], ctx.config["lib"]
    milp.stand_in(ctx, KL)
    idx = ctx.choice("indexes", [[0, 1, 2], [7, 1, 4]])[:n]
    items = [Item(idx[i], ctx.int("v", 0, 6), ctx.int("w", 1, 6)) for i in range(n)]
    cap = ctx.int("capacity", 0, 12)
    kp = KnapsackModel(items, cap, False)
    po = get_default_objective_setup(kp)
    warm = {idx[0]: 1} if ctx.bool("warm") else {}
    if lib == "gurobi":
        s = KL.LPKnapsackGurobi(kp, po)
    elif lib == "ortools":
        s = KL.LPKnapsackCBC(kp, po)
    else:
        s = KL.LPKnapsack(kp, MilpSolverName.CBC, po)
    s.init_model(warm_start=warm)
    prog, x = s.model, s.variable_decision["x"]
    ctx.check(set(x) == set(idx) and len(prog.vars) == n, "one variable per item")
    vs = [x[k] for k in idx]
    bs = milp.bits(ctx, vs)
    light = sum([ite(b, it.weight, 0) for b, it in zip(bs, items)], 0) <= cap
    milp.same(ctx, prog.holds(), light, "selections")
    ctx.check(prog.objective_lin().value() == sum([ite(b, it.value, 0) for b, it in zip(bs, items)], 0), "the objective is the value of the selection")
    ctx.check(prog.sense == "max" if lib != "gurobi" else prog.modelSense == milp.GRB.MAXIMIZE, "the value is maximised")
    if lib != "ortools":
        old = [ctx.index("old", 2) for _ in items]
        sol = KnapsackSolution(kp, list(old))
        fixed = [k for k in idx if ctx.bool("fixed")]
        rules = s.fix_decision(sol, fixed)
        want = land(light, *[b if old[i] else lnot(b) for i, b in enumerate(bs) if idx[i] in fixed])
        milp.same(ctx, prog.holds(), want, "selections with fixed items")
        s.add_init_solution(sol)
        if lib == "mip":
            ctx.check({id(v): k for v, k in prog.start} == {id(v): old[i] for i, v in enumerate(vs)}, "the initial selection is given")
        else:
            ctx.check([v.hint for v in vs] == old, "the initial selection is given")
        for k in list(rules):
            prog.remove(rules[k])
        milp.same(ctx, prog.holds(), light, "selections once freed")
    ctx.reach("end")


@harness("C27", "knapsack_read", configs=[dict(lib=l, n=n) for l in ("gurobi", "ortools", "mip", "branch") for n in (1, 2, 3)], expect=("end",), stubs=LIBS,
         functions=["LPKnapsackGurobi.solve", "LPKnapsackCBC.solve", "LPKnapsack.solve", "KnapsackORTools"], bounds="1 to 3 items, any one or two selections found by the solver")
def knapsack_read(ctx):
    n, lib = ctx.config["n"], ctx.config["lib"]
    milp.stand_in(ctx, KL)
    idx = ctx.choice("indexes", [[0, 1, 2], [7, 1, 4]])[:n]
    items = [Item(idx[i], ctx.int("v", 0, 6), ctx.int("w", 1, 6)) for i in range(n)]
    cap = ctx.int("capacity", 0, 12)
    kp = KnapsackModel(items, cap, False)
    po = get_default_objective_setup(kp)
    several = lib in ("gurobi", "mip") and n < 3
    found = [[ctx.index("taken", 2) for _ in items] for _ in range(2 if several else 1)]
    for f in found:
        ctx.assume(sum([it.weight * t for it, t in zip(items, f)], 0) <= cap)
    if lib == "branch":
        class Kernel:
            KNAPSACK_MULTIDIMENSION_BRANCH_AND_BOUND_SOLVER = 5

            def __init__(self, kind, name):
                pass

            def Init(self, values, weights, capacities):
                ctx.check(len(values) == n and len(weights) == 1 and len(capacities) == 1, "one dimension")
                ctx.check(land(*[land(v == it.value, w == it.weight) for v, w, it in zip(values, weights[0], items)], capacities[0] == cap), "values, weights and capacity")

            def Solve(self):
                return 0

            def BestSolutionContains(self, i):
                return bool(found[0][i])
        ctx.patch(KL.pywrapknapsack_solver, "KnapsackSolver", Kernel)
        s = KL.KnapsackORTools(kp, po)
        s.init_model()
        rs = s.solve()
    else:
        ctx.patch(milp.Program, "solver", staticmethod(lambda prog: [{s.variable_decision["x"][k]: t for k, t in zip(idx, f)} for f in found]))
        s = {"gurobi": lambda: KL.LPKnapsackGurobi(kp, po), "ortools": lambda: KL.LPKnapsackCBC(kp, po), "mip": lambda: KL.LPKnapsack(kp, MilpSolverName.CBC, po)}[lib]()
        s.init_model()
        pm = ParametersMilp.default()
        pm.retrieve_all_solution = several
        rs = s.solve() if lib == "ortools" else s.solve(pm)
    ctx.check(len(rs.list_solution_fits) == len(found), "every solution is read")
    for (sol, fit), f in zip(rs.list_solution_fits, found):
        v, w = sum([it.value * t for it, t in zip(items, f)], 0), sum([it.weight * t for it, t in zip(items, f)], 0)
        ctx.check(list(sol.list_taken) == f, "the selection found")
        ctx.check(land(sol.value == v, sol.weight == w, fit == v), "value and weight of the selection")
    ctx.reach("end")


@harness("C27", "coloring", configs=[dict(lib=l, n=n, cliques=q, greedy=g) for l in ("gurobi", "mip") for n, g in ((1, False), (2, True), (3, False), (3, True)) for q in (False, True)], expect=("end",),
         stubs=LIBS, functions=["ColoringLP", "ColoringLP_MIP"], bounds="all graphs of 1 to 3 nodes of any names, as many colours as nodes or as a greedy colouring, any assignment; any one solution found by the solver")
def coloring(ctx):
    c = ctx.config
    milp.stand_in(ctx, CL)
    names, es, g = make(ctx, c["n"])
    cp = ColoringProblem(g)
    s = CL.ColoringLP(cp) if c["lib"] == "gurobi" else CL.ColoringLP_MIP(cp, get_default_objective_setup(cp))
    s.init_model(greedy_start=c["greedy"], use_cliques=c["cliques"])
    prog, x = s.model, s.variable_decision["colors_var"]
    k = s.start_solution.nb_color
    ctx.check(set(x) == {(a, i) for a in names for i in range(k)}, "a variable per node and colour")
    ctx.check(cp.satisfy(s.start_solution), "starts from a colouring")
    keys = sorted(x, key=str)
    b = dict(zip(keys, milp.bits(ctx, [x[q] for q in keys])))
    (y,) = [v for v in prog.vars if v.kind != "B"]
    (m,) = milp.ints(ctx, [y], -1, 5)
    proper = [exactly_one([b[a, i] for i in range(k)]) for a in names]
    proper += [lnot(land(b[p, i], b[q, i])) for p, q, _ in es for i in range(k)]
    proper += [implies(b[a, i], m >= i + 1) for a in names for i in range(k)]
    milp.same(ctx, prog.holds(), land(*proper, m <= k), "colourings")
    ctx.check(prog.objective_lin().value() == m, "the objective is the number of colours")
    ctx.check(prog.sense == "min" if c["lib"] == "mip" else prog.modelSense == milp.GRB.MINIMIZE, "it is minimised")
    # any colouring that the solver finds
    col = {a: ctx.index("colour", k) for a in names}
    ctx.assume(all(col[p] != col[q] for p, q, _ in es))
    ctx.patch(milp.Program, "solver", staticmethod(lambda prog: [dict([(x[a, col[a]], 1) for a in names] + [(y, max(col.values()) + 1)])]))
    sol, fit = s.solve(ParametersMilp.default()).get_best_solution_fit()
    ctx.check(list(sol.colors) == [col[a] for a in sorted(names)], "the colouring found")
    ctx.check(cp.satisfy(sol) and cp.evaluate(sol)["nb_colors"] == len(set(col.values())), "is a colouring")
    ctx.check(fit == -len(set(col.values())), "its objective")
    ctx.reach("end")


@harness("C27", "facility", configs=[dict(lib=l, nf=f, nc=n, prune=p) for l in ("gurobi", "ortools", "mip") for f, n in ((1, 1), (2, 2), (2, 3), (3, 2)) for p in (0, 1) if not p or f == 2], expect=("end",),
         stubs=LIBS, functions=["LP_Facility_Solver", "LP_Facility_Solver_CBC", "LP_Facility_Solver_PyMip", "prune_search_space", "compute_length_matrix"],
         bounds="1 to 3 facilities and customers, any setup costs, capacities, demands and assignment; every assignment allowed, or the closest and cheapest facilities only; any one solution found by the solver")
def facility_(ctx):
    c = ctx.config
    nf, nc, lib = c["nf"], c["nc"], c["lib"]
    milp.stand_in(ctx, FL)
    fs, cs, p = facility(ctx, nf, nc)
    po = get_default_objective_setup(p)
    if lib == "gurobi":
        s = FL.LP_Facility_Solver(p, po)
    elif lib == "ortools":
        s = FL.LP_Facility_Solver_CBC(p, po)
    else:
        s = FL.LP_Facility_Solver_PyMip(p, MilpSolverName.CBC, po)
    if c["prune"]:
        s.init_model(use_matrix_indicator_heuristic=True, n_shortest=1, n_cheapest=1)
    else:
        s.init_model(use_matrix_indicator_heuristic=ctx.bool("heuristic"))
    prog, x = s.model, s.variable_decision["x"]
    ctx.check(set(x) == {(f, q) for f in range(nf) for q in range(nc)}, "a variable per facility and customer")
    open_ = {k: isinstance(v, milp.Var) for k, v in x.items()}
    if c["prune"]:
        ctx.check(all(any(open_[f, q] for f in range(nf)) for q in range(nc)), "some facility for every customer")
        for q in range(nc):
            near_ = min(range(nf), key=lambda f: dist(f, (q + 1) % 4))
            ctx.check(open_[near_, q], "the closest facility is not pruned")
            ctx.check(land(*[lor(open_[f, q], *[fs[g].setup_cost <= fs[f].setup_cost for g in range(nf) if g != f]) for f in range(nf)]), "the cheapest facility is not pruned")
        ctx.check(all(open_[k] or x[k] == 0 for k in x), "pruned pairs are not used")
    else:
        ctx.check(all(open_.values()), "nothing is pruned")
    keys = [k for k in sorted(x) if open_[k]]
    b = dict(zip(keys, milp.bits(ctx, [x[k] for k in keys])))
    for k in x:
        b.setdefault(k, False)
    mine = {id(x[k]) for k in keys}
    used = [v for v in prog.vars if id(v) not in mine]
    ctx.check(len(used) == nf, "a variable per facility")
    u = milp.bits(ctx, used, "u")
    ok = [exactly_one([b[f, q] for f in range(nf)]) for q in range(nc)]
    ok += [implies(b[f, q], u[f]) for f in range(nf) for q in range(nc)]
    ok += [sum([ite(b[f, q], cs[q].demand, 0) for q in range(nc)], 0) <= fs[f].capacity for f in range(nf)]
    milp.same(ctx, prog.holds(), land(*ok), "assignments")
    cost = sum([ite(u[f], fs[f].setup_cost, 0) for f in range(nf)], 0) + sum([ite(b[f, q], dist(f, (q + 1) % 4), 0) for f in range(nf) for q in range(nc)], 0)
    ctx.check(near(prog.objective_lin().value(), cost), "the objective is the cost of the assignment")
    ctx.check(prog.modelSense == milp.GRB.MINIMIZE if lib == "gurobi" else prog.sense == "min", "it is minimised")
    a = [ctx.choice("facility", [f for f in range(nf) if open_[f, q]]) for q in range(nc)]
    ctx.patch(milp.Program, "solver", staticmethod(lambda prog: [dict([(x[f, q], 1) for q, f in enumerate(a)] + [(used[f], 1) for f in set(a)])]))
    if lib == "mip":
        sol, fit = s.solve(ParametersMilp.default()).get_best_solution_fit()
    else:
        sol, fit = s.solve()
    ctx.check(list(sol.facility_for_customers) == a, "the assignment found")
    d, setup, over, _ = facility_values(fs, cs, a)
    if lib == "mip":
        ctx.check(near(fit, -d - setup - 10000 * over), "its objective")
    else:
        ctx.check(land(near(fit["cost"], d), fit["setup_cost"] == setup, fit["capacity_constraint_violation"] == over), "its objective")
    ctx.reach("end")


# ---- project scheduling
def sequential(inst, modes):
    """tasks one after the other: a starting solution whose length is the horizon of the program"""
    mode, t, out = dict(zip(inst.tasks, [1] + list(modes) + [1])), 0, {}
    for k in inst.tasks:
        out[k] = {"start_time": t, "end_time": t + inst.dur[k][mode[k]]}
        t += inst.dur[k][mode[k]]
    return out


def partial(ctx, inst, horizon, full):
    """constraints of a partial schedule, and what they mean"""
    a, b = ctx.choice("pair", [(p, q) for p in inst.real for q in inst.real if p != q])
    at = ctx.index("at", horizon + 1)
    delta = ctx.int("delta", 0, 2)
    cases = {
        "none": (dict(), lambda s, e: True),
        "start": (dict(start_times={a: at}), lambda s, e: s[a] == at),
        "starts": (dict(start_times={a: at, b: 1 if horizon else 0}), lambda s, e: land(s[a] == at, s[b] == (1 if horizon else 0))),
        "permutation": (dict(partial_permutation=[a, b, inst.sink]), lambda s, e: land(s[a] <= s[b], s[b] <= s[inst.sink])),
        "order": (dict(list_partial_order=[[1, a], [a, b]]), lambda s, e: s[a] <= s[b]),
        "both": (dict(start_times={a: at}, partial_permutation=[a, b]), lambda s, e: land(s[a] == at, s[a] <= s[b])),
    }
    if full:
        cases.update({
            "end": (dict(start_at_end=[(a, b)]), lambda s, e: s[b] == e[a]),
            "together": (dict(start_together=[(a, b)]), lambda s, e: s[b] == s[a]),
            "after": (dict(start_after_nunit=[(a, b, delta)]), lambda s, e: s[b] >= s[a] + delta),
            "offset": (dict(start_at_end_plus_offset=[(a, b, delta)]), lambda s, e: s[b] >= e[a] + delta),
        })
    k = ctx.choice("partial", sorted(cases))
    kw, means = cases[k]
    return (RM.PartialSolution(**kw) if k != "none" else None), means


def solver_of(lib, model):
    po = get_default_objective_setup(model)
    return {"single": RL.LP_RCPSP, "multi": RL.LP_MRCPSP, "gurobi": RL.LP_MRCPSP_GUROBI}[lib](model, params_objective_function=po)


PROGRAMS = [dict(lib=l, shape=s, modes=1, nonren=(), cal=False, part=p) for l in ("single", "multi", "gurobi") for s, p in (("free2", False), ("chain2", False), ("free2", True))] + \
    [dict(lib=l, shape=s, modes=2, nonren=("N1",), cal=False, part=False) for l in ("multi", "gurobi") for s in ("free2", "chain2")] + \
    [dict(lib=l, shape="free2", modes=1, nonren=("N1",), cal=True, part=False) for l in ("multi", "gurobi")]


@harness("C27", "scheduling", configs=PROGRAMS, expect=("end",), stubs=LIBS, functions=["LP_RCPSP.init_model", "LP_MRCPSP.init_model", "LP_MRCPSP_GUROBI.init_model"],
         bounds="2 tasks between a source and a sink, 1 or 2 modes for one of them, durations 0..2, any needs 0..2 and capacities 0..3 (changing over time or not), renewable or not; any assignment; any one partial schedule; as many time steps as a sequential schedule")
def scheduling(ctx):
    c = ctx.config
    milp.stand_in(ctx, RL)
    ctx.patch(RL, "int", lambda x: x)
    symbolic_arrays(ctx)
    ctx.patch(RM.RCPSPSolution, "compute_mean_resource_reserve", lambda self: 0)  # not part of the program
    inst = Inst(ctx, c["shape"], c["modes"], nonren=c["nonren"], horizon=9, cal=c["cal"], zero_need=True, cmin=1, dmax=1 if c["modes"] > 1 or c["part"] else 2)
    model = inst.model()
    modes = [ctx.choice("mode", list(inst.dur[t])) for t in inst.real]
    sched = sequential(inst, modes)
    start = RM.RCPSPSolution(problem=model, rcpsp_permutation=list(range(inst.n)), rcpsp_modes=list(modes), rcpsp_schedule=sched, rcpsp_schedule_feasible=True)
    T = range(sched[inst.sink]["end_time"] + 1)
    s = solver_of(c["lib"], model)
    kw = {}
    means = None
    if c["part"]:
        kw["partial_solution"], means = partial(ctx, inst, T[-1], c["lib"] != "multi")
    if c["lib"] == "gurobi" and not c["part"] and ctx.bool("max horizon"):
        T = range(T[-1])
        if not T:
            T = range(3)
        kw["max_horizon"] = T[-1]
    s.init_model(start_solution=start, **kw)
    prog = s.model
    if c["lib"] == "single":
        x = {(j + 1, 1, t): s.x[j][t] for j in range(len(s.x)) for t in range(len(s.x[j]))}
    else:
        x = dict(s.x)
    keys = [(k, m, t) for k in inst.tasks for m in inst.dur[k] for t in T]
    ctx.check(sorted(x) == sorted(keys), "a variable per task, mode and start")
    b = dict(zip(keys, milp.bits(ctx, [x[k] for k in keys])))
    at = {k: sum([ite(b[k, m, t], t, 0) for m in inst.dur[k] for t in T], 0) for k in inst.tasks}
    dur = {k: sum([ite(b[k, m, t], inst.dur[k][m], 0) for m in inst.dur[k] for t in T], 0) for k in inst.tasks}
    end = {k: at[k] + dur[k] for k in inst.tasks}
    if c["lib"] != "single":
        for k in inst.tasks:
            s.durations[k].val = dur[k]
    if c["lib"] == "gurobi" or kw.get("partial_solution") is not None and c["lib"] == "single":
        for k in s.starts:
            s.starts[k].val = at[k + (1 if c["lib"] == "single" else 0)]
    ctx.check(all(v.val is not None for v in prog.vars), "no other variable")
    ok = [exactly_one([b[k, m, t] for m in inst.dur[k] for t in T]) for k in inst.tasks]
    ok += [end[p] <= at[k] for k in inst.tasks for p in inst.pred[k]]
    for r in inst.res:
        if r in inst.nonren:
            ok.append(sum([ite(b[k], inst.need[k[0]][k[1]][r], 0) for k in keys], 0) <= inst.c(r, 0))
        else:
            ok += [sum([ite(b[k], inst.need[k[0]][k[1]][r], 0) for k in keys if k[2] <= u < k[2] + inst.dur[k[0]][k[1]]], 0) <= inst.c(r, u) for u in T]
    if means is not None:
        ok.append(means(at, end))
    milp.same(ctx, prog.holds(), land(*ok), "schedules")
    ctx.check(prog.objective_lin().value() == at[inst.sink], "the objective is the length of the schedule")
    if c["lib"] == "gurobi":
        ctx.patch(milp.Program, "solver", None)
        ctx.check(prog.modelSense == milp.GRB.MINIMIZE, "it is minimised")
    else:
        ctx.check(prog.sense == "min", "it is minimised")
    # the starting solution is given
    mode = dict(zip(inst.tasks, [1] + modes + [1]))
    want = {k: (k[1] == mode[k[0]] and k[2] == sched[k[0]]["start_time"]) for k in keys}
    if c["lib"] == "gurobi":
        ctx.check(all(bool(x[k].hint) == want[k] for k in keys), "the starting schedule is given")
    else:
        hint = {id(v): h for v, h in prog.start}
        ctx.check(all(hint[id(x[k])] == want[k] for k in keys), "the starting schedule is given")
    ctx.reach("end")


@harness("C27", "scheduling_read", configs=[dict(lib=l, shape=s, modes=m) for l in ("single", "multi", "gurobi") for s in ("free2", "chain2") for m in ((1, 2) if l != "single" else (1,))], expect=("end",), stubs=LIBS,
         functions=["LP_RCPSP.solve", "LP_MRCPSP.solve", "LP_MRCPSP_GUROBI.solve"], bounds="2 tasks of durations 0..2 that may run together, any one or two schedules found by the solver within 4 time steps")
def scheduling_read(ctx):
    c = ctx.config
    milp.stand_in(ctx, RL)
    ctx.patch(RL, "int", lambda x: x)
    symbolic_arrays(ctx)
    inst = Inst(ctx, c["shape"], c["modes"], nmax=0, cmin=1, cmax=1, horizon=9)
    model = inst.model()
    found = []
    for _ in range(ctx.index("several", 2) + 1):
        mode = {k: ctx.choice("mode", list(inst.dur[k])) for k in inst.tasks}
        d = {k: inst.dur[k][mode[k]] for k in inst.tasks}
        at, order = {1: 0}, inst.real
        for k in order:
            at[k] = ctx.index("start", 2) + max([at[p] + d[p] for p in inst.pred[k]])
        at[inst.sink] = max(at[p] + d[p] for p in inst.real)
        found.append((mode, at))
    s = solver_of(c["lib"], model)
    horizon = max(at[inst.sink] for _, at in found)
    stop = {k: v for k, v in zip(inst.tasks, [horizon] * 9)}
    sched = {k: {"start_time": horizon, "end_time": horizon} for k in inst.tasks}
    start = RM.RCPSPSolution(problem=model, rcpsp_permutation=list(range(inst.n)), rcpsp_modes=[1] * inst.n, rcpsp_schedule=sched, rcpsp_schedule_feasible=True)
    s.init_model(start_solution=start)
    var = (lambda k, m, t: s.x[k - 1][t]) if c["lib"] == "single" else (lambda k, m, t: s.x[k, m, t])
    ctx.patch(milp.Program, "solver", staticmethod(lambda prog: [{var(k, mode[k], at[k]): 1 for k in inst.tasks} for mode, at in found]))
    pm = ParametersMilp.default()
    if ctx.bool("only one"):
        pm.retrieve_all_solution = False
    rs = s.solve(pm)
    ctx.check(len(rs.list_solution_fits) == (len(found) if pm.retrieve_all_solution else 1), "every solution is read")
    best = []
    for (sol, fit), (mode, at) in zip(rs.list_solution_fits, found):
        ctx.check(times_of(sol) == {k: (at[k], at[k] + inst.dur[k][mode[k]]) for k in inst.tasks}, "the schedule found")
        if c["lib"] != "single":
            ctx.check(list(sol.rcpsp_modes) == [mode[k] for k in inst.real], "the modes found")
        e = model.evaluate(sol)
        ctx.check(e["makespan"] == at[inst.sink] and bool(sol.rcpsp_schedule_feasible), "is feasible and has its length")
        ctx.check(fit == -at[inst.sink], "its objective")
        best.append(at[inst.sink])
    if pm.retrieve_all_solution:
        ctx.check(times_of(rs.get_best_solution())[inst.sink][0] == min(best), "the best one is the shortest")
    ctx.reach("end")


# ---- tours
class Legs(TM.TSPModel):
    """points known by their mutual distances"""

    def __init__(self, ctx, n, start, end, hi=4, dist=None):
        self.dist = dist or {}
        for a in range(n):
            self.dist[a, a] = 0
            for b in range(a):
                if (a, b) not in self.dist:
                    self.dist[a, b] = ctx.int("d%d%d" % (a, b), 0, hi)
                self.dist[b, a] = self.dist[a, b]
        super().__init__([TM.Point2D(k, k * k % 5) for k in range(n)], n, start, end)

    def evaluate_function(self, s):
        t = [self.start_index] + list(s.permutation) + [self.end_index]
        legs = [self.dist[e] for e in zip(t, t[1:])]
        return legs, sum(legs)

    def evaluate_function_indexes(self, a, b):
        return self.dist[a, b]

    def tours(self):
        return [list(zip([self.start_index] + list(p), list(p) + [self.end_index])) for p in itertools.permutations(self.ind_in_permutation)]

    def length(self, edges):
        return sum([self.dist[e] for e in edges], 0)


class Npy:
    """arrays of zeros hold terms; the neighbours of a point come in any one order, itself first"""

    def __init__(self, ctx):
        self.flip = ctx.bool("other order of neighbours")

    def __getattr__(self, k):
        return getattr(np, k)

    def zeros(self, shape, *a, **k):
        return np.zeros(shape, dtype=object)

    def argsort(self, m, axis=1):
        n = len(m)
        return np.array([[i] + sorted([j for j in range(n) if j != i], reverse=self.flip) for i in range(n)])


def tsp_solver(ctx, model, lib, builder):
    milp.stand_in(ctx, TL)
    ctx.patch(TC, "print", lambda *a: None)
    npy = Npy(ctx)
    ctx.patch(TL, "np", npy)
    ctx.patch(TC, "np", npy)
    s = TL.LP_TSP_Iterative(model, graph_builder=getattr(TL, builder))
    s.init_model(TL.MILPSolver[lib])
    return s


@harness("C27", "tour", configs=[dict(lib=l, n=n, ends=e) for l in ("GUROBI", "CBC") for n, e in ((2, (0, 0)), (3, (0, 0)), (3, (2, 0)), (4, (1, 1)), (4, (0, 3)))], expect=("end",),
         functions=["LP_TSP_Iterative.init_model_gurobi", "LP_TSP_Iterative.init_model_cbc", "build_graph_complete"], bounds="2 to 4 points at any distances 0..4 from each other, closed and open tours, any assignment", stubs=LIBS)
def tour(ctx):
    c = ctx.config
    m = Legs(ctx, c["n"], *c["ends"])
    s = tsp_solver(ctx, m, c["lib"], "build_graph_complete")
    prog, x = s.model, s.variables["x"]
    keys = sorted(x)
    pairs = [(a, b) for a in range(c["n"]) for b in range(c["n"]) if a != b]
    ctx.check(keys == pairs and len(prog.vars) == len(pairs), "a variable per pair of points")
    b = dict(zip(pairs, milp.bits(ctx, [x[k] for k in pairs])))
    st, en = m.start_index, m.end_index
    ok = []
    for k in range(c["n"]):
        into, out = [b[e] for e in pairs if e[1] == k], [b[e] for e in pairs if e[0] == k]
        ok.append(lnot(lor(*into)) if k == st and st != en else exactly_one(into))
        ok.append(lnot(lor(*out)) if k == en and st != en else exactly_one(out))
    holds = prog.holds()
    ctx.check(implies(holds, land(*ok)), "one way into and out of every point")
    for t in m.tours():
        ctx.check(implies(land(*[b[e] if e in t else lnot(b[e]) for e in pairs]), holds), "every tour is allowed")
    ctx.check(prog.objective_lin().value() == sum([ite(b[e], m.dist[e], 0) for e in pairs], 0), "the objective is the length")
    ctx.check((prog.modelSense == milp.GRB.MINIMIZE) if c["lib"] == "GUROBI" else prog.sense == "min", "it is minimised")
    path = [st] + m.ind_in_permutation + [en]
    ctx.check({e for e in pairs if x[e].hint} == set(zip(path, path[1:])), "a tour is given")
    ctx.reach("end")


def covers(m):
    """every way to leave and enter each point once"""
    n, st, en = m.node_count, m.start_index, m.end_index
    tails = [k for k in range(n) if k != en or st == en]
    heads = [k for k in range(n) if k != st or st == en]
    return [list(zip(tails, p)) for p in itertools.permutations(heads) if all(a != b for a, b in zip(tails, p))]


SOLVED = [dict(lib=l, n=n, ends=e, best=b, dist=d) for l in ("GUROBI", "CBC") for n, e, d in ((3, (0, 0), None), (4, (0, 1), None), (5, (0, 1), 2), (5, (3, 1), 1), (6, (0, 0), "two"), (6, (2, 2), "line"), (6, (0, 5), "two"))
          for b in ((True, False) if d is None or isinstance(d, str) else (True,))]


@harness("C27", "tour_read", configs=lambda tier: [k for k in SOLVED if tier == "thorough" or k["n"] < 6 or (k["ends"] == (2, 2)) == (k["lib"] == "CBC")], expect=("end",), functions=["LP_TSP_Iterative.solve", "build_the_cycles", "rebuild_tsp_routine"],
         bounds="3 to 5 points at any distances 0..4 (0..1 or 0..2 for 5), 6 points at given distances; any best (or any) solution of the program at each step; 1 or 20 steps", stubs=LIBS)
def tour_read(ctx):
    c = ctx.config
    n, d = c["n"], c["dist"]
    dist = None
    if d == "two":  # two groups far from each other
        dist = {(a, b): (1 if a % 2 == b % 2 else 7) for a in range(n) for b in range(a)}
    elif d == "line":
        dist = {(a, b): a - b for a in range(n) for b in range(a)}
    m = Legs(ctx, n, *c["ends"], hi=d if isinstance(d, int) else 4, dist=dist)
    s = tsp_solver(ctx, m, c["lib"], "build_graph_complete")
    x = s.variables["x"]
    edges = sorted(x)
    known, found = {}, []

    steps = ctx.choice("steps", (20, 1)) if c["best"] or n < 6 else 1
    state = {"good": [{x[e]: 1 for e in cover} for cover in covers(m)], "seen": 0}

    def optimise(prog):
        if len(prog.rules) not in known:
            left = []
            for values in state["good"]:
                prog.assign(values)
                if prog.holds(prog.rules[state["seen"]:]):
                    left.append(values)
            state.update(good=left, seen=len(prog.rules))
            good = [[e for e in edges if x[e] in values] for values in left]
            ctx.check(len(good) > 0, "the program keeps a solution")
            if c["best"]:
                pick = good[ctx.index("found", len(good)) if steps > 1 or not found else 0]
                ctx.assume(land(*[m.length(pick) <= m.length(o) for o in good]) if steps > 1 or not found else True)
            else:  # not the best one
                tours = [set(t) for t in m.tours()]
                some = [q for q in good if set(q) not in tours or n < 6]
                pick = some[ctx.index("found", len(some)) if steps > 1 or not found else 0]
            known[len(prog.rules)] = pick
            found.append(pick)
        return [{x[e]: 1 for e in known[len(prog.rules)]}]

    ctx.patch(milp.Program, "solver", staticmethod(optimise))
    rs = s.solve(nb_iteration_max=steps, plot=False)
    ctx.check(len(rs.list_solution_fits) == 1, "a solution")
    sol, fit = rs.list_solution_fits[0]
    perm = list(sol.permutation)
    ctx.check(sorted(perm) == m.ind_in_permutation and m.satisfy(sol), "it is a tour")
    path = [m.start_index] + perm + [m.end_index]
    total = m.length(zip(path, path[1:]))
    ctx.check(land(fit == total, m.evaluate(sol)["length"] == total), "of its length")
    if c["best"] and steps == 20:
        ctx.check(land(*[total <= m.length(t) for t in m.tours()]), "it is the shortest tour")
    if len(found) == 1 and set(found[0]) in [set(t) for t in m.tours()]:
        ctx.check(set(zip(path, path[1:])) == set(found[0]), "it is the tour of the solver")
    ctx.reach("end")
