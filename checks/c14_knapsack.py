"""C14: knapsack: evaluation, feasibility, moves and solvers agree with the items taken."""
import random

import numpy as np

from vsym.registry import harness
from vsym.engine import land, lor, lnot, ite, smax, implies, is_sym
from skdecide.builders.discrete_optimization.generic_tools.do_problem import ModeOptim, ObjectiveHandling
from skdecide.builders.discrete_optimization.knapsack.knapsack_model import (Item, KnapsackModel, KnapsackModel_Mobj,
                                                                             KnapsackSolution)
from skdecide.builders.discrete_optimization.knapsack.mutation.mutation_knapsack import (
    BitFlipMoveKP, KnapsackMutationSingleBitFlip, MutationKnapsack, SingleBitFlipMove)
import skdecide.builders.discrete_optimization.knapsack.solvers.dyn_prog_knapsack as DPK
from skdecide.builders.discrete_optimization.knapsack.solvers.greedy_solvers import (
    GreedyBest, GreedyDummy, compute_density, compute_density_and_penalty, greedy_using_queue)
from skdecide.builders.discrete_optimization.knapsack.solvers import cp_solvers as CP

FUNCS = ["KnapsackModel.evaluate/satisfy/...", "KnapsackModel_Mobj", "KnapsackSolution", "GreedyBest", "KnapsackDynProg",
         "KnapsackMutationSingleBitFlip", "MutationKnapsack", "BitFlipMoveKP", "CPKnapsackMZN.retrieve_solutions"]
INDEXES = [[0, 1, 2, 3], [7, 1, 4, 2]]


def items_of(ctx, n, ws=None, vs=None):
    idx = ctx.choice("indexes", INDEXES)
    ws = ws or [ctx.int("w", 1, 6) for _ in range(n)]
    vs = vs or [ctx.int("v", 0, 6) for _ in range(n)]
    return [Item(idx[i], vs[i], ws[i]) for i in range(n)]


def totals(items, taken):
    return sum(it.value * t for it, t in zip(items, taken)), sum(it.weight * t for it, t in zip(items, taken))


@harness("C14", "model", configs=[dict(multi=m, force=f) for m in (False, True) for f in (False, True)], expect=("fits", "too heavy"),
         functions=FUNCS, bounds="0..3 items of any value 0..6, weight 1..6, capacity 0..12, any selection, values cached or not")
def model(ctx):
    c = ctx.config
    n = ctx.index("n", 4)
    items = items_of(ctx, n)
    cap = ctx.int("capacity", 0, 12)
    kp = KnapsackModel(items, cap, c["force"])
    if c["multi"]:
        kp = KnapsackModel_Mobj.from_knapsack(kp)
    taken = [ctx.index("t", 2) for _ in range(n)]
    v, w = totals(items, taken)
    cached = ctx.choice("cached", ["none", "both", "value"])
    sol = KnapsackSolution(kp, list(taken), **({} if cached == "none" else dict(value=v) if cached == "value"
                                              else dict(value=v, weight=w)))
    if c["force"] and ctx.bool("stale"):
        sol = KnapsackSolution(kp, list(taken), value=v + 1, weight=w + 3)
    over = smax([0, w - cap])
    for how in (0, 1, 2):
        s = sol.copy() if how == 0 else sol.lazy_copy() if how == 1 else sol
        r = kp.evaluate(s)
        ctx.check(land(r["value"] == v, r["weight_violation"] == over), "objectives are those of the selected items")
        ctx.check(land(s.value == v, s.weight == w), "value and weight of the solution")
        ctx.check(list(s.list_taken) == taken and s.problem is kp, "the selection is unchanged")
        if c["multi"]:
            heavy = smax([0] + [it.weight for it, t in zip(items, taken) if t])
            ctx.check(land(r["weight"] == w, r["heaviest_item"] == heavy), "weight and heaviest item")
            m = kp.evaluate_mobj(s)
            ctx.check(land(m.vector_fitness[0] == v, m.vector_fitness[1] == -heavy), "multi-objective evaluation")
    ok = kp.satisfy(sol.copy())
    ctx.check(ok == (w <= cap), "feasible exactly within the capacity")
    fresh = KnapsackSolution(kp, list(taken))
    ctx.check(bool(kp.satisfy(fresh)) == (w <= cap), "feasible exactly within the capacity")
    ctx.check(fresh == sol and hash(fresh) == hash(sol), "solutions with the same selection are equal")
    r = kp.evaluate_from_encoding(list(taken), "list_taken")
    ctx.check(land(r["value"] == v, r["weight_violation"] == over), "evaluation of an encoded selection")
    cp = sol.copy()
    if n:
        cp.list_taken[0] = 1 - cp.list_taken[0]
        ctx.check(sol.list_taken[0] == taken[0] and cp != sol, "a copy is independent")
    d = kp.get_dummy_solution()
    ctx.check(land(d.value == 0, d.weight == 0) and len(d.list_taken) == n and not any(d.list_taken) and bool(kp.satisfy(d)), "empty selection")
    reg = kp.get_objective_register()
    ctx.check(reg.objective_sense == ModeOptim.MAXIMIZATION, "maximised")
    o, ww = reg.get_list_objective_and_default_weight()
    ctx.check(set(o) <= set(r) and dict(zip(o, ww))["value"] > 0 and dict(zip(o, ww))["weight_violation"] < 0, "registered objectives")
    kp2 = KnapsackModel([Item(i.index, i.value + 1, i.weight) for i in items], cap)
    sol.change_problem(kp2)
    ctx.check(sol.problem is kp2 and kp2.evaluate(sol)["value"] == v + sum(taken), "evaluation in another problem")
    ctx.reach("fits" if ok else "too heavy")


def check_solution(ctx, sol, items, cap, label):
    v, w = totals(items, sol.list_taken)
    ctx.check(len(sol.list_taken) == len(items) and all(t in (0, 1) for t in sol.list_taken), label + ": a selection of items")
    ctx.check(land(sol.value == v, sol.weight == w), label + ": value and weight are those of the selection")
    ctx.check(w <= cap, label + ": within the capacity")
    return v, w


@harness("C14", "greedy", configs=[dict(n=n) for n in (1, 2, 3)], expect=("end", "overweight"), functions=FUNCS,
         bounds="1..3 items of weight 1..4 (1..3 with 3 items), any value 1..5, capacity 1..8")
def greedy(ctx):
    n = ctx.config["n"]
    ws = [1 + ctx.index("w", 4 if n < 3 else 3) for _ in range(n)]
    items = items_of(ctx, n, ws, [ctx.int("v", 1, 5) for _ in range(n)])
    cap = ctx.int("capacity", 1, 8)
    kp = KnapsackModel(items, cap)
    vals = []
    for q in (None, compute_density, compute_density_and_penalty):
        s = greedy_using_queue(kp, q)
        v, w = check_solution(ctx, s, items, cap, "greedy")
        ctx.check(land(*[w + it.weight > cap for it, t in zip(items, s.list_taken) if not t]), "no further item fits")
        vals.append(v)
    rs = GreedyBest(kp).solve()
    best = rs.get_best_solution()
    v, w = check_solution(ctx, best, items, cap, "best greedy")
    ctx.check(land(*[v >= x for x in vals]), "the better of the greedy selections is returned")
    ctx.check(rs.list_solution_fits[0][1] == v, "its fitness is its value")
    d = GreedyDummy(kp).solve().get_best_solution()
    check_solution(ctx, d, items, cap, "dummy")
    if any(x > cap for x in ws):
        ctx.reach("overweight")
    ctx.reach("end")


def obj_zeros(ctx):
    real = np.zeros

    def zeros(shape, *a, **k):
        z = real(shape, *a, **k)
        return z.astype(object) if ctx.symbolic else z
    ctx.patch(np, "zeros", zeros)


def dp_cfgs(tier):
    return [dict(np=k, greedy=g, n=n) for k in (False, True) for g in (False, True) for n in ((1, 2, 3) if tier == "quick" else (1, 2, 3, 4))]


@harness("C14", "dynprog", configs=dp_cfgs, expect=("end",), functions=FUNCS,
         bounds="1..3 items (4 thorough) of weight 1..3 and any value 0..4 (1..4 with the greedy start), capacity 0..4 (1, 3, 4 with 3 items)",
         stubs=["numpy arrays of the table hold symbolic numbers"])
def dynprog(ctx):
    c = ctx.config
    obj_zeros(ctx)
    n = c["n"]
    ws = [1 + ctx.index("w", 3 if n < 4 else 2) for _ in range(n)]
    cap = ctx.index("capacity", 5) if n < 3 else ctx.choice("capacity", [1, 3, 4])
    items = items_of(ctx, n, ws, [ctx.int("v", 1 if c["greedy"] else 0, 4) for _ in range(n)])
    kp = KnapsackModel(items, cap)
    s = DPK.KnapsackDynProg(kp)
    rs = (s.solve_np if c["np"] else s.solve)(greedy_start=c["greedy"])
    sol = rs.get_best_solution()
    v, w = check_solution(ctx, sol, items, cap, "dynamic programming")
    for mask in range(1 << n):
        t = [(mask >> i) & 1 for i in range(n)]
        if sum(a * b for a, b in zip(t, ws)) <= cap:
            ctx.check(v >= sum(it.value for it, b in zip(items, t) if b), "no feasible selection is worth more")
    ctx.reach("end")


@harness("C14", "moves", configs=[dict(m=m, cached=c) for m in ("flip", "knapsack", "several") for c in (False, True)], expect=("end",),
         functions=FUNCS, bounds="two lists of 3 items in two numberings, any selection, capacity 0, 1, 3, 4 or 9, every random draw",
         stubs=["random draws return any value of positive weight"])
def moves(ctx):
    c = ctx.config
    ctx.stub_random()
    n = 3
    idx = ctx.choice("indexes", [[0, 1, 2], [2, 1, 0]])
    items = [Item(idx[i], v, w) for i, (v, w) in enumerate(ctx.choice("items", [[(2, 1), (5, 3), (2, 3)], [(5, 2), (5, 1), (3, 4)], [(2, 2), (5, 3), (2, 3)]]))]
    cap = ctx.choice("capacity", [0, 1, 3, 4, 9])
    kp = KnapsackModel(items, cap)
    taken = [ctx.index("t", 2) for _ in range(n)]
    v, w = totals(items, taken)
    sol = KnapsackSolution(kp, list(taken))
    if c["cached"]:
        kp.evaluate(sol)
    if c["m"] == "several":
        flips = ctx.subset("flip", range(n))
        move = BitFlipMoveKP("list_taken", kp, flips)
        new, obj = move.apply_local_move(sol), None
    else:
        mut = KnapsackMutationSingleBitFlip(kp) if c["m"] == "flip" else MutationKnapsack(kp)
        if ctx.bool("mutate"):
            new, move = mut.mutate(sol)
            obj = None
        else:
            new, move, obj = mut.mutate_and_compute_obj(sol)
    t2 = list(new.list_taken)
    diff = [i for i in range(n) if t2[i] != taken[i]]
    ctx.check(len(t2) == n and all(x in (0, 1) for x in t2), "a selection of items")
    if c["m"] == "several":
        ctx.check(diff == flips, "the listed items are flipped")
    elif c["m"] == "flip":
        ctx.check(len(diff) == 1, "one item is flipped")
    else:
        ctx.check(len(diff) <= 1, "at most one item is flipped")
        if diff and t2[diff[0]]:
            ctx.check(totals(items, t2)[1] <= cap, "an item is added only where it fits")
    v2, w2 = totals(items, t2)
    if obj is not None:
        ctx.check(land(obj["value"] == v2, obj["weight_violation"] == smax([0, w2 - cap])), "objectives returned with the move")
    r = kp.evaluate(new.copy())
    ctx.check(land(r["value"] == v2, r["weight_violation"] == smax([0, w2 - cap])), "evaluation after the move")
    back = move.backtrack_local_move(new)
    ctx.check(list(back.list_taken) == taken, "backtracking restores the selection")
    r = kp.evaluate(back.copy())
    ctx.check(land(r["value"] == v, r["weight_violation"] == smax([0, w - cap])), "evaluation after backtracking")
    again = move.apply_local_move(back)
    ctx.check(list(again.list_taken) == t2 if not (c["m"] == "knapsack" and not diff) else True, "the move can be applied again")
    ctx.reach("end")


@harness("C14", "cp_results", configs=[dict(k=k, all=a) for k in (1, 2) for a in (False, True)], expect=("end",),
         functions=["CPKnapsackMZN.retrieve_solutions", "CPKnapsackMZN2.retrieve_solutions"],
         bounds="3 items, every selection answered by the constraint solver, one or two answers",
         stubs=["answers of the external constraint solver: any selection within the capacity"])
def cp_results(ctx):
    c = ctx.config
    items = items_of(ctx, 3, None, None)
    kp = KnapsackModel(items, 100)
    answers = [[ctx.index("x", 2) for _ in range(3)] for _ in range(2 if c["all"] else 1)]

    class Res(list):
        def __getitem__(self, k):
            if isinstance(k, tuple):
                return list.__getitem__(self, k[0])[k[1]]
            return list.__getitem__(self, 0)[k]
    res = Res()
    for a in answers:
        # item numbers start at 1 in the constraint model, 0 standing for no item
        res.append({"list_items": [i + 1 for i in range(3) if a[i]] + [0] * (3 - sum(a)), "taken": a, "objective": 0})
    cls = CP.CPKnapsackMZN if c["k"] == 1 else CP.CPKnapsackMZN2
    par = CP.ParametersCP.default()
    par.intermediate_solution = c["all"]
    rs = cls(kp).retrieve_solutions(res, par)
    ctx.check(len(rs.list_solution_fits) == len(answers), "as many solutions as answers")
    for (s, f), a in zip(rs.list_solution_fits, answers):
        v, w = totals(items, a)
        ctx.check(list(s.list_taken) == a and land(s.value == v, s.weight == w, f == v), "the selection answered")
    ctx.reach("end")
