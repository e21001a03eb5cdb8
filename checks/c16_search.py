"""C16: result storages keep every result and their best; local search returns what it evaluated."""
import builtins
import math
import random

import numpy as np

from vsym.registry import harness
from vsym.engine import land, lor, lnot, ite, smax, smin, implies, is_sym
from skdecide.builders.discrete_optimization.generic_tools.do_mutation import LocalMove, LocalMoveDefault, Mutation
from skdecide.builders.discrete_optimization.generic_tools.do_problem import (
    EncodingRegister, ModeOptim, ObjectiveHandling, ObjectiveRegister, ParamsObjectiveFunction, Problem, Solution,
    TypeAttribute, TypeObjective)
from skdecide.builders.discrete_optimization.generic_tools.ls import hill_climber as HC, simulated_annealing as SA
from skdecide.builders.discrete_optimization.generic_tools.ls.local_search import (
    ModeMutation, RestartHandler, RestartHandlerLimit)
from skdecide.builders.discrete_optimization.generic_tools.result_storage.multiobj_utils import TupleFitness
from skdecide.builders.discrete_optimization.generic_tools.result_storage.result_storage import (
    ParetoFront, ResultStorage, result_storage_to_pareto_front)
from skdecide.builders.discrete_optimization.generic_tools.result_storage.resultcomparator import ResultComparator

FUNCS = ["ResultStorage", "ParetoFront", "result_storage_to_pareto_front", "ResultComparator.generate_super_pareto/...", "HillClimber.solve",
         "HillClimberPareto.solve", "SimulatedAnnealing.solve", "RestartHandler", "RestartHandlerLimit", "TemperatureSchedulingFactor"]
MODES = {"max": ModeOptim.MAXIMIZATION, "min": ModeOptim.MINIMIZATION}


def better(mode, a, b):
    return a > b if mode == "max" else a < b


def at_least(mode, a, b):
    return a >= b if mode == "max" else a <= b


def check_best(ctx, rs, mode, stored, label=""):
    """stored: (solution, fitness) of every stored result in order"""
    ctx.check([s for s, f in rs.list_solution_fits] == [s for s, f in stored], label + "every result is kept, in order")
    ctx.check(land(*[f == g for (s, f), (t, g) in zip(rs.list_solution_fits, stored)]), label + "results keep their fitness")
    fits = dict(stored)

    def is_best(f):
        return land(*[at_least(mode, f, g) for _, g in stored])
    s, f = rs.get_best_solution_fit()
    ctx.check(land(f == fits[s], is_best(f)), label + "best result")
    s = rs.get_best_solution()
    ctx.check(is_best(fits[s]), label + "best solution")
    s, f = rs.get_last_best_solution()
    later = [g for t, g in stored[[t for t, _ in stored].index(s) + 1:]]
    ctx.check(land(f == fits[s], is_best(f), *[better(mode, f, g) for g in later]), label + "last best result")
    s, f = rs.get_random_best_solution()
    ctx.check(land(f == fits[s], is_best(f)), label + "random best result")
    s, f = rs.get_random_solution()
    ctx.check(f == fits[s], label + "random result")
    if is_best(f):
        ctx.check(land(*[is_best(g) for _, g in stored]), label + "a random result is not a best one unless all are")
    ctx.check(is_best(fits[rs.best_solution]), label + "current best solution")


@harness("C16", "storage", configs=lambda tier: [dict(mode=m, n=n, add=a, limit=l) for m in MODES for n, a in ((1, 2), (2, 1), (3, 0)) + (((2, 2), (4, 0)) if tier != "quick" else ())
                                                 for l in (1, 2, 1000)],
         expect=("end",), functions=FUNCS, bounds="up to 3 results (4 thorough) of any integer fitness, added at once or one by one, storage limit 1, 2 or 1000",
         stubs=["random draws return any value of positive probability"])
def storage(ctx):
    c = ctx.config
    ctx.stub_random()
    stored = [("s%d" % i, ctx.int("f", -5, 5)) for i in range(c["n"])]
    rs = ResultStorage(list(stored), mode_optim=MODES[c["mode"]], nb_best_store=c["limit"])
    for i in range(c["add"]):
        s, f = "a%d" % i, ctx.int("f", -5, 5)
        rs.add_solution(s, f)
        stored.append((s, f))
        if ctx.bool("again"):
            rs.add_solution(s, f)
    if ctx.bool("finalize"):
        rs.finalize()
    check_best(ctx, rs, c["mode"], stored)
    ctx.reach("end")


@harness("C16", "storage_empty", configs=[dict(mode=m) for m in MODES], expect=("end",), functions=FUNCS,
         bounds="up to 2 results added to an empty storage", stubs=["random draws return any value of positive probability"])
def storage_empty(ctx):
    c = ctx.config
    ctx.stub_random()
    rs = ResultStorage([], mode_optim=MODES[c["mode"]])
    ctx.check(rs.get_best_solution() is None, "no best solution")
    stored = []
    for i in range(1 + ctx.index("n", 2)):
        stored.append(("s%d" % i, ctx.int("f", -5, 5)))
        rs.add_solution(*stored[-1])
    check_best(ctx, rs, c["mode"], stored)
    ctx.reach("end")


@harness("C16", "storage_n_best", configs=[dict(mode=m) for m in MODES], expect=("end",), functions=FUNCS, bounds="1 to 3 results, any number asked for up to 4")
def storage_n_best(ctx):
    c = ctx.config
    stored = [("s%d" % i, ctx.int("f", -5, 5)) for i in range(1 + ctx.index("n", 3))]
    rs = ResultStorage(list(stored), mode_optim=MODES[c["mode"]])
    k = 1 + ctx.index("k", 4)
    got = rs.get_n_best_solution(k)
    ctx.check(len(got) == min(k, len(stored)), "as many results as asked for, or all")
    fits = dict(stored)
    ctx.check(len(set(s for s, _ in got)) == len(got) and land(*[fits[s] == f for s, f in got]), "stored results")
    rest = [f for s, f in stored if s not in [t for t, _ in got]]
    ctx.check(land(*[at_least(c["mode"], f, g) for _, f in got for g in rest]), "the best ones")
    ctx.check(land(*[at_least(c["mode"], got[i][1], got[i + 1][1]) for i in range(len(got) - 1)]), "best first")
    ctx.reach("end")


class S:
    def __init__(self, x, key):
        self.x, self.key = x, key


@harness("C16", "duplicates", configs=[dict(n=n) for n in (1, 2, 3)], expect=("end", "removed"), functions=FUNCS, bounds="1 to 3 solutions with lists of 2 values")
def duplicates(ctx):
    sols = [S([ctx.int("x", 0, 1), ctx.int("y", 0, 1)], i) for i in range(ctx.config["n"])]
    rs = ResultStorage([(s, 1) for s in sols])
    rs.remove_duplicate_solutions("x")
    keep = []
    for s in sols:
        if not any(s.x[0] == t.x[0] and s.x[1] == t.x[1] for t in keep):
            keep.append(s)
    ctx.check([s.key for s, _ in rs.list_solution_fits] == [s.key for s in keep], "the first of equal solutions is kept")
    if len(keep) < len(sols):
        ctx.reach("removed")
    ctx.reach("end")


def vec(ctx, xs):
    return TupleFitness(np.array(xs, dtype=object if ctx.symbolic else None), len(xs))


def dominates(mode, x, y):
    return land(*[at_least(mode, a, b) for a, b in zip(x, y)], lor(*[better(mode, a, b) for a, b in zip(x, y)]))


@harness("C16", "pareto", configs=lambda tier: [dict(mode=m, n=n, how=h) for m in MODES for n in (1, 2, 3) for h in ("given", "added", "storage", "problem", "comparator")
                                                if n < 3 or h in ("given", "comparator") or tier != "quick"],
         expect=("end", "dominated", "all"), functions=FUNCS, bounds="up to 3 results with 2 objectives of any value 0..4")
def pareto(ctx):
    c = ctx.config
    n, mode = c["n"], c["mode"]
    pts = [(ctx.int("x", 0, 4), ctx.int("y", 0, 4)) for _ in range(n)]
    names = ["s%d" % i for i in range(n)]
    res = [(s, vec(ctx, p)) for s, p in zip(names, pts)]
    if c["how"] == "given":
        pf = ParetoFront(list(res), None, mode_optim=MODES[mode])
    elif c["how"] == "added":
        pf = ParetoFront(res[:1], None, mode_optim=MODES[mode])
        for s, f in res[1:]:
            pf.add_solution(s, f)
    elif c["how"] == "storage":
        pf = result_storage_to_pareto_front(ResultStorage(list(res), mode_optim=MODES[mode]))
    elif c["how"] == "problem":
        class P:
            def evaluate_mobj(self, s):
                return dict(res)[s]
        pf = result_storage_to_pareto_front(ResultStorage([(s, p[0]) for s, p in zip(names, pts)], mode_optim=MODES[mode]), P())
    else:
        sts = [ResultStorage(res[:1], mode_optim=MODES[mode])] + ([ResultStorage(res[1:], mode_optim=MODES[mode])] if n > 1 else [])
        cmp = ResultComparator(sts, ["r%d" % i for i in range(len(sts))], ["x", "y"], [1, 1])
        for k in (0, 1):
            best = cmp.get_best_by_objective_by_result_storage("xy"[k])
            for i, st in enumerate(sts):
                s, f = best["r%d" % i]
                mine = [p for t, p in zip(names, pts) if t in [u for u, _ in st.list_solution_fits]]
                ctx.check(land(f.vector_fitness[k] == pts[names.index(s)][k], *[at_least(mode, f.vector_fitness[k], p[k]) for p in mine]), "best of each storage")
        pf = cmp.generate_super_pareto()
    pf.finalize()
    front = [s for s, _ in pf.paretos]
    ctx.check(len(set(front)) == len(front) == pf.len_pareto_front(), "each result once")
    for i, s in enumerate(names):
        dom = lor(*[dominates(mode, q, pts[i]) for j, q in enumerate(pts) if j != i])
        ctx.check(dom if s not in front else lnot(dom), "the front holds exactly the results no other dominates")
    ctx.check(all(f is dict(res)[s] for s, f in pf.paretos), "with their fitness")
    ex = pf.compute_extreme_points()
    ctx.check(len(ex) == 2, "one extreme point per objective")
    for k in (0, 1):
        ctx.check(land(*[at_least(mode, ex[k][1].vector_fitness[k], p[k]) for p in pts]), "extreme points")
    ctx.reach("all" if len(front) == n else "dominated")
    ctx.reach("end")


class Bits(Solution):
    def __init__(self, b):
        self.b = list(b)

    def copy(self):
        return Bits(self.b)

    def change_problem(self, p):
        pass


class Table(Problem):
    """every solution has its own arbitrary objectives"""

    def __init__(self, ctx, nb, sense, nobj=1, lo=0, hi=5):
        self.t = {}
        for k in range(1 << nb):
            self.t[tuple((k >> i) & 1 for i in range(nb))] = [ctx.int("obj", lo, hi) for _ in range(nobj)]
        self.sense, self.evaluated, self.nobj = sense, [], nobj

    def evaluate(self, s):
        self.evaluated.append(tuple(s.b))
        return {"o%d" % i: v for i, v in enumerate(self.t[tuple(s.b)])}

    def satisfy(self, s):
        return True

    def get_attribute_register(self):
        return EncodingRegister({"b": {"name": "b", "type": [TypeAttribute.LIST_BOOLEAN], "n": 2}})

    def get_solution_type(self):
        return Bits

    def get_objective_register(self):
        return ObjectiveRegister(MODES[self.sense], ObjectiveHandling.SINGLE if self.nobj == 1 else ObjectiveHandling.MULTI_OBJ,
                                 {"o%d" % i: {"type": TypeObjective.OBJECTIVE, "default_weight": 1} for i in range(self.nobj)})


class Flip(LocalMove):
    def __init__(self, i):
        self.i = i

    def apply_local_move(self, s):
        s.b[self.i] = 1 - s.b[self.i]
        return s

    backtrack_local_move = apply_local_move


class Mut(Mutation):
    def __init__(self, ctx, p, inplace):
        self.ctx, self.p, self.inplace, self.seen = ctx, p, inplace, []

    def mutate(self, s):
        i = self.ctx.index("flip", 2)
        before = tuple(s.b)
        if self.inplace:
            mv = Flip(i)
            new = mv.apply_local_move(s)
        else:
            new = s.copy()
            new.b[i] = 1 - new.b[i]
            mv = LocalMoveDefault(s, new)
        self.seen.append((before, tuple(new.b)))
        return new, mv

    def mutate_and_compute_obj(self, s):
        new, mv = self.mutate(s)
        return new, mv, self.p.evaluate(new)


def objective(p, key, w):
    return p.t[key][0] * w


def ls_cfg(tier):
    return [dict(mode=m, inplace=i, ev=e, store=s) for m in MODES for i in (False, True) for e in (False, True) for s in (False, True)]


def check_store(ctx, p, rs, mode, keys, w, everything):
    """keys: contents evaluated (initial first)"""
    for s, f in rs.list_solution_fits:
        ctx.check(f == objective(p, tuple(s.b), w), "every stored solution has the fitness of its content")
    s, f = rs.get_best_solution_fit()
    ctx.check(land(*[at_least(mode, f, objective(p, k, w)) for k in keys]), "the best solution found is returned")
    best = rs.get_best_solution()
    ctx.check(land(*[at_least(mode, objective(p, tuple(best.b), w), objective(p, k, w)) for k in keys]), "the best solution found is returned")
    ctx.check(objective(p, tuple(rs.best_solution.b), w) == f, "current best solution of the storage")
    if everything:
        got = [tuple(s.b) for s, _ in rs.list_solution_fits]
        ctx.check(got == keys, "every evaluated solution is stored")


class ExpStub:
    """exp: an arbitrary positive number, at least one exactly for arguments that are not negative"""

    def __init__(self, ctx):
        self.ctx = ctx

    def exp(self, x):
        y = self.ctx.real("exp", 0, 4)
        self.ctx.assume(land(y > 0, implies(x == 0, y == 1), implies(x > 0, y > 1), implies(x < 0, y < 1)))
        return y


def setup(ctx, sa):
    c = ctx.config
    mode = c["mode"]
    p = Table(ctx, 2, mode)
    init = Bits([0, 0])
    mut = Mut(ctx, p, c["inplace"])
    w = ctx.choice("weight", [1, 2])
    params = ParamsObjectiveFunction(ObjectiveHandling.SINGLE, ["o0"], [w], MODES[mode])
    if w == 1 and ctx.bool("default objective"):
        params = None
    mm = ModeMutation.MUTATE_AND_EVALUATE if c["ev"] else ModeMutation.MUTATE
    return mode, p, init, mut, w, params, mm


@harness("C16", "hill_climber", configs=ls_cfg, expect=("end", "improved"), functions=FUNCS,
         bounds="any objective values of 4 solutions, 2 iterations (3 thorough), every mutation", stubs=["mutation: any bit flip, in place or not"])
def hill_climber(ctx):
    c = ctx.config
    mode, p, init, mut, w, params, mm = setup(ctx, False)
    n = 2 if ctx.tier == "quick" else 3
    hc = HC.HillClimber(p, mut, RestartHandler(), mm, params, store_solution=c["store"])
    rs = hc.solve(init, n)
    ctx.check(init.b == [0, 0], "the initial solution is unchanged")
    keys = [(0, 0)] + [a for _, a in mut.seen]
    ctx.check(len(mut.seen) == n, "as many iterations as allowed")
    cur = (0, 0)
    for b, a in mut.seen:
        ctx.check(b == cur, "the search goes on from the last improving solution")
        if better(mode, objective(p, a, w), objective(p, cur, w)):
            cur = a
            ctx.reach("improved")
    check_store(ctx, p, rs, mode, keys, w, False)
    for k in (keys if c["store"] else [(0, 0)]):
        ctx.check(k in [tuple(s.b) for s, _ in rs.list_solution_fits], "solutions to be stored are stored")
    ctx.reach("end")


@harness("C16", "annealing", configs=ls_cfg, expect=("end", "worse accepted", "worse rejected"), functions=FUNCS,
         bounds="any objective values of 4 solutions, 2 iterations (3 thorough), every mutation and acceptance draw",
         stubs=["mutation: any bit flip, in place or not", "exp: any positive number on the right side of one", "random draws return any value"])
def annealing(ctx):
    c = ctx.config
    ctx.stub_random()
    if ctx.symbolic:
        ctx.patch(SA, "math", ExpStub(ctx))
    mode, p, init, mut, w, params, mm = setup(ctx, True)
    n = 2 if ctx.tier == "quick" else 3
    rh = RestartHandler()
    th = SA.TemperatureSchedulingFactor(3.0, rh, 0.5)
    sa = SA.SimulatedAnnealing(p, mut, rh, th, mm, params, store_solution=c["store"])
    rs = sa.solve(init, n)
    ctx.check(init.b == [0, 0], "the initial solution is unchanged")
    ctx.check(th.temperature == 3.0 * 0.5 ** n, "the temperature decreases once per iteration")
    ctx.check(len(mut.seen) == n, "as many iterations as allowed")
    keys = [(0, 0)] + [a for _, a in mut.seen]
    for i, (b, a) in enumerate(mut.seen):
        if i + 1 < n:
            nxt = mut.seen[i + 1][0]
            ctx.check(nxt in (a, b), "the search goes on from the mutated solution or the one before")
            if nxt == b:
                ctx.check(better(mode, objective(p, b, w), objective(p, a, w)), "only worse solutions are rejected")
                ctx.reach("worse rejected")
            elif better(mode, objective(p, b, w), objective(p, a, w)):
                ctx.reach("worse accepted")
    check_store(ctx, p, rs, mode, keys, w, False)
    ctx.reach("end")


@harness("C16", "annealing_rule", configs=[dict(mode=m) for m in MODES], expect=("end",), functions=FUNCS,
         bounds="any objective values 0..3 of the two solutions, temperatures 1 and 2, acceptance draws between multiples of 1/1000")
def annealing_rule(ctx):
    mode = ctx.config["mode"]
    f0, f1 = ctx.index("f", 4), ctx.index("f", 4)
    temp = ctx.choice("temp", [1.0, 2.0])
    r = ctx.real("draw", 0, 1, hi_open=True)
    ctx.patch(random, "random", lambda: r)

    class P(Table):
        def __init__(self):
            self.t, self.sense, self.evaluated, self.nobj = {(0, 0): [f0], (1, 0): [f1], (0, 1): [f1], (1, 1): [f1]}, mode, [], 1
    p = P()
    mut = Mut(ctx, p, False)
    params = ParamsObjectiveFunction(ObjectiveHandling.SINGLE, ["o0"], [1], MODES[mode])
    rh = RestartHandler()
    SA.SimulatedAnnealing(p, mut, rh, SA.TemperatureSchedulingFactor(temp, rh, 1.0), ModeMutation.MUTATE, params).solve(Bits([0, 0]), 2)
    loss = (f0 - f1) if mode == "max" else (f1 - f0)
    accepted = mut.seen[1][0] == mut.seen[0][1]
    pr = math.exp(-loss / temp)
    ctx.check(accepted if loss <= 0 else implies(r < pr - 1e-3, accepted), "a worse solution is accepted with the probability of the temperature")
    ctx.check(implies(r > pr + 1e-3, not accepted), "a worse solution is accepted with the probability of the temperature")
    ctx.reach("end")


@harness("C16", "restart_handler", configs=[dict(k=k) for k in (0, 1, 2)], expect=("end", "restarted"), functions=["RestartHandlerLimit"],
         bounds="4 updates with any improvements, asked to restart after any of them")
def restart_handler(ctx):
    k = ctx.config["k"]
    rh = RestartHandlerLimit(k, Bits([0]), -1)
    plain = RestartHandler()
    best, fit, glob, loc = [0], -1, 0, 0
    for i in range(4):
        ig, il = ctx.bool("global"), ctx.bool("local")
        sol = Bits([i])
        for h in (rh, plain):
            h.update(sol, 10 + i, ig, il)
        glob, loc = (0 if ig else glob + 1), (0 if il else loc + 1)
        if ig:
            best, fit = [i], 10 + i
        ctx.check(rh.solution_best.b == best and rh.best_fitness == fit, "best solution so far")
        ctx.check(rh.nb_iteration == plain.nb_iteration == i + 1, "iterations")
        cur = Bits([50 + i])
        s, o = plain.restart(cur, 7)
        ctx.check(s is cur and o == 7, "no restart without a limit")
        if ctx.bool("ask"):
            s, o = rh.restart(cur, 7)
            if glob > k or loc > k:
                glob = loc = 0
                ctx.check(s.b == best and s is not rh.solution_best and o == fit, "restart from the best solution")
                ctx.reach("restarted")
            else:
                ctx.check(s is cur and o == 7, "no restart below the limit")
    ctx.reach("end")


@harness("C16", "restart", configs=[dict(mode=m, k=k, sa=sa) for m in MODES for k in (0, 1) for sa in (False, True)], expect=("end", "restarted"), functions=FUNCS,
         bounds="any objective values of 4 solutions, 3 iterations, restart after 1 or 2 iterations without improvement",
         stubs=["mutation: any bit flip in place", "no worse solution is accepted (annealing: any)"])
def restart(ctx):
    c = ctx.config
    mode = c["mode"]
    ctx.stub_random()
    if ctx.symbolic:
        ctx.patch(SA, "math", ExpStub(ctx))
    p = Table(ctx, 2, mode)
    init = Bits([0, 0])
    mut = Mut(ctx, p, True)
    params = ParamsObjectiveFunction(ObjectiveHandling.SINGLE, ["o0"], [1], MODES[mode])
    rh = RestartHandlerLimit(c["k"], init, p.t[(0, 0)][0])
    if c["sa"]:
        s = SA.SimulatedAnnealing(p, mut, rh, SA.TemperatureSchedulingFactor(1, rh), ModeMutation.MUTATE, params)
    else:
        s = HC.HillClimber(p, mut, rh, ModeMutation.MUTATE, params)
    n = 3
    rs = s.solve(init, n)
    best, cur, glob, loc = (0, 0), (0, 0), 0, 0
    o = lambda k: p.t[k][0]
    for i, (b, a) in enumerate(mut.seen):
        ctx.check(b == cur, "the search goes on from the current solution, or from the best one after a restart")
        if better(mode, o(a), o(cur)):
            loc, nxt = 0, a
        else:
            loc += 1
            nxt = (mut.seen[i + 1][0] if i + 1 < n else cur) if c["sa"] else cur
            if c["sa"] and i + 1 < n and nxt not in (a, cur) :
                nxt = cur
        if better(mode, o(a), o(best)):
            best, glob = a, 0
        else:
            glob += 1
        cur = nxt
        if glob > c["k"] or loc > c["k"]:
            glob = loc = 0
            cur = best
            ctx.reach("restarted")
    check_store(ctx, p, rs, mode, [(0, 0)] + [a for _, a in mut.seen], 1, False)
    ctx.check(tuple(rh.solution_best.b) == best and rh.best_fitness == o(best), "the restart handler knows the best solution")
    ctx.reach("end")


@harness("C16", "hill_climber_pareto", configs=[dict(mode=m, inplace=i, ev=i != (m == "min")) for m in MODES for i in (False, True)],
         expect=("end",), functions=FUNCS, bounds="2 objectives of any value 0..3 of the solutions met, both 1 for the initial one, 2 iterations, every mutation", stubs=["mutation: any bit flip, in place or not"])
def hill_climber_pareto(ctx):
    c = ctx.config
    mode = c["mode"]
    p = Table(ctx, 2, mode, 2, 0, 3)
    p.t[(0, 0)] = [1, 1]
    init = Bits([0, 0])
    mut = Mut(ctx, p, c["inplace"])
    params = ParamsObjectiveFunction(ObjectiveHandling.MULTI_OBJ, ["o0", "o1"], [1, 1], MODES[mode])
    if ctx.symbolic:
        import skdecide.builders.discrete_optimization.generic_tools.do_problem as DP
        ctx.patch(DP.np, "array", lambda x, *a, _r=np.array, **k: _r(x, dtype=object))
    hc = HC.HillClimberPareto(p, mut, RestartHandler(), ModeMutation.MUTATE_AND_EVALUATE if c["ev"] else ModeMutation.MUTATE, params)
    pf = hc.solve(init, 2, update_iteration_pareto=1)
    ctx.check(init.b == [0, 0], "the initial solution is unchanged")
    v = lambda k: p.t[k]
    for s, f in pf.list_solution_fits:
        ctx.check(land(f.vector_fitness[0] == v(tuple(s.b))[0], f.vector_fitness[1] == v(tuple(s.b))[1]), "every stored solution has the fitness of its content")
    keys = [tuple(s.b) for s, _ in pf.list_solution_fits]
    front = [tuple(s.b) for s, _ in pf.paretos]
    ctx.check(keys[0] == (0, 0) and set(keys) <= set([(0, 0)] + [a for _, a in mut.seen]), "solutions met by the search")
    for k in set(keys):
        dom = lor(*[dominates(mode, v(q), v(k)) for q in set(keys) if q != k])
        ctx.check(dom if k not in front else lnot(dom), "the front holds exactly the results no other dominates")
    cur = (0, 0)
    for b, a in mut.seen:
        ctx.check(b == cur, "the search goes on from the last solution that is not worse")
        if lnot(dominates(mode, v(cur), v(a))):
            ctx.check(a in keys, "solutions that are not dominated by the current one are stored")
            cur = a
    ctx.reach("end")


@harness("C16", "reevaluate", configs=[dict(mode=m) for m in MODES], expect=("end",), functions=["ResultComparator.reevaluate_result_storages"],
         bounds="2 storages of up to 2 results of any fitness, 2 test problems with any objectives")
def reevaluate(ctx):
    mode = ctx.config["mode"]
    ctx.patch(builtins, "print", lambda *a, **k: None)

    class Plan(Solution):
        def __init__(self, name):
            self.name, self.problem = name, None

        def copy(self):
            return Plan(self.name)

        def change_problem(self, p):
            self.problem = p

    class Scenario:
        def __init__(self, i, sols):
            self.costs = {s.name: {"x": ctx.int("x", -3, 3), "y": ctx.int("y", -3, 3)} for s in sols}

        def evaluate(self, s):
            ctx.check(s.problem is self, "a result is evaluated on the problem it has been moved to")
            return dict(self.costs[s.name])
    sols = [Plan("p%d" % i) for i in range(3)]
    fits = [ctx.int("fit", -3, 3) for _ in sols]
    sts = [ResultStorage([(s, f) for s, f in zip(sols[:2], fits)], mode_optim=MODES[mode]), ResultStorage([(sols[2], fits[2])], mode_optim=MODES[mode])]
    tests = [Scenario(i, sols) for i in range(2)]
    objs = ctx.choice("objectives", [["x"], ["x", "y"], ["y", "x"]])
    cmp = ResultComparator(sts, ["a", "b"], objs, [1] * len(objs), test_problems=tests)
    ctx.check(sorted(cmp.reevaluated_results) == [0, 1], "every storage is evaluated")
    for i, group in enumerate((sols[:2], sols[2:])):
        best = sts[i].get_best_solution()
        fs = fits[:2] if i == 0 else fits[2:]
        ctx.check(land(*[at_least(mode, fs[group.index(best)], f) for f in fs]), "the best result is evaluated")
        got = cmp.reevaluated_results[i]
        ctx.check(sorted(got) == sorted(objs), "every objective")
        for o in objs:
            ctx.check(len(got[o]) == 2, "on every test problem")
            ctx.check(land(*[lor(*[land(got[o][t] == tests[t].costs[s.name][o], *[at_least(mode, fs[k], f) for f in fs]) for k, s in enumerate(group)])
                             for t in range(2)]), "the objectives of the best result on each test problem")
    ctx.reach("end")
