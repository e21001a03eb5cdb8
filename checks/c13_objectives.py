"""C13: objectives are evaluated, weighted, aggregated and compared as declared."""
import numpy as np

from vsym.registry import harness
from vsym.engine import land, lor, lnot, ite, smax, smin
import skdecide.builders.discrete_optimization.generic_tools.do_problem as DP
from skdecide.builders.discrete_optimization.generic_tools.do_problem import (
    BaseMethodAggregating, EncodingRegister, MethodAggregating, ModeOptim, ObjectiveHandling, ObjectiveRegister,
    ParamsObjectiveFunction, Problem, RobustProblem, Solution, TypeAttribute, TypeObjective,
    build_aggreg_function_and_params_objective, build_evaluate_function_aggregated, get_default_objective_setup)
from skdecide.builders.discrete_optimization.generic_tools.result_storage.multiobj_utils import TupleFitness

FUNCS = ["build_evaluate_function_aggregated", "build_aggreg_function_and_params_objective",
         "get_default_objective_setup", "Problem.evaluate_mobj", "RobustProblem", "TupleFitness", "EncodingRegister",
         "ObjectiveRegister"]


class Sol(Solution):
    def copy(self):
        return Sol()


class Prob(Problem):
    def __init__(self, values, weights, handling, sense):
        self.values, self.weights, self.handling, self.sense = values, weights, handling, sense
        self.asked = []

    def evaluate(self, variable):
        self.asked.append(variable)
        return dict(self.values)

    def satisfy(self, variable):
        return "satisfied"

    def get_attribute_register(self):
        return EncodingRegister({"x": {"name": "x", "type": [TypeAttribute.PERMUTATION]}})

    def get_solution_type(self):
        return Sol

    def get_objective_register(self):
        return ObjectiveRegister(self.sense, self.handling,
                                 {k: {"type": TypeObjective.OBJECTIVE, "default_weight": w} for k, w in self.weights.items()})


NAMES = ["zeta", "alpha", "mid"]


def vec_eq(ctx, fit, want, label):
    ctx.check(isinstance(fit, TupleFitness) and fit.size == len(want) and len(fit.vector_fitness) == len(want), label)
    ctx.check(land(*[a == b for a, b in zip(fit.vector_fitness, want)]), label)


@harness("C13", "aggregation", configs=[dict(h=h.name, p=p) for h in ObjectiveHandling for p in (False, True)], expect=("end",),
         functions=FUNCS, bounds="1..3 objectives of arbitrary integer values -9..9 and weights -5..5, default or given "
                                 "parameters (objectives in any order or a part of them), both senses")
def aggregation(ctx):
    h = ObjectiveHandling[ctx.config["h"]]
    n = 1 + ctx.index("n", 3)
    names = NAMES[:n]
    vals = {k: ctx.int("v_" + k, -9, 9) for k in names}
    ws = {k: ctx.int("w_" + k, -5, 5) for k in names}
    sense = ctx.choice("sense", list(ModeOptim))
    other = {k: 3 for k in vals}
    if ctx.config["p"]:
        prob = Prob(vals, {k: 7 for k in names}, ctx.choice("registered", list(ObjectiveHandling)),
                    ctx.choice("registered sense", list(ModeOptim)))
        objs = [o for o in ctx.permutation("objs", names)]
        objs = objs[:1 + ctx.index("m", n)]
        params = ParamsObjectiveFunction(h, objs, [ws[o] for o in objs], sense)
        f, g, p = build_aggreg_function_and_params_objective(prob, params)
        ctx.check(p is params, "given parameters are kept")
    else:
        prob = Prob(vals, ws, h, sense)
        objs = names
        f, g, p = build_aggreg_function_and_params_objective(prob)
        ctx.check(p.objective_handling == h and p.sense_function == sense and list(p.objectives) == names
                  and land(*[a == ws[k] for a, k in zip(p.weights, names)]), "default set-up is what the problem registers")
        d = get_default_objective_setup(prob)
        ctx.check(d.sense_function == sense and list(d.objectives) == names, "default set-up")
    sol = Sol()
    r = f(sol)
    ctx.check(len(prob.asked) == 1 and prob.asked[0] is sol, "the solution is evaluated once")
    q = g({k: vals[k] for k in reversed(names)})
    if h == ObjectiveHandling.MULTI_OBJ:
        want = [ws[o] * vals[o] for o in objs]
        vec_eq(ctx, r, want, "vector of weighted objectives")
        vec_eq(ctx, q, want, "vector of weighted objectives from values")
    else:
        want = ws[objs[0]] * vals[objs[0]] if h == ObjectiveHandling.SINGLE else sum(ws[o] * vals[o] for o in objs)
        ctx.check(r == want, "weighted objective")
        ctx.check(q == want, "weighted objective from values")
    f2, g2 = build_evaluate_function_aggregated(prob, p)
    ctx.check(len(prob.asked) == 1, "building evaluates nothing")
    m, m2 = prob.evaluate_mobj(sol), prob.evaluate_mobj_from_dict({k: vals[k] for k in reversed(names)})
    mo = sorted(names)
    vec_eq(ctx, m, [vals[k] for k in mo], "multi-objective evaluation lists the objectives by name")
    vec_eq(ctx, m2, [vals[k] for k in mo], "multi-objective evaluation lists the objectives by name")
    reg = prob.get_attribute_register()
    ctx.check(reg.get_types() == [TypeAttribute.PERMUTATION], "types of the encodings")
    ctx.reach("end")


@harness("C13", "robust", configs=[dict(m=m.name) for m in BaseMethodAggregating], expect=("end",), functions=FUNCS,
         bounds="1..3 scenarios (4 thorough for the mean, extrema and ponderation), 2 objectives of values -9..9, any integer weights, percentiles 0, 25, 50, 90, 100")
def robust(ctx):
    m = BaseMethodAggregating[ctx.config["m"]]
    n = 1 + ctx.index("n", 3)
    vals = [{"a": ctx.int("a", -9, 9), "b": ctx.int("b", -9, 9)} for _ in range(n)]
    probs = [Prob(v, {"a": 1, "b": 1}, ObjectiveHandling.AGGREGATE, ModeOptim.MAXIMIZATION) for v in vals]
    pond = [ctx.int("p", -3, 3) for _ in range(n)]
    q = ctx.choice("q", [0, 25, 50, 90, 100]) if m == BaseMethodAggregating.PERCENTILE else 90.0
    rp = RobustProblem(probs, MethodAggregating(m, percentile=q, ponderation=np.array(pond, dtype=object if ctx.symbolic else None)))
    sol = Sol()
    r = rp.evaluate(sol)
    ctx.check(sorted(r) == ["a", "b"], "same objectives")
    ctx.check(all(len(p.asked) == 1 and p.asked[0] is sol for p in probs), "the solution is evaluated once per scenario")
    for k in ("a", "b"):
        xs = [v[k] for v in vals]
        got = r[k]
        if m == BaseMethodAggregating.MEAN:
            ctx.check(got * n == sum(xs) if ctx.symbolic else abs(got * n - sum(xs)) < 1e-9, "mean over scenarios")
        elif m == BaseMethodAggregating.MIN:
            ctx.check(got == smin(xs), "worst value")
        elif m == BaseMethodAggregating.MAX:
            ctx.check(got == smax(xs), "largest value")
        elif m == BaseMethodAggregating.PONDERATION:
            ctx.check(got == sum(p * x for p, x in zip(pond, xs)), "weighted sum over scenarios")
        else:
            qq = 50 if m == BaseMethodAggregating.MEDIAN else q
            # linear interpolation between order statistics, written with exact fractions
            xs = sorted(xs)
            pos = qq * (n - 1)
            lo, rest = pos // 100, pos % 100
            hi = min(lo + 1, n - 1)
            want100 = xs[lo] * (100 - rest) + xs[hi] * rest
            d = got * 100 - want100
            ctx.check(land(d <= 1e-6, d >= -1e-6), "percentile over scenarios")
    ctx.check(rp.satisfy(sol) == "satisfied" and rp.get_solution_type() is Sol, "delegated to the first scenario")
    ctx.check(rp.get_objective_register().objective_sense == ModeOptim.MAXIMIZATION
              and rp.get_attribute_register().get_types() == [TypeAttribute.PERMUTATION], "registers of the first scenario")
    ctx.reach("end")


@harness("C13", "pareto_order", configs=[dict(n=n) for n in (1, 2, 3)], expect=("dominates", "incomparable", "same"),
         functions=FUNCS, bounds="vectors of 1..3 integers in 0..9, factors -3..3")
def pareto_order(ctx):
    n = ctx.config["n"]
    x, y = ctx.ints("x", n, 0, 9), ctx.ints("y", n, 0, 9)
    dt = object if ctx.symbolic else None
    a, b = TupleFitness(np.array(x, dtype=dt), n), TupleFitness(np.array(y, dtype=dt), n)
    same = land(*[p == q for p, q in zip(x, y)])
    ge, le = land(*[p >= q for p, q in zip(x, y)]), land(*[p <= q for p, q in zip(x, y)])
    gt, lt = land(ge, lnot(same)), land(le, lnot(same))
    ctx.check(bool(a > b) == gt, "greater: at least as large everywhere and larger somewhere")
    ctx.check(bool(a < b) == lt, "smaller: at most as large everywhere and smaller somewhere")
    ctx.check(bool(a == b) == land(lnot(gt), lnot(lt)), "equivalent: neither dominates")
    ctx.check(bool(a >= b) == lnot(lt), "not dominated")
    ctx.check(bool(a <= b) == lnot(gt), "does not dominate")
    k = ctx.int("k", -3, 3)
    c = a * k
    ctx.check(c.size == n and land(*[u == k * v for u, v in zip(c.vector_fitness, x)]), "scaling")
    ctx.check(land(*[u == v for u, v in zip(a.vector_fitness, x)]), "scaling leaves the operand unchanged")
    if gt:
        ctx.reach("dominates")
    elif lt:
        ctx.reach("dominates")
    elif same:
        ctx.reach("same")
        if n == 1:
            ctx.reach("incomparable")
    else:
        ctx.reach("incomparable")
