"""C25: tours of a travelling salesman, their legs, moves and solvers."""
import math
import os
import tempfile

import numpy as np

from vsym.registry import harness
from vsym.engine import land, lor, lnot
from skdecide.builders.discrete_optimization.generic_tools.do_problem import get_default_objective_setup, ModeOptim, TypeAttribute
from skdecide.builders.discrete_optimization.generic_tools.mutations import permutation_mutations as PM
from skdecide.builders.discrete_optimization.generic_tools.mutations.mutation_catalog import get_available_mutations
from skdecide.builders.discrete_optimization.tsp import tsp_model as TM, common_tools_tsp as TC, tsp_parser as TP
from skdecide.builders.discrete_optimization.tsp.mutation import mutation_tsp as MT
from skdecide.builders.discrete_optimization.tsp.solver import solver_ortools as SO

FUNCS = ["SolutionTSP", "TSPModel", "TSPModel2D", "compute_length", "compute_length_np", "Mutation2Opt", "Mutation2OptIntersection", "SwapTSPMove", "MutationSwapTSP",
         "find_intersection", "TSP_ORtools", "common_tools_tsp", "parse_file"]
ROOT = ["square roots are the identity (legs are compared as squared distances)"]


class Shim:
    """a module whose square roots are the identity and whose arrays of zeros can hold symbolic values"""

    def __init__(self, m):
        self.m = m

    def __getattr__(self, k):
        return getattr(self.m, k)

    def sqrt(self, x):
        return x

    def zeros(self, shape, *a, **k):
        return np.zeros(shape, dtype=object)


def stubs(ctx):
    ctx.patch(TM, "math", Shim(math))
    ctx.patch(TM, "np", Shim(np))
    ctx.patch(TC, "np", Shim(np))
    ctx.patch(TC, "print", lambda *a: None)
    ctx.patch(SO, "print", lambda *a: None)


class Inst:
    def __init__(self, ctx, n, start, end, numba, hi=3, ys=True):
        self.n = n
        self.start, self.end = start or 0, end or 0
        self.pts = [TM.Point2D(ctx.int("x%d" % k, 0, hi), ctx.int("y%d" % k, 0, hi) if ys else k % 2) for k in range(n)]
        self.model = TM.TSPModel2D(list(self.pts), n, start, end, use_numba=numba)
        self.others = [k for k in range(n) if k not in (self.start, self.end)]

    def d(self, a, b):
        return (self.pts[a].x - self.pts[b].x) * (self.pts[a].x - self.pts[b].x) + (self.pts[a].y - self.pts[b].y) * (self.pts[a].y - self.pts[b].y)

    def legs(self, perm):
        t = [self.start] + list(perm) + [self.end]
        return [self.d(a, b) for a, b in zip(t, t[1:])]

    def check(self, ctx, s, perm=None):
        """the solution is a tour and knows its legs"""
        if perm is not None:
            ctx.check(list(s.permutation) == list(perm), "the tour visits the points in the given order")
        ctx.check(sorted(s.permutation) == self.others, "every point is visited once")
        legs = self.legs(s.permutation)
        ctx.check(len(s.lengths) == len(legs), "a length per leg")
        ctx.check(land(*[a == b for a, b in zip(s.lengths, legs)]), "each leg has its length")
        ctx.check(s.length == sum(legs), "the length is the sum of the legs")
        ctx.check(list(s.permutation_from0) == [self.others.index(k) for k in s.permutation], "both encodings are the same tour")
        ctx.check(self.model.satisfy(s) is True, "a tour satisfies the problem")


ENDS = [(0, 0), (None, None), (0, 3), (2, 2), (3, 1)]


@harness("C25", "tours", configs=lambda tier: [dict(n=n, ends=e, numba=b) for n in (3, 4, 5) for e in ENDS for b in (True, False)
                                                   if max(e[0] or 0, e[1] or 0) < n and (n < 5 or e[0] != e[1] or tier == "thorough")],
         expect=("tour",), functions=FUNCS, bounds="3 or 4 points (5 for open tours) at any integer coordinates 0..3, closed and open tours, both implementations, every order", stubs=ROOT)
def tours(ctx):
    c = ctx.config
    stubs(ctx)
    i = Inst(ctx, c["n"], *c["ends"], c["numba"])
    p = i.model
    perm = ctx.permutation("order", i.others)
    enc = ctx.choice("given as", ("permutation", "permutation_from0"))
    vec = list(perm) if enc == "permutation" else [i.others.index(k) for k in perm]
    s = TM.SolutionTSP(problem=p, **{enc: list(vec)})
    i.check(ctx, s, perm)
    ctx.check(s.start_index == i.start and s.end_index == i.end, "start and end are those of the problem")
    total = sum(i.legs(perm))
    ctx.check(p.evaluate(s)["length"] == total, "the objective is the length of the tour")
    ctx.check(set(p.evaluate(s)) == {"length"}, "the length is the objective")
    ctx.check(p.evaluate_from_encoding(list(vec), enc)["length"] == total, "an encoding is evaluated as its tour")
    cp, lz = s.copy(), s.lazy_copy()
    i.check(ctx, cp, perm)
    i.check(ctx, lz, perm)
    cp.permutation.reverse()
    cp.lengths[0] = -1
    i.check(ctx, s, perm)
    i.check(ctx, p.get_dummy_solution(), i.others)
    rev = list(vec)[::-1]
    setattr(s, enc, rev)
    ctx.check(p.evaluate(s)["length"] == sum(i.legs(perm[::-1])), "evaluation follows a changed encoding")
    i.check(ctx, s, perm[::-1])
    a, b = ctx.index("a", p.node_count), ctx.index("b", p.node_count)
    ctx.check(p.evaluate_function_indexes(a, b) == i.d(a, b), "distance between two points")
    moved = TM.TSPModel2D([TM.Point2D(q.x * 2, q.y * 2) for q in i.pts], c["n"], *c["ends"], use_numba=c["numba"])
    s.change_problem(moved)
    ctx.check(s.length == 4 * sum(i.legs(perm[::-1])), "a solution moved to another problem has its length there")
    agg, aggd, params = SO.build_aggreg_function_and_params_objective(p)
    ctx.check(land(agg(TM.SolutionTSP(problem=p, permutation=list(perm))) == total, params.sense_function is ModeOptim.MINIMIZATION), "the shorter the better")
    reg = p.get_attribute_register().dict_attribute_to_type
    for k in ("permutation", "permutation_from0"):
        ctx.check(sorted(reg[k]["range"]) == sorted(getattr(s, k)) and reg[k]["n"] == len(i.others), "declared ranges of the encodings")
    ctx.reach("tour")


@harness("C25", "not tours", configs=[dict(ends=e) for e in ((0, 0), (0, 3), (2, 2))], expect=("tour", "no tour"), functions=FUNCS,
         bounds="4 points, every list of 1 to 3 indexes", stubs=ROOT)
def not_tours(ctx):
    stubs(ctx)
    p = TM.TSPModel2D([TM.Point2D(k, k) for k in range(4)], 4, *ctx.config["ends"])
    others = [k for k in range(4) if k not in ctx.config["ends"]]
    perm = [ctx.index("at%d" % k, 4) for k in range(1 + ctx.index("size", 3))]
    s = TM.SolutionTSP(problem=p, permutation=list(others))
    s.permutation = perm
    good = sorted(perm) == others
    ctx.check(p.satisfy(s) is good, "satisfying exactly when every other point is visited once")
    ctx.reach("tour" if good else "no tour")


MOVES = {"2opt all": lambda p, s: MT.Mutation2Opt.build(p, s, test_all=True),
         "2opt": lambda p, s: MT.Mutation2Opt.build(p, s, nb_test=2),
         "2opt one": lambda p, s: MT.Mutation2Opt.build(p, s),
         "2opt better": lambda p, s: MT.Mutation2Opt.build(p, s, test_all=True, return_only_improvement=True),
         "2opt one better": lambda p, s: MT.Mutation2Opt.build(p, s, nb_test=1, return_only_improvement=True),
         "crossings": lambda p, s: MT.Mutation2OptIntersection.build(p, s),
         "crossings better": lambda p, s: MT.Mutation2OptIntersection.build(p, s, return_only_improvement=True),
         "swap": lambda p, s: MT.MutationSwapTSP.build(p, s),
         "any swap": lambda p, s: PM.PermutationSwap.build(p, s),
         "any swap named": lambda p, s: PM.PermutationSwap.build(p, s, attribute="permutation", nb_swap=2),
         "any 2opt": lambda p, s: PM.TwoOptMutation.build(p, s),
         "any shuffle": lambda p, s: PM.PermutationShuffleMutation.build(p, s)}
KIND = {"2opt": MT.Mutation2Opt, "2opt_interection": MT.Mutation2OptIntersection, "swap_tsp": MT.MutationSwapTSP}


@harness("C25", "moves", configs=[dict(m=m, n=n, ends=e, numba=b) for m in MOVES for n, e in ((4, (0, 0)), (4, (0, 3)), (5, (1, 3)), (5, (0, 0))) for b in (False, True)
                                  if (not b or n == 4 and e == (0, 0)) and (e != (0, 0) or n == 4 or "shuffle" not in m) and not ("crossings" in m and (n == 5 and e[0] == e[1]))],
         expect=("moved", "kept"), functions=FUNCS, bounds="4 or 5 points at any coordinates x in 0..3, y fixed; every order, every random draw", stubs=ROOT)
def moves(ctx):
    c = ctx.config
    stubs(ctx)
    ctx.stub_random()
    i = Inst(ctx, c["n"], *c["ends"], c["numba"], ys=False)
    p = i.model
    perm = list(i.others)[::ctx.choice("way", (1, -1))]
    s = TM.SolutionTSP(problem=p, permutation=list(perm))
    m = MOVES[c["m"]](p, s)
    before = sum(i.legs(perm))
    if ctx.bool("with objectives"):
        new, move, obj = m.mutate_and_compute_obj(s)
        ctx.check(obj["length"] == sum(i.legs(new.permutation)), "objectives reported are those of the new tour")
        i.check(ctx, new)
    else:
        new, move = m.mutate(s)
    q = list(new.permutation)
    now = sum(i.legs(q))
    ctx.check(sorted(q) == i.others, "every point is visited once")
    if "2opt" in c["m"] or "crossings" in c["m"]:
        rev = [perm[:a] + perm[a:b + 1][::-1] + perm[b + 1:] for a in range(len(perm)) for b in range(a + 1, len(perm))]
        ctx.check(q in rev or ("better" in c["m"] or "crossings" in c["m"]) and q == perm, "a part of the tour is reversed")
        if c["m"].startswith("2opt all"):
            ctx.check(land(*[now <= sum(i.legs(r)) for r in rev]), "the best reversal is taken")
        if c["m"] == "2opt better":
            ctx.check(lor(now < before, land(q == perm, *[before <= sum(i.legs(r)) for r in rev])), "the tour is kept only when no reversal improves it")
    if "swap" in c["m"] and "named" not in c["m"]:
        ctx.check(sum(1 for a, b in zip(q, perm) if a != b) in ((2,) if c["m"] == "swap" else (0, 2)), "two points are exchanged")
    if "better" in c["m"]:
        ctx.check(now <= before, "only improvements are returned")
    if not c["m"].startswith("any"):
        i.check(ctx, new, q)
    if new is not s:
        i.check(ctx, s, perm) if not c["m"].startswith("any") else ctx.check(list(s.permutation) == perm, "another solution leaves the first one unchanged")
    back = move.backtrack_local_move(new)
    ctx.check(list(back.permutation) == perm, "backtracking gives the tour before the move")
    ctx.check(p.evaluate(back)["length"] == before, "backtracking gives the length before the move")
    if not c["m"].startswith("any"):
        i.check(ctx, back, perm)
    again = move.apply_local_move(back)
    ctx.check(list(again.permutation) == q, "applying the move again gives the mutated tour")
    ctx.reach("moved" if q != perm else "kept")


@harness("C25", "crossings", configs=[dict(ends=e, all=b) for e in ((0, 0), (1, 2)) for b in (True, False)], expect=("crossing", "none"), functions=FUNCS,
         bounds="6 points, four of them at any coordinates 0..2, every random draw", stubs=ROOT)
def crossings(ctx):
    stubs(ctx)
    ctx.stub_random()
    e = ctx.config["ends"]
    inner = [k for k in range(6) if k not in e][:4]
    pts = [TM.Point2D(ctx.int("x%d" % k, 0, 2), ctx.int("y%d" % k, 0, 2)) if k in inner else TM.Point2D(9, k) for k in range(6)]
    p = TM.TSPModel2D(pts, 6, *e, use_numba=False)
    perm = [k for k in range(6) if k not in e]
    s = TM.SolutionTSP(problem=p, permutation=list(perm))
    got = MT.find_intersection(s, pts, test_all=ctx.config["all"], nb_tests=2)

    def side(a, b, c):
        v = (c.y - a.y) * (b.x - a.x) - (b.y - a.y) * (c.x - a.x)
        return v

    def cross(a, b, c, d):
        """proper crossing of the segments a-b and c-d"""
        s1, s2, s3, s4 = side(a, c, d), side(b, c, d), side(a, b, c), side(a, b, d)
        return land(lor(land(s1 > 0, s2 < 0), land(s1 < 0, s2 > 0)), lor(land(s3 > 0, s4 < 0), land(s3 < 0, s4 > 0)))

    def touch(a, b, c, d):
        s1, s2, s3, s4 = side(a, c, d), side(b, c, d), side(a, b, c), side(a, b, d)
        return lor(s1 == 0, s2 == 0, s3 == 0, s4 == 0)
    found = set()
    for ii, jj in got:
        a, b, c, d = [pts[perm[k]] for k in (ii - 1, ii, jj, jj + 1)]
        ctx.check(lor(cross(a, b, c, d), touch(a, b, c, d)), "only legs which cross are reported")
        found.add((ii, jj))
    if ctx.config["all"]:
        for ii in range(1, len(perm)):
            for jj in range(ii + 1, len(perm) - 1):
                if (ii, jj) not in found:
                    a, b, c, d = [pts[perm[k]] for k in (ii - 1, ii, jj, jj + 1)]
                    ctx.check(lnot(cross(a, b, c, d)), "every crossing of two legs is reported")
    ctx.reach("crossing" if got else "none")


@harness("C25", "tools", configs=[dict(n=n) for n in (2, 3, 4)], expect=("end",), functions=FUNCS, bounds="2 to 4 points, coordinates 0..3, every order", stubs=ROOT)
def tools(ctx):
    stubs(ctx)
    n = ctx.config["n"]
    pts = [TM.Point2D(ctx.int("x%d" % k, 0, 3), k % 2) for k in range(n)]

    def d(a, b):
        return (pts[a].x - pts[b].x) * (pts[a].x - pts[b].x) + (pts[a].y - pts[b].y) * (pts[a].y - pts[b].y)
    perm = ctx.permutation("order", list(range(n)))
    legs = [d(a, b) for a, b in zip(perm, perm[1:] + perm[:1])]
    lengths, obj = TC.compute_length(perm, pts, n)
    ctx.check(land(obj == sum(legs), len(lengths) == n, *[a == b for a, b in zip(lengths, legs)]), "legs of a closed tour")
    sol, length, _ = TC.baseline_in_order(n, pts)
    ctx.check(land(list(sol) == list(range(n)), length == sum(d(k, (k + 1) % n) for k in range(n))), "the tour in order and its length")
    m = TC.build_matrice_distance(n, pts)
    m2 = TC.build_matrice_distance(n, pts, method=lambda i, j: 10 * min(i, j) + max(i, j))
    ctx.check(land(*[m[a, b] == (0 if a == b else d(a, b)) for a in range(n) for b in range(n)]), "the matrix of the distances")
    ctx.check(land(*[m2[a, b] == (0 if a == b else 10 * min(a, b) + max(a, b)) for a in range(n) for b in range(n)]), "the matrix of the given distance")
    ctx.check(TC.length_1(pts[0], pts[1]) == abs(pts[0].x - pts[1].x) + 1, "distance along the axes")
    ctx.reach("end")


@harness("C25", "greedy", configs=[dict(n=n) for n in (2, 3, 4)], expect=("end",), functions=FUNCS, bounds="2 to 4 points of coordinates 0..2", stubs=ROOT)
def greedy(ctx):
    stubs(ctx)
    n = ctx.config["n"]
    pts = [TM.Point2D(ctx.index("x%d" % k, 3), ctx.index("y%d" % k, 2) if k < 3 else 1) for k in range(n)]
    sol, length, _ = TC.closest_greedy(n, pts)
    sol = [int(k) for k in sol]
    ctx.check(sorted(sol) == list(range(n)) and sol[0] == 0, "every point is visited once, from the first one")
    ctx.check(length == sum((pts[a].x - pts[b].x) ** 2 + (pts[a].y - pts[b].y) ** 2 for a, b in zip(sol, sol[1:] + sol[:1])), "the length of the tour")
    for k in range(1, n):
        near = [abs(pts[sol[k - 1]].x - pts[j].x) + abs(pts[sol[k - 1]].y - pts[j].y) for j in sol[k:]]
        ctx.check(near[0] == min(near), "the closest point is visited next")
    ctx.reach("end")


@harness("C25", "files", configs=[dict(n=3)], expect=("end",), functions=FUNCS, bounds="files of 3 points, quarter coordinates")
def files(ctx):
    n = ctx.config["n"]
    xs = [ctx.index("x%d" % k, 3) / 4 for k in range(n)]
    ys = [k + (0.5 if ctx.bool("half%d" % k) else 0) for k in range(n)]
    text = "%d\n" % n + "\n".join("%s %s" % (x, y) for x, y in zip(xs, ys)) + "\n"
    ends = ctx.choice("ends", ((None, None), (0, 2), (1, 1)))
    fd, path = tempfile.mkstemp()
    try:
        os.write(fd, text.encode())
        os.close(fd)
        p = TP.parse_file(path, *ends)
    finally:
        os.unlink(path)
    want = list(zip(xs, ys))
    ctx.check([(q.x, q.y) for q in p.list_points] == want and p.node_count == n, "the points of the file")
    ctx.check((p.start_index, p.end_index) == (ends[0] or 0, ends[1] or 0), "the given ends")
    k, pts = TC.parse(text)
    ctx.check(k == n and [(q.x, q.y) for q in pts] == want, "the points of the text")
    s = p.get_dummy_solution()
    t = [p.start_index] + list(s.permutation) + [p.end_index]
    ctx.check(abs(s.length - sum(math.dist(want[a], want[b]) for a, b in zip(t, t[1:]))) < 1e-9, "Euclidean length of the tour")
    ctx.reach("end")


class Routing:
    """stand-in of the ortools routing library: any route is a solution; it records the costs it is given"""

    def __init__(self, ctx, n):
        self.ctx, self.size = ctx, n

    def RoutingIndexManager(self, n, vehicles, starts, ends):
        assert vehicles == 1
        self.n, self.start, self.end = n, starts[0], ends[0]
        others = [k for k in range(n) if k not in (self.start, self.end)]
        self.node = [self.start] + others + [self.end]
        self.others = others
        return self

    def IndexToNode(self, k):
        return self.node[k]

    def RoutingModel(self, manager):
        assert manager is self
        return self

    def RegisterTransitCallback(self, f):
        self.f = f
        return 7

    def SetArcCostEvaluatorOfAllVehicles(self, k):
        assert k == 7
        self.cost = {(a, b): self.f(a, b) for a in range(len(self.node)) for b in range(len(self.node))}

    def DefaultRoutingSearchParameters(self):
        import types
        return types.SimpleNamespace(time_limit=types.SimpleNamespace(seconds=0))

    def SolveWithParameters(self, params):
        self.route = [0] + self.ctx.permutation("route", list(range(1, len(self.node) - 1))) + [len(self.node) - 1]
        return self

    def ObjectiveValue(self):
        return 0

    def Start(self, v):
        return 0

    def IsEnd(self, k):
        return k == len(self.node) - 1

    def NextVar(self, k):
        return k

    def Value(self, k):
        return self.route[self.route.index(k) + 1]

    def GetArcCostForVehicle(self, a, b, v):
        return self.cost[(a, b)]


@harness("C25", "ortools", configs=[dict(n=n, ends=e) for n in (3, 4) for e in ((0, 0), (0, 2), (1, 1))], expect=("end",), functions=FUNCS,
         bounds="3 or 4 points of half coordinates, every route the routing library may return", stubs=["ortools routing returns any route"])
def ortools(ctx):
    n, e = ctx.config["n"], ctx.config["ends"]
    pts = [TM.Point2D(ctx.index("x%d" % k, 3) / 2 if k < 3 else 2.25, [0, 1.5, 0.5, 3][k]) for k in range(n)]
    p = TM.TSPModel2D(pts, n, *e, use_numba=False)
    r = Routing(ctx, n)
    ctx.patch(SO, "pywrapcp", r)
    params = get_default_objective_setup(p)
    solver = SO.TSP_ORtools(p, params)
    solver.init_model()
    res = solver.solve()
    for (a, b), cst in r.cost.items():
        true = 10 ** 6 * math.dist(pts[r.node[a]], pts[r.node[b]])
        ctx.check(abs(cst - true) <= 1, "the costs given to the routing library are the distances")
    ctx.check((r.start, r.end, r.n) == (e[0], e[1], n), "the problem given to the routing library")
    (s, fit), = res.list_solution_fits
    tour = [r.node[k] for k in r.route]
    ctx.check(list(s.permutation) == tour[1:-1], "the tour is the route found")
    ctx.check(abs(s.length - sum(math.dist(pts[a], pts[b]) for a, b in zip(tour, tour[1:]))) < 1e-9 and abs(fit - s.length) < 1e-9 and res.mode_optim is ModeOptim.MINIMIZATION, "the fitness of the tour")
    ctx.reach("end")


@harness("C25", "catalog", configs=[dict(n=4)], expect=("end",), functions=FUNCS, bounds="every mutation the catalog gives for a tour of 4 points, every random draw", stubs=ROOT)
def catalog(ctx):
    stubs(ctx)
    ctx.stub_random()
    i = Inst(ctx, 4, 0, 3, False, ys=False)
    p = i.model
    s = p.get_dummy_solution()
    mutations, listed = get_available_mutations(p, s, verbose=False)
    ctx.check(set(mutations) == {TypeAttribute.PERMUTATION, TypeAttribute.PERMUTATION_TSP}, "the kinds of encodings of the problem")
    ctx.check(len(listed) == sum(len(v) for v in mutations.values()), "every mutation is listed")
    cls, kw = ctx.choice("mutation", listed)
    for k, v in mutations[TypeAttribute.PERMUTATION_TSP].items():
        ctx.check(v[0] is KIND[k], "the mutations are those named")
    m = cls.build(p, s, **kw)
    new, move, obj = m.mutate_and_compute_obj(s)
    ctx.check(obj["length"] == sum(i.legs(new.permutation)), "objectives reported are those of the new tour")
    i.check(ctx, new)
    ctx.check(list(move.backtrack_local_move(new).permutation) == i.others, "backtracking gives the tour before the move")
    ctx.reach("end")
