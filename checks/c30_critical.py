"""C30: critical-path dates are exact, and learned priority rules schedule projects by what they compute."""
import itertools

from vsym.registry import harness
from vsym.engine import land, lor, lnot, ite, smax as _smax, smin as _smin
from checks import milp  # noqa: stand-ins of the libraries that are not installed
from checks.c24_rcpsp import Inst as Single, symbolic_arrays
from checks.c29_binding import domain
from skdecide.builders.discrete_optimization.rcpsp import rcpsp_model as RM
from skdecide.builders.discrete_optimization.rcpsp.solver import cpm as CP
from skdecide.builders.scheduling.scheduling_domains_modelling import SchedulingActionEnum as A
from skdecide.hub.solver.gphh import gphh as G
from skdecide.hub.solver.sgs_policies.sgs_policies import BasePolicyMethod as B
from deap import gp
from deap.base import Toolbox



def smax(*v):
    return _smax(list(v))


def smin(*v):
    return _smin(list(v))


FUNCS = ["CPM.run_classic_cpm", "CPM.return_order_cpm", "CPM.run_sgs_on_order", "CPM.get_first_time_to_do_one_task", "CPM.run_sgs_time_loop"]


class Net:
    """a project of n real tasks between a source (1) and a sink (n+2), with arbitrary precedences"""

    def __init__(self, ctx, n, modes=1, dmax=3):
        self.tasks, self.sink = list(range(1, n + 3)), n + 2
        real = self.tasks[1:-1]
        self.succ = {t: [] for t in self.tasks}
        rename = list(ctx.choice("rank", [real, real[::-1], real[1:] + real[:1]][:n])) if n <= 3 else real  # precedences need not follow the numbers
        for a in range(n):
            for b in range(a + 1, n):
                if ctx.bool("edge%d_%d" % (a, b)):
                    self.succ[rename[a]].append(rename[b])
        for t in real:
            if not self.succ[t] or (t == rename[0] and ctx.bool("also_sink%d" % t)):
                self.succ[t].append(self.sink)
        into = {b for t in real for b in self.succ[t]}
        self.succ[1] = [t for t in real if t not in into or (t == rename[-1] and ctx.bool("also_source%d" % t))]
        if ctx.bool("direct"):
            self.succ[1].append(self.sink)
        if not real and not self.succ[1]:
            self.succ[1] = [self.sink]
        self.pred = {t: [p for p in self.tasks if t in self.succ[p]] for t in self.tasks}
        self.dur = {t: {m: ctx.int("dur%d_%d" % (t, m), 0, dmax) if t in real else 0 for m in range(1, (modes if t in real else 1) + 1)} for t in self.tasks}
        self.least = {t: smin(*self.dur[t].values()) if len(self.dur[t]) > 1 else self.dur[t][1] for t in self.tasks}

    def model(self):
        cls = RM.MultiModeRCPSPModel if any(len(v) > 1 for v in self.dur.values()) else RM.SingleModeRCPSPModel
        return cls(resources={"R": 3}, non_renewable_resources=[], mode_details={t: {m: {"R": 0, "duration": d} for m, d in v.items()} for t, v in self.dur.items()},
                   successors={t: list(v) for t, v in self.succ.items()}, horizon=99)

    def early(self):
        out = {}
        todo = list(self.tasks)
        while todo:
            t = next(x for x in todo if all(p in out for p in self.pred[x]))
            out[t] = smax(0, *[out[p] + self.least[p] for p in self.pred[t]]) if self.pred[t] else 0
            todo.remove(t)
        return out

    def late(self, end):
        """the latest finish dates"""
        out = {}
        todo = list(self.tasks)
        while todo:
            t = next(x for x in todo if all(s in out for s in self.succ[x]))
            out[t] = smin(*[out[s] - self.least[s] for s in self.succ[t]], end) if self.succ[t] else end
            todo.remove(t)
        return out


@harness("C30", "dates", configs=lambda tier: [dict(n=n, modes=m) for n, m in ((1, 2), (2, 1), (2, 2), (3, 1)) + (((4, 1),) if tier != "quick" else ())], expect=("end", "slack"), functions=FUNCS,
         bounds="1 to 3 (thorough: 4) tasks between a source and a sink, every precedence graph, durations 0..3 (0..2 with 3 tasks), up to 2 modes")
def dates(ctx):
    c = ctx.config
    net = Net(ctx, c["n"], c["modes"], 3 if c["n"] < 3 else 2)
    solver = CP.CPM(net.model())
    path = solver.run_classic_cpm()
    es = net.early()
    end = es[net.sink]
    lf = net.late(end)
    ctx.check(set(solver.map_node) == set(net.tasks), "a record per task")
    for t in net.tasks:
        o, d = solver.map_node[t], net.least[t]
        ctx.check(land(o._ESD == es[t], o._EFD == es[t] + d), "earliest dates are the longest chain of predecessors")
        ctx.check(land(o._LFD == lf[t], o._LSD == lf[t] - d), "latest dates do not delay the end of the project")
        if t != net.sink and c["n"] > 1 and o._LSD > o._ESD:
            ctx.reach("slack")
    if c["n"] == 1:
        ctx.reach("slack")
    ctx.check(path[0] == 1 and path[-1] == net.sink, "the critical path goes from the source to the sink")
    ctx.check(all(b in net.succ[a] for a, b in zip(path, path[1:])), "the critical path follows precedences")
    ctx.check(land(*[solver.map_node[t]._ESD == solver.map_node[t]._LSD for t in path]), "no slack on the critical path")
    ctx.check(sum((net.least[t] for t in path), 0) == end, "the durations of the critical path make the length of the project")
    order = solver.return_order_cpm()
    ctx.check(sorted(order) == net.tasks, "the order is over all tasks")
    key = lambda t: (es[t], lf[t] - net.least[t])
    for a, b in zip(order, order[1:]):
        ctx.check(lor(key(a)[0] < key(b)[0], land(key(a)[0] == key(b)[0], key(a)[1] <= key(b)[1])), "the order is by earliest then latest start")
    ctx.reach("end")


def quiet(ctx):
    ctx.patch(CP, "print", lambda *a: None)
    symbolic_arrays(ctx)


class Plain:
    """numpy whose filled arrays can hold symbolic values"""

    def __getattr__(self, k):
        return getattr(CP_NP, k)

    def full(self, n, v, dtype=None):
        return CP_NP.full(n, v, dtype=object)


CP_NP = CP.np


def times(sched):
    return {t: (v["start_time"], v["end_time"]) for t, v in sched.items()}


def same(a, b):
    return set(a) == set(b) and land(*[land(a[t][0] == b[t][0], a[t][1] == b[t][1]) for t in a])


def instance(ctx, shape, cal, horizon, dmax=2, res=("R1",)):
    i = Single(ctx, shape, horizon=horizon, cal=cal, dmax=dmax, cmin=1, res=res)
    return i


@harness("C30", "order", configs=[dict(shape=s, cal=k, cut=u) for s in ("free2", "chain2") for k in (False, True) for u in (False, True)] +
         [dict(shape=s, cal=False, cut=u) for s in ("join3", "fork3", "rev3") for u in (False, True)], expect=("end", "tight"), functions=FUNCS,
         bounds="2 or 3 tasks, durations 0..2 (0..1 with 3 tasks), needs 0..2, capacity 1..3 (also over time), any order; horizons down to the very length of the schedule")
def order(ctx):
    c = ctx.config
    quiet(ctx)
    i = instance(ctx, c["shape"], c["cal"], 4 if not c["cal"] else 3, dmax=2 if c["shape"].endswith("2") else 1)
    real = list(ctx.permutation("order", i.real))
    want, fits = i.sgs([t - 2 for t in real], [1] * i.n)
    ctx.assume(fits)
    if c["cut"]:  # tasks leading to the critical path go first: assume that the project fits in any order
        ctx.assume(all(i.sgs(p, [1] * i.n)[1] for p in itertools.permutations(range(i.n))))
    m = i.model()
    solver = CP.CPM(m)
    path = solver.run_classic_cpm()
    got, links, effects, causes = solver.run_sgs_on_order(solver.map_node, path, total_order=[1] + real + [i.sink], cut_sgs_by_critical=c["cut"])
    got = times(got)
    ctx.check(set(got) == set(i.tasks), "every task is scheduled")
    ctx.check(land(*[got[t][1] - got[t][0] == i.dur[t][1] for t in i.tasks]), "tasks last their durations")
    ctx.check(i.feasible(got, [1] * i.n), "the schedule respects precedences and capacities")
    ctx.check(land(*[got[t][0] >= solver.map_node[t]._ESD for t in i.tasks]), "no task starts before its earliest date")
    if not c["cut"]:
        ctx.check(same(got, want), "tasks take the first free slot in the order given")
    anc = {t: set(i.pred[t]) for t in i.tasks}
    for _ in i.tasks:
        anc = {t: anc[t] | {q for p in anc[t] for q in anc[p]} for t in i.tasks}
    for a, b in links:
        ctx.check(b not in anc[a] and got[a][0] > solver.map_node[a]._ESD, "links are proposed between a delayed task and one it does not wait for")
    ctx.check(land(*[m.resources[r][u] == i.cap[r][u] for r in i.res for u in range(4)] if c["cal"] else [m.resources[r] == i.cap[r] for r in i.res]), "the problem is left as it was")
    if got[i.sink][0] == i.horizon:
        ctx.reach("tight")
    ctx.reach("end")


@harness("C30", "time_loop", configs=[dict(shape=s) for s in ("free2", "chain2", "join3", "rev3")], expect=("end",), functions=FUNCS,
         bounds="2 or 3 tasks, durations 0..2 (0..1 with 3 tasks), needs 0..2, capacity 1..3, any order, ample horizon")
def time_loop(ctx):
    c = ctx.config
    quiet(ctx)
    i = instance(ctx, c["shape"], False, 12, dmax=2 if c["shape"].endswith("2") else 1)
    ctx.assume(land(*[i.need[t][1][r] <= i.cap[r] for t in i.real for r in i.res]))
    solver = CP.CPM(i.model())
    path = solver.run_classic_cpm()
    got = times(solver.run_sgs_time_loop(solver.map_node, path, total_order=[1] + list(ctx.permutation("order", i.real)) + [i.sink])[0])
    ctx.check(set(got) == set(i.tasks), "every task is scheduled")
    ctx.check(land(*[got[t][1] - got[t][0] == i.dur[t][1] for t in i.tasks]), "tasks last their durations")
    ctx.check(i.feasible(got, [1] * i.n), "the schedule respects precedences and capacities")
    ctx.reach("end")


@harness("C30", "first_time", configs=[dict(shape=s) for s in ("free2", "chain2")], expect=("end", "later"), functions=FUNCS,
         bounds="2 tasks, durations 0..2, needs 0..2, any amounts left 0..3 over 4 time steps")
def first_time(ctx):
    c = ctx.config
    quiet(ctx)
    i = instance(ctx, c["shape"], False, 4)
    solver = CP.CPM(i.model())
    solver.run_classic_cpm()
    left = {r: [ctx.int("left%s_%d" % (r, u), 0, 3) for u in range(4)] for r in i.res}
    t = ctx.choice("task", i.real)
    d, es = i.dur[t][1], solver.map_node[t]._ESD
    ok = {s: land(*[left[r][u] >= i.need[t][1][r] for r in i.res for u in range(s, s + d)]) for s in range(es, 4 - d + 1) if s < 4}
    ctx.assume(lor(*ok.values()) if ok else False)
    s, e = solver.get_first_time_to_do_one_task({r: list(v) for r, v in left.items()}, t)
    ctx.check(s in ok and e == s + d, "the task starts not before its earliest date and ends after its duration")
    ctx.check(ok[s], "enough is left during the whole task")
    ctx.check(land(*[lnot(v) for k, v in ok.items() if k < s]), "no earlier start was possible")
    if s > es:
        ctx.reach("later")
    ctx.reach("end")


# -- learned priority rules
GF = ["GPHH.evaluate_heuristic", "GPHH.evaluate_heuristic_permutation", "GPHHPolicy", "PooledGPHHPolicy", "FixedPermutationPolicy", "feature_*", "compute_cpm"]
F = G.FeatureEnum


def params(features, evaluation=G.EvaluationGPHH.SGS, dist=G.PermutationDistance.KTD):
    pset = gp.PrimitiveSet("main", len(features))
    for f, n in ((G.operator.add, 2), (G.operator.sub, 2), (G.operator.mul, 2), (G.protected_div, 2), (G.max_operator, 2), (G.min_operator, 2), (G.operator.neg, 1)):
        pset.addPrimitive(f, n)
    return G.ParametersGPHH(set_feature=features, set_primitves=pset, tournament_ratio=0.5, pop_size=2, n_gen=1, min_tree_depth=1, max_tree_depth=2, crossover_rate=0.5, mutation_rate=0.5,
                            base_policy_method=B.FOLLOW_GANTT, delta_index_freedom=0, delta_time_freedom=0, deap_verbose=False, evaluation=evaluation, permutation_distance=dist)


def project(ctx, kind, shape, horizon=6, **k):
    i = Single(ctx, shape, horizon=horizon, cal=kind == "pure calendar", cmin=0 if kind == "pure calendar" else 1, **k)
    return i


def near(a, b):
    d = a - b
    return land(d < 1e-6, d > -1e-6)


class Means:
    """numpy whose averages and extremes accept symbolic values"""

    def __getattr__(self, k):
        return getattr(CP_NP, k)

    def mean(self, v):
        return sum(v, 0) / len(v)

    def min(self, v):
        return smin(*v) if len(v) > 1 else v[0]

    def max(self, v):
        return smax(*v) if len(v) > 1 else v[0]

    def sum(self, v):
        return sum(v, 0)

    def median(self, v):
        v = sorted(v)
        n = len(v)
        return v[n // 2] if n % 2 else (v[n // 2 - 1] + v[n // 2]) / 2

    def delete(self, v, idx):
        return [x for k, x in enumerate(v) if k not in set(int(j) for j in idx)]


def gphh_stubs(ctx):
    quiet(ctx)
    ctx.patch(G, "print", lambda *a: None)
    if ctx.symbolic:
        ctx.patch(G, "np", Means())


@harness("C30", "features", configs=[dict(kind=k, shape=s) for k, s in (("pure", "chain2"), ("pure", "free2"), ("pure", "fork3"), ("pure", "join3"), ("pure calendar", "free2"))], expect=("end",), functions=GF,
         bounds="2 or 3 tasks, durations 0..2 (0..1 with 3 tasks), 2 resources, needs 0..2, capacity 1..3 (0..3 over time with calendars), every feature of every task")
def features(ctx):
    c = ctx.config
    gphh_stubs(ctx)
    i = project(ctx, c["kind"], c["shape"], dmax=2 if c["shape"].endswith("2") else 1, res=("R1", "R2") if c["kind"] == "pure" and c["shape"] == "chain2" else ("R1",), horizon=4)
    dom = domain(i, c["kind"])
    ctx.assume(sum(i.dur[t][1] for t in i.real) > 0)
    cpm, end = G.compute_cpm(G.build_do_domain(dom))
    state = dom.get_initial_state()
    for t in i.tasks:
        for t2 in i.tasks:
            dom.sample_task_duration(t2)
    # references
    es = {1: 0}
    todo = i.tasks[1:]
    while todo:
        t = next(x for x in todo if all(p in es for p in i.pred[x]))
        es[t] = max(es[p] + i.dur[p][1] for p in i.pred[t])
        todo.remove(t)
    lf = {i.sink: es[i.sink]}
    todo = i.tasks[:-1]
    while todo:
        t = next(x for x in todo if all(p in lf for p in i.succ[x]))
        lf[t] = min(lf[p] - i.dur[p][1] for p in i.succ[t])
        todo.remove(t)
    ctx.check(end == es[i.sink], "dates are relative to the length of the project")
    desc = {t: set(i.succ[t]) for t in i.tasks}
    for _ in i.tasks:
        desc = {t: desc[t] | {q for p in desc[t] for q in desc[p]} for t in i.tasks}
    n = len(i.tasks)
    for t in i.tasks:
        d = i.dur[t][1]
        if d:
            share = [sum(((i.need[t][1][r] / i.c(r, u)) if not isinstance(i.c(r, u), int) or i.c(r, u) else 0 for u in range(d)), 0) / d for r in i.res]
        else:
            share = [0.]
        positive = [x for x in share if x > 0]
        want = {F.TASK_DURATION: d, F.RESSOURCE_TOTAL: sum(i.need[t][1].values(), 0), F.N_SUCCESSORS: len(i.succ[t]) / n, F.N_PREDECESSORS: len(i.pred[t]) / n,
                F.RESSOURCE_AVG: sum(share, 0) / len(share), F.RESSOURCE_MIN: smin(*share) if len(share) > 1 else share[0], F.RESSOURCE_MAX: smax(*share) if len(share) > 1 else share[0],
                F.RESSOURCE_NZ_MIN: (smin(*positive) if len(positive) > 1 else positive[0]) if positive else 0, F.RESSOURCE_REQUIRED: len(positive) / len(share),
                F.ALL_DESCENDANTS: len(desc[t]) / n, F.PRECEDENCE_DONE: t == 1,
                F.EARLIEST_START_DATE: es[t] / end, F.EARLIEST_FINISH_DATE: (es[t] + d) / end, F.LATEST_FINISH_DATE: lf[t] / end, F.LATEST_START_DATE: (lf[t] - d) / end}
        for f in F:
            got = G.feature_function_map[f](domain=dom, cpm=cpm, cpm_esd=end, task_id=t, state=state)
            ctx.check(near(got, want[f]), "the feature %s of a task" % f.value)
    ctx.reach("end")


def rule(ctx, i, name="value", hi=2, ends=True):
    """an arbitrary priority rule: a value per task (source and sink have value 1 unless `ends`)"""
    return {t: ctx.int("%s%d" % (name, t), 0, hi) if ends or t in i.real else 1 for t in i.tasks}


def by_value(i, v):
    """the tasks in the order of their values, the smallest number first among equals; source and sink aside"""
    out = []
    todo = list(i.tasks)
    while todo:
        t = todo[0]
        for u in todo[1:]:
            if v[u] < v[t]:
                t = u
        out.append(t)
        todo.remove(t)
    return out


def identity(ctx, tables):
    """make a feature that gives the table of values, so that the rule computes any value per task"""
    fm = dict(G.feature_function_map)
    fm[F.TASK_DURATION] = lambda domain, cpm, cpm_esd, task_id, **k: tables(domain)[task_id]
    ctx.patch(G, "feature_function_map", fm)


@harness("C30", "evaluate", configs=[dict(shapes=s) for s in (("free2",), ("chain2",), ("free3",), ("join3",), ("rev3",), ("free2", "chain2"))], expect=("end",), functions=GF,
         bounds="1 or 2 training projects of 2 or 3 tasks, durations 0..2 (0..1 with 3 tasks), needs 0..2, capacity 1..3, any value per task")
def evaluate(ctx):
    c = ctx.config
    gphh_stubs(ctx)
    two = len(c["shapes"]) > 1
    insts, doms, vals = [], [], []
    for k, s in enumerate(c["shapes"]):
        i = project(Prefix(ctx, "p%d_" % k) if k else ctx, "pure", s, dmax=1 if two or s.endswith("3") else 2, **(dict(nmax=1, cmax=2) if two else {}))
        ctx.assume(land(*[i.need[t][1][r] <= i.cap[r] for t in i.real for r in i.res]))
        insts.append(i)
        doms.append(domain(i, "pure"))
        vals.append(rule(ctx, i, "value%d_" % k, 1 if two else 2, ends=not two and i.n < 3))
    identity(ctx, lambda dom: vals[next(k for k, x in enumerate(doms) if x is dom)])
    g = G.GPHH(doms, doms[0], -1, params_gphh=params({F.TASK_DURATION}))
    g.toolbox = Toolbox()
    g.toolbox.register("compile", lambda expr: expr)
    fit = g.evaluate_heuristic(lambda x: x, domains=doms)
    want = 0
    for i, v in zip(insts, vals):
        out, ok = i.sgs([t - 2 for t in by_value(i, v) if t in i.real], [1] * i.n)
        assert ok
        want = want + out[i.sink][1]
    ctx.check(len(fit) == 1 and near(fit[0], want / len(insts)), "a rule is worth the mean length of the schedules that take tasks by increasing value")
    ctx.reach("end")


class Prefix:
    """a context whose variables are prefixed"""

    def __init__(self, ctx, p):
        self.ctx, self.p = ctx, p

    def int(self, n, *a):
        return self.ctx.int(self.p + n, *a)

    def index(self, n, *a):
        return self.ctx.index(self.p + n, *a)


def distance(kind, h, ref):
    n = len(h)
    pairs = [(a, b) for a in range(n) for b in range(a + 1, n)]
    tau = sum(1 if (h[a] - h[b]) * (ref[a] - ref[b]) > 0 else -1 for a, b in pairs) / len(pairs)
    ham = sum(x != y for x, y in zip(h, ref)) / n
    return {"KTD": -tau, "HAMMING": ham, "KTD_HAMMING": ham - tau}[kind]


@harness("C30", "permutation", configs=[dict(dist=d, given=g) for d in G.PermutationDistance.__members__ for g in (True, False)], expect=("end", "same"), functions=GF,
         bounds="2 training projects of 2 tasks, any value per task 0..1, any reference order of the tasks, given or taken from the solver")
def permutation(ctx):
    c = ctx.config
    gphh_stubs(ctx)
    i = Single(ctx, "free2", horizon=9, dmax=0, nmax=0, cmax=1, cmin=1)
    doms = [domain(i, "pure"), domain(i, "pure")] if c["given"] else [domain(i, "pure")]
    vals = [rule(ctx, i, "value%d_" % k, 1) for k in range(len(doms))]
    identity(ctx, lambda dom: vals[next(k for k, x in enumerate(doms) if x is dom)])
    if c["given"]:
        refs = [[1] + list(ctx.permutation("reference%d" % k, i.real)) + [i.sink] for k in range(len(doms))]
        kw = dict(reference_permutations={"first": refs[0], "second": refs[1]}, training_domains_names=["first", "second"])
    else:
        real = list(ctx.permutation("reference", i.real))
        refs = [[1] + real + [i.sink]]

        class Solved:
            def __init__(self, policy_method_params, method):
                assert method == G.SolvingMethod.CP

            def solve(self, domain_factory):
                assert domain_factory() is doms[0]
                self.best_solution = type("S", (), {})()
                self.best_solution.rcpsp_permutation = [t - 2 for t in real]

        ctx.patch(G, "DOSolver", Solved)
        kw = {} if ctx.bool("unnamed") else dict(reference_permutations={}, training_domains_names=["first"])
    g = G.GPHH(doms, doms[0], -1, params_gphh=params({F.TASK_DURATION}, G.EvaluationGPHH.PERMUTATION_DISTANCE, G.PermutationDistance[c["dist"]]), **kw)
    g.toolbox = Toolbox()
    g.toolbox.register("compile", lambda expr: expr)
    fit = g.evaluate_heuristic_permutation(lambda x: x, domains=doms)
    want = 0
    for v, ref in zip(vals, refs):
        h = by_value(i, v)
        common = smax(*[sum((ite(v[a] == v[b], 1, 0) for b in i.tasks), 0) for a in i.tasks])
        want = want + distance(c["dist"], h, ref) + common / len(i.tasks)
        if h == ref:
            ctx.reach("same")
    ctx.check(len(fit) == 1 and near(fit[0], want / len(doms)), "a rule is worth the mean distance of its order to the reference, plus the share of tasks it cannot tell apart")
    ctx.reach("end")


@harness("C30", "formula", configs=[dict(shape=s) for s in ("chain2", "free2")], expect=("end",), functions=GF,
         bounds="2 tasks, durations 0..2, needs 0..2, capacity 1..3; formulas over several features, as compiled by the genetic programming library")
def formula(ctx):
    c = ctx.config
    gphh_stubs(ctx)
    i = project(ctx, "pure", c["shape"])
    ctx.assume(land(*[i.need[t][1][r] <= i.cap[r] for t in i.real for r in i.res]))
    ctx.assume(sum(i.dur[t][1] for t in i.real) > 0)
    dom = domain(i, "pure")
    feats = {F.TASK_DURATION, F.RESSOURCE_TOTAL, F.N_SUCCESSORS, F.LATEST_FINISH_DATE}
    g = G.GPHH([dom], dom, -1, params_gphh=params(feats))
    g.toolbox = Toolbox()
    g.toolbox.register("compile", gp.compile, pset=g.pset)
    exprs = {"task_duration": lambda x: x["d"], "neg(total_nres)": lambda x: -x["n"], "sub(total_nres, task_duration)": lambda x: x["n"] - x["d"], "protected_div(total_nres, task_duration)": lambda x: x["n"] / x["d"] if x["d"] else 1,
             "max_operator(task_duration, total_nres)": lambda x: smax(x["d"], x["n"]), "mul(LFD, min_operator(task_duration, total_nres))": lambda x: x["l"] * smin(x["d"], x["n"])}
    e = ctx.choice("formula", list(exprs))
    fit = g.evaluate_heuristic(e, domains=[dom])
    cpm, end = G.compute_cpm(G.build_do_domain(dom))
    val = {t: exprs[e](dict(d=i.dur[t][1], n=i.need[t][1]["R1"], l=cpm[t]._LFD / end)) for t in i.tasks}
    out, ok = i.sgs([t - 2 for t in by_value(i, val) if t in i.real], [1] * i.n)
    ctx.check(near(fit[0], out[i.sink][1]), "formulas read the features they name")
    ctx.reach("end")


def policies(ctx, i, dom, model, how):
    """a policy and the order it must follow"""
    p = params({F.TASK_DURATION})
    if i.n > 2 and how == "rule":  # any order of the tasks
        o = list(ctx.permutation("order", i.tasks))
        identity(ctx, lambda d: {t: o.index(t) for t in i.tasks})
        return G.GPHHPolicy(dom, model, lambda x: x, features=[F.TASK_DURATION], params_gphh=p), o
    if how == "fixed":
        o = [1] + list(ctx.permutation("order", i.real)) + [i.sink]
        return G.FixedPermutationPolicy(dom, model, list(o)), o
    v = rule(ctx, i, ends=how == "rule")
    identity(ctx, lambda d: v)
    if how == "rule":
        return G.GPHHPolicy(dom, model, lambda x: x, features=[F.TASK_DURATION], params_gphh=p), by_value(i, v)
    if how == "cached":
        return G.GPHHPolicy(dom, model, lambda x: x, features=[F.TASK_DURATION], params_gphh=p, recompute_cpm=False, cpm_data={dom: dict(cpm={}, cpm_esd=1)}), by_value(i, v)
    agg, extremes = how
    # three rules: x, 2-x (which cancel) and an arbitrary one
    w = rule(ctx, i, "other", 1, ends=False)
    table = {}
    funcs = [lambda x: x[0], lambda x: 4 * x[1], lambda x: 3]
    identity(ctx, lambda d: {t: (v[t], w[t]) for t in i.tasks})
    score = {}
    for t in i.tasks:
        xs = [v[t], 4 * w[t], 3]
        if extremes:
            # without the one farthest from the median
            m = sorted(xs)[1]
            far = max(range(3), key=lambda k: abs(xs[k] - m))
            xs = [x for k, x in enumerate(xs) if k != far]
        score[t] = sum(xs, 0) / len(xs) if agg == G.PoolAggregationMethod.MEAN else (sorted(xs)[1] if len(xs) == 3 else sum(xs, 0) / 2)
    return G.PooledGPHHPolicy(dom, model, funcs, pool_aggregation_method=agg, remove_extremes_values=extremes, features=[F.TASK_DURATION], params_gphh=p), by_value(i, score)


def play(ctx, i, dom, pol, limit):
    m = dom.get_initial_state()
    for _ in range(limit):
        if dom.is_goal(m):
            break
        ctx.check(pol.is_policy_defined_for(m), "defined everywhere")
        a = pol.sample_action(m)
        ctx.check(bool(a in dom.get_applicable_actions(m).get_elements() or a.action == A.TIME_PR), "only allowed actions are taken")
        m = dom.get_next_state(m, a)
    return m


@harness("C30", "policy", configs=[dict(shape=s, how=h) for h in ("rule", "cached", "fixed") for s in ("free2", "chain2", "join3", "rev3") if h != "cached" or s == "free2"], expect=("finished",), functions=GF,
         bounds="2 tasks with durations and needs 0..2, capacity 1..3 and any value 0..2 per task, or 3 tasks with durations and needs 0..1, capacity 1..2 and any order: whole execution")
def policy(ctx):
    c = ctx.config
    gphh_stubs(ctx)
    i = project(ctx, "pure", c["shape"], **(dict(dmax=2) if c["shape"].endswith("2") else dict(dmax=1, nmax=1, cmax=2)))
    ctx.assume(land(*[i.need[t][1][r] <= i.cap[r] for t in i.real for r in i.res]))
    dom = domain(i, "pure")
    pol, want = policies(ctx, i, dom, dom, c["how"])
    out, ok = i.sgs([t - 2 for t in want if t in i.real], [1] * i.n)
    m = play(ctx, i, dom, pol, 14)
    ctx.check(bool(dom.is_goal(m)), "the project is finished")
    ctx.check(all(m.tasks_details[t].start == out[t][0] and m.tasks_details[t].end == out[t][1] for t in i.tasks), "the execution is the schedule that takes tasks by increasing value")
    ctx.reach("finished")


@harness("C30", "pooled", configs=[dict(agg=a, extremes=e) for a in ("MEAN", "MEDIAN") for e in (0, 1)], expect=("finished",), functions=GF,
         bounds="2 tasks of durations 1..2, needs 0..2, capacity 2, three rules: one of any value per task 0..2, one of values 0 or 4, one constant")
def pooled(ctx):
    c = ctx.config
    gphh_stubs(ctx)
    i = project(ctx, "pure", "free2", cmax=1)
    ctx.assume(land(*[i.need[t][1][r] <= i.cap[r] for t in i.real for r in i.res]))
    dom = domain(i, "pure")
    pol, want = policies(ctx, i, dom, dom, (G.PoolAggregationMethod[c["agg"]], c["extremes"]))
    out, ok = i.sgs([t - 2 for t in want if t in i.real], [1] * i.n)
    m = play(ctx, i, dom, pol, 14)
    ctx.check(bool(dom.is_goal(m)), "the project is finished")
    ctx.check(all(m.tasks_details[t].start == out[t][0] for t in i.tasks), "the execution is the schedule that takes tasks by increasing aggregate value")
    ctx.reach("finished")


@harness("C30", "pooled_random", configs=[{}], expect=("first", "second", "finished"), functions=GF, bounds="2 tasks, 2 rules with any values, any draw")
def pooled_random(ctx):
    gphh_stubs(ctx)
    ctx.stub_random()
    i = Single(ctx, "free2", horizon=9, dmax=1, nmax=0, cmax=1, cmin=1)
    dom = domain(i, "pure")
    identity(ctx, lambda d: {t: t for t in i.tasks})
    used = []
    funcs = [lambda x: 1, lambda x: 2]
    real_sgs = G.RCPSPSolution
    pol = G.PooledGPHHPolicy(dom, dom, funcs, pool_aggregation_method=G.PoolAggregationMethod.RANDOM, features=[F.TASK_DURATION], params_gphh=params({F.TASK_DURATION}))
    seen = []

    def keep(problem, rcpsp_permutation, rcpsp_modes):
        seen.append(list(rcpsp_permutation))
        return real_sgs(problem=problem, rcpsp_permutation=rcpsp_permutation, rcpsp_modes=rcpsp_modes)

    ctx.patch(G, "RCPSPSolution", keep)
    pol.sample_action(dom.get_initial_state())
    ctx.check(len(seen) >= 1 and sorted(seen[0]) == [0, 1], "the draws give an order of the tasks")
    ctx.reach("first" if seen[0] == [0, 1] else "second")
    ctx.reach("finished")


@harness("C30", "surprise", configs=[dict(how=h) for h in ("rule", "fixed")], expect=("finished", "late"), functions=GF,
         bounds="2 tasks whose real durations 0..2 differ from those of the model (1 or 2), needs 0..2, capacity 1..3, any value per task: whole execution")
def surprise(ctx):
    c = ctx.config
    gphh_stubs(ctx)
    i = project(ctx, "pure", "free2", nmax=2, cmax=2, horizon=9)
    ctx.assume(land(*[i.need[t][1][r] <= i.cap[r] for t in i.real for r in i.res]))
    ctx.assume(all(i.dur[t][1] > 0 for t in i.real))
    dom = domain(i, "pure")
    true = {t: dict(i.dur[t]) for t in i.tasks}
    believed = {t: 1 + ctx.index("believed%d" % t, 2) for t in i.real}
    j = object.__new__(Single)
    j.__dict__.update(i.__dict__)
    j.dur = {t: {1: believed.get(t, 0)} for t in i.tasks}
    model = domain(j, "pure")
    pol, want = policies(ctx, i, dom, model, c["how"])
    m = play(ctx, i, dom, pol, 14)
    ctx.check(bool(dom.is_goal(m)), "the project is finished whatever the model believed")
    ctx.check(all(m.tasks_details[t].end - m.tasks_details[t].start == true[t][1] for t in i.tasks), "tasks last what they last")
    if any(true[t][1] > believed[t] for t in i.real):
        ctx.reach("late")
    ctx.reach("finished")
