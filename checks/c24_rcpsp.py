"""C24: project schedules built from a priority order, their feasibility and their evaluation."""
import types

import numpy as np

from vsym.registry import harness
from vsym.engine import implies, land, lor, lnot
from skdecide.builders.discrete_optimization.generic_tools.do_problem import MethodAggregating, BaseMethodAggregating
from skdecide.builders.discrete_optimization.generic_tools.do_mutation import LocalMoveDefault
from skdecide.builders.discrete_optimization.rcpsp import rcpsp_model as RM, rcpsp_utils as RU
from skdecide.builders.discrete_optimization.rcpsp.mutations.mutation_rcpsp import PermutationMutationRCPSP
from skdecide.builders.discrete_optimization.generic_tools.mutations.permutation_mutations import PermutationSwap

FUNCS = ["RCPSPSolution.generate_schedule_from_permutation_serial_sgs", "generate_permutation_from_schedule", "RCPSPModel.evaluate/satisfy", "compute_mean_resource_reserve"]
# tasks 1 and n+2 are the source and the sink
SHAPES = {"free2": (2, {}), "chain2": (2, {2: [3]}), "free3": (3, {}), "join3": (3, {2: [4], 3: [4]}), "fork3": (3, {2: [3, 4]}), "rev3": (3, {4: [2]})}


def near(a, b):
    d = a - b
    return land(d < 1e-6, d > -1e-6)


class Inst:
    """plain data: dur[task][mode], need[task][mode][res], cap[res] an int or a list over time"""

    def __init__(self, ctx, shape, modes=1, res=("R1",), nonren=(), horizon=9, cal=False, dmax=2, nmax=2, cmax=3, cmin=0, zero_need=False):
        self.n, edges = SHAPES[shape]
        n = self.n
        self.tasks = list(range(1, n + 3))
        self.real = self.tasks[1:-1]
        self.sink = n + 2
        self.succ = {1: list(self.real) + [n + 2], n + 2: []}
        for t in self.real:
            self.succ[t] = list(edges.get(t, [])) + [n + 2]
        self.pred = {t: [p for p in self.tasks if t in self.succ[p]] for t in self.tasks}
        self.res, self.nonren, self.horizon = list(res) + list(nonren), list(nonren), horizon
        m = {t: range(1, (modes if t in self.real[:1] else 1) + 1) if t in self.real else [1] for t in self.tasks}
        self.dur = {t: {k: ctx.index("dur%d_%d" % (t, k), dmax + 1) if t in self.real else 0 for k in m[t]} for t in self.tasks}
        self.need = {t: {k: {r: ctx.int("need%d_%d%s" % (t, k, r), 0, nmax) if t in self.real else 0 for r in self.res} for k in m[t]} for t in self.tasks}
        for t in self.real:
            for k in m[t]:
                if not self.dur[t][k]:
                    for r in (self.res if zero_need is False else []):
                        self.need[t][k][r] = 0
        self.cap = {r: [ctx.int("cap%s_%d" % (r, u), 0, cmax) for u in range(horizon + 1)] if cal and r not in nonren else cmin + ctx.index("cap" + r, cmax + 1 - cmin) for r in self.res}
        if cal:
            for r in nonren:
                self.cap[r] = [self.cap[r]] * (horizon + 1)
        self.cal = cal

    def c(self, r, t):
        return self.cap[r][t] if self.cal else self.cap[r]

    def details(self):
        return {t: {k: dict(self.need[t][k], duration=self.dur[t][k]) for k in self.dur[t]} for t in self.tasks}

    def model(self, cls=None):
        multi = any(len(v) > 1 for v in self.dur.values())
        cls = cls or (RM.RCPSPModelCalendar if self.cal else RM.MultiModeRCPSPModel if multi else RM.SingleModeRCPSPModel)
        return cls(resources={r: list(v) if self.cal else v for r, v in self.cap.items()}, non_renewable_resources=list(self.nonren), mode_details=self.details(),
                   successors={t: list(s) for t, s in self.succ.items()}, horizon=self.horizon)

    # -- references
    def sgs(self, perm, modes, fixed=None, now=0):
        """serial generation: {task: (start, end)} and whether it fits within the horizon"""
        mode = dict(zip(self.tasks, [1] + list(modes) + [1]))
        order = [1] + [p + 2 for p in perm] + [self.sink]
        out = dict(fixed or {})
        for r in self.nonren:
            if sum((self.need[t][mode[t]][r] for t in self.tasks), 0) > self.c(r, 0):
                return out, False
        order = [t for t in order if t not in out]
        while order:
            t = next(x for x in order if all(p in out for p in self.pred[x]))
            d = self.dur[t][mode[t]]
            s = max([now] + [out[p][1] for p in self.pred[t]])
            while True:
                if d and s + d > self.horizon:
                    return out, False
                if all(self.need[t][mode[t]][r] + sum((self.need[q][mode[q]][r] for q in out if out[q][0] <= u < out[q][1]), 0) <= self.c(r, u)
                       for u in range(s, s + d) for r in self.res if r not in self.nonren):
                    break
                s += 1
            out[t] = (s, s + d)
            order.remove(t)
        return out, True

    def feasible(self, times, modes):
        mode = dict(zip(self.tasks, [1] + list(modes) + [1]))
        conds = [times[p][1] <= times[t][0] for t in self.tasks for p in self.pred[t]]
        last = times[self.sink][1]
        for r in self.res:
            if r in self.nonren:
                conds.append(sum((self.need[t][mode[t]][r] for t in self.tasks), 0) <= self.c(r, 0))
            else:
                conds += [sum((self.need[t][mode[t]][r] for t in self.tasks if times[t][0] <= u < times[t][1]), 0) <= self.c(r, u) for u in range(last)]
        return land(*conds)

    def reserve(self, times, modes):
        mode = dict(zip(self.tasks, [1] + list(modes) + [1]))
        last = times[self.sink][1]
        tot = 0
        for r in self.res:
            left = 0
            for u in range(last):
                left = left + self.c(r, u) - sum((self.need[t][mode[t]][r] for t in self.tasks if times[t][0] <= u and (u < times[t][1] or r in self.nonren)), 0)
            tot = tot + left / (last * self.cap[r])
        return tot / len(self.res)


class ObjectZeros:
    """numpy, whose arrays of zeros can hold symbolic values"""

    def __getattr__(self, k):
        return getattr(np, k)

    def zeros(self, shape, *a, **k):
        return np.zeros(shape, dtype=object)


def symbolic_arrays(ctx):
    if ctx.symbolic:
        ctx.patch(RM, "print", lambda *a: None)
        ctx.patch(RM, "np", ObjectZeros())
        ctx.patch(RU, "np", ObjectZeros())


def times_of(s):
    return {t: (v["start_time"], v["end_time"]) for t, v in s.rcpsp_schedule.items()}


def same(a, b):
    return set(a) == set(b) and land(*[land(a[t][0] == b[t][0], a[t][1] == b[t][1]) for t in a])


SGS = [dict(shape=s, modes=1, nonren=(), cal=False, horizon=h) for s in ("free2", "chain2", "free3", "join3", "fork3", "rev3") for h in (9, 4)] + \
    [dict(shape=s, modes=2, nonren=("N1",), cal=False, horizon=9) for s in ("free2", "chain2")] + \
    [dict(shape="free2", modes=1, nonren=("N1",), cal=False, horizon=3)] + \
    [dict(shape=s, modes=1, nonren=n, cal=True, horizon=4) for s in ("free2", "chain2") for n in ((), ("N1",))]


@harness("C24", "sgs", configs=SGS, expect=("fits", "too long"), functions=FUNCS,
         bounds="2 or 3 tasks between a source and a sink, durations 0..2, needs 0..2, capacity 0..3 (or any calendar of 0..3), an optional non renewable resource, up to 2 modes, horizons 3, 4, 9, every order")
def sgs(ctx):
    c = ctx.config
    symbolic_arrays(ctx)
    i = Inst(ctx, c["shape"], c["modes"], nonren=c["nonren"], cal=c["cal"], horizon=c["horizon"], cmax=2 if c["cal"] else 3)
    p = i.model()
    perm = ctx.permutation("order", list(range(i.n)))
    modes = [ctx.choice("mode", sorted(i.dur[t])) for t in i.real]
    s = RM.RCPSPSolution(p, rcpsp_permutation=list(perm), rcpsp_modes=list(modes))
    ref, ok = i.sgs(perm, modes)
    ctx.check(bool(s.rcpsp_schedule_feasible) == ok, "flagged feasible exactly when every task fits within the horizon")
    if not ok:
        ctx.check(p.satisfy(s) is False, "an incomplete schedule does not satisfy the problem")
        ctx.check(p.evaluate(s)["makespan"] > i.horizon, "an incomplete schedule is longer than the horizon")
        ctx.reach("too long")
        return
    got = times_of(s)
    ctx.check(same(got, ref), "each task starts at its earliest time in the order of priority")
    ctx.check(i.feasible(got, modes), "the schedule is feasible")
    ctx.check(p.satisfy(s) is True, "a generated schedule satisfies the problem")
    ctx.check(s.rcpsp_permutation == perm and s.rcpsp_modes == modes, "order and modes are kept")
    ctx.check(sorted(s.standardised_permutation) == list(range(i.n)), "the order of the schedule is a permutation")
    ctx.check(all(got[a + 2][0] <= got[b + 2][0] for a, b in zip(s.standardised_permutation, s.standardised_permutation[1:])), "the order of the schedule is the one of the starts")
    again = RM.RCPSPSolution(p, rcpsp_permutation=list(s.standardised_permutation), rcpsp_modes=list(modes))
    ctx.check(same(times_of(again), got), "the order of the schedule gives the schedule back")
    if c["cal"]:
        ctx.check(land(*[land(*[p.resources[r][u] == i.c(r, u) for u in range(i.horizon + 1)]) for r in i.res]), "the calendar is left alone")
    ctx.reach("fits")


@harness("C24", "satisfy", configs=[dict(shape=s, modes=m, nonren=n, cal=k) for s, m, n, k in (("free2", 1, (), False), ("chain2", 1, (), False), ("free3", 1, (), False), ("join3", 1, (), False), ("chain2", 2, ("N1",), False), ("free2", 1, ("N1",), True))],
         expect=("yes", "no"), functions=["RCPSPModel.satisfy", "RCPSPModelCalendar.satisfy", "RCPSPModel.evaluate", "compute_mean_resource_reserve", "compute_resource_consumption", "compute_nice_resource_consumption", "compute_schedule_per_resource_individual"],
         bounds="2 or 3 tasks, durations 0..2, any starts 0..3 (and sink up to 6), needs 0..2, capacities 1..3")
def satisfy(ctx):
    c = ctx.config
    symbolic_arrays(ctx)
    big = c["cal"] or bool(c["nonren"])
    i = Inst(ctx, c["shape"], c["modes"], nonren=c["nonren"], cal=c["cal"], horizon=7, cmin=1, cmax=2 if big else 3, dmax=2 if c["shape"][-1] == "2" and not big else 1, zero_need=True)
    p = i.model()
    modes = [ctx.choice("mode", sorted(i.dur[t])) for t in i.real]
    times = {1: (0, 0)}
    for t, m in zip(i.real, modes):
        st = ctx.index("start%d" % t, (2 if t == i.real[0] else 3) if big else 4 if i.n == 2 else 3)
        times[t] = (st, st + i.dur[t][m])
    end = max(e for _, e in times.values()) + ctx.index("late", 2) * (i.n == 2 and not big) - ctx.index("early", 2)
    ctx.assume(end >= 1)
    times[i.sink] = (end, end)
    s = RM.RCPSPSolution(p, rcpsp_schedule={t: {"start_time": a, "end_time": b} for t, (a, b) in times.items()}, rcpsp_modes=list(modes), rcpsp_schedule_feasible=True)
    ok = i.feasible(times, modes)
    got = p.satisfy(s)
    ctx.check(ok if got else lnot(ok), "satisfied exactly when precedence and capacities hold")
    ctx.reach("yes" if got else "no")
    ctx.check(same(times_of(s), times), "the given schedule is kept")
    if not got:
        return
    e = {"makespan": end} if c["cal"] else p.evaluate(s)
    ctx.check(e["makespan"] == end, "makespan is the end of the last task")
    if not c["cal"] and all(i.dur[t][m] for t, m in zip(i.real, modes)) or not i.nonren and not c["cal"]:
        ctx.check(near(e["mean_resource_reserve"], i.reserve(times, modes)), "reserve is the average fraction of the resources left over time")  # not defined for calendars and instantaneous consumption
    mode = dict(zip(i.tasks, [1] + modes + [1]))
    use = lambda r, u: sum((i.need[t][mode[t]][r] for t in i.tasks if times[t][0] <= u < times[t][1]), 0)
    for kind, arr, shift in (("model", p.compute_resource_consumption(s), 1), ("future", RU.compute_resource_consumption(p, s)[0], 1), ("past", RU.compute_resource_consumption(p, s, future_view=False)[0], 0)):
        ctx.check(tuple(arr.shape) == (len(i.res), end + 1), kind + " consumption shape")
        for k, r in enumerate(i.res):
            for u in range(end):
                ctx.check(arr[k, u + shift] == use(r, u), kind + " consumption over time")
            ctx.check(arr[k, 0 if shift else end] == 0, kind + " consumption outside of the project")
    tt, cc = RU.compute_nice_resource_consumption(p, s)
    for k, r in enumerate(i.res):
        ctx.check(list(tt[k]) == [u for v in range(end + 1) for u in (v, v)], "times of the steps")
        ctx.check(land(*[land(cc[k][2 * u + 1] == use(r, u), cc[k][2 * u + 2] == use(r, u)) for u in range(end)]), "consumption just after and before each time")
    g = RU.compute_graph_rcpsp(p)
    ctx.check({(a, b) for a, b, _ in g.edges} == {(a, b) for a in i.succ for b in i.succ[a]} and [a for a, _ in g.nodes] == i.tasks, "graph of the precedences")
    for a, b, at in g.edges:
        ds = i.dur[a]
        ctx.check(at["min_duration"] == min(ds.values()) == -at["minus_min_duration"] and at["max_duration"] == max(ds.values()) == -at["minus_max_duration"] and all(at[m] == ds[m] for m in ds), "durations along the precedences")


@harness("C24", "units", configs=[dict(shape=s, modes=m) for s, m in (("free2", 1), ("chain2", 1), ("free3", 1), ("free2", 2))], functions=["compute_schedule_per_resource_individual"],
         bounds="2 or 3 tasks, durations 0..2, needs 0..2, capacity 1..3, every schedule generated from an order")
def units(ctx):
    nm = ctx.config["modes"]
    i = Inst(ctx, ctx.config["shape"], nm, cmin=1, dmax=2 if ctx.config["shape"] != "free3" and nm == 1 else 1)
    p = i.model()
    for t in i.real:
        for m in i.need[t]:
            ctx.assume(i.need[t][m]["R1"] <= i.cap["R1"])
    modes = [ctx.choice("mode", sorted(i.dur[t])) for t in i.real]
    s = RM.RCPSPSolution(p, rcpsp_permutation=list(ctx.permutation("order", list(range(i.n)))), rcpsp_modes=list(modes))
    got = times_of(s)
    a = RU.compute_schedule_per_resource_individual(p, s)["R1"]
    ctx.check(a["activity"].shape[1] == i.cap["R1"], "one row per unit")
    end = got[i.sink][1]
    for t, m in zip(i.real, modes):
        rows = [k for k in range(i.cap["R1"]) if any(a["activity"][u, k] == t for u in range(end))]
        ctx.check(len(rows) == (i.need[t][m]["R1"] if i.dur[t][m] else 0), "a task gets as many units as it needs")
        for k in rows:
            ctx.check([u for u in range(end) if a["activity"][u, k] == t] == list(range(*got[t])), "a unit given to a task works on it for its whole duration")
    for k in range(i.cap["R1"]):
        busy = sum(1 for u in range(end) if a["activity"][u, k])
        ctx.check(a["total_activity"][k] == busy and sum(a["binary_activity"][:, k]) == busy, "activity of a unit")


@harness("C24", "content", configs=[dict(how=h, modes=m) for h in ("permutation", "modes", "copy", "lazy_copy", "change_problem", "encoding", "mutation", "alias") for m in (1, 2) if not (h == "modes" and m == 1)],
         functions=["RCPSPSolution.copy/lazy_copy/change_problem/__setattr__/__eq__", "evaluate_from_encoding", "set_fixed_attributes", "PermutationMutationRCPSP"],
         bounds="2 tasks with needs 0..2, durations 0..2, capacity 2, any order and modes before and after")
def content(ctx):
    c = ctx.config
    i = Inst(ctx, "free2", c["modes"], cmin=2, cmax=2, dmax=1 if (c["how"], c["modes"]) in (("mutation", 2), ("lazy_copy", 2)) else 2)
    p = i.model()
    some = lambda name: (list(ctx.permutation(name, list(range(i.n)))), [ctx.choice(name + "m", sorted(i.dur[t])) for t in i.real])
    (perm, modes), (perm2, modes2) = some("before"), some("after")
    s = RM.RCPSPSolution(p, rcpsp_permutation=list(perm), rcpsp_modes=list(modes))

    def is_for(sol, pr, pe, mo, what, inst=i):
        ref, ok = inst.sgs(pe, mo)
        e = pr.evaluate(sol)
        ctx.check(e["makespan"] == ref[inst.sink][1], what + ": makespan of the current content")
        ctx.check(same(times_of(sol), ref), what + ": schedule of the current content")
        ctx.check(pr.satisfy(sol) is True, what + ": satisfied")
        ctx.check(list(sol.rcpsp_permutation) == pe and list(sol.rcpsp_modes) == mo, what + ": content")
    h = c["how"]
    if h == "permutation":
        s.rcpsp_permutation = list(perm2)
        ctx.check(p.satisfy(s) is True, "satisfied before evaluation")
        is_for(s, p, perm2, modes, "new order")
    elif h == "modes":
        s.rcpsp_modes = list(modes2)
        is_for(s, p, perm, modes2, "new modes")
    elif h in ("copy", "lazy_copy"):
        if ctx.bool("changed before"):
            s.rcpsp_permutation = list(perm2)
            perm = perm2
        t = getattr(s, h)()
        ctx.check(t == s and hash(t) == hash(s) and t.problem is p, "a copy is equal")
        is_for(t, p, perm, modes, "copy")
        if h == "copy":
            t.rcpsp_permutation[0], t.rcpsp_permutation[1] = t.rcpsp_permutation[1], t.rcpsp_permutation[0]
            t.rcpsp_modes[0] = 3 - t.rcpsp_modes[0]
            for v in t.rcpsp_schedule.values():
                v["start_time"] += 1
        else:
            t.rcpsp_permutation, t.rcpsp_modes = list(perm2), list(modes2)
            is_for(t, p, perm2, modes2, "changed copy")
        is_for(s, p, perm, modes, "original")
    elif h == "change_problem":
        j = Inst(ctx, "chain2", 1, cmin=2, cmax=2, dmax=1)
        q = j.model()
        s.change_problem(q)
        is_for(s, q, perm, [1, 1], "other problem", j)
        ctx.check(s.problem is q, "other problem")
    elif h == "encoding":
        if c["modes"] == 1:
            e = p.evaluate_from_encoding(list(perm2), "rcpsp_permutation")
            ref, _ = i.sgs(perm2, [1, 1])
        elif ctx.bool("by modes"):
            p.set_fixed_attributes("rcpsp_permutation", s)
            e = p.evaluate_from_encoding([m - 1 for m in modes2], "rcpsp_modes")
            ref, _ = i.sgs(perm, modes2)
        else:
            p.set_fixed_attributes("rcpsp_modes", s)
            e = p.copy().evaluate_from_encoding(list(perm2), "rcpsp_permutation")
            ref, _ = i.sgs(perm2, modes)
        ctx.check(e["makespan"] == ref[i.sink][1], "encoded solutions are evaluated as such")
        d = p.get_attribute_register().dict_attribute_to_type
        ctx.check(list(d["rcpsp_permutation"]["range"]) == list(range(i.n)) and d["rcpsp_permutation"]["n"] == i.n and d["rcpsp_modes"]["n"] == i.n and d["rcpsp_modes"]["arrity"] == c["modes"]
                  and d["rcpsp_modes_arrity_fix"]["arrities"] == [len(i.dur[t]) for t in i.real], "encoding register")
        z = p.get_dummy_solution()
        is_for(z, p, list(range(i.n)), [1] * i.n, "dummy solution")
    elif h == "mutation":
        ctx.stub_random()
        m = PermutationMutationRCPSP.build(p, s, other_mutation=PermutationSwap, attribute="rcpsp_permutation")
        if ctx.bool("with objective"):
            t, lm, fit = m.mutate_and_compute_obj(s)
            ref, _ = i.sgs(list(t.rcpsp_permutation), modes)
            ctx.check(fit["makespan"] == ref[i.sink][1], "fitness of the mutant")
        else:
            t, lm = m.mutate(s)
        ctx.check(sorted(t.rcpsp_permutation) == list(range(i.n)), "a mutant is a permutation")
        is_for(t, p, list(t.rcpsp_permutation), modes, "mutant")
        back = lm.backtrack_local_move(t)
        is_for(back, p, perm, modes, "mutant moved back")
    else:
        q = p.copy()
        q.resources["R9"] = 1
        q.mode_details[2][1]["duration"] = 7
        q.successors[2].append(3)
        ctx.check("R9" not in p.resources and p.mode_details[2][1]["duration"] == i.dur[2][1] and p.successors[2] == i.succ[2], "a copy of the problem is independent")


@harness("C24", "midway", configs=[dict(shape=s, modes=1, nonren=(), cal=False, horizon=h) for s, h in (("free2", 9), ("free2", 3), ("chain2", 3), ("free3", 9), ("free3", 2), ("rev3", 9))] +
         [dict(shape=s, modes=2, nonren=n, cal=False, horizon=9) for s, n in (("free2", ()), ("chain2", ()), ("chain2", ("N1",)))] +
         [dict(shape="free2", modes=1, nonren=(), cal=True, horizon=4)],
         expect=("ongoing",), functions=["generate_schedule_from_permutation_serial_sgs_2"],
         bounds="2 or 3 tasks of durations 0..2, needs 0..2, capacity 1..3 or any calendar, 1 or 2 modes, an optional non renewable resource, horizons 2 to 9, seen at any time 0..3 of the execution of any generated schedule; any new order for the rest")
def midway(ctx):
    c = ctx.config
    i = Inst(ctx, c["shape"], c["modes"], nonren=c["nonren"], cal=c["cal"], cmin=0 if c["cal"] else 1, horizon=c["horizon"], dmax=2 if c["shape"][-1] == "2" and c["modes"] == 1 else 1, cmax=2 if c["cal"] or c["nonren"] else 3)
    if not c["cal"]:
        for t in i.real:
            for m in i.need[t]:
                ctx.assume(i.need[t][m]["R1"] <= i.cap["R1"])
    p = i.model()
    perm, perm2 = (list(ctx.permutation(k, list(range(i.n)))) for k in ("order", "new order"))
    modes = [ctx.choice("mode", sorted(i.dur[t])) for t in i.real]
    base, fits = i.sgs(perm, modes)
    if not fits:
        return
    now = ctx.index("now", 4)
    done = {t: v for t, v in base.items() if v[1] <= now and v[0] < now or t == 1}
    going = {t: v for t, v in base.items() if v[0] < now < v[1]}
    modes2 = [m if t in done or t in going else ctx.choice("new mode", sorted(i.dur[t])) for t, m in zip(i.real, modes)]
    s = RM.RCPSPSolution(p, rcpsp_permutation=perm2, rcpsp_modes=list(modes2))
    s.generate_schedule_from_permutation_serial_sgs_2(current_t=now, completed_tasks={t: types.SimpleNamespace(start=v[0], end=v[1]) for t, v in done.items()},
                                                      scheduled_tasks_start_times={t: v[0] for t, v in list(done.items()) + list(going.items())})
    got = times_of(s)
    ref, ok = i.sgs(perm2, modes2, fixed={**done, **going}, now=now)
    ctx.check(all(got[t] == v for t, v in done.items()), "completed tasks keep their times")
    ctx.check(bool(s.rcpsp_schedule_feasible) == ok, "flagged feasible exactly when the rest fits")
    if ok:
        ctx.check(all(got[t] == v for t, v in going.items()), "ongoing tasks keep their times")
        ctx.check(same(got, ref), "the other tasks start at their earliest time from now on in the order of priority")
    if going:
        ctx.reach("ongoing")


@harness("C24", "aggregate", configs=[dict(method=m) for m in ("MEAN", "MIN", "MAX", "PONDERATION")], functions=["Aggreg_RCPSPModel.evaluate", "get_unique_rcpsp_model"], bounds="2 scenarios of 2 tasks with durations 0..2, needs 0..2, capacity 2")
def aggregate(ctx):
    name = ctx.config["method"]
    i = Inst(ctx, "free2", cmin=2, cmax=2, dmax=2)
    j = Inst(ctx, "chain2", cmin=2, cmax=2, dmax=1, nmax=1)
    j.succ, j.pred = i.succ, i.pred
    w = [0.25, 0.75]
    p = RM.Aggreg_RCPSPModel([i.model(), j.model()], MethodAggregating(BaseMethodAggregating[name], ponderation=np.array(w)))
    agg = {"MEAN": lambda a, b: (a + b) / 2, "MIN": min, "MAX": max, "PONDERATION": lambda a, b: a * w[0] + b * w[1]}[name]
    perm, perm2 = (list(ctx.permutation(k, [0, 1])) for k in ("order", "new order"))
    s = RM.RCPSPSolution(p.list_problem[0], rcpsp_permutation=list(perm), rcpsp_modes=[1, 1])
    for pe in (perm, perm2):
        s.rcpsp_permutation = list(pe)
        ends = [k.sgs(pe, [1, 1])[0][k.sink][1] for k in (i, j)]
        ctx.check(near(p.evaluate(s)["makespan"], agg(*ends)), "aggregate of the scenarios")
        ctx.check(near(p.evaluate_from_encoding(list(pe), "rcpsp_permutation")["makespan"], agg(*ends)), "aggregate of the scenarios from an encoding")
    z = p.get_dummy_solution()
    ctx.check(near(p.evaluate(z)["makespan"], agg(*[k.sgs([0, 1], [1, 1])[0][k.sink][1] for k in (i, j)])), "dummy solution")
    u = p.get_unique_rcpsp_model()
    for t in i.tasks:
        ctx.check(u.mode_details[t][1]["duration"] == int(agg(i.dur[t][1], j.dur[t][1])), "one model with aggregated durations")
    ctx.check(p.list_problem[0].mode_details[2][1]["duration"] == i.dur[2][1], "the scenarios are left alone")


@harness("C24", "uncertain", configs=[dict(method=m) for m in RM.MethodBaseRobustification.__members__], functions=["create_poisson_laws", "UncertainRCPSPModel.create_rcpsp_model"], bounds="2 tasks with durations 0..5 and a need 0..3 of a renewable and a non renewable resource, ranges 1 to 3")
def uncertain(ctx):
    i = Inst(ctx, "free2", nonren=("N1",), cmin=3, cmax=3, dmax=0)
    i.dur[2][1] = ctx.index("long", 6)
    i.need[2][1] = {r: ctx.index("need " + r, 4) for r in i.res}
    i.need[3][1] = {"R1": 1, "N1": 1}
    i.dur[3][1] = 2
    p = i.model()
    rr, rd = 1 + ctx.index("range need", 2), 1 + 2 * ctx.index("range duration", 2)
    dor, dod = ctx.bool("needs"), ctx.bool("durations")
    laws = RM.create_poisson_laws(p, rr, rd, bool(dor), bool(dod))
    law = {}
    for t in i.tasks:
        d, n = i.dur[t][1], i.need[t][1]["R1"]
        e = {}
        if dod:
            e["duration"] = (max(1, d - rd), d, d + rd) if t in i.real else (d, d, d)
        if dor:
            e["R1"] = (max(0, n - rr), n, min(n + rr, i.cap["R1"])) if t in i.real else (n, n, n)
        if e:
            law[t] = e
    ctx.check({t: v[1] for t, v in laws.items()} == law, "laws around the nominal values, within the capacity")
    if not (dor or dod):
        return
    # a law whose values are all possible
    ctx.assume(all(a <= c for e in law.values() for a, _, c in e.values()))
    np.random.seed(0)
    u = RM.UncertainRCPSPModel(p, laws, uniform_law=True)
    q = u.create_rcpsp_model(RM.MethodRobustification(RM.MethodBaseRobustification[ctx.config["method"]], 50))
    for t in i.tasks:
        for k, nominal in dict(i.need[t][1], duration=i.dur[t][1]).items():
            v = q.mode_details[t][1][k]
            if t not in i.real or k not in law.get(t, {}):
                ctx.check(v == nominal, "what is certain is kept")
                continue
            a, _, b = law[t][k]
            m = ctx.config["method"]
            if m == "AVERAGE":
                ctx.check((a + b) / 2 - 1 < v <= (a + b) / 2 + 1e-9, "average")
            elif m == "PERCENTILE":
                ctx.check(max(a, min(1, b)) <= v <= max(b, 1), "percentile within the law")
            else:
                ctx.check({"WORST_CASE": v == b, "BEST_CASE": v == a, "SAMPLE": a <= v <= b}[m], m)
    ctx.check(p.mode_details == i.details(), "the nominal problem is left alone")


@harness("C24", "helpers", configs=[dict(n=1)], functions=["RCPSP_H_Model.evaluate", "rcpsp_pre_helper_correction"], bounds="1 assisted task and 1 other task, durations 0..2, one assistant, capacity 1..3 and needs 0..2, every order")
def helpers(ctx):
    symbolic_arrays(ctx)
    # tasks: 2 other, 3 assisted, 4 helper before, 5 helper after
    i = Inst(ctx, "free2", cmin=1, dmax=2)
    for t in i.real:
        ctx.assume(i.need[t][1]["R1"] <= i.cap["R1"])
    hd = 1 + ctx.index("helping", 2)
    det = {1: {1: {"R1": 0, "R2": 0, "duration": 0}}, 6: {1: {"R1": 0, "R2": 0, "duration": 0}}}
    for t in (2, 3):
        det[t] = {1: {"R1": i.need[t][1]["R1"], "R2": 0, "duration": i.dur[t][1]}}
    busy = ctx.bool("the other task needs the assistant")
    if busy:
        det[2][1]["R2"] = 1
    for t in (4, 5):
        det[t] = {1: {"R1": 0, "R2": 1, "duration": hd}}
    det = {t: det[t] for t in sorted(det)}
    succ = {1: [2, 3, 4, 5], 2: [6], 3: [5, 6], 4: [3], 5: [6], 6: []}
    base = RM.SingleModeRCPSPModel({"R1": i.cap["R1"], "R2": 1}, [], det, succ, 12)
    p = RM.RCPSP_H_Model(base, {3: [4]}, {3: [5]})
    perm = list(ctx.permutation("order", [0, 1, 2, 3]))
    plain = times_of(RM.RCPSPSolution(base, rcpsp_permutation=list(perm), rcpsp_modes=[1] * 4))
    s = RM.RCPSPSolution(p, rcpsp_permutation=list(perm), rcpsp_modes=[1] * 4)
    e = p.evaluate(s)
    got = times_of(s)
    for t in plain:
        ctx.check(land(got[t][0] == plain[t][0], got[t][1] == plain[t][1]) if t != 4 else land(got[t][0] >= plain[t][0], got[t][1] - got[t][0] == hd, got[t][1] <= got[3][0]), "only the helper before is moved, and later")

    def taken(st):
        """the assistant does something else while helping from st on"""
        return lor(*[land(st < got[t][1], got[t][0] < st + hd, got[t][0] < got[t][1]) for t in ((2, 5) if busy else (5,))])
    ctx.check(lnot(taken(got[4][0])), "the assistant helps one task at a time")
    for k in range(1, 13):
        ctx.check(implies(got[4][0] + k + hd <= got[3][0], taken(got[4][0] + k)), "the helper before is moved as late as possible")
    ctx.check(e["makespan"] == plain[6][1], "makespan")
    ctx.check(e["cumulated_helper_gap"] == got[3][0] - got[4][1] + got[5][0] - got[3][1], "gap between the task and its helpers")
    ctx.check(p.satisfy(s) is True, "satisfied")
