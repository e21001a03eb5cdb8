"""C22: multi-skill scheduling, and what the scheduling characteristics announce about tasks, resources, durations and windows."""
from vsym.registry import harness
from vsym.engine import smin, smax
from .sched import *
from skdecide.hub.domain.rcpsp import rcpsp_sk as SK

FUNCS = ["SchedulingActionSpaceWithResourceUnitSamplable", "SchedulingActionSpaceWithResourceUnit", "check_if_action_can_be_started", "check_if_skills_are_fulfilled", "get_resource_used",
         "find_one_ressource_to_do_one_task", "MSRCPSP", "MSRCPSPCalendar", "SchedulingDomain._get_next_state"]
UNITS = ["U0", "U1"]


class Skilled(Sched):
    """a schedule in which the tasks also hold units"""

    def __init__(self, d, t=0):
        super().__init__(d, t)
        self.units = {k: () for k in d.tasks}

    def clone(self):
        s = super().clone()
        s.__class__ = Skilled
        s.units = dict(self.units)
        return s

    def need(self, k, r, mode=None, age=None, units=None):
        if r in self.d.units:
            return int(r in (self.units[k] if units is None else units))
        return super().need(k, r, mode, age)

    def skilled(self, task, mode, units):
        req = self.d.skills[task][mode]
        have = lambda s: sum((self.d.unit_skills[u].get(s, 0) for u in units), 0)
        return land(*[lor(v <= 0, have(s) >= v) for s, v in req.items()])

    def begin(self, task, mode, dur, units=()):
        s = super().begin(task, mode, dur)
        s.units[task] = tuple(units)
        return s

    def possible(self):
        return True


def instance(ctx, calendar, pre="pair", sk=("S", "T"), dmax=2):
    succ = PRECEDENCES[pre]
    needs = {t: {1: {"R": ctx.int("need%d" % t, 0, 1)}} for t in succ}
    dur = {t: {1: ctx.int("dur%d" % t, 0, dmax)} for t in succ}
    cap = {"R": ctx.int("cap", 0, 2)}
    cap.update({u: ctx.int("cap_" + u, 0, 1) if not calendar or u == "U0" else 1 for u in UNITS})
    if calendar:
        cap = {r: [v, ctx.int("cap1_" + r, 0, 1) if r != "U1" else 1, 1, 1] for r, v in cap.items()}
    d = Data(succ, needs, dur, cap, {r: True for r in ["R"] + UNITS}, 9)
    d.types, d.units, d.res = ["R"], UNITS, ["R"] + UNITS
    d.skills = {t: {1: {s: ctx.int("req%d%s" % (t, s), 0, 2) for s in sk[:2 if t == 1 else 1]}} for t in succ}
    d.unit_skills = {u: {s: ctx.int("%s%s" % (u, s), 0, 2) for s in sk} for u in UNITS}
    tm = {t: {1: dict(needs[t][1], duration=dur[t][1], **d.skills[t][1])} for t in succ}
    cls = SK.MSRCPSPCalendar if calendar else SK.MSRCPSP
    skills = dict(d.unit_skills)
    if not calendar and ctx.bool("types listed"):
        skills["R"] = {"S": 2}  # skilled, but used by a task only as much as it needs
    d.unit_skills["R"] = skills.get("R", {})
    dom = cls(skills_names=list(sk), resource_unit_names=list(UNITS), resource_type_names=["R"], resource_skills=skills, task_ids=list(d.tasks), tasks_mode=tm, successors=succ, max_horizon=9,
              resource_availability=dict(cap), resource_renewable=dict(d.renewable))
    return d, dom


def any_skilled(ctx, d, tmax):
    base = any_sched(ctx, d, tmax=tmax)
    s = Skilled(d, base.t)
    for k in ("status", "mode", "start", "end", "age", "dur", "lost"):
        setattr(s, k, getattr(base, k))
    for k in d.tasks:
        if s.status[k] == "run":
            s.units[k] = tuple(u for u in UNITS if ctx.bool("holds%d%s" % (k, u)))
    for u in UNITS:
        ctx.assume(s.used(u) <= 1)
    return s


def used_units(d, s, task, units):
    """units, plus the type when some of it is used: what brings skills"""
    return tuple(units) + (("R",) if d.needs[task][1]["R"] > 0 else ())


def can_start(d, s, task, units):
    return land(s.skilled(task, 1, used_units(d, s, task, units)), *[s.need(task, r, 1, 0, units) <= d.capacity(r, s.t) - s.used(r) for r in d.types + list(units)])


def pick_units(ctx):
    return ctx.choice("units", [None, (), ("U0",), ("U1",), ("U0", "U1")])


@harness("C22", "multiskill", configs=[dict(prec=p, calendar=c, task=t) for p, c in (("pair", False), ("pairchain", False), ("pair", True)) for t in (1, 2, None) if not (c and t == 2)],
         expect=("start", "wait", "refused"), functions=FUNCS,
         bounds="2 tasks needing up to 2 skills, 2 units with any skill levels 0..2, 1 resource type, capacities possibly changing over time; any consistent position at time 0..1 (0 for starts); any start with any units, or waiting; one skill when capacities change")
def multiskill(ctx):
    c = ctx.config
    d, dom = instance(ctx, c["calendar"], c["prec"], sk=("S",) if c["calendar"] or c["task"] is None else ("S", "T"), dmax=2 if c["task"] is None else 1)
    s = any_skilled(ctx, d, 1 if c["task"] is None else 0)
    memory = s.build(dom)
    for k in d.tasks:
        if k in memory.resource_used_for_task:
            memory.resource_used_for_task[k] = {r: v for r, v in memory.resource_used_for_task[k].items() if r in d.types or v}
    if c["task"] is not None:
        t = c["task"]
        ctx.assume(s.ready(t))
        units = pick_units(ctx)
        a = SchedulingAction(t, A.START, 1, False, None if units is None else (list(units) if ctx.bool("list") else set(units)))
        ok = can_start(d, s, t, units or ())
        got, _ = dom.check_if_action_can_be_started(memory, a)
        ctx.check(bool(got) == ok, "startable exactly when resources are free and the units used have the skills needed together")
        ctx.check(bool(dom.is_applicable_action(a, memory)) == land(ok, lnot(s.over())), "a start is applicable exactly when it is possible")
        n, label = (s.begin(t, 1, d.dur[t][1], units or ()), "start") if got else (s, "refused")
    else:
        a = SchedulingAction(None, A.TIME_PR, None, True)
        ctx.check(bool(dom.is_applicable_action(a, memory)), "waiting is applicable")
        n, label = s.tick(), "wait"
    nxt = dom.get_next_state(memory, a)
    n.agree(ctx, nxt, "next state")
    s.agree(ctx, memory, "previous state is left alone")
    ctx.check(bool(dom.is_goal(nxt)) == n.finished(), "goal exactly when every task is complete")
    ctx.reach(label)


@harness("C22", "multiskill_drawn", configs=[dict(prec="pair", types=x) for x in (0, 1)], expect=("start", "wait"), functions=FUNCS,
         bounds="as multiskill with unit capacities 0..1; any random draw of an applicable action, and the actions enumerated with one unit per task")
def multiskill_drawn(ctx):
    d, dom = instance(ctx, False, ctx.config["prec"], sk=("S",) if ctx.config["types"] else ("S", "T"), dmax=1)
    s = any_skilled(ctx, d, ctx.config["types"])
    ctx.assume(s.status[2] != "done")
    memory = s.build(dom)
    over = bool(s.over())
    if ctx.config["types"]:
        acts = SD.SchedulingActionSpaceWithResourceUnit(dom, memory).get_elements()
        got = {(a.task, tuple(a.resource_unit_names or ())) for a in acts if a.action == A.START}
        for t in d.tasks:
            if not (s.ready(t) and not over):
                ctx.check(not any(k[0] == t for k in got), "no start of a task that is not ready")
                continue
            need = land(*[v <= 0 for v in d.skills[t][1].values()])
            free = d.needs[t][1]["R"] <= d.capacity("R", s.t) - s.used("R")
            ctx.check(((t, ()) in got) == land(need, free), "a task without skills starts without unit")
            for u in UNITS:
                one = land(lnot(need), free, s.skilled(t, 1, (u,)), s.used(u) + 1 <= d.capacity(u, s.t))
                ctx.check(((t, (u,)) in got) == one, "a unit is proposed exactly when it is free and has the skills on its own")
        ctx.reach("start" if got else "wait")
        return
    ctx.stub_random()
    a = dom.get_applicable_actions(memory).sample()
    ctx.check(a.action in (A.START, A.TIME_PR), "a start or waiting")
    if a.action == A.START:
        units = tuple(a.resource_unit_names or ())
        ctx.check(s.ready(a.task) and a.mode == 1 and not over, "the task drawn is ready")
        ctx.check(can_start(d, s, a.task, units), "the units drawn are free and have the skills needed together")
        ctx.check(len(set(units)) == len(units), "each unit once")
    else:
        ctx.check(a.time_progress is True and a.task is None, "waiting lets time pass")
    ctx.check(bool(dom.is_applicable_action(a, memory)), "the action drawn is applicable")
    s.agree(ctx, memory, "drawing leaves the state alone")
    ctx.reach("start" if a.action == A.START else "wait")


@harness("C22", "skills", functions=["WithResourceSkills.get_skills_names", "get_skills_of_task", "get_skills_of_resource", "find_one_ressource_to_do_one_task", "check_if_skills_are_fulfilled", "WithoutResourceSkills"],
         bounds="2 tasks, 2 modes, 3 resources, 2 skills, all levels 0..2 or absent")
def skills(ctx):
    from skdecide.builders.scheduling.skills import WithResourceSkills, WithoutResourceSkills
    S = ("S", "T")

    def levels(what, m):
        return {k: ctx.int("%s_%s" % (what, k), 0, m) for k in S if ctx.bool("%s_has_%s" % (what, k))}
    res = {"A": levels("A", 2), "B": {"S": ctx.int("B_S", 0, 2), "U": 1}}
    req = {1: {1: levels("req", 3), 2: {"V": 1}}}

    class W(WithResourceSkills):
        def _get_all_resources_skills(self):
            return res

        def _get_all_tasks_skills(self):
            return req
    w = W()
    names = set(w.get_skills_names())
    ctx.check(names == set(res["A"]) | {"S", "U", "V"} | set(req[1][1]), "the skills are those of the resources and of the tasks")
    st = w.get_skills_of_task(1, 1)
    for k in S:
        ctx.check((k in st) == ((req[1][1][k] > 0) if k in req[1][1] else False), "the skills of a task are those it needs")
    needed = {k: v for k, v in req[1][1].items()}
    ok = lambda rs: land(*[lor(v <= 0, sum((res[r].get(k, 0) for r in rs), 0) >= v) for k, v in needed.items()])
    none = land(*[v <= 0 for v in needed.values()])
    one = w.find_one_ressource_to_do_one_task(1, 1)
    if none:
        ctx.check(one == [None], "no resource is needed without skill needs")
    else:
        for r in res:
            ctx.check((r in one) == ok([r]), "a resource can do a task alone exactly when it has every skill needed")
    use = {r: ctx.index("use" + r, 2) for r in res}
    ctx.check(bool(w.check_if_skills_are_fulfilled(1, 1, dict(use, other=1))) == ok([r for r in res if use[r]]), "skills are fulfilled exactly when the resources used have them together")
    wo = WithoutResourceSkills()
    ctx.check(wo.check_if_skills_are_fulfilled(1, 1, use) and wo.find_one_ressource_to_do_one_task(1, 1) == [None] and wo.get_skills_of_task(1, 1) == {} and set(wo.get_skills_names()) == set(), "no skill is needed without skills")


@harness("C22", "windows", functions=["TimeWindow and its variants", "TimeLag and its variants", "WithoutTimeWindow", "WithoutTimeLag"], bounds="any integer bounds")
def windows(ctx):
    from skdecide.builders.scheduling import time_windows as TW, time_lag as TL
    es, ls, ee, le, h, s, e = (ctx.int(x, 0, 20) for x in ("es", "ls", "ee", "le", "h", "s", "e"))
    ctx.assume(land(s <= e, e <= h))

    def allowed(w):
        return land(w.earliest_start <= s, s <= w.latest_start, w.earliest_end <= e, e <= w.latest_end)
    for w, want in [(TW.TimeWindow(es, ls, ee, le, h), land(es <= s, s <= ls, ee <= e, e <= le)), (TW.ClassicTimeWindow(es, le, h), land(es <= s, e <= le)), (TW.StartFromOnlyTimeWindow(es, h), es <= s),
                    (TW.StartBeforeOnlyTimeWindow(ls, h), s <= ls), (TW.EndFromOnlyTimeWindow(ee, h), ee <= e), (TW.EndBeforeOnlyTimeWindow(le, h), e <= le), (TW.StartTimeWindow(es, ls, h), land(es <= s, s <= ls)),
                    (TW.EndTimeWindow(ee, le, h), land(ee <= e, e <= le)), (TW.EmptyTimeWindow(h), True)]:
        ctx.check(allowed(w) == want, type(w).__name__ + " allows exactly its bounds")
    lag = ctx.int("lag", 0, 20)
    for w, want in [(TL.TimeLag(es, ls), land(es <= lag, lag <= ls)), (TL.MinimumOnlyTimeLag(es), es <= lag), (TL.MaximumOnlyTimeLag(ls), lag <= ls)]:
        ctx.check(land(w.minimum_time_lag <= lag, lag <= w.maximum_time_lags) == want, type(w).__name__ + " allows exactly its bounds")

    class N(TW.WithoutTimeWindow, TL.WithoutTimeLag):
        def get_tasks_ids(self):
            return [1, 2]

        def get_max_horizon(self):
            return h
    n = N()
    ctx.check(set(n.get_time_window()) == {1, 2} and n.get_time_lags() == {}, "every task has a window, no lag")
    for w in n.get_time_window().values():
        ctx.check(allowed(w), "without windows everything within the horizon is allowed")


@harness("C22", "durations", functions=["SimulatedTaskDuration", "UncertainMultivariateTaskDuration", "UniformBoundedTaskDuration", "EnumerableTaskDuration", "DeterministicTaskDuration", "DeterministicTaskProgress"],
         bounds="durations that depend on the task, mode and progress already made, any values 0..9")
def durations(ctx):
    from skdecide.builders.scheduling import task_duration as TD
    from skdecide.builders.scheduling.task_progress import DeterministicTaskProgress
    ctx.stub_random()
    val = {(t, m, p): ctx.int("d_%d_%d_%s" % (t, m, p), 0, 9) for t in (1, 2) for m in (1, 2) for p in (0., 0.5)}
    calls = []

    class Sim(TD.SimulatedTaskDuration, DeterministicTaskProgress):
        def __init__(self):
            self.sampled_durations = {}

        def _sample_task_duration(self, task, mode=1, progress_from=0.):
            calls.append((task, mode, progress_from))
            return val[task, mode, progress_from]

    class Det(TD.DeterministicTaskDuration):
        def __init__(self):
            self.sampled_durations = {}

        def _get_task_duration(self, task, mode=1, progress_from=0.):
            return val[task, mode, progress_from]

    class Enu(TD.EnumerableTaskDuration):
        def __init__(self):
            self.sampled_durations = {}

        def _get_task_duration_distribution(self, task, mode=1, progress_from=0., multivariate_settings=None):
            return DiscreteDistribution([(val[task, mode, progress_from], 0.5), (val[task, mode, progress_from] + 2, 0.5)])

    class Uni(TD.UniformBoundedTaskDuration):
        def __init__(self):
            self.sampled_durations = {}

        def _get_task_duration_lower_bound(self, task, mode=1, progress_from=0.):
            return low[task, mode, progress_from]

        def _get_task_duration_upper_bound(self, task, mode=1, progress_from=0.):
            return low[task, mode, progress_from] + 1
    low = {x: 1 + i for i, x in enumerate(sorted(val))}
    k = ctx.choice("which", sorted(val))
    v = val[k]
    which = ctx.choice("class", ["sim", "det", "enu", "uni"])
    if which == "sim":
        s = Sim()
        ctx.check(land(s.sample_task_duration(*k) == v, s.get_latest_sampled_duration(*k) == v, s.sample_task_duration(*k) == v), "a simulated duration is the one sampled")
        ctx.check(calls == [k], "a simulated duration is sampled once")
        ctx.assume(v > 0)
        pr = s.get_task_progress(k[0], 1, 2, k[1], v) - 1 / float(v)
        ctx.check(land(pr < 1e-9, pr > -1e-9), "progress of a step is its share of the duration")
    elif which == "det":
        s = Det()
        ctx.check(land(*[f(*k) == v for f in (s.get_task_duration, s.sample_task_duration, s.get_task_duration_lower_bound, s.get_task_duration_upper_bound, s.get_latest_sampled_duration)]),
                  "a deterministic duration is its own sample and bounds")
        dist = s.get_task_duration_distribution(*k).get_values()
        ctx.check(land(len(dist) == 1, dist[0][0] == v, dist[0][1] == 1), "distribution of a deterministic duration")
    elif which == "enu":
        s = Enu()
        ctx.check(land(s.get_task_duration_lower_bound(*k) == v, s.get_task_duration_upper_bound(*k) == v + 2), "bounds of a discrete duration")
        x = s.sample_task_duration(*k)
        ctx.check(lor(x == v, x == v + 2), "sample of a discrete duration")
    else:
        s = Uni()
        ctx.check(dict(s.get_task_duration_distribution(*k).get_values()) == {low[k]: 0.5, low[k] + 1: 0.5}, "uniform between the bounds")
        ctx.check(s.sample_task_duration(*k) in (low[k], low[k] + 1), "sample between the bounds")


@harness("C22", "defaults", configs=[dict(n=n) for n in (2, 3)], functions=["WithPrecedence", "WithoutPrecedence", "graph_toolbox.Graph", "MultiMode", "SingleMode", "VaryingModeConsumption", "ConstantModeConsumption",
                                              "WithoutPreemptivity", "WithoutModeCosts", "WithoutResourceCosts", "RenewableOnly", "MixedRenewable.all_tasks_possible", "check_unique_resource_names"],
         bounds="every acyclic precedence graph over 2 or 3 tasks; needs 0..2; any set of completed tasks")
def defaults(ctx):
    n = ctx.config["n"]
    ids = list(range(1, n + 1))
    succ = {i: [j for j in ids if j > i and ctx.bool("e%d%d" % (i, j))] for i in ids}
    d = Data(succ, {t: {m: {"R0": ctx.int("need%d_%d" % (t, m), 0, 2) if n == 2 or t == 1 else 1} for m in ((1, 2) if t == 1 else (1,))} for t in ids}, {t: {m: 1 for m in ((1, 2) if t == 1 else (1,))} for t in ids}, {"R0": ctx.int("cap", 0, 3)}, {"R0": False}, 9)
    dom = SK.MRCPSP(resource_names=["R0"], task_ids=ids, tasks_mode=d.modes_dict(), successors=succ, max_horizon=9, resource_availability=dict(d.cap), resource_renewable=dict(d.renewable))
    reach = {i: set() for i in ids}
    for i in reversed(ids):
        for j in succ[i]:
            reach[i] |= {j} | reach[j]
    for t in ids:
        ctx.check(set(dom.get_successors_task(t)) == set(succ[t]) and set(dom.get_predecessors_task(t)) == set(d.pred[t]) == set(dom.get_predecessors()[t]), "direct predecessors and successors")
        ctx.check(set(dom.full_successors[t]) == reach[t] and set(dom.full_predecessors[t]) == {i for i in ids if t in reach[i]}, "all predecessors and successors")
        g = dom.graph
        ctx.check(set(g.get_neighbors(t)) == set(succ[t]) and set(g.get_predecessors(t)) == set(d.pred[t]) and set(g.precedessors_nodes(t)) == {i for i in ids if t in reach[i]}, "graph of the precedence")
    ctx.check(dom.graph.check_loop() is None, "no cycle found in an acyclic precedence")
    st = dom.get_initial_state().copy()
    done = {i for i in ids if ctx.bool("done%d" % i)}
    st.tasks_complete, st.tasks_remaining = done, set(ids) - done
    want = {t for t in ids if t not in done and all(p in done for p in d.pred[t])}
    ctx.check(set(dom.task_possible_to_launch_precedence(st)) == want and set(dom.task_modes_possible_to_launch(st)) == {(t, m) for t in want for m in d.needs[t]}, "tasks that can be launched are those whose predecessors are complete")
    ctx.check(bool(dom.all_tasks_possible(st)) == land(*[lor(*[v["R0"] <= d.cap["R0"] for v in d.needs[t].values()]) for t in st.tasks_remaining]), "remaining tasks are possible when one of their modes is")
    for t in ids:
        for m in d.needs[t]:
            ctx.check(dom.get_task_consumption(t, m, "R0", n - 2) == d.needs[t][m]["R0"], "constant consumption")
            ctx.check(dom.get_task_modes(t)[m].get_resource_need_at_time("other", 0) == 0, "nothing is needed of a resource that is not mentioned")
            ctx.check(("R0" in dom.get_task_modes(t)[m].get_non_zero_ressource_need_names(0)) == (d.needs[t][m]["R0"] > 0), "resources needed")
            ctx.check(dom.get_mode_costs()[t][m] == 0, "no mode cost by default")
        ctx.check(dom.get_task_preemptivity()[t] is False and dom.get_task_paused_non_renewable_resource_returned()[t] is True and dom.get_task_resuming_type()[t] == ResumeType.NA, "no preemption by default")
    ctx.check(dom.get_resource_cost_per_time_unit() == {"R0": 0} and dom.get_preallocations() == {}, "no resource cost nor allocation by default")
    ctx.check(dom.check_unique_resource_names() is True, "resource names are unique")
    for types, units, ok in ((["a", "b"], ["c"], True), (["a", "b"], ["b"], False), (["a", "a"], [], False), ([], [], False), ([], ["u"], True)):
        ctx.patch(dom, "get_resource_types_names", lambda: list(types))
        ctx.patch(dom, "get_resource_units_names", lambda: list(units))
        ctx.check(dom.check_unique_resource_names() is ok, "resource names are unique and there is one")
    del dom.get_resource_types_names, dom.get_resource_units_names
    v = VaryingModeConsumption({"R": [0, 2]})
    ctx.check(v.get_resource_need_at_time("R", 1) == 2 and v.get_non_zero_ressource_need_names(0) == [] and v.get_non_zero_ressource_need_names(1) == ["R"] and list(v.get_ressource_names()) == ["R"] and v.get_resource_need_at_time("X", 0) == 0,
              "consumption given over time")
    from skdecide.builders.scheduling.precedence import WithoutPrecedence

    class P(WithoutPrecedence):
        def get_tasks_ids(self):
            return ids
    ctx.check(P().get_successors() == {i: [] for i in ids} == P().get_predecessors(), "no precedence by default")
