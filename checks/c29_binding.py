"""C29: projects keep their meaning between domains and optimisation models, and their solutions are played as policies."""
from vsym.registry import harness
from vsym.engine import land, lor, lnot, ite
from checks import milp  # noqa: stand-ins of the libraries that are not installed
from checks.c24_rcpsp import Inst as Single, symbolic_arrays, times_of
from checks.c28_multiskill import Inst as Multi
from skdecide import DiscreteDistribution
from skdecide.builders.discrete_optimization.rcpsp import rcpsp_model as RM
from skdecide.builders.discrete_optimization.rcpsp_multiskill import rcpsp_multiskill as MS
from skdecide.builders.discrete_optimization.generic_tools.result_storage.result_storage import ResultStorage
from skdecide.builders.scheduling import scheduling_domains as SD
from skdecide.builders.scheduling.modes import ConstantModeConsumption
from skdecide.hub.domain.rcpsp import rcpsp_sk as SK
from skdecide.hub.solver.do_solver import sk_to_do_binding as BD, do_solver_scheduling as DS
from skdecide.hub.solver.sgs_policies.sgs_policies import PolicyMethodParams, BasePolicyMethod as B


def single(ctx, kind, shape="chain2", horizon=4, **k):
    return Single(ctx, shape, modes=2 if kind in ("modes", "costs") else 1, nonren=("N",) if kind in ("modes", "costs", "calendar") else (), cal=kind in ("calendar", "calendar1"), horizon=horizon, cmin=1, **k)


def flat(i, r):
    """the resource over time"""
    return [i.c(r, u) for u in range(i.horizon)]


def listed(i, sparse=()):
    """the needs, without those of the tasks named by sparse (which are zero)"""
    return {t: {k: {x: v for x, v in d.items() if not (t in sparse and x in i.res)} for k, d in m.items()} for t, m in i.details().items()}


def domain(i, kind, sparse=()):
    """the domain written by hand from the data"""
    args = dict(resource_names=list(i.res), task_ids=list(i.tasks), tasks_mode=listed(i, sparse), successors=i.succ, max_horizon=i.horizon,
                resource_availability={r: list(i.cap[r]) if isinstance(i.cap[r], list) else i.cap[r] for r in i.res}, resource_renewable={r: r not in i.nonren for r in i.res})
    if kind == "modes":
        return SK.MRCPSP(**args)
    if kind == "rcpsp":
        return SK.RCPSP(**args)
    if kind == "calendar":
        return SK.MRCPSPCalendar(**args)
    if kind == "calendar1":
        return SK.RCPSPCalendar(**args)
    base = {"pure": SD.SingleModeRCPSP, "costs": SD.MultiModeRCPSPWithCost, "pure calendar": SD.SingleModeRCPSPCalendar, "random": SD.SingleModeRCPSP_Stochastic_Durations}[kind]
    details = {t: {k: ConstantModeConsumption({r: i.need[t][k][r] for r in i.res if t not in sparse}) for k in i.dur[t]} for t in i.tasks}

    class Hand(base):
        def _get_tasks_ids(self):
            return list(i.tasks)

        def _get_tasks_mode(self):
            return {t: details[t][1] for t in details}

        def _get_tasks_modes(self):
            return {t: {1: details[t][1]} for t in details} if base is not SD.MultiModeRCPSPWithCost else details

        def _get_successors(self):
            return i.succ

        def _get_max_horizon(self):
            return i.horizon

        def _get_resource_types_names(self):
            return list(i.res)

        def _get_objectives(self):
            return [SD.SchedulingObjectiveEnum.MAKESPAN]

        if kind in ("pure calendar",):
            def _get_quantity_resource(self, resource, time, **kwargs):
                return i.cap[resource][time]
        else:
            def _get_original_quantity_resource(self, resource, **kwargs):
                return i.cap[resource]

        if kind == "random":
            def _get_task_duration_distribution(self, task, mode=1, progress_from=0., multivariate_settings=None):
                d = i.dur[task][mode]
                return DiscreteDistribution([(d, 0.5), (d + 1, 0.5)] if d else [(0, 1.)])
        else:
            def _get_task_duration(self, task, mode=1, progress_from=0.):
                return i.dur[task][mode]

        if kind == "costs":
            def _get_resource_renewability(self):
                return {r: r not in i.nonren for r in i.res}

            def _get_mode_costs(self):
                return {t: {k: 1. for k in i.dur[t]} for t in i.tasks}

            def _get_resource_cost_per_time_unit(self):
                return {r: 1. for r in i.res}

    d = Hand()
    d.initialize_domain()
    return d


KINDS = ("pure", "rcpsp", "modes", "costs", "calendar", "calendar1", "pure calendar", "random")


def same_model(ctx, i, m, what, longer=None):
    ctx.check({t: set(v) for t, v in m.mode_details.items()} == {t: set(i.dur[t]) for t in i.tasks}, what + "tasks and modes")
    ctx.check(land(*[m.mode_details[t][k].get(r, 0) == i.need[t][k][r] for t in i.tasks for k in i.dur[t] for r in i.need[t][k]]), what + "needs")
    if longer is None:
        ctx.check(all(m.mode_details[t][k]["duration"] == i.dur[t][k] for t in i.tasks for k in i.dur[t]), what + "durations")
    ctx.check({t: sorted(v) for t, v in m.successors.items()} == {t: sorted(v) for t, v in i.succ.items()}, what + "precedences")
    ctx.check(set(m.non_renewable_resources) == set(i.nonren) and m.horizon == i.horizon and m.horizon_multiplier == 1, what + "renewability and horizon")


@harness("C29", "to_model", configs=[dict(kind=k, shape=s, sparse=z) for k in KINDS for s, z in (("free2", ()), ("chain2", ()), ("free2", (1, 3, 4)))], expect=("end",), functions=["build_do_domain", "RCPSP", "MRCPSP", "RCPSPCalendar", "MRCPSPCalendar"],
         bounds="2 tasks between a source and a sink, up to 2 modes, durations 0..2, needs 0..2, a renewable resource (any calendar over 4 steps, or a capacity 1..3) and a non-renewable one")
def to_model(ctx):
    kind = ctx.config["kind"]
    i = single(ctx, "calendar1" if kind == "pure calendar" else kind, ctx.config["shape"])
    ctx.stub_random()
    sparse = ctx.config["sparse"]  # tasks that do not list the resources they do not need
    for t in sparse:
        for k in i.need[t]:
            i.need[t][k] = {r: 0 for r in i.res}
    d = domain(i, kind, sparse)
    m = BD.build_do_domain(d)
    ctx.check(all(r in m.mode_details[t][k] for t in i.tasks for k in i.dur[t] for r in i.res), "the model states every need")
    same_model(ctx, i, m, "", longer=kind == "random" or None)
    if kind == "random":
        for t in i.tasks:
            v = m.mode_details[t][1]["duration"]
            ctx.check(lor(v == i.dur[t][1], v == i.dur[t][1] + 1 if i.dur[t][1] else False), "durations are drawn from their distributions")
    cal = "calendar" in kind
    ctx.check(isinstance(m, RM.RCPSPModelCalendar if cal else RM.MultiModeRCPSPModel if kind in ("rcpsp", "modes", "costs") else RM.SingleModeRCPSPModel), "kind of model")
    for r in i.res:
        if cal:
            ctx.check(land(*[m.resources[r][u] == i.cap[r][u] for u in range(i.horizon)]), "availability over time")
        else:
            ctx.check(m.resources[r] == i.cap[r], "capacity")
    ctx.check(set(m.resources) == set(i.res), "resources")
    m.mode_details[2][1]["duration"] = 99
    ctx.check(kind == "random" or d.get_task_duration(2, 1) == i.dur[2][1], "the domain is independent of the model")
    ctx.reach("end")


def skilled(ctx, cal, shape="free2", names=None, horizon=3, short=1, **k):
    return Multi(ctx, shape, cal=cal, names=names, horizon=horizon, short=short, **dict(dict(workers=2, skills=("S",), nonren=("N",), dmax=1), **k))


def units(i):
    return {w: str(w) for w in i.workers}


def ms_domain(i, cal, sparse=()):
    u = units(i)
    avail = {r: list(i.cap[r]) if cal else i.cap[r][0] for r in i.res}
    avail.update({u[w]: [int(x) for x in i.cal[w]] if cal else 1 for w in i.workers})
    return (SK.MSRCPSPCalendar if cal else SK.MSRCPSP)(skills_names=list(i.skills), resource_unit_names=[u[w] for w in i.workers], resource_type_names=list(i.res), resource_skills={u[w]: dict(i.skill[w]) for w in i.workers},
                                                         task_ids=list(i.tasks), tasks_mode=listed(i, sparse), successors=i.succ, max_horizon=i.horizon, resource_availability=avail,
                                                         resource_renewable={r: r not in i.nonren for r in list(i.res) + list(u.values())})


def same_ms(ctx, i, m, what, ids=None):
    """ids[worker] of the data -> its identifier in the model"""
    same_model(ctx, i, m, what)
    ctx.check(isinstance(m, MS.MS_RCPSPModel_Variant), what + "kind of model")
    ctx.check(set(m.resources_set) == set(i.res) and all(land(*[m.resources_availability[r][u] == i.cap[r][u] for u in range(i.horizon)]) for r in i.res), what + "availability over time")
    used = {s for w in i.workers for s in i.skill[w]} | {s for t in i.tasks for k in i.dur[t] for s in i.skills}
    ctx.check(set(m.skills_set) <= set(i.skills) and (set(m.skills_set) >= {s for w in i.workers for s in i.skill[w]}) and used >= set(m.skills_set), what + "skills")
    ctx.check(set(m.employees) == set(ids.values()), what + "workers")
    for w in i.workers:
        e = m.employees[ids[w]]
        ctx.check({s: x.skill_value for s, x in e.dict_skill.items()} == i.skill[w], what + "skills of the workers")
        ctx.check([bool(x) for x in e.calendar_employee[:i.horizon]] == [bool(x) for x in i.cal[w][:i.horizon]], what + "calendars of the workers")
    ctx.check(m.source_task == 1 and m.sink_task == i.sink and not m.one_unit_per_task_max, what + "source and sink")


@harness("C29", "to_skills", configs=[dict(cal=c, names=n, sparse=z) for c in (False, True) for n, z in ((None, (1, 4)), (("b", "a"), ()), ((9, 10), ()))], expect=("end",), functions=["build_do_domain", "MSRCPSP", "MSRCPSPCalendar"],
         bounds="2 tasks, 2 workers of several names, needs 0..2, skills 0..2, a renewable and a non-renewable resource, calendars that vary at the first step")
def to_skills(ctx):
    c = ctx.config
    ctx.patch(BD, "print", lambda *a: None)
    i = skilled(ctx, c["cal"], names=c["names"])
    m = BD.build_do_domain(ms_domain(i, c["cal"], c["sparse"]))
    ctx.check(all(r in m.mode_details[t][k] for t in i.tasks for k in i.dur[t] for r in i.res), "the model states every need")
    ids = {w: k for k, w in enumerate(sorted(i.workers, key=str))}
    same_ms(ctx, i, m, "", ids)
    total = lambda u: sum(1 for w in i.workers if i.cal[w][u])
    ctx.check([m.employees_availability[u] for u in range(i.horizon)] == [total(u) for u in range(i.horizon)], "workers there at each time")
    ctx.reach("end")


def same_domain(ctx, i, d, cal, what, peak=False):
    ctx.check(sorted(d.get_tasks_ids()) == i.tasks and {t: sorted(v) for t, v in d.get_successors().items()} == {t: sorted(v) for t, v in i.succ.items()}, what + "tasks and precedences")
    modes = d.get_tasks_modes()
    ctx.check({t: set(v) for t, v in modes.items()} == {t: set(i.dur[t]) for t in i.tasks}, what + "modes")
    ctx.check(land(*[modes[t][k].get_resource_need_at_time(r, 0) == i.need[t][k][r] for t in i.tasks for k in i.dur[t] for r in i.res]), what + "needs")
    ctx.check(land(*[d.get_task_duration(t, k) == i.dur[t][k] for t in i.tasks for k in i.dur[t]]), what + "durations")
    ctx.check(d.get_max_horizon() == i.horizon and set(d.get_resource_types_names()) == set(i.res), what + "horizon and resources")
    ren = d.get_resource_renewability()
    ctx.check(all(bool(ren[r]) == (r not in i.nonren) for r in i.res), what + "renewability")
    for r in i.res:
        full = [i.cap[r][u] if isinstance(i.cap[r], list) else i.cap[r] for u in range(i.horizon)]
        if peak:
            # a capacity that is reached at some time and never exceeded
            v = d.get_original_quantity_resource(r)
            whole = i.cap[r]
            ctx.check(land(lor(*[v == x for x in whole]), *[v >= x for x in whole]), what + "the most there ever is")
        else:
            ctx.check(land(*[d.get_quantity_resource(r, u) == full[u] for u in range(i.horizon)]), what + "availability")


@harness("C29", "to_domain", configs=[dict(kind=k, shape="chain2") for k in ("pure", "modes", "calendar", "peak")], expect=("end",), functions=["build_sk_domain", "build_do_domain"],
         bounds="2 tasks, up to 2 modes, durations 0..2, needs 0..2, a renewable resource (any calendar over 4 steps, or a capacity) and a non-renewable one; and back")
def to_domain(ctx):
    kind = ctx.config["kind"]
    cal = kind in ("calendar", "peak")
    i = single(ctx, "calendar" if cal else kind, ctx.config["shape"], **(dict(cmax=1) if cal else {}))
    m = i.model()
    d = BD.build_sk_domain(m, varying_ressource=kind == "calendar")
    same_domain(ctx, i, d, cal, "", peak=kind == "peak")
    if kind != "peak":
        back = BD.build_do_domain(d)
        same_model(ctx, i, back, "and back: ")
        for r in i.res:
            ctx.check(land(*[back.resources[r][u] == i.cap[r][u] for u in range(i.horizon)]) if cal else back.resources[r] == i.cap[r], "and back: availability")
    ctx.check(m.mode_details == i.details(), "the model is left alone")
    ctx.reach("end")


@harness("C29", "to_units", configs=[dict(cal=c, names=n) for c in (False, True) for n in (None, (9, 10))], expect=("end",), functions=["build_sk_domain", "build_do_domain"],
         bounds="2 tasks, 2 workers, needs 0..2, skills 0..2, a renewable and a non-renewable resource, calendars that vary at the first step; and back")
def to_units(ctx):
    c = ctx.config
    ctx.patch(BD, "print", lambda *a: None)
    i = skilled(ctx, c["cal"], names=c["names"])
    d = BD.build_sk_domain(i.model(), varying_ressource=c["cal"])
    same_domain(ctx, i, d, c["cal"], "")
    u = units(i)
    ctx.check(list(d.get_resource_units_names()) == [u[w] for w in i.workers], "the workers are units")
    for w in i.workers:
        ctx.check(d.get_skills_of_resource(u[w]) == i.skill[w] and d.is_renewable(u[w]), "skills of the workers")
        ctx.check([d.get_quantity_resource(u[w], t) for t in range(i.horizon)] == [int(bool(x)) for x in i.cal[w][:i.horizon]], "calendars of the workers")
    for t in i.tasks:
        for k in i.dur[t]:
            ctx.check(land(*[d.get_skills_of_task(t, k).get(s, 0) == i.need[t][k][s] for s in i.skills]), "skills needed")
    back = BD.build_do_domain(d)
    same_ms(ctx, i, back, "and back: ", {w: k for k, w in enumerate(sorted(i.workers, key=str))})
    ctx.reach("end")


def play(ctx, d, policy, steps):
    m = d.get_initial_state()
    for _ in range(steps):
        if d.is_goal(m):
            break
        m = d.get_next_state(m, policy.get_next_action(m))
    ctx.check(bool(d.is_goal(m)), "a feasible solution is played to the end")
    return m


@harness("C29", "played", configs=[dict(kind=k, shape=s) for k, s in (("rcpsp", "free2"), ("rcpsp", "chain2"), ("rcpsp", "join3"), ("modes", "free2"), ("calendar", "free2"))], expect=("end",),
         functions=["from_solution_to_policy", "from_last_state_to_solution", "build_do_domain", "PolicyRCPSP"],
         bounds="2 or 3 tasks of durations 1..2 (tasks without duration need nothing), any feasible schedule starting within 0..2, up to 2 modes")
def played(ctx):
    """a solution of the model, followed in the domain, gives the same schedule, and that schedule is read back"""
    c = ctx.config
    big = c["shape"] == "join3"
    i = single(ctx, c["kind"], c["shape"], horizon=6 if not big else 8, **dict(dict(dmax=1) if big or c["kind"] in ("modes", "calendar") else {}, **(dict(cmax=1) if c["kind"] == "calendar" else {})))
    d = domain(i, c["kind"])
    ids = ctx.choice("ids", (list(i.tasks), list(i.tasks[::-1])))
    d.task_ids = ids
    p = BD.build_do_domain(d)
    modes = [ctx.choice("mode%d" % t, sorted(i.dur[t])) for t in i.real]
    mode = dict(zip(i.tasks, [1] + modes + [1]))
    times = {1: (0, 0)}
    for t in i.real:
        s = ctx.index("start%d" % t, 2 if big else 3)
        times[t] = (s, s + i.dur[t][mode[t]])
    end = max(times[t][1] for t in i.real)
    times[i.sink] = (end, end)
    ctx.assume(i.feasible(times, modes))
    sol = RM.RCPSPSolution(problem=p, rcpsp_permutation=None, rcpsp_modes=list(modes), rcpsp_schedule={t: dict(start_time=times[t][0], end_time=times[t][1]) for t in ctx.choice("listing", (i.tasks, i.tasks[::-1]))})
    policy = DS.from_solution_to_policy(sol, d, PolicyMethodParams(B.FOLLOW_GANTT))
    m = play(ctx, d, policy, end + len(i.tasks) + 2)
    got = {t: (m.tasks_details[t].start, m.tasks_details[t].end) for t in i.tasks}
    ctx.check(got == times, "each task starts and ends when scheduled")
    ctx.check({t: m.tasks_mode[t] for t in i.tasks} == mode, "in its mode")
    back = BD.from_last_state_to_solution(m, d)
    ctx.check(times_of(back) == times and list(back.rcpsp_modes) == modes, "the schedule played is read back")
    ctx.check(bool(back.problem.satisfy(back)), "and is feasible for the model")
    ctx.check(sol.rcpsp_schedule == {t: dict(start_time=times[t][0], end_time=times[t][1]) for t in i.tasks} and list(sol.rcpsp_modes) == modes, "the solution is left alone")
    ctx.reach("end")


@harness("C29", "staffed", configs=[dict(cal=c, names=n, how=h) for c, n in ((False, None), (True, None), (False, (9, 10))) for h in ("schedule", "priorities")], expect=("end",),
         functions=["from_solution_to_policy", "build_do_domain", "MSRCPSP", "MSRCPSPCalendar"], bounds="2 tasks, 2 workers, any feasible schedule within 0..2 or any priorities")
def staffed(ctx):
    c = ctx.config
    for mod in (BD, MS):
        ctx.patch(mod, "print", lambda *a: None)
    i = skilled(ctx, c["cal"], names=c["names"], horizon=5, short=2 if c["cal"] else 1, nonren=(), res=())
    d = ms_domain(i, c["cal"])
    p = BD.build_do_domain(d)
    ids = {w: k for k, w in enumerate(sorted(i.workers, key=str))}
    unit = {ids[w]: str(w) for w in i.workers}
    if c["how"] == "schedule":
        times = {1: (0, 0)}
        for t in i.real:
            s = ctx.index("start%d" % t, 3)
            times[t] = (s, s + i.dur[t][1])
        end = max(times[t][1] for t in i.real)
        times[i.sink] = (end, end)
        usage = {t: {w: set(i.skills) for w in i.workers if i.skill[w] and ctx.bool("uses%d_%s" % (t, w))} for t in i.real}
        usage = {t: v for t, v in usage.items() if v}
        ctx.assume(i.feasible(times, {t: 1 for t in i.tasks}, usage))
        sol = MS.MS_RCPSPSolution(problem=p, modes={t: 1 for t in i.tasks}, schedule={t: dict(start_time=times[t][0], end_time=times[t][1]) for t in i.tasks}, employee_usage={t: {ids[w]: set(s) for w, s in v.items()} for t, v in usage.items()})
    else:
        import itertools
        order = list(ctx.permutation("order", list(range(i.n))))
        prio = [list(ctx.choice("workers%d" % t, list(itertools.permutations(sorted(ids.values()))))) for t in i.real]
        sol = MS.MS_RCPSPSolution_Variant(problem=p, priority_list_task=order, modes_vector=[1] * i.n, priority_worker_per_task=prio)
        ctx.assume(sol.schedule[i.sink]["end_time"] <= i.horizon)
        times = {t: (v["start_time"], v["end_time"]) for t, v in sol.schedule.items()}
        usage = {t: {w: s for w in i.workers for k, s in v.items() if k == ids[w]} for t, v in sol.employee_usage.items()}
    policy = DS.from_solution_to_policy(sol, d, PolicyMethodParams(B.FOLLOW_GANTT))
    m = d.get_initial_state()
    held = {}
    for _ in range(times[i.sink][1] + len(i.tasks) + 2):
        if d.is_goal(m):
            break
        a = policy.get_next_action(m)
        if a.task is not None:
            held[a.task] = set(a.resource_unit_names or [])
        m = d.get_next_state(m, a)
    ctx.check(bool(d.is_goal(m)), "a feasible solution is played to the end")
    ctx.check({t: (m.tasks_details[t].start, m.tasks_details[t].end) for t in i.tasks} == times, "each task starts and ends when scheduled")
    ctx.check(all(held[t] == {str(w) for w in usage.get(t, {})} for t in i.tasks), "with its workers")
    ctx.reach("end")


@harness("C29", "solved", configs=[dict(kind=k, policy=p) for k in ("rcpsp", "modes") for p in ("FOLLOW_GANTT", "SGS_PRECEDENCE", "SGS_STRICT")], expect=("end",),
         functions=["DOSolver._solve_domain", "build_solver", "from_solution_to_policy", "compute_external_policy", "look_for_solver"],
         bounds="2 tasks of durations 0..1, any capacity 1..3, the greedy solver with any draws; the policy of the solver plays its schedule")
def solved(ctx):
    c = ctx.config
    symbolic_arrays(ctx)
    ctx.stub_random()
    from skdecide.builders.discrete_optimization.rcpsp import rcpsp_solvers as RS
    for mod in (DS, RS):
        ctx.patch(mod, "print", lambda *a: None)
    i = single(ctx, c["kind"], "free2", horizon=6, dmax=1)
    d = domain(i, c["kind"])
    chosen = {}

    class Chosen:
        """stands for any solver: returns some feasible solution"""

        def __init__(self, model, **kwargs):
            self.model = model
            chosen["args"] = kwargs

        def init_model(self, **kwargs):
            raise NotImplementedError

        def solve(self, **kwargs):
            modes = [ctx.choice("mode%d" % t, sorted(i.dur[t])) for t in i.real]
            perm = list(ctx.permutation("order", list(range(i.n))))
            out, fits = i.sgs(perm, modes)
            ctx.assume(fits)
            chosen["times"], chosen["modes"] = out, modes
            s = RM.RCPSPSolution(problem=self.model, rcpsp_permutation=perm, rcpsp_modes=list(modes), rcpsp_schedule={t: dict(start_time=v[0], end_time=v[1]) for t, v in out.items()})
            return ResultStorage(list_solution_fits=[(s, 0.)], mode_optim=RS.ModeOptim.MAXIMIZATION if hasattr(RS, "ModeOptim") else None)

    ctx.patch(DS, "build_solver", lambda solving_method, do_domain: (Chosen, ("greedy", {"a": 1, "b": 2})))
    params = {"b": 3}
    s = DS.DOSolver(PolicyMethodParams(B[c["policy"]]), DS.SolvingMethod.PILE, params)
    s.solve(lambda: d)
    ctx.check(chosen["args"] == {"a": 1, "b": 3}, "the parameters given win over the default ones")
    m = play(ctx, d, s, chosen["times"][i.sink][1] + len(i.tasks) + 2)
    got = {t: (m.tasks_details[t].start, m.tasks_details[t].end) for t in i.tasks}
    ctx.check(got == chosen["times"] if c["policy"] == "FOLLOW_GANTT" else got[i.sink][1] <= chosen["times"][i.sink][1], "the policy plays the solution found")
    ctx.check({t: m.tasks_mode[t] for t in i.real} == dict(zip(i.real, chosen["modes"])), "in its modes")
    q = s.compute_external_policy(PolicyMethodParams(B.FOLLOW_GANTT))
    m = play(ctx, d, q, chosen["times"][i.sink][1] + len(i.tasks) + 2)
    ctx.check({t: (m.tasks_details[t].start, m.tasks_details[t].end) for t in i.tasks} == chosen["times"], "a policy asked later plays it too")
    ctx.reach("end")
