"""C20: pausing, resuming and time-varying needs in the scheduling domains."""
from vsym.registry import harness
from .sched import *

FUNCS = ["SchedulingDomain.update_pause_tasks", "update_resume_tasks", "update_start_tasks", "update_res_consumption", "update_complete_tasks", "get_possible_resume_tasks",
         "get_possible_starting_tasks", "check_if_action_can_be_started", "Task.get_task_active_time", "SchedulingActionSpace", "VaryingModeConsumption"]


class PreemptDomain(SD.DeterministicSchedulingDomain, SD.SingleMode, SD.DeterministicTaskDuration, SD.DeterministicTaskProgress, SD.WithoutResourceUnit, SD.WithoutPreallocations,
                    SD.WithoutTimeLag, SD.WithoutTimeWindow, SD.WithoutResourceSkills, SD.WithoutResourceAvailabilityChange, SD.WithoutConditionalTasks, SD.WithoutModeCosts, SD.WithoutResourceCosts):
    def __init__(self, d):
        self.d = d
        self.modes = {t: VaryingModeConsumption(dict(d.needs[t][1])) if any(isinstance(v, list) for v in d.needs[t][1].values()) else ConstantModeConsumption(dict(d.needs[t][1])) for t in d.tasks}
        self.initialize_domain()

    def _get_tasks_mode(self):
        return self.modes

    def _get_resource_renewability(self):
        return self.d.renewable

    def _get_max_horizon(self):
        return self.d.horizon

    def _get_successors(self):
        return self.d.succ

    def _get_tasks_ids(self):
        return list(self.d.tasks)

    def _get_task_duration(self, task, mode=1, progress_from=0.):
        return self.d.dur[task][mode]

    def _get_original_quantity_resource(self, resource, **kw):
        return self.d.cap[resource]

    def _get_resource_types_names(self):
        return list(self.d.res)

    def _get_objectives(self):
        return [SD.SchedulingObjectiveEnum.MAKESPAN]

    def _get_task_preemptivity(self):
        return self.d.preempt

    def _get_task_resuming_type(self):
        return {t: ResumeType.Restart if self.d.restart[t] else ResumeType.Resume for t in self.d.tasks}

    def _get_task_paused_non_renewable_resource_returned(self):
        return self.d.returned


def TM(ctx):
    return 3 if ctx.tier == "thorough" else 2


def paused_sched(ctx, d, tmax):
    s = any_sched(ctx, d, tmax=tmax, statuses=("todo", "run", "done", "pause"))
    return s


@harness("C20", "preemptive", configs=[dict(prec=p, restart=r, ren=n) for p in ("pair", "pairchain") for r in (False, True) for n in ("r", "n")],
         expect=("start", "wait", "pause", "resume", "stays paused"), functions=FUNCS,
         bounds="2 tasks that may be paused once and resumed, restarting or continuing, 1 resource, non-renewables returned or not; any consistent position at time 0..2 (3 in thorough), one transition")
def preemptive(ctx):
    c = ctx.config
    d = data(ctx, c["prec"], nres=1, renewable={"R0": c["ren"] == "r"}, horizon=TM(ctx))
    d.preempt = {t: True for t in d.tasks}
    d.restart = {t: c["restart"] for t in d.tasks}
    ret = c["ren"] == "r" or bool(ctx.bool("returned"))
    d.returned = {1: ret, 2: ret if c["restart"] else True}
    s = paused_sched(ctx, d, TM(ctx))
    dom = PreemptDomain(d)
    transition(ctx, dom, s, pick(ctx, s, feasible=False))


@harness("C20", "preemptive_offered", configs=[dict(prec=p, restart=r) for p in ("pair", "pairchain") for r in (False, True)], expect=("offered", "wait only"), functions=FUNCS,
         bounds="as preemptive; the offered actions, each task may or may not be paused")
def preemptive_offered(ctx):
    c = ctx.config
    d = data(ctx, c["prec"], nres=1, horizon=3)
    d.preempt = {t: bool(ctx.bool("may pause%d" % t)) for t in d.tasks}
    d.restart = {t: c["restart"] for t in d.tasks}
    s = paused_sched(ctx, d, TM(ctx))
    offered(ctx, PreemptDomain(d), s)


@harness("C20", "varying", configs=[dict(prec=p, restart=r) for p in ("pair", "pairchain") for r in (False, True)], expect=("start", "wait", "refused", "pause", "resume"), functions=FUNCS,
         bounds="2 tasks, durations 1..2, needs given for each step of the execution, with pauses; any consistent position at time 0..2 (3 in thorough), one transition, and the offered actions")
def varying(ctx):
    c = ctx.config
    succ = PRECEDENCES[c["prec"]]
    durs = {t: ctx.index("length%d" % t, TM(ctx)) + 1 for t in succ}
    needs = {t: {1: {"R": [ctx.int("need_%d_%d" % (t, i), 0, 2) for i in range(durs[t])]}} for t in succ}
    d = Data(succ, needs, {t: {1: durs[t]} for t in succ}, {"R": ctx.int("cap", 0, 3)}, {"R": True}, 3)
    d.preempt = {t: True for t in d.tasks}
    d.restart = {t: c["restart"] for t in d.tasks}
    s = paused_sched(ctx, d, TM(ctx))
    dom = PreemptDomain(d)
    if ctx.bool("list"):
        offered(ctx, dom, s)
    else:
        transition(ctx, dom, s, pick(ctx, s, feasible=False))


@harness("C20", "paused_twice", configs=[dict(restart=r, ren=n) for r in (False, True) for n in ("r", "n")], expect=("start", "wait", "pause", "resume", "stays paused"), functions=FUNCS,
         bounds="2 independent tasks, one that was interrupted twice (any stretches of 0..1 steps, 0..2 in thorough, before, between and after), needs given for each step of the execution or constant non-renewable ones; one transition, and the offered actions")
def paused_twice(ctx):
    c = ctx.config
    succ = PRECEDENCES["pair"]
    n, renewable = 4, c["ren"] == "r"
    needs = {t: {1: {"R": [ctx.int("need_%d_%d" % (t, i), 0, 2) for i in range(n)] if renewable else ctx.int("need_%d" % t, 0, 2)}} for t in succ}
    d = Data(succ, needs, {t: {1: n} for t in succ}, {"R": ctx.int("cap", 0, 3 if renewable else 7)}, {"R": renewable}, 20)
    d.preempt = {t: True for t in d.tasks}
    d.restart = {t: c["restart"] for t in d.tasks}
    d.returned = {1: renewable or bool(ctx.bool("returned")), 2: True}
    s = Sched(d)
    size = TM(ctx)
    b = [ctx.index("before%d" % i, size) for i in range(2)]
    g = [ctx.index("gap%d" % i, size) for i in range(2)]
    s.status[1], s.mode[1], s.dur[1], s.start[1] = ctx.choice("status", ("run", "pause")), 1, n, ctx.index("start", 2)
    first = s.start[1] + b[0]
    second = first + g[0] + b[1]
    s.paused[1], s.resumed[1] = [first, second], [first + g[0]]
    s.age[1], s.t, s.lost[1] = (b[1] if c["restart"] else b[0] + b[1]), second + g[1], 0 if d.returned[1] else 2
    if s.status[1] == "run":
        after = ctx.index("after", size)
        s.resumed[1].append(s.t)
        s.age[1] = after if c["restart"] else s.age[1] + after
        s.t += after
    ctx.assume(s.age[1] < n)
    dom = PreemptDomain(d)
    if renewable and ctx.bool("list"):
        offered(ctx, dom, s)
    else:
        transition(ctx, dom, s, pick(ctx, s, feasible=False))
