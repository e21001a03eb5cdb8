"""C19: the scheduling domains advance tasks, time and resources exactly as the instance data prescribe."""
from vsym.registry import harness
from vsym.engine import land, lor, lnot, ite, implies, is_sym
from .sched import *
from skdecide.hub.domain.rcpsp import rcpsp_sk as SK

FUNCS = ["SchedulingDomain._get_next_state", "update_start_tasks", "update_complete_dummy_tasks", "update_time", "update_progress", "update_res_consumption", "update_complete_tasks",
         "update_resource_availability", "check_if_action_can_be_started", "get_possible_starting_tasks", "state_is_overconsuming", "all_tasks_possible", "_is_terminal", "_get_goals_",
         "_get_transition_value", "_get_initial_state_", "SchedulingActionSpace", "State.copy", "MRCPSP", "MRCPSPCalendar", "RCPSP", "RCPSPCalendar"]


class CostDomain(SD.MultiModeRCPSPWithCost):
    def __init__(self, d, mode_cost, res_cost, objectives):
        self.d, self.mode_cost, self.res_cost, self.objectives = d, mode_cost, res_cost, objectives
        self.modes = {t: {m: ConstantModeConsumption(dict(d.needs[t][m])) for m in d.needs[t]} for t in d.tasks}
        self.initialize_domain()

    def _get_tasks_modes(self):
        return self.modes

    def _get_resource_renewability(self):
        return self.d.renewable

    def _get_max_horizon(self):
        return self.d.horizon

    def _get_successors(self):
        return self.d.succ

    def _get_tasks_ids(self):
        return list(self.d.tasks)

    def _get_task_duration(self, task, mode=1, progress_from=0.):
        return self.d.dur[task][mode]

    def _get_original_quantity_resource(self, resource, **kw):
        return self.d.cap[resource]

    def _get_resource_types_names(self):
        return list(self.d.res)

    def _get_mode_costs(self):
        return self.mode_cost

    def _get_resource_cost_per_time_unit(self):
        return self.res_cost

    def _get_objectives(self):
        return self.objectives


def hub(d, calendar=False, single=False):
    cls = {(False, False): SK.MRCPSP, (True, False): SK.MRCPSPCalendar, (False, True): SK.RCPSP, (True, True): SK.RCPSPCalendar}[calendar, single]
    return cls(resource_names=list(d.res), task_ids=list(d.tasks), tasks_mode=d.modes_dict(), successors=d.succ, max_horizon=d.horizon,
               resource_availability=dict(d.cap), resource_renewable=dict(d.renewable))


SINGLE = [dict(prec=p, modes=(1,), ren=r) for p in ("none", "chain", "fork", "join") for r in ("rr", "rn")]
MULTI = [dict(prec=p, modes=(1, 2), ren=r) for p in ("pair", "pairchain") for r in ("rr", "rn", "nn")]


def instance(ctx, c, horizon=2, **kw):
    return data(ctx, c["prec"], modes=c["modes"], renewable={"R%d" % i: x == "r" for i, x in enumerate(c["ren"])}, horizon=horizon, **kw)


@harness("C19", "offered", configs=SINGLE + MULTI, expect=("offered", "wait only"), functions=FUNCS,
         bounds="3 tasks and 1 mode or 2 tasks and 2 modes, every precedence shape, 2 resources (renewable or not), durations 0..2, needs 0..2, capacities 0..3, any consistent position at time 0..2")
def offered_(ctx):
    c = ctx.config
    d = instance(ctx, c)
    offered(ctx, hub(d, single=c["modes"] == (1,)), any_sched(ctx, d, tmax=2))


@harness("C19", "transition", configs=SINGLE + MULTI, expect=("start", "wait", "refused", "finished"), functions=FUNCS,
         bounds="as offered; any start (allowed or refused) or waiting, one transition")
def transition_(ctx):
    c = ctx.config
    d = instance(ctx, c)
    s = any_sched(ctx, d, tmax=2)
    transition(ctx, hub(d, single=c["modes"] == (1,)), s, pick(ctx, s, feasible=False))


@harness("C19", "costs", configs=[dict(prec=p, ren=r, obj=o) for p in ("pair", "pairchain") for r in ("rr", "rn") for o in ("cost", "both")], expect=("start", "wait", "finished"), functions=FUNCS,
         bounds="2 tasks, 2 modes, any mode costs and resource prices 0..5; one transition from any consistent position")
def costs(ctx):
    c = ctx.config
    d = data(ctx, c["prec"], modes=(1, 2), renewable={"R0": True, "R1": c["ren"] == "rr"}, horizon=3)
    mc = {t: {m: ctx.int("mode_cost", 0, 5) for m in d.needs[t]} for t in d.tasks}
    rc = {r: ctx.int("price", 0, 5) for r in d.res}
    E = SD.SchedulingObjectiveEnum
    dom = CostDomain(d, mc, rc, [E.COST] if c["obj"] == "cost" else [E.MAKESPAN, E.COST])

    def cost(s, a, n):
        v = 0 if c["obj"] == "cost" else n.t - s.t
        if a.action == A.START:
            v = v + mc[a.task][a.mode]
        for r in d.res:
            v = v + (rc[r] * s.used(r) * (n.t - s.t) if d.renewable[r] else n.used(r) - s.used(r))
        return v
    s = any_sched(ctx, d, tmax=2)
    transition(ctx, dom, s, pick(ctx, s), cost)


@harness("C19", "calendar", configs=[dict(prec=p, modes=m, ren="r") for p, m in (("pair", (1,)), ("pairchain", (1, 2)), ("chain", (1,)))], expect=("start", "wait", "refused", "offered", "wait only"), functions=FUNCS,
         bounds="capacities that change over time 0..3; 2 or 3 tasks; one transition (all forms of the call) or the offered actions, from any consistent position")
def calendar(ctx):
    c = ctx.config
    d = instance(ctx, c, calendar=4, needmax=1, cmax=1, nres=1)
    s = any_sched(ctx, d, tmax=2)
    dom = hub(d, calendar=True, single=c["modes"] == (1,))
    if ctx.bool("list"):
        offered(ctx, dom, s)
    else:
        transition(ctx, dom, s, pick(ctx, s, feasible=False), full=True)


@harness("C19", "history", configs=[dict(prec=p, first=f) for p in ("pair", "pairchain", "join") for f in (0, 1)], expect=("finished", "open"), functions=FUNCS,
         bounds="every history of up to 5 actions from the initial state, 2 or 3 tasks, 1 resource, durations 0..2")
def history(ctx):
    c = ctx.config
    d = data(ctx, c["prec"], nres=1, horizon=9)
    dom = hub(d, single=True)
    s = Sched(d)
    memory = dom.reset() if c["first"] else dom.get_initial_state()
    s.agree(ctx, memory, "initial state")
    total = 0
    for _ in range(5):
        if s.finished():
            break
        opts = [(t, 1) for t in d.tasks if s.ready(t)] + [None]
        o = ctx.choice("action", opts)
        a = SchedulingAction(None, A.TIME_PR, None, True) if o is None else SchedulingAction(o[0], A.START, o[1], False)
        if o is not None:
            ctx.assume(s.fits(*o))
        n = s.tick() if o is None else s.begin(o[0], o[1], d.dur[o[0]][o[1]])
        if c["first"]:
            out = dom.step(a)
            memory = out.observation
            total = total + out.value.cost
        else:
            nxt = dom.get_next_state(memory, a)
            total = total + dom.get_transition_value(memory, a, nxt).cost
            memory = nxt
        s = n
        s.agree(ctx, memory, "after an action")
    ctx.check(total == s.t, "total cost is the time elapsed")
    if s.finished():
        for t in d.tasks:
            ctx.check(memory.tasks_details[t].end - memory.tasks_details[t].start == d.dur[t][1], "every task lasts its duration")
            for p in d.pred[t]:
                ctx.check(memory.tasks_details[p].end <= memory.tasks_details[t].start, "successors start after their predecessors end")
        for tt in range(s.t):
            run = [t for t in d.tasks if memory.tasks_details[t].start <= tt < memory.tasks_details[t].end]
            ctx.check(sum((d.needs[t][1]["R0"] for t in run), 0) <= d.cap["R0"], "capacity respected at every time")
    ctx.reach("finished" if s.finished() else "open")


@harness("C19", "uncertain", configs=[dict(prec="pairchain", ren=False), dict(prec="pair", ren=True)], expect=("start", "wait", "refused"), functions=FUNCS + ["SchedulingDomain._get_next_state_distribution", "update_*_uncertain"],
         bounds="2 tasks of uncertain duration, any needs and capacity of a renewable or non-renewable resource, any consistent position at time 0..1; the distribution of the next state")
def uncertain(ctx):
    from .c21_uncertain_schedule import durations
    durations(ctx)
