"""C21: uncertain durations and conditional tasks: the distribution of the next states, and what is sampled from it."""
from vsym.registry import harness
from .sched import *
from skdecide.hub.domain.rcpsp import rcpsp_sk as SK

FUNCS = ["SchedulingDomain._get_next_state_distribution", "_state_sample", "update_start_tasks_uncertain", "update_complete_dummy_tasks_uncertain", "update_time_uncertain",
         "update_complete_tasks_uncertain", "update_conditional_tasks_uncertain", "update_*_simulation", "WithConditionalTasks", "UncertainTransitions._state_sample", "DiscreteDistribution",
         "Stochastic_RCPSP", "SMRCPSPCalendar", "build_stochastic_from_deterministic", "build_n_determinist_from_stochastic", "UniformBoundedTaskDuration", "EnumerableTaskDuration"]


class Cond(Sched):
    """a schedule in which tasks exist only under conditions drawn when other tasks complete"""

    def __init__(self, d, t=0):
        super().__init__(d, t)
        self.conds = set()

    def clone(self):
        s = super().clone()
        s.__class__ = Cond
        s.conds = set(self.conds)
        return s

    def exists(self, k):
        return all(c in self.conds for c in self.d.existence.get(k, []))

    def ready(self, k):
        return self.exists(k) and self.status[k] == "todo" and all(self.status[p] == "done" for p in self.d.pred[k] if self.exists(p))

    def finished(self):
        return all(v == "done" for k, v in self.status.items() if self.exists(k))

    def possible(self):
        return True

    def build(self, domain):
        s = super().build(domain)
        s._current_conditions = set(self.conds)
        s.tasks_remaining = {k for k in s.tasks_remaining if self.exists(k)}
        return s

    def agree(self, ctx, s, what):
        g = {k for k in self.d.tasks if self.status[k] == "todo" and self.exists(k)}
        ctx.check(set(s.tasks_remaining) == g, what + ": the tasks remaining are those whose conditions are met")
        ctx.check(set(s._current_conditions) == self.conds, what + ": conditions")
        c = s.copy()
        c.tasks_remaining = {k for k in self.d.tasks if self.status[k] == "todo"}
        super().agree(ctx, c, what)

    def draws(self, before):
        """the schedules, with their probabilities, after the completions since `before`"""
        out = [(self, 1)]
        for k in self.d.tasks:
            if self.status[k] == "done" and before.status[k] != "done":
                for dist in self.d.effects.get(k, []):
                    new = []
                    for s, p in out:
                        for c, q in dist:
                            n = s.clone()
                            n.conds.add(c)
                            new.append((n, p * q))
                    out = new
        return out


def signature(s):
    """what tells two outcomes apart"""
    return (s.t, tuple(sorted(s.status.items())), tuple(sorted((k, int(v)) for k, v in s.dur.items())), tuple(sorted(getattr(s, "conds", ()))))


def read_signature(d, n):
    st = {k: "done" if k in n.tasks_complete else "run" if k in n.tasks_ongoing else "pause" if k in n.tasks_paused else "todo" for k in d.tasks}
    dur = {k: int(n.tasks_details[k].sampled_duration) for k in d.tasks if n.tasks_details[k].sampled_duration is not None}
    return (int(n.t), tuple(sorted(st.items())), tuple(sorted(dur.items())), tuple(sorted(n._current_conditions)))


def close(a, b):
    return land(a - b < 1e-9, b - a < 1e-9)


def merged(model):
    groups = {}
    for s, p in model:
        k = signature(s)
        groups[k] = (s, groups[k][1] + p if k in groups else p)
    return groups


def distribution(ctx, d, dist, model, what="next state"):
    groups = merged(model)
    seen = {}
    for n, p in dist.get_values():
        k = read_signature(d, n)
        ctx.check(k in groups, what + ": possible outcome")
        groups[k][0].agree(ctx, n, what)
        seen[k] = seen.get(k, 0) + p
    for k, (s, p) in groups.items():
        ctx.check(close(seen.get(k, 0), p), what + ": probability of an outcome")
    return groups


def outcomes(s, a, durations):
    """schedules and probabilities after an action; `durations(task, mode)` lists (duration, probability)"""
    if a.action == A.START:
        if not s.fits(a.task, a.mode):
            return [(s, 1)], "refused"
        m = [(s.begin(a.task, a.mode, v), p) for v, p in durations(a.task, a.mode)]
        label = "start"
    elif a.action == A.PAUSE:
        m, label = [(s.pause(a.task), 1)], "pause"
    else:
        m, label = [(s.tick(), 1)], "wait"
    if isinstance(s, Cond):
        m = [(n, p * q) for x, p in m for n, q in x.draws(s)]
    return m, label


def probabilities(ctx, what, n):
    ps = [ctx.real("%s_p%d" % (what, i), 0, 1) for i in range(n - 1)]
    last = 1 - sum(ps, 0)
    ctx.assume(last >= 0)
    return ps + [last]


SHAPES = {"pair": 2, "pairchain": 2, "join": 3}


def stochastic(ctx, c):
    succ = PRECEDENCES[c["prec"]]
    modes = c.get("modes", (1,))
    support = {t: {m: ctx.choice("support_%d_%d" % (t, m), ([(0, 2), (2, 0), (1, 2), (2,)] if len(modes) == 1 else [(0, 2)]) if t == 1 else [(1, 2)] if m == 1 else [(2,)]) for m in modes} for t in succ}
    probs = {t: {m: probabilities(ctx, "d%d_%d" % (t, m), len(support[t][m])) for m in modes} for t in succ}
    needs = {t: {m: {"R0": ctx.int("need_%d_%d" % (t, m), 0, 2)} for m in modes} for t in succ}
    cap = [ctx.int("cap_%d" % i, 0, 3) for i in range(3)] if c.get("calendar") else ctx.int("cap", 0, 3)
    d = Data(succ, needs, {t: {m: support[t][m] for m in modes} for t in succ}, {"R0": cap}, {"R0": c.get("ren", True)}, 10)
    d.durations = lambda t, m: list(zip(support[t][m], probs[t][m]))
    dd = {t: {m: DiscreteDistribution(d.durations(t, m)) for m in modes} for t in succ}
    if c.get("calendar"):
        tm = {t: {m: dict(needs[t][m], duration=1) for m in modes} for t in succ}
        dom = SK.SMRCPSPCalendar(resource_names=["R0"], task_ids=list(d.tasks), tasks_mode=tm, successors=succ, duration_distribution=dd, max_horizon=10, resource_availability={"R0": cap}, resource_renewable=dict(d.renewable))
    else:
        tm = {t: {m: ConstantModeConsumption(dict(needs[t][m])) for m in modes} for t in succ}
        dom = SK.Stochastic_RCPSP(resource_names=["R0"], task_ids=list(d.tasks), tasks_mode=tm, duration_distribution=dd, successors=succ, max_horizon=10, resource_availability={"R0": cap}, resource_renewable=dict(d.renewable))
    return d, dom


def some_duration(ctx, d):
    return lambda k, m: ctx.choice("length%d" % k, [v for v, _ in d.durations(k, m)])


def sampled(ctx, d, dom, s, a, groups, what="sampled state"):
    """a sampled transition is one of the outcomes"""
    memory = s.build(dom)
    ctx.stub_random()
    out = dom.sample(memory, a)
    k = read_signature(d, out.observation)
    ctx.check(k in groups, what + " is a possible outcome")
    n, p = groups[k]
    n.agree(ctx, out.observation, what)
    ctx.check(p > 0, what + " has a positive probability")
    ctx.check(bool(out.termination) == lor(n.finished(), n.t > d.horizon, lnot(n.possible())), what + ": termination")
    ctx.check(out.value.cost == n.t - s.t, what + ": cost is the time elapsed")
    s.agree(ctx, memory, "previous state is left alone")
    return out.observation, n


@harness("C21", "durations", configs=[dict(prec="pair", calendar=False), dict(prec="pairchain", calendar=False, ren=False), dict(prec="pair", calendar=True), dict(prec="pair", calendar=False, modes=(1, 2))],
         expect=("start", "wait", "refused"), functions=FUNCS,
         bounds="2 tasks, 1 or 2 modes, two possible durations among 0..2 with any probabilities, any needs and capacities (changing over time or not), any consistent position at time 0..1; the distribution of the next state, one sampled transition")
def durations(ctx):
    c = ctx.config
    d, dom = stochastic(ctx, c)
    s = any_sched(ctx, d, tmax=1, domain_dur=some_duration(ctx, d))
    a = pick(ctx, s, feasible=False)
    model, label = outcomes(s, a, d.durations)
    memory = s.build(dom)
    dist = dom.get_next_state_distribution(memory, a)
    groups = distribution(ctx, d, dist, model)
    s.agree(ctx, memory, "previous state is left alone")
    for n, _ in dist.get_values():
        ctx.check(bool(dom.is_goal(n)) == groups[read_signature(d, n)][0].finished(), "goal exactly when every task is complete")
    # what happens to one outcome leaves the others alone
    vals = dist.get_values()
    if len(vals) > 1:
        keys = [read_signature(d, n) for n, _ in vals]
        first = vals[0][0]
        for r in first.resource_used_for_task.values():
            for x in r:
                r[x] = r[x] + 1
        first.tasks_details[a.task].paused.append(99)
        first.resource_used["R0"] = -1
        for (n, _), k in list(zip(vals, keys))[1:]:
            groups[k][0].agree(ctx, n, "outcomes are independent")
    else:
        sampled(ctx, d, dom, s, a, groups)
    ctx.reach(label)


@harness("C21", "durations_sampled", configs=[dict(prec="pair", calendar=False), dict(prec="pair", calendar=True)], expect=("start", "wait", "refused"), functions=FUNCS,
         bounds="as durations; any random draw of one sampled transition, then the wait that follows")
def durations_sampled(ctx):
    c = ctx.config
    d, dom = stochastic(ctx, c)
    s = any_sched(ctx, d, tmax=0, domain_dur=some_duration(ctx, d))
    a = pick(ctx, s, feasible=False)
    model, label = outcomes(s, a, d.durations)
    memory, n = sampled(ctx, d, dom, s, a, merged(model))
    wait = SchedulingAction(None, A.TIME_PR, None, True)
    dist = dom.get_next_state_distribution(memory, wait)
    distribution(ctx, d, dist, [(n.tick(), 1)], "waiting after the sampled transition")
    ctx.reach(label)


class CondDomain(SD.SingleModeRCPSP_Stochastic_Durations_WithConditionalTasks):
    def __init__(self, d):
        self.d = d
        self.initialize_domain()

    def _get_tasks_mode(self):
        return {t: ConstantModeConsumption(dict(self.d.needs[t][1])) for t in self.d.tasks}

    def _get_max_horizon(self):
        return self.d.horizon

    def _get_successors(self):
        return self.d.succ

    def _get_tasks_ids(self):
        return list(self.d.tasks)

    def _get_task_duration_distribution(self, task, mode=1, progress_from=0., multivariate_settings=None):
        return DiscreteDistribution(self.d.durations(task, mode))

    def _get_original_quantity_resource(self, resource, **kw):
        return self.d.cap[resource]

    def _get_resource_types_names(self):
        return list(self.d.res)

    def _get_objectives(self):
        return [SD.SchedulingObjectiveEnum.MAKESPAN]

    def _get_all_condition_items(self):
        return None

    def _get_task_existence_conditions(self):
        return self.d.existence

    def _get_task_on_completion_added_conditions(self):
        return {k: [DiscreteDistribution(list(x)) for x in v] for k, v in self.d.effects.items()}


class CondSimulated(SD.SingleModeRCPSP_Simulated_Stochastic_Durations_WithConditionalTasks, CondDomain):
    def _sample_task_duration(self, task, mode=1, progress_from=0.):
        return self.d.durations(task, mode)[0][0]


def conditional(ctx, c):
    succ = {1: [3], 2: [3], 3: []} if c["prec"] == "join" else {1: [], 2: [], 3: []}
    d = Data(succ, {t: {1: {"R0": ctx.int("need%d" % t, 0, 1)}} for t in succ}, {t: {1: 1} for t in succ}, {"R0": ctx.int("cap", 0, 3)}, {"R0": True}, 10)
    lens = {t: ctx.choice("length%d" % t, [0, 1, 2] if t == 1 else [1]) for t in succ}
    d.durations = lambda t, m: [(lens[t], 1)]
    d.dur = {t: {1: lens[t]} for t in succ}
    d.existence = {3: [2]} if c["both"] == 1 else {3: [2, 4]}
    d.effects = {1: [list(zip([1, 2], probabilities(ctx, "c1", 2)))]}
    if c["both"] == 2:
        d.effects[1].append(list(zip([3, 4], probabilities(ctx, "c1b", 2))))
    if c["second"]:
        d.effects[2] = [list(zip([2, 4], probabilities(ctx, "c2", 2)))]
    return d


def any_cond(ctx, d, tmax):
    s = Cond(d, ctx.index("time", tmax + 1))
    for k in (1, 2, 3):
        if not s.exists(k):
            continue
        can = all(s.status[p] == "done" for p in d.pred[k])
        v = s.status[k] = ctx.choice("status%d" % k, ("todo", "run", "done") if can else ("todo",))
        if v == "todo":
            continue
        L = int(d.dur[k][1])
        s.mode[k], s.dur[k] = 1, L
        if v == "done":
            ctx.assume(L <= s.t)
            s.start[k] = max([s.end[p] for p in d.pred[k] if p in s.end], default=0)
            ctx.assume(s.start[k] + L <= s.t)
            s.age[k], s.end[k] = L, s.start[k] + L
            for i, dist in enumerate(d.effects.get(k, [])):
                s.conds.add(ctx.choice("drawn_%d_%d" % (k, i), [x for x, _ in dist]))
        else:
            ctx.assume(L >= 1)
            s.age[k] = ctx.index("age%d" % k, min(L, s.t + 1))
            s.start[k] = s.t - s.age[k]
            ctx.assume(s.start[k] >= max([s.end[p] for p in d.pred[k] if p in s.end], default=0))
    return s


CONDS = [dict(prec=p, both=b, second=e) for p in ("join", "none") for b, e in ((1, False), (1, True), (2, False), (2, True))]


@harness("C21", "conditional", configs=CONDS, expect=("start", "wait", "wait only", "offered"), functions=FUNCS,
         bounds="3 tasks of which one exists under one or two conditions, drawn with any probabilities from one or two distributions at the completion of one or two tasks; durations 0..2; any consistent position at time 0..2; the distribution of the next state, the offered actions")
def conditional_(ctx):
    d = conditional(ctx, ctx.config)
    dom = CondDomain(d)
    s = any_cond(ctx, d, 2)
    memory = s.build(dom)
    if ctx.bool("list"):
        acts = [key(a) for a in dom.get_applicable_actions(memory).get_elements()]
        over = s.over()
        for t in d.tasks:
            ctx.check(((A.START, t, 1, False) in acts) == (land(lnot(over), s.fits(t, 1)) if s.ready(t) else False), "start offered exactly when the task exists, predecessors are done and resources suffice")
        ctx.reach("offered" if len(acts) > 1 else "wait only")
        return
    a = pick(ctx, s)
    model, label = outcomes(s, a, d.durations)
    dist = dom.get_next_state_distribution(memory, a)
    groups = distribution(ctx, d, dist, model)
    s.agree(ctx, memory, "previous state is left alone")
    for n, _ in dist.get_values():
        ctx.check(bool(dom.is_goal(n)) == groups[read_signature(d, n)][0].finished(), "goal exactly when every existing task is complete")
    ctx.reach(label)


@harness("C21", "conditional_sampled", configs=[dict(c, sim=x) for c in CONDS if c["both"] != c["second"] + 1 for x in (False, True)], expect=("start", "wait"), functions=FUNCS,
         bounds="as conditional; any draw of one sampled transition, with a distribution or by simulation")
def conditional_sampled(ctx):
    d = conditional(ctx, ctx.config)
    dom = CondSimulated(d) if ctx.config["sim"] else CondDomain(d)
    s = any_cond(ctx, d, 2)
    a = pick(ctx, s)
    model, label = outcomes(s, a, d.durations)
    sampled(ctx, d, dom, s, a, merged(model))
    ctx.reach(label)


@harness("C21", "conversions", configs=[dict(ren=r) for r in (True, False)], functions=FUNCS,
         bounds="2 tasks, any durations 0..12, needs 0..2, capacities 0..3; a stochastic instance from a deterministic one (no task noisy, or one of duration 0, 1 or 12), and 1 or 2 deterministic ones from a stochastic one")
def conversions(ctx):
    d = data(ctx, "pairchain", nres=1, dmax=12, renewable={"R0": ctx.config["ren"]})
    noisy = ctx.choice("noisy", [set(), {1}])
    for t in noisy:
        d.dur[t][1] = ctx.choice("noisy_duration", [0, 1, 12])
    base = SK.MRCPSP(resource_names=["R0"], task_ids=[1, 2], tasks_mode=d.modes_dict(), successors=d.succ, max_horizon=7, resource_availability=dict(d.cap), resource_renewable=dict(d.renewable))
    st = SK.build_stochastic_from_deterministic(base, noisy)
    sample = {}
    for t in d.tasks:
        L = int(d.dur[t][1])
        vals = {}
        for v, p in st.get_task_duration_distribution(t, 1).get_values():
            vals[v] = vals.get(v, 0) + p
        if L == 0 or t not in noisy:
            ctx.check(vals == {L: 1}, "duration of a task without noise")
        else:
            ctx.check(abs(sum(vals.values()) - 1) < 1e-9 and min(vals) >= 1 and L in vals, "noisy durations are positive, around the original and their probabilities sum to one")
        sample[t] = vals
    ctx.stub_random()
    insts = [st, base] + SK.build_n_determinist_from_stochastic(st, 1 if noisy else 2)
    ctx.check(len(insts) == (3 if noisy else 4), "as many instances as asked")
    for i, m in enumerate(insts):
        ctx.check(set(m.get_tasks_ids()) == {1, 2} and {k: list(v) for k, v in m.get_successors().items()} == d.succ, "same tasks and precedence")
        ctx.check(list(m.get_resource_types_names()) == ["R0"] and m.get_original_quantity_resource("R0") == d.cap["R0"], "same resources")
        ctx.check(bool(m.is_renewable("R0")) == d.renewable["R0"] and bool(m.get_resource_renewability()["R0"]) == d.renewable["R0"], "same kind of resources")
        for t in d.tasks:
            ctx.check(set(m.get_task_modes(t)) == {1} and m.get_task_modes(t)[1].get_resource_need_at_time("R0", 0) == d.needs[t][1]["R0"], "same needs")
            if i > 1:
                ctx.check(m.get_task_duration(t, 1) in sample[t], "deterministic durations are possible ones")
                ctx.check(m.get_task_duration(t, 1) == m.sample_task_duration(t, 1) and m.get_task_duration_lower_bound(t, 1) == m.get_task_duration(t, 1) == m.get_task_duration_upper_bound(t, 1), "bounds of a deterministic duration")


class Bounded(CondDomain):
    def get_task_duration_lower_bound(self, *a, **k):
        return self.d.lb

    def get_task_duration_upper_bound(self, *a, **k):
        return self.d.ub


@harness("C21", "bounded", functions=FUNCS, bounds="every uniform duration in 0..4, every discrete duration with 3 values")
def bounded(ctx):
    from skdecide.builders.scheduling import task_duration as TD

    class U(TD.UniformBoundedTaskDuration):
        sampled_durations = {}

        def _get_task_duration_lower_bound(self, task, mode=1, progress_from=0.):
            return lb

        def _get_task_duration_upper_bound(self, task, mode=1, progress_from=0.):
            return ub

    class E(TD.EnumerableTaskDuration):
        sampled_durations = {}

        def _get_task_duration_distribution(self, task, mode=1, progress_from=0., multivariate_settings=None):
            return DiscreteDistribution(list(zip(vals, probs)))
    ctx.stub_random()
    lb = ctx.index("lower", 4)
    ub = lb + ctx.index("width", 4)
    vals = [ctx.int("v%d" % i, 0, 9) for i in range(3)]
    probs = probabilities(ctx, "p", 3)
    if ctx.bool("uniform"):
        got = dict(U().get_task_duration_distribution(1, 1).get_values())
        ctx.check(set(got) == set(range(lb, ub + 1)) and all(abs(p - 1 / (ub - lb + 1)) < 1e-9 for p in got.values()), "uniform over the bounds")
        x = U().sample_task_duration(1, 1)
        ctx.check(lb <= x <= ub, "sample within the bounds")
    else:
        e = E()
        lo, hi = e.get_task_duration_lower_bound(1, 1), e.get_task_duration_upper_bound(1, 1)
        ctx.check(land(*[land(lo <= v, v <= hi) for v in vals]), "bounds hold")
        ctx.check(land(lor(*[lo == v for v in vals]), lor(*[hi == v for v in vals])), "bounds are attained")
        x = e.sample_task_duration(1, 1)
        ctx.check(lor(*[land(x == v, p > 0) for v, p in zip(vals, probs)]), "sample is a possible duration")


@harness("C21", "equality", expect=("equal", "different"), functions=["State.__eq__", "State.__hash__", "State.copy", "SchedulingAction.__eq__", "SchedulingActionSpace.contains"],
         bounds="3 tasks numbered 0, 8, 16 or 1, 2, 3, started in any two orders; any two actions")
def equality(ctx):
    ids = ctx.choice("ids", [(1, 2, 3), (0, 8, 16)])
    res = ["R0", "R1"]
    dom = SK.MRCPSP(resource_names=res, task_ids=list(ids), tasks_mode={t: {1: {"R0": 1, "R1": 1, "duration": 2}, 2: {"R0": 1, "R1": 0, "duration": 1}} for t in ids}, successors={t: [] for t in ids}, max_horizon=9,
                    resource_availability={"R0": 9, "R1": 9}, resource_renewable={"R0": True, "R1": True})

    def act(t, m):
        return SchedulingAction(t, A.START, m, False)

    def run(order):
        s = dom.get_initial_state()
        for t, m in order:
            s = dom.get_next_state(s, act(t, m))
        return dom.get_next_state(s, SchedulingAction(None, A.TIME_PR, None, True))
    o1 = [(t, ctx.choice("mode1_%d" % i, [1, 2])) for i, t in enumerate(ids)]
    o2 = [(t, ctx.choice("mode2_%d" % i, [1, 2])) for i, t in enumerate(ids)]
    perm = ctx.choice("order", [(0, 1, 2), (2, 1, 0), (1, 2, 0)])
    a, b = run(o1), run([o2[i] for i in perm])
    same = o1 == o2
    ctx.check((a == b) == same, "states are equal exactly when their contents are")
    if same:
        ctx.check(hash(a) == hash(b), "equal states have the same hash")
    ctx.check(a.copy() == a and hash(a.copy()) == hash(a), "a copy is equal")
    x, y = act(*o1[0]), act(*o2[1 if ctx.bool("other task") else 0])
    ctx.check((x == y) == ((x.task, x.mode) == (y.task, y.mode)), "actions are equal exactly when their contents are")
    ctx.check(x != y or hash(x) == hash(y), "equal actions have the same hash")
    ctx.check(x != "start" and x != x.task and not x == None and x != (x.task, x.mode), "an action is not equal to something else")
    st = dom.get_initial_state()
    ctx.check(bool(dom.is_applicable_action(x, st)), "an applicable action is recognised by its content")
    st = dom.get_next_state(st, x)
    ctx.check(not dom.is_applicable_action(x, st), "an action that is no longer applicable is not")
    ctx.reach("equal" if same else "different")
