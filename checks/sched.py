"""Reference model of a project schedule shared by the scheduling checks (built from the data only, independent of the code)."""
from vsym.engine import land, lor, lnot, is_sym
from skdecide import DiscreteDistribution
from skdecide.builders.scheduling import scheduling_domains as SD
from skdecide.builders.scheduling.scheduling_domains_modelling import State, SchedulingAction, SchedulingActionEnum as A
from skdecide.builders.scheduling.modes import ConstantModeConsumption, VaryingModeConsumption
from skdecide.builders.scheduling.preemptivity import ResumeType

PRECEDENCES = {
    "none": {1: [], 2: [], 3: []},
    "chain": {1: [2], 2: [3], 3: []},
    "fork": {1: [2, 3], 2: [], 3: []},
    "join": {1: [3], 2: [3], 3: []},
    "loose": {1: [2], 2: [], 3: []},
    "pair": {1: [], 2: []},
    "pairchain": {1: [2], 2: []},
}


class Data:
    """Plain data of an instance: needs[task][mode][resource], dur[task][mode], cap[resource] (list over time when calendar)."""

    def __init__(self, succ, needs, dur, cap, renewable, horizon=50):
        self.succ, self.needs, self.dur, self.cap, self.renewable, self.horizon = succ, needs, dur, cap, renewable, horizon
        self.tasks = sorted(succ)
        self.restart = {t: False for t in succ}
        self.returned = {t: True for t in succ}
        self.preempt = {t: False for t in succ}
        self.res = sorted(renewable)
        self.pred = {t: [p for p in self.tasks if t in succ[p]] for t in self.tasks}

    def capacity(self, r, t):
        c = self.cap[r]
        return c[t] if isinstance(c, list) else c

    def modes_dict(self):
        return {t: {m: dict(self.needs[t][m], duration=self.dur[t][m]) for m in self.needs[t]} for t in self.tasks}


class Sched:
    """Where each task stands: status[task] in {"todo", "run", "done", "pause"}."""

    def __init__(self, data, t=0):
        self.d = data
        self.t = t
        self.status = {k: "todo" for k in data.tasks}
        self.mode, self.start, self.end, self.age, self.dur = {}, {}, {}, {}, {}
        self.paused, self.resumed, self.lost = {k: [] for k in data.tasks}, {k: [] for k in data.tasks}, {k: 0 for k in data.tasks}

    def clone(self):
        s = Sched(self.d, self.t)
        for k in ("status", "mode", "start", "end", "age", "dur", "lost"):
            setattr(s, k, dict(getattr(self, k)))
        s.paused, s.resumed = ({k: list(v) for k, v in x.items()} for x in (self.paused, self.resumed))
        return s

    def need(self, k, r, mode=None, age=None):
        v = self.d.needs[k][self.mode[k] if mode is None else mode][r]
        return v[self.age[k] if age is None else age] if isinstance(v, list) else v

    def used(self, r):
        """renewable: what the ongoing tasks need now; non-renewable: also what was consumed before (`lost` counts the stretches consumed by a pause)"""
        if self.d.renewable[r]:
            return sum((self.need(k, r) for k in self.d.tasks if self.status[k] == "run"), 0)
        return sum((self.need(k, r) * (self.lost[k] + (self.status[k] in ("run", "done"))) for k in self.d.tasks if self.status[k] != "todo"), 0)

    def fits(self, task, mode, age=0):
        return land(*[self.need(task, r, mode, age) <= self.d.capacity(r, self.t) - self.used(r) for r in self.d.res])

    def ready(self, task):
        return self.status[task] == "todo" and all(self.status[p] == "done" for p in self.d.pred[task])

    def over(self):
        return lor(*[self.used(r) > self.d.capacity(r, self.t) for r in self.d.res])

    def possible(self):
        """every remaining task still has a mode whose non-renewable needs can be met"""
        return land(*[lor(*[land(*[self.d.needs[k][m][r] <= self.d.capacity(r, self.t) - self.used(r) for r in self.d.res if not self.d.renewable[r]])
                            for m in self.d.needs[k]]) for k in self.d.tasks if self.status[k] == "todo"])

    def finished(self):
        return all(v == "done" for v in self.status.values())

    def begin(self, task, mode, dur):
        s = self.clone()
        s.status[task], s.mode[task], s.start[task], s.age[task], s.dur[task] = "run", mode, s.t, 0, dur
        if dur == 0:
            s.status[task], s.end[task] = "done", s.t
        return s

    def tick(self):
        s = self.clone()
        s.t += 1
        for k in s.d.tasks:
            if s.status[k] == "run":
                s.age[k] += 1
                if s.age[k] >= s.dur[k]:
                    s.status[k], s.end[k] = "done", s.t
        return s

    def pause(self, task):
        s = self.clone()
        s.status[task] = "pause"
        s.paused[task].append(s.t)
        s.lost[task] += 0 if s.d.returned[task] else 1
        return s

    def resume_age(self, task):
        return 0 if self.d.restart[task] else self.age[task]

    def resume(self, task):
        s = self.clone()
        s.age[task] = s.resume_age(task)
        s.status[task] = "run"
        s.resumed[task].append(s.t)
        return s

    # -- the corresponding state object
    def build(self, domain):
        s = domain.get_initial_state()
        s = s.copy()
        s.t = self.t
        g = lambda v: {k for k in self.d.tasks if self.status[k] == v}
        s.tasks_remaining, s.tasks_ongoing, s.tasks_complete, s.tasks_paused = g("todo"), g("run"), g("done"), g("pause")
        s.resource_availability = {r: self.d.capacity(r, self.t) for r in self.d.res}
        s.resource_used = {r: self.used(r) for r in self.d.res}
        for k in self.d.tasks:
            if self.status[k] == "todo":
                continue
            s.tasks_mode[k] = self.mode[k]
            s.tasks_details[k].start = self.start[k]
            s.tasks_details[k].sampled_duration = self.dur[k]
            need = {r: self.need(k, r) for r in self.d.res} if self.status[k] == "run" else {}
            s.tasks_details[k].paused, s.tasks_details[k].resumed = list(self.paused[k]), list(self.resumed[k])
            if self.status[k] == "done":
                s.tasks_details[k].end = self.end[k]
                s.tasks_progress[k] = 1
            else:
                p = 0.0
                for _ in range(int(self.age[k])):
                    p += 1.0 / float(self.dur[k])
                s.tasks_progress[k] = p
                if self.status[k] == "run":
                    s.resource_used_for_task[k] = dict(need)
        return s

    def agree(self, ctx, s, what):
        ctx.check(s.t == self.t, what + ": time")
        for name, v in (("tasks_remaining", "todo"), ("tasks_ongoing", "run"), ("tasks_complete", "done"), ("tasks_paused", "pause")):
            ctx.check(set(getattr(s, name)) == {k for k in self.d.tasks if self.status[k] == v}, what + ": " + name)
        for r in self.d.res:
            ctx.check(s.resource_used[r] == self.used(r), what + ": resource use is the sum of the needs of the tasks holding it")
            ctx.check(s.resource_availability[r] == self.d.capacity(r, self.t), what + ": availability is the capacity at that time")
        ctx.check(set(s.resource_used_for_task) == {k for k in self.d.tasks if self.status[k] == "run"}, what + ": exactly the ongoing tasks hold resources")
        for k in self.d.tasks:
            det = s.tasks_details[k]
            if self.status[k] == "todo":
                ctx.check(det.start is None and det.end is None and k not in s.tasks_mode, what + ": nothing recorded for a task not started")
                continue
            ctx.check(det.start == self.start[k], what + ": start time")
            ctx.check(list(det.paused) == self.paused[k] and list(det.resumed) == self.resumed[k], what + ": times of pauses and resumptions")
            ctx.check(s.tasks_mode[k] == self.mode[k], what + ": mode")
            ctx.check(det.sampled_duration == self.dur[k], what + ": duration")
            if self.status[k] == "done":
                ctx.check(det.end == self.end[k], what + ": end time")
                ctx.check(s.tasks_progress[k] == 1, what + ": progress of a complete task")
            else:
                ctx.check(det.end is None, what + ": no end time before completion")
                p = s.tasks_progress[k] - self.age[k] / self.dur[k]
                ctx.check(land(p < 1e-6, p > -1e-6), what + ": progress is elapsed over duration")
            if self.status[k] == "run":
                ctx.check(land(*[s.resource_used_for_task[k].get(r, 0) == self.need(k, r) for r in self.d.res]), what + ": resources held by a task")


def any_sched(ctx, data, tmax=3, statuses=("todo", "run", "done"), domain_dur=None):
    """an arbitrary consistent position of the schedule"""
    s = Sched(data, ctx.index("time", tmax + 1))
    for k in data.tasks:
        can = all(s.status[p] == "done" for p in data.pred[k])
        v = ctx.choice("status%d" % k, statuses if can else ("todo",))
        s.status[k] = v
        if v == "todo":
            continue
        m = s.mode[k] = ctx.choice("mode%d" % k, sorted(data.needs[k]))
        dur = data.dur[k][m] if domain_dur is None else domain_dur(k, m)
        s.dur[k] = dur
        if v == "done":
            ctx.assume(dur <= s.t)
            dur = s.dur[k] = int(dur)
            s.start[k] = min((max([s.end[p] for p in data.pred[k]], default=0)), s.t)
            ctx.assume(s.start[k] + dur <= s.t)
            s.age[k] = dur
            s.end[k] = s.start[k] + dur
        else:
            ctx.assume(dur >= 1)
            dur = s.dur[k] = int(dur)
            lo = max([s.end[p] for p in data.pred[k]], default=0)
            age = ctx.index("age%d" % k, min(dur, s.t + 1))
            ctx.assume(s.t - age >= lo)
            s.age[k], s.start[k] = age, s.t - age
            if v == "pause" or (data.preempt[k] and ctx.bool("was paused%d" % k)):
                pause_at(ctx, s, k, lo)
    return s


def pause_at(ctx, s, k, lo):
    """rewrite the history of a started task so that it was interrupted once"""
    d, age = s.d, s.age[k]
    gap = ctx.index("gap%d" % k, 2)  # length of the interruption (so far, when still paused)
    if s.status[k] == "pause":
        ctx.assume(s.t - gap - age >= lo)
        s.start[k], s.paused[k] = s.t - gap - age, [s.t - gap]
    else:
        before = ctx.index("before%d" % k, 2)  # executed before the interruption
        if d.restart[k]:
            ctx.assume(before < s.dur[k])
            s.start[k] = s.t - age - gap - before
        else:
            ctx.assume(before <= age)
            s.start[k] = s.t - age - gap
        ctx.assume(s.start[k] >= lo)
        s.paused[k], s.resumed[k] = [s.start[k] + before], [s.start[k] + before + gap]
    s.lost[k] = 0 if d.returned[k] else 1


def data(ctx, precedence, modes=(1,), nres=2, renewable=None, dmax=2, cmax=3, calendar=0, horizon=50, needmax=2):
    succ = PRECEDENCES[precedence]
    res = ["R%d" % i for i in range(nres)]
    needs = {t: {m: {r: ctx.int("need_%d_%d_%s" % (t, m, r), 0, needmax) for r in res} for m in modes} for t in succ}
    dur = {t: {m: ctx.int("dur_%d_%d" % (t, m), 0, dmax) for m in modes} for t in succ}
    cap = {r: [ctx.int("cap_%s_%d" % (r, i), 0, cmax) for i in range(calendar)] if calendar else ctx.int("cap_%s" % r, 0, cmax) for r in res}
    return Data(succ, needs, dur, cap, renewable or {r: True for r in res}, horizon)


def key(a):
    return (a.action, a.task, a.mode, a.time_progress)


def offered(ctx, dom, s):
    """the actions offered in an arbitrary consistent position"""
    d = s.d
    memory = s.build(dom)
    acts = dom.get_applicable_actions(memory).get_elements()
    keys = [key(a) for a in acts]
    ctx.check(len(set(keys)) == len(keys), "no action offered twice")
    over = s.over()
    want = [(A.TIME_PR, None, None, True)]
    for t in d.tasks:
        for m in d.needs[t]:
            k = (A.START, t, m, False)
            ctx.check((k in keys) == (land(lnot(over), s.fits(t, m)) if s.ready(t) else False), "start offered exactly when predecessors are done and resources suffice")
            want.append(k)
        k = (A.PAUSE, t, None, False)
        ctx.check((k in keys) == (s.status[t] == "run" and d.preempt[t]), "pause offered for the ongoing tasks that may be paused")
        want.append(k)
        if s.status[t] == "pause":
            k = (A.RESUME, t, s.mode[t], False)
            ctx.check((k in keys) == land(lnot(over), s.fits(t, s.mode[t], s.resume_age(t))), "resume offered exactly when the resources suffice")
            want.append(k)
    ctx.check((A.TIME_PR, None, None, True) in keys and set(keys) <= set(want), "waiting is always offered, and nothing else")
    s.agree(ctx, memory, "listing actions")
    ctx.reach("offered" if len(keys) > 1 else "wait only")


def pick(ctx, s, feasible=True):
    """an arbitrary start of a ready task, or waiting"""
    opts = [(t, m) for t in s.d.tasks if s.ready(t) for m in s.d.needs[t]] + [None]
    opts += [(t, "pause") for t in s.d.tasks if s.status[t] == "run" and s.d.preempt[t]] + [(t, m) for t in s.d.tasks if s.status[t] == "pause" for m in ("resume", "resume mode")]
    o = ctx.choice("action", opts)
    if o is None:
        return SchedulingAction(None, A.TIME_PR, None, True)
    if o[1] == "pause":
        return SchedulingAction(o[0], A.PAUSE, None, False)
    if o[1] in ("resume", "resume mode"):
        return SchedulingAction(o[0], A.RESUME, None if o[1] == "resume" else s.mode[o[0]], False)
    if feasible:
        ctx.assume(s.fits(*o))
    return SchedulingAction(o[0], A.START, o[1], False)


def transition(ctx, dom, s, a, cost=None, full=False):
    d = s.d
    memory = s.build(dom)
    if a.action == A.START:
        ok, need = dom.check_if_action_can_be_started(memory, a)
        ctx.check(bool(ok) == s.fits(a.task, a.mode), "startable exactly when the resources suffice")
        n = s.begin(a.task, a.mode, d.dur[a.task][a.mode]) if ok else s
        label = "start" if ok else "refused"
    elif a.action == A.PAUSE:
        n, label = s.pause(a.task), "pause"
    elif a.action == A.RESUME:
        ok = bool(s.fits(a.task, s.mode[a.task], s.resume_age(a.task)))
        n, label = (s.resume(a.task), "resume") if ok else (s, "stays paused")
    else:
        n, label = s.tick(), "wait"
    nxt = dom.get_next_state(memory, a)
    n.agree(ctx, nxt, "next state")
    s.agree(ctx, memory, "previous state is left alone")
    term = lor(n.t > d.horizon, lnot(n.possible()), n.finished())
    v = (n.t - s.t) if cost is None else cost(s, a, n)
    ctx.check(bool(dom.is_goal(nxt)) == n.finished(), "goal exactly when every task is complete")
    ctx.check(bool(dom.is_terminal(nxt)) == term, "terminal after the horizon, when finished, or when a task can no longer be done")
    ctx.check(dom.get_transition_value(memory, a, nxt).cost == v, "cost of the transition")
    if full:
        dist = dom.get_next_state_distribution(memory, a).get_values()
        ctx.check(len(dist) == 1 and dist[0][1] == 1, "deterministic distribution")
        n.agree(ctx, dist[0][0], "state of the distribution")
        out = dom.sample(memory, a)
        n.agree(ctx, out.observation, "sampled state")
        ctx.check(bool(out.termination) == term, "sampled termination")
        ctx.check(out.value.cost == v, "cost of the sampled transition")
        s.agree(ctx, memory, "previous state is left alone")
    ctx.reach(label)
    if n.finished():
        ctx.reach("finished")
