"""C28: multi-skill projects: feasibility, schedules built from priorities, encodings, conversions."""
import itertools

from vsym.registry import harness
from vsym.engine import implies, land, lor, lnot
from skdecide.builders.discrete_optimization.rcpsp_multiskill import rcpsp_multiskill as MS

TIMES = ("start_time", "end_time")
SHAPES = {"free2": (2, {}), "chain2": (2, {2: [3]}), "free3": (3, {}), "join3": (3, {2: [4], 3: [4]}), "rev3": (3, {4: [2]})}


class Inst:
    """plain data: dur[task][mode], need[task][mode][resource or skill], cap[res] over time, skill[worker][skill], cal[worker] over time"""

    def __init__(self, ctx, shape, modes=1, workers=2, skills=("S",), res=("R",), nonren=(), horizon=8, cal=False, dmax=2, one=False, names=None, dmin=1, smax=2, short=None):
        self.n, edges = SHAPES[shape]
        n = self.n
        self.tasks = list(range(1, n + 3))
        self.real = self.tasks[1:-1]
        self.sink = n + 2
        self.succ = {1: list(self.real) + [n + 2], n + 2: []}
        for t in self.real:
            self.succ[t] = list(edges.get(t, [])) + [n + 2]
        self.pred = {t: [p for p in self.tasks if t in self.succ[p]] for t in self.tasks}
        self.ren, self.nonren, self.horizon, self.one = list(res), list(nonren), horizon, one
        self.res, self.skills = self.ren + self.nonren, list(skills)
        m = {t: range(1, (modes if t in self.real[:1] else 1) + 1) if t in self.real else [1] for t in self.tasks}
        self.dur = {t: {k: dmin + ctx.index("dur%d_%d" % (t, k), dmax + 1 - dmin) if t in self.real else 0 for k in m[t]} for t in self.tasks}
        self.need = {t: {k: {r: ctx.int("need%d_%d%s" % (t, k, r), 0, 2) if t in self.real and self.dur[t][k] else 0 for r in self.res + self.skills} for k in m[t]} for t in self.tasks}
        full = horizon + 1
        free = full if short is None else short  # steps at which calendars vary
        self.cap = {}
        for r in self.res:
            if cal and r not in nonren:
                c = [ctx.int("cap%s_%d" % (r, u), 0, 2) for u in range(free)]
                self.cap[r] = c + [2] * (full - free)
            else:
                self.cap[r] = [ctx.int("cap" + r, 0, 3)] * full
        self.workers = list(names) if names else list(range(1, workers + 1))
        self.skill = {w: {s: ctx.int("skill%s%s" % (w, s), 0, smax) for s in self.skills if ctx.bool("has%s%s" % (w, s))} for w in self.workers}
        self.cal = {w: [ctx.bool("works%s_%d" % (w, u)) if cal and u < free else True for u in range(full)] for w in self.workers}

    def details(self):
        return {t: {k: dict(self.need[t][k], duration=self.dur[t][k]) for k in self.dur[t]} for t in self.tasks}

    def model(self, cls=None):
        return (cls or MS.MS_RCPSPModel_Variant)(
            skills_set=set(self.skills), resources_set=set(self.res), non_renewable_resources=set(self.nonren), resources_availability={r: list(v) for r, v in self.cap.items()},
            employees={w: MS.Employee({s: MS.SkillDetail(v, 1.0, 1.0) for s, v in self.skill[w].items()}, list(self.cal[w])) for w in self.workers},
            employees_availability=[len(self.workers)] * (self.horizon + 1), mode_details=self.details(), successors={t: list(s) for t, s in self.succ.items()}, horizon=self.horizon, horizon_multiplier=1,
            source_task=1, sink_task=self.sink, one_unit_per_task_max=self.one)

    def wanted(self, t, mode):
        return [s for s in self.skills if self.need[t][mode][s] > 0]

    def feasible(self, times, mode, usage):
        """usage[task][worker]: the skills the worker brings to the task"""
        conds = [times[p][1] <= times[t][0] for t in self.tasks for p in self.pred[t]]
        for r in self.nonren:
            conds.append(sum((self.need[t][mode[t]][r] for t in self.tasks), 0) <= self.cap[r][0])
        last = times[self.sink][1]
        if last > self.horizon:
            return False
        for r in self.ren:
            conds += [sum((self.need[t][mode[t]][r] for t in self.tasks if times[t][0] <= u < times[t][1]), 0) <= self.cap[r][u] for u in range(last)]
        for t in self.tasks:
            use = usage.get(t, {})
            for s in self.skills:
                conds.append(lor(self.need[t][mode[t]][s] <= 0, sum((self.skill[w].get(s, 0) for w in use if s in use[w]), 0) >= self.need[t][mode[t]][s]))
            for w in use:
                conds += [self.cal[w][u] for u in range(*times[t])]
                conds += [w not in usage.get(o, {}) for o in self.tasks if o > t and times[o][0] < times[t][1] and times[t][0] < times[o][1]]
            if self.one:
                conds.append(len(use) <= 1)
        return land(*conds)

    def free(self, w, out, usage, s, d):
        return all(bool(self.cal[w][u]) and not any(w in usage.get(o, {}) and out[o][0] <= u < out[o][1] for o in out) for u in range(s, s + d))

    def sgs(self, perm, modes, priority):
        """serial generation: ({task: (start, end)}, {task: {worker: skills}}, whether it fits within the horizon)"""
        mode = dict(zip(self.tasks, [1] + list(modes) + [1]))
        order = [1] + [p + 2 for p in perm] + [self.sink]
        out, usage = {}, {}
        for r in self.nonren:
            if sum((self.need[t][mode[t]][r] for t in self.tasks), 0) > self.cap[r][0]:
                return out, usage, False
        while order:
            t = next(x for x in order if all(p in out for p in self.pred[x]))
            d, need = self.dur[t][mode[t]], self.need[t][mode[t]]
            s = max([0] + [out[p][1] for p in self.pred[t]])
            wanted = self.wanted(t, mode[t])
            while True:
                if s + d > self.horizon:
                    return out, usage, False
                ok = all(need[r] + sum((self.need[q][mode[q]][r] for q in out if out[q][0] <= u < out[q][1]), 0) <= self.cap[r][u] for u in range(s, s + d) for r in self.ren)
                if ok and wanted:
                    there = [w for w in priority[t - 2] if self.free(w, out, usage, s, d)]
                    if self.one:
                        there = [w for w in there if all(self.skill[w].get(k, 0) >= need[k] for k in wanted)]
                        ok = len(there) > 0
                    else:
                        ok = all(sum((self.skill[w].get(k, 0) for w in there), 0) >= need[k] for k in wanted)
                if ok:
                    break
                s += 1
            out[t] = (s, s + d)
            order.remove(t)
            if wanted:
                usage[t] = {}
                for w in there:
                    if any(k in self.skill[w] for k in wanted):
                        usage[t][w] = {k for k in wanted if k in self.skill[w]}
                    if all(sum((self.skill[v].get(k, 0) for v in usage[t]), 0) >= need[k] for k in wanted):
                        break
        return out, usage, True


def times_of(s):
    return {t: (v["start_time"], v["end_time"]) for t, v in s.schedule.items()}


def usage_of(s):
    return {t: {w: set(k) for w, k in u.items()} for t, u in s.employee_usage.items() if u}


def quiet(ctx):
    ctx.patch(MS, "print", lambda *a: None)


def orders(ctx, i, ranked=True):
    perm = list(ctx.choice("order", list(itertools.permutations(range(i.n)))))
    modes = [ctx.choice("mode%d" % t, sorted(i.dur[t])) for t in i.real]
    priority = [list(ctx.choice("workers%d" % t, list(itertools.permutations(i.workers)))) if ranked else [] for t in i.real]
    return perm, modes, priority


def agrees(ctx, i, m, s, perm, modes, priority, what=""):
    out, usage, fits = i.sgs(perm, modes, priority)
    got = times_of(s)
    if not fits:
        ctx.check(got[i.sink][1] > i.horizon, what + "a schedule that does not fit is flagged by its end")
        ctx.check(not m.satisfy(s), what + "a schedule that does not fit is not feasible")
        ctx.reach("too long")
        return
    ctx.check(got == out, what + "every task starts at the earliest time its predecessors, resources and workers allow")
    ctx.check(usage_of(s) == usage, what + "workers are taken by priority until the skills are there, each bringing some")
    ctx.check({t: s.modes[t] for t in i.tasks} == dict(zip(i.tasks, [1] + list(modes) + [1])), what + "modes of the schedule")
    ctx.check(m.evaluate(s) == {"makespan": out[i.sink][1]}, what + "makespan")
    ctx.check(m.satisfy(s), what + "the schedule generated is feasible")
    ctx.reach("fits")


SGS = [dict(shape=s, workers=2, cal=False, horizon=h) for s in ("free2", "chain2") for h in (4, 3)] + \
    [dict(shape="free3", workers=1, cal=False, horizon=8, dmax=1), dict(shape="join3", workers=1, cal=False, horizon=8, dmax=1), dict(shape="rev3", workers=1, cal=False, horizon=8, dmax=1),
     dict(shape="free2", workers=2, cal=True, short=2, horizon=4, dmax=1, res=()), dict(shape="chain2", workers=1, cal=True, short=2, horizon=5), dict(shape="free2", workers=2, cal=False, horizon=4, skills=("S", "T"), dmax=1),
     dict(shape="free2", workers=2, cal=False, horizon=4, one=True), dict(shape="free2", workers=2, cal=False, horizon=4, skills=("S", "T"), dmax=1, smax=1, one=True),
     dict(shape="free2", workers=1, cal=False, horizon=6, modes=2, nonren=("N",)), dict(shape="free2", workers=1, cal=False, horizon=6, dmin=0)]


@harness("C28", "sgs", configs=SGS, expect=("fits", "too long"), functions=["sgs_multi_skill", "MS_RCPSPSolution_Variant.do_recompute", "MS_RCPSPModel.satisfy/evaluate"],
         bounds="2 or 3 tasks between a source and a sink, durations 0..2, 1 or 2 workers and skills, values and needs 0..2, a renewable resource of capacity 0..3 or any calendars, an optional non-renewable one, up to 2 modes, horizons 3..8, every order of the tasks and of the workers of each")
def sgs(ctx):
    c = dict(ctx.config)
    quiet(ctx)
    i = Inst(ctx, c.pop("shape"), **dict(dict(res=("R",) if not c.get("one") else ()), **c))
    perm, modes, priority = orders(ctx, i)
    m = i.model()
    s = MS.MS_RCPSPSolution_Variant(problem=m, modes_vector=list(modes), priority_list_task=list(perm), priority_worker_per_task=[list(p) for p in priority])
    agrees(ctx, i, m, s, perm, modes, priority)
    ctx.check(s.priority_list_task == perm and s.modes_vector == modes and s.priority_worker_per_task == priority, "the priorities are left alone")


def sat_configs(tier):
    deep = tier == "thorough"
    rows = [("free2", 1, False, ("S",), (), 1, False, 3), ("chain2", 1, False, ("S",) if deep else (), ("N",), 2, False, 3), ("free2", 2, False, ("S",), (), 1, False, 3 if deep else 2), ("free2", 1, True, ("S",), (), 1, False, 3 if deep else 2),
            ("free2", 1, False, ("S", "T"), (), 1, False, 3 if deep else 1), ("free2", 2, False, ("S",), (), 1, True, 3 if deep else 2), ("free3", 1, False, ("S",), (), 1, False, 3 if deep else 2)]
    return [dict(shape=s, workers=w, cal=k, skills=sk, nonren=n, modes=m, one=o, starts=st) for s, w, k, sk, n, m, o, st in rows]


@harness("C28", "satisfy", configs=sat_configs, expect=("yes", "no"), functions=["MS_RCPSPModel.satisfy", "MS_RCPSPModel.evaluate", "intersect"],
         bounds="2 or 3 tasks, durations 1..2, any starts 0..2 and sink up to 6, any workers assigned to any task with any of the skills, needs 0..2, values 0..2, capacities 0..3")
def satisfy(ctx):
    c = dict(ctx.config)
    quiet(ctx)
    shape, starts = c.pop("shape"), c.pop("starts")
    i = Inst(ctx, shape, horizon=5, short=3, res=("R",) if len(c["skills"]) == 1 and c["workers"] == 1 else (), dmax=1 if shape == "free3" or c["workers"] > 1 else 2, **c)
    m = i.model(MS.MS_RCPSPModel)
    modes = {t: ctx.choice("mode%d" % t, sorted(i.dur[t])) if t in i.real else 1 for t in i.tasks}
    times = {1: (0, 0)}
    for t in i.real:
        st = ctx.index("start%d" % t, starts)
        times[t] = (st, st + i.dur[t][modes[t]])
    end = ctx.choice("sink", (2, 4, 6) if starts == 3 else (2, 6))
    times[i.sink] = (end, end)
    usage = {}
    for t in i.real:
        u = {}
        for w in i.workers:
            if ctx.bool("uses%d_%s" % (t, w)):
                u[w] = {k for k in i.skills if ctx.bool("brings%d_%s%s" % (t, w, k))}
        if u or ctx.bool("listed%d" % t):
            usage[t] = u
    s = MS.MS_RCPSPSolution(problem=m, modes=dict(modes), schedule={t: dict(zip(TIMES, v)) for t, v in times.items()}, employee_usage={t: {w: set(k) for w, k in u.items()} for t, u in usage.items()})
    got = bool(m.satisfy(s))
    ctx.check(got == i.feasible(times, modes, usage), "feasible exactly when precedence, resources, skills and workers' calendars are respected")
    ctx.check(m.evaluate(s) == {"makespan": end}, "makespan is the end of the sink")
    ctx.check(times_of(s) == times and s.modes == modes and s.employee_usage == usage, "the solution is left alone")
    part = s.copy()
    del part.schedule[i.real[0]]
    ctx.check(not m.satisfy(part), "a task that is not scheduled makes it infeasible")
    ctx.check(i.real[0] in s.schedule, "a copy is independent")
    ctx.reach("yes" if got else "no")


def other(ctx, i, tag):
    perm = list(ctx.choice(tag + "order", list(itertools.permutations(range(i.n)))))
    return perm


@harness("C28", "encodings", configs=[dict(att=a, names=n) for a in ("priority_list_task", "modes_vector", "modes_vector_from0", "priority_worker_per_task") for n in (None, (0, 1), ("a", "b")) if n or a == "priority_worker_per_task"],
         expect=("fits",), functions=["MS_RCPSPModel_Variant.evaluate_from_encoding", "set_fixed_attributes", "convert_fixed_priority_worker_per_task_from_permutation", "get_attribute_register", "MS_RCPSPSolution_Variant.__init__/copy"],
         bounds="2 tasks, 2 workers of any names, durations 1..2, values and needs 0..2, up to 2 modes; the attributes that are fixed and the one that is given are any")
def encodings(ctx):
    c = ctx.config
    quiet(ctx)
    ranks = c["att"] == "priority_worker_per_task"
    i = Inst(ctx, "free2", modes=1 if ranks else 2, workers=2, horizon=8, names=c["names"], res=(), dmax=1, smax=1 if ranks and ctx.tier == "quick" else 2)
    perm, modes, priority = orders(ctx, i, not ranks)
    m = i.model()
    reg = m.get_attribute_register().dict_attribute_to_type
    n, v = len(i.workers), None
    if ranks:
        # one permutation of all pairs (task, worker): in each stretch the k-th value ranks the choice of the k-th worker
        v = list(ctx.choice("vector", list(itertools.permutations(range(n * i.n)))))
        for k, t in enumerate(i.real):
            part = v[k * n:(k + 1) * n]
            priority[k] = [i.workers[sorted(part).index(x)] for x in part]
    ref = MS.MS_RCPSPSolution_Variant(problem=m, modes_vector=list(modes), priority_list_task=list(perm), priority_worker_per_task=[list(p) for p in priority])
    want = m.evaluate(ref)
    ctx.check(reg["priority_list_task"]["n"] == i.n and reg["modes_vector"]["n"] == i.n and list(reg["modes_arrity_fix_from_0"]["arrities"]) == [len(i.dur[t]) for t in i.real], "the register describes the encodings")
    for key, a in (("priority_list_task", "priority_list_task"), ("modes_vector", "modes_vector"), ("modes_arrity_fix_from_0", "modes_vector_from0"), ("modes_arrity_fix", "modes_vector"), ("priority_worker_per_task", "priority_worker_per_task")):
        ctx.check(reg[key]["name"] == a, "names of the encodings")
        if a != c["att"] and not (c["att"] == "modes_vector_from0" and a == "modes_vector") and not (c["att"] == "modes_vector" and a == "modes_vector_from0"):
            m.set_fixed_attributes(key, ref)
    v = v or {"priority_list_task": list(perm), "modes_vector": list(modes), "modes_vector_from0": [k - 1 for k in modes]}[c["att"]]
    before = list(v)
    ctx.check(m.evaluate_from_encoding(v, c["att"]) == want, "the value of an encoding is that of the solution it encodes")
    ctx.check(v == before, "the encoding is left alone")
    if c["att"] == "priority_worker_per_task":
        s = MS.MS_RCPSPSolution_Variant(problem=m, modes_vector=list(modes), priority_list_task=list(perm), priority_worker_per_task=list(v))
        ctx.check(s.priority_worker_per_task == priority, "a permutation given as priorities of the workers")
        m.set_fixed_priority_worker_per_task_from_permutation(list(v))
        ctx.check(m.fixed_priority_worker_per_task == priority, "a permutation set as priorities of the workers")
    dup = ref.copy()
    ctx.check(dup.priority_list_task == ref.priority_list_task and dup.modes_vector == ref.modes_vector and dup.modes_vector_from0 == ref.modes_vector_from0 and dup.priority_worker_per_task == ref.priority_worker_per_task
              and times_of(dup) == times_of(ref) and dup.modes == ref.modes and dup.employee_usage == ref.employee_usage, "a copy has the same content")
    keep = [list(p) for p in ref.priority_worker_per_task]
    dup.priority_list_task.reverse()
    dup.priority_worker_per_task[0].reverse()
    dup.schedule[1]["start_time"] = 99
    ctx.check(ref.priority_list_task == perm and ref.priority_worker_per_task == keep and ref.schedule[1]["start_time"] == 0, "a copy is independent")
    ctx.reach("fits" if want["makespan"] <= i.horizon else "too long")


@harness("C28", "unknown_mode", functions=["sgs_multi_skill"], expect=("fits",), bounds="2 tasks of one mode, 1 worker, modes asked for 1..2, any order")
def unknown_mode(ctx):
    quiet(ctx)
    i = Inst(ctx, "free2", workers=1, horizon=8, res=())
    perm, _, priority = orders(ctx, i)
    asked = [1 + ctx.index("asked%d" % t, 2) for t in i.real]
    m = i.model()
    s = MS.MS_RCPSPSolution_Variant(problem=m, modes_vector=list(asked), priority_list_task=list(perm), priority_worker_per_task=[list(p) for p in priority])
    agrees(ctx, i, m, s, perm, [1, 1], priority, "with a mode the task does not have: ")


@harness("C28", "copies", configs=[dict(how=h, one=o) for h in ("copy", "variant", "copy of variant") for o in (False, True)], functions=["MS_RCPSPModel.copy", "to_variant_model", "MS_RCPSPModel_Variant.__init__"],
         bounds="2 tasks, 1 worker, any data; the source and the sink are named")
def copies(ctx):
    quiet(ctx)
    i = Inst(ctx, "chain2", workers=1, nonren=("N",), horizon=5, one=ctx.config["one"], dmax=1)
    m = i.model(MS.MS_RCPSPModel_Variant if ctx.config["how"] == "copy of variant" else MS.MS_RCPSPModel)
    m.source_task, m.sink_task = ctx.choice("source", (1, 2)), ctx.choice("sink", (3, 4))
    n = m.to_variant_model() if ctx.config["how"] == "variant" else m.copy()
    ctx.check(isinstance(n, MS.MS_RCPSPModel_Variant) == (ctx.config["how"] != "copy"), "type of the copy")
    for k in ("skills_set", "resources_set", "non_renewable_resources", "resources_availability", "mode_details", "successors", "horizon", "horizon_multiplier", "source_task", "sink_task", "nb_tasks", "tasks", "one_unit_per_task_max",
              "n_jobs_non_dummy"):
        ctx.check(getattr(n, k) == getattr(m, k), "the copy has the same data")
    ctx.check(set(n.employees) == set(m.employees) and all({s: d.skill_value for s, d in n.employees[w].dict_skill.items()} == i.skill[w] and list(n.employees[w].calendar_employee) == i.cal[w] for w in i.workers),
              "the copy has the same workers")
    for w in i.workers:
        e = m.employees[w]
        e.salary = 7.5
        d = e.copy()
        ctx.check(d.salary == 7.5 and {s: v.skill_value for s, v in d.dict_skill.items()} == i.skill[w] and list(d.calendar_employee) == i.cal[w], "a copy of a worker has the same data")
        d.calendar_employee[0] = None
        ctx.check(e.calendar_employee[0] is not None, "a copy of a worker is independent")
    g = m.compute_graph()
    ctx.check([x[0] for x in g.nodes] == i.tasks and {(a, b) for a, b, _ in g.edges} == {(a, b) for a in i.succ for b in i.succ[a]} and all(dict(a) == i.dur[t] for t, a in g.nodes), "graph of the precedences")
    ctx.check(set(m.get_objective_register().dict_objective_to_doc) == {"makespan"}, "the objectives announced are those evaluated")


@harness("C28", "relaxation", configs=[dict(shape="free2", workers=2), dict(shape="chain2", workers=1), dict(shape="free2", workers=1, cal=True, longer=True)], expect=("yes",), functions=["build_multimode_rcpsp_calendar_representative"],
         bounds="2 tasks, 1 or 2 workers, durations 1..2, any starts 0..2, every employee calendar longer than the resources' or not")
def relaxation(ctx):
    """the single-resource view of a project: the skills available are those of the workers there"""
    c = dict(ctx.config)
    quiet(ctx)
    longer = c.pop("longer", False)
    i = Inst(ctx, c.pop("shape"), horizon=4, short=2, dmax=1, **c)
    m = i.model(MS.MS_RCPSPModel)
    if longer:
        for w in i.workers:
            m.employees[w].calendar_employee = list(i.cal[w]) + [True] * 2
    r = m.build_multimode_rcpsp_calendar_representative()
    for u in range(i.horizon):
        for k in i.skills:
            total = 0
            for w in i.workers:
                if i.cal[w][u] and k in i.skill[w]:
                    total = total + i.skill[w][k]
            ctx.check(r.resources[k][u] == total, "the skill available at a time is that of the workers there")
        for k in i.ren:
            ctx.check(r.resources[k][u] == i.cap[k][u], "the resources are the same")
    ctx.check(all(r.mode_details[t][k][x] == i.need[t][k][x] for t in i.tasks for k in i.dur[t] for x in i.res + i.skills) and all(r.mode_details[t][k]["duration"] == i.dur[t][k] for t in i.tasks for k in i.dur[t]), "needs and durations")
    ctx.check(r.successors == i.succ and r.horizon == i.horizon and list(r.non_renewable_resources) == i.nonren, "precedences and horizon")
    ctx.check(m.mode_details == i.details() and {k: list(v) for k, v in m.resources_availability.items()} == i.cap, "the project is left alone")
    ctx.reach("yes")


@harness("C28", "variant", configs=[dict(shape="free2", workers=2), dict(shape="chain2", workers=2, one=True), dict(shape="free2", workers=1, modes=2)], expect=("fits",), functions=["schedule_solution_to_variant"],
         bounds="2 tasks, 1 or 2 workers, any feasible schedule with starts 0..2")
def variant(ctx):
    """priorities read from a feasible schedule"""
    c = dict(ctx.config)
    quiet(ctx)
    i = Inst(ctx, c.pop("shape"), horizon=6, res=(), dmax=1, **c)
    m = i.model()
    modes = {t: ctx.choice("mode%d" % t, sorted(i.dur[t])) if t in i.real else 1 for t in i.tasks}
    times = {1: (0, 0)}
    for t in i.real:
        st = ctx.index("start%d" % t, 3)
        times[t] = (st, st + i.dur[t][modes[t]])
    end = max(times[t][1] for t in i.real)
    times[i.sink] = (end, end)
    usage = {t: {w: set(i.skills) for w in i.workers if i.skills[0] in i.skill[w] and ctx.bool("uses%d_%s" % (t, w))} for t in i.real}
    usage = {t: u for t, u in usage.items() if u}
    ctx.assume(i.feasible(times, modes, usage))
    s = MS.MS_RCPSPSolution(problem=m, modes=dict(modes), schedule={t: dict(zip(TIMES, times[t])) for t in ctx.choice("listing", (i.tasks, i.tasks[::-1]))}, employee_usage={t: {w: set(k) for w, k in u.items()} for t, u in usage.items()})
    v = MS.schedule_solution_to_variant(s)
    ctx.check(sorted(v.priority_list_task) == list(range(i.n)) and all(times[a + 2][0] <= times[b + 2][0] for a, b in zip(v.priority_list_task, v.priority_list_task[1:])), "tasks by start time")
    for t in i.real:
        p = v.priority_worker_per_task[t - 2]
        ctx.check(sorted(p) == sorted(i.workers) and set(p[:len(usage.get(t, {}))]) == set(usage.get(t, {})), "the workers of the task come first")
    ctx.check(v.modes_vector == [modes[t] for t in i.real], "modes")
    agrees(ctx, i, m, v, v.priority_list_task, v.modes_vector, v.priority_worker_per_task, "converted: ")
    ctx.check(times_of(s) == times, "the schedule is left alone")
