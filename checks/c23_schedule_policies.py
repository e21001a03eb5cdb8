"""C23: scheduling policies only take allowed actions, in the order they announce, and policy evaluation gives their exact values."""
from vsym.registry import harness
from vsym.engine import smax, ite
from .sched import *
from skdecide import TransitionValue, EnvironmentOutcome, DiscreteDistribution
from skdecide.domains import GoalMDPDomain
from skdecide.builders.domain import Actions
from skdecide.hub.space.gym import ListSpace
from skdecide.hub.domain.rcpsp import rcpsp_sk as SK
from skdecide.hub.solver.pile_policy.pile_policy import PilePolicy, GreedyChoice
from skdecide.hub.solver.sgs_policies.sgs_policies import PolicyRCPSP, PolicyMethodParams, BasePolicyMethod as B
from skdecide.hub.solver.meta_policy.meta_policies import MetaPolicy
from skdecide.hub.solver.policy_evaluators import policy_evaluator as PE

FUNCS = ["PilePolicy", "PolicyRCPSP", "next_action_follow_static_gantt", "next_action_sgs_*", "MetaPolicy", "task_possible_to_launch_precedence", "check_if_action_can_be_started"]
WAIT = (A.TIME_PR, None, None, True)


def instance(ctx, prec, modes=(1,), nres=1, horizon=20, dmax=2):
    d = data(ctx, prec, modes=modes, nres=nres, horizon=horizon, dmax=dmax)
    return d, SK.MRCPSP(resource_names=list(d.res), task_ids=list(d.tasks), tasks_mode=d.modes_dict(), successors=d.succ, max_horizon=horizon, resource_availability=dict(d.cap), resource_renewable=dict(d.renewable))


def descend(d, t):
    out = set()
    for j in d.succ[t]:
        out |= {j} | descend(d, j)
    return out


@harness("C23", "pile", configs=[dict(prec=p, greedy=g) for p in ("none", "fork", "join", "loose") for g in GreedyChoice.__members__], expect=("start", "wait"), functions=FUNCS,
         bounds="3 tasks, durations 0..2, needs 0..2, capacity 0..3, any consistent position at time 0..1, any draw, every greedy choice")
def pile(ctx):
    g = GreedyChoice[ctx.config["greedy"]]
    ctx.stub_random()
    d, dom = instance(ctx, ctx.config["prec"])
    s = any_sched(ctx, d, tmax=1)
    p = PilePolicy(g)
    p.solve(lambda: dom)
    memory = s.build(dom)
    ctx.check(p.is_policy_defined_for(memory), "defined everywhere")
    a = p.get_next_action(memory)
    s.agree(ctx, memory, "choosing leaves the state alone")
    if key(a) == WAIT:
        ctx.check(land(*[lnot(s.fits(t, 1)) for t in d.tasks if s.ready(t)]), "waits only when no ready task can start")
        ctx.reach("wait")
        return
    ctx.check(a.action == A.START and a.mode == 1 and s.ready(a.task) and not a.time_progress, "starts a ready task")
    ctx.check(s.fits(a.task, 1), "starts a task that fits")
    cand = [(t, s.fits(t, 1)) for t in d.tasks if s.ready(t)]
    if g == GreedyChoice.MOST_SUCCESSORS:
        ctx.check(land(*[lor(lnot(f), len(descend(d, t)) <= len(descend(d, a.task))) for t, f in cand]), "no other candidate has more tasks depending on it")
    if g == GreedyChoice.SAMPLE_MOST_SUCCESSORS:
        ctx.check(lor(len(descend(d, a.task)) > 0, land(*[lor(lnot(f), len(descend(d, t)) == 0) for t, f in cand])), "a task nothing depends on is drawn only when all are")
    if g == GreedyChoice.FASTEST:
        ctx.check(land(*[lor(lnot(f), d.dur[a.task][1] <= d.dur[t][1]) for t, f in cand]), "no other candidate is faster")
    ctx.reach("start")


def expected_choice(s, method, perm, mode, schedule, dt, di):
    """reference: the task a method starts, by lazily testing the candidates in its order; None to wait"""
    ready = [(i, t) for i, t in enumerate(perm) if s.ready(t)]
    if not ready:
        return None
    i0, first = ready[0]
    if method == B.SGS_READY:
        cand = [t for _, t in ready]
    elif method in (B.SGS_PRECEDENCE, B.SGS_STRICT):
        cand = [first] + [t for _, t in ready[1:] if schedule is not None and schedule[t] == schedule[first]]
    elif method == B.SGS_TIME_FREEDOM:
        cand = [first] + [t for _, t in ready[1:] if schedule is not None and land(schedule[first] <= schedule[t], schedule[t] <= schedule[first] + dt)]
    else:
        cand = [t for i, t in ready if i <= i0 + di]
    return next((t for t in cand if s.fits(t, mode[t])), None)


SGS = [B.SGS_READY, B.SGS_PRECEDENCE, B.SGS_STRICT, B.SGS_TIME_FREEDOM, B.SGS_INDEX_FREEDOM]


@harness("C23", "sgs", configs=[dict(prec=p, method=m.name, sched=x) for p in ("none", "loose", "pairchain") for m in SGS for x in ((True, False) if m not in (B.SGS_READY, B.SGS_INDEX_FREEDOM) else (False,))],
         expect=("start", "wait"), functions=FUNCS,
         bounds="2 or 3 tasks, up to 2 modes, any order and modes, scheduled times 0..2, time freedom 0..1, index freedom 0..2, needs 0..2, capacity 0..3, any consistent position at time 0..1")
def sgs(ctx):
    c = ctx.config
    m = B[c["method"]]
    d, dom = instance(ctx, c["prec"], modes=(1, 2) if c["prec"] == "pairchain" else (1,), dmax=1)
    s = any_sched(ctx, d, tmax=1 if c["prec"] == "pairchain" else 0)
    perm = ctx.permutation("order", list(d.tasks))
    mode = {t: ctx.choice("its_mode%d" % t, sorted(d.needs[t])) for t in d.tasks}
    big = m != B.SGS_TIME_FREEDOM
    schedule = {t: ctx.int("scheduled%d" % t, 0, 1 if big else 2) for t in d.tasks} if c["sched"] else None
    dt, di = ctx.int("time_freedom", 0, 0 if big else 1), ctx.int("index_freedom", 0, 2 if m == B.SGS_INDEX_FREEDOM else 0)
    p = PolicyRCPSP(dom, PolicyMethodParams(m, delta_time_freedom=dt, delta_index_freedom=di), list(perm), dict(mode), None if schedule is None else {t: {"start_time": v, "end_time": v} for t, v in schedule.items()})
    memory = s.build(dom)
    a = p.get_next_action(memory)
    s.agree(ctx, memory, "choosing leaves the state alone")
    want = expected_choice(s, m, perm, mode, schedule, dt, di)
    if want is None:
        ctx.check(key(a) == WAIT, "waits when none of the tasks it may start fits")
        ctx.reach("wait")
    else:
        ctx.check(key(a) == (A.START, want, mode[want], False), "starts the first of the tasks it may start that fits, in its mode")
        ctx.reach("start")


@harness("C23", "gantt", configs=[dict(prec=p) for p in ("none", "loose", "join")], expect=("finished",), functions=FUNCS,
         bounds="every feasible schedule of 3 tasks with durations 0..2 starting within 0..3: following it executes it exactly")
def gantt(ctx):
    d, dom = instance(ctx, ctx.config["prec"])
    start = {t: ctx.index("start%d" % t, 3) for t in d.tasks}
    end = {t: start[t] + d.dur[t][1] for t in d.tasks}
    for t in d.tasks:
        ctx.assume(land(*[end[p] <= start[t] for p in d.pred[t]]))
        # a task holds its needs when it starts, even for a duration of zero
        ctx.assume(d.needs[t][1]["R0"] + sum((ite(land(start[u] <= start[t], start[t] < end[u]), d.needs[u][1]["R0"], 0) for u in d.tasks if u != t), 0) <= d.cap["R0"])
    p = PolicyRCPSP(dom, PolicyMethodParams(B.FOLLOW_GANTT), sorted(d.tasks, key=lambda t: start[t]), {t: 1 for t in d.tasks}, {t: {"start_time": start[t], "end_time": end[t]} for t in d.tasks})
    m = dom.get_initial_state()
    for _ in range(9):
        if dom.is_goal(m):
            break
        m = dom.get_next_state(m, p.get_next_action(m))
    ctx.check(bool(dom.is_goal(m)), "a feasible schedule is executed to the end")
    for t in d.tasks:
        ctx.check(land(m.tasks_details[t].start == start[t], m.tasks_details[t].end == end[t]), "each task starts and ends when scheduled")
    ctx.reach("finished")


@harness("C23", "sgs_run", configs=[dict(prec=p, method=m) for p in ("loose", "join") for m in ("SGS_READY", "SGS_STRICT", "MOST_SUCCESSORS", "FASTEST")], expect=("finished",), functions=FUNCS,
         bounds="3 tasks of durations 0..2 whose needs fit one by one; the whole execution from the start, any order")
def sgs_run(ctx):
    c = ctx.config
    d, dom = instance(ctx, c["prec"])
    for t in d.tasks:
        ctx.assume(d.needs[t][1]["R0"] <= d.cap["R0"])
    if c["method"] in B.__members__:
        p = PolicyRCPSP(dom, PolicyMethodParams(B[c["method"]]), list(ctx.permutation("order", list(d.tasks))), {t: 1 for t in d.tasks})
    else:
        p = PilePolicy(GreedyChoice[c["method"]])
        p.solve(lambda: dom)
    m = dom.get_initial_state()
    for _ in range(10):
        if dom.is_goal(m):
            break
        a = p.get_next_action(m)
        ctx.check(bool(dom.is_applicable_action(a, m)), "every action taken is applicable")
        m = dom.get_next_state(m, a)
    ctx.check(bool(dom.is_goal(m)), "the project gets finished")
    det = m.tasks_details
    for t in d.tasks:
        for q in d.pred[t]:
            ctx.check(det[q].end <= det[t].start, "precedence holds")
    for tt in range(m.t):
        ctx.check(sum((d.needs[t][1]["R0"] for t in d.tasks if det[t].start <= tt < det[t].end), 0) <= d.cap["R0"], "capacity holds at every time")
    ctx.check(m.t <= sum((d.dur[t][1] for t in d.tasks), 0), "no longer than doing the tasks one by one")
    ctx.reach("finished")


class Seq:
    """a policy that starts given tasks in order as soon as possible"""

    def __new__(cls, dom, order):
        return PolicyRCPSP(dom, PolicyMethodParams(B.SGS_STRICT), list(order), {t: 1 for t in order})


@harness("C23", "meta", configs=[dict(prec=p, horizon=h, fail=f) for p, h, f in (("pair", 20, False), ("pair", 20, True), ("pair", 3, False), ("pairchain", 20, False))], expect=("same", "different"), functions=FUNCS,
         bounds="2 policies that execute 2 tasks in either order (one of them may wait for ever), durations 0..3, needs 0..2, any capacity 0..3")
def meta(ctx):
    c = ctx.config
    d, dom = instance(ctx, c["prec"], horizon=c["horizon"], dmax=3)
    for t in d.tasks:
        ctx.assume(d.needs[t][1]["R0"] <= d.cap["R0"])

    class Lazy(PolicyRCPSP):
        def _get_next_action(self, observation):
            return SchedulingAction(None, A.TIME_PR, None, True)
    p1 = Lazy(dom, PolicyMethodParams(B.SGS_STRICT), [1, 2], {1: 1, 2: 1}) if c["fail"] else Seq(dom, [1, 2])
    p2 = Seq(dom, [2, 1])
    mp = MetaPolicy({"a": p1, "b": p2}, dom, dom, nb_rollout_estimation=1 + ctx.index("rollouts", 2), verbose=False)
    m = dom.get_initial_state()
    acts = [p1.get_next_action(m), p2.get_next_action(m)]

    def length(p):
        n = m
        for _ in range(25):
            if dom.is_goal(n) or dom.is_terminal(n):
                break
            n = dom.get_next_state(n, p.get_next_action(n))
        return n.t if dom.is_goal(n) else 1000
    ls = [length(p1), length(p2)]
    a = mp.get_next_action(m)
    Sched(d).agree(ctx, m, "choosing leaves the state alone")
    ctx.check(dom.inplace_environment is False, "choosing leaves the domain as it was")
    if acts[0] == acts[1]:
        ctx.check(a == acts[0], "policies that agree are followed")
        ctx.reach("same")
    elif ls[0] != ls[1]:
        ctx.check(a == acts[0 if ls[0] < ls[1] else 1], "the action of the policy that finishes first")
        ctx.reach("different")
    else:
        ctx.check(a in acts, "the action of one of the policies")
    ctx.check(mp.is_policy_defined_for(m), "defined everywhere")


class Mdp(GoalMDPDomain):
    """states 0..n-1, one action per state; state n-1 is the goal, `dead` is terminal but no goal"""
    T_state = int
    T_observation = int
    T_event = str
    T_value = float
    T_info = None
    T_predicate = bool

    def __init__(self, trans, cost, goals, dead):
        self.trans, self.cost, self.goals, self.dead = trans, cost, goals, dead

    def _get_initial_state_(self):
        return 0

    def _get_next_state_distribution(self, memory, action):
        return DiscreteDistribution(list(self.trans[memory]))

    def _get_transition_value(self, memory, action, next_state=None):
        return TransitionValue(cost=self.cost[memory, next_state])

    def _is_terminal(self, state):
        return state in self.goals or state in self.dead

    def _get_applicable_actions_from(self, memory):
        return ListSpace(["go"])

    def _get_action_space_(self):
        return ListSpace(["go"])

    def _get_goals_(self):
        from skdecide import ImplicitSpace
        return ImplicitSpace(lambda s: s in self.goals)

    def _get_observation_space_(self):
        from skdecide import ImplicitSpace
        return ImplicitSpace(lambda s: True)


class Go:
    def get_next_action(self, s):
        return "go"


SHAPES = {"dag": {0: [1, 2], 1: [2, 3], 2: [3]}, "diamond": {0: [1, 2], 1: [3], 2: [3]}, "dead": {0: [1, 2], 1: [3, 4], 2: [3]}, "loop": {0: [1, 2], 1: [0, 3], 2: [3]}, "self": {0: [0, 1], 1: [3]}}


@harness("C23", "expected_cost", configs=[dict(shape=k) for k in sorted(SHAPES)], functions=["construct_dict_policy", "expected_costs_for_policy", "compute_expected_cost_for_policy", "successor_value_is_known"],
         bounds="5 shapes of up to 5 states, any probabilities (0 included) and costs; with cycles or dead ends only the states that surely finish without a cycle are valued")
def expected_cost(ctx):
    shape = SHAPES[ctx.config["shape"]]
    trans, cost = {}, {}
    for s, succ in shape.items():
        ps = [ctx.real("p%d_%d" % (s, j), 0, 1) for j in succ[:-1]]
        last = 1 - sum(ps, 0)
        ctx.assume(last >= 0)
        trans[s] = list(zip(succ, ps + [last]))
        for j in succ:
            cost[s, j] = ctx.int("c%d_%d" % (s, j), 0, 5)
    dom = Mdp(trans, cost, {3}, {4})
    vals, pol, preds, succs = PE.compute_expected_cost_for_policy(dom, Go())
    # reference
    pos = {s: [(j, p) for j, p in t if p > 0] for s, t in trans.items()}
    reached, stack = set(), [0]
    while stack:
        s = stack.pop()
        if s in reached:
            continue
        reached.add(s)
        stack += [j for j, _ in pos.get(s, [])]
    ctx.check(set(pol) == {s for s in reached if s in trans} and all(a == "go" for a in pol.values()), "the policy is given for the states it reaches")
    known = {3: 0}
    for _ in range(5):
        for s in trans:
            if s not in known and all(j in known for j, _ in pos[s]):
                known[s] = sum((p * (cost[s, j] + known[j]) for j, p in pos[s]), 0)
    ctx.check(set(vals) == {s for s in known if s in reached}, "values are given for the states that surely reach the goal")
    for s, v in vals.items():
        ctx.check(land(v - known[s] < 1e-9, known[s] - v < 1e-9), "value is the expected total cost")
    for s in pol:
        for j, _ in pos[s]:
            ctx.check(s in preds[j] and j in [x for x, _ in succs[s]], "predecessors and successors")


@harness("C23", "rollout_cost", configs=[dict(shape=k) for k in ("dag", "diamond", "self")], functions=["my_custom_rollout", "rollout_based_policy_estimation", "rollout_based_compute_expected_cost_for_policy"],
         bounds="any draws over 1 or 2 rollouts of up to 4 steps, any costs")
def rollout_cost(ctx):
    shape = SHAPES[ctx.config["shape"]]
    cost = {(s, j): ctx.int("c%d_%d" % (s, j), 0, 5) for s, t in shape.items() for j in t}
    n = 1 + ctx.index("rollouts", 2)
    traj = []

    class D(Mdp):
        def _state_sample(self, memory, action):
            from skdecide import TransitionOutcome
            if not traj or traj[-1][-1] == 3:
                traj.append([0])
            succ = shape[memory]
            if len(traj[-1]) > 3:
                succ = succ[-1:]
            j = ctx.choice("next", succ)
            traj[-1].append(j)
            return TransitionOutcome(state=j, value=TransitionValue(cost=cost[memory, j]), termination=j == 3)
    dom = D({}, cost, {3}, set())
    vals, pol, preds, succs = PE.rollout_based_compute_expected_cost_for_policy(dom, Go(), n)
    ctx.check(len(traj) == n, "as many rollouts as asked")
    visited = {s for t in traj for s in t[:-1]}
    ctx.check(set(vals) == visited == set(pol), "values for the states visited")
    for s in visited:
        tot, cnt = 0, 0
        for t in traj:
            for i, x in enumerate(t[:-1]):
                if x == s:
                    cnt += 1
                    tot = tot + sum((cost[t[k], t[k + 1]] for k in range(i, len(t) - 1)), 0)
        ctx.check(vals[s] * cnt == tot, "value is the average cost from the visits of the state to the end")
        ctx.check(succs[s] == {t[i + 1] for t in traj for i in range(len(t) - 1) if t[i] == s} and preds[s] == {t[i - 1] for t in traj for i in range(1, len(t) - 1) if t[i] == s}, "observed predecessors and successors")


@harness("C23", "rollout_schedule", functions=["rollout_based_policy_estimation_fast_scheduling", "rollout_based_compute_expected_cost_for_policy_scheduling"], bounds="2 tasks, durations 0..2, needs fitting one by one; 1 or 2 rollouts")
def rollout_schedule(ctx):
    d, dom = instance(ctx, "pair")
    for t in d.tasks:
        ctx.assume(d.needs[t][1]["R0"] <= d.cap["R0"])
    p = Seq(dom, [1, 2])
    n = m = dom.get_initial_state()
    while not dom.is_goal(n):
        n = dom.get_next_state(n, p.get_next_action(n))
    vals, *_ = PE.rollout_based_compute_expected_cost_for_policy_scheduling(dom, p, 1 + ctx.index("rollouts", 2))
    ctx.check(len(vals) == 1 and list(vals)[0] == m and list(vals.values())[0] == n.t, "estimated makespan of a deterministic project is its makespan")
    ctx.check(dom.inplace_environment is False, "estimating leaves the domain as it was")
    Sched(d).agree(ctx, dom.get_initial_state(), "initial state")
