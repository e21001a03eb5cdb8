"""C26: domains running in parallel processes answer as the domain itself would."""
from typing import NamedTuple

from vsym.registry import harness
from vsym.engine import land
from skdecide import domains as DM
from skdecide.builders.solver import parallelability as PA
from checks.conc import MP, Sched

FUNCS = ["ParallelDomain", "PipeParallelDomain", "ShmParallelDomain", "_launch_domain_server_", "_shm_launch_domain_server_", "ParallelSolver"]
STUBS = ["processes are coroutines; the next one to run at each shared operation is a symbolic choice; messages, shared arrays and values, locks and conditions as documented",
         "inter-language notification sockets record what is sent"]


class State(NamedTuple):
    x: object
    y: object


class Act:
    def __init__(self, v):
        self.v = v


class Num:
    """a number"""

    def __init__(self, v):
        self.v = v


class Dom:
    """remembers what it was asked; answers depend on its arguments and on its own state"""

    def __init__(self):
        self.at = State(0, 0)
        self.steps = 0

    def reset(self):
        self.at = State(0, 0)
        return self.at

    def step(self, action):
        self.at = State(self.at.x + action.v, self.at.y + 1)
        return self.at

    def sample(self, memory, action):
        return State(memory.x + action.v, memory.y - action.v)

    def get_next_state(self, memory, action):
        return State(memory.x * 2 + action.v, memory.y)

    def get_transition_value(self, memory, action, next_state):
        return Num(memory.x + 3 * next_state.x + 5 * action.v + memory.y - next_state.y)

    def is_goal(self, observation):
        return bool(observation.x > 0)

    def is_terminal(self, state):
        return bool(state.y == 1)

    def get_initial_state(self):
        return State(7, 8)

    def render(self, memory):
        return None

    def swap(self, memory):
        return State(memory.y, memory.x), State(memory.x, memory.x)

    def mixed(self, a, b):
        return Num(a.v), State(b.x, a.v), State(a.v, b.y), Num(b.x)

    def wrong(self, memory):
        raise ValueError("no such thing")


class Proxy:
    """what a user writes: how each type lives in shared memory"""

    def __init__(self, mp):
        self.mp = mp

    def copy(self):
        return Proxy(self.mp)

    def register(self):
        return [(Act, 1), (State, 2), (bool, 1), (Num, 2)]

    def initialize(self, t):
        return [self.mp.Value("i", 0), self.mp.Value("i", 0)] if t is State else self.mp.Value("i", 0)

    def encode(self, v, m):
        if type(v) is State:
            assert len(m) == 2
            m[0].value, m[1].value = v.x, v.y
        elif type(v) is bool:
            m.value = 1 if v else 0
        else:
            m.value = v.v

    def decode(self, t, m):
        if t is State:
            assert len(m) == 2
            return State(m[0].value, m[1].value)
        if t is bool:
            return m.value == 1
        return t(m.value)


LAMBDAS = [lambda d, memory: State(memory.x + 100, memory.y), lambda d, memory, action: Num(memory.x - action.v)]


class Push:
    """the notification socket"""
    log = {}

    def dial(self, address):
        self.address = address
        Push.log.setdefault(address, [])

    def send(self, b):
        Push.log[self.address].append(b)

    def close(self):
        Push.log[self.address].append("closed")


class Quiet:
    def __init__(self):
        self.errors = []

    def info(self, *a):
        pass

    debug = warning = info

    def error(self, m):
        self.errors.append(m)


def setup(ctx, sched, kind, n, notify=False, lambdas=LAMBDAS):
    mp = MP(sched)
    log = Quiet()
    Push.log = {}
    ctx.patch(DM, "mp", mp)
    ctx.patch(DM, "logger", log)
    ctx.patch(DM, "Push0", Push)
    if kind == "pipe":
        d = DM.PipeParallelDomain(Dom, lambdas=lambdas, nb_domains=n, ipc_notify=notify)
    else:
        d = DM.ShmParallelDomain(Dom, Proxy(mp), lambdas=lambdas, nb_domains=n, ipc_notify=notify)
    return d, mp, log


def val(x):
    """plain content of a result"""
    if type(x) in (list, tuple):
        return [val(v) for v in x]
    if isinstance(x, State):
        return ("State", x.x, x.y)
    if isinstance(x, (Num, Act)):
        return (type(x).__name__, x.v)
    return x


def same(a, b):
    a, b = val(a), val(b)
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and land(*[same(p, q) for p, q in zip(a, b)])
    if a is None or isinstance(a, (bool, str)):
        return a == b
    return a == b


def state(ctx, n):
    return State(ctx.int("x" + n, -2, 2), ctx.int("y" + n, -2, 2))


def request(ctx, n, names):
    """a symbolic request: name, arguments and what the domain itself answers"""
    k = ctx.choice("request" + n, names)
    s, t, a = state(ctx, n), state(ctx, n + "'"), Act(ctx.int("a" + n, -2, 2))
    args = {"get_next_state": (s, a), "sample": (s, a), "get_transition_value": (s, a, t), "is_goal": (s,), "is_terminal": (s,), "get_initial_state": (),
            "swap": (s,), "mixed": (a, s), "render": (s,), "wrong": (s,), 0: (s,), 1: (s, a), "reset": (), "step": (a,), "unknown": (s,)}[k]
    return k, args


def answer(k, args, d=None):
    d = d or Dom()
    if k in ("wrong", "unknown"):
        return None
    return LAMBDAS[k](d, *args) if isinstance(k, int) else getattr(d, k)(*args)


def ask(d, k, args, i=None):
    return d.call(i, k, *args) if isinstance(k, int) else getattr(d, k)(*args, i=i)


KINDS = ("pipe", "shm")
NAMES = ["get_next_state", "sample", "get_transition_value", "is_goal", "is_terminal", "get_initial_state", "render", "swap", "mixed", "wrong", "unknown", 0, 1]


@harness("C26", "answers", configs=[dict(kind=k, n=n, notify=b) for k in KINDS for n in (1, 2) for b in (False, True)], expect=("answered", "failed"), functions=FUNCS,
         bounds="1 or 2 domains, three requests one after the other, the first among 13, any arguments, any domain asked", stubs=STUBS)
def answers(ctx):
    c = ctx.config
    with Sched(ctx) as s:
        d, mp, log = setup(ctx, s, c["kind"], c["n"], c["notify"])
        ctx.check(d.nb_domains() == c["n"] == d.get_parallel_capacity(), "as many domains as wanted")
        sent = {}
        for r in range(3):
            k, args = request(ctx, str(r), NAMES if r == 0 else ["mixed", 1] if r == 1 else ["get_transition_value", "is_goal"])
            i = ctx.choice("which", [None] + list(range(c["n"]))) if r != 2 else None
            if c["kind"] == "shm" and r == 0:
                d._launch_processes()
            j = ask(d, k, args, i)
            ctx.check(j in range(c["n"]) and i in (None, j), "the domain asked is the wanted one, or any")
            if c["notify"]:
                # the other side waits for the notification of the end of the job
                addr = d.get_ipc_connections()[j]
                sent[addr] = sent.get(addr, 0) + 1
                s.block(lambda: len(Push.log.get(addr, [])) >= sent[addr])
                ctx.check(len(Push.log[addr]) == sent[addr], "each end of job is notified once")
                ctx.check((Push.log[addr][-1] == b"0") == (k not in ("wrong", "unknown")), "success and failure are notified")
                if k in ("wrong", "unknown"):
                    return ctx.reach("failed")
            got = d.get_result(j)
            ctx.check(same(got, [val(x) for x in answer(k, args)] if k in ("swap", "mixed") else answer(k, args)), "the result is the one of the domain itself, for these arguments")
            ctx.check(bool(log.errors) == (k in ("wrong", "unknown")), "errors are reported")
            del log.errors[:]
            ctx.reach("failed" if k in ("wrong", "unknown") else "answered")
        d.close()
        ctx.check(all(p.closed and not p.is_alive() for p in mp.processes), "closing ends every process")
        ctx.check(not any(d._processes), "no process is left")
        ctx.check(all(v[-1] == "closed" for v in Push.log.values()), "notifications are closed")


@harness("C26", "together", configs=lambda tier: [dict(kind=k, n=n, pre=p) for k in KINDS for n, p in ([(2, 1)] if tier == "quick" else [(2, 1), (3, 1), (2, 2)])], expect=("end",), functions=FUNCS,
         bounds="2 or 3 domains, as many requests at once, results read in any order, up to 2 preemptions", stubs=STUBS)
def together(ctx):
    c = ctx.config
    with Sched(ctx, 0) as s:
        d, mp, log = setup(ctx, s, c["kind"], c["n"])
        with d:
            s.budget = c["pre"]
            reqs = {}
            for r in range(c["n"]):
                k, args = request(ctx, str(r), ["get_transition_value"] if r else ["swap"])
                j = ask(d, k, args)
                ctx.check(j in range(c["n"]) and j not in reqs, "requests at the same time are served by different domains")
                reqs[j] = (k, args)
            for j in ctx.permutation("order", sorted(reqs)):
                k, args = reqs[j]
                ctx.check(same(d.get_result(j), [val(x) for x in answer(k, args)] if k == "swap" else answer(k, args)), "each request gets its own result")
            k, args = request(ctx, "again", ["get_next_state"])
            j = ask(d, k, args)
            ctx.check(same(d.get_result(j), answer(k, args)), "a domain which has answered can be asked again")
        ctx.check(all(p.closed for p in mp.processes), "leaving the context ends every process")
        ctx.reach("end")


@harness("C26", "separate", configs=[dict(kind=k, pre=p) for k in KINDS for p in (0, 1)], expect=("end",), functions=FUNCS,
         bounds="2 domains stepped and reset independently, 4 operations each on either domain", stubs=STUBS)
def separate(ctx):
    c = ctx.config
    with Sched(ctx, 0) as s:
        d, mp, log = setup(ctx, s, c["kind"], 2)
        d._launch_processes()
        s.budget = c["pre"]
        mine = [Dom(), Dom()]
        for r in range(4 if not c["pre"] else 2):
            i = ctx.index("which%d" % r, 2)
            k, args = request(ctx, str(r), ["step"] if r in (0, 2) else ["step", "reset"])
            j = ask(d, k, args, i)
            ctx.check(j == i, "the wanted domain is asked")
            ctx.check(same(d.get_result(j), answer(k, args, mine[i])), "each domain has its own state")
        d.close()
        ctx.reach("end")


@harness("C26", "clients", configs=lambda tier: [dict(kind=k, n=n, pre=p) for k in KINDS for n in (1, 2) for p in ([1] if tier == "quick" else [1, 2])], expect=("end",), functions=FUNCS,
         bounds="two threads asking at the same time, for 1 or 2 domains, up to 2 preemptions", stubs=STUBS)
def clients(ctx):
    c = ctx.config
    with Sched(ctx, 0) as s:
        d, mp, log = setup(ctx, s, c["kind"], c["n"])
        d._launch_processes()
        out = {}
        reqs = [request(ctx, str(r), ["get_next_state"]) for r in range(2)]

        def client(r):
            k, args = reqs[r]
            j = ask(d, k, args)
            busy = [q for q, v in out.items() if v[0] == j and v[1] is None]
            ctx.check(j is not None and not busy, "requests at the same time are served by different domains")
            out[r] = (j, None)
            out[r] = (j, [d.get_result(j)])
        s.budget = c["pre"]
        other = s.spawn("client", lambda: client(1))
        client(0)
        s.block(lambda: other.done)
        for r in range(2):
            ctx.check(same(out[r][1][0], answer(*reqs[r])), "each request gets its own result")
        s.budget = 0
        d.close()
        ctx.reach("end")


class Heard(DM.ParallelDomain):
    def launch(self, i, name, *args):
        return ("launched", i, name, args)


CALLS = {"reset": 0, "get_initial_state_distribution": 0, "get_initial_state": 0, "get_observation_space": 0, "is_observation": 1, "get_observation_distribution": 2, "get_observation": 2,
         "get_enabled_events": 1, "is_enabled_event": 2, "get_action_space": 0, "is_action": 1, "get_applicable_actions": 1, "is_applicable_action": 2, "step": 1, "sample": 2,
         "get_next_state_distribution": 2, "get_next_state": 2, "get_transition_value": 3, "is_transition_value_dependent_on_next_state": 0, "get_goals": 0, "is_goal": 1, "is_terminal": 1,
         "check_value": 1, "render": 1, "my_own_method": 2}


@harness("C26", "names", configs=[dict(i=i) for i in (None, 0, 2)], expect=("end",), functions=FUNCS, bounds="every domain method, any arguments", stubs=STUBS)
def names(ctx):
    with Sched(ctx) as s:
        ctx.patch(DM, "mp", MP(s))
        d = Heard(Dom, nb_domains=3)
        i = ctx.config["i"]
        k = ctx.choice("method", sorted(CALLS))
        args = tuple(ctx.int("arg", -3, 3) for _ in range(CALLS[k]))
        for got, where in ((getattr(d, k)(*args, i=i), i), (getattr(d, k)(*args), None)):
            ctx.check(got[0] == "launched" and got[1] == where and got[2] == k and len(got[3]) == len(args), "the method is the one called")
            ctx.check(land(True, *[a == b for a, b in zip(got[3], args)]), "the arguments are those given")
        got = d.call(i, 4, *args)
        ctx.check(got[:3] == ("launched", i, 4) and len(got[3]) == len(args) and land(True, *[a == b for a, b in zip(got[3], args)]), "functions are called with the arguments given")
        ctx.reach("end")


@harness("C26", "restart", configs=[dict(kind=k) for k in KINDS], expect=("end",), functions=FUNCS, bounds="2 domains closed, with or without a pending request, and used again", stubs=STUBS)
def restart(ctx):
    with Sched(ctx) as s:
        d, mp, log = setup(ctx, s, ctx.config["kind"], 2)
        for turn in range(2):
            k, args = request(ctx, str(turn), ["get_next_state", "wrong"])
            j = ask(d, k, args)
            ctx.check(same(d.get_result(j), answer(k, args)), "the result is the one of the domain itself, for these arguments")
            ctx.check(sum(p.is_alive() for p in mp.processes) == 2, "one process per domain")
            d.close()
            ctx.check(not any(p.is_alive() for p in mp.processes) and all(p.closed for p in mp.processes), "closing ends every process")
        ctx.reach("end")


@harness("C26", "refused", configs=[dict(kind="shm")], expect=("end",), functions=FUNCS, bounds="1 domain, requests which cannot be sent, then any request", stubs=STUBS)
def refused(ctx):
    with Sched(ctx) as s:
        d, mp, log = setup(ctx, s, ctx.config["kind"], 1)
        bad = ctx.choice("bad", [(1.5,), ("text", State(1, 1)), (Act(1), Act(2)), (State(0, 0),) * 3])
        ctx.check(d.launch(None, "get_next_state", *bad) is None and log.errors, "a request whose arguments cannot be shared is refused and reported")
        k, args = request(ctx, "", ["get_next_state", "mixed", "get_transition_value"])
        j = ask(d, k, args)
        got = d.get_result(j)
        ctx.check(same(got, [val(x) for x in answer(k, args)] if k == "mixed" else answer(k, args)), "a refused request leaves the domain available")
        d.close()
        ctx.reach("end")


@harness("C26", "solver", configs=[dict(kind=k) for k in KINDS + ("alone",)], expect=("end",), functions=FUNCS, bounds="a solver calling any of 8 methods of its domain, parallel or not", stubs=STUBS)
def solver(ctx):
    kind = ctx.config["kind"]
    with Sched(ctx) as s:
        mp = MP(s)
        log = Quiet()
        ctx.patch(DM, "mp", mp)
        ctx.patch(DM, "logger", log)
        ctx.patch(DM, "Push0", Push)
        ctx.patch(DM.PipeParallelDomain.__init__, "__defaults__", (None, 2, False))
        ctx.patch(DM.ShmParallelDomain.__init__, "__defaults__", (None, 2, False))
        p = PA.ParallelSolver(Dom, parallel=kind != "alone", shared_memory_proxy=Proxy(mp) if kind == "shm" else None)
        if ctx.bool("asked first"):
            d = p.get_domain()
            ctx.check(d is p.get_domain() and (type(d) is Dom) == (kind == "alone"), "the domain is created when it is asked")
        else:
            p._initialize()
        ctx.check(isinstance(p.get_domain(), {"alone": Dom, "pipe": DM.PipeParallelDomain, "shm": DM.ShmParallelDomain}[kind]), "parallel domains when wanted")
        for r in range(2):
            k, args = request(ctx, str(r), NAMES[:7] + ["swap"])
            got = p.call_domain_method(k, *args)
            want = answer(k, args)
            ctx.check(same(got, want) if k != "swap" else same(list(got), list(want)), "the result is the one of the domain itself, for these arguments")
        p._cleanup()
        ctx.check(all(q.closed for q in mp.processes) and len(mp.processes) == (0 if kind == "alone" else 2), "closing ends every process")
        p.close()
        ctx.reach("end")
