"""C07: a solver accepts a domain exactly when every characteristic of the domain is at least as specialised as it asks."""
from itertools import combinations

from vsym.registry import harness
from skdecide import Domain, Solver
import skdecide.utils as U
from skdecide.builders.domain import (Actions, Constrained, DeterministicInitialized, DeterministicTransitions,
                                      EnumerableTransitions, Environment, Events, FiniteHistory, FullyObservable, Goals,
                                      History, Initializable, Markovian, Memoryless, MultiAgent, Parallel,
                                      PartiallyObservable, PositiveCosts, Renderable, Rewards, Sequential, Simulation,
                                      SingleAgent, TransformedObservable, UncertainInitialized, UncertainTransitions,
                                      UnrestrictedActions)
from skdecide.builders.solver import DeterministicPolicies

GROUPS = dict(
    agent=[MultiAgent, SingleAgent], concurrency=[Parallel, Sequential],
    dynamics=[Environment, Simulation, UncertainTransitions, EnumerableTransitions, DeterministicTransitions],
    events=[Events, Actions, UnrestrictedActions], goals=[None, Goals],
    initialization=[None, Initializable, UncertainInitialized, DeterministicInitialized],
    memory=[History, FiniteHistory, Markovian, Memoryless],
    observability=[PartiallyObservable, TransformedObservable, FullyObservable],
    value=[Rewards, PositiveCosts], render=[None, Renderable], constraints=[None, Constrained])
NAMES = list(GROUPS)
FUNCS = ["Solver.check_domain", "Solver.get_domain_requirements", "match_solvers"]


def make(name, levels, order):
    bases = [GROUPS[g][l] for g, l in levels.items() if GROUPS[g][l] is not None]
    if order:
        bases.reverse()
    # a class lists its most specialised characteristics beside Domain, which brings the least specialised ones
    base = [Domain] + bases if order != 2 else bases + [Domain]
    try:
        return type(name, tuple(base), {})
    except TypeError:
        return type(name, tuple(bases + [Domain]), {})


def pick(ctx, name, groups):
    return {g: ctx.index("%s.%s" % (name, g), len(GROUPS[g])) for g in groups}


@harness("C07", "levels", configs=[dict(groups=list(p)) for p in combinations(NAMES, 2)], expect=("accept", "reject"),
         functions=FUNCS, bounds="all pairs of characteristics at all their levels on both sides (two characteristics "
         "varied at once), any answer of the additional check")
def levels(ctx):
    groups = ctx.config["groups"]
    dl, sl = pick(ctx, "domain", groups), pick(ctx, "solver", groups)
    direct = ctx.bool("T_domain subclassed")
    DomC, ReqC = make("Dom", dl, 0), make("Req", sl, 0)
    if direct:
        ReqC = type("Sub", (ReqC,), {})
        DomC = type("SubDom", (DomC,), {})
    extra = ctx.bool("additional")
    asked = []

    class S(Solver, DeterministicPolicies):
        T_domain = ReqC

        @classmethod
        def _check_domain_additional(cls, domain):
            asked.append(domain)
            return bool(extra)
    dom = DomC()
    need = all(dl[g] >= sl[g] for g in groups)
    got = S.check_domain(dom)
    ctx.check(bool(got) == (need and bool(extra)), "a solver accepts exactly the domains it can handle")
    if need:
        ctx.check(asked and all(d is dom for d in asked), "additional check of the solver consulted on the domain")
    reqs = S.get_domain_requirements()
    for g in groups:
        have = [c for c in GROUPS[g] if c is not None and c in reqs]
        want = GROUPS[g][sl[g]]
        ctx.check(have == ([want] if want is not None else []), "requirements list the level asked for")
    ctx.check(all(issubclass(ReqC, r) for r in reqs), "requirements are characteristics of the solver's domain type")
    ctx.check(all(isinstance(dom, r) for r in reqs) == need, "requirements decide compatibility")
    ctx.reach("accept" if got else "reject")


@harness("C07", "match", configs=[dict(default=d) for d in (False, True)], expect=("some", "none"), functions=FUNCS,
         bounds="4 candidate solvers, any acceptance pattern, some registered solvers failing to load")
def match(ctx):
    class Dom(Domain):
        pass
    dom = Dom()
    acc = [ctx.bool("accept%d" % i) for i in range(4)]
    fail = [ctx.bool("fail%d" % i) for i in range(4)] if ctx.config["default"] else [False] * 4

    def mk(i):
        class S(Solver, DeterministicPolicies):
            T_domain = Domain

            @classmethod
            def _check_domain_additional(cls, domain):
                ctx.check(domain is dom, "candidates checked on the domain")
                return bool(acc[i])
        S.__name__ = "S%d" % i
        return S
    cands = [mk(i) for i in range(4)]
    if ctx.config["default"]:
        ctx.patch(U, "get_registered_solvers", lambda: [c.__name__ for c in cands])
        ctx.patch(U, "load_registered_solver",
                  lambda n: None if fail[int(n[1:])] else cands[int(n[1:])])
        got = U.match_solvers(dom)
    else:
        got = U.match_solvers(dom, candidates=iter(cands) if ctx.bool("iterator") else cands)
    want = [c for i, c in enumerate(cands) if not fail[i] and acc[i]]
    ctx.check(list(got) == want, "match_solvers returns exactly the accepting candidates, in order")
    ctx.reach("some" if want else "none")


@harness("C07", "inheritance", configs=[dict(g=g) for g in NAMES], expect=("differ", "end"), functions=FUNCS,
         bounds="a solver class and a subclass of it asking for any two levels of one characteristic, questions in any order")
def inheritance(ctx):
    g = ctx.config["g"]
    n = len(GROUPS[g])
    l1, l2, dl = ctx.index("parent", n), ctx.index("child", n), ctx.index("domain", n)

    class S1(Solver, DeterministicPolicies):
        T_domain = make("Req1", {g: l1}, 0)

    class S2(S1):
        T_domain = make("Req2", {g: l2}, 0)
    dom = make("Dom", {g: dl}, 0)()
    for i in range(3):
        which = ctx.choice("which", [(S1, l1), (S2, l2)])
        ctx.check(bool(which[0].check_domain(dom)) == (dl >= which[1]), "each solver class answers for its own requirements")
        want = GROUPS[g][which[1]]
        reqs = which[0].get_domain_requirements()
        ctx.check([c for c in GROUPS[g] if c is not None and c in reqs] == ([want] if want else []), "each solver class lists its own requirements")
    if l1 != l2:
        ctx.reach("differ")
    ctx.reach("end")
