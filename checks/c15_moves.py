"""C15: mutations produce valid solutions, report their objectives and can be undone."""
import numpy as np

from vsym.registry import harness
from vsym.engine import land, lor, lnot, ite, smax, implies, is_sym
from skdecide.builders.discrete_optimization.generic_tools.do_mutation import LocalMoveDefault, Mutation
from skdecide.builders.discrete_optimization.generic_tools.do_problem import (
    EncodingRegister, ModeOptim, ObjectiveHandling, ObjectiveRegister, Problem, Solution, TypeAttribute, TypeObjective)
from skdecide.builders.discrete_optimization.generic_tools.mutations.mixed_mutation import (
    BasicPortfolioMutation, BasicPortfolioMutationTrack)
from skdecide.builders.discrete_optimization.generic_tools.mutations.mutation_bool import BitFlipMove, MutationBitFlip
from skdecide.builders.discrete_optimization.generic_tools.mutations.mutation_integer import MutationIntegerSpecificArrity
from skdecide.builders.discrete_optimization.generic_tools.mutations.mutation_util import get_attribute_for_type
from skdecide.builders.discrete_optimization.generic_tools.mutations.permutation_mutations import (
    PermutationPartialShuffleMutation, PermutationShuffleMutation, PermutationSwap, ShuffleMove, SwapsLocalMove,
    TwoOptMove, TwoOptMutation)

FUNCS = ["PermutationShuffleMutation", "PermutationPartialShuffleMutation", "PermutationSwap", "TwoOptMutation", "MutationBitFlip",
         "MutationIntegerSpecificArrity", "BasicPortfolioMutation", "ShuffleMove/SwapsLocalMove/TwoOptMove/BitFlipMove/LocalMoveDefault"]


class Sol(Solution):
    def __init__(self, problem, perm, bools, ints):
        self.problem, self.perm, self.bools, self.ints = problem, perm, bools, ints

    def copy(self):
        return Sol(self.problem, list(self.perm), list(self.bools), list(self.ints))

    def lazy_copy(self):
        return Sol(self.problem, self.perm, self.bools, self.ints)

    def key(self):
        return tuple(self.perm), tuple(self.bools), tuple(self.ints)

    def change_problem(self, p):
        self.problem = p


class Prob(Problem):
    def __init__(self, ctx, n, arrities):
        self.n, self.arrities = n, arrities
        self.w = [ctx.int("weight", -5, 5) for _ in range(n)]

    def evaluate(self, s):
        return {"cost": sum(self.w[i] * (s.perm[i] + 10 * s.bools[i] + 20 * s.ints[i]) for i in range(self.n))}

    def satisfy(self, s):
        return True

    def get_attribute_register(self):
        return EncodingRegister({
            "other": {"name": "other", "type": [TypeAttribute.LIST_INTEGER], "range": range(7), "n": 7},
            "perm": {"name": "perm", "type": [TypeAttribute.PERMUTATION, TypeAttribute.PERMUTATION_RCPSP], "range": range(self.n), "n": self.n},
            "bools": {"name": "bools", "type": [TypeAttribute.LIST_INTEGER, TypeAttribute.LIST_BOOLEAN], "n": self.n},
            "ints": {"name": "ints", "type": [TypeAttribute.LIST_INTEGER_SPECIFIC_ARRITY], "n": self.n, "arrities": self.arrities}})

    def get_objective_register(self):
        return ObjectiveRegister(ModeOptim.MINIMIZATION, ObjectiveHandling.SINGLE,
                                 {"cost": {"type": TypeObjective.OBJECTIVE, "default_weight": 1}})


def start(ctx, n):
    p = Prob(ctx, n, [1 + (i % 3) for i in range(n)])
    perm = ctx.choice("perm", [list(range(n)), list(range(n))[::-1], [(i + 2) % n for i in range(n)]])
    s = Sol(p, list(perm), [i % 2 for i in range(n)], [1 for i in range(n)])
    return p, s


def after(ctx, p, s, before, new, move, obj, attr):
    """the obligations of every mutation; returns the new value of the mutated attribute"""
    kb = dict(zip(("perm", "bools", "ints"), before))
    kn = dict(zip(("perm", "bools", "ints"), new.key()))
    for a in kb:
        if a != attr:
            ctx.check(kn[a] == kb[a], "other attributes are unchanged")
    ctx.check(new.problem is p, "still a solution of the problem")
    if new is not s:
        ctx.check(s.key() == before, "a mutation giving another solution leaves the first one unchanged")
    if obj is not None:
        ctx.check(obj["cost"] == p.evaluate(new)["cost"], "objectives reported are those of the new solution")
    k = new.key()
    back = move.backtrack_local_move(new)
    ctx.check(back.key() == before, "backtracking gives the solution before the move")
    again = move.apply_local_move(back)
    ctx.check(again.key() == k, "applying the move again gives the mutated solution")
    ctx.check(move.backtrack_local_move(again).key() == before, "backtracking gives the solution before the move")
    return kn[attr]


def run(ctx, m, s):
    if ctx.bool("with objectives"):
        return m.mutate_and_compute_obj(s)
    return m.mutate(s) + (None,)


PERM = {"shuffle": lambda p, s: PermutationShuffleMutation.build(p, s),
        "partial0": lambda p, s: PermutationPartialShuffleMutation.build(p, s, proportion=0.1),
        "partial default": lambda p, s: PermutationPartialShuffleMutation.build(p, s),
        "partial": lambda p, s: PermutationPartialShuffleMutation.build(p, s, proportion=0.5),
        "partial all": lambda p, s: PermutationPartialShuffleMutation.build(p, s, attribute="perm", proportion=1),
        "swap": lambda p, s: PermutationSwap.build(p, s),
        "swap2": lambda p, s: PermutationSwap.build(p, s, attribute="perm", nb_swap=2),
        "2opt": lambda p, s: TwoOptMutation.build(p, s),
        "2opt named": lambda p, s: TwoOptMutation.build(p, s, attribute="perm")}


@harness("C15", "permutations", configs=lambda tier: [dict(m=m, n=n) for m in PERM for n in (() if m.startswith("2opt") else (1,)) + ((2, 3) if tier == "quick" or m in ("partial all",) else (2, 3, 4))],
         expect=("end", "moved"), functions=FUNCS, bounds="permutations of up to 3 elements (4 thorough), every random draw, any integer objective weights",
         stubs=["random draws return any value of positive probability"])
def permutations(ctx):
    c = ctx.config
    ctx.stub_random()
    p, s = start(ctx, c["n"])
    m = PERM[c["m"]](p, s)
    for step in range(2 if c["n"] < 3 and c["m"] != "swap2" else 1):
        before = s.key()
        new, move, obj = run(ctx, m, s)
        perm = list(new.perm)
        ctx.check(sorted(int(x) for x in perm) == list(range(c["n"])), "still a permutation")
        d = sum(1 for a, b in zip(perm, before[0]) if a != b)
        if c["m"] == "swap":
            ctx.check(d in (0, 2), "one exchange")
        if c["m"] == "partial0":
            ctx.check(d == 0, "the given proportion of elements moves")
        if c["m"] in ("partial", "partial default") and c["n"] < 4:
            ctx.check(d == 0, "the given proportion of elements moves")
        if c["m"].startswith("2opt"):
            diff = [i for i in range(c["n"]) if perm[i] != before[0][i]]
            i, j = diff[0], diff[-1]
            ctx.check(perm[i:j + 1] == list(before[0][i:j + 1])[::-1], "a segment is reversed")
        if d or c["m"].startswith("partial") and c["m"] != "partial all":
            ctx.reach("moved")
        after(ctx, p, s, before, new, move, obj, "perm")
        s = new.copy()
    ctx.reach("end")


@harness("C15", "flips", configs=[dict(m=m, n=n) for m in ("bool", "bool named", "int", "int named") for n in (1, 2, 3)], expect=("end", "none", "all"),
         functions=FUNCS, bounds="lists of 1 to 3 values, every random draw, any flip probability in [0, 1], any integer objective weights",
         stubs=["random draws return any value of positive probability"])
def flips(ctx):
    c = ctx.config
    ctx.stub_random()
    n = c["n"]
    p, s = start(ctx, n)
    s.bools[:] = [ctx.index("b", 2) for _ in range(n)]
    pr = ctx.real("probability", 0, 1)
    kw = dict(probability_flip=pr)
    if c["m"].startswith("bool"):
        attr, m = "bools", MutationBitFlip.build(p, s, **(dict(kw, attribute="bools") if "named" in c["m"] else kw))
    else:
        attr = "ints"
        m = MutationIntegerSpecificArrity.build(p, s, **(dict(kw, attribute="ints", arrities=p.arrities) if "named" in c["m"] else kw))
    before = s.key()
    new, move, obj = run(ctx, m, s)
    v = list(getattr(new, attr))
    old = before[1 if attr == "bools" else 2]
    d = [i for i in range(n) if v[i] != old[i]]
    if attr == "bools":
        ctx.check(len(v) == n and all(x in (0, 1) for x in v), "a list of booleans")
    else:
        ctx.check(len(v) == n and all(1 <= v[i] <= p.arrities[i] for i in range(n)), "every value is within its arity")
        d2 = [i for i in range(n) if p.arrities[i] > 1]
    if len(d) < n and attr == "bools":
        ctx.check(pr < 1, "everything is flipped with probability one")
    if not d:
        ctx.reach("none")
    if len(d) == (n if attr == "bools" else len(d2)):
        ctx.reach("all")
    after(ctx, p, s, before, new, move, obj, attr)
    ctx.reach("end")


@harness("C15", "moves", configs=[dict(m=m) for m in ("swaps", "2opts", "flips", "shuffle", "default")], expect=("end",), functions=FUNCS,
         bounds="permutations of 4 elements, up to 3 successive swaps or reversals, overlapping or not")
def moves(ctx):
    c = ctx.config
    n = 4
    p = Prob(ctx, n, [1] * n)
    perm = [2, 0, 3, 1]
    s = Sol(p, list(perm), [0, 1, 1, 0], [1] * n)
    before = s.key()
    k = 1 + ctx.index("k", 3 if c["m"] != "2opts" else 2)
    if c["m"] == "swaps":
        pairs = [(ctx.index("i", n), ctx.index("j", n)) for _ in range(min(k, 2))] + [(1, 2)] * (k - min(k, 2))
        move = SwapsLocalMove("perm", pairs)
        exp = list(perm)
        for i, j in pairs:
            exp[i], exp[j] = exp[j], exp[i]
    elif c["m"] == "2opts":
        pairs = [(i, i + 1 + ctx.index("j", n - 1 - i)) for i in [ctx.index("i", n - 1) for _ in range(k)]]
        move = TwoOptMove("perm", pairs)
        exp = list(perm)
        for i, j in pairs:
            exp[i:j + 1] = exp[i:j + 1][::-1]
    elif c["m"] == "flips":
        fl = ctx.subset("flip", range(n))
        move, exp = BitFlipMove("bools", fl), [1 - b if i in fl else b for i, b in enumerate(s.bools)]
    elif c["m"] == "shuffle":
        exp = ctx.permutation("new", range(n))
        move = ShuffleMove("perm", list(exp), list(perm))
    else:
        s2 = Sol(p, ctx.permutation("new", range(n)), [1] * 4, [1] * 4)
        move, exp = LocalMoveDefault(s, s2), list(s2.perm)
    new = move.apply_local_move(s)
    attr = "bools" if c["m"] == "flips" else "perm"
    ctx.check(list(getattr(new, attr)) == list(exp), "the move does what it announces")
    after(ctx, p, s, before, new, move, None, attr) if c["m"] != "default" else ctx.check(move.backtrack_local_move(new) is s, "the previous solution")
    ctx.reach("end")


@harness("C15", "portfolio", configs=[dict(track=t, n=n, arr=a) for t in (False, True) for n in (1, 2, 3) for a in (False, True)], expect=("end",),
         functions=FUNCS, bounds="1 to 3 mutations, weights 0..2 not all zero, every random draw",
         stubs=["random draws return any value of positive probability"])
def portfolio(ctx):
    c = ctx.config
    ctx.stub_random()
    n = c["n"]
    p, s = start(ctx, 2)
    calls = []

    class M(Mutation):
        def __init__(self, k):
            self.k = k

        def mutate(self, sol):
            calls.append((self.k, "mutate", sol))
            return ("new", self.k), ("move", self.k)

        def mutate_and_compute_obj(self, sol):
            calls.append((self.k, "obj", sol))
            return ("new", self.k), ("move", self.k), {"cost": self.k}
    ws = [ctx.index("w", 3) for _ in range(n)]
    ctx.assume(sum(ws) > 0)
    pf = (BasicPortfolioMutationTrack if c["track"] else BasicPortfolioMutation)([M(k) for k in range(n)], np.array(ws) if c["arr"] else list(ws))
    if ctx.bool("with objectives"):
        new, move, obj = pf.mutate_and_compute_obj(s)
        ctx.check(obj == {"cost": calls[0][0]}, "objectives of the chosen mutation")
    else:
        new, move = pf.mutate(s)
    ctx.check(len(calls) == 1 and calls[0][2] is s and new == ("new", calls[0][0]) and move == ("move", calls[0][0]), "one of the mutations is applied")
    ctx.check(ws[calls[0][0]] > 0, "a mutation of weight zero is never chosen")
    ctx.reach("end")
