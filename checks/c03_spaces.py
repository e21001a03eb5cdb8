"""C03: spaces wrapping a gym space: membership, enumeration, sampling and the conversions are consistent."""
from dataclasses import dataclass
from enum import Enum

import gym.spaces as gs
import numpy as np

from vsym.registry import harness
from vsym.engine import land, lor
from skdecide.hub.space.gym import (BoxSpace, DataSpace, DictSpace, DiscreteSpace, EnumSpace, ListSpace,
                                    MultiBinarySpace, MultiDiscreteSpace, TupleSpace, GymSpace)

FUNCS = ["EnumSpace.*", "ListSpace.*", "DataSpace.*", "GymSpace.*", "DiscreteSpace", "BoxSpace", "MultiDiscreteSpace",
         "MultiBinarySpace", "TupleSpace", "DictSpace"]
STUB = ["gym's Discrete.sample returns any admissible integer"]


def stub_sample(ctx):
    ctx.patch(gs.Discrete, "sample", lambda self, mask=None: ctx.int("gym", int(self.start), int(self.start + self.n) - 1))


@harness("C03", "list_space", expect=("in", "out"), functions=FUNCS, stubs=STUB,
         bounds="1..3 (4 thorough) arbitrary distinct integers; batches of 0..2 elements")
def list_space(ctx):
    stub_sample(ctx)
    n = 1 + ctx.index("n", 3 if ctx.tier == "quick" else 4)
    els = ctx.ints("e", n, 0, 9)
    for i in range(n):
        for j in range(i):
            ctx.assume(els[i] != els[j])
    sp = ListSpace(iter(els))
    x = ctx.int("x", 0, 9)
    r = bool(sp.contains(x))
    ctx.reach("in" if r else "out")
    ctx.check(r == lor(*[x == e for e in els]), "membership is being listed")
    got = list(sp.get_elements())
    ctx.check(len(got) == n and land(*[a == b for a, b in zip(got, els)]), "enumeration lists the elements in order")
    ctx.check(sp.unwrapped().n == n, "wrapped size")
    s = sp.sample()
    ctx.check(lor(*[s == e for e in els]), "a sample is an element")
    k = ctx.index("k", 3)
    batch = [els[ctx.index("b", n)] for _ in range(k)]
    u = list(sp.to_unwrapped(batch))
    ctx.check(len(u) == k and all(sp.unwrapped().contains(int(v)) for v in u), "unwrapped values are in the gym space")
    b = list(sp.from_unwrapped(u))
    ctx.check(len(b) == k and land(*[p == q for p, q in zip(b, batch)]), "to_unwrapped then from_unwrapped")
    v = [ctx.index("v", n)]
    ctx.check(list(sp.to_unwrapped(sp.from_unwrapped(v))) == v, "from_unwrapped then to_unwrapped")
    j = list(sp.from_jsonable(sp.to_jsonable(batch)))
    ctx.check(len(j) == k and land(*[p == q for p, q in zip(j, batch)]), "json round trip")


@harness("C03", "enum_space", expect=("end",), functions=FUNCS, stubs=STUB,
         bounds="enumerations of 1..3 members whose integer values are arbitrary and distinct, batches of 2, possibly with an alias")
def enum_space(ctx):
    stub_sample(ctx)
    n = 1 + ctx.index("n", 3)
    vals = []
    for i in range(n):
        v = ctx.choice("val", [x for x in range(4) if x not in vals])
        vals.append(v)
    alias = [("Alias", vals[ctx.index("alias of", n)])] if ctx.bool("alias") else []
    En = Enum("En", [("M%d" % i, v) for i, v in enumerate(vals)] + alias)
    Other = Enum("Other", [("M%d" % i, v) for i, v in enumerate(vals)])
    members = list(En)
    sp = EnumSpace(En)
    ctx.check(list(sp.get_elements()) == members, "enumeration")
    ctx.check(sp.unwrapped().n == n, "wrapped size")
    m = members[ctx.index("m", n)]
    ctx.check(sp.contains(m) and not sp.contains(list(Other)[0]), "membership")
    s = sp.sample()
    ctx.check(s in members, "a sample is a member")
    batch = [m, s]
    u = list(sp.to_unwrapped(batch))
    ctx.check(all(0 <= i < n for i in u), "unwrapped values are in the gym space")
    ctx.check(list(sp.from_unwrapped(u)) == batch, "unwrapped round trip")
    i = ctx.index("i", n)
    ctx.check(list(sp.to_unwrapped(sp.from_unwrapped([i]))) == [i], "wrapped round trip")
    j = sp.to_jsonable(batch)
    ctx.check(all(isinstance(x, str) for x in j) and list(sp.from_jsonable(j)) == batch, "json round trip")
    ctx.reach("end")


@dataclass(frozen=True)
class Rec:
    x: object
    y: object


def field_spaces(kind):
    return {"disc": [("x", gs.Discrete(4)), ("y", gs.Discrete(3))],
            "tuple": [("x", gs.Discrete(4)), ("y", gs.MultiDiscrete([3, 2]))],
            "box": [("x", gs.Discrete(4)), ("y", gs.Box(0, 2, (2,), np.float32))]}[kind]


@harness("C03", "data_space", configs=[{"kind": k, "as": a} for k in ("disc", "tuple", "box") for a in ("dict", "list")],
         expect=("in", "out"), functions=FUNCS, stubs=STUB,
         bounds="records of two fields (discrete / vector of 2), integer field values in -2..6, batches of 2")
def data_space(ctx):
    stub_sample(ctx)
    kind = ctx.config["kind"]
    fs = field_spaces(kind)
    sp = DataSpace(Rec, dict(fs) if ctx.config["as"] == "dict" else fs)
    x = ctx.int("x", -2, 6)
    if kind == "disc":
        y = ctx.int("y", -2, 6)
        ok = land(x >= 0, x < 4, y >= 0, y < 3)
    else:
        y0, y1 = ctx.int("y0", -1, 3), ctx.int("y1", -1, 3)
        y = np.array([y0.__index__(), y1.__index__()], dtype=np.float32 if kind == "box" else np.int64)
        ok = land(x >= 0, x < 4, y0 >= 0, y1 >= 0, y0 <= 2, y1 <= (1 if kind == "tuple" else 2))
    rec = Rec(x, y)
    r = bool(sp.contains(rec))
    ctx.reach("in" if r else "out")
    ctx.check(r == ok, "membership is membership of every field")

    def same(a, b):
        return isinstance(a, Rec) and land(a.x == b.x, land(*[p == q for p, q in zip(np.atleast_1d(a.y).tolist(), np.atleast_1d(
            b.y).tolist())]) if kind != "disc" else a.y == b.y)
    if r:
        rec2 = Rec(2, rec.y)
        u = list(sp.to_unwrapped([rec, rec2]))
        ctx.check(len(u) == 2 and all(isinstance(v, dict) for v in u), "unwrapped values are dictionaries")
        ctx.check(bool(sp.unwrapped().contains(u[0])), "unwrapped value is in the gym space")
        b = list(sp.from_unwrapped(u))
        ctx.check(len(b) == 2 and land(same(b[0], rec), same(b[1], rec2)), "unwrapped round trip keeps order and fields")
        j = list(sp.from_jsonable(sp.to_jsonable([rec, rec2])))
        ctx.check(len(j) == 2 and land(same(j[0], rec), same(j[1], rec2)), "json round trip keeps order and fields")
        if kind == "disc":
            ctx.check(bool(sp.contains(sp.sample())), "a sample belongs to the space")


@harness("C03", "gym_spaces", configs=[{"kind": k} for k in ("disc", "multi", "binary", "tuple", "dict")],
         expect=("in", "out"), functions=FUNCS, stubs=STUB, bounds="two components, integer values in -2..6")
def gym_spaces(ctx):
    stub_sample(ctx)
    kind = ctx.config["kind"]
    a, b = ctx.int("a", -2, 6), ctx.int("b", -2, 6)
    if kind == "disc":
        sp, el, ok = DiscreteSpace(4), a, land(a >= 0, a < 4)
    elif kind == "multi":
        sp, el, ok = MultiDiscreteSpace([3, 2]), np.array([a.__index__(), b.__index__()]), land(
            a >= 0, a < 3, b >= 0, b < 2)
    elif kind == "binary":
        sp = MultiBinarySpace(2)
        a, b = ctx.int("p", 0, 3), ctx.int("q", 0, 3)
        el, ok = np.array([a.__index__(), b.__index__()], dtype=np.int8), land(a < 2, b < 2)
    elif kind == "tuple":
        sp, el, ok = TupleSpace([gs.Discrete(4), gs.Discrete(2)]), (a, b), land(a >= 0, a < 4, b >= 0, b < 2)
    else:
        sp, el = DictSpace({"a": gs.Discrete(4), "b": gs.Discrete(2)}), {"a": a, "b": b}
        ok = land(a >= 0, a < 4, b >= 0, b < 2)
    r = bool(sp.contains(el))
    ctx.reach("in" if r else "out")
    ctx.check(r == ok, "membership is the wrapped space's")
    ctx.check(bool(el in sp) == r, "in operator")
    u = sp.to_unwrapped([el])
    ctx.check(list(u)[0] is el and list(sp.from_unwrapped(u))[0] is el, "conversion is the identity")
    if kind in ("disc", "tuple", "dict"):
        ctx.check(bool(sp.contains(sp.sample())), "a sample belongs to the space")
