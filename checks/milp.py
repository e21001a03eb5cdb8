"""Stand-ins of the libraries of integer programming (mip, gurobi, ortools' linear solver): the real code states its
program on them; the program is kept as terms, so that it can be evaluated on any symbolic assignment of its variables."""
import sys
import types

import numpy as np

from vsym.engine import land, ite, is_sym, SymBool

INF = float("inf")


class Lin:
    __array_ufunc__ = None
    __hash__ = object.__hash__

    def __init__(self, const=0, terms=()):
        self.const, self.terms = const, list(terms)

    def parts(self):
        return self.const, self.terms

    def __add__(self, o):
        if not isinstance(o, (Lin, Var)) and not number(o):
            return NotImplemented
        c, t = parts(o)
        k, u = self.parts()
        return Lin(k + c, u + t)

    __radd__ = __add__

    def __neg__(self):
        return self * -1

    def __sub__(self, o):
        return self + (o * -1)

    def __rsub__(self, o):
        return (self * -1) + o

    def __mul__(self, k):
        if not number(k):
            raise TypeError("a program has linear terms only")
        c, t = self.parts()
        return Lin(c * k, [(q * k, v) for q, v in t])

    __rmul__ = __mul__

    def __le__(self, o):
        return Rule(self - o, "<=")

    def __ge__(self, o):
        return Rule(self - o, ">=")

    def __eq__(self, o):
        return Rule(self - o, "==")

    def __ne__(self, o):
        raise TypeError("not a linear constraint")

    def __bool__(self):
        raise TypeError("an expression has no truth value")

    def add_expr(self, e, coeff=1):
        c, t = parts(e * coeff)
        self.const, self.terms = self.const + c, self.terms + t

    def add_term(self, e, coeff=1):
        self.add_expr(e, coeff)

    def add_var(self, v, coeff=1):
        self.add_expr(v, coeff)

    def value(self):
        c, t = self.parts()
        for q, v in t:
            c = c + (ite(v.val, q, 0) if isinstance(v.val, (bool, SymBool)) else q * v.val)
        return c

    def getValue(self):
        return self.value()

    Value = getValue


class Var(Lin):
    def __init__(self, prog, kind, lb, ub, obj, name):
        self.prog, self.kind, self.lb, self.ub, self.obj, self.name = prog, kind, lb, ub, obj, name
        self.val = None
        self.fixed = True
        self.hint = None

    def parts(self):
        return 0, [(1, self)]

    # one solution of the pool
    def xi(self, k):
        return self.prog.pool[k].get(self, 0)

    @property
    def x(self):
        return self.xi(0) if self.prog.pool else None

    def solution_value(self):
        return self.xi(0)

    def getAttr(self, name):
        if name in ("X", "x"):
            return self.xi(0)
        if name == "Xn":
            return self.xi(self.prog.params.SolutionNumber)
        raise AttributeError(name)

    X = property(lambda self: self.xi(0))
    Xn = property(lambda self: self.getAttr("Xn"))

    def __setattr__(self, k, v):
        if k in ("start", "Start"):
            object.__setattr__(self, "hint", v)
        object.__setattr__(self, k, v)

    def __repr__(self):
        return str(self.name)


def number(x):
    return is_sym(x) or isinstance(x, (int, float, np.number))


def parts(x):
    return x.parts() if isinstance(x, Lin) else (x, [])


class Rule:
    """a constraint: expression compared to zero"""

    def __init__(self, lin, op):
        self.lin, self.op = lin, op

    def __bool__(self):
        raise TypeError("a constraint has no truth value")

    def holds(self):
        v = self.lin.value()
        return v <= 0 if self.op == "<=" else v >= 0 if self.op == ">=" else v == 0


def total(xs):
    r = Lin()
    for x in xs:
        c, t = parts(x)
        r.const = r.const + c
        r.terms += t
    return r


class Program:
    """what the code states; `solver` is called when the code asks for solutions and returns them (dictionaries)"""

    MINIMIZE, MAXIMIZE = "min", "max"
    solver = None
    made = None

    def __init__(self, *args, **kw):
        self.vars, self.rules, self.pool = [], [], []
        self.sense = self.MINIMIZE
        self.lin = None
        self.hints = []
        self.runs = 0
        if Program.made is not None:
            Program.made.append(self)

    def make(self, kind, lb=0, ub=None, obj=0, name=""):
        v = Var(self, kind, lb, 1 if kind == "B" else INF if ub is None else ub, obj, name)
        self.vars.append(v)
        return v

    def rule(self, r):
        if not isinstance(r, Rule):
            raise TypeError("not a constraint: %r" % (r,))
        self.rules.append(r)
        return r

    def drop(self, objects):
        for r in (objects if isinstance(objects, (list, tuple)) else [objects]):
            n = len(self.rules)
            self.rules = [q for q in self.rules if q is not r]
            if len(self.rules) != n - 1:
                raise ValueError("no such constraint")

    def run(self):
        self.runs += 1
        self.pool = Program.solver(self) if Program.solver is not None else []

    def holds(self, rules=None):
        fs = [r.holds() for r in (self.rules if rules is None else rules)]
        for v in self.vars:
            if v.kind != "B":
                if v.lb is not None and v.lb != -INF:
                    fs.append(v.val >= v.lb)
                if v.ub != INF:
                    fs.append(v.val <= v.ub)
        return land(*fs)

    def objective_lin(self):
        return self.lin if self.lin is not None else total([v.obj * v for v in self.vars if is_sym(v.obj) or v.obj != 0])

    def assign(self, values):
        for v in self.vars:
            v.val = values.get(v, 0)

    def objective_of(self, k):
        self.assign(self.pool[k])
        return self.objective_lin().value()


# ---- python-mip
class MipModel(Program):
    def __init__(self, name="", sense="MIN", solver_name="", solver=None):
        super().__init__()
        self.sense = "min" if sense == "MIN" else "max"
        self.solver_name = solver_name
        self.start = None

    def add_var(self, name="", lb=0.0, ub=INF, obj=0.0, var_type="C", column=None):
        return self.make(var_type, lb, ub, obj, name)

    def add_var_tensor(self, shape, name, **kw):
        a = np.empty(shape, dtype=object)
        for k in np.ndindex(*shape):
            a[k] = self.add_var(name="%s_%s" % (name, k), **kw)
        return a

    def add_constr(self, r, name="", priority=None):
        return self.rule(r)

    def __iadd__(self, r):
        if isinstance(r, Rule):
            self.rule(r)
        else:
            self.lin = total([r])
        return self

    @property
    def objective(self):
        return self.objective_lin()

    @objective.setter
    def objective(self, e):
        self.lin = total([e])

    def remove(self, objects):
        self.drop(objects)

    def update(self):
        pass

    def optimize(self, max_seconds=INF, max_nodes=INF, max_solutions=INF, **kw):
        self.run()
        return "OPTIMAL" if self.pool else "INFEASIBLE"

    num_solutions = property(lambda self: len(self.pool))
    objective_value = property(lambda self: self.objective_of(0) if self.pool else None)
    objective_values = property(lambda self: [self.objective_of(k) for k in range(len(self.pool))])


# ---- gurobi
class GRB:
    BINARY, INTEGER, CONTINUOUS = "B", "I", "C"
    MINIMIZE, MAXIMIZE = 1, -1
    INFINITY = INF

    class Param:
        def __getattr__(self, k):
            return k

    Param = Param()


class GrbModel(Program):
    def __init__(self, name=""):
        super().__init__()
        self.params = types.SimpleNamespace(SolutionNumber=0)
        self.modelSense = GRB.MINIMIZE

    def addVar(self, lb=0.0, ub=INF, obj=0.0, vtype="C", name="", column=None):
        return self.make(vtype, lb, ub, obj, name)

    def addVars(self, *indices, **kw):
        (ks,) = indices
        kw.setdefault("name", "")
        name = kw.pop("name")
        return {k: self.addVar(name="%s[%s]" % (name, k), **kw) for k in (range(ks) if isinstance(ks, int) else ks)}

    def addConstr(self, r, name=""):
        return self.rule(r)

    def addConstrs(self, rules, name=""):
        return TupleDict((i, self.rule(r)) for i, r in enumerate(rules))

    def setObjective(self, e, sense=None):
        self.lin = total([e])
        for v in self.vars:
            v.obj = 0
        if sense is not None:
            self.modelSense = sense

    def getObjective(self):
        e = self.objective_lin()
        if self.pool:
            self.assign(self.pool[0])
        return e

    def getAttr(self, name):
        return {"ObjVal": lambda: self.objective_of(0), "Status": lambda: 2, "SolCount": lambda: len(self.pool)}[name]()

    def setParam(self, *a, **k):
        pass

    def update(self):
        pass

    def remove(self, objects):
        self.drop(objects)

    def optimize(self, callback=None):
        self.run()

    SolCount = property(lambda self: len(self.pool))
    NumObj = 1


class TupleDict(dict):
    """of gurobi: one cannot add anything to it"""

    def __iadd__(self, o):
        raise TypeError("unsupported operand type(s) for +=: 'tupledict' and 'list'")


# ---- ortools' linear solver
class OrSolver(Program):
    CBC_MIXED_INTEGER_PROGRAMMING = 3
    OPTIMAL = 0

    def __init__(self, name, kind=None):
        super().__init__()

    def BoolVar(self, name):
        return self.make("B", 0, 1, 0, name)

    def IntVar(self, lb, ub, name):
        return self.make("I", lb, ub, 0, name)

    def NumVar(self, lb, ub, name):
        return self.make("C", lb, ub, 0, name)

    def infinity(self):
        return INF

    def Add(self, r, name=""):
        return self.rule(r)

    def Sum(self, xs):
        return total(xs)

    def Minimize(self, e):
        self.lin, self.sense = total([e]), "min"

    def Maximize(self, e):
        self.lin, self.sense = total([e]), "max"

    def SetHint(self, vs, values):
        for v, x in zip(vs, values):
            v.hint = x

    def SetTimeLimit(self, t):
        assert t == int(t)

    def Solve(self):
        self.run()
        return 0 if self.pool else 2

    def Objective(self):
        e = self.objective_lin()
        if self.pool:
            self.assign(self.pool[0])
        return e


def module(name, **attrs):
    m = types.ModuleType(name)
    for k, v in attrs.items():
        setattr(m, k, v)
    return m


for name in ("gurobi", "gurobipy"):
    if name not in sys.modules:
        sys.modules[name] = module(name, Model=GrbModel, GRB=GRB, quicksum=total, LinExpr=Lin, Var=Var, Constr=Rule)

if "ortools.algorithms.pywrapknapsack_solver" not in sys.modules:
    import ortools.algorithms
    try:
        import ortools.algorithms.pywrapknapsack_solver  # noqa
    except ImportError:
        m = module("ortools.algorithms.pywrapknapsack_solver", KnapsackSolver=None)
        sys.modules[m.__name__] = m
        ortools.algorithms.pywrapknapsack_solver = m


def stand_in(ctx, mod):
    """replaces every name of the libraries that a module of the repository uses"""
    import mip
    for k, v in dict(Model=None, MipModel=MipModel, MyModelMilp=MipModel, xsum=total, quicksum=total, LinExpr=Lin, GRB=GRB).items():
        if not hasattr(mod, k):
            continue
        old = getattr(mod, k)
        if k == "Model":
            v = MipModel if old is mip.Model else GrbModel
        if k == "GRB" and isinstance(old, str):
            continue
        ctx.patch(mod, k, v)
    if hasattr(mod, "mip"):
        ctx.patch(mod, "mip", module("mip", Model=MipModel, xsum=total, LinExpr=Lin, Var=Var, BINARY="B", INTEGER="I", CONTINUOUS="C",
                                     MINIMIZE="MIN", MAXIMIZE="MAX", CBC="CBC", GRB="GRB", Constr=Rule))
    for k in ("gurobi", "gurobipy"):
        if hasattr(mod, k):
            ctx.patch(mod, k, module(k, Model=GrbModel, GRB=GRB, quicksum=total, LinExpr=Lin, Var=Var, Constr=Rule))
    if hasattr(mod, "pywraplp"):
        ctx.patch(mod, "pywraplp", module("pywraplp", Solver=OrSolver))
    ctx.patch(mod, "print", lambda *a, **k: None)
    ctx.patch(Program, "solver", None)


def bits(ctx, vs, what="x"):
    """any values of some 0/1 variables; returned as truth values"""
    out = []
    for i, v in enumerate(vs):
        assert v.kind == "B", "a 0/1 variable"
        b = ctx.bool("%s%d" % (what, i))
        v.val = b
        out.append(b)
    return out


def ints(ctx, vs, lo, hi, what="y"):
    for i, v in enumerate(vs):
        v.val = ctx.int("%s%d" % (what, i), lo, hi)
    return [v.val for v in vs]


def same(ctx, a, b, what):
    """two formulas agree on every assignment"""
    from vsym.engine import implies
    ctx.check(implies(a, b), what + ": nothing else is allowed")
    ctx.check(implies(b, a), what + ": nothing is forbidden")
