"""Path-exhaustive symbolic execution of real Python code.

The functions under test are the ones imported from /repo: they are run on proxy values (SymInt, SymBool,
SymReal) that build z3 terms.  When the code branches on a proxy (`__bool__`), uses it as an index, a hash key
or converts it to a machine number, the engine asks z3 which outcomes are feasible under the current path
condition, follows one and schedules the others; every feasible path is eventually executed (depth-first, by
re-execution).  `ctx.check(p)` asks z3 for `path condition AND NOT p`; unsat on every path means p holds for every
value of the symbolic inputs within the stated bounds, sat gives a concrete counterexample.
"""
import math
import signal
import sys
import time
from fractions import Fraction

from .z3path import z3

INF = float("inf")


class PathAbort(BaseException):
    """The current path is infeasible or was cut by an assumption."""


class EngineLimit(BaseException):
    """The engine cannot go on soundly (unknown from the solver, non-determinism, budget)."""


class PathTimeout(BaseException):
    """The path ran for longer than its wall-clock allowance."""


class CheckFailed(BaseException):
    def __init__(self, label, detail=None):
        super().__init__(label)
        self.label = label
        self.detail = detail


_CUR = [None]


def cur():
    e = _CUR[0]
    if e is None:
        raise RuntimeError("symbolic value used outside a symbolic run")
    return e


# ------------------------------------------------------------------------------------------------- values
def _is_np(x):
    return type(x).__module__ == "numpy"


def _conc_num(x):
    """concrete number -> python int/float/Fraction, or None if not a concrete number"""
    t = type(x)
    if t is bool or t is int or t is float or t is Fraction:
        return x
    if isinstance(x, Sym):
        return None
    if _is_np(x) and hasattr(x, "item") and getattr(x, "ndim", 1) == 0:
        x = x.item()
        if isinstance(x, (bool, int, float)):
            return x
        return None
    if isinstance(x, (bool, int, float)):  # e.g. IntEnum
        return x
    return None


class Sym:
    __slots__ = ()

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def _wrap_num(e):
    if z3.is_int_value(e):
        return e.as_long()
    if z3.is_rational_value(e):
        return SymReal(e)
    return SymReal(e) if e.is_real() else SymInt(e)


def _lift(x):
    """-> (z3 term or None, is_real, special) ; special is +-inf/nan float"""
    if isinstance(x, SymNum):
        return x.e, x.real, None
    if isinstance(x, SymBool):
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0)), False, None
    c = _conc_num(x)
    if c is None:
        return None, False, None
    if isinstance(c, bool):
        return z3.IntVal(int(c)), False, None
    if isinstance(c, int):
        return z3.IntVal(c), False, None
    if isinstance(c, float):
        if math.isinf(c) or math.isnan(c):
            return None, True, c
        f = Fraction(c)
        return z3.RealVal(f"{f.numerator}/{f.denominator}"), True, None
    return z3.RealVal(f"{c.numerator}/{c.denominator}"), True, None


def _toreal(e):
    return z3.ToReal(e) if e.is_int() else e


def simp(e):
    return z3.simplify(e)


def mkbool(e):
    e = simp(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def mknum(e):
    e = simp(e)
    if z3.is_int_value(e):
        return e.as_long()
    if e.is_real():
        return SymReal(e)
    return SymInt(e)


class SymBool(Sym):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    __class__ = property(lambda self: bool)

    def __bool__(self):
        return cur().branch(self.e)

    def __and__(self, o):
        b = tobool(o)
        return NotImplemented if b is None else mkbool(z3.And(self.e, b))

    __rand__ = __and__

    def __or__(self, o):
        b = tobool(o)
        return NotImplemented if b is None else mkbool(z3.Or(self.e, b))

    __ror__ = __or__

    def __xor__(self, o):
        b = tobool(o)
        return NotImplemented if b is None else mkbool(z3.Xor(self.e, b))

    __rxor__ = __xor__

    def __invert__(self):  # numpy-style logical not
        return mkbool(z3.Not(self.e))

    def _int(self):
        return SymInt(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    # arithmetic: True counts as one
    def __add__(self, o):
        return self._int() + (o._int() if isinstance(o, SymBool) else o)

    __radd__ = __add__

    def __mul__(self, o):
        return self._int() * (o._int() if isinstance(o, SymBool) else o)

    __rmul__ = __mul__

    def __sub__(self, o):
        return self._int() - (o._int() if isinstance(o, SymBool) else o)

    def __rsub__(self, o):
        return (o._int() if isinstance(o, SymBool) else o) - self._int()

    def __neg__(self):
        return -self._int()

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __float__(self):
        return float(bool(self))

    def __hash__(self):
        return hash(bool(self))

    def __repr__(self):
        return repr(bool(self))

    __str__ = __repr__

    def __format__(self, spec):
        return format(bool(self), spec)

    def __eq__(self, o):
        if isinstance(o, SymBool) or isinstance(o, bool):
            return mkbool(self.e == tobool(o))
        return self._int() == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return lnot(r)


def tobool(x):
    if isinstance(x, SymBool):
        return x.e
    if isinstance(x, (bool,)):
        return z3.BoolVal(bool(x))
    if _is_np(x) and getattr(x, "dtype", None) is not None and x.dtype == bool and x.ndim == 0:
        return z3.BoolVal(bool(x))
    return None


def lnot(r):
    if r is NotImplemented:
        return r
    if isinstance(r, SymBool):
        return mkbool(z3.Not(r.e))
    return not r


def land(*xs):
    es = []
    for x in xs:
        if isinstance(x, SymBool):
            es.append(x.e)
        elif not x:
            return False
    return mkbool(z3.And(*es)) if es else True


def lor(*xs):
    es = []
    for x in xs:
        if isinstance(x, SymBool):
            es.append(x.e)
        elif x:
            return True
    return mkbool(z3.Or(*es)) if es else False


def implies(a, b):
    return lor(lnot(a), b)


def ite(c, a, b):
    """if-then-else term, no fork"""
    if not isinstance(c, SymBool):
        return a if c else b
    ea, ra, sa = _lift(a)
    eb, rb, sb = _lift(b)
    if ea is None or eb is None:
        return a if c else b
    if ra or rb:
        ea, eb = _toreal(ea), _toreal(eb)
    return mknum(z3.If(c.e, ea, eb))


def smax(xs):
    xs = list(xs)
    r = xs[0]
    for x in xs[1:]:
        r = ite(x > r, x, r)
    return r


def smin(xs):
    xs = list(xs)
    r = xs[0]
    for x in xs[1:]:
        r = ite(x < r, x, r)
    return r


def _cmp_special(op, left_is_sym, sp):
    # sym finite value compared with an infinity / nan; op in lt le gt ge eq ne, evaluated as (0.0 op sp)
    return {"lt": 0.0 < sp, "le": 0.0 <= sp, "gt": 0.0 > sp, "ge": 0.0 >= sp, "eq": False, "ne": True}[op]


class SymNum(Sym):
    __slots__ = ()

    # -- arithmetic
    def _bin(self, o, f):
        e, r, sp = _lift(o)
        if e is None:
            return None, None, sp
        a = self.e
        if r or self.real:
            return _toreal(a), _toreal(e), None
        return a, e, None

    def __add__(self, o):
        a, b, sp = self._bin(o, None)
        if a is None:
            return sp if sp is not None else NotImplemented
        return mknum(a + b)

    __radd__ = __add__

    def __sub__(self, o):
        a, b, sp = self._bin(o, None)
        if a is None:
            return -sp if sp is not None else NotImplemented
        return mknum(a - b)

    def __rsub__(self, o):
        a, b, sp = self._bin(o, None)
        if a is None:
            return sp if sp is not None else NotImplemented
        return mknum(b - a)

    def __mul__(self, o):
        a, b, sp = self._bin(o, None)
        if a is None:
            if sp is None:
                if isinstance(o, (list, tuple, str)):
                    return o * cur().concretise(self)
                return NotImplemented
            if self > 0:
                return sp
            if self < 0:
                return -sp
            return sp * 0.0
        return mknum(a * b)

    __rmul__ = __mul__

    def __truediv__(self, o):
        a, b, sp = self._bin(o, None)
        if a is None:
            return 0.0 if sp is not None else NotImplemented
        if mkbool(b == 0):
            raise ZeroDivisionError("division by zero")
        return mknum(_toreal(a) / _toreal(b))

    def __rtruediv__(self, o):
        e, r, sp = _lift(o)
        if e is None:
            return NotImplemented if sp is None else (sp if self > 0 else -sp)
        if mkbool(self.e == 0):
            raise ZeroDivisionError("division by zero")
        return mknum(_toreal(e) / _toreal(self.e))

    @staticmethod
    def _floordiv(a, b):
        if a.is_real() or b.is_real():
            return z3.ToReal(z3.ToInt(_toreal(a) / _toreal(b)))
        # python floors; SMT-LIB div rounds so that the remainder is non-negative
        return z3.If(b > 0, a / b, (-a) / (-b))

    def __floordiv__(self, o):
        a, b, sp = self._bin(o, None)
        if a is None:
            return NotImplemented
        if mkbool(b == 0):
            raise ZeroDivisionError("integer division or modulo by zero")
        return mknum(self._floordiv(a, b))

    def __rfloordiv__(self, o):
        a, b, sp = self._bin(o, None)
        if a is None:
            return NotImplemented
        if mkbool(a == 0):
            raise ZeroDivisionError("integer division or modulo by zero")
        return mknum(self._floordiv(b, a))

    def __mod__(self, o):
        a, b, sp = self._bin(o, None)
        if a is None:
            return NotImplemented
        if mkbool(b == 0):
            raise ZeroDivisionError("integer division or modulo by zero")
        return mknum(a - b * self._floordiv(a, b))

    def __rmod__(self, o):
        a, b, sp = self._bin(o, None)
        if a is None:
            return NotImplemented
        if mkbool(a == 0):
            raise ZeroDivisionError("integer division or modulo by zero")
        return mknum(b - a * self._floordiv(b, a))

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o, m=None):
        if isinstance(o, SymNum):
            o = cur().concretise(o)
        if isinstance(o, float) and o.is_integer():
            o = int(o)
        if not isinstance(o, int) or o < 0:
            return cur().concretise(self) ** o
        r = 1
        for _ in range(o):
            r = self * r
        return r

    def __rpow__(self, o):
        return o ** cur().concretise(self)

    def __neg__(self):
        return mknum(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return mknum(z3.If(self.e >= 0, self.e, -self.e))

    # -- comparisons
    def _cmp(self, o, op):
        e, r, sp = _lift(o)
        if e is None:
            if sp is not None:
                return _cmp_special(op, True, sp)
            if op == "eq":
                return NotImplemented
            if op == "ne":
                return NotImplemented
            return NotImplemented
        a = self.e
        if r or self.real:
            a, e = _toreal(a), _toreal(e)
        if op == "lt":
            return mkbool(a < e)
        if op == "le":
            return mkbool(a <= e)
        if op == "gt":
            return mkbool(a > e)
        if op == "ge":
            return mkbool(a >= e)
        if op == "eq":
            return mkbool(a == e)
        return mkbool(a != e)

    def __lt__(self, o):
        return self._cmp(o, "lt")

    def __le__(self, o):
        return self._cmp(o, "le")

    def __gt__(self, o):
        return self._cmp(o, "gt")

    def __ge__(self, o):
        return self._cmp(o, "ge")

    def __eq__(self, o):
        return self._cmp(o, "eq")

    def __ne__(self, o):
        return self._cmp(o, "ne")

    def __bool__(self):
        return cur().branch(simp(self.e != 0))

    def __hash__(self):
        return hash(cur().concretise(self))

    def __repr__(self):
        return repr(cur().concretise(self))

    __str__ = __repr__

    def __format__(self, spec):
        return format(cur().concretise(self), spec)

    def __float__(self):
        return float(cur().concretise(self))

    def item(self):
        return self


class SymInt(SymNum):
    __slots__ = ("e",)
    real = False

    def __init__(self, e):
        self.e = e

    __class__ = property(lambda self: int)

    def __index__(self):
        return cur().concretise(self)

    __int__ = __index__

    def __trunc__(self):
        return self

    def __floor__(self):
        return self

    def __ceil__(self):
        return self

    def __round__(self, n=None):
        return self

    def bit_length(self):
        return cur().concretise(self).bit_length()

    def is_integer(self):
        return True

    def __lshift__(self, o):
        return cur().concretise(self) << o

    def __rshift__(self, o):
        return cur().concretise(self) >> o

    def __and__(self, o):
        return cur().concretise(self) & o

    __rand__ = __and__

    def __or__(self, o):
        return cur().concretise(self) | o

    __ror__ = __or__

    def __xor__(self, o):
        return cur().concretise(self) ^ o

    __rxor__ = __xor__

    @property
    def numerator(self):
        return self

    @property
    def denominator(self):
        return 1

    @property
    def real_part(self):
        return self

    @property
    def imag(self):
        return 0


class SymReal(SymNum):
    __slots__ = ("e",)
    real = True

    def __init__(self, e):
        self.e = e

    __class__ = property(lambda self: float)

    def __int__(self):
        return cur().concretise(mknum(self._trunc()))

    def _trunc(self):
        return z3.If(self.e >= 0, z3.ToInt(self.e), -z3.ToInt(-self.e))

    def __trunc__(self):
        return mknum(self._trunc())

    def __floor__(self):
        return mknum(z3.ToInt(self.e))

    def __ceil__(self):
        return mknum(-z3.ToInt(-self.e))

    def __round__(self, n=None):
        if n not in (None, 0):
            return self
        f = z3.ToInt(self.e)
        d = self.e - z3.ToReal(f)
        half = z3.RealVal("1/2")
        return mknum(z3.If(d < half, f, z3.If(d > half, f + 1, z3.If(f % 2 == 0, f, f + 1))))

    def is_integer(self):
        return mkbool(z3.IsInt(self.e))


def is_sym(x):
    return isinstance(x, Sym)


# ------------------------------------------------------------------------------------------------- explorer
def _site():
    """(file, line) of the innermost frame outside this module: identifies a decision across re-executions"""
    f = sys._getframe(2)
    while f is not None and f.f_code.co_filename == __file__:
        f = f.f_back
    return (f.f_code.co_filename, f.f_lineno) if f is not None else None


class Stats:
    def __init__(self):
        self.paths = 0
        self.aborted = 0
        self.queries = 0
        self.solver_s = 0.0
        self.checks = 0
        self.check_queries = 0
        self.nodes = 0
        self.branches = 0
        self.reached = {}
        self.validated = 0

    def as_dict(self):
        d = dict(self.__dict__)
        return d


class Explorer:
    """Runs `harness(ctx)` on every feasible path."""

    def __init__(self, query_timeout_ms=20000, path_timeout_s=60, deadline=None, max_paths=None, max_depth=5000):
        self.solver = z3.Solver()
        self.solver.set("timeout", query_timeout_ms)
        self.path_timeout_s = path_timeout_s
        self.deadline = deadline
        self.max_paths = max_paths
        self.max_depth = max_depth
        self.st = Stats()
        self.trace = []  # list of dict(taken, alt, val, h)
        self.pos = 0
        self.model = None

    # -- solver helpers
    def _check(self, *assump):
        t = time.time()
        r = self.solver.check(*assump)
        self.st.solver_s += time.time() - t
        self.st.queries += 1
        if r == z3.unknown:
            raise EngineLimit("solver unknown: " + self.solver.reason_unknown())
        return r == z3.sat

    def _feasible(self, e):
        """is pc AND e satisfiable; remembers a model of pc AND e"""
        if self._check(e):
            return self.solver.model()
        return None

    def add(self, e):
        self.solver.add(e)

    def _eval(self, e):
        return self.model.eval(e, model_completion=True)

    def ensure_model(self):
        if self.model is None:
            if not self._check():
                raise PathAbort()
            self.model = self.solver.model()

    # -- branching
    def branch(self, e):
        e = simp(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        if self.deadline and time.time() > self.deadline:
            raise EngineLimit("time budget exhausted")
        if self.pos < len(self.trace):
            d = self.trace[self.pos]
            if d["h"] != _site() or "val" in d:
                raise EngineLimit("non-deterministic re-execution (branch %d)" % self.pos)
            self.pos += 1
            self.add(e if d["taken"] else z3.Not(e))
            self.model = None
            return d["taken"]
        if len(self.trace) >= self.max_depth:
            raise EngineLimit("path depth bound %d reached" % self.max_depth)
        self.ensure_model()
        self.st.nodes += 1
        v = z3.is_true(self._eval(e))
        other = self._feasible(z3.Not(e) if v else e)
        # prefer True first for determinism
        if other is None:
            taken, alt = v, False
        else:
            self.st.branches += 1
            taken, alt = True, True
            if not v:
                self.model = other
        self.trace.append({"taken": taken, "alt": alt, "h": _site()})
        self.pos += 1
        self.add(e if taken else z3.Not(e))
        return taken

    def concretise(self, x):
        """Pick a value for x, scheduling every other feasible value."""
        e = simp(x.e)
        if z3.is_int_value(e):
            return e.as_long()
        if z3.is_rational_value(e):
            return frac_to_num(e)
        while True:
            if self.pos < len(self.trace):
                d = self.trace[self.pos]
                if d["h"] != _site() or "val" not in d:
                    raise EngineLimit("non-deterministic re-execution (value %d)" % self.pos)
                self.pos += 1
                v = d["val"]
                self.model = None
                if d["taken"]:
                    self.add(e == v)
                    return v.as_long() if z3.is_int_value(v) else frac_to_num(v)
                self.add(e != v)
                continue
            if self.deadline and time.time() > self.deadline:
                raise EngineLimit("time budget exhausted")
            if len(self.trace) >= self.max_depth:
                raise EngineLimit("path depth bound %d reached" % self.max_depth)
            self.ensure_model()
            self.st.nodes += 1
            v = self._eval(e)
            other = self._feasible(e != v)
            if other is not None:
                self.st.branches += 1
            self.trace.append({"taken": True, "alt": other is not None, "h": _site(), "val": v})
            self.pos += 1
            self.add(e == v)
            return v.as_long() if z3.is_int_value(v) else frac_to_num(v)

    # -- exploration
    def explore(self, harness, make_ctx, on_path):
        """on_path(kind, ctx, exc) called at the end of every path.  kind in done / raised / failed / timeout"""

        def alarm(signum, frame):
            raise PathTimeout()

        old = signal.signal(signal.SIGALRM, alarm)
        prev = _CUR[0]
        _CUR[0] = self
        try:
            while True:
                if self.max_paths and self.st.paths >= self.max_paths:
                    raise EngineLimit("path bound %d reached" % self.max_paths)
                self.pos = 0
                self.model = None
                self.solver.push()
                ctx = make_ctx(self)
                stop = False
                kind, exc = "done", None
                signal.setitimer(signal.ITIMER_REAL, self.path_timeout_s)
                try:
                    try:
                        harness(ctx)
                    finally:
                        signal.setitimer(signal.ITIMER_REAL, 0)
                        ctx.unpatch()
                except PathAbort:
                    kind = "aborted"
                except CheckFailed as e:
                    kind, exc = "failed", e
                except PathTimeout as e:
                    kind, exc = "timeout", e
                except RecursionError as e:
                    kind, exc = "raised", e
                except Exception as e:
                    kind, exc = "raised", e
                if kind == "aborted":
                    self.st.aborted += 1
                else:
                    self.st.paths += 1
                    self.ensure_model()
                    stop = on_path(kind, ctx, exc)
                self.solver.pop()
                if stop:
                    return False
                # backtrack
                while self.trace and not self.trace[-1]["alt"]:
                    self.trace.pop()
                if not self.trace:
                    return True
                d = self.trace[-1]
                d["alt"] = False
                d["taken"] = not d["taken"]
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)
            _CUR[0] = prev


def frac_to_num(v):
    f = v.as_fraction()
    if f.denominator & (f.denominator - 1) == 0:
        return float(f)
    return Fraction(f)


def model_value(m, e):
    v = m.eval(e, model_completion=True)
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    if z3.is_rational_value(v):
        return float(v.as_fraction())
    if z3.is_algebraic_value(v):
        return float(v.approx(20).as_fraction())
    raise EngineLimit("cannot read model value %s" % v)
