"""Symbolic execution of Python code with z3.

The code under test runs in the real interpreter on proxy values that wrap z3
terms. Where it branches on one, z3 decides which sides are possible; a run
follows one of them and the other is run later from the start with the same
decisions up to there. When all runs are done, every path has been followed.
"""

import fractions
import math
import time

import z3

clock = time.perf_counter  # the harnesses replace the module's


class Infeasible(BaseException):
    """The path's assumptions cannot be met."""


class Violation(BaseException):
    pass


class Unsupported(BaseException):
    pass


class Abort(BaseException):
    """Out of time."""


CUR = None  # the exploration under way


def lift(v):
    if isinstance(v, Sym):
        return v.t
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, float):
        if math.isinf(v) or math.isnan(v):
            return None
        f = fractions.Fraction(v)
        return z3.RealVal(f"{f.numerator}/{f.denominator}")
    if hasattr(v, "item"):  # a numpy scalar
        return lift(v.item())
    return NotImplemented


def num(t):
    return z3.If(t, z3.IntVal(1), z3.IntVal(0)) if z3.is_bool(t) else t


def wrap(t):
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    if z3.is_bool(t):
        return SymBool(t)
    return SymInt(t) if z3.is_int(t) else SymReal(t)


def _bin(op, swap=False):
    def f(self, other):
        o = lift(other)
        if o is NotImplemented:
            return NotImplemented
        if o is None:
            raise Unsupported("arithmetic with an infinite value")
        a, b = num(self.t), num(o)
        return wrap(op(b, a) if swap else op(a, b))

    return f


def _cmp(op, inf):
    def f(self, other):
        o = lift(other)
        if o is NotImplemented:
            return NotImplemented
        if o is None:  # an infinity: everything else is below or above it
            return inf(0.0, other)
        return wrap(op(num(self.t), num(o)))

    return f


def _real(t):
    return z3.ToReal(t) if z3.is_int(t) else t


def _div(a, b):
    if CUR.decide(b == 0):
        raise ZeroDivisionError("division by zero")
    return _real(a) / _real(b)


def _floordiv(a, b):
    if CUR.decide(b == 0):
        raise ZeroDivisionError("division by zero")
    if z3.is_int(a) and z3.is_int(b):
        return z3.If(b > 0, a / b, (-a) / (-b))  # z3 rounds down for positive divisors
    return z3.ToReal(z3.ToInt(_real(a) / _real(b)))


class Sym:
    __slots__ = ("t",)
    __hash__ = None
    __array_priority__ = 1000

    def __init__(self, t):
        self.t = t

    __add__, __radd__ = _bin(lambda a, b: a + b), _bin(lambda a, b: a + b, True)
    __sub__, __rsub__ = _bin(lambda a, b: a - b), _bin(lambda a, b: a - b, True)
    __mul__, __rmul__ = _bin(lambda a, b: a * b), _bin(lambda a, b: a * b, True)
    __truediv__, __rtruediv__ = _bin(_div), _bin(_div, True)
    __floordiv__, __rfloordiv__ = _bin(_floordiv), _bin(_floordiv, True)
    __mod__ = _bin(lambda a, b: a - b * _floordiv(a, b))
    __rmod__ = _bin(lambda a, b: a - b * _floordiv(a, b), True)
    __lt__ = _cmp(lambda a, b: a < b, lambda a, b: a < b)
    __le__ = _cmp(lambda a, b: a <= b, lambda a, b: a <= b)
    __gt__ = _cmp(lambda a, b: a > b, lambda a, b: a > b)
    __ge__ = _cmp(lambda a, b: a >= b, lambda a, b: a >= b)
    __eq__ = _cmp(lambda a, b: a == b, lambda a, b: a == b)
    __ne__ = _cmp(lambda a, b: a != b, lambda a, b: a != b)

    def __neg__(self):
        return wrap(-num(self.t))

    def __pos__(self):
        return self

    def __abs__(self):
        t = num(self.t)
        return wrap(z3.If(t < 0, -t, t))

    def __bool__(self):
        return CUR.decide(self.t if z3.is_bool(self.t) else self.t != 0)

    def __float__(self):
        return float(CUR.concrete(num(self.t)))

    def __int__(self):
        return int(CUR.concrete(num(self.t)))

    __index__ = __int__

    def __repr__(self):
        return f"<{self.t}>"

    def __format__(self, spec):
        return repr(self)

    def item(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


class SymInt(Sym):
    __slots__ = ()

    def __round__(self, n=None):
        return self

    def __ceil__(self):
        return self

    __floor__ = __trunc__ = __ceil__


class SymReal(Sym):
    __slots__ = ()

    def __floor__(self):
        return wrap(z3.ToInt(self.t))

    def __ceil__(self):
        return wrap(-z3.ToInt(-self.t))

    def __trunc__(self):
        return wrap(z3.If(self.t >= 0, z3.ToInt(self.t), -z3.ToInt(-self.t)))


class SymBool(Sym):
    __slots__ = ()

    def __and__(self, o):
        o = lift(o)
        return wrap(z3.And(self.t, o)) if z3.is_bool(o) else NotImplemented

    __rand__ = __and__

    def __or__(self, o):
        o = lift(o)
        return wrap(z3.Or(self.t, o)) if z3.is_bool(o) else NotImplemented

    __ror__ = __or__

    def __xor__(self, o):
        o = lift(o)
        return wrap(z3.Xor(self.t, o)) if z3.is_bool(o) else NotImplemented

    __rxor__ = __xor__

    def __invert__(self):
        raise Unsupported("~ of a boolean")


def both(*conds):
    """Conjunction without branching."""
    return wrap(z3.And(*[lift(c) for c in conds]))


def either(*conds):
    return wrap(z3.Or(*[lift(c) for c in conds]))


def negate(c):
    return wrap(z3.Not(lift(c)))


def implies(a, b):
    return wrap(z3.Implies(lift(a), lift(b)))


def ite(c, a, b):
    c = lift(c)
    a, b = lift(a), lift(b)
    if z3.is_bool(a) != z3.is_bool(b):
        a, b = num(a), num(b)
    return wrap(z3.If(c, a, b))


def smin(vals):
    vals = list(vals)
    r = vals[0]
    for v in vals[1:]:
        r = ite(v < r, v, r)
    return r


class Symbolic:
    """Explores all paths of a harness entry."""

    concrete_run = False

    def __init__(self, deadline, query_timeout=30_000):
        self.deadline = deadline
        self.qt = query_timeout
        self.stats = dict(paths=0, forks=0, queries=0, sat=0, unsat=0, unknown=0, solver_ms=0.0,
                          violations=0, trivial_checks=0)
        self.sites = {}
        self.found = []
        self.undecided = []

    # -- solver ---------------------------------------------------------
    def query(self, *extra):
        if clock() > self.deadline:
            raise Abort("time budget used up")
        t = clock()
        r = self.solver.check(*extra)
        self.stats["solver_ms"] += 1000 * (clock() - t)
        self.stats["queries"] += 1
        self.stats[str(r)] += 1
        return r

    def decide(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
            self.pos += 1
            self.solver.add(cond if v else z3.Not(cond))
            return v
        yes, no = self.query(cond), self.query(z3.Not(cond))
        if z3.unknown in (yes, no):
            raise Unsupported("solver gave no answer at a branch")
        if yes == z3.unsat and no == z3.unsat:
            raise Infeasible()
        v = yes == z3.sat
        if yes == z3.sat and no == z3.sat:
            self.stats["forks"] += 1
            self.work.append(self.prefix[: self.pos] + [False])
        self.prefix.append(v)
        self.pos += 1
        self.solver.add(cond if v else z3.Not(cond))
        return v

    def concrete(self, t):
        """A concrete value for the term; the other values are explored too."""
        t = z3.simplify(t)
        for _ in range(200):
            if z3.is_int_value(t):
                return t.as_long()
            if z3.is_rational_value(t):
                return t.as_fraction()
            # Deterministic under re-execution: smallest value first.
            v = self.smallest(t)
            if self.decide(t == v):
                return v.as_long() if z3.is_int_value(v) else v.as_fraction()
        raise Unsupported("a value with too many possibilities is needed concretely")

    def smallest(self, t):
        if self.query() != z3.sat:
            raise Infeasible()
        v = self.solver.model().eval(t, model_completion=True)
        lo = None
        for _ in range(100):
            if not z3.is_int_value(v):
                raise Unsupported("a real value is needed concretely")
            r = self.query(t < v)
            if r == z3.unsat:
                return v
            if r != z3.sat:
                raise Unsupported("solver gave no answer")
            w = self.solver.model().eval(t, model_completion=True)
            # halve the distance to a known lower bound to converge quickly
            step = z3.IntVal(v.as_long() - max(1, 2 * (v.as_long() - w.as_long())))
            v = w
            if self.query(t <= step) == z3.sat:
                v = self.solver.model().eval(t, model_completion=True)
        raise Unsupported("no smallest value found")

    # -- harness interface ----------------------------------------------
    def _new(self, name, t, *conds):
        if name in self.inputs:
            raise RuntimeError(f"input {name} twice")
        self.inputs[name] = t
        for c in conds:
            self.solver.add(c)

    def int(self, name, lo, hi):
        t = z3.Int(name)
        self._new(name, t, t >= lo, t <= hi)
        return SymInt(t)

    def real(self, name, lo, hi):
        t = z3.Real(name)
        self._new(name, t, t >= lift(lo), t <= lift(hi))
        return SymReal(t)

    def bool(self, name):
        t = z3.Bool(name)
        self._new(name, t)
        return SymBool(t)

    def choose(self, name, n):
        t = z3.Int(name)
        self._new(name, t, t >= 0, t < n)
        for k in range(n - 1):
            if self.decide(t == k):
                return k
        self.decide(t == n - 1)
        return n - 1

    def assume(self, cond):
        c = lift(cond)
        c = c if z3.is_bool(c) else c != 0
        self.solver.add(c)
        if self.query() != z3.sat:
            raise Infeasible()

    def check(self, cond, msg):
        site = self.sites.setdefault(f"check:{msg}", [0, 0])
        site[0] += 1
        c = lift(cond) if not isinstance(cond, bool) else z3.BoolVal(cond)
        c = z3.simplify(c if z3.is_bool(c) else c != 0)
        if z3.is_true(c):
            self.stats["trivial_checks"] += 1
            return
        r = self.query(z3.Not(c))
        if r == z3.unsat:
            return
        if r != z3.sat:
            raise Unsupported(f"solver gave no answer for '{msg}'")
        m = self.solver.model()
        self.report(msg, m)

    def report(self, msg, m=None):
        if m is None:
            if self.query() != z3.sat:
                raise Infeasible()
            m = self.solver.model()
        vals = {}
        for n, t in self.inputs.items():
            v = m.eval(t, model_completion=True)
            if z3.is_bool(t):
                vals[n] = z3.is_true(v)
            elif z3.is_int_value(v):
                vals[n] = v.as_long()
            else:
                f = v.approx(30).as_fraction() if z3.is_algebraic_value(v) else v.as_fraction()
                vals[n] = [f.numerator, f.denominator]
        self.stats["violations"] += 1
        self.found.append((msg, vals))
        raise Violation(msg)

    def cover(self, name):
        self.sites.setdefault(f"cover:{name}", [0, 0])[0] += 1

    # -- exploration -----------------------------------------------------
    def explore(self, entry, max_violations=3):
        global CUR
        CUR = self
        self.work = [[]]
        while self.work and len(self.found) < max_violations:
            self.prefix = self.work.pop()
            self.pos = 0
            self.inputs = {}
            self.solver = z3.Solver()
            self.solver.set("timeout", self.qt)
            try:
                entry(self)
                self.stats["paths"] += 1
            except Infeasible:
                pass
            except Violation:
                pass
            except Unsupported as e:
                self.undecided.append(str(e))
                if len(self.undecided) > 20:
                    break
            except Abort as e:
                self.undecided.append(str(e))
                break
            except Exception as e:  # noqa: BLE001 - the code under test raised
                import traceback

                tb = traceback.extract_tb(e.__traceback__)
                last = tb[-1]
                try:
                    if isinstance(e, (TypeError, AttributeError, ImportError, NameError)) or (
                        "/pyharness/" in last.filename and not getattr(e, "genuine", False)
                    ):
                        raise Unsupported(f"harness error: {e!r} at {last.filename}:{last.lineno}")
                    self.report(f"unexpected {type(e).__name__}: {e}")
                except (Violation, Infeasible):
                    pass
                except Unsupported as u:
                    self.undecided.append(str(u))
        return self


class Concrete:
    """Runs a harness entry on given inputs, without proxies."""

    concrete_run = True

    def __init__(self, vals):
        self.vals = vals

    def int(self, name, lo, hi):
        return int(self.vals.get(name, lo))

    def real(self, name, lo, hi):
        v = self.vals.get(name, [lo, 1])
        return v[0] / v[1]

    def bool(self, name):
        return bool(self.vals.get(name, False))

    def choose(self, name, n):
        return int(self.vals.get(name, 0))

    def assume(self, cond):
        if not cond:
            raise Infeasible()

    def check(self, cond, msg):
        if not cond:
            raise Violation(msg)

    def cover(self, name):
        pass
