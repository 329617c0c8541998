"""Forking symbolic execution of real python code.

The real functions run on symbolic integers/booleans/names.  Each branch on a
symbolic condition asks z3 which sides are feasible under the path condition
and, if both are, both are explored (by re-execution).  C code that needs an
actual machine integer (list.insert, slicing, hashing) makes the path fork on
the value; for sequence indexing every value beyond the `clamp` is one class,
since sequences shorter than the clamp cannot tell those apart.  At the end of
each path the property is a formula and z3 decides whether the path condition
allows its negation.  A counterexample is replayed on plain python values.
"""
from __future__ import annotations
import time, traceback
import z3
from . import core as C
from .core import Unsupported


class Abort(BaseException):
    """path infeasible (assumption not met)"""


class Violation(BaseException):
    def __init__(self, label):
        self.label = label


CUR = None      # the explorer in charge


def _z(x):
    if isinstance(x, (SymInt, SymBool)):
        return object.__getattribute__(x, "z")
    return x


def _unsupported(name):
    def f(self, *a, **k):
        raise Unsupported(f"symbolic {name}")
    return f


class SymBool:
    __slots__ = ("z",)

    def __init__(self, z):
        object.__setattr__(self, "z", z)

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return CUR.decide(self.z)

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __hash__(self):
        return hash(bool(self))

    def __eq__(self, o):
        if o is True or o is False or type(o) is SymBool:
            return wrapb(_zb(self) == _zb(o))
        return bool(self) == o

    def __ne__(self, o):
        r = self == o
        return wrapb(z3.Not(r.z)) if type(r) is SymBool else not r

    def __and__(self, o):
        return wrapb(z3.And(_zb(self), _zb(o)))

    def __or__(self, o):
        return wrapb(z3.Or(_zb(self), _zb(o)))

    def __invert__(self):
        return wrapb(z3.Not(self.z))

    __rand__, __ror__ = __and__, __or__

    def __repr__(self):
        return repr(bool(self))


def _zb(x):
    return x.z if type(x) is SymBool else z3.BoolVal(bool(x))


def wrapb(z):
    z = z3.simplify(z)
    if z3.is_true(z):
        return True
    if z3.is_false(z):
        return False
    return SymBool(z)


def wrapi(z):
    z = z3.simplify(z)
    if z3.is_int_value(z):
        return z.as_long()
    return SymInt(z)


def _okint(o):
    return type(o) in (int, bool, SymInt)


def _zi(x):
    if type(x) is SymInt:
        return x.z
    return z3.IntVal(int(x))


def _bin(f, swap=False):
    def g(self, o):
        if not _okint(o):
            if hasattr(o, "__index__") and not isinstance(o, float):
                o = o.__index__()
            elif isinstance(o, (list, tuple, str)):
                # sequence repetition
                k = self.__index__()
                return o * k if f is _mul else NotImplemented
            else:
                return NotImplemented
        return wrapi(f(_zi(o), _zi(self)) if swap else f(_zi(self), _zi(o)))
    return g


def _mul(a, b):
    return a * b


def _fdiv(a, b):
    # python floor division; z3 div is euclidean: agree for positive divisor
    return z3.If(b > 0, a / b, (-a) / (-b))


def _fmod(a, b):
    return a - b * _fdiv(a, b)


def _cmp(f):
    def g(self, o):
        if not _okint(o):
            if hasattr(o, "__index__"):
                o = o.__index__()
            else:
                return NotImplemented
        return wrapb(f(_zi(self), _zi(o)))
    return g


class SymInt:
    """behaves as an int (isinstance too) whose value is a z3 term"""
    __slots__ = ("z",)

    def __init__(self, z):
        object.__setattr__(self, "z", z)

    @property
    def __class__(self):
        return int

    __add__ = _bin(lambda a, b: a + b)
    __radd__ = _bin(lambda a, b: a + b, True)
    __sub__ = _bin(lambda a, b: a - b)
    __rsub__ = _bin(lambda a, b: a - b, True)
    __mul__ = _bin(_mul)
    __rmul__ = __mul__

    def __floordiv__(self, o):
        if not _okint(o):
            return NotImplemented
        if bool(wrapb(_zi(o) == 0)):
            raise ZeroDivisionError("integer division or modulo by zero")
        return wrapi(_fdiv(_zi(self), _zi(o)))

    def __rfloordiv__(self, o):
        return wrapi(z3.IntVal(int(o))).__floordiv__(self) if type(
            wrapi(z3.IntVal(int(o)))) is SymInt else SymInt(
                z3.IntVal(int(o))).__floordiv__(self)

    def __mod__(self, o):
        if not _okint(o):
            return NotImplemented
        if bool(wrapb(_zi(o) == 0)):
            raise ZeroDivisionError("integer division or modulo by zero")
        return wrapi(_fmod(_zi(self), _zi(o)))

    def __rmod__(self, o):
        return SymInt(z3.IntVal(int(o))).__mod__(self)

    def __divmod__(self, o):
        return self // o, self % o

    def __truediv__(self, o):
        return self.__index__() / (o if not type(o) is SymInt
                                   else o.__index__())

    def __rtruediv__(self, o):
        return o / self.__index__()

    def __neg__(self):
        return wrapi(-self.z)

    def __pos__(self):
        return self

    def __abs__(self):
        return wrapi(z3.If(self.z >= 0, self.z, -self.z))

    def __invert__(self):
        return wrapi(-self.z - 1)

    def __pow__(self, o, m=None):
        return pow(self.__index__(), o, m)

    def __rpow__(self, o):
        return o ** self.__index__()

    __lt__ = _cmp(lambda a, b: a < b)
    __le__ = _cmp(lambda a, b: a <= b)
    __gt__ = _cmp(lambda a, b: a > b)
    __ge__ = _cmp(lambda a, b: a >= b)
    __eq__ = _cmp(lambda a, b: a == b)
    __ne__ = _cmp(lambda a, b: a != b)

    def __bool__(self):
        return CUR.decide(z3.simplify(self.z != 0))

    def __index__(self):
        return CUR.index(self.z)

    def __int__(self):
        return CUR.value(self.z)

    def __float__(self):
        return float(CUR.value(self.z))

    def __hash__(self):
        return hash(CUR.value(self.z))

    def __str__(self):
        if getattr(CUR, "opaque_str", False):
            return "<" + str(self.z) + ">"     # messages only
        return str(CUR.value(self.z))

    __repr__ = __str__

    def __format__(self, spec):
        if getattr(CUR, "opaque_str", False):
            return str(self)
        return format(CUR.value(self.z), spec)

    def bit_length(self):
        return CUR.value(self.z).bit_length()

    def __getstate__(self):
        return CUR.value(self.z)


class Dec:
    __slots__ = ("c", "val", "alt", "v")

    def __init__(self, c, val, alt, v=None):
        self.c, self.val, self.alt, self.v = c, val, alt, v


class Explorer:
    """symbolic mode"""
    concrete = False

    def __init__(self, clamp=None, budget=600, maxpaths=10**7):
        self.s = z3.Solver()
        self.stack = []
        self.clamp = clamp
        self.budget, self.maxpaths = budget, maxpaths
        self.queries = self.paths = self.goals = self.infeasible = 0
        self.solver_s = 0.0
        self.unknown = 0
        self.vars = {}
        self.failures = []
        self.complete = True
        self.confirmed = None

    # -- solver
    def _check(self, *cs):
        t = time.time()
        self.queries += 1
        r = self.s.check(*cs)
        self.solver_s += time.time() - t
        if r == z3.unknown:
            self.unknown += 1
        return r

    def _push(self, d):
        self.stack.append(d)
        self.s.push()
        if d.c is not None:
            self.s.add(d.c if d.val else z3.Not(d.c))
        self.pos += 1

    def decide(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.pos < len(self.stack):
            d = self.stack[self.pos]
            self.pos += 1
            return d.val
        t = self._check(c) != z3.unsat
        f = self._check(z3.Not(c)) != z3.unsat
        if not t and not f:
            raise Abort()
        self._push(Dec(c, t, t and f))
        return t

    def value(self, z):
        z = z3.simplify(z)
        if z3.is_int_value(z):
            return z.as_long()
        while True:
            if self.pos < len(self.stack):
                d = self.stack[self.pos]
                self.pos += 1
                if d.val:
                    return d.v
                continue
            if self._check() != z3.sat:
                raise Abort()
            v = self.s.model().eval(z, model_completion=True).as_long()
            f = self._check(z != v) != z3.unsat
            self._push(Dec(z == v, True, f, v))
            return v

    def index(self, z):
        """a machine integer for sequence indexing"""
        z = z3.simplify(z)
        if z3.is_int_value(z):
            return z.as_long()
        L = self.clamp
        if L is not None:
            if self.decide(z > L):
                return L + 1
            if self.decide(z < -L):
                return -L - 1
        return self.value(z)

    # -- scenario interface
    def int(self, name, lo=None, hi=None):
        if name not in self.vars:
            self.vars[name] = z3.Int(name)
        v = SymInt(self.vars[name])
        if lo is not None:
            self.assume(v >= lo)
        if hi is not None:
            self.assume(v <= hi)
        return v

    def bool(self, name):
        if name not in self.vars:
            self.vars[name] = z3.Bool(name)
        return SymBool(self.vars[name])

    def choice(self, name, n):
        """forks into 0..n-1"""
        v = self.int(name, 0, n - 1)
        return v.__int__() if type(v) is SymInt else int(v)

    def pick(self, name, seq):
        return seq[self.choice(name, len(seq))]

    def assume(self, c):
        if type(c) is not SymBool:
            if not c:
                raise Abort()
            return
        if self.pos < len(self.stack):
            self.pos += 1
            return
        self._push(Dec(c.z, True, False))
        if self._check() == z3.unsat:
            raise Abort()

    def check(self, c, label=""):
        """property assertion on this path"""
        self.goals += 1
        if type(c) is not SymBool:
            c = bool(c)
            if not c:
                self.failures.append((label, self._model()))
                raise Violation(label)
            return
        r = self._check(z3.Not(c.z))
        if r == z3.sat:
            self.failures.append((label, self.s.model()))
            raise Violation(label)

    def _model(self, *cs):
        return self.s.model() if self._check(*cs) == z3.sat else None

    def vals(self, m):
        out = {}
        for n, v in self.vars.items():
            x = m.eval(v, model_completion=True)
            out[n] = z3.is_true(x) if z3.is_bool(v) else x.as_long()
        return out

    def run(self, fn, confirm=None):
        """confirm(vals) -> truthy stops at that failure"""
        global CUR
        t0 = time.time()
        errs = []
        seen = 0
        while True:
            if time.time() - t0 > self.budget or self.paths >= self.maxpaths:
                self.complete = False
                break
            self.pos = 0
            CUR = self
            try:
                fn(self)
                self.paths += 1
            except Abort:
                self.infeasible += 1
            except Violation:
                self.paths += 1
            except Exception as e:
                self.paths += 1
                tb = traceback.format_exc()[-700:]
                self.failures.append((f"raised {type(e).__name__}: "
                                      f"{str(e)[:200]}", self._model()))
                errs.append(tb)
            finally:
                CUR = None
            if len(self.failures) > seen:
                seen = len(self.failures)
                m = self.failures[-1][1]
                if m is not None and confirm is not None:
                    self.confirmed = confirm(self.vals(m))
                    if self.confirmed:
                        self.confirmed_vals = self.vals(m)
                        break
                if seen > 50:
                    self.complete = False
                    break
            while self.stack and not self.stack[-1].alt:
                self.stack.pop()
                self.s.pop()
            if not self.stack:
                break
            d = self.stack.pop()
            self.s.pop()
            self.pos = len(self.stack)
            self._push(Dec(d.c, False, False, d.v))
        self.errs = errs
        return self


class Conc:
    """replay mode: plain python values"""
    concrete = True

    def __init__(self, vals):
        self.v = vals
        self.bad = []

    def int(self, name, lo=None, hi=None):
        v = int(self.v.get(name, lo if lo is not None else 0))
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Abort()
        return v

    def bool(self, name):
        return bool(self.v.get(name, False))

    def choice(self, name, n):
        return self.int(name, 0, n - 1)

    def pick(self, name, seq):
        return seq[self.choice(name, len(seq))]

    def assume(self, c):
        if not c:
            raise Abort()

    def check(self, c, label=""):
        if not c:
            self.bad.append(label)
            raise Violation(label)


def replay(fn, vals):
    """-> list of violations on the real code with plain values"""
    global CUR
    CUR = None
    c = Conc(vals)
    try:
        fn(c)
    except Abort:
        return None
    except Violation:
        pass
    except Unsupported:
        return None
    except Exception as e:
        if C.harness_error(e):
            return None
        return [f"raised {type(e).__name__}: {str(e)[:300]}"]
    return c.bad


class PCase:
    """a forking-execution harness: fn(ex) drives the real code and asserts"""

    def __init__(self, name, fn, funcs=(), bounds="", weight=1, clamp=None,
                 budget=None):
        self.name, self.fn, self.funcs, self.bounds = name, fn, funcs, bounds
        self.weight, self.clamp, self.budget = weight, clamp, budget

    def run(self, tier):
        t0 = time.time()
        b = self.budget or (300 if tier == "quick" else 3000)
        ex = Explorer(clamp=self.clamp, budget=b)
        res = dict(name=self.name, funcs=list(self.funcs), bounds=self.bounds,
                   queries=0, unsat=0, goals=0, solver_s=0.0, status="held",
                   notes=[], validated=0, violations=[])
        try:
            ex.run(self.fn, lambda v: replay(self.fn, v))
        except Exception:
            res["status"] = "inconclusive"
            res["notes"].append("explorer: " + traceback.format_exc()[-500:])
            return res
        res.update(queries=ex.queries, goals=ex.goals, paths=ex.paths,
                   solver_s=ex.solver_s, unsat=ex.goals,
                   wall_s=time.time() - t0, vacuity="sat" if ex.paths
                   else "no feasible path")
        if ex.confirmed:
            res["status"] = "violated"
            res["violations"] = [dict(inputs=ex.confirmed_vals,
                                      what=ex.confirmed[:5],
                                      how="solver counterexample replayed "
                                      "on plain values")]
            return res
        if ex.failures:
            res["status"] = "inconclusive"
            res["notes"].append(f"counterexample did not replay: "
                                f"{ex.failures[0][0]} {ex.errs[:1]}")
        elif not ex.complete:
            res["status"] = "inconclusive"
            res["notes"].append(f"not finished: {ex.paths} paths")
        elif ex.unknown:
            res["status"] = "inconclusive"
            res["notes"].append("solver unknown")
        elif ex.paths == 0:
            res["status"] = "inconclusive"
            res["notes"].append("no feasible path")
        else:
            # translator validation: one plain-value run of a feasible path
            if replay(self.fn, {}) == []:
                res["validated"] = 1
        return res
