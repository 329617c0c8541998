"""Symbolic scalars and the solver context.

An *element* is one of
  E   a number: (re, im) where each part is a Fraction constant, a z3 Int/Real
      term, or one of the python floats inf/-inf/nan (constants only)
  B   a truth value: python bool or z3 Bool term
  Opq an opaque value (PRNG keys, tokens): compared structurally
numpy object arrays of elements stand for jax arrays.
"""
from __future__ import annotations
import math
from fractions import Fraction
import numpy as onp
import z3

INF = float("inf")


class Unsupported(Exception):
    pass


class Opq:
    __slots__ = ("t",)

    def __init__(self, *t):
        self.t = t

    def __eq__(self, o):
        return isinstance(o, Opq) and self.t == o.t

    def __hash__(self):
        return hash(self.t)

    def __repr__(self):
        return "Opq" + repr(self.t)


def isz(x):
    return isinstance(x, z3.ExprRef)


def frac(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, (onp.integer, onp.bool_)):
        return Fraction(int(x))
    if isinstance(x, onp.float32) and math.isfinite(x):
        # a single precision constant stands for the decimal it was written as
        return Fraction(float(str(x)))
    x = float(x)
    if math.isfinite(x):
        return Fraction(x)
    return x


def special(x):
    return isinstance(x, float)


def zr(x):
    """to z3 term"""
    if isz(x):
        return x
    if special(x):
        raise Unsupported(f"special float {x} in a symbolic term")
    if x.denominator == 1:
        return z3.RealVal(x.numerator)
    return z3.RealVal(str(x.numerator) + "/" + str(x.denominator))


def radd(a, b):
    if isz(a):
        if isz(b):
            return a + b
        if special(b):
            return b
        if b == 0:
            return a
        return a + zr(b)
    if isz(b):
        return radd(b, a)
    if special(a) or special(b):
        return frac(float(a) + float(b))
    return a + b


def rneg(a):
    if isz(a):
        return -a
    return -a


def rsub(a, b):
    if isz(a) and isz(b):
        if a.eq(b):
            return Fraction(0)
        return a - b
    return radd(a, rneg(b))


def rmul(a, b):
    if isz(a):
        if isz(b):
            if a.get_id() == b.get_id() and a.get_id() in CTX.modulus:
                return CTX.modulus[a.get_id()]   # |z|*|z| = re^2 + im^2
            return a * b
        if special(b):
            return ite_special_mul(a, b)
        if b == 0:
            return Fraction(0)
        if b == 1:
            return a
        if b == -1:
            return -a
        return zr(b) * a
    if isz(b):
        return rmul(b, a)
    if special(a) or special(b):
        return frac(float(a) * float(b))
    return a * b


def ite_special_mul(a, b):
    raise Unsupported("symbolic * inf/nan")


def rdiv(a, b):
    if not isz(b):
        if special(b):
            if math.isinf(b) and (isz(a) or not special(a)):
                return Fraction(0)
            return frac(float("nan"))
        if b == 0:
            if isz(a):
                raise Unsupported("symbolic / 0")
            if special(a) or a == 0:
                return float("nan")
            return INF if a > 0 else -INF
        return rmul(a, 1 / b) if not special(a) else frac(float(a) / float(b))
    if not isz(a) and not special(a) and a == 0:
        return Fraction(0)
    CTX.divisors.append(b)
    az = zr(a)
    if z3.is_int(az):
        az = z3.ToReal(az)
    bz = z3.ToReal(b) if z3.is_int(b) else b
    return az / bz


def rcmp(op, a, b):
    if isz(a) or isz(b):
        for x, y, fl in ((a, b, False), (b, a, True)):
            if not isz(x) and special(x):
                # x special constant, y symbolic finite
                if math.isnan(x):
                    return op == "ne"
                o = {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le"}.get(
                    op, op) if fl else op
                return {"lt": x < 0, "le": x < 0, "gt": x > 0, "ge": x > 0,
                        "eq": False, "ne": True}[o]
        if isz(a) and isz(b):
            if a.eq(b):
                return op in ("eq", "le", "ge")
            if CTX.known_le:
                if (a.get_id(), b.get_id()) in CTX.known_le:
                    if op == "le":
                        return True
                    if op == "gt":
                        return False
                if (b.get_id(), a.get_id()) in CTX.known_le:
                    if op == "ge":
                        return True
                    if op == "lt":
                        return False
        a, b = zr(a), zr(b)
        return {"lt": lambda: a < b, "le": lambda: a <= b,
                "gt": lambda: a > b, "ge": lambda: a >= b,
                "eq": lambda: a == b, "ne": lambda: a != b}[op]()
    return {"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b,
            "eq": a == b, "ne": a != b}[op]


# ---- booleans -------------------------------------------------------------
def bnot(a):
    return z3.Not(a) if isz(a) else (not a)


def band(a, b):
    if isz(a):
        if isz(b):
            return a if a.eq(b) else z3.And(a, b)
        return a if b else False
    return b if a else False


def bor(a, b):
    if isz(a):
        if isz(b):
            return a if a.eq(b) else z3.Or(a, b)
        return True if b else a
    return True if a else b


def rite(c, a, b):
    """ite on real parts; c is bool or z3 Bool"""
    if not isz(c):
        return a if c else b
    if isz(a) and isz(b):
        if a.eq(b):
            return a
    elif not isz(a) and not isz(b):
        if a == b:
            return a
    return z3.If(c, zr(a), zr(b))


class B:
    __slots__ = ("v",)

    def __init__(self, v):
        if isinstance(v, onp.bool_):
            v = bool(v)
        self.v = v

    def __and__(self, o):
        return B(band(self.v, tb(o)))

    def __or__(self, o):
        return B(bor(self.v, tb(o)))

    def __invert__(self):
        return B(bnot(self.v))

    def __bool__(self):
        if isz(self.v):
            raise Unsupported("symbolic bool forced")
        return self.v

    def __repr__(self):
        return f"B({self.v})"


def tb(x):
    if isinstance(x, B):
        return x.v
    if isinstance(x, E):
        return rcmp("ne", x.re, Fraction(0))
    return x


class E:
    __slots__ = ("re", "im")

    def __init__(self, re, im=Fraction(0)):
        self.re = re
        self.im = im

    @property
    def isreal(self):
        return not isz(self.im) and self.im == 0

    def const(self):
        return not isz(self.re) and not isz(self.im)

    def __format__(self, spec):
        return repr(self)

    def __repr__(self):
        return f"E({self.re},{self.im})" if not self.isreal else f"E({self.re})"

    def __add__(self, o):
        o = el(o)
        return E(radd(self.re, o.re), radd(self.im, o.im))

    __radd__ = __add__

    def __neg__(self):
        return E(rneg(self.re), rneg(self.im))

    def __sub__(self, o):
        o = el(o)
        return E(rsub(self.re, o.re), rsub(self.im, o.im))

    def __rsub__(self, o):
        return el(o) - self

    def __mul__(self, o):
        o = el(o)
        if self.isreal and o.isreal:
            return E(rmul(self.re, o.re))
        return E(rsub(rmul(self.re, o.re), rmul(self.im, o.im)),
                 radd(rmul(self.re, o.im), rmul(self.im, o.re)))

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = el(o)
        if o.isreal:
            return E(rdiv(self.re, o.re),
                     Fraction(0) if self.isreal else rdiv(self.im, o.re))
        d = radd(rmul(o.re, o.re), rmul(o.im, o.im))
        n = self * o.conj()
        return E(rdiv(n.re, d), rdiv(n.im, d))

    def __rtruediv__(self, o):
        return el(o) / self

    def __pow__(self, n):
        if isinstance(n, E):
            if n.const() and n.isreal and n.re.denominator == 1:
                n = int(n.re)
            else:
                raise Unsupported("pow")
        r = E(Fraction(1))
        for _ in range(abs(n)):
            r = r * self
        return r if n >= 0 else E(Fraction(1)) / r

    def conj(self):
        return E(self.re, rneg(self.im) if not self.isreal else Fraction(0))

    conjugate = conj

    def cmp(self, op, o):
        o = el(o)
        if op in ("eq", "ne"):
            r = band(rcmp("eq", self.re, o.re), rcmp("eq", self.im, o.im))
            return B(r) if op == "eq" else B(bnot(r))
        return B(rcmp(op, self.re, o.re))

    def __lt__(self, o): return self.cmp("lt", o)
    def __le__(self, o): return self.cmp("le", o)
    def __gt__(self, o): return self.cmp("gt", o)
    def __ge__(self, o): return self.cmp("ge", o)
    def eq(self, o): return self.cmp("eq", o)

    def abs2(self):
        return E(radd(rmul(self.re, self.re), rmul(self.im, self.im)))

    def __abs__(self):
        if self.isreal:
            if isz(self.re):
                r = z3.If(self.re >= 0, self.re, -self.re)
                CTX.modulus[r.get_id()] = self.re * self.re
                CTX.keep.append(r)
                return E(r)
            return E(abs(self.re))
        q = self.abs2()
        r = uf("sqrt", q)
        if isz(r.re) and isz(q.re):
            CTX.modulus[r.re.get_id()] = q.re
            CTX.keep.append(r.re)
        return r

    @property
    def real(self):
        return E(self.re)

    @property
    def imag(self):
        return E(self.im)

    # numpy ufunc hooks on object arrays
    def sqrt(self): return uf("sqrt", self)
    def exp(self): return uf("exp", self)
    def log(self): return uf("log", self)
    def tanh(self): return uf("tanh", self)


def el(x):
    if isinstance(x, E):
        return x
    if isinstance(x, B):
        return E(rite(x.v, Fraction(1), Fraction(0)))
    if isz(x):
        return E(x)
    if isinstance(x, (complex, onp.complexfloating)):
        return E(frac(x.real), frac(x.imag))
    return E(frac(x))


def ite(c, a, b):
    c = tb(c)
    if not isz(c):
        return a if c else b
    if isinstance(a, B) or isinstance(b, B):
        a, b = tb(a), tb(b)
        if not isz(a) and not isz(b) and a == b:
            return B(a)
        if isz(a) and isz(b) and a.eq(b):
            return B(a)
        return B(bor(band(c, a), band(bnot(c), b)))
    if isinstance(a, Opq) or isinstance(b, Opq):
        if a == b:
            return a
        return Opq("ite", c.get_id(), a, b)
    a, b = el(a), el(b)
    return E(rite(c, a.re, b.re), rite(c, a.im, b.im))


def emax(a, b):
    return ite(a >= b, a, b)


def emin(a, b):
    return ite(a <= b, a, b)


# ---- context: uninterpreted functions and their axioms ----------------------
class Ctx:
    def __init__(self):
        self.reset()

    def reset(self):
        self.axioms = []       # z3 facts about uninterpreted applications
        self.divisors = []     # z3 terms that were divided by
        self.known_le = set()  # (id a, id b): a <= b is an axiom
        self.modulus = {}      # id of sqrt(re^2+im^2) -> re^2+im^2
        self.apps = {}         # memo: (name, args ids) -> value
        self.keep = []         # keep z3 terms alive (ids are reused otherwise)
        self.nfresh = 0
        self.notes = set()
        self.prims = set()
        self.pc = []           # assumptions

    def fresh(self, name, sort="Real"):
        self.nfresh += 1
        mk = {"Real": z3.Real, "Int": z3.Int, "Bool": z3.Bool}[sort]
        return mk(f"{name}!{self.nfresh}")


CTX = Ctx()

_UFS = {}


def ufun(name, n=1):
    k = (name, n)
    if k not in _UFS:
        _UFS[k] = z3.Function(name, *([z3.RealSort()] * n), z3.RealSort())
    return _UFS[k]


def _isqrt(x):
    n, d = math.isqrt(x.numerator), math.isqrt(x.denominator)
    if n * n == x.numerator and d * d == x.denominator:
        return Fraction(n, d)
    return None


def toreal(x):
    return z3.ToReal(x) if z3.is_int(x) else x


def ruf(name, *args):
    """uninterpreted real function application with its basic axioms"""
    zs = [toreal(z3.simplify(zr(a), som=True)) for a in args]
    key = (name,) + tuple(z.get_id() for z in zs)
    if key in CTX.apps:
        return CTX.apps[key]
    CTX.keep.extend(zs)
    r = ufun(name, len(zs))(*zs)
    ax = CTX.axioms
    x = zs[0]
    if name == "sqrt":
        ax.append(z3.Implies(x >= 0, z3.And(r >= 0, r * r == x)))
        ax.append(z3.Implies(x == 0, r == 0))
    elif name == "exp":
        ax.append(r > 0)
    elif name == "tanh":
        ax.append(z3.And(r > -1, r < 1))
    CTX.apps[key] = r
    CTX.keep.append(r)
    return r


_CONST = {"exp": math.exp, "log": math.log, "tanh": math.tanh,
          "sin": math.sin, "cos": math.cos, "erf": math.erf,
          "erfc": math.erfc, "atan": math.atan, "asinh": math.asinh,
          "sinh": math.sinh, "cosh": math.cosh, "tan": math.tan}


def uf(name, a, *rest):
    a = el(a)
    if not a.isreal and isz(a.im):
        # an imaginary part that cancels identically
        im = z3.simplify(a.im, som=True)
        while z3.is_app_of(im, z3.Z3_OP_DIV):
            im = z3.simplify(im.arg(0), som=True)
        if z3.is_rational_value(im) and im.as_fraction() == 0:
            a = E(a.re)
    if name == "sqrt" and a.isreal and not isz(a.re):
        if special(a.re):
            return E(frac(math.sqrt(a.re)))
        s = _isqrt(a.re) if a.re >= 0 else None
        if s is not None:
            return E(s)
    if name == "exp" and a.const() and a.isreal and a.re == 0:
        return E(Fraction(1))
    if name == "exp" and a.isreal and special(a.re):
        return E(frac(math.exp(a.re)))
    if name == "log" and a.const() and a.isreal and a.re == 1:
        return E(Fraction(0))
    if name in ("tanh", "sin", "erf", "atan", "sinh", "asinh", "tan") \
            and a.const() and a.isreal and a.re == 0:
        return E(Fraction(0))
    if not a.isreal:
        if name == "exp":
            e = uf("exp", a.real)
            return E(rmul(e.re, uf("cos", a.imag).re),
                     rmul(e.re, uf("sin", a.imag).re))
        raise Unsupported(f"complex {name}")
    return E(ruf(name, a.re, *[el(r).re for r in rest]))


# ---- building symbolic arrays ------------------------------------------------
def sym(name, shape=(), kind="real"):
    """fresh symbolic array. kind: real, complex, int, bool"""
    out = onp.empty(shape, dtype=object)
    for idx in onp.ndindex(*shape):
        n = name + ("_" + "_".join(map(str, idx)) if idx else "")
        if kind == "real":
            out[idx] = E(z3.Real(n))
        elif kind == "complex":
            out[idx] = E(z3.Real(n + ".re"), z3.Real(n + ".im"))
        elif kind == "int":
            out[idx] = E(z3.Int(n))
        elif kind == "bool":
            out[idx] = B(z3.Bool(n))
        else:
            raise ValueError(kind)
    return out


def const(a):
    """concrete array -> object array"""
    import jax
    try:
        if jax.dtypes.issubdtype(a.dtype, jax.dtypes.prng_key):
            kd = onp.asarray(jax.random.key_data(a))
            out = onp.empty(a.shape, dtype=object)
            for idx in onp.ndindex(*a.shape):
                out[idx] = Opq("key", tuple(int(v) for v in kd[idx]))
            return out
    except AttributeError:
        pass
    a = onp.asarray(a)
    out = onp.empty(a.shape, dtype=object)
    if a.dtype == bool:
        for idx in onp.ndindex(*a.shape):
            out[idx] = B(bool(a[idx]))
    elif a.dtype == object:
        return a
    else:
        for idx in onp.ndindex(*a.shape):
            out[idx] = el(a[idx])
    return out


def E_(x):
    return el(x)


def ra(x):
    """real object array (lift floats etc.)"""
    x = onp.asarray(x, dtype=object)
    out = onp.empty(x.shape, dtype=object)
    for i in onp.ndindex(*x.shape):
        out[i] = x[i] if isinstance(x[i], (E, B, Opq)) else el(x[i])
    return out


def harness_error(e):
    """did the exception come from the harness's own code or stand-ins (a
    name or attribute it expects is gone), not from the code under test?"""
    if not isinstance(e, (NameError, AttributeError, ImportError)):
        return False
    obj = getattr(e, "obj", None)
    if obj is not None and str(type(obj).__module__).startswith("pv"):
        return True
    tb = e.__traceback__
    while tb is not None:
        f = tb.tb_frame.f_code.co_filename
        if "parametricmatrixmodels" in f:
            return False
        tb = tb.tb_next
    return True


# the key offset of concrete runs (counterexamples are replayed with several)
SEED = [0, False]


def seed(base=0):
    """an integer seed; while replaying, other seeds are tried as well"""
    SEED[1] = True
    return base + SEED[0]
