from __future__ import annotations
import itertools
from fractions import Fraction
import numpy as onp
import jax
import jax.numpy as jnp
import z3
from pv import core as C
from pv import jsym as J
from pv.core import E, B, Opq, CTX, el, ite, isz, const, sym, ra
from pv.harness import Case, Goal, eqs, TIER, is_arr, f32s
import parametricmatrixmodels as pmm
from parametricmatrixmodels import modules as M

KEY = jax.random.key(0)


def mcall(mod, params, data, training=False, state=(), rng=None):
    """the module's compute callable, as models use it"""
    out, st = mod._get_callable()(params, data, training, state,
                                  KEY if rng is None else rng)
    return out


def H(M_):
    return onp.conjugate(onp.swapaxes(M_, -1, -2))


def herm(M_):
    return (M_ + H(M_)) * el(Fraction(1, 2))


def oeinsum(s, *arrs):
    r = onp.einsum(s, *[onp.asarray(a, dtype=object) for a in arrs])
    return onp.asarray(r, dtype=object)


I = E(Fraction(0), Fraction(1))
R, CX = "real", "complex"


def S(*shape):
    return (tuple(shape), "real")


def SC(*shape):
    return (tuple(shape), "complex")


def is_hermitian(M_, label="hermitian"):
    return eqs(M_, H(M_), label)


class SymFloat(float):
    """a python float whose value is a traced scalar (for hyperparameters that
    the code insists are floats).  The float itself is nan, so code that reads
    the machine value cannot be mistaken for code that handles it right."""
    def __new__(cls, tr):
        o = float.__new__(cls, "nan")
        o.tr = tr
        return o

    def __jax_array__(self):
        return self.tr

    def __hash__(self):
        raise C.Unsupported("hash of a symbolic float")

    def __repr__(self):
        return "<symbolic float>"

    __str__ = __repr__

    def __format__(self, spec):
        return "<symbolic float>"

    def __bool__(self):
        return bool(self.tr != 0)

    def __reduce_ex__(self, p):
        raise C.Unsupported("copy of a symbolic float")

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def _sf(n):
    def f(self, *a):
        a = [x.tr if isinstance(x, SymFloat) else x for x in a]
        if any(x is None or isinstance(x, (str, tuple, list)) for x in a):
            return NotImplemented
        r = getattr(self.tr, n)(*a)
        return r
    return f


for _n in ("add radd sub rsub mul rmul truediv rtruediv pow rpow neg pos abs "
           "eq ne lt le gt ge floordiv rfloordiv mod rmod").split():
    setattr(SymFloat, f"__{_n}__", _sf(f"__{_n}__"))


def pyfloat(s):
    """a 0-d input as a python float (symbolic while tracing)"""
    return SymFloat(s) if isinstance(s, jax.core.Tracer) else float(s)


class StatFloat(SymFloat):
    """a symbolic float that can be a static argument (each one is its own
    static value)"""
    _all = []

    def __new__(cls, tr):
        o = SymFloat.__new__(cls, tr)
        cls._all.append(o)          # ids are not reused
        return o

    def __hash__(self):
        return id(self)

    def __eq__(self, o):
        if isinstance(o, StatFloat):
            return self is o
        return SymFloat.__eq__(self, o)

    def __ne__(self, o):
        if isinstance(o, StatFloat):
            return self is not o
        return SymFloat.__ne__(self, o)


def statfloat(s):
    return StatFloat(s) if isinstance(s, jax.core.Tracer) else float(s)
