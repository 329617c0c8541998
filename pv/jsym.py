"""Symbolic interpreter for jaxprs (the IR jax compiles the real code to).

Data movement primitives are executed by jax itself on integer element ids, so
their semantics is jax's own; arithmetic is mapped to z3 terms over the reals.
"""
from __future__ import annotations
import itertools
from fractions import Fraction
import numpy as onp
import jax
import jax.numpy as jnp
import z3
from jax import lax
from . import core as C
from .core import E, B, Opq, Unsupported, CTX, el, ite, const, isz

try:
    from jax.extend.core import ClosedJaxpr, Literal, Jaxpr
except Exception:  # pragma: no cover
    from jax.core import ClosedJaxpr, Literal, Jaxpr

RULES = {}
HOOKS = {}   # name of jitted function -> handler(eqn, invals) or None


def rule(*names):
    def d(f):
        for n in names:
            RULES[n] = f
        return f
    return d


def vec(f, *arrs):
    shape = onp.broadcast_shapes(*[a.shape for a in arrs])
    arrs = [onp.broadcast_to(a, shape) for a in arrs]
    out = onp.empty(shape, dtype=object)
    for i in onp.ndindex(*shape):
        out[i] = f(*[a[i] for a in arrs])
    return out


def is_int_dtype(dt):
    return onp.issubdtype(dt, onp.integer)


# ------------------------------------------------------------------ movement
MOVE = {"reshape", "transpose", "broadcast_in_dim", "squeeze", "expand_dims",
        "slice", "rev", "concatenate", "copy", "copy_p", "split",
        "stop_gradient", "device_put", "reduce_precision", "optimization_barrier",
        "stack", "unstack",
        "tile", "name", "sharding_constraint", "pvary", "pcast"}
IDENT = {"copy", "copy_p", "stop_gradient", "device_put", "reduce_precision",
         "optimization_barrier", "name", "sharding_constraint", "pvary",
         "pcast", "mesh_cast"}


def move(eqn, ins):
    """run a data-movement primitive on ids"""
    flat = []
    ids = []
    n = 0
    for a in ins:
        k = a.size
        ids.append(jnp.asarray(
            onp.arange(n, n + k, dtype=onp.int32).reshape(a.shape)))
        flat.extend(a.reshape(-1))
        n += k
    outs = eqn.primitive.bind(*ids, **eqn.params)
    if not eqn.primitive.multiple_results:
        outs = [outs]
    return [lookup(o, flat) for o in outs]


def lookup(o, flat):
    o = onp.asarray(o)
    out = onp.empty(o.shape, dtype=object)
    for i in onp.ndindex(*o.shape):
        out[i] = flat[int(o[i])]
    return out


def conc_int(a):
    """concrete int array of an object array, or None"""
    out = onp.empty(a.shape, dtype=onp.int32)
    for i in onp.ndindex(*a.shape):
        e = a[i]
        if isinstance(e, B):
            if isz(e.v):
                return None
            out[i] = int(e.v)
            continue
        if isinstance(e, Opq) or not e.const():
            return None
        out[i] = int(e.re)
    return out


def ids_of(a, start=0):
    return jnp.asarray(onp.arange(start, start + a.size, dtype=onp.int32)
                       .reshape(a.shape))


@rule("gather")
def _gather(eqn, ins):
    op, idx = ins
    p = dict(eqn.params)
    mode = str(p["mode"])
    fill = -1
    p["fill_value"] = fill
    flat = list(op.reshape(-1))
    oid = ids_of(op)

    def get(o):
        o = onp.asarray(o)
        out = onp.empty(o.shape, dtype=object)
        for i in onp.ndindex(*o.shape):
            k = int(o[i])
            if k == fill:
                fv = eqn.params.get("fill_value")
                if fv is None:
                    dt = eqn.outvars[0].aval.dtype
                    fv = float("nan") if onp.issubdtype(dt, onp.inexact) else 0
                out[i] = el(fv)
            else:
                out[i] = flat[k]
        return out

    ci = conc_int(idx)
    if ci is not None:
        return [get(eqn.primitive.bind(oid, jnp.asarray(ci), **p))]
    # symbolic indices: enumerate every index vector, merge by ite
    dn = p["dimension_numbers"]
    nv = idx.shape[-1]
    bshape = idx.shape[:-1]
    outshape = eqn.outvars[0].aval.shape
    offset = set(int(d) for d in dn.offset_dims)
    bdims = [d for d in range(len(outshape)) if d not in offset]
    doms = []
    for k in range(nv):
        d = int(dn.start_index_map[k])
        doms.append(range(0, op.shape[d] - int(p["slice_sizes"][d]) + 1))
    out = None
    conds_all = None
    for v in itertools.product(*doms):
        cidx = onp.broadcast_to(onp.array(v, dtype=onp.int32), idx.shape)
        ov = get(eqn.primitive.bind(oid, jnp.asarray(cidx), **p))
        cond = onp.empty(bshape, dtype=object)
        for b in onp.ndindex(*bshape):
            c = True
            for k in range(nv):
                c = C.band(c, C.rcmp("eq", idx[b + (k,)].re, Fraction(v[k])))
            cond[b] = c
        if out is None:
            out = ov
        else:
            new = onp.empty(outshape, dtype=object)
            for o in onp.ndindex(*outshape):
                b = tuple(o[d] for d in bdims)
                new[o] = ite(cond[b], ov[o], out[o])
            out = new
    CTX.notes.add("symbolic gather indices assumed in bounds")
    return [out]


@rule("dynamic_slice")
def _dynamic_slice(eqn, ins):
    op, starts = ins[0], ins[1:]
    cs = [conc_int(s) for s in starts]
    flat = list(op.reshape(-1))
    if all(c is not None for c in cs):
        o = eqn.primitive.bind(ids_of(op), *[jnp.asarray(c) for c in cs],
                               **eqn.params)
        return [lookup(o, flat)]
    sizes = eqn.params["slice_sizes"]
    doms = []
    for d, (s, c) in enumerate(zip(starts, cs)):
        m = op.shape[d] - sizes[d]
        doms.append([min(max(int(c), 0), m)] if c is not None
                    else list(range(m + 1)))
    out = None
    for v in itertools.product(*doms):
        o = eqn.primitive.bind(ids_of(op), *[jnp.int32(x) for x in v],
                               **eqn.params)
        ov = lookup(o, flat)
        if out is None:
            out = ov      # index 0 also covers negative starts (clamped)
            continue
        c = True
        for d in range(len(v)):
            if cs[d] is None:
                m = op.shape[d] - sizes[d]
                s = starts[d][()].re
                c = C.band(c, C.rcmp("ge" if v[d] == m else "eq", s,
                                     Fraction(v[d])))
        out = vec(lambda a, b: ite(c, a, b), ov, out)
    return [out]


@rule("dynamic_update_slice")
def _dus(eqn, ins):
    op, upd, starts = ins[0], ins[1], ins[2:]
    cs = [conc_int(s) for s in starts]
    flat = list(op.reshape(-1)) + list(upd.reshape(-1))
    if all(c is not None for c in cs):
        o = eqn.primitive.bind(ids_of(op), ids_of(upd, op.size),
                               *[jnp.asarray(c) for c in cs], **eqn.params)
        return [lookup(o, flat)]
    doms = []
    for d, c in enumerate(cs):
        m = op.shape[d] - upd.shape[d]
        doms.append([min(max(int(c), 0), m)] if c is not None
                    else list(range(m + 1)))
    out = None
    for v in itertools.product(*doms):
        o = eqn.primitive.bind(ids_of(op), ids_of(upd, op.size),
                               *[jnp.int32(x) for x in v], **eqn.params)
        ov = lookup(o, flat)
        if out is None:
            out = ov
            continue
        c = True
        for d in range(len(v)):
            if cs[d] is None:
                m = op.shape[d] - upd.shape[d]
                c = C.band(c, C.rcmp("ge" if v[d] == m else "eq",
                                     starts[d][()].re, Fraction(v[d])))
        out = vec(lambda a, b: ite(c, a, b), ov, out)
    return [out]


@rule("pad")
def _pad(eqn, ins):
    op, pv = ins
    flat = list(op.reshape(-1)) + [pv[()]]
    o = eqn.primitive.bind(ids_of(op), jnp.int32(op.size), **eqn.params)
    return [lookup(o, flat)]


@rule("scatter", "scatter-add", "scatter_add", "scatter-mul")
def _scatter(eqn, ins):
    op, idx, upd = ins
    ci = conc_int(idx)
    if ci is None:
        raise Unsupported("scatter with symbolic indices")
    out = op.copy()
    p = dict(eqn.params)
    # which update element lands on which operand element: scatter one at a time
    name = eqn.primitive.name
    uid = onp.arange(1, upd.size + 1, dtype=onp.int32).reshape(upd.shape)
    fl = list(upd.reshape(-1))
    sc = [q for q in ("update_jaxpr", "update_consts") if q in p]
    for k in range(upd.size):
        u1 = onp.where(uid == k + 1, 1, 0).astype(onp.int32)
        hit = onp.asarray(lax.scatter_add(
            jnp.zeros(op.shape, jnp.int32), jnp.asarray(ci), jnp.asarray(u1),
            p["dimension_numbers"], indices_are_sorted=False,
            unique_indices=False, mode=p["mode"]))
        for i in zip(*onp.nonzero(hit)):
            if name == "scatter":
                out[i] = fl[k]
            elif name == "scatter-mul":
                out[i] = out[i] * fl[k]
            else:
                out[i] = out[i] + fl[k]
    return [out]


# ---------------------------------------------------------------- arithmetic
def ew(f):
    return lambda eqn, ins: [vec(f, *ins)]


def num(f):
    return ew(lambda *a: f(*[el(x) if not isinstance(x, Opq) else x
                             for x in a]))


def _intdiv(a, b):
    if a.const() and b.const():
        q = abs(int(a.re)) // abs(int(b.re))
        return E(Fraction(q if (a.re >= 0) == (b.re >= 0) else -q))
    raise Unsupported("symbolic integer division")


def _div(eqn, ins):
    if is_int_dtype(eqn.outvars[0].aval.dtype):
        return [vec(lambda a, b: _intdiv(el(a), el(b)), *ins)]
    return [vec(lambda a, b: el(a) / el(b), *ins)]


RULES["add"] = num(lambda a, b: a + b)
RULES["add_any"] = RULES["add"]
RULES["sub"] = num(lambda a, b: a - b)
RULES["mul"] = num(lambda a, b: a * b)
RULES["div"] = _div
RULES["neg"] = num(lambda a: -a)
RULES["max"] = num(C.emax)
RULES["min"] = num(C.emin)
RULES["abs"] = num(abs)
RULES["square"] = num(lambda a: a * a)
RULES["real"] = num(lambda a: a.real)
RULES["imag"] = num(lambda a: a.imag)
RULES["conj"] = num(lambda a: a.conj())
RULES["complex"] = num(lambda a, b: E(a.re, b.re))
RULES["sqrt"] = num(lambda a: C.uf("sqrt", a))
RULES["rsqrt"] = num(lambda a: el(1) / C.uf("sqrt", a))
RULES["cbrt"] = num(lambda a: C.uf("cbrt", a))
RULES["exp"] = num(lambda a: C.uf("exp", a))
RULES["exp2"] = num(lambda a: C.uf("exp", a * el(0.6931471805599453)))
RULES["log"] = num(lambda a: C.uf("log", a))
RULES["log1p"] = num(lambda a: C.uf("log", el(1) + a))
RULES["expm1"] = num(lambda a: C.uf("exp", a) - 1)
RULES["logistic"] = num(lambda a: el(1) / (el(1) + C.uf("exp", -a)))
RULES["is_finite"] = num(lambda a: B(not (C.special(a.re) or C.special(a.im))))
for _n in ("tanh", "sin", "cos", "tan", "erf", "erfc", "atan", "sinh", "cosh",
           "asinh", "erf_inv", "asin", "acos", "atanh", "acosh", "lgamma",
           "digamma"):
    RULES[_n] = (lambda n: num(lambda a: C.uf(n, a)))(_n)


RULES["bessel_i0e"] = num(lambda a: C.uf("bessel_i0e", a))
RULES["bessel_i1e"] = num(lambda a: C.uf("bessel_i1e", a))
RULES["atan2"] = num(lambda a, b: C.uf("atan2", a, b))


@rule("sign")
def _sign(eqn, ins):
    def f(a):
        a = el(a)
        if not a.isreal:
            raise Unsupported("complex sign")
        return ite(a > 0, el(1), ite(a < 0, el(-1), el(0)))
    return [vec(f, *ins)]


@rule("floor", "ceil", "round")
def _floor(eqn, ins):
    nm = eqn.primitive.name

    def f(a):
        a = el(a)
        import math
        if a.const():
            if C.special(a.re):
                return a
            if nm == "round":
                return el(round(a.re)) if "EVEN" in str(
                    eqn.params.get("rounding_method")) else el(
                    math.floor(abs(a.re) + Fraction(1, 2))
                    * (1 if a.re >= 0 else -1))
            return el(math.floor(a.re) if nm == "floor" else math.ceil(a.re))
        if z3.is_int(a.re):
            return a
        if nm == "floor":
            return E(z3.ToReal(z3.ToInt(a.re)))
        if nm == "ceil":
            return E(-z3.ToReal(z3.ToInt(-a.re)))
        even = "EVEN" in str(eqn.params.get("rounding_method"))
        h = z3.RealVal("1/2")
        if even:
            fl = z3.ToInt(a.re + h)
            tie = z3.And(z3.ToReal(fl) == a.re + h, fl % 2 == 1)
            return E(z3.ToReal(z3.If(tie, fl - 1, fl)))
        return E(z3.If(a.re >= 0, z3.ToReal(z3.ToInt(a.re + h)),
                       -z3.ToReal(z3.ToInt(-a.re + h))))
    return [vec(f, *ins)]


@rule("integer_pow")
def _ipow(eqn, ins):
    return [vec(lambda a: el(a) ** eqn.params["y"], *ins)]


@rule("pow")
def _pow(eqn, ins):
    def f(a, b):
        a, b = el(a), el(b)
        if b.const() and b.isreal and not C.special(b.re) \
                and b.re.denominator == 1 and abs(b.re) <= 16:
            return a ** int(b.re)
        if b.const() and b.isreal and b.re == Fraction(1, 2):
            return C.uf("sqrt", a)
        return C.uf("pow", a, b)
    return [vec(f, *ins)]


@rule("rem")
def _rem(eqn, ins):
    def f(a, b):
        a, b = el(a), el(b)
        if a.const() and b.const():
            import math
            return el(Fraction(math.fmod(a.re, b.re)) if False else
                      a.re - b.re * int(a.re / b.re))
        if z3.is_int(C.zr(a.re)) and b.const() and b.re.denominator == 1:
            n = int(b.re)
            q = a.re % abs(n)
            return E(z3.If(a.re >= 0, q, z3.If(q == 0, q, q - abs(n))))
        raise Unsupported("symbolic rem")
    return [vec(f, *ins)]


def _cmp(op):
    return lambda eqn, ins: [vec(lambda a, b: _cmp1(op, a, b), *ins)]


def _cmp1(op, a, b):
    if isinstance(a, B) or isinstance(b, B):
        x, y = C.tb(a), C.tb(b)
        if not isz(x) and not isz(y):
            return B((x == y) if op == "eq" else (x != y) if op == "ne"
                     else {"lt": x < y, "le": x <= y, "gt": x > y,
                           "ge": x >= y}[op])
        if op in ("eq", "ne"):
            xx = z3.BoolVal(x) if not isz(x) else x
            yy = z3.BoolVal(y) if not isz(y) else y
            return B(xx == yy if op == "eq" else xx != yy)
        raise Unsupported("order on bools")
    if isinstance(a, Opq) or isinstance(b, Opq):
        return B((a == b) == (op == "eq"))
    return el(a).cmp(op, b)


for _o in ("lt", "le", "gt", "ge", "eq", "ne"):
    RULES[_o] = _cmp(_o)
for _o in ("lt", "le", "eq"):
    RULES[_o + "_to"] = _cmp(_o)


@rule("and", "or", "xor", "not", "shift_right_logical", "shift_left",
      "shift_right_arithmetic", "population_count")
def _bits(eqn, ins):
    n = eqn.primitive.name
    if all(isinstance(x, B) for a in ins for x in a.reshape(-1)):
        f = {"and": lambda a, b: a & b, "or": lambda a, b: a | b,
             "not": lambda a: ~a,
             "xor": lambda a, b: (a & ~b) | (~a & b)}[n]
        return [vec(f, *ins)]
    cs = [conc_int(a) for a in ins]
    if all(c is not None for c in cs):
        dts = [v.aval.dtype for v in eqn.invars]
        o = eqn.primitive.bind(*[jnp.asarray(c.astype(d))
                                 for c, d in zip(cs, dts)], **eqn.params)
        return [const(onp.asarray(o))]
    raise Unsupported(f"bit operation {n} on symbolic ints")


@rule("select_n")
def _select(eqn, ins):
    c, cases = ins[0], ins[1:]
    shape = cases[0].shape
    c = onp.broadcast_to(c, shape)
    out = onp.empty(shape, dtype=object)
    for i in onp.ndindex(*shape):
        ci = c[i]
        if isinstance(ci, B):
            v = ci.v
            if not isz(v):
                out[i] = cases[1][i] if v else cases[0][i]
            else:
                out[i] = ite(v, cases[1][i], cases[0][i])
        else:
            ci = el(ci)
            if ci.const():
                out[i] = cases[int(ci.re)][i]
            else:
                r = cases[-1][i]
                for k in range(len(cases) - 2, -1, -1):
                    r = ite(ci.cmp("eq", k), cases[k][i], r)
                out[i] = r
    return [out]


@rule("clamp")
def _clamp(eqn, ins):
    return [vec(lambda lo, x, hi: C.emin(C.emax(el(x), el(lo)), el(hi)), *ins)]


@rule("nextafter")
def _nextafter(eqn, ins):
    return [ins[0]]


@rule("convert_element_type")
def _convert(eqn, ins):
    dt = onp.dtype(eqn.params["new_dtype"])
    src = eqn.invars[0].aval.dtype

    def f(a):
        if isinstance(a, Opq):
            return a
        if dt == bool:
            return a if isinstance(a, B) else a.cmp("ne", 0)
        a = el(a)
        if onp.issubdtype(dt, onp.complexfloating):
            return a
        if is_int_dtype(dt) and not is_int_dtype(src) and src != bool:
            if a.const():
                return el(int(a.re))
            z = a.re
            if z3.is_int(z):
                return a
            return E(z3.If(z >= 0, z3.ToInt(z), -z3.ToInt(-z)))
        if not onp.issubdtype(dt, onp.complexfloating) and not a.isreal:
            CTX.notes.add("complex to real cast")
            return a.real
        return a
    return [vec(f, *ins)]


@rule("bitcast_convert_type")
def _bitcast(eqn, ins):
    raise Unsupported("bitcast")


@rule("iota")
def _iota(eqn, ins):
    p = eqn.params
    shape = p["shape"]
    d = p["dimension"]
    out = onp.empty(shape, dtype=object)
    for i in onp.ndindex(*shape):
        out[i] = el(i[d])
    return [out]


# ---------------------------------------------------------------- reductions
def _reduce(f, init):
    def r(eqn, ins):
        a = ins[0]
        axes = tuple(int(x) for x in eqn.params["axes"])
        keep = [d for d in range(a.ndim) if d not in axes]
        oshape = tuple(a.shape[d] for d in keep)
        out = onp.empty(oshape, dtype=object)
        for i in onp.ndindex(*oshape):
            sl = [slice(None)] * a.ndim
            for d, k in zip(keep, i):
                sl[d] = k
            items = list(onp.asarray(a[tuple(sl)], dtype=object).reshape(-1))
            if not items:
                out[i] = init()
                continue
            acc = items[0]
            for x in items[1:]:
                acc = f(acc, x)
            out[i] = acc
        return [out]
    return r


RULES["reduce_sum"] = _reduce(lambda a, b: el(a) + el(b), lambda: el(0))
RULES["reduce_prod"] = _reduce(lambda a, b: el(a) * el(b), lambda: el(1))
RULES["reduce_max"] = _reduce(lambda a, b: C.emax(el(a), el(b)),
                              lambda: el(-C.INF))
RULES["reduce_min"] = _reduce(lambda a, b: C.emin(el(a), el(b)),
                              lambda: el(C.INF))
RULES["reduce_and"] = _reduce(lambda a, b: a & b, lambda: B(True))
RULES["reduce_or"] = _reduce(lambda a, b: a | b, lambda: B(False))


@rule("argmax", "argmin")
def _arg(eqn, ins):
    a = ins[0]
    ax = int(eqn.params["axes"][0])
    mx = eqn.primitive.name == "argmax"
    a = onp.moveaxis(a, ax, -1)
    out = onp.empty(a.shape[:-1], dtype=object)
    for i in onp.ndindex(*out.shape):
        best, bi = el(a[i][0]), el(0)
        for k in range(1, a.shape[-1]):
            x = el(a[i][k])
            c = (x > best) if mx else (x < best)
            bi = ite(c, el(k), bi)
            best = ite(c, x, best)
        out[i] = bi
    return [out]


@rule("cumsum", "cumprod", "cummax", "cummin", "cumlogsumexp")
def _cum(eqn, ins):
    a = onp.moveaxis(ins[0], eqn.params["axis"], 0).copy()
    f = {"cumsum": lambda x, y: el(x) + el(y),
         "cumprod": lambda x, y: el(x) * el(y),
         "cummax": lambda x, y: C.emax(el(x), el(y)),
         "cummin": lambda x, y: C.emin(el(x), el(y))}[eqn.primitive.name]
    rev = eqn.params.get("reverse", False)
    if rev:
        a = a[::-1].copy()
    for k in range(1, a.shape[0]):
        a[k] = vec(f, onp.asarray(a[k - 1], dtype=object),
                   onp.asarray(a[k], dtype=object))[()] \
            if a.ndim == 1 else vec(f, a[k - 1], a[k])
    if rev:
        a = a[::-1]
    return [onp.moveaxis(a, 0, eqn.params["axis"])]


@rule("dot_general")
def _dot(eqn, ins):
    a, b = ins
    (lc, rc), (lb, rb) = eqn.params["dimension_numbers"]
    lc, rc, lb, rb = [list(map(int, t)) for t in (lc, rc, lb, rb)]
    lf = [d for d in range(a.ndim) if d not in lc + lb]
    rf = [d for d in range(b.ndim) if d not in rc + rb]
    at = a.transpose(lb + lf + lc)
    bt = b.transpose(rb + rf + rc)
    nb = len(lb)
    bs = at.shape[:nb]
    ls = at.shape[nb:nb + len(lf)]
    rs = bt.shape[nb:nb + len(rf)]
    cs = at.shape[nb + len(lf):]
    out = onp.empty(bs + ls + rs, dtype=object)
    for i in onp.ndindex(*bs):
        for j in onp.ndindex(*ls):
            for k in onp.ndindex(*rs):
                acc = el(0)
                for c in onp.ndindex(*cs):
                    acc = acc + el(at[i + j + c]) * el(bt[i + k + c])
                out[i + j + k] = acc
    return [out]


# --------------------------------------------------------------------- sort
def lex_lt(ka, kb, strict_tie):
    """ka < kb lexicographically, ties broken by strict_tie (bool)"""
    r = strict_tie
    for x, y in reversed(list(zip(ka, kb))):
        x, y = el(x), el(y)
        if not isz(r) and x.isreal and y.isreal:
            # lt or (eq and r): a plain comparison
            r = C.rcmp("le" if r else "lt", x.re, y.re)
            continue
        lt = C.rcmp("lt", x.re, y.re)
        eq = C.rcmp("eq", x.re, y.re)
        if not x.isreal or not y.isreal:
            lt = C.bor(lt, C.band(eq, C.rcmp("lt", x.im, y.im)))
            eq = C.band(eq, C.rcmp("eq", x.im, y.im))
        r = C.bor(lt, C.band(eq, r))
    return r


@rule("sort")
def _sort(eqn, ins):
    d = eqn.params["dimension"]
    nk = eqn.params["num_keys"]
    arrs = [onp.moveaxis(a, d, -1) for a in ins]
    outs = [onp.empty(a.shape, dtype=object) for a in arrs]
    n = arrs[0].shape[-1]
    for i in onp.ndindex(*arrs[0].shape[:-1]):
        rows = [a[i] for a in arrs]
        keys = [[el(rows[k][j]) for k in range(nk)] for j in range(n)]
        if all(x.const() for k in keys for x in k):
            order = sorted(range(n), key=lambda j: [
                (x.re, x.im) for x in keys[j]])
            for o, r in zip(outs, rows):
                for k in range(n):
                    o[i + (k,)] = r[order[k]]
            continue
        # rank_j = number of elements placed before j
        before = [[None] * n for _ in range(n)]
        for p in range(n):
            for q in range(p + 1, n):
                c = lex_lt(keys[p], keys[q], True)   # p before q (stable)
                before[p][q] = c
                before[q][p] = C.bnot(c)
        if n > 1:
            CTX.notes.add("sort keys compared as reals (no NaN)")
        rank = []
        for j in range(n):
            s = Fraction(0)
            for p in range(n):
                if p != j:
                    s = C.radd(s, C.rite(before[p][j], Fraction(1),
                                         Fraction(0)))
            rank.append(s)
        for o, r in zip(outs, rows):
            for k in range(n):
                acc = r[n - 1]
                for j in range(n - 2, -1, -1):
                    acc = ite(C.rcmp("eq", rank[j], Fraction(k)), r[j], acc)
                o[i + (k,)] = acc
    return [onp.moveaxis(o, -1, d) for o in outs]


@rule("top_k")
def _topk(eqn, ins):
    raise Unsupported("top_k")


# ------------------------------------------------------------------- linalg
EIG_MEMO = []


def _hkey(A):
    return tuple((z3.simplify(C.zr(e.re), som=True).get_id(),
                  z3.simplify(C.zr(e.im), som=True).get_id())
                 for e in A.reshape(-1))


@rule("eigh", "eigh_p")
def _eigh(eqn, ins):
    """Hermitian eigendecomposition as an uninterpreted function of the matrix
    with its defining axioms: ascending real w, V^H V = I, A V = V diag(w)."""
    A = ins[0]
    n = A.shape[-1]
    if not eqn.params.get("lower", True):
        raise Unsupported("eigh upper")
    bs = A.shape[:-2]
    V = onp.empty(bs + (n, n), dtype=object)
    W = onp.empty(bs + (n,), dtype=object)
    cplx = onp.issubdtype(eqn.invars[0].aval.dtype, onp.complexfloating)
    for b in onp.ndindex(*bs):
        args = []
        for r in range(n):
            for c in range(r + 1):
                e = el(A[b + (r, c)])
                args.append(e.re)
                if r != c and cplx:
                    args.append(e.im)
        if all(not isz(a) for a in args):
            M = onp.array([[complex(float(el(A[b + (r, c)]).re),
                                    float(el(A[b + (r, c)]).im))
                            for c in range(n)] for r in range(n)])
            w_, v_ = jnp.linalg.eigh(M if cplx else M.real)
            W[b] = const(onp.asarray(w_))
            V[b] = const(onp.asarray(v_))
            continue
        tag = f"{n}{'c' if cplx else 'r'}"
        wb = [E(C.ruf(f"eigw{tag}_{i}", *args)) for i in range(n)]
        vb = onp.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(n):
                re = C.ruf(f"eigv{tag}_{i}_{j}_re", *args)
                im = C.ruf(f"eigv{tag}_{i}_{j}_im", *args) if cplx \
                    else Fraction(0)
                vb[i, j] = E(re, im)
        for i in range(n):
            W[b + (i,)] = wb[i]
            for j in range(n):
                V[b + (i, j)] = vb[i, j]
        for i in range(n - 1):
            f = wb[i].re <= wb[i + 1].re
            CTX.axioms.append(f)
        for i in range(n):
            CTX.keep.append(wb[i].re)
            for j in range(i + 1, n):
                CTX.known_le.add((wb[i].re.get_id(), wb[j].re.get_id()))
    # jax's eigh_p returns (v, w)
    avs = [v.aval.shape for v in eqn.outvars]
    return [V, W] if len(avs[0]) == len(bs) + 2 else [W, V]


@rule("svd", "svd_p")
def _svd(eqn, ins):
    """singular values as an uninterpreted function of the matrix entries
    (descending, nonnegative); the vectors are not modelled"""
    A = ins[0]
    if eqn.params.get("compute_uv", True):
        raise Unsupported("svd with vectors")
    m, n = A.shape[-2:]
    k = min(m, n)
    bs = A.shape[:-2]
    out = onp.empty(bs + (k,), dtype=object)
    for b in onp.ndindex(*bs):
        es = [el(e) for e in A[b].reshape(-1)]
        if all(e.const() for e in es):
            Mx = onp.array([complex(float(e.re), float(e.im)) for e in es]
                           ).reshape(m, n)
            out[b] = const(onp.linalg.svd(Mx, compute_uv=False))
            continue
        args = [e.re for e in es] + [e.im for e in es]
        vs = [E(C.ruf(f"sv{m}x{n}_{i}", *args)) for i in range(k)]
        for i in range(k):
            out[b + (i,)] = vs[i]
            CTX.axioms.append(vs[i].re >= 0)
            if i:
                CTX.axioms.append(vs[i].re <= vs[i - 1].re)
    return [out]


@rule("lu", "triangular_solve", "cholesky", "qr", "eig")
def _lin(eqn, ins):
    raise Unsupported(eqn.primitive.name)


# ------------------------------------------------------------------ control
def closed(j, consts=()):
    if hasattr(j, "jaxpr"):
        return j.jaxpr, [const(c) if not isinstance(c, onp.ndarray)
                         or c.dtype != object else c for c in j.consts]
    return j, list(consts)


def call(j, ins):
    jp, cs = closed(j)
    return eval_jaxpr(jp, cs, ins)


@rule("jit", "pjit", "closed_call", "core_call", "remat", "checkpoint",
      "custom_jvp_call", "custom_vjp_call", "custom_vjp_call_jaxpr",
      "custom_lin", "run_state", "xla_call")
def _pjit(eqn, ins):
    name = eqn.params.get("name")
    if name in HOOKS:
        r = HOOKS[name](eqn, ins)
        if r is not None:
            return r
    for k in ("jaxpr", "call_jaxpr", "fun_jaxpr"):
        if k in eqn.params:
            return call(eqn.params[k], ins)
    raise Unsupported(eqn.primitive.name)


def merge(c, xs, ys):
    return [vec(lambda a, b: ite(c, a, b), x, y) for x, y in zip(xs, ys)]


@rule("cond")
def _cond(eqn, ins):
    idx, args = ins[0][()], ins[1:]
    br = eqn.params["branches"]
    if isinstance(idx, B):
        i = idx.v
        if not isz(i):
            return call(br[int(i)], args)
        return merge(i, call(br[1], args), call(br[0], args))
    if idx.const():
        k = min(max(int(idx.re), 0), len(br) - 1)
        return call(br[k], args)
    outs = [call(b, args) for b in br]
    r = outs[-1]
    for k in range(len(br) - 2, -1, -1):
        c = C.rcmp("le", idx.re, Fraction(k))
        r = merge(c, outs[k], r)
    return r


@rule("scan")
def _scan(eqn, ins):
    p = eqn.params
    nc, nk = p["num_consts"], p["num_carry"]
    consts, carry, xs = ins[:nc], ins[nc:nc + nk], ins[nc + nk:]
    L = p["length"]
    ys = [None] * L
    order = range(L - 1, -1, -1) if p["reverse"] else range(L)
    for t in order:
        out = call(p["jaxpr"], list(consts) + list(carry)
                   + [onp.asarray(x[t], dtype=object)
                      if not isinstance(x[t], onp.ndarray) else x[t]
                      for x in xs])
        carry, y = out[:nk], out[nk:]
        ys[t] = y
    ny = len(eqn.outvars) - nk
    stacked = []
    for k in range(ny):
        sh = eqn.outvars[nk + k].aval.shape
        o = onp.empty(sh, dtype=object)
        for t in range(L):
            o[t] = ys[t][k] if ys[t][k].ndim else ys[t][k][()]
        stacked.append(o)
    return list(carry) + stacked


MAX_UNROLL = 64


@rule("while")
def _while(eqn, ins):
    if "while" in HOOKS:
        r = HOOKS["while"](eqn, ins)
        if r is not None:
            return r
    p = eqn.params
    cn, bn = p["cond_nconsts"], p["body_nconsts"]
    cc, bc, carry = ins[:cn], ins[cn:cn + bn], list(ins[cn + bn:])
    hist = []          # (symbolic condition, state it was evaluated in)
    for _ in range(MAX_UNROLL):
        c = call(p["cond_jaxpr"], list(cc) + carry)[0][()]
        v = C.tb(c)
        if isz(v):
            v = z3.simplify(v)
            if z3.is_true(v):
                v = True
            elif z3.is_false(v):
                v = False
        if isz(v):
            # the loop may stop here: remember the state, follow the
            # continuing path, and choose between them at the end
            hist.append((v, carry))
        elif not v:
            for v, st in reversed(hist):
                carry = merge(v, carry, st)
            return carry
        carry = list(call(p["body_jaxpr"], list(bc) + carry))
    raise Unsupported("while bound exceeded")


# ------------------------------------------------------------------- random
@rule("random_split")
def _rsplit(eqn, ins):
    k = ins[0]
    sh = tuple(eqn.params["shape"])
    out = onp.empty(k.shape + sh, dtype=object)
    for i in onp.ndindex(*out.shape):
        out[i] = Opq("split", k[i[:k.ndim]], sh, i[k.ndim:])
    return [out]


@rule("random_fold_in")
def _rfold(eqn, ins):
    def f(a, b):
        return Opq("fold", a, b.re if b.const() else C.zr(b.re).sexpr())
    return [vec(f, *ins)]


@rule("random_wrap")
def _rwrap(eqn, ins):
    a = ins[0]
    out = onp.empty(a.shape[:-1], dtype=object)
    for i in onp.ndindex(*out.shape):
        if isinstance(a[i][0], Opq) and a[i][0].t[0] == "kd":
            out[i] = a[i][0].t[1]
        else:
            out[i] = Opq("key", tuple(int(e.re) for e in a[i]))
    return [out]


@rule("random_unwrap")
def _runwrap(eqn, ins):
    a = ins[0]
    sh = eqn.outvars[0].aval.shape
    out = onp.empty(sh, dtype=object)
    for i in onp.ndindex(*sh):
        k = a[i[:a.ndim]]
        if k.t[0] == "key":
            out[i] = el(k.t[1][i[-1]])
        else:
            out[i] = Opq("kd", k, i[-1])
    return [out]


@rule("random_seed")
def _rseed(eqn, ins):
    return [vec(lambda a: Opq("seed", a.re if a.const()
                              else C.zr(a.re).sexpr()), ins[0])]


_BITS = {}


def named(tag, key, idx, sort="Real"):
    k = (tag, key, idx)
    if k not in CTX.apps:
        CTX.apps[k] = CTX.fresh(tag, sort)
    return CTX.apps[k]


@rule("random_bits")
def _rbits(eqn, ins):
    k = ins[0]
    sh = tuple(eqn.params["shape"])
    bw = eqn.params["bit_width"]
    out = onp.empty(k.shape + sh, dtype=object)
    for i in onp.ndindex(*out.shape):
        key = (f"bits{bw}", k[i[:k.ndim]], i[k.ndim:])
        new = key not in CTX.apps
        z = named(key[0], key[1], key[2], "Int")
        if new:
            CTX.axioms.append(z3.And(z >= 0, z < 2 ** bw))
        out[i] = E(z)
    return [out]


def _draw(tag, eqn, ins):
    """a draw from a distribution: one unconstrained real per key and entry"""
    k = ins[0]
    if k.shape != () or not isinstance(k[()], Opq) or len(eqn.outvars) != 1:
        return None
    sh = tuple(eqn.outvars[0].aval.shape)
    out = onp.empty(sh, dtype=object)
    for i in onp.ndindex(*sh):
        out[i] = E(named(tag, k[()], i))
    return out


def _normal_hook(eqn, ins):
    r = _draw("normal", eqn, ins)
    return None if r is None else [r]


HOOKS["_normal_real"] = _normal_hook


@rule("debug_callback", "debug_print")
def _dbg(eqn, ins):
    return []


def _host(a, dtype):
    """argument of a host callback: machine values where they are known"""
    try:
        if all(isinstance(e, E) and e.const() for e in a.reshape(-1)):
            r = onp.asarray([complex(e.re, e.im) if not e.isreal else
                             (int(e.re) if e.re.denominator == 1 else
                              float(e.re)) for e in a.reshape(-1)])
            return r.reshape(a.shape).astype(dtype)
        if all(isinstance(e, B) and not isz(e.v) for e in a.reshape(-1)):
            return onp.asarray([e.v for e in a.reshape(-1)]).reshape(a.shape)
    except (TypeError, OverflowError, AttributeError):
        pass
    return a if a.shape else a[()]


@rule("io_callback", "pure_callback")
def _cb(eqn, ins):
    """the callback itself is run on the symbolic values; where it cannot be,
    its results are unconstrained"""
    import contextlib, io
    cb = eqn.params["callback"]
    try:
        tree, f = cb.in_tree, cb.callback_func
        args, kw = jax.tree.unflatten(tree, [
            _host(onp.asarray(x, object), v.aval.dtype)
            for x, v in zip(ins, eqn.invars)])
        with contextlib.redirect_stdout(io.StringIO()):
            res = f(*args, **kw)
        outs = []
        for r, v in zip(jax.tree.leaves(
                res, is_leaf=lambda x: isinstance(x, (E, B, onp.ndarray))),
                eqn.outvars):
            if not isinstance(r, (E, B, onp.ndarray)):
                r = onp.asarray(r, v.aval.dtype)
            if isinstance(r, (E, B)):
                o = onp.empty((), object)
                o[()] = r
                r = o
            r = const(r)
            if r.shape != v.aval.shape:
                raise Unsupported("callback shape")
            outs.append(r)
        if len(outs) == len(eqn.outvars):
            return outs
    except (Unsupported, TypeError, ValueError, AttributeError):
        pass
    outs = []
    for v in eqn.outvars:
        kind = "complex" if onp.issubdtype(
            v.aval.dtype, onp.complexfloating) else "real"
        CTX.nfresh += 1
        outs.append(C.sym(f"cb{CTX.nfresh}", v.aval.shape, kind))
    CTX.notes.add("host callback results unconstrained")
    return outs


# -------------------------------------------------------------------- driver
def eval_jaxpr(jaxpr, consts, args):
    env = {}

    def read(v):
        if isinstance(v, Literal) or hasattr(v, "val"):
            return const(onp.asarray(v.val))
        return env[v]

    def write(v, x):
        env[v] = x

    for v, c in zip(jaxpr.constvars, consts):
        write(v, c)
    for v, a in zip(jaxpr.invars, args):
        write(v, a)
    for eqn in jaxpr.eqns:
        ins = [read(v) for v in eqn.invars]
        n = eqn.primitive.name
        CTX.prims.add(n)
        if n in RULES:
            outs = RULES[n](eqn, ins)
        elif n in IDENT:
            outs = list(ins)
        elif n in MOVE:
            outs = move(eqn, ins)
        else:
            raise Unsupported(f"primitive {n}")
        for v, o in zip(eqn.outvars, outs):
            if tuple(o.shape) != tuple(v.aval.shape):
                raise AssertionError(
                    f"interpreter shape bug {n}: {o.shape} {v.aval.shape}")
            write(v, o)
    return [read(v) for v in jaxpr.outvars]


DT = {"real": jnp.float64, "complex": jnp.complex128, "int": jnp.int32,
      "bool": jnp.bool_}


def trace(fn, specs):
    """trace fn(*args) -> (closed_jaxpr, out_treedef).
    specs: pytree args with leaves jax.ShapeDtypeStruct or concrete arrays"""
    cj, oshape = jax.make_jaxpr(fn, return_shape=True)(*specs)
    return cj, jax.tree.structure(oshape)


def run(fn, specs, symargs):
    """symbolically execute fn on symargs (pytrees of object arrays that match
    the ShapeDtypeStruct leaves of specs). Returns pytree of object arrays."""
    cj, td = trace(fn, specs)
    flat = jax.tree.leaves(symargs, is_leaf=lambda x: isinstance(
        x, onp.ndarray))
    outs = eval_jaxpr(cj.jaxpr, [const(c) for c in cj.consts], flat)
    return jax.tree.unflatten(td, outs)


def spec(shape, kind="real"):
    return jax.ShapeDtypeStruct(tuple(shape), DT[kind])
