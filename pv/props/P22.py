"""Input checks and precision conversions.  Sample counts and feature
dimensions are symbolic integers: the real call / gradient / train entry
points run on stand-in arrays that have only a symbolic shape and a dtype, and
the solver decides whether what is let through to the computation is exactly
the well-formed data.  Casts and precision changes are traced on symbolic
values for every module type, dtype mixture and spelling."""
from .common import *
from .zoo import *
from .P16 import world
from ..psym import PCase
import contextlib, warnings
warnings.filterwarnings("ignore")
from parametricmatrixmodels import tree_util as TU
from parametricmatrixmodels.modules import BaseModule

ASSUMPTIONS = ["dimensions between 1 and 6", "data leaves have the number of "
               "axes stated in the case", "targets have the model's output "
               "dimensions (custom losses may accept others)"]
jax.config.update("jax_traceback_filtering", "off")
AI = type(jnp.ones(2))


class Reached(BaseException):
    """the data was let through to the computation"""


class Fake:
    """an array of which only shape and dtype exist"""

    def __init__(self, shape, dtype=jnp.float32):
        self.shape, self.dtype = tuple(shape), jnp.dtype(dtype)
        self.ndim = len(self.shape)

    @property
    def __class__(self):
        return AI

    def astype(self, d, *a, **k):
        return Fake(self.shape, d)

    def __jax_array__(self, *a):
        raise Reached("value used")

    __array__ = __getitem__ = __iter__ = __len__ = __bool__ = __add__ = \
        __sub__ = __mul__ = __jax_array__

    def __repr__(self):
        return "<array>"


class Echo(BaseModule):
    """data -> data; one parameter; every computation is noted"""
    __version__ = "0"

    def __init__(self):
        self.p = jnp.ones((1,), jnp.float32)
        self.ok = False

    def is_ready(self):
        return self.ok

    def compile(self, rng, input_shape):
        self.ok = True

    def get_output_shape(self, input_shape):
        return input_shape

    def get_hyperparameters(self):
        return {}

    def get_params(self):
        return self.p

    def set_params(self, p):
        self.p = p

    def _get_callable(self):
        def f(params, data, training, state, rng):
            if any(type(x) is Fake for x in jax.tree.leaves(data)):
                raise Reached("module called")
            return jax.tree.map(lambda x: x * params[0], data), state
        return f


def real(x):
    return isinstance(x, AI) and type(x) is not Fake


@contextlib.contextmanager
def stubbed(on):
    """jit is the identity and asarray lets stand-ins pass"""
    if not on:
        yield
        return
    keep = [(jax, "jit", jax.jit), (jnp, "asarray", jnp.asarray)]

    def jit(fn=None, *a, **k):
        return fn if fn is not None else (lambda g: g)

    def asarray(x, *a, **k):
        if type(x) is Fake:
            return x
        return keep[1][2](x, *a, **k)
    jax.jit, jnp.asarray = jit, asarray
    try:
        yield
    finally:
        for o, n, v in keep:
            setattr(o, n, v)


def arr(ex, shape, dtype=jnp.float32):
    if ex.concrete:
        return jnp.ones(tuple(int(s) for s in shape), dtype)
    return Fake(shape, dtype)


def outcome(ex, f):
    """True: computed on the data; False: refused"""
    ex.opaque_str = True
    with stubbed(not ex.concrete):
        try:
            f()
            return True
        except Reached:
            return True
        except C.Unsupported:
            raise
        except Exception as e:
            if C.harness_error(e):
                raise C.Unsupported(str(e))
            if ex.concrete:
                return False
            # refused by the code's own checks, or (beyond them) by jax,
            # which cannot compute with a stand-in?
            tb = e.__traceback__
            while tb.tb_next is not None:
                tb = tb.tb_next
            f = tb.tb_frame.f_code.co_filename
            return not ("parametricmatrixmodels" in f or "jaxtyping" in f
                        or "beartype" in f)


def same(a, b):
    """symbolic equality of shapes of equal rank"""
    if len(a) != len(b):
        return False
    c = True
    for x, y in zip(a, b):
        c = (x == y) & c
    return c


def conj(*cs):
    c = True
    for x in cs:
        c = x & c
    return c


SHAPES = {"vec": (2,), "mat": (2, 3), "dict": {"a": (2,), "b": (3, 1)},
          "nest": {"a": [(2,), (1,)], "b": ((2, 2),)}}


def leaves(t):
    return jax.tree.leaves(t, is_leaf=TU.is_shape_leaf)


def dims(ex, name, k):
    return tuple(ex.int(f"{name}{i}", 1, 6) for i in range(k))


def data(ex, name, shape, extra=0, dtype=jnp.float32):
    """a data tree of the given structure with free dimensions"""
    lv = leaves(shape)
    st = jax.tree.structure(shape, is_leaf=TU.is_shape_leaf)
    sh = []
    for i, s in enumerate(lv):
        k = 1 + len(s) + (extra if i == len(lv) - 1 else 0)
        sh.append(dims(ex, f"{name}_{i}_", k))
    return jax.tree.unflatten(st, [arr(ex, s, dtype) for s in sh]), sh


def wf(sh, shape):
    """well-formed: same sample count, the compiled feature dimensions"""
    c = True
    for s, t in zip(sh, leaves(shape)):
        if len(s) != len(t) + 1:
            return False
        c = conj(c, s[0] == sh[0][0], same(s[1:], t))
    return c


def model(shape):
    m = pmm.SequentialModel([Echo()])
    m.compile(0, shape)
    return m


def eval_case(kind, sn, extra, opts):
    shape = SHAPES[sn]

    def fn(ex):
        m = model(shape)
        X, sh = data(ex, "x", shape, extra)
        got = outcome(ex, lambda: getattr(m, kind)(X, dtype=jnp.float32,
                                                   rng=KEY, **opts))
        want = wf(sh, shape)
        ex.check((want == True) == got if not isinstance(want, bool)  # noqa
                 else want == got, f"{kind} on {sn}: accepted={got}")
    return PCase(f"{kind} {sn} extra axes={extra} {opts or ''}", fn, funcs=[
        f"model.Model.{kind}", "model.Model._verify_input",
        "model_util.autobatch", "tree_util.safecast", "tree_util.get_shapes",
        "tree_util.all_equal"], bounds="all sample counts and dimensions 1..6")


def struct_case(kind, sn):
    """the data tree has another structure: never accepted"""
    shape = SHAPES[sn]
    others = ["list", "missing", "extra", "leaf", "tuple", "renamed"]

    def fn(ex):
        m = model(shape)
        o = ex.pick("o", others)
        n = ex.int("n", 1, 6)
        t = jax.tree.map(lambda s: arr(ex, (n,) + s), shape,
                         is_leaf=TU.is_shape_leaf)
        first = leaves(shape)[0]
        if o == "list":
            t = [t]
        elif o == "tuple":
            t = (t, t)
        elif o == "missing":
            if not isinstance(t, dict):
                return
            t = {k: v for k, v in t.items() if k != "b"}
        elif o == "renamed":
            if not isinstance(t, dict):
                return
            t = {{"b": "c"}.get(k, k): v for k, v in t.items()}
        elif o == "extra":
            if not isinstance(t, dict):
                return
            t = {**t, "c": arr(ex, (n,) + first)}
        else:
            if not isinstance(t, dict):
                return
            t = arr(ex, (n,) + first)
        got = outcome(ex, lambda: getattr(m, kind)(t, dtype=jnp.float32,
                                                   rng=KEY))
        ex.check(not got, f"{kind}: {o} instead of the compiled structure "
                 "was accepted")
    return PCase(f"{kind} {sn} other structures", fn, funcs=[
        f"model.Model.{kind}", "model.Model._verify_input"],
        bounds="six wrong structures, any sample count 1..6")


def notready_case(kind):
    def fn(ex):
        m = pmm.SequentialModel([Echo()])
        n = ex.int("n", 1, 6)
        got = outcome(ex, lambda: getattr(m, kind)(arr(ex, (n, 2)), rng=KEY))
        ex.check(not got, f"{kind} on a model that was never compiled")
    return PCase(f"{kind} before compile", fn, funcs=[f"model.Model.{kind}"],
                 bounds="any sample count 1..6")


def train_case(sn, part):
    """part: which arguments have free dimensions"""
    shape = SHAPES[sn]

    def fn(ex):
        m = model(shape)
        n, nv = ex.int("n", 1, 6), ex.int("nv", 1, 6)

        def good(k):
            return jax.tree.map(lambda s: arr(ex, (k,) + s), shape,
                                is_leaf=TU.is_shape_leaf), [
                (k,) + s for s in leaves(shape)]
        free = lambda nm: data(ex, nm, shape)
        has = {k: bool(ex.bool("has" + k)) for k in
               ("Y", "Yu", "Xv", "Yv", "Yvu")} if part == "presence" else \
            {"Y": True, "Yu": part in ("Yu", "Yvu"),
             "Xv": part in ("Xv", "Yv", "Yvu"),
             "Yv": part in ("Xv", "Yv", "Yvu"), "Yvu": part == "Yvu"}
        if part == "unsupervised":
            has = dict.fromkeys(has, False)
            has["Xv"] = True
        # arguments whose meaning without their partner is not defined
        ex.assume(has["Xv"] or not has["Yv"])
        ex.assume(has["Yu"] or not has["Yvu"])
        X, xs = free("x") if part in ("X", "unsupervised") else good(n)
        Y, ys = free("y") if part == "Y" else good(n)
        if part == "Y":     # only the sample counts of targets are free
            for s, t in zip(ys, leaves(shape)):
                ex.assume(same(s[1:], t))
        Yu, yus = free("u") if part == "Yu" else good(n)
        Xv, xvs = free("v") if part in ("Xv", "unsupervised") else good(nv)
        Yv, yvs = free("w") if part == "Yv" else good(nv)
        Yvu, yvus = free("q") if part == "Yvu" else good(nv)
        kw = {}
        for k, a, v in (("Y", "Y", Y), ("Yu", "Y_unc", Yu),
                        ("Xv", "X_val", Xv), ("Yv", "Y_val", Yv),
                        ("Yvu", "Y_val_unc", Yvu)):
            if has[k]:
                kw[a] = v
        y = kw.pop("Y", None)
        loss = (lambda e, X, Y, U, P: sq(P)) if has["Y"] and has["Yu"] else (
            (lambda e, X, Y, P: sq(P)) if has["Y"] else
            (lambda e, X, P: sq(P)))
        got = outcome(ex, lambda: m.train(
            X, y, loss_fn=loss, epochs=1, batch_size=1, verbose=False,
            batch_rng=0, **kw))
        pres = conj(has["Y"] or not has["Yu"], has["Y"] or not has["Yv"],
                    has["Yv"] or not has["Yvu"],
                    not (has["Yu"] and has["Yv"] and not has["Yvu"]),
                    not (has["Xv"] and has["Y"] and not has["Yv"]))
        c = conj(pres, wf(xs, shape))
        n0 = xs[0][0]
        if has["Y"]:
            for s in ys:
                c = conj(c, s[0] == n0)
        if has["Yu"]:
            for s, t in zip(yus, ys):
                c = conj(c, same(s, t))
        if has["Xv"]:
            c = conj(c, wf(xvs, shape))
        if has["Yv"]:
            for s, t in zip(yvs, ys):
                c = conj(c, s[0] == xvs[0][0], same(s[1:], t[1:]))
        if has["Yvu"]:
            for s, t in zip(yvus, yvs):
                c = conj(c, same(s, t))
        ex.check(c == got, f"train: accepted={got}")
    return PCase(f"train {sn} {part}", fn, funcs=[
        "model.Model.train", "training.train", "model.Model._verify_input",
        "tree_util.shapes_equal", "tree_util.uniform_leaf_shapes_equal"],
        bounds="sample counts and dimensions 1..6; " + part)


def sq(P):
    return sum(jnp.mean(x ** 2) for x in jax.tree.leaves(P))


# -------------------------------------------------------------------- casting
DT = {"f32": jnp.float32, "f64": jnp.float64, "c64": jnp.complex64,
      "c128": jnp.complex128, "i32": jnp.int32}
CXT = ("c64", "c128")


class Log(Echo):
    def __init__(self):
        super().__init__()
        self.seen = []

    def _get_callable(self):
        def f(params, data, training, state, rng):
            self.seen.append([x.dtype for x in jax.tree.leaves(data)])
            return data, state
        return f


def cast_case(src, dst, via):
    """src: dtype names of the leaves"""
    bad = any(s in CXT for s in src) and dst not in CXT
    shape = {"a": (2,), "b": [(1,)] * (len(src) - 1)}

    def fn(*xs):
        xs = [x.astype(DT[s]) if s != "i32" else jnp.round(
            jnp.real(x)).astype(jnp.int32) for x, s in zip(xs, src)]
        ref = [x.astype(jnp.complex128 if s in CXT else jnp.float64)
               for x, s in zip(xs, src)]
        t = {"a": xs[0], "b": xs[1:]}
        try:
            if via == "safecast":
                r = TU.safecast(t, DT[dst])
            else:
                lg = Log()
                m = pmm.SequentialModel([lg])
                m.compile(0, shape)
                r = getattr(m, via)(t, dtype=DT[dst], rng=KEY)
                for s in lg.seen:
                    if any(d != DT[dst] for d in s):
                        raise TypeError(f"{via}(dtype={dst}) computed with "
                                        f"{s}")
                if not lg.seen:
                    raise C.Unsupported("module not called")
                if via != "__call__":
                    return ref, ref
        except ValueError:
            if bad:
                return ref, ref
            raise
        if bad:
            raise TypeError(f"complex data was cast to {dst}")
        if jax.tree.structure(r) != jax.tree.structure(t):
            raise TypeError("cast changed the structure")
        lv = jax.tree.leaves(r)
        for x in lv:
            if x.dtype != DT[dst]:
                raise TypeError(f"leaf has dtype {x.dtype}, not {dst}")
        return lv, ref

    def goals(ins, out):
        g = []
        for a, b in zip(*out):
            g += eqs(a, b, f"value cast to {dst}")
        return g
    return Case(f"{via} {'+'.join(src)} to {dst}",
                [SC(2, 2) if src[0] in CXT else S(2, 2)] +
                [SC(2, 1) if s in CXT else S(2, 1) for s in src[1:]],
                fn, goals, tol=1e-4, funcs=["tree_util.safecast",
                                            "model.Model." + via],
                bounds="values representable in both precisions; leaf dtypes "
                + ", ".join(src))


P32 = [32, "f32", "c64", "single", "float32", "complex64", jnp.float32,
       jnp.complex64]
P64 = [64, "f64", "c128", "double", "float64", "complex128", jnp.float64,
       jnp.complex128]


def prec_case(z, via):
    def setup():
        return z.build()

    def inputs(m):
        return [pspec(m), sspec(m)]

    def fn(m, ps, ss):
        with world():
            put(m, ps, ss)
            st = jax.tree.structure((m.get_params(), m.get_state()))
            out = []
            for bits, spell in [(b, s) for b, l in ((32, P32), (64, P64),
                                                    (32, P32[:1]))
                                for s in l]:
                if via == "astype":
                    if not isinstance(spell, (str, type)) and not hasattr(
                            spell, "dtype"):
                        continue
                    try:
                        r = m.astype(spell)
                    except Exception as e:
                        # a dtype-like argument is documented
                        if isinstance(spell, str) and spell in (
                                "f32", "c64", "single", "f64", "c128",
                                "double"):
                            continue
                        raise
                    if r is not m:
                        raise TypeError("astype returned another object")
                else:
                    m.set_precision(spell)
                p, s = m.get_params(), m.get_state()
                if jax.tree.structure((p, s)) != st:
                    raise TypeError("precision changed the structure")
                for a, b in zip(jax.tree.leaves((p, s)), ps + ss):
                    cx = jnp.iscomplexobj(b)
                    want = {32: (jnp.float32, jnp.complex64),
                            64: (jnp.float64, jnp.complex128)}[bits][cx]
                    if a.dtype != want:
                        raise TypeError(f"precision {spell}: leaf is "
                                        f"{a.dtype}, not {want}")
                    if a.shape != b.shape:
                        raise TypeError("precision changed a shape")
                out = jax.tree.leaves((p, s))
            for w in (16, "half", "int32", "float16", jnp.int32, 128, 0):
                try:
                    m.set_precision(w)
                except Exception:
                    continue
                raise TypeError(f"precision {w} was accepted")
            return out

    def goals(ins, out):
        g = []
        for a, b in zip(out, list(ins[0]) + list(ins[1])):
            g += eqs(a, b, "value after precision changes")
        return g
    return Case(f"precision {z.name} {via}", inputs, fn, goals, setup=setup,
                tol=1e-4, funcs=["modules.basemodule.BaseModule.set_precision",
                                 "model.Model.set_precision",
                                 "BaseModule.astype", "Model.astype"],
                bounds="all parameter and state values representable in "
                "single precision; every documented spelling")


def jobs(tier):
    q = tier == "quick"
    out = []
    for kind in ("__call__", "grad_input", "grad_params"):
        for sn in SHAPES:
            for extra in (-1, 0, 1):
                out.append(eval_case(kind, sn, extra, {}))
            out.append(struct_case(kind, sn))
        out.append(eval_case(kind, "dict", 0, {"max_batch_size": 2}))
        out.append(notready_case(kind))
    for sn in ("vec", "dict", "nest"):
        for part in ("X", "Y", "Yu", "Xv", "Yv", "Yvu", "presence",
                     "unsupervised"):
            out.append(train_case(sn, part))
    for dst in ("f32", "f64", "c64", "c128"):
        for src in (("f32",), ("f64",), ("c64",), ("c128",), ("i32",)):
            out.append(cast_case(src, dst, "safecast"))
        for src in (("f32", "c64", "f64"), ("f64", "f32", "c128"),
                    ("c128", "f64", "f32"), ("f32", "f64", "i32"),
                    ("c64", "c128", "f32")):
            out.append(cast_case(src, dst, "safecast"))
            out.append(cast_case(src, dst, "__call__"))
        for via in ("grad_input", "grad_params"):
            if dst in CXT:      # gradients of real functions only
                continue
            for src in (("f32", "f64", "f64"), ("f64", "f32", "c64")):
                out.append(cast_case(src, dst, via))
    for z in zoo():
        out.append(prec_case(z, "set_precision"))
        out.append(prec_case(z, "astype"))
    return out
