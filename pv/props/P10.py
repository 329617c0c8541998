"""Gradients: grad_input and grad_params of compiled models (real module
chains, PyTree inputs and outputs, non-sequential graphs, eigenvalue models)
are traced with symbolic inputs and parameters and proved equal to derivatives
of the model's definition computed with dual numbers (independent of JAX), in
forward, reverse and default mode, batched or not, per sample."""
from pv.props.common import *


def F32(c):
    return not c.name.startswith("stateful")

from pv.props.spies import Spy, Mix, Split, Gen
from .P01 import ref_affine
from .P04 import eig

ASSUMPTIONS = ["polynomial and piecewise linear models over the reals; "
               "tanh is uninterpreted with derivative 1 - tanh^2; eigenvalue "
               "derivatives are v^H (dH/dx) v with (w, v) the uninterpreted "
               "eigh of the matrix", "away from kinks of the activation"]
F = ["model.Model.grad_input", "model.Model.grad_params",
     "model_util.autobatch"]


class D:
    """dual number over E"""
    __slots__ = ("v", "d")
    __array_priority__ = 1000

    def __init__(self, v, d=None):
        self.v, self.d = v, (d or el(0))

    def __add__(self, o):
        o = dl(o)
        return D(self.v + o.v, self.d + o.d)
    __radd__ = __add__

    def __sub__(self, o):
        o = dl(o)
        return D(self.v - o.v, self.d - o.d)

    def __mul__(self, o):
        o = dl(o)
        return D(self.v * o.v, self.v * o.d + self.d * o.v)
    __rmul__ = __mul__


def dl(x):
    return x if isinstance(x, D) else D(el(x))


def lift(t):
    return jax.tree.map(lambda a: wrap(a), t, is_leaf=is_arr)


def wrap(a):
    a = onp.asarray(a, object)
    r = onp.empty(a.shape, object)
    for i in onp.ndindex(*a.shape):
        r[i] = D(a[i])
    return r


def leaves(t):
    return jax.tree.leaves(t, is_leaf=is_arr)


def jac(f, args, which, n_in=0):
    """d f / d args[which]: tree of the output; under each leaf a tree like
    args[which]; leaf shape out.shape + arg.shape"""
    base = [lift(a) for a in args]
    y0 = f(*base)
    ytd = jax.tree.structure(y0, is_leaf=is_arr)
    atd = jax.tree.structure(args[which], is_leaf=is_arr)
    al = leaves(args[which])
    yl = leaves(y0)
    res = [[onp.full(onp.shape(y) + onp.shape(a), el(0), object)
            for a in al] for y in yl]
    for k, a in enumerate(al):
        a = onp.asarray(a, object)
        for i in onp.ndindex(*a.shape):
            ins = [lift(t) for t in args]
            leaves(ins[which])[k][i] = D(a[i], el(1))
            y = leaves(f(*ins))
            for r, yy in enumerate(y):
                yy = onp.asarray(yy, object)
                for j in onp.ndindex(*yy.shape):
                    res[r][k][j + i] = dl(yy[j]).d
    return jax.tree.unflatten(ytd, [jax.tree.unflatten(atd, r) for r in res])


def per_sample(f, prm, x):
    """reference for grad_input: every sample on its own"""
    N = leaves(x)[0].shape[0]
    js = [jac(lambda p, u: f(p, u), [prm, jax.tree.map(
        lambda a: a[i], x, is_leaf=is_arr)], 1) for i in range(N)]
    td = jax.tree.structure(js[0], is_leaf=is_arr)
    ls = [leaves(j) for j in js]
    return jax.tree.unflatten(td, [onp.stack([l[k] for l in ls])
                                   for k in range(len(ls[0]))])


def per_sample_p(f, prm, x):
    N = leaves(x)[0].shape[0]
    js = [jac(lambda p, u: f(p, u), [prm, jax.tree.map(
        lambda a: a[i], x, is_leaf=is_arr)], 0) for i in range(N)]
    td = jax.tree.structure(js[0], is_leaf=is_arr)
    ls = [leaves(j) for j in js]
    return jax.tree.unflatten(td, [onp.stack([l[k] for l in ls])
                                   for k in range(len(ls[0]))])


def dein(s, *a):
    return onp.asarray(onp.einsum(s, *a), object)


def dtanh(e):
    e = dl(e)
    t = C.uf("tanh", e.v)
    return D(t, (el(1) - t * t) * e.d)


def dact(a, f):
    r = onp.empty(a.shape, object)
    for i in onp.ndindex(*a.shape):
        r[i] = f(a[i])
    return r


def relu(e):
    c = e.v > el(0)
    return D(ite(c, e.v, el(0)), ite(c, e.d, el(0)))


# name -> (build, input shape, params spec, f(params, one sample))
def models():
    def b1():
        return pmm.SequentialModel([M.MatMul(output_shape=3, trainable=True),
                                    M.Bias()])
    yield ("linear", b1, (2,), [S(3, 2), S(3)],
           lambda p, x: dein("ab,b->a", p[0], x) + p[1])

    def b2():
        return pmm.SequentialModel([
            M.MatMul(output_shape=2, trainable=True), M.Tanh(),
            M.MatMul(output_shape=1, trainable=True)])
    yield ("mlp tanh", b2, (3,), [S(2, 3), (), S(1, 2)],
           lambda p, x: dein("ab,b->a", p[2], dact(
               dein("ab,b->a", p[0], x), dtanh)))

    def b3():
        return pmm.SequentialModel([M.Bias(), M.Flatten(), M.MatMul(
            output_shape=2, trainable=True)])
    yield ("matrix input", b3, (2, 2), [S(2, 2), (), S(2, 4)],
           lambda p, x: dein("ab,b->a", p[2], (x + p[0]).reshape(-1)))

    def b4():
        return pmm.SequentialModel([M.Bias()])
    yield ("tree", b4, {"a": (2,), "b": [(), (1, 2)]},
           [{"a": S(2), "b": [S(), S(1, 2)]}],
           lambda p, x: {"a": x["a"] + p[0]["a"],
                         "b": [onp.asarray(u + v, object) for u, v in
                               zip(x["b"], p[0]["b"])]})

    def b5():
        return pmm.NonSequentialModel(
            {"s": Split(), "m": Mix(("u", "v")), "w": M.MatMul(
                output_shape=2, trainable=True)},
            {"input": ["s", "w"], "s.lo": "m.u", "w": "m.v",
             "m": "output.k", "s.hi": "output.h"})

    def f5(p, x):
        lo = x * p["s"]["p"]
        hi = [x * p["s"]["q"], x]
        return {"k": lo * p["m"]["u"] + dein("ab,b->a", p["w"], x)
                * p["m"]["v"], "h": hi}
    yield ("graph", b5, (2,), {"s": {"p": S(), "q": S()},
                               "m": {"u": S(), "v": S()}, "w": S(2, 2)}, f5)

    def b6():
        return pmm.SequentialModel([M.MatMul(output_shape=2, trainable=True),
                                    M.ReLU(), M.Bias()])
    yield ("relu", b6, (2,), [S(2, 2), (), S(2)],
           lambda p, x: dact(dein("ab,b->a", p[0], x), relu) + p[2])

    def b7():
        return pmm.SequentialModel([
            M.MatMul(output_shape=2, trainable=True),
            pmm.SequentialModel([M.Bias(), M.MatMul(
                output_shape=(2,), trainable=True)])])
    yield ("nested", b7, (2,), [S(2, 2), [S(2), S(2, 2)]],
           lambda p, x: dein("ab,b->a", p[1][1], dein(
               "ab,b->a", p[0], x) + p[1][0]))


def unflat(m, prm):
    return jax.tree.unflatten(jax.tree.structure(m.get_params()),
                              jax.tree.leaves(prm))


def spec_of(shape, N):
    return jax.tree.map(lambda s: S(N, *s), shape, is_leaf=lambda s:
                        isinstance(s, tuple) and all(
                            isinstance(i, int) for i in s))


def jobs(tier):
    out = []
    T = tier == "thorough"
    for name, bld, shape, ps, f in models():
        def setup(bld=bld, shape=shape):
            m = bld()
            m.compile(0, shape)
            m.set_precision(64)
            return m
        opts = [(dict(), 2), (dict(fwd=True), 2), (dict(fwd=False), 2),
                (dict(fwd=False, max_batch_size=2), 3),
                (dict(max_batch_size=1), 2)]
        if T:
            opts += [(dict(fwd=True, max_batch_size=2), 3),
                     (dict(fwd=True, max_batch_size=2,
                           avoid_recompilation=True), 3),
                     (dict(fwd=False, max_batch_size=3), 4), (dict(), 1)]
        for kw, N in opts:
            for what in ("input", "params"):
                def fn(m, prm, x, kw=kw, what=what):
                    keep = m.get_params()
                    try:
                        m.set_params(unflat(m, prm))
                        g = m.grad_input if what == "input" else \
                            m.grad_params
                        return g(x, rng=KEY, **kw)
                    finally:
                        m.set_params(keep)

                def goals(ins, o, f=f, what=what):
                    prm, x = ins
                    w = per_sample(f, prm, x) if what == "input" else \
                        per_sample_p(f, prm, x)
                    return eqs(o, w, f"grad_{what}")

                def assume(ins, name=name):
                    if name != "relu":
                        return []
                    p, x = ins
                    pre = oeinsum("ab,zb->za", p[0], x)
                    return [B(C.bnot(C.tb(e == el(0))))
                            for e in pre.reshape(-1)]
                out.append(Case(
                    f"{name} {what} {kw} N={N}".replace("'", ""),
                    [ps, spec_of(shape, N)], fn, goals, assume=assume,
                    setup=setup, funcs=F, weight=3,
                    bounds=f"{N} samples, model '{name}'"))
        # mode changes between calls, forward value unaffected
        def fn2(m, prm, x):
            keep = m.get_params()
            try:
                m.set_params(unflat(m, prm))
                r = [m.grad_input(x, rng=KEY, fwd=True),
                     m.grad_input(x, rng=KEY, fwd=False),
                     m.grad_input(x, rng=KEY),
                     m.grad_params(x, rng=KEY, fwd=False),
                     m.grad_params(x, rng=KEY, fwd=True),
                     m.grad_params(x, rng=KEY)]
                gp = m.get_params()
                return r, gp
            finally:
                m.set_params(keep)

        def goals2(ins, o, f=f):
            prm, x = ins
            r, gp = o
            a, b = per_sample(f, prm, x), per_sample_p(f, prm, x)
            gs = eqs(r, [a, a, a, b, b, b], "grads")
            return gs + eqs(leaves(gp), leaves(prm), "params unchanged")
        if name in ("linear", "mlp tanh", "graph") or T:
            out.append(Case(f"{name} mode changes",
                            [ps, spec_of(shape, 1)], fn2, goals2,
                            setup=setup, funcs=F, weight=4,
                            bounds="six gradient calls"))
    # eigenvalue model: derivative by the eigenvectors
    for kw in (dict(), dict(fwd=True), dict(fwd=False),
               dict(fwd=False, max_batch_size=1)):
        def setup():
            m = pmm.SequentialModel([
                M.AffineHermitianMatrix(matrix_size=2), M.Eigenvalues(2)])
            m.compile(0, (2,))
            m.set_precision(64)
            return m

        def fn(m, Ms, x, kw=kw):
            prm = unflat(m, [Ms])
            m.get_params = lambda: prm
            try:
                return m.grad_input(x, rng=KEY, **kw)
            finally:
                del m.get_params

        def goals(ins, o):
            Ms, x = ins
            Hs = herm(Ms)
            A = ref_affine(Hs, x, True, 0.0)
            gs = []
            for z in range(len(x)):
                w, v = eig(A[z:z + 1])
                w, v = w[0], v[0]
                for k in range(2):
                    for i in range(2):
                        d = oeinsum("a,ab,b->", onp.conjugate(v[:, k]),
                                    Hs[i + 1], v[:, k])[()]
                        gs.append(Goal("eq", o[z, k, i], E(d.re, Fraction(0)),
                                       f"d w{k} / d x{i} sample {z}"))
            return gs
        out.append(Case(f"eigenvalues input {kw}".replace("'", ""),
                        [SC(3, 2, 2), S(2, 2)], fn, goals, setup=setup,
                        funcs=F + ["modules.affinehermitianmatrix",
                                   "modules.eigenvalues"], weight=6,
                        bounds="2x2 Hermitian matrices, 2 features, 2 "
                        "samples"))
    # complex parameters, more outputs than inputs: d Re / d params
    def setupc():
        m = pmm.SequentialModel([CxMod()])
        m.compile(0, (1,))
        return m

    def fnc(m, c, x):
        keep = m.get_params()
        try:
            m.set_params(unflat(m, [c]))
            return leaves_j(m.grad_params(x, rng=KEY))
        finally:
            m.set_params(keep)

    def refc(c, x):
        # y_k = x * |c_k|^2 ; jax convention: conjugate Wirtinger pair
        # (dy/dRe - i dy/dIm) = 2 x conj(c_k)
        N = len(x)
        r = onp.full((N, 2, 2), el(0), object)
        for z in range(N):
            for k in range(2):
                r[z, k, k] = c[k].conjugate() * el(2) * x[z, 0]
        return [r]
    out.append(Case("complex parameters default mode", [SC(2), S(2, 1)], fnc,
                    ref=refc, setup=setupc, funcs=F,
                    bounds="2 complex parameters"))
    # a model with state
    def setups():
        m = pmm.SequentialModel([Spy()])
        m.compile(0, (2,))
        return m

    def fns(m, p, s, x):
        keep = m.get_params(), m.get_state()
        try:
            m.set_params(unflat(m, [p]))
            m.set_state([(s, jnp.zeros(()), jnp.zeros(()))])
            g, st = m.grad_input(x, rng=KEY, return_state=True,
                                 max_batch_size=1)
            return g, [jax.tree.leaves(q)[:2] for q in st]
        finally:
            m.set_params(keep[0])
            m.set_state(keep[1])

    def goalss(ins, o):
        p, s, x = ins
        N = len(x)
        r = onp.full((N, 2, 2), el(0), object)
        for z in range(N):
            for k in range(2):
                r[z, k, k] = p[k]
        gs = eqs(o[0], r, "grad")
        gs.append(Goal("true", B(o[1][0][0].shape == s.shape),
                       label="returned state keeps its shape"))
        return gs
    out.append(Case("stateful grad_input", [S(2), S(2), S(2, 2)], fns,
                    goalss, setup=setups, funcs=F, bounds="2 samples"))
    return out + mode_jobs(tier)


class Mode(pmm.modules.BaseModule):
    """x * q, three times that in training"""
    __version__ = "0"
    name = "Mode"

    def __init__(self):
        self.q = jnp.ones((2,))

    def is_ready(self):
        return True

    def compile(self, rng, input_shape):
        pass

    def get_output_shape(self, input_shape):
        return input_shape

    def get_hyperparameters(self):
        return {}

    def get_params(self):
        return self.q

    def set_params(self, p):
        self.q = p

    def _get_callable(self):
        return lambda p, x, t, s, r: (x * p * (3.0 if t else 1.0), s)


def mode_jobs(tier):
    """gradients are those of the model outside training, with its current
    state; the state is stored exactly when asked for"""
    def setup():
        m = pmm.SequentialModel([Gen("array", "array", 1), Mode()])
        m.compile(0, (2,))
        return m
    out = []
    for what in ("params", "input"):
        for rs, us in itertools.product((False, True), repeat=2):
            for kw, N in ((dict(), 2), (dict(fwd=True), 1),
                          (dict(fwd=False, max_batch_size=2), 3)):
                if what == "input" and (rs or us or kw):
                    continue        # known finding: stateful grad_input
                def fn(m, p, q, s, x, what=what, rs=rs, us=us, kw=kw):
                    keep = m.get_params(), m.get_state()
                    try:
                        m.set_params([p, q])
                        m.set_state([s, ()])
                        import warnings
                        with warnings.catch_warnings():
                            warnings.simplefilter("ignore")
                            r = getattr(m, "grad_" + what)(
                                x, rng=KEY, return_state=rs, update_state=us,
                                **kw)
                        g, st = r if rs else (r, None)
                        return (jax.tree.leaves(g), st[0] if rs else None,
                                m.get_state()[0], m.get_params())
                    finally:
                        m.set_params(keep[0])
                        m.set_state(keep[1])

                def goals(ins, o, what=what, rs=rs, us=us, kw=kw, N=N):
                    p, q, s, x = ins
                    g, st, own, prm = o
                    b = kw.get("max_batch_size", N)
                    gp = onp.full((N, 2, 2), el(0), object)
                    gq, gx = gp.copy(), gp.copy()
                    cur = s
                    for z in range(N):
                        if z and z % b == 0:
                            cur = cur * el(2) + p + el(1)
                        for a in range(2):
                            gp[z, a, a] = x[z, a] * q[a]
                            gq[z, a, a] = x[z, a] * (el(1) + p[a]) \
                                + cur[a] + el(1)
                            gx[z, a, a] = (el(1) + p[a]) * q[a]
                    cur = cur * el(2) + p + el(1)
                    gs = eqs(list(g), [gp, gq] if what == "params" else [gx],
                             "gradient")
                    if rs:
                        gs += eqs(st, cur, "returned state")
                    gs += eqs(own, cur if us else s, "stored state")
                    return gs + eqs(list(prm), [p, q], "parameters")
                out.append(Case(
                    f"state mode {what} return={rs} update={us} {kw} N={N}"
                    .replace("'", ""), [S(2), S(2), S(2), S(N, 2)], fn,
                    goals, setup=setup, funcs=F, bounds=f"{N} samples"))
    return out


def leaves_j(t):
    return jax.tree.leaves(t)


class CxMod(pmm.modules.BaseModule):
    """y_k = x * |c_k|^2 with complex parameters"""
    __version__ = "0"

    def __init__(self):
        self.c = jnp.zeros((2,), complex)
        self.ready = False

    def is_ready(self):
        return self.ready

    def compile(self, rng, input_shape):
        self.ready = True

    def get_output_shape(self, input_shape):
        return (2,)

    def get_hyperparameters(self):
        return {}

    def get_params(self):
        return self.c

    def set_params(self, p):
        self.c = p

    def _get_callable(self):
        def f(params, data, training, state, rng):
            return data * (params.real ** 2 + params.imag ** 2)[None], state
        return f
