"""helpers to drive Model.train under tracing"""
import contextlib, io, signal
from pv.props.common import *
from parametricmatrixmodels.modules import BaseModule


class Count(BaseModule):
    """y -> {"y": y, "n": steps}; the state counts training steps (and is
    spoiled by adding 1000 whenever it is called outside training)"""
    __version__ = "0"

    def __init__(self):
        self.s = (jnp.zeros(()),)

    def is_ready(self):
        return True

    def compile(self, rng, input_shape):
        pass

    def get_output_shape(self, input_shape):
        return {"y": input_shape, "n": (1,), "t": (1,)}

    def get_hyperparameters(self):
        return {}

    def set_hyperparameters(self, h):
        pass

    def get_params(self):
        return ()

    def set_params(self, p):
        pass

    def get_state(self):
        return self.s

    def set_state(self, s):
        self.s = s

    def _get_callable(self):
        def f(params, data, training, state, rng):
            n = state[0]
            N = jax.tree.leaves(data)[0].shape[0]
            out = {"y": data, "n": jnp.broadcast_to(n, (N, 1)),
                   "t": jnp.broadcast_to(jnp.where(training, 1.0, 0.0),
                                         (N, 1))}
            return out, (n + jnp.where(training, 1.0, 1000.0),)
        return f


class Tick(Count):
    """y -> y with the number of training steps appended as a column"""

    def get_output_shape(self, input_shape):
        return (input_shape[0] + 1,)

    def _get_callable(self):
        f0 = Count._get_callable(self)

        def f(params, data, training, state, rng):
            o, st = f0(params, data, training, state, rng)
            return jnp.concatenate([o["y"], o["n"]], axis=1), st
        return f


class Acc(BaseModule):
    """passes data on; state collects (sum of rows, rows, calls) in training"""
    __version__ = "0"

    def __init__(self, n=2):
        self.n = n
        self.s = (jnp.zeros((n,)), jnp.zeros(()), jnp.zeros(()))

    def is_ready(self):
        return True

    def compile(self, rng, input_shape):
        pass

    def get_output_shape(self, input_shape):
        return input_shape

    def get_hyperparameters(self):
        return {"n": self.n}

    def set_hyperparameters(self, h):
        self.n = h["n"]

    def get_params(self):
        return ()

    def set_params(self, p):
        pass

    def get_state(self):
        return self.s

    def set_state(self, s):
        self.s = s

    def _get_callable(self):
        def f(params, data, training, state, rng):
            a, r, c = state
            t = jnp.where(training, 1.0, 0.0)
            return data, (a + t * data.sum(0), r + t * data.shape[0], c + t)
        return f


class Draws(Acc):
    """passes data on; state holds the draw of every training step"""

    def __init__(self, n=2):
        self.n = n
        self.s = (jnp.zeros((n,)), jnp.zeros((), jnp.int32))

    def set_state(self, s):
        self.s = (s[0], s[1].astype(jnp.int32))

    def _get_callable(self):
        def f(params, data, training, state, rng):
            d, c = state
            x = jax.random.normal(rng).astype(d.dtype)
            if training:
                d = jnp.where(jnp.arange(self.n) == c, x, d)
                c = c + 1
            return data, (d, c)
        return f


class DictBias(Acc):
    """adds both of its parameters"""

    def __init__(self, trainable=True, n=2):
        self.n = n
        self.p = {"a": jnp.zeros((n,)), "b": [jnp.zeros((n,))]}
        self.trainable = trainable

    def get_params(self):
        return self.p

    def set_params(self, p):
        self.p = p

    def get_state(self):
        return ()

    def set_state(self, s):
        pass

    def _get_callable(self):
        def f(params, data, training, state, rng):
            return data + params["a"] + params["b"][0], state
        return f


class LastRow(Acc):
    """passes data on; state is the last row seen in training"""

    def __init__(self, n=2):
        self.n = n
        self.s = (jnp.zeros((n,)),)

    def _get_callable(self):
        def f(params, data, training, state, rng):
            return data, ((data[-1],) if training else state)
        return f


@contextlib.contextmanager
def quiet():
    """verbose code without its output and signal handlers"""
    sig = {k: signal.getsignal(k) for k in (signal.SIGINT, signal.SIGTERM)}
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            yield
    finally:
        for k, h in sig.items():
            signal.signal(k, h)


def train(m, prm, X, Y=None, state0=None, then=(), opt=None, **kw):
    """set params, train, return (param leaves, state); m is left as it was.
    then: further (X, Y, kw) trainings with resume=True"""
    keep = (m.get_params(), m.get_state(), m.get_rng(),
            getattr(m, "_optimizer_state", None))
    td = jax.tree.structure(keep[0])
    args = dict(verbose=False, batch_rng=C.seed(0))
    args.update(kw)
    try:
        m.set_params(jax.tree.unflatten(td, jax.tree.leaves(prm)))
        if state0 is not None:
            m.set_state(state0)
        if args["verbose"]:
            with quiet():
                m.train(X, Y, **args)
                jax.block_until_ready([
                    l for l in jax.tree.leaves(m.get_params())
                    if not isinstance(l, jax.core.Tracer)])
        else:
            m.train(X, Y, **args)
        for X_, Y_, k in then:
            m.train(X_, Y_, resume=True, **{**args, **k})
        if opt is not None:
            return opt(m)
        return jax.tree.leaves(m.get_params()), m.get_state()
    finally:
        m.set_params(keep[0])
        m.set_state(keep[1])
        m.set_rng(keep[2])
        m._optimizer_state = keep[3]


def clip(g, c):
    if c is None:
        return g
    c = el(c)
    return C.emin(C.emax(g, -c), c)


class Adam:
    """reference: one scalar parameter"""

    def __init__(self, x, b1, b2, eps, lr, c=None):
        self.x, self.b1, self.b2 = el(x), el(b1), el(b2)
        self.eps, self.lr, self.c = el(eps), lr, c
        self.m = self.v = el(0)

    def step(self, g, t):
        """t: number of completed epochs"""
        g = el(g)
        if not g.isreal:
            g = E(clip(g.real, self.c).re, clip(g.imag, self.c).re)
        else:
            g = clip(g, self.c)
        one = el(1)
        self.m = self.b1 * self.m + (one - self.b1) * g
        self.v = self.b2 * self.v + (one - self.b2) * g.abs2()
        mh = self.m / (one - self.b1 ** (t + 1))
        vh = self.v / (one - self.b2 ** (t + 1))
        lr = self.lr(t) if callable(self.lr) else self.lr
        self.x = self.x - el(lr) * mh / (C.uf("sqrt", vh) + self.eps)
        return self.x
