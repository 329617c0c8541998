"""Modules used only by the harnesses: their behaviour is simple and every
piece of what they are given (data, params, state, key, training flag) shows
in what they return."""
import jax
import jax.numpy as jnp
from parametricmatrixmodels.modules import BaseModule


class Spy(BaseModule):
    """per leaf: out = x * p + s, plus noise u drawn from the given key;
    state (s, n) -> (s + p, n*2 + training); u is stored in the state"""
    __version__ = "0"

    def __init__(self, n=2, noise=False, uses_state=True):
        self.n, self.noise, self.uses_state = n, noise, uses_state
        self.p = jnp.zeros((n,))
        self.s = (jnp.zeros((n,)), jnp.zeros(()), jnp.zeros(()))
        self.ready = False

    def is_ready(self):
        return self.ready

    def compile(self, rng, input_shape):
        self.ready = True

    def get_output_shape(self, input_shape):
        return input_shape

    def get_hyperparameters(self):
        return {"n": self.n, "noise": self.noise, "ready": self.ready}

    def get_params(self):
        return self.p

    def set_params(self, params):
        self.p = params

    def get_state(self):
        return self.s

    def set_state(self, state):
        self.s = state

    def _get_callable(self):
        def f(params, data, training, state, rng):
            s, n, u0 = state
            u = jax.random.bits(rng, (), jnp.uint32).astype(
                jnp.float64) / 2.0 ** 32
            nz = u if self.noise else 0.0
            out = jax.tree.map(lambda x: x * params + s + nz, data)
            return out, (s + params, n * 2 + (1.0 if training else 0.0), u)
        return f


class Mix(BaseModule):
    """several named inputs -> sum_i w_i * in_i (weights by sorted name);
    stateless; params are the weights"""
    __version__ = "0"

    def __init__(self, names=("a",), n=2):
        self.names, self.n = tuple(names), n
        self.p = {k: jnp.zeros(()) for k in self.names}
        self.ready = False

    def is_ready(self):
        return self.ready

    def compile(self, rng, input_shape):
        self.ready = True

    def get_output_shape(self, input_shape):
        return (self.n,)

    def get_hyperparameters(self):
        return {"names": self.names, "n": self.n}

    def get_params(self):
        return self.p

    def set_params(self, params):
        self.p = params

    def _get_callable(self):
        def f(params, data, training, state, rng):
            acc = 0.0
            for k in self.names:
                acc = acc + params[k] * data[k]
            return acc, state
        return f


class Split(BaseModule):
    """x -> {"lo": p*x, "hi": [q*x, x]}"""
    __version__ = "0"

    def __init__(self, n=2):
        self.n = n
        self.p = {"p": jnp.zeros(()), "q": jnp.zeros(())}
        self.ready = False

    def is_ready(self):
        return self.ready

    def compile(self, rng, input_shape):
        self.ready = True

    def get_output_shape(self, input_shape):
        return {"lo": input_shape, "hi": [input_shape, input_shape]}

    def get_hyperparameters(self):
        return {"n": self.n}

    def get_params(self):
        return self.p

    def set_params(self, params):
        self.p = params

    def _get_callable(self):
        def f(params, data, training, state, rng):
            return {"lo": params["p"] * data,
                    "hi": [params["q"] * data, data]}, state
        return f


class Quad(BaseModule):
    """out = p * x ** 2 elementwise"""
    __version__ = "0"

    def __init__(self, n=2):
        self.n = n
        self.p = jnp.ones((n,))
        self.ready = False

    def is_ready(self):
        return self.ready

    def compile(self, rng, input_shape):
        self.ready = True

    def get_output_shape(self, input_shape):
        return input_shape

    def get_hyperparameters(self):
        return {"n": self.n, "ready": self.ready}

    def set_hyperparameters(self, h):
        self.n, self.ready = h["n"], h["ready"]

    def get_params(self):
        return self.p

    def set_params(self, params):
        self.p = params

    def _get_callable(self):
        def f(params, data, training, state, rng):
            return params * data ** 2, state
        return f


class Duo(BaseModule):
    """{"c": (1,), "x": (n,)} -> {"u": a*x**2 + b*c*x, "v": [(a+b)*x**2]}"""
    __version__ = "0"

    def __init__(self, n=1):
        self.n = n
        self.p = {"a": jnp.ones((n,)), "b": jnp.ones(())}
        self.ready = False

    def is_ready(self):
        return self.ready

    def compile(self, rng, input_shape):
        self.ready = True

    def get_output_shape(self, input_shape):
        return {"u": (self.n,), "v": [(self.n,)]}

    def get_hyperparameters(self):
        return {"n": self.n, "ready": self.ready}

    def set_hyperparameters(self, h):
        self.n, self.ready = h["n"], h["ready"]

    def get_params(self):
        return self.p

    def set_params(self, params):
        self.p = params

    def _get_callable(self):
        def f(params, data, training, state, rng):
            x, c = data["x"], data["c"]
            return {"u": params["a"] * x ** 2 + params["b"] * c * x,
                    "v": [(params["a"] + params["b"]) * x ** 2]}, state
        return f


def _kind(k, z):
    return {"none": None, "empty": (), "array": z(2), "scalar": z(),
            "dict": {"b": z(), "a": z(2)}, "tuple": (z(), (z(2), z())),
            "list": [z(), {"k": z(2)}], "hollow": ((), {"e": z()}, ()),
            }[k]


class Gen(BaseModule):
    """parameters and state of a chosen structure (see _kind), each possibly
    absent; per data leaf out = x*(1 + sum (i+1) p_i) + sum (j+1) s_j + id,
    state s_j -> s_j*(j+2) + sum p + training + id"""
    __version__ = "0"

    def __init__(self, pk="array", sk="array", id=1):
        self.pk, self.sk, self.id = pk, sk, id
        z = lambda *s: jnp.zeros(s)
        self.p, self.s = _kind(pk, z), _kind(sk, z)
        self.ready = False

    def is_ready(self):
        return self.ready

    def compile(self, rng, input_shape):
        self.ready = True

    def get_output_shape(self, input_shape):
        return input_shape

    def get_hyperparameters(self):
        return {"pk": self.pk, "sk": self.sk, "id": self.id,
                "ready": self.ready}

    def set_hyperparameters(self, h):
        self.pk, self.sk, self.id, self.ready = (
            h["pk"], h["sk"], h["id"], h["ready"])

    def get_params(self):
        return self.p

    def set_params(self, params):
        self.p = params

    def get_state(self):
        return self.s

    def set_state(self, state):
        self.s = state

    @staticmethod
    def new(p, s, training, id):
        """leaf lists -> (scale, shift, new state leaves), for arrays of any
        kind"""
        scale, tot = 1, None
        for i, v in enumerate(p):
            scale = scale + v * (i + 1)
            tot = v if tot is None else tot + v
        shift = id
        for j, v in enumerate(s):
            shift = shift + v * (j + 1)
        ns = []
        for j, v in enumerate(s):
            w = v * (j + 2) + (1 if training else 0) + id
            if tot is not None:
                w = w + (tot if getattr(v, "shape", ()) else tot.sum())
            ns.append(w)
        return scale, shift, ns

    def _get_callable(self):
        def f(params, data, training, state, rng):
            sl, st = jax.tree.flatten(state)
            scale, shift, ns = Gen.new(jax.tree.leaves(params), sl, training,
                                       self.id)
            return (jax.tree.map(lambda x: x * scale + shift, data),
                    jax.tree.unflatten(st, ns))
        return f
