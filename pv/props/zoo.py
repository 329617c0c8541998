"""module and model configurations shared by the checks that must hold for
every module type"""
from .common import *
from .spies import Spy, Mix, Split, Gen
from .trainlib import Count, Acc
from parametricmatrixmodels.modules import FuncBase


class Poly(FuncBase):
    """user function module: x -> {"y": a*x*x + b, "x": x}"""
    __version__ = "0"

    def __init__(self, a=1.0, b=0.0):
        self.a, self.b = a, b

    @property
    def name(self):
        return f"Poly({self.a}, {self.b})"

    def get_hyperparameters(self):
        return {"a": self.a, "b": self.b}

    def f(self, data):
        return {"y": self.a * data * data + self.b, "x": data}


class Z:
    def __init__(self, name, mk, shape, cx=False):
        self.name, self.mk, self.shape, self.cx = name, mk, shape, cx

    def build(self):
        m = self.mk()
        m.compile(jax.random.key(7), self.shape)
        return m

    def xspec(self, N=2):
        from parametricmatrixmodels.tree_util import is_shape_leaf
        return jax.tree.map(
            lambda s: ((N,) + tuple(s), "complex" if self.cx else "real"),
            self.shape, is_leaf=lambda s: isinstance(s, tuple) and all(
                isinstance(i, int) for i in s))


def pspec(m):
    """symbolic input specification for the parameter leaves of m"""
    return [(tuple(p.shape), "complex" if jnp.iscomplexobj(p) else "real")
            for p in jax.tree.leaves(m.get_params())]


def sspec(m):
    return [(tuple(p.shape), "complex" if jnp.iscomplexobj(p) else "real")
            for p in jax.tree.leaves(m.get_state())]


def put(m, ps=None, ss=None):
    """set parameter and state leaves; values the module itself refuses are
    outside the checks that use this"""
    if ps:
        t = jax.tree.unflatten(jax.tree.structure(m.get_params()), ps)
        try:
            m.set_params(t)
        except ValueError as e:
            raise C.Unsupported(f"parameters refused: {e}")
    if ss:
        m.set_state(jax.tree.unflatten(jax.tree.structure(m.get_state()), ss))


def seq(*mods, **k):
    return pmm.SequentialModel(list(mods), **k)


def named(m, n):
    m.name = n
    return m


def frozen(m):
    m.trainable = False
    return m


def nonseq():
    return pmm.NonSequentialModel(
        {"a": M.Bias(), "f": M.MatMul(output_shape=2, trainable=True),
         "m": M.ConcatenateLeaves(path_order=["1", "0"])},
        {"input": ["a", "f"], "a": "m", "f": "m", "m": "output"})


def nonseq2():
    return pmm.NonSequentialModel(
        {"enc": {"l": M.Bias(), "r": M.PReLU()},
         "dec": M.TreeFlatten() if False else M.ConcatenateLeaves()},
        {"input.u": "enc.l", "input.v": "enc.r", "enc.l": "dec",
         "enc.r": ["dec", "output.r"], "dec": "output.d"})


def Acc1():
    return Acc(1)


def zoo():
    o = []

    def a(name, mk, shape, cx=False):
        o.append(Z(name, mk, shape, cx))
    H_ = M.AffineHermitianMatrix
    a("AHM", lambda: H_(2), (2,))
    a("AHM smooth nobias", lambda: H_(2, smoothing=0.5, bias_term=False),
      (2,))
    a("AT", lambda: M.AffineTensor((2, 3)), (2,))
    a("AT complex nobias", lambda: M.AffineTensor((2,), bias_term=False,
                                                  real=False), (3,))
    a("LR", lambda: M.LowRankAffineHermitianMatrix(3, 2, smoothing=0.25),
      (2,))
    a("LR nobias", lambda: M.LowRankAffineHermitianMatrix(
        2, 1, bias_term=False), (2,))
    for w, k in (("LM", 2), ("IA", 1), ("SA", None)):
        a(f"EV {w} {k}", lambda k=k, w=w: M.Eigenvalues(k, w), (3, 3))
        a(f"EVec {w} {k}", lambda k=k, w=w: M.Eigenvectors(k, w), (3, 3))
        a(f"ES {w} {k}", lambda k=k, w=w: M.Eigensystem(k, w), (3, 3))
    for c in (True, False):
        a(f"TAS centred={c}", lambda c=c: M.TransitionAmplitudeSum(
            num_observables=2, output_size=2, centered=c), (2, 2))
        a(f"EVS centred={c}", lambda c=c: M.ExpectationValueSum(
            num_observables=1, output_size=2, centered=c), (2, 2))
    a("AEPMM", lambda: M.AffineEigenvaluePMM(matrix_size=2, num_eig=2,
                                             which="LM", smoothing=0.5), (2,))
    a("AEPMM nobias", lambda: M.AffineEigenvaluePMM(
        matrix_size=2, bias_term=False), (1,))
    a("AOPMM", lambda: M.AffineObservablePMM(
        matrix_size=2, num_eig=1, which="LA", output_size=2), (1,))
    a("AOPMM expect", lambda: M.AffineObservablePMM(
        matrix_size=2, num_eig=1, which="SA", output_size=1,
        num_secondaries=2, use_expectation_values=True, centered=False,
        bias_term=False, affine_bias_matrix=False, smoothing=0.5), (1,))
    a("Bias", lambda: M.Bias(), (2, 1))
    a("Bias complex", lambda: M.Bias(real=False), (2,))
    a("Bias scalar", lambda: M.Bias(scalar=True), (2, 2))
    a("Bias tree", lambda: M.Bias(), {"a": (2,), "b": [(1, 2), (1,)]})
    a("Bias frozen", lambda: M.Bias(jnp.array([1., 2.]), trainable=False),
      (2,))
    a("MatMul", lambda: M.MatMul(output_shape=3, trainable=True), (2,))
    a("MatMul fixed", lambda: M.MatMul(jnp.array([[1., 2.], [3., 4.]])), (2,))
    a("MatMul tree", lambda: M.MatMul(
        path_order=["q/b", "//", "q/a"], trainable=True, separator="/"),
      {"q": {"a": (2, 3), "b": (3, 2)}})
    a("MatMul data", lambda: M.MatMul(path_order=["b", "a"]),
      {"a": (2, 3), "b": (3, 2)})
    a("MatMul complex", lambda: M.MatMul(output_shape=2, trainable=True,
                                         real=False), (2,))
    a("LinearNN", lambda: M.LinearNN(2, activation=M.LeakyReLU(
        negative_slope=0.5)), (3,))
    a("LinearNN nobias", lambda: M.LinearNN(1, bias=False), (2, 2))
    a("LinearNN complex", lambda: M.LinearNN(1, real=False), (2,))
    a("Constant", lambda: M.Constant(jnp.array([1.0, -2.0])), (2,))
    a("Constant trainable", lambda: M.Constant(
        shape={"a": (2,), "b": (1,)}, trainable=True, name="C"), (1,))
    a("PReLU", lambda: M.PReLU(), (2,))
    a("PReLU per feature", lambda: M.PReLU(single_parameter=False),
      {"a": (2,), "b": (1,)})
    a("Einsum", lambda: M.Einsum("ij,j->i", trainable=True,
                                 dim_map={"i": 2}), (2,))
    a("Einsum complex", lambda: M.Einsum(
        "ij,j->i", trainable=True, dim_map={"i": 2}, real=False), (2,))
    a("Einsum fixed", lambda: M.Einsum(
        "ij,k,jk->i", params=(jnp.ones((2, 3)), jnp.arange(2.))), (3, 2))
    a("Einsum data", lambda: M.Einsum("i,j"), [(2,), (3,)])
    a("user function", lambda: Poly(2.0, -1.0), (2,))
    a("LeakyReLU", lambda: M.LeakyReLU(negative_slope=0.25), (2,))
    a("ELU positional", lambda: M.LeakyReLU(0.75), [(2,), (1,)])
    a("Clip", lambda: M.Clip(-1.0, max=2.0), (2,))
    a("Softmax", lambda: M.Softmax(axis=-1), (2,))
    a("Reshape", lambda: M.Reshape((2, 3)), (6,))
    a("Reshape None", lambda: M.Reshape(), (2, 1))
    a("Reshape tree", lambda: M.Reshape({"a": (2, 1), "b": None}),
      {"a": (2,), "b": (1, 2)})
    a("Flatten", lambda: M.Flatten(), (2, 1, 2))
    a("Flatten tree", lambda: M.Flatten(), [(2, 2), (1,)])
    a("TreeFlatten", lambda: M.TreeFlatten(), {"b": [(2,), (1, 2)], "a": (1,)})
    a("Concat", lambda: M.ConcatenateLeaves(), {"b": (2,), "a": (1, 2)})
    a("Concat axis", lambda: M.ConcatenateLeaves(axis=-1), [(2, 1), (2, 2)])
    a("Concat order", lambda: M.ConcatenateLeaves(
        axis=0, path_order=("b", "a"), separator="."),
      {"a": (2,), "b": (1,)})
    a("TreeKey", lambda: M.TreeKey({"x": "b/0", "y": ["a", "b"]},
                                   separator="/"),
      {"a": (2,), "b": [(1,), (2,)]})
    a("TreeKey none", lambda: M.TreeKey(), {"a": (2,)})
    a("Comment", lambda: M.Comment("note"), (2,))
    a("seq", lambda: named(seq(M.Flatten(), M.LinearNN(2), M.ReLU(),
                               M.Bias()), "net"), (2, 1))
    a("seq tuple", lambda: pmm.SequentialModel(
        (M.Flatten(), M.MatMul(output_shape=2, trainable=True))), (2, 1))
    a("seq dict", lambda: pmm.SequentialModel(
        {"b": M.Flatten(), "c": M.Bias()}), (2, 1))
    a("seq nested", lambda: seq(M.Bias(), seq(
        M.PReLU(), seq(frozen(M.Bias()), M.Bias(scalar=True))),
        pmm.SequentialModel((M.TreeKey(),))), (2,))
    a("seq containers", lambda: pmm.SequentialModel(
        [M.Bias(), (M.PReLU(), {"z": M.Bias(), "y": M.Flatten()})]), (2,))
    a("seq of twelve", lambda: seq(*[
        [M.Bias, M.PReLU, Acc1][i % 3]() for i in range(12)]), (1,))
    a("seq dict of twelve", lambda: pmm.SequentialModel(
        {f"m{i}": [M.PReLU, M.Bias][i % 2]() for i in range(12)}), (1,))
    a("seq structures", lambda: pmm.SequentialModel([
        Gen("none", "dict", 1), (Gen("tuple", "empty", 2),
                                 Gen("empty", "list", 3)),
        {"b": Gen("hollow", "tuple", 4), "a": Gen("list", "hollow", 5)}]),
      (2,))
    a("nonseq of twelve", lambda: pmm.NonSequentialModel(
        [M.Bias() for _ in range(11)] + [M.ConcatenateLeaves()],
        {"input": [str(i) for i in (10, 2, 3, 1, 0, 4, 5, 6, 7, 8, 9)],
         **{str(i): "11" for i in (10, 2, 3, 1, 0, 4, 5, 6, 7, 8, 9)},
         "11": "output"}), (1,))
    a("nonseq", nonseq, (2,))
    a("nonseq tree", nonseq2, {"u": (2,), "v": (1,)})
    a("nonseq in seq", lambda: seq(M.Bias(), nonseq(), frozen(M.PReLU())),
      (2,))
    a("seq in nonseq", lambda: pmm.NonSequentialModel(
        {"s": seq(M.Bias(), M.PReLU()), "t": M.ConcatenateLeaves()},
        {"input": ["s", "t"], "s": "t", "t": "output"}), (2,))
    a("stateful", lambda: seq(Acc(2), M.Bias(), Count()), (2,))
    a("nonseq bar", lambda: pmm.NonSequentialModel(
        {"en.c": {"l": M.Bias(), "r/1": M.PReLU()},
         "m": M.ConcatenateLeaves()},
        {"input": ["en.c|l", "en.c|r/1"], "en.c|l": "m|0",
         "en.c|r/1": ["m|1", "output|a.b"], "m": "output|c"},
        separator="|"), (2,))
    a("nonseq colons", lambda: pmm.NonSequentialModel(
        {"b": [M.Bias(), Acc1()], "m": M.ConcatenateLeaves()},
        {"input": ["b::0", "b::1"], "b::0": "m::1", "b::1": "m::0",
         "m": "output"}, separator="::"), (1,))
    a("nonseq long names", lambda: pmm.NonSequentialModel(
        {"a": M.PReLU(), "embedding_layer": M.Bias(),
         "final_projection": M.LinearNN(2)},
        {"input": "final_projection", "final_projection": "embedding_layer",
         "embedding_layer": "a", "a": "output"}), (2,))
    Hm = jnp.array([[1., 2.], [2., -1.]])
    a("AHM given", lambda: H_(Ms=jnp.stack([Hm, Hm @ Hm]) + 0j, matrix_size=2,
                              smoothing=-0.5), (1,))
    a("AT given", lambda: M.AffineTensor(
        tensor_shape=(2,), Ms=jnp.arange(6.).reshape(3, 2)), (2,))
    a("TAS given", lambda: M.TransitionAmplitudeSum(
        num_observables=1, output_size=1, Ds=(Hm[None, None] + 0j)), (2, 2))
    a("AEPMM given", lambda: M.AffineEigenvaluePMM(
        matrix_size=2, Ms=jnp.stack([Hm, Hm]) + 0j, which="SM"), (1,))
    a("PReLU complex", lambda: M.PReLU(single_parameter=False, real=False),
      (2,))
    a("Bias complex scalar", lambda: M.Bias(real=False, scalar=True), (2, 1))
    a("Bias given tree", lambda: M.Bias({"a": jnp.array([1.]),
                                         "b": jnp.array([[2., 3.]])}),
      {"a": (1,), "b": (1, 2)})
    a("Constant complex", lambda: M.Constant(shape=(2,), real=False,
                                             trainable=True), (1,))
    a("MatMul shape", lambda: M.MatMul(output_shape=(3, 2), trainable=True),
      (2, 2))
    a("MatMul given trained", lambda: M.MatMul(
        jnp.array([[1., 2.], [3., 4.], [5., 6.]]), trainable=True), (2,))
    a("LinearNN act nobias", lambda: M.LinearNN(2, bias=False,
                                                activation=M.ReLU()), (2,))
    a("LinearNN GLU", lambda: M.LinearNN(4, activation=M.GLU()), (2,))
    a("LinearNN model", lambda: M.LinearNN(2, activation=seq(
        M.PReLU(), M.Bias())), (2,))
    a("MatMul digit keys", lambda: M.MatMul(path_order=["2", "10"]),
      {"10": (2, 1), "2": (1, 2)})
    a("Einsum given trained", lambda: M.Einsum(
        "ij,j->i", params=jnp.array([[1., 2.], [3., 4.]]), trainable=True),
      (2,))
    a("spies", lambda: seq(Spy(noise=True), Spy()), (2,))
    return o
