"""Declared output shapes.  Feature dimensions and size options are symbolic
integers; the real `get_output_shape` runs on them before compilation, the
module is compiled and its real callable is traced with a batch dimension that
stays symbolic (jax shape polymorphism), and the solver decides whether the
declared shape (before compiling, after compiling, and as recorded by a model)
is the shape the computation has, for every dimension within the bounds and
every batch size."""
from .common import *
from .zoo import *
from ..psym import PCase, SymInt, SymBool
from jax import export
import warnings
warnings.filterwarnings("ignore")
from parametricmatrixmodels.modules import FuncBase

ASSUMPTIONS = ["feature dimensions and size options between 1 and the bound "
               "stated in the case", "the batch dimension is unbounded "
               "(shape-polymorphic trace)"]


def isshape(s):
    return isinstance(s, tuple) and all(isinstance(i, int) for i in s)


def smap(f, t):
    return jax.tree.map(f, t, is_leaf=isshape)


def conc(ex, t):
    """the same nested value with every symbolic integer fixed (forks)"""
    if type(t) is SymInt:
        return t.__int__()
    if type(t) is tuple:
        return tuple(conc(ex, i) for i in t)
    if type(t) is list:
        return [conc(ex, i) for i in t]
    if type(t) is dict:
        return {k: conc(ex, v) for k, v in t.items()}
    return t


def same(a, b):
    """[conditions] or None when the structures differ"""
    sa, sb = (jax.tree.structure(smap(lambda s: 0, t)) for t in (a, b))
    if sa != sb:
        return None
    out = []
    for x, y in zip(jax.tree.leaves(a, is_leaf=isshape),
                    jax.tree.leaves(b, is_leaf=isshape)):
        if len(x) != len(y):
            return None
        out += [p == q for p, q in zip(x, y)]
    return out


def agree(ex, a, b, label):
    r = same(a, b)
    ex.check(r is not None, label + f": different structure or rank")
    for c in r:
        ex.check(c, label)


def actual(m, shape, cx=False, training=False):
    """output shape of the real computation without its batch axis; the batch
    axis itself must be the input's"""
    f = m._get_callable()
    dt = jnp.complex64 if cx else jnp.float32

    def go(b):
        xs = smap(lambda s: jax.ShapeDtypeStruct((b,) + s, dt), shape)
        return jax.eval_shape(
            lambda p, x, s, k: f(p, x, training, s, k)[0],
            m.get_params(), xs, m.get_state(), jax.random.key(0))
    (b,) = export.symbolic_shape("b")
    try:
        out = go(b)
    except Exception:
        b = 5       # not shape polymorphic: one batch size
        out = go(b)
    bad = []

    def cut(o):
        if not o.shape or not (o.shape[0] is b or o.shape[0] == b):
            bad.append(o.shape)
        return tuple(int(i) for i in o.shape[1:])
    return jax.tree.map(cut, out), bad


class Refused(Exception):
    pass


def declared(m, shape):
    try:
        if not hasattr(m, "get_output_shape"):
            m = m()
        return m.get_output_shape(shape)
    except C.Unsupported:
        raise
    except Exception as e:
        if C.harness_error(e):
            raise C.Unsupported(str(e))
        raise Refused(str(e))


def case(name, mk, shape, hi=3, cx=False, ready=False, **k):
    """mk(I) builds a module from size options I(name); shape(I) is its
    input shape"""
    def fn(ex):
        ex.opaque_str = True

        def I(n, lo=1, h=hi):
            return ex.int(n, lo, h)
        try:
            d0 = declared(lambda: mk(I), shape(I))
        except Refused as e:
            d0 = e
        vals = {}

        def J(n, lo=1, h=hi):
            if n not in vals:
                vals[n] = conc(ex, ex.int(n, lo, h))
            return vals[n]
        s = conc(ex, shape(J))
        if isinstance(d0, Refused):
            # array code cannot work with symbolic sizes: each value in turn
            try:
                d0 = declared(lambda: mk(J), s)
            except Refused as e:
                d0 = e
        try:
            m = mk(J)
            m.compile(jax.random.key(3), s)
            act, bad = actual(m, s, cx)
        except C.Unsupported:
            raise
        except Exception as e:
            if C.harness_error(e):
                raise C.Unsupported(str(e))
            # refused when compiled or called: nothing was promised
            return
        ex.check(not isinstance(d0, Exception),
                 f"{name}: shape refused although the module works: {d0}")
        ex.check(not bad, f"{name}: batch axis {bad}")
        agree(ex, d0, act, f"{name}: declared before compiling")
        agree(ex, m.get_output_shape(s), act,
              f"{name}: declared after compiling")
        act2, bad = actual(m, s, cx, True)
        ex.check(not bad, f"{name}: batch axis in training")
        agree(ex, act2, act, f"{name}: training output")
        if isinstance(m, pmm.Model):
            agree(ex, m.output_shape, act, f"{name}: recorded output shape")
            agree(ex, m.input_shape, s, f"{name}: recorded input shape")
        # a fresh module that was only compiled
        m = mk(J)
        m.compile(jax.random.key(3), s)
        agree(ex, m.get_output_shape(s), act,
              f"{name}: declared when asked only after compiling")
    return PCase(f"shape {name}", fn, funcs=[
        "get_output_shape", "compile", "_get_callable"],
        bounds=f"symbolic dimensions 1..{hi}, any batch size", **k)


def templates(hi):
    o = []

    def a(name, mk, shape, h=None, **k):
        o.append(case(name, mk, shape, hi=h or hi, **k))

    def v(I):
        return (I("d"),)

    def sq(I):
        return (I("n"), I("n"))

    def mat(I):
        return (I("d"), I("e"))

    def tree(I):
        return {"b": [(I("d"),), (I("e"), I("f"))], "a": (I("d"), I("e"))}

    a("AHM", lambda I: M.AffineHermitianMatrix(I("n")), v)
    a("AHM nobias", lambda I: M.AffineHermitianMatrix(
        I("n"), bias_term=False, smoothing=0.5), v)
    a("AHM in tree", lambda I: M.AffineHermitianMatrix(I("n")),
      lambda I: {"q": (I("d"),)})
    a("LR", lambda I: M.LowRankAffineHermitianMatrix(I("n"), I("r")), v)
    for r in range(0, 4):
        a(f"AT rank{r}", lambda I, r=r: M.AffineTensor(
            tuple(I(f"t{i}") for i in range(r))), v,
          h=2 if r == 3 else None)
    for T in ("Eigenvalues", "Eigenvectors", "Eigensystem"):
        c = getattr(M, T)
        a(T + " all", lambda I, c=c: c(None), sq)
        for w in ("SA", "LM", "IA", "EM"):
            a(f"{T} {w}", lambda I, c=c, w=w: c(I("k"), w), sq)
        a(T + " tree", lambda I, c=c: c(I("k")),
          lambda I: {"b": [(I("n"), I("n"))], "a": (I("p"), I("p"))})
        a(T + " tree all", lambda I, c=c: c(None),
          lambda I: [(I("n"), I("n")), {"z": (I("p"), I("p"))}])
    for c in (True, False):
        a(f"TAS centred={c}", lambda I, c=c: M.TransitionAmplitudeSum(
            num_observables=I("o"), output_size=I("s"), centered=c), mat)
        a(f"EVS centred={c}", lambda I, c=c: M.ExpectationValueSum(
            num_observables=I("o"), output_size=I("s"), centered=c), mat)
    a("AEPMM", lambda I: M.AffineEigenvaluePMM(
        matrix_size=I("n"), num_eig=I("k"), which="LM"), v)
    a("AOPMM", lambda I: M.AffineObservablePMM(
        matrix_size=I("n"), num_eig=I("k"), output_size=I("s"),
        num_secondaries=1), v)
    a("AOPMM expect", lambda I: M.AffineObservablePMM(
        matrix_size=I("n"), num_eig=I("k"), output_size=I("s"),
        num_secondaries=2, use_expectation_values=True), v)
    for sc in (True, False):
        a(f"Bias scalar={sc}", lambda I, sc=sc: M.Bias(scalar=sc), tree)
        a(f"PReLU single={sc}", lambda I, sc=sc: M.PReLU(
            single_parameter=sc), tree)
    a("LinearNN", lambda I: M.LinearNN(I("o")), v)
    a("LinearNN activation", lambda I: M.LinearNN(
        I("o"), activation=M.Softmax()), mat)
    a("LinearNN GLU", lambda I: M.LinearNN(I("o", 1, 4), activation=M.GLU()),
      v)
    a("LinearNN OneHot", lambda I: M.LinearNN(
        I("o"), bias=False, activation=M.OneHot(I("c"))), mat)
    a("LinearNN column", lambda I: M.LinearNN(
        I("o"), activation=M.Reshape((-1, 1))), v)
    a("LinearNN of a model", lambda I: M.LinearNN(
        I("o"), activation=seq(M.ReLU(), M.LinearNN(I("p")))), v)
    a("LinearNN GLU in a model", lambda I: seq(
        M.LinearNN(I("o", 1, 4), activation=M.GLU()), M.LinearNN(I("p"))), v)
    a("MatMul digit keys", lambda I: M.MatMul(path_order=["2", "10", "1"]),
      lambda I: {"10": (I("e"), I("f")), "1": (I("f"), I("g")),
                 "2": (I("d"), I("e"))})
    a("MatMul", lambda I: M.MatMul(output_shape=I("o"), trainable=True), v)
    a("MatMul rank 2 input", lambda I: M.MatMul(
        output_shape=I("o"), trainable=True), mat)
    a("MatMul tuple", lambda I: M.MatMul(
        output_shape=(I("o"),), trainable=True), v)
    a("MatMul fixed", lambda I: M.MatMul(
        jnp.ones((int(I("p")), int(I("q"))))), v)
    a("MatMul data", lambda I: M.MatMul(path_order=["b", "a"]),
      lambda I: {"a": (I("d"), I("e")), "b": (I("f"), I("d"))})
    a("MatMul data, default order", lambda I: M.MatMul(),
      lambda I: [(I("d"), I("e")), (I("e"), I("f")), (I("f"),)])
    a("MatMul mixed", lambda I: M.MatMul(
        path_order=["b", "..", "a"], trainable=True),
      lambda I: {"a": (I("d"), I("e")), "b": (I("f"), I("g"))})
    a("Einsum trainable", lambda I: M.Einsum(
        "ij,jk->ik", trainable=True, dim_map={"i": I("o")}), mat)
    a("Einsum implicit", lambda I: M.Einsum("ji,k"),
      lambda I: [(I("d"), I("e")), (I("f"),)])
    a("Einsum contraction", lambda I: M.Einsum("ij,jk,kl->li"),
      lambda I: [(I("d"), I("e")), (I("e"), I("f")), (I("f"), I("g"))])
    a("Einsum ellipsis", lambda I: M.Einsum("...j,jk->k..."),
      lambda I: [(I("d"), I("e")), (I("e"), I("f"))])
    a("Einsum fixed", lambda I: M.Einsum("ij,j->i", params=jnp.ones(
        (int(I("p")), int(I("q"))))), v)
    a("Constant", lambda I: M.Constant(
        shape={"b": (I("p"), I("q")), "a": (I("r"),)}, trainable=True), v)
    a("Constant values", lambda I: M.Constant(
        jnp.ones((int(I("p")), int(I("q"))))), mat)
    a("Flatten", lambda I: M.Flatten(),
      lambda I: (I("d"), I("e"), I("f")))
    a("Flatten vector", lambda I: M.Flatten(), v)
    a("Flatten tree", lambda I: M.Flatten(), tree)
    a("Reshape -1 last", lambda I: M.Reshape((I("p"), -1)), mat)
    a("Reshape -1 first", lambda I: M.Reshape((-1, I("p"))),
      lambda I: (I("d"), I("e"), I("f")))
    a("Reshape", lambda I: M.Reshape((I("p"), I("q"))),
      lambda I: (I("d", 1, 6),))
    a("Reshape None", lambda I: M.Reshape(), tree)
    a("Reshape tree", lambda I: M.Reshape(
        {"b": [None, (-1, I("p"))], "a": (-1,)}), tree)
    a("Reshape one for all", lambda I: M.Reshape((-1, 1)), tree)
    for ax in (None, 0, 1, -1, -2):
        a(f"Concat axis={ax}", lambda I, ax=ax: M.ConcatenateLeaves(axis=ax),
          lambda I: [(I("d"), I("e")), {"z": (I("f"), I("g"))}])
    a("Concat order", lambda I: M.ConcatenateLeaves(
        axis=0, path_order=["b", "a"]),
      lambda I: {"a": (I("d"), I("e")), "b": (I("f"), I("e"))})
    a("Concat flat, mixed rank", lambda I: M.ConcatenateLeaves(), tree)
    a("TreeFlatten", lambda I: M.TreeFlatten(), tree)
    a("TreeKey", lambda I: M.TreeKey(
        {"x": "b.1", "y": ["a", "b"], "z": "b.0"}), tree)
    a("TreeKey one", lambda I: M.TreeKey("b.1"), tree)
    a("TreeKey none", lambda I: M.TreeKey(), tree)
    a("Comment", lambda I: M.Comment("c"), tree)
    a("user function", lambda I: Poly(2.0, 1.0), mat)

    class Outer(FuncBase):
        __version__ = "0"

        @property
        def name(self):
            return "Outer"

        def get_hyperparameters(self):
            return {}

        def f(self, x):
            return {"o": x["a"][:, :, None] * x["b"][:, None, :],
                    "s": [x["a"].sum(axis=1, keepdims=True)]}
    a("user function on a tree", lambda I: Outer(),
      lambda I: {"a": (I("d"),), "b": (I("e"),)})
    from parametricmatrixmodels.modules.activationbase import ActivationBase
    from parametricmatrixmodels.modules import \
        _autogenerated_activationfuncs as AF
    args = {"OneHot": (3,), "Clip": (-1.0, 1.0), "AMax": (-1,),
            "AMin": (1,), "LogSumExp": (-1,), "Pow": (2.0,), "Power": (2.0,),
            "FloatPower": (2.0,), "ArcTan2": (1.0,), "FloorDivide": (2.0,),
            "LDExp": (2,), "NextAfter": (1.0,), "Round": (1,)}
    for n in dir(AF):
        c = getattr(AF, n)
        if isinstance(c, type) and issubclass(c, ActivationBase) \
                and c is not ActivationBase:
            a("activation " + n, lambda I, c=c, n=n: c(*args.get(n, ())),
              lambda I: [(I("d"), I("e", 1, 4)), {"z": (I("f"),)}], h=2)
    a("GLU", lambda I: M.GLU(), lambda I: (I("d"), I("e", 1, 4)))
    a("GLU axis", lambda I: M.GLU(axis=1), lambda I: (I("e", 1, 4), I("d")))
    a("AMax keepdims", lambda I: M.AMax(axis=1, keepdims=True), mat)
    a("LogSumExp axes", lambda I: M.LogSumExp(axis=(1, 2), keepdims=True),
      mat)
    a("OneHot", lambda I: M.OneHot(I("c")), mat)
    a("GLU in a model", lambda I: seq(M.GLU(), M.LinearNN(I("o"))),
      lambda I: (I("e", 1, 4),))
    # models
    a("seq", lambda I: seq(M.Flatten(), M.LinearNN(I("o")), M.ReLU(),
                           M.Reshape((-1, 1))), mat)
    a("seq pmm", lambda I: seq(
        M.AffineHermitianMatrix(I("n")), M.Eigenvectors(I("k")),
        M.TransitionAmplitudeSum(num_observables=1, output_size=I("s"))), v)
    a("seq nested", lambda I: seq(
        M.Flatten(), seq(M.Reshape((-1, I("p"))), seq(M.Bias()),
                         M.TreeFlatten())), mat)
    a("nonseq", lambda I: pmm.NonSequentialModel(
        {"l": M.Flatten(), "r": M.LinearNN(I("o")),
         "c": M.ConcatenateLeaves()},
        {"input": ["l", "r"], "l": "c", "r": ["c", "output.r"],
         "c": "output.c"}), mat)
    a("nonseq skip", lambda I: pmm.NonSequentialModel(
        {"f": M.Flatten(), "e": M.Einsum("i,jk->kij")},
        {"input.a": "f", "f": "e.0", "input.b": ["e.1", "output.1"],
         "e": "output.0"}),
      lambda I: {"a": (I("d"), I("e")), "b": (I("f"), I("g"))}, h=2)
    a("nonseq nested", lambda I: pmm.NonSequentialModel(
        {"g": {"x": seq(M.Flatten(), M.LinearNN(I("o"))), "y": M.Bias()},
         "h": seq(M.TreeFlatten(), M.ConcatenateLeaves())},
        {"input": ["g.x", "g.y"], "g.x": "h.x", "g.y": "h.y",
         "h": "output"}), mat)
    return o


# -- chains of solver-chosen modules

CHAIN = [("flatten", lambda I, i: M.Flatten()),
         ("column", lambda I, i: M.Reshape((-1, 1))),
         ("pairs", lambda I, i: M.Reshape((2, -1))),
         ("linear", lambda I, i: M.LinearNN(I(f"o{i}"))),
         ("bias", lambda I, i: M.Bias()),
         ("tensor", lambda I, i: M.AffineTensor((I(f"o{i}"), 2))),
         ("tree", lambda I, i: M.TreeFlatten()),
         ("join", lambda I, i: M.ConcatenateLeaves(axis=-1)),
         ("fork", lambda I, i: pmm.NonSequentialModel(
             {"f": M.Flatten(), "b": M.Bias()},
             {"input": ["f", "b"], "f": "output.f", "b": "output.b"})),
         ("sub", lambda I, i: seq(M.Flatten(), M.Reshape((-1, 1))))]


def chain_case(first, length, rank):
    def pick(ex):
        return [CHAIN[first]] + [
            ex.pick(f"m{i}", CHAIN) for i in range(1, length)]

    c = case("x", None, None)

    def fn(ex):
        mods = pick(ex)
        inner = case(
            "chain " + "/".join(n for n, _ in mods),
            lambda I: seq(*[mk(I, i) for i, (_, mk) in enumerate(mods)]),
            lambda I: tuple(I(f"d{j}", 1, 2) for j in range(rank)), hi=2)
        inner.fn(ex)
    return PCase(f"chains of {length} from {CHAIN[first][0]} rank {rank}", fn,
                 funcs=["sequentialmodel.SequentialModel.get_output_shape",
                        "nonsequentialmodel.NonSequentialModel."
                        "get_output_shape", "SequentialModel.compile"],
                 bounds=f"every chain of {length} modules out of "
                 f"{len(CHAIN)}; symbolic dimensions 1..2, any batch size",
                 weight=20)


def history_case(kind):
    """ask and compile with one shape, then ask and compile with another"""
    mk = {
        "flatten": lambda: M.Flatten(),
        "reshape": lambda: M.Reshape((-1, 1)),
        "reshape None": lambda: M.Reshape(),
        "relu": lambda: M.ReLU(),
        "eigenvalues": lambda: seq(M.Eigenvalues(None)),
        "concat": lambda: M.ConcatenateLeaves(axis=-1),
        "einsum": lambda: M.Einsum("ij->ji"),
        "matmul": lambda: M.MatMul(),
        "seq": lambda: seq(M.Flatten(), M.ReLU()),
        "seq nested": lambda: seq(seq(M.Flatten()), M.Reshape((-1, 1))),
        "seq of nonseq": lambda: seq(pmm.NonSequentialModel(
            {"f": M.Flatten(), "t": M.ReLU()},
            {"input": ["f", "t"], "f": "output.a", "t": "output.b"})),
        "nonseq": lambda: pmm.NonSequentialModel(
            {"f": M.Flatten(), "t": seq(M.ReLU())},
            {"input": ["f", "t"], "f": "output.a", "t": "output.b"}),
    }[kind]

    def fn(ex):
        ex.opaque_str = True
        s = []
        for i in "ab":
            d = conc(ex, ex.int(f"d{i}", 1, 3))
            e = d if kind == "eigenvalues" else conc(
                ex, ex.int(f"e{i}", 1, 3))
            s.append((d, e))

        def want(sh):
            m = mk()
            m.compile(jax.random.key(0), sh)
            return actual(m, sh)[0]
        how = ex.pick("how", ["ask", "compile", "both"])
        m = mk()
        if how != "compile":
            agree(ex, m.get_output_shape(s[0]), want(s[0]), "first shape")
        if how != "ask":
            m.compile(jax.random.key(1), s[0])
        # a module may refuse another shape once compiled; it may not
        # declare a wrong one
        try:
            d = declared(m, s[1])
        except Refused:
            d = None
        if d is not None:
            agree(ex, d, want(s[1]), "asked for another shape")
        if how != "ask":
            agree(ex, m.get_output_shape(s[0]), want(s[0]),
                  "compiled shape asked again")
            a, bad = actual(m, s[0])
            agree(ex, a, want(s[0]), "asking changed the computation")
        try:
            m.compile(jax.random.key(1), s[1])
        except C.Unsupported:
            raise
        except Exception as e:
            if C.harness_error(e):
                raise C.Unsupported(str(e))
            return
        agree(ex, m.get_output_shape(s[1]), want(s[1]), "recompiled")
        agree(ex, actual(m, s[1])[0], want(s[1]), "recompiled computation")
        if isinstance(m, pmm.Model):
            agree(ex, m.output_shape, want(s[1]), "recorded when recompiled")
    return PCase(f"history {kind}", fn, funcs=[
        "get_output_shape", "compile"], bounds="two symbolic shapes with "
        "dimensions 1..3, asked and/or compiled in sequence", weight=5)


def zoo_case(z):
    def fn(ex):
        m = z.mk()
        d0 = m.get_output_shape(z.shape)
        m.compile(jax.random.key(1), z.shape)
        act, bad = actual(m, z.shape, z.cx)
        ex.check(not bad, f"{z.name}: batch axis {bad}")
        agree(ex, d0, act, f"{z.name}: declared before compiling")
        agree(ex, m.get_output_shape(z.shape), act, f"{z.name}: declared")
        if isinstance(m, pmm.Model):
            agree(ex, m.output_shape, act, f"{z.name}: recorded")
    return PCase(f"zoo {z.name}", fn, funcs=["get_output_shape"],
                 bounds="any batch size")


def jobs(tier):
    q = tier == "quick"
    out = templates(3 if q else 4)
    for k in ("flatten", "reshape", "reshape None", "relu", "eigenvalues",
              "concat", "einsum", "matmul", "seq", "seq nested",
              "seq of nonseq", "nonseq"):
        out.append(history_case(k))
    for f in range(len(CHAIN)):
        out.append(chain_case(f, 2, 2))
        if not q:
            out.append(chain_case(f, 3, 2))
            out.append(chain_case(f, 2, 3))
    for z in zoo():
        out.append(zoo_case(z))
    return out
