"""Reported number of trainable floats.  Feature dimensions and size options
are symbolic integers; the real modules are built and compiled on every value
the solver finds within the bounds, and the count they report is compared with
the closed form for that module: real parameters count once, complex ones
twice, a Hermitian n x n matrix n*n times, a container the sum of its parts;
before compilation there is no count."""
from .common import *
from .zoo import Poly, seq
from ..psym import PCase
from .P23 import conc
import warnings
warnings.filterwarnings("ignore")

ASSUMPTIONS = ["feature dimensions and size options between 1 and the bound "
               "stated in the case"]


def case(name, mk, shape, count, hi=3, **k):
    def fn(ex):
        vals = {}

        def I(n, lo=1, h=hi):
            if n not in vals:
                vals[n] = conc(ex, ex.int(n, lo, h))
            return vals[n]
        s = shape(I)
        want = count(I)
        try:
            m = mk(I)
            n0 = m.get_num_trainable_floats()
            r0 = m.is_ready()
            m.compile(jax.random.key(3), s)
        except C.Unsupported:
            raise
        except Exception as e:
            if C.harness_error(e):
                raise C.Unsupported(str(e))
            return      # combination of sizes refused
        if want != 0 and not r0:
            ex.check(n0 is None, f"{name}: {n0} floats before compiling")
        n1 = m.get_num_trainable_floats()
        ex.check(n1 is not None and n1 == want,
                 f"{name}: {n1} floats, expected {want}")
        # the count follows from the parameters, not from their precision
        # or from what was asked before
        m.set_precision(64)
        n2 = m.get_num_trainable_floats()
        ex.check(n2 == want, f"{name}: {n2} floats in double precision")
        m.set_params(m.get_params())
        n3 = m.get_num_trainable_floats()
        ex.check(n3 == want, f"{name}: {n3} floats after setting parameters")
        # as part of a model, next to a module with a known count
        outer = seq(mk(I), M.Comment("c"))
        outer.compile(jax.random.key(3), s)
        n4 = outer.get_num_trainable_floats()
        ex.check(n4 == want, f"{name}: {n4} floats inside a model")
        if ex_is_array(m.get_output_shape(s)):
            outer = pmm.SequentialModel({"a": mk(I), "b": [M.PReLU(), (
                M.Bias(scalar=True), M.PReLU(real=False))]})
            try:
                outer.compile(jax.random.key(3), s)
            except Exception as e:
                if C.harness_error(e):
                    raise C.Unsupported(str(e))
                return
            n5 = outer.get_num_trainable_floats()
            ex.check(n5 == want + 4, f"{name}: {n5} floats inside a model "
                     "that adds 4")
    return PCase(f"count {name}", fn, funcs=[
        "get_num_trainable_floats", "compile"],
        bounds=f"symbolic dimensions 1..{hi}", **k)


def ex_is_array(s):
    return isinstance(s, tuple) and len(s) > 0 and all(
        isinstance(i, int) for i in s)


def jobs(tier):
    hi = 3 if tier == "quick" else 5
    o = []

    def a(name, mk, shape, count, **k):
        o.append(case(name, mk, shape, count, hi=k.pop("h", hi), **k))

    def v(I):
        return (I("d"),)

    def mat(I):
        return (I("d"), I("e"))

    def sq(I):
        return (I("n"), I("n"))

    def tree(I):
        return {"b": [(I("d"),), (I("e"), I("f"))], "a": (I("d"), I("e"))}

    def treesz(I):
        d, e, f = I("d"), I("e"), I("f")
        return d + e * f + d * e
    H_ = M.AffineHermitianMatrix
    a("AHM", lambda I: H_(I("n")), v, lambda I: (I("d") + 1) * I("n") ** 2)
    a("AHM nobias", lambda I: H_(I("n"), bias_term=False, smoothing=0.5), v,
      lambda I: I("d") * I("n") ** 2)
    a("LR", lambda I: M.LowRankAffineHermitianMatrix(I("n"), I("r")), v,
      lambda I: (I("d") + 1) * I("r") * (2 * I("n") + 1))
    a("LR nobias", lambda I: M.LowRankAffineHermitianMatrix(
        I("n"), I("r"), bias_term=False), v,
      lambda I: I("d") * I("r") * (2 * I("n") + 1))
    for real in (True, False):
        c = 1 if real else 2
        a(f"AT real={real}", lambda I, real=real: M.AffineTensor(
            (I("t"), I("u")), real=real), v,
          lambda I, c=c: c * (I("d") + 1) * I("t") * I("u"))
        a(f"AT nobias real={real}", lambda I, real=real: M.AffineTensor(
            (I("t"),), real=real, bias_term=False), v,
          lambda I, c=c: c * I("d") * I("t"))
        a(f"Bias real={real}", lambda I, real=real: M.Bias(real=real), mat,
          lambda I, c=c: c * I("d") * I("e"))
        a(f"Bias tree real={real}", lambda I, real=real: M.Bias(real=real),
          tree, lambda I, c=c: c * treesz(I))
        a(f"Bias scalar real={real}", lambda I, real=real: M.Bias(
            real=real, scalar=True), tree, lambda I, c=c: c)
        a(f"PReLU real={real}", lambda I, real=real: M.PReLU(real=real), mat,
          lambda I, c=c: c)
        a(f"PReLU features real={real}", lambda I, real=real: M.PReLU(
            real=real, single_parameter=False), tree,
          lambda I, c=c: c * treesz(I))
        a(f"MatMul real={real}", lambda I, real=real: M.MatMul(
            output_shape=I("o"), trainable=True, real=real), v,
          lambda I, c=c: c * I("d") * I("o"))
        a(f"Einsum real={real}", lambda I, real=real: M.Einsum(
            "ij,kj,j->ik", trainable=True, real=real,
            dim_map={"i": I("i"), "k": I("k")}), v,
          lambda I, c=c: c * I("d") * (I("i") + I("k")))
        a(f"Constant real={real}", lambda I, real=real: M.Constant(
            shape={"b": (I("p"), I("q")), "a": [(I("r"),)]}, trainable=True,
            real=real), v, lambda I, c=c: c * (I("p") * I("q") + I("r")))
        for b in (True, False):
            a(f"LinearNN real={real} bias={b}",
              lambda I, real=real, b=b: M.LinearNN(I("o"), bias=b, real=real),
              mat, lambda I, c=c, b=b: c * I("o") * (
                  I("d") * I("e") + (1 if b else 0)))
    a("LinearNN activation", lambda I: M.LinearNN(I("o"), activation=M.PReLU(
        single_parameter=False)), v, lambda I: I("o") * (I("d") + 2))
    for T in ("TransitionAmplitudeSum", "ExpectationValueSum"):
        for cen in (True, False):
            a(f"{T} centered={cen}", lambda I, T=T, cen=cen: getattr(M, T)(
                num_observables=I("q"), output_size=I("s"), centered=cen),
              lambda I: (I("n"), I("k")),
              lambda I: I("q") * I("s") * I("n") ** 2)
    a("AEPMM", lambda I: M.AffineEigenvaluePMM(matrix_size=I("n")), v,
      lambda I: (I("d") + 1) * I("n") ** 2)
    a("AEPMM nobias", lambda I: M.AffineEigenvaluePMM(
        matrix_size=I("n"), bias_term=False), v,
      lambda I: I("d") * I("n") ** 2)
    for bias in (True, False):
        for aff in (True, False):
            for ev in (True, False):
                a(f"AOPMM bias={bias} affine={aff} expect={ev}",
                  lambda I, bias=bias, aff=aff, ev=ev: M.AffineObservablePMM(
                      matrix_size=I("n"), num_eig=1, which="SA",
                      output_size=I("s"), num_secondaries=I("q", 1, 2),
                      bias_term=bias, affine_bias_matrix=aff,
                      use_expectation_values=ev), v,
                  lambda I, bias=bias, aff=aff: (
                      (I("d") + aff) * I("n") ** 2
                      + I("q", 1, 2) * I("s") * I("n") ** 2
                      + bias * I("s")))
    for T in ("Eigenvalues", "Eigenvectors", "Eigensystem"):
        a(T, lambda I, T=T: getattr(M, T)(None), sq, lambda I: 0)
    a("MatMul data", lambda I: M.MatMul(path_order=["b", "a"]),
      lambda I: {"a": (I("d"), I("e")), "b": (I("f"), I("d"))}, lambda I: 0)
    a("Einsum data", lambda I: M.Einsum("i,j"),
      lambda I: [(I("d"),), (I("e"),)], lambda I: 0)
    a("Flatten", lambda I: M.Flatten(), tree, lambda I: 0)
    a("Reshape", lambda I: M.Reshape((-1, 1)), mat, lambda I: 0)
    a("TreeFlatten", lambda I: M.TreeFlatten(), tree, lambda I: 0)
    a("Concat", lambda I: M.ConcatenateLeaves(), tree, lambda I: 0)
    a("TreeKey", lambda I: M.TreeKey("b.1"), tree, lambda I: 0)
    a("Softmax", lambda I: M.Softmax(), mat, lambda I: 0)
    a("user function", lambda I: Poly(2.0, 1.0), mat, lambda I: 0)
    # models
    a("seq", lambda I: seq(M.Flatten(), M.LinearNN(I("o")), M.ReLU(),
                           M.Bias()), mat,
      lambda I: I("o") * (I("d") * I("e") + 2))
    a("seq nested", lambda I: seq(M.Bias(), seq(
        M.PReLU(), seq(M.Bias(real=False), M.Bias(scalar=True)))), v,
      lambda I: 3 * I("d") + 2)
    a("seq containers", lambda I: pmm.SequentialModel(
        (M.Bias(), {"z": [M.Bias(), M.LinearNN(I("o"))], "y": M.PReLU()})),
      v, lambda I: 2 * I("d") + 1 + I("o") * (I("d") + 1))
    a("seq of twelve", lambda I: seq(*[M.Bias() for _ in range(12)]), v,
      lambda I: 12 * I("d"))
    a("nonseq", lambda I: pmm.NonSequentialModel(
        {"l": M.Bias(), "r": M.LinearNN(I("o")),
         "c": seq(M.ConcatenateLeaves(), M.PReLU())},
        {"input": ["l", "r"], "l": "c", "r": ["c", "output.r"],
         "c": "output.c"}), v,
      lambda I: I("d") + I("o") * (I("d") + 1) + 1)
    a("pmm chain", lambda I: seq(
        M.AffineHermitianMatrix(I("n")), M.Eigenvectors(1),
        M.TransitionAmplitudeSum(num_observables=1, output_size=I("s")),
        M.Bias()), v,
      lambda I: (I("d") + 1) * I("n") ** 2 + I("s") * I("n") ** 2 + I("s"))

    # counts follow edits
    def edit(ex):
        n, o_ = (conc(ex, ex.int(k, 1, hi)) for k in ("n", "o"))
        m = seq(M.LinearNN(o_), M.Bias())
        m.compile(0, (n,))
        ex.check(m.get_num_trainable_floats() == o_ * (n + 2), "before")
        m.append_module(M.LinearNN(2))
        ex.check(m.get_num_trainable_floats() is None,
                 "a model with a module that is not ready has no count")
        m.compile(0, (n,))
        ex.check(m.get_num_trainable_floats() == o_ * (n + 2)
                 + 2 * (o_ + 1), "after appending")
        m.pop_module_by_index(1)
        m.compile(0, (n,))
        ex.check(m.get_num_trainable_floats() == o_ * (n + 1)
                 + 2 * (o_ + 1), "after removing")
    o.append(PCase("edits", edit, funcs=["get_num_trainable_floats"],
                   bounds=f"sizes 1..{hi}, one append and one removal"))
    return o
