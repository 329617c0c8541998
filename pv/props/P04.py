"""Composite PMMs: for every parameter value and input, AffineEigenvaluePMM
equals the selected eigenvalues of the affine Hermitian matrix of the input,
and AffineObservablePMM equals the (expectation or transition) observable sum
over the selected eigenvectors of that matrix plus the bias; every documented
option (smoothing, bias_term, affine_bias_matrix, which, centered,
num_secondaries, use_expectation_values, given Ms/Ds/b) has its documented
effect.  The compiled model's own callable is encoded with symbolic
parameters; eigh and the singular values are uninterpreted."""
from .common import *


def F32(c):
    return TIER != "quick" or "Eigenvalue" in c.name or \
        c.name.endswith("'bias_term': False} p=1 b=1")

from .P01 import ref_affine
from .P02 import select_goals, distinct, key, positions
from .P03 import ref as obs_ref

ASSUMPTIONS = ["eigh and singular values are uninterpreted functions of the "
               "matrix entries"]


def eig(A):
    sp = jax.ShapeDtypeStruct(A.shape, jnp.complex128)
    return J.run(lambda a: tuple(jnp.linalg.eigh(a)), [sp], [A])


def build(cls, kw, p):
    m = cls(**kw)
    m.compile(jax.random.key(1), (p,))
    m.set_precision(64)
    return m


def jobs(tier):
    out = []
    T = tier == "thorough"
    F = ["modules.affineeigenvaluepmm.AffineEigenvaluePMM",
         "sequentialmodel.SequentialModel._get_callable",
         "modules.affinehermitianmatrix", "modules.eigenvalues",
         "eigen_util"]
    cfgs = [dict(matrix_size=2, num_eig=1), dict(matrix_size=2, num_eig=2),
            dict(matrix_size=3, num_eig=2, which="LA"),
            dict(matrix_size=3, num_eig=1, which="SM"),
            dict(matrix_size=3, num_eig=2, which="EA", bias_term=False),
            dict(matrix_size=3, num_eig=1, which="IA"),
            dict(matrix_size=2, num_eig=1, smoothing=0.5),
            dict(matrix_size=2, num_eig=1, which="LA", smoothing=0.5,
                 bias_term=False),
            dict(matrix_size=3, num_eig=2, which="LM"),
            dict(matrix_size=3, num_eig=2, which="IM"),
            dict(matrix_size=3, num_eig=3, which="EM"),
            dict(matrix_size=2, num_eig=1, smoothing=-1.5),
            dict(matrix_size=2, num_eig=2, batch=5),
            dict(matrix_size=2, num_eig=1, which="LA", features=5),
            dict(matrix_size=4, num_eig=2, which="LA", features=1),
            dict(matrix_size=5, num_eig=3, which="SA", features=1, batch=1)]
    for kw in cfgs:
        kw = dict(kw)
        nb, p = kw.pop("batch", 2), kw.pop("features", 2)
        bias = kw.get("bias_term", True)
        P = p + bool(bias)
        n = kw["matrix_size"]

        def fn(m, Ms, x):
            prm = jax.tree.unflatten(jax.tree.structure(m.get_params()), [Ms])
            return mcall(m, prm, x, state=m.get_state())

        def goals(ins, o, kw=kw, bias=bias):
            A = ref_affine(herm(ins[0]), ins[1], bias,
                           kw.get("smoothing") or 0.0)
            W, V = eig(A)
            gs = []
            for s in range(len(W)):
                gs += select_goals(W[s], None, o[s], None, kw["num_eig"],
                                   kw.get("which", "SA"), 2e-3)
            return gs
        out.append(Case(f"AffineEigenvaluePMM {kw} p={p} b={nb}",
                        [SC(P, n, n), S(nb, p)],
                        fn, goals, setup=lambda kw=kw, p=p: build(
                            M.AffineEigenvaluePMM, kw, p), funcs=F,
                        bounds=f"{kw}, {p} features, "
                        f"batch {nb}", weight=n * n, tol=1e-5))
    F2 = ["modules.affineobservablepmm.AffineObservablePMM",
          "sequentialmodel.SequentialModel._get_callable",
          "modules.transitionamplitudesum", "modules.expectationvaluesum",
          "modules.bias"]
    cf2 = [dict(num_eig=1, which="SA"),
           dict(num_eig=1, which="LA", use_expectation_values=True),
           dict(num_eig=2, which="SA", use_expectation_values=True),
           dict(num_eig=2, which="SA", centered=False),
           dict(num_eig=1, which="SA", bias_term=False),
           dict(num_eig=1, smoothing=0.5),
           dict(num_eig=1, which="LA", affine_bias_matrix=False,
                use_expectation_values=True, centered=False),
           dict(num_eig=1, which="SA", num_secondaries=2),
           dict(use_expectation_values=True),
           dict(num_eig=1, which="SM", use_expectation_values=True),
           dict(num_eig=1, which="LA", num_secondaries=3, output_size=1,
                use_expectation_values=True),
           dict(num_eig=1, which="SA", smoothing=-0.75, output_size=1),
           dict(num_eig=1, which="SA", affine_bias_matrix=False,
                smoothing=0.5, output_size=1),
           dict(matrix_size=3, num_eig=2, which="SA", output_size=1,
                use_expectation_values=True),
           dict(matrix_size=3, num_eig=1, which="LA", output_size=1),
           dict(matrix_size=3, num_eig=1, which="IA", output_size=3,
                bias_term=False, centered=False,
                use_expectation_values=True),
           dict(matrix_size=3, num_eig=2, which="EA", output_size=1,
                centered=False),
           dict(num_eig=1, which="SA", output_size=1, batch=3),
           dict(num_eig=2, which="LA", output_size=3, batch=2,
                use_expectation_values=True, features=3)]
    for kw in cf2:
        kw = dict(dict(matrix_size=2, output_size=2), **kw)
        nb, p = kw.pop("batch", 1), kw.pop("features", 1)
        if kw.get("affine_bias_matrix") is False and kw.get("smoothing"):
            p = 2
        nn, no = kw["matrix_size"], kw["output_size"]
        ab = kw.get("affine_bias_matrix", True)
        P = p + bool(ab)
        l = kw.get("num_secondaries", 1)
        bt = kw.get("bias_term", True)

        def fn(m, Ms, Ds, b, x, bt=bt):
            lv = [Ms, Ds] + ([b] if bt else [])
            prm = jax.tree.unflatten(jax.tree.structure(m.get_params()), lv)
            return mcall(m, prm, x, state=m.get_state())
        wh = kw.get("which") or ("LM" if kw.get("smoothing") in (None, 0.0)
                                 else "SA")

        def asm(ins, kw=kw, ab=ab, wh=wh):
            if wh[1] != "M":
                return []
            A = ref_affine(herm(ins[0]), ins[3], ab,
                           kw.get("smoothing") or 0.0)
            W, V = eig(A)
            r = []
            for s in range(len(W)):
                r += distinct([key(e, wh) for e in W[s]])
            return r

        def goals(ins, o, kw=kw, ab=ab, bt=bt, wh=wh):
            Ms, Ds, b, x = ins
            A = ref_affine(herm(Ms), x, ab, kw.get("smoothing") or 0.0)
            W, V = eig(A)
            n = W.shape[1]
            k = kw.get("num_eig") or n
            pos = positions(n, k, wh)
            gs = []
            for s in range(len(W)):
                # the two possible key orders of a 2x2 spectrum
                orders = [tuple(range(n))] if wh[1] == "A" else [(0, 1), (1, 0)]
                for od in orders:
                    cols = [od[q] for q in pos]
                    want = obs_ref(Ds, V[s:s + 1][:, :, cols], "E" if kw.get(
                        "use_expectation_values") else "T",
                        kw.get("centered", True))
                    for c in range(want.shape[1]):
                        w = want[0, c] + (b[c] if bt else el(0))
                        if wh[1] == "A":
                            gs.append(Goal("eq", o[s, c], w,
                                           label=f"out[{s},{c}]"))
                        else:
                            ks = [key(e, wh) for e in W[s]]
                            cond = ks[od[0]] < ks[od[1]]
                            gs.append(CondEq(cond, o[s, c], w,
                                             f"out[{s},{c}] order {od}"))
            return gs
        out.append(Case(f"AffineObservablePMM {kw} p={p} b={nb}",
                        [SC(P, nn, nn), SC(no, l, nn, nn), S(no), S(nb, p)],
                        fn,
                        goals, assume=asm, funcs=F2,
                        setup=lambda kw=kw, p=p: build(
                            M.AffineObservablePMM, kw, p),
                        bounds=f"{kw}, {p} features, batch {nb}", weight=20,
                        tol=1e-5))
    # matrices given to the constructor are the ones used

    MS0 = onp.array([[[1, 2j], [-2j, 3]], [[0, 1], [1, 5]]], dtype=complex)
    DS0 = onp.array([[[[2, 1j], [-1j, 7]]]], dtype=complex)
    B0 = onp.array([4.0])

    out.append(Case("given Ms Ds b are used", [S(1), S(1), S(1), S(1)],
                    lambda m, a, b, c, d: m,
                    lambda ins, o: [Goal("true", x[()], label=f"given "
                                         f"parameter {i}")
                                    for i, x in enumerate(o)],
                    funcs=["modules.affineobservablepmm.AffineObservablePMM."
                           "compile"], bounds="one concrete parameter set",
                    setup=lambda: _given(MS0, DS0, B0)))
    return out


def _given(MS0, DS0, B0):
    m = M.AffineObservablePMM(matrix_size=2, num_eig=1, output_size=1,
                              which="SA", Ms=jnp.asarray(MS0),
                              Ds=jnp.asarray(DS0), b=jnp.asarray(B0))
    m.compile(jax.random.key(0), (1,))
    m2 = M.AffineEigenvaluePMM(matrix_size=2, Ms=jnp.asarray(MS0))
    m2.compile(jax.random.key(0), (1,))
    got = jax.tree.leaves(m.get_params()) + jax.tree.leaves(m2.get_params())
    want = [MS0, DS0, B0, MS0]
    if len(got) != len(want):
        return [jnp.asarray(False)]
    return [jnp.asarray(g.shape == w.shape and bool(onp.all(
        onp.asarray(g) == w))) for g, w in zip(got, want)]


class CondEq(Goal):
    """cond -> a == b"""
    __slots__ = ("cond",)

    def __init__(self, cond, a, b, label):
        super().__init__("eq", a, b, label)
        self.cond = cond

    def hyp(self):
        return C.tb(self.cond)

    def formula(self):
        f = super().formula()
        return C.bor(C.bnot(C.tb(self.cond)), f)

    def robust_neg(self, m=Fraction(1, 16)):
        c = C.tb(self.cond)
        return z3.And(c if isz(c) else z3.BoolVal(bool(c)),
                      super().robust_neg(m))

    def holds(self, tol=1e-6):
        c = C.tb(self.cond)
        if not isz(c) and not c:
            return True
        return super().holds(tol)
