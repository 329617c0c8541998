"""Initialisation.  The real compile() of every module and of composed models
is traced with the seed as a symbolic integer and every draw from the normal
distribution as an unconstrained real per (key, entry); the initial parameters
are then terms over those draws and the solver decides scaling with
init_magnitude, Hermiticity, realness and whether two free entries can ever
differ.  Given and already initialised parameters are symbolic values that
must come out of compile() unchanged."""
from .common import *
from .zoo import *
from .P16 import world

ASSUMPTIONS = ["normal draws are arbitrary reals, one per key and entry",
               "tests that supplied matrices are Hermitian are passed"]
F = ["compile", "get_params", "is_ready"]

HM = M.AffineHermitianMatrix



CFG = []


def cfg(name, mk, shape, herm=False, cx=None):
    """cx: expected complexness of every leaf (None: not checked)"""
    CFG.append((name, mk, shape, herm, cx))


cfg("AHM", lambda g: HM(3, init_magnitude=g), (2,), True, True)
cfg("AHM nobias", lambda g: HM(2, init_magnitude=g, bias_term=False,
                               smoothing=0.5), (2,), True, True)
cfg("AT", lambda g: M.AffineTensor((2, 2), init_magnitude=g), (2,), False,
    False)
cfg("AT complex", lambda g: M.AffineTensor((2, 2), init_magnitude=g,
                                           real=False), (2,), False, True)
cfg("AT nobias", lambda g: M.AffineTensor((3,), init_magnitude=g,
                                          bias_term=False), (2,), False,
    False)
cfg("LR", lambda g: M.LowRankAffineHermitianMatrix(3, 2, init_magnitude=g),
    (2,))
cfg("LR nobias", lambda g: M.LowRankAffineHermitianMatrix(
    2, 1, init_magnitude=g, bias_term=False), (2,))
for c in (True, False):
    cfg(f"TAS centred={c}", lambda g, c=c: M.TransitionAmplitudeSum(
        2, 2, init_magnitude=g, centered=c), (2, 1), True, True)
    cfg(f"EVS centred={c}", lambda g, c=c: M.ExpectationValueSum(
        2, 1, init_magnitude=g, centered=c), (2, 1), True, True)
cfg("AEPMM", lambda g: M.AffineEigenvaluePMM(
    matrix_size=2, num_eig=1, init_magnitude=g), (2,), True, True)
cfg("AOPMM", lambda g: M.AffineObservablePMM(
    matrix_size=2, num_eig=1, which="SA", output_size=2, num_secondaries=2,
    init_magnitude=g), (1,), True)
cfg("AOPMM expect", lambda g: M.AffineObservablePMM(
    matrix_size=2, num_eig=1, which="SA", output_size=1, num_secondaries=2,
    use_expectation_values=True, bias_term=False, init_magnitude=g), (1,),
    True, True)
for r in (True, False):
    n = "real" if r else "complex"
    cfg(f"Bias {n}", lambda g, r=r: M.Bias(init_magnitude=g, real=r), (2, 2),
        False, not r)
    cfg(f"Bias scalar {n}", lambda g, r=r: M.Bias(
        init_magnitude=g, real=r, scalar=True), (2, 2), False, not r)
    cfg(f"Bias tree {n}", lambda g, r=r: M.Bias(init_magnitude=g, real=r),
        {"a": (2,), "b": [(2,), (1, 2)]}, False, not r)
    cfg(f"PReLU {n}", lambda g, r=r: M.PReLU(init_magnitude=g, real=r), (2,),
        False, not r)
    cfg(f"PReLU features {n}", lambda g, r=r: M.PReLU(
        single_parameter=False, init_magnitude=g, real=r), {"a": (2,),
                                                            "b": (2,)},
        False, not r)
    cfg(f"MatMul {n}", lambda g, r=r: M.MatMul(
        output_shape=2, trainable=True, init_magnitude=g, real=r), (2,),
        False, not r)
    cfg(f"Einsum {n}", lambda g, r=r: M.Einsum(
        "ij,ij,j->i", trainable=True, dim_map={"i": 2}, init_magnitude=g,
        real=r), (2,), False, not r)
    cfg(f"Constant {n}", lambda g, r=r: M.Constant(
        shape={"a": (2,), "b": (2,)}, trainable=True, init_magnitude=g,
        real=r), (1,), False, not r)
    cfg(f"LinearNN {n}", lambda g, r=r: M.LinearNN(
        2, init_magnitude=g, real=r), (2,), False, not r)
cfg("seq", lambda g: seq(M.Bias(init_magnitude=g), M.Bias(init_magnitude=g),
                         M.LinearNN(2, init_magnitude=g),
                         M.PReLU(init_magnitude=g)), (2,), False, False)
cfg("seq nested", lambda g: seq(
    M.Bias(init_magnitude=g), seq(M.Bias(init_magnitude=g), seq(
        M.Bias(init_magnitude=g), M.PReLU(init_magnitude=g))),
    M.Bias(init_magnitude=g)), (2,), False, False)
cfg("seq containers", lambda g: pmm.SequentialModel(
    [M.Bias(init_magnitude=g), (M.Bias(init_magnitude=g), {
        "z": M.Bias(init_magnitude=g), "y": M.Bias(init_magnitude=g)})]),
    (2,), False, False)
cfg("nonseq", lambda g: pmm.NonSequentialModel(
    {"a": M.Bias(init_magnitude=g), "b": M.Bias(init_magnitude=g),
     "s": seq(M.Bias(init_magnitude=g), M.Bias(init_magnitude=g)),
     "m": M.ConcatenateLeaves()},
    {"input": ["a", "b", "s"], "a": "m", "b": "m", "s": "m",
     "m": "output"}), (2,), False, False)


def reals(o, herm):
    """the free real numbers of a parameter leaf"""
    r = []
    sq = herm and o.ndim >= 3 and o.shape[-1] == o.shape[-2]
    for i in onp.ndindex(*o.shape):
        e = el(o[i])
        if sq and i[-2] > i[-1]:
            continue
        r.append((i, "re", e.re))
        if not (sq and i[-2] == i[-1]):
            r.append((i, "im", e.im))
    return r


def zero(x):
    return not isz(x) and x == 0


def untied(xs):
    """can all of xs be different (also up to sign) and none be zero?"""
    if all(not isz(x) for _, x in xs):
        v = [abs(float(x)) for _, x in xs]
        return len(set(v)) == len(v) and all(t > 0 for t in v)
    s = z3.Solver()
    s.set("timeout", 20000)
    t = [C.zr(x) for _, x in xs]
    s.add(z3.Distinct(*(t + [-x for x in t] + [z3.RealVal(0)])))
    # the draws are free, up to the axioms of the encoding
    for a in CTX.axioms:
        s.add(a)
    r = s.check()
    if r == z3.unknown:
        raise C.Unsupported("tie query undecided")
    return r == z3.sat


def tie(xs):
    """a smallest tied pair, for the report"""
    for a, b in itertools.combinations(xs, 2):
        if not untied([a, b]):
            return f"{a[0]} and {b[0]}"
    return "several entries"


MAGS = (Fraction(1, 2), Fraction(3))


def init_case(name, mk, shape, herm, cx):
    def fn(seed):
        out = []
        for g in MAGS + MAGS[:1]:
            m = mk(float(g))
            if m.is_ready() and name[:3] != "seq":
                raise TypeError("ready before it has parameters")
            m.compile(jax.random.key(seed[0]), shape)
            if not m.is_ready():
                raise TypeError("not ready after compile")
            ps = jax.tree.leaves(m.get_params())
            for p in ps:
                if cx is not None and jnp.iscomplexobj(p) != cx:
                    raise TypeError(f"parameter dtype {p.dtype}")
            out.append(ps)
        return out

    def goals(ins, out):
        a, b, c = out
        g = eqs(a, c, "same seed, same parameters")
        g += eqs([x * el(MAGS[1]) for x in a], [x * el(MAGS[0]) for x in b],
                 "scales with init_magnitude")
        xs = []
        for n, o in enumerate(a):
            if herm and o.ndim >= 3 and o.shape[-1] == o.shape[-2]:
                g += eqs(o, H(o), f"parameter {n} Hermitian")
            isc = any(not zero(el(e).im) for e in o.reshape(-1))
            for i, part, x in reals(o, herm):
                if part == "im" and not isc:
                    continue
                xs.append((f"parameter {n}{list(i)}.{part}", x))
        if xs:
            ok = untied(xs)
            g.append(Goal("true", B(ok), label="initial parameters tied or "
                          "zero: " + ("" if ok else tie(xs))))
        else:
            g.append(Goal("true", B(False), label="no parameters"))
        return g
    return Case(f"init {name}", [((1,), "int")], fn, goals, funcs=F, forks=4,
                bounds=f"every seed and draw; input shape {shape}", tol=1e-5,
                lo=0, hi=6)


def keep_case(z):
    """parameters that are set survive compiling again"""
    def setup():
        return z.build()

    def inputs(m):
        return [pspec(m), sspec(m), ((1,), "int")]

    def fn(m, ps, ss, seed):
        with world():
            m = m.copy() if False else m
            put(m, ps, ss)
            m.compile(jax.random.key(seed[0]), z.shape)
            if not m.is_ready():
                raise TypeError("not ready after compiling again")
            return (jax.tree.leaves(m.get_params()),
                    jax.tree.leaves(m.get_state()))

    def goals(ins, out):
        return eqs(list(out[0]), list(ins[0]), "parameter") + \
            eqs(list(out[1]), list(ins[1]), "state")
    return Case(f"recompile {z.name}", inputs, fn, goals, setup=setup,
                funcs=F, forks=4, bounds="every parameter value", lo=0, hi=6)


def given_case(name, mk, specs, shape, herm=()):
    """parameters given to the constructor are the parameters"""
    def fn(ps, seed):
        with world():
            m = mk(*ps)
            m.compile(jax.random.key(seed[0]), shape)
            if not m.is_ready():
                raise TypeError("not ready after compile")
            return jax.tree.leaves(m.get_params())

    def goals(ins, out):
        ps = list(jax.tree.leaves(list(ins[0]), is_leaf=is_arr))
        if len(out) != len(ps):
            return [Goal("true", B(False), label=f"{len(out)} parameters, "
                         f"{len(ps)} given")]
        return eqs([o.reshape(-1) for o in out], [p.reshape(-1) for p in ps],
                   "given parameter")
    return Case(f"given {name}", [list(specs), ((1,), "int")], fn, goals,
                funcs=F + ["__init__"], forks=4, bounds="every value",
                lo=0, hi=6)


def givens():
    o = []

    def a(*x):
        o.append(given_case(*x))
    a("AHM", lambda p: HM(Ms=p), [SC(3, 2, 2)], (2,))
    a("AHM size nobias", lambda p: HM(2, Ms=p, bias_term=False),
      [SC(2, 2, 2)], (2,))
    a("AT", lambda p: M.AffineTensor(Ms=p), [S(3, 2, 1)], (2,))
    a("AT shape complex", lambda p: M.AffineTensor((2,), Ms=p, real=False),
      [SC(3, 2)], (2,))
    a("TAS", lambda p: M.TransitionAmplitudeSum(Ds=p), [SC(2, 1, 2, 2)],
      (2, 1))
    a("EVS", lambda p: M.ExpectationValueSum(Ds=p), [SC(1, 2, 2, 2)], (2, 1))
    a("AEPMM", lambda p: M.AffineEigenvaluePMM(2, Ms=p), [SC(3, 2, 2)], (2,))
    a("AEPMM nobias", lambda p: M.AffineEigenvaluePMM(
        2, Ms=p, bias_term=False), [SC(1, 2, 2)], (1,))
    for e in (True, False):
        a(f"AOPMM expect={e}", lambda p, d, b, e=e: M.AffineObservablePMM(
            Ms=p, Ds=d, b=b, num_eig=1, which="SA",
            use_expectation_values=e),
          [SC(2, 2, 2), SC(2, 1, 2, 2), S(2)], (1,))
        a(f"AOPMM sizes expect={e}", lambda p, d, b, e=e:
          M.AffineObservablePMM(
              matrix_size=2, Ms=p, Ds=d, b=b, num_eig=1, which="SA",
              output_size=2, num_secondaries=1, use_expectation_values=e),
          [SC(2, 2, 2), SC(2, 1, 2, 2), S(2)], (1,))
    a("Bias", lambda p: M.Bias(p), [S(2)], (2,))
    a("Bias complex", lambda p: M.Bias(p, real=False), [SC(2, 1)], (2, 1))
    a("Bias tree", lambda p, q: M.Bias({"a": p, "b": q}), [S(2), S(1)],
      {"a": (2,), "b": (1,)})
    a("Bias shared", lambda p: M.Bias(p), [S(2)], {"a": (2,), "b": (2,)})
    a("MatMul", lambda p: M.MatMul(p, trainable=True), [S(2, 3)], (3,))
    a("MatMul fixed", lambda p: M.MatMul(p), [S(2, 3)], (3,))
    a("Einsum", lambda p, q: M.Einsum("ij,k,jk->i", params=(p, q),
                                      trainable=True), [S(2, 3), S(2)],
      (3, 2))
    a("Einsum fixed", lambda p, q: M.Einsum("ij,k,jk->i", params=(p, q)),
      [S(2, 3), S(2)], (3, 2))
    a("Constant", lambda p: M.Constant(p, trainable=True), [S(2)], (1,))
    a("Constant fixed", lambda p: M.Constant(p), [S(2)], (1,))
    a("in seq", lambda p, q: seq(M.Bias(p), M.Flatten(), M.Bias(q)),
      [S(2), S(2)], (2,))
    a("in nonseq", lambda p, q: pmm.NonSequentialModel(
        {"a": M.Bias(p), "b": M.Bias(q), "m": M.ConcatenateLeaves()},
        {"input": ["a", "b"], "a": "m", "b": "m", "m": "output"}),
      [S(2), S(2)], (2,))
    return o


def jobs(tier):
    out = [init_case(*c) for c in CFG]
    for z in zoo():
        out.append(keep_case(z))
    out += givens()
    return out
