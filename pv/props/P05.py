"""Elementary layers: for every parameter value and input, Bias, MatMul,
Einsum, LinearNN, Constant, PReLU, FuncBase subclasses and every activation
class return exactly their documented function of the input (activation
arguments, parameter forms, path order, fixed or trainable parameters
included), per sample and with PyTree structure kept."""
from .common import *


def F32(c):
    # not the functions with irrational constants, which single precision
    # rounds
    return not c.name.startswith(("SELU", "GELU", "Deg2Rad", "Degrees",
                                  "Log10", "Rad2Deg", "Radians", "Sinc"))


ASSUMPTIONS = ["transcendental primitives are uninterpreted functions, so an "
               "activation is decided to apply the documented jax function "
               "with the documented arguments"]

# class -> documented function
ACT = """ReLU jax.nn.relu|ReLU6 jax.nn.relu6|Sigmoid jax.nn.sigmoid
Softplus jax.nn.softplus|SparsePlus jax.nn.sparse_plus
SparseSigmoid jax.nn.sparse_sigmoid|SoftSign jax.nn.soft_sign
SiLU jax.nn.silu|Swish jax.nn.swish|LogSigmoid jax.nn.log_sigmoid
LeakyReLU jax.nn.leaky_relu|HardSigmoid jax.nn.hard_sigmoid
HardSiLU jax.nn.hard_silu|HardSwish jax.nn.hard_swish
HardTanh jax.nn.hard_tanh|ELU jax.nn.elu|CELU jax.nn.celu|SELU jax.nn.selu
GELU jax.nn.gelu|GLU jax.nn.glu|SquarePlus jax.nn.squareplus
Mish jax.nn.mish|Identity jax.nn.identity|Softmax jax.nn.softmax
LogSoftmax jax.nn.log_softmax|Standardize jax.nn.standardize
Abs jax.numpy.abs|Absolute jax.numpy.absolute|ACos jax.numpy.acos
ACosh jax.numpy.acosh|Angle jax.numpy.angle|ArcCos jax.numpy.arccos
ArcCosh jax.numpy.arccosh|ArcSin jax.numpy.arcsin|ArcSinh jax.numpy.arcsinh
ArcTan jax.numpy.arctan|ArcTanh jax.numpy.arctanh|ASin jax.numpy.asin
ASinh jax.numpy.asinh|ATan jax.numpy.atan|ATanh jax.numpy.atanh
Cbrt jax.numpy.cbrt|Ceil jax.numpy.ceil|Conj jax.numpy.conj
Conjugate jax.numpy.conjugate|Cos jax.numpy.cos|Cosh jax.numpy.cosh
Deg2Rad jax.numpy.deg2rad|Degrees jax.numpy.degrees|Exp jax.numpy.exp
Exp2 jax.numpy.exp2|Expm1 jax.numpy.expm1|FAbs jax.numpy.fabs
Floor jax.numpy.floor|I0 jax.numpy.i0|Imag jax.numpy.imag|Log jax.numpy.log
Log10 jax.numpy.log10|Log1p jax.numpy.log1p|Log2 jax.numpy.log2
Positive jax.numpy.positive|Rad2Deg jax.numpy.rad2deg
Radians jax.numpy.radians|Real jax.numpy.real
Reciprocal jax.numpy.reciprocal|RInt jax.numpy.rint|Round jax.numpy.round
Sign jax.numpy.sign|Sin jax.numpy.sin|Sinc jax.numpy.sinc
Sinh jax.numpy.sinh|Sqrt jax.numpy.sqrt|Square jax.numpy.square
Tan jax.numpy.tan|Tanh jax.numpy.tanh|Trunc jax.numpy.trunc
AMax jax.numpy.amax|AMin jax.numpy.amin|Clip jax.numpy.clip
LogSumExp jax.nn.logsumexp|Power jax.numpy.power|Pow jax.numpy.pow
NaNToNum jax.numpy.nan_to_num|NanToNum jax.numpy.nan_to_num"""
CONCRETE_ONLY = """FloorDivide jax.numpy.floor_divide|ArcTan2 jax.numpy.arctan2
FloatPower jax.numpy.float_power|NextAfter jax.numpy.nextafter
Signbit jax.numpy.signbit|FrExp jax.numpy.frexp|LDExp jax.numpy.ldexp
Invert jax.numpy.invert|Packbits jax.numpy.packbits
Unpackbits jax.numpy.unpackbits|Piecewise jax.numpy.piecewise
OneHot jax.nn.one_hot"""
# required or interesting arguments
ARGS = {
    "LeakyReLU": [((), dict(negative_slope=0.3)), ((0.25,), {})],
    "ELU": [((0.5,), {}), ((), dict(alpha=2.0))],
    "CELU": [((), dict(alpha=2.0))], "SquarePlus": [((), dict(b=1.0))],
    "GELU": [((), dict(approximate=False)), ((False,), {})],
    "GLU": [((), dict(axis=1))],
    "Softmax": [((), dict(axis=1))], "LogSoftmax": [((1,), {})],
    "LogSumExp": [((), dict(axis=1))],
    "AMax": [((), dict(axis=1))], "AMin": [((1,), {})],
    "Clip": [((-1.0, 0.5), {}), ((), dict(min=0.0))],
    "Power": [((2,), {})], "Pow": [((3,), {})],
    "Round": [((), dict(decimals=1))],
    "Standardize": [((), dict(axis=1))],
}
NODEFAULT = {"AMax", "AMin", "Clip", "Power", "Pow", "LogSumExp"}


def fnof(path):
    o = jax
    for p in path.split(".")[1:]:
        o = getattr(o, p)
    return o


def table(s):
    return [tuple(x.split()) for l in s.splitlines() for x in l.split("|")]


def reference(f, ins, args, kw):
    sp = [jax.ShapeDtypeStruct(a.shape, jnp.complex128 if any(
        not isinstance(e, B) and not e.isreal for e in a.reshape(-1))
        else jnp.float64) for a in ins]
    r = J.run(lambda x: f(x, *args, **kw), sp, list(ins))
    return r


def jobs(tier):
    out = []
    F = ["modules.activationbase.ActivationBase._get_callable"]
    for cls, path in table(ACT):
        cfgs = ([] if cls in NODEFAULT else [((), {})]) + ARGS.get(cls, [])
        for a, k in cfgs:
            f = fnof(path)
            pos = cls in ("Log", "Log2", "Log10", "Sqrt", "ACosh", "ArcCosh")

            def fn(x, cls=cls, a=a, k=k):
                mod = getattr(M, cls)(*a, **k)
                return mcall(mod, (), x)

            def goals(ins, o, f=f, a=a, k=k):
                if not is_arr(o):
                    return [Goal("true", B(False), label="one array")]
                return eqs(o, reference(f, [ins[0]], a, k), "f(x)")
            out.append(Case(f"{cls}{a}{k}", [S(2, 2)], fn, goals,
                            funcs=F + [f"modules.{cls}.func"],
                            bounds="2x2 array", lo=0.5 if pos else -2,
                            hi=2 if pos else 2, nonzero_div=False))

    def fnt(t):
        return (mcall(M.ReLU(), (), t), mcall(M.Abs(), (), t),
                mcall(M.LeakyReLU(negative_slope=0.5), (), t))

    def reft(t):
        z = el(0)
        return (jax.tree.map(lambda a: J.vec(lambda e: C.emax(e, z), a), t,
                             is_leaf=is_arr),
                jax.tree.map(lambda a: J.vec(abs, a), t, is_leaf=is_arr),
                jax.tree.map(lambda a: J.vec(lambda e: ite(e >= z, e, e * el(
                    Fraction(1, 2))), a), t, is_leaf=is_arr))
    out.append(Case("activations pytree, own formulas",
                    [{"a": S(2, 2), "b": [S(2, 1), S(2, 2, 2)]}], fnt,
                    ref=reft, funcs=F, bounds="dict/list of three leaves"))

    # --- Bias
    FB = ["modules.bias.Bias._get_callable"]
    for real in (True, False):
        k = R if real else CX

        def setup(real=real, scalar=False, sh=(2, 2)):
            m = M.Bias(real=real, scalar=scalar)
            m.compile(KEY, sh)
            m.set_precision(64)
            return m
        out.append(Case(f"Bias array real={real}", [((2, 2), k), S(3, 2, 2)],
                        lambda m, b, x: mcall(m, b, x),
                        ref=lambda b, x: x + b[None], funcs=FB, setup=setup,
                        bounds="2x2 bias, batch 3"))
        out.append(Case(f"Bias scalar real={real}", [((1,), k), S(3, 2)],
                        lambda m, b, x: mcall(m, b, x),
                        ref=lambda b, x: x + b[0], funcs=FB,
                        setup=lambda real=real, s=setup: s(real, True, (2,)),
                        bounds="scalar, batch 3"))
        tree = {"a": (2,), "b": [(1,), (2, 2)]}
        out.append(Case(
            f"Bias pytree real={real}",
            [{"a": ((2,), k), "b": [((1,), k), ((2, 2), k)]},
             {"a": S(2, 2), "b": [S(2, 1), S(2, 2, 2)]}],
            lambda m, b, x: mcall(m, b, x),
            ref=lambda b, x: jax.tree.map(lambda p, q: q + p[None], b, x,
                                          is_leaf=is_arr),
            setup=lambda real=real, s=setup, t=tree: s(real, False, t),
            funcs=FB, bounds="three leaves, batch 2"))

    def givenb():
        b = jnp.array([1.5, -2.0])
        m = M.Bias(b)
        m.compile(KEY, (2,))
        m2 = M.Bias(3.0, scalar=True)
        m2.compile(KEY, {"x": (2,), "y": (1, 2)})
        m3 = M.Bias(2.0 + 1j, scalar=True, real=False)
        m3.compile(KEY, (2,))
        return m, m2, m3
    out.append(Case(
        "Bias given", [S(2, 2), {"x": S(1, 2), "y": S(1, 1, 2)}],
        lambda ms, x, t: (mcall(ms[0], ms[0].get_params(), x),
                          mcall(ms[1], ms[1].get_params(), t),
                          mcall(ms[2], ms[2].get_params(), x)),
        ref=lambda x, t: (
            x + onp.array([el(Fraction(3, 2)), el(-2)], dtype=object)[None],
            jax.tree.map(lambda a: a + el(3), t, is_leaf=is_arr),
            x + (el(2) + I)), setup=givenb, funcs=FB,
        bounds="given biases"))

    # --- Constant
    def cst(sh, real):
        m = M.Constant(shape=sh, real=real, trainable=True)
        m.compile(KEY, (2,))
        m.set_precision(64)
        return m
    for real in (True, False):
        k = R if real else CX
        out.append(Case(
            f"Constant real={real}",
            [{"a": ((2,), k), "b": ((2, 2), k)}, S(3, 2)],
            lambda m, c, x: mcall(m, c, x),
            ref=lambda c, x: {n: onp.stack([c[n]] * 3) for n in c},
            setup=lambda real=real: cst({"a": (2,), "b": (2, 2)}, real),
            funcs=["modules.constant.Constant._get_callable"],
            bounds="two leaves, batch 3"))

    def cgiven():
        m = M.Constant(jnp.array([1.0, -2.0]))
        m.compile(KEY, (2,))
        m2 = M.Constant(4.0)
        m2.compile(KEY, (2,))
        return m, m2
    out.append(Case(
        "Constant given", [S(2, 2)],
        lambda ms, x: [mcall(m, m.get_params(), x) for m in ms],
        ref=lambda x: [onp.array([[el(1), el(-2)]] * 2, dtype=object),
                       onp.array([el(4)] * 2, dtype=object)],
        setup=cgiven, funcs=["modules.constant.Constant"], bounds="given"))

    # --- PReLU
    def leaky(x, a):
        return ite(x >= el(0), x, a * x)

    def pr(single, sh):
        m = M.PReLU(single_parameter=single)
        m.compile(KEY, sh)
        m.set_precision(64)
        return m
    FP = ["modules.prelu.PReLU._get_callable"]
    out.append(Case(
        "PReLU single", [[S(1)], {"a": S(2, 2), "b": S(2, 1, 2)}],
        lambda m, a, t: mcall(m, tuple(a), t),
        ref=lambda a, t: jax.tree.map(lambda y: J.vec(lambda e: leaky(
            e, a[0][0]), y), t, is_leaf=is_arr),
        setup=lambda: pr(True, {"a": (2,), "b": (1, 2)}), funcs=FP,
        bounds="pytree of two leaves"))
    out.append(Case(
        "PReLU per element", [S(2, 2), S(3, 2, 2)],
        lambda m, a, x: mcall(m, a, x),
        ref=lambda a, x: J.vec(leaky, x, onp.stack([a] * 3)),
        setup=lambda: pr(False, (2, 2)), funcs=FP, bounds="2x2, batch 3"))
    out.append(Case(
        "PReLU per element pytree",
        [{"a": S(2), "b": S(1, 2)}, {"a": S(2, 2), "b": S(2, 1, 2)}],
        lambda m, a, x: mcall(m, a, x),
        ref=lambda a, x: {n: J.vec(leaky, x[n], onp.stack([a[n]] * 2))
                          for n in a},
        setup=lambda: pr(False, {"a": (2,), "b": (1, 2)}), funcs=FP,
        bounds="two leaves, batch 2"))

    # --- Einsum / MatMul
    FE = ["modules.einsum.Einsum._get_callable",
          "modules.einsum.Einsum._get_concrete_einsum_str",
          "modules.einsum.Einsum._get_dimension_map"]

    def lv(t):
        return jax.tree.leaves(t, is_leaf=is_arr)

    def mkE(es, sh, params=None, dim=None, tr=True, real=True):
        m = M.Einsum(es, params=params, dim_map=dim, trainable=tr, real=real)
        m.compile(KEY, sh)
        m.set_precision(64)
        return m

    V3 = [(2,), ((3,), (2,))]
    V3s = [S(2, 2), (S(2, 3), S(2, 2))]
    ecases = [
        # name, einsum, shape, input spec, param shapes, dims, reference
        ("dot", "i,i->", {"x": (3,), "y": (3,)}, {"x": S(2, 3), "y": S(2, 3)},
         [], None, "zi,zi->z"),
        ("single string mat", "ij->ji", (2, 3), S(2, 2, 3), [], None,
         "zij->zji"),
        ("trace inferred", "ii", (2, 2), S(2, 2, 2), [], None, "zii->z"),
        ("outer full", "c,a,b->abc", V3, V3s, [], None, "zc,za,zb->zabc"),
        ("outer inferred", "c,a,b", V3, V3s, [], None, "zc,za,zb->zabc"),
        ("outer pytree", ["k", ("i", "j")], V3, V3s, [], None,
         "zk,zi,zj->zijk"),
        ("outer tuple", (["a", ("b", "c")], "bca"), V3, V3s, [], None,
         "za,zb,zc->zbca"),
        ("leading", "ab,c,a,b->c", V3, V3s, [(3, 2)], None,
         "ab,zc,za,zb->zc"),
        ("leading inferred", "ab,c,a,b", V3, V3s, [(3, 2)], None,
         "ab,zc,za,zb->zc"),
        ("leading pytree", ("ij", ["k", ("i", "j")]), V3, V3s, [(3, 2)], None,
         "ij,zk,zi,zj->zk"),
        ("leading pytree out", ("ij", ["k", ("i", "j")], "k"), V3, V3s,
         [(3, 2)], None, "ij,zk,zi,zj->zk"),
        ("two leading", "ab,cd,c,a,b->d", V3, V3s, [(3, 2), (2, 2)],
         {"d": 2}, "ab,cd,zc,za,zb->zd"),
        ("two leading tuple", ("ab,cd", ["c", ("a", "b")]), V3, V3s,
         [(3, 2), (2, 2)], {"d": 2}, "ab,cd,zc,za,zb->zd"),
        ("weights", "ab,b->a", (3,), S(2, 3), [(2, 3)], {"a": 2},
         "ab,zb->za"),
        ("dict order", {"y": "ab", "x": "bc"}, {"x": (2, 3), "y": (2, 2)},
         {"x": S(1, 2, 3), "y": S(1, 2, 2)}, [], None, "zbc,zab->zac"),
        ("elementwise", "ij,jk,jk->ik", [(2, 2), (2, 2)],
         [S(1, 2, 2), S(1, 2, 2)], [(2, 2)], {"i": 2}, "ij,zjk,zjk->zik"),
    ]
    for nm, es, sh, isp, ps, dm, rf in ecases:
        for tr in ((True, False) if ps else (True,)):
            def fn(m, prm, x, tr=tr, ps=ps):
                p = () if not ps else (prm[0] if len(prm) == 1 else
                                       tuple(prm))
                if not tr:
                    m.params = p
                return mcall(m, p if tr else (), x)

            def setup(es=es, sh=sh, dm=dm, tr=tr, ps=ps):
                p = None
                if not tr:
                    p = tuple(jnp.ones(s) for s in ps)
                    p = p[0] if len(p) == 1 else p
                return mkE(es, sh, p, dm, tr)
            out.append(Case(
                f"Einsum {nm} trainable={tr}", [[S(*s) for s in ps], isp],
                fn, ref=lambda p, x, rf=rf: oeinsum(rf, *p, *lv(x)),
                setup=setup, funcs=FE, bounds=f"{es}, {sh}"))
    FM = ["modules.matmul.MatMul._get_einsum_str_and_dim_map"] + FE
    mm = {"x": (2, 3), "y": [(2, 2)]}
    mms = {"x": S(2, 2, 3), "y": [S(2, 2, 2)]}
    ab = {"a": (2, 3), "b": (3, 2)}
    abs_ = {"a": S(1, 2, 3), "b": S(1, 3, 2)}
    abv = {"a": (2, 3), "b": (3,)}
    abvs = {"a": S(2, 2, 3), "b": S(2, 3)}
    mcases = [
        ("vec", dict(output_shape=2, trainable=True), (3,), S(2, 3), (2, 3),
         lambda W, x: oeinsum("ab,zb->za", W, x)),
        ("vec complex", dict(output_shape=2, trainable=True, real=False),
         (2,), S(2, 2), (2, 2), lambda W, x: oeinsum("ab,zb->za", W, x)),
        ("order", dict(path_order=["y.0", "x"]), mm, mms, None,
         lambda W, t: oeinsum("zab,zbc->zac", t["y"][0], t["x"])),
        ("default order", {}, ab, abs_, None,
         lambda W, t: oeinsum("zab,zbc->zac", t["a"], t["b"])),
        ("reverse order", dict(path_order=["b", "a"]), ab, abs_, None,
         lambda W, t: oeinsum("zab,zbc->zac", t["b"], t["a"])),
        ("lead", dict(output_shape=(2, None), trainable=True), ab, abs_,
         (2, 2), lambda W, t: oeinsum("ab,zbc,zcd->zad", W, t["a"], t["b"])),
        ("middle", dict(path_order=["a", "..", "b"], trainable=True), ab,
         abs_, (3, 3),
         lambda W, t: oeinsum("zab,bc,zcd->zad", t["a"], W, t["b"])),
        ("middle reversed", dict(path_order=["b", "..", "a"],
                                 trainable=True), ab, abs_, (2, 2),
         lambda W, t: oeinsum("zab,bc,zcd->zad", t["b"], W, t["a"])),
        ("last", dict(path_order=["b", "a", ".."], trainable=True,
                      output_shape=(3, 2)), ab, abs_, (3, 2),
         lambda W, t: oeinsum("zab,zbc,cd->zad", t["b"], t["a"], W)),
        ("last vector", dict(path_order=["a", "b", ".."], trainable=True),
         ab, abs_, (2,),
         lambda W, t: oeinsum("zab,zbc,c->za", t["a"], t["b"], W)),
        ("vec last", {}, abv, abvs, None,
         lambda W, t: oeinsum("zab,zb->za", t["a"], t["b"])),
        ("fixed", dict(params=jnp.array([[1., 2.], [3., -1.]])), ab, abs_,
         None, lambda W, t: oeinsum(
             "ab,zbc,zcd->zad", onp.array([[el(1), el(2)], [el(3), el(-1)]],
                                          dtype=object), t["a"], t["b"])),
        ("fixed middle", dict(params=jnp.array([[1., 2.], [3., -1.]]),
                              path_order=["b", "..", "a"]), ab, abs_, None,
         lambda W, t: oeinsum(
             "zab,bc,zcd->zad", t["b"], onp.array(
                 [[el(1), el(2)], [el(3), el(-1)]], dtype=object), t["a"])),
        ("separator", dict(path_order=["q/b", "q/a"], separator="/"),
         {"q": ab}, {"q": abs_}, None,
         lambda W, t: oeinsum("zab,zbc->zac", t["q"]["b"], t["q"]["a"])),
    ]
    def chain(W, ms, at=None):
        ms = list(ms)
        if at is not None:
            ms.insert(at, W)
        r = ms[0]
        for m in ms[1:]:
            r = oeinsum(("ab" if r.ndim == 2 else "zab") + "," + (
                "bc" if m.ndim == 2 else "zbc") + "->" + (
                "ac" if r.ndim == m.ndim == 2 else "zac"), r, m)
        return r
    # dicts whose keys are digits: leaves are in string order
    dg = {"2": (2, 1), "10": (1, 2), "1": (2, 2)}
    dgs = {k: S(2, *v) for k, v in dg.items()}
    tw = [(1, 2) if i % 2 == 0 else (2, 1) for i in range(12)]
    perm = [10, 3, 0, 11, 2, 1, 4, 9, 8, 5, 6, 7]
    for order in (["2", "10", "1"], ["1", "2", "10"]):
        mcases.append((
            "digit keys " + " ".join(order), dict(path_order=order), dg, dgs,
            None, lambda W, t, order=order: chain(None, [
                t[k] for k in order])))
    mcases += [
        ("digit keys nested", dict(path_order=["q.10", "q.1", "q.2"]),
         {"q": dg}, {"q": dgs}, None, lambda W, t: chain(None, [
             t["q"][k] for k in ("10", "1", "2")])),
        ("digit keys trained", dict(path_order=["1", "2", "..", "10"],
                                    trainable=True), dg, dgs, (1, 1),
         lambda W, t: chain(W, [t["1"], t["2"], t["10"]], 2)),
        ("twelve", {}, tw, [S(1, *v) for v in tw], None,
         lambda W, t: chain(None, t)),
        ("twelve in order", dict(path_order=[str(i) for i in perm]), tw,
         [S(1, *v) for v in tw], None,
         lambda W, t: chain(None, [t[i] for i in perm])),
        ("batch of six", dict(path_order=["b", "..", "a"], trainable=True),
         ab, {"a": S(6, 2, 3), "b": S(6, 3, 2)}, (2, 2),
         lambda W, t: chain(W, [t["b"], t["a"]], 1)),
        ("larger", dict(output_shape=5, trainable=True), (6,), S(3, 6),
         (5, 6), lambda W, x: oeinsum("ab,zb->za", W, x)),
        ("complex data", dict(path_order=["b", "a"]), ab,
         {"a": ((2, 2, 3), CX), "b": ((2, 3, 2), CX)}, None,
         lambda W, t: chain(None, [t["b"], t["a"]])),
        ("complex mixed", dict(path_order=["b", "..", "a"], trainable=True,
                               real=False), ab,
         {"a": ((2, 2, 3), CX), "b": S(2, 3, 2)}, (2, 2),
         lambda W, t: chain(W, [t["b"], t["a"]], 1)),
    ]
    for nm, kw, sh, isp, ps, rf in mcases:
        def setup(kw=kw, sh=sh):
            m = M.MatMul(**kw)
            m.compile(KEY, sh)
            m.set_precision(64)
            return m
        k = CX if kw.get("real") is False else R
        if ps is None:
            out.append(Case(f"MatMul {nm}", [isp],
                            lambda m, x: mcall(m, (), x),
                            ref=lambda x, rf=rf: rf(None, x), setup=setup,
                            funcs=FM, bounds=f"{sh}"))
        else:
            out.append(Case(f"MatMul {nm}", [(ps, k), isp],
                            lambda m, W, x: mcall(m, W, x),
                            ref=lambda W, x, rf=rf: rf(W, x), setup=setup,
                            funcs=FM, bounds=f"{sh}"))

    # --- LinearNN
    for bias in (True, False):
        for act in (None, "ReLU"):
            for real in (True, False):
                if act and not real:
                    continue
                k = R if real else CX

                def setup(bias=bias, act=act, real=real):
                    m = M.LinearNN(2, bias=bias, real=real, activation=(
                        getattr(M, act)() if act else None))
                    m.compile(KEY, (2, 2))
                    m.set_precision(64)
                    return m

                def fn(m, W, b, x, bias=bias):
                    st = jax.tree.structure(m.get_params())
                    return mcall(m, jax.tree.unflatten(
                        st, [W, b] if bias else [W]), x, state=m.get_state())

                def rf(W, b, x, bias=bias, act=act):
                    y = oeinsum("of,zf->zo", W, x.reshape(len(x), -1))
                    if bias:
                        y = y + b[None]
                    if act:
                        y = J.vec(lambda e: C.emax(e, el(0)), y)
                    return y
                out.append(Case(f"LinearNN bias={bias} act={act} real={real}",
                                [((2, 4), k), ((2,), k), S(2, 2, 2)], fn,
                                ref=rf, setup=setup,
                                funcs=["modules.linearnn.LinearNN.compile"],
                                bounds="4 features, 2 outputs, batch 2"))

    # --- FuncBase
    class Poly(M.FuncBase):
        __version__ = "0"

        def __init__(self, c=2.0):
            self.c = c

        def f(self, data):
            return {"s": data["a"] * self.c + data["b"], "t": data["a"] ** 2}

        def get_hyperparameters(self):
            return {"c": self.c}

    out.append(Case("FuncBase", [{"a": S(2, 2), "b": S(2, 2)}],
                    lambda t: mcall(Poly(3.0), (), t),
                    ref=lambda t: {"s": t["a"] * el(3) + t["b"],
                                   "t": t["a"] * t["a"]},
                    funcs=["modules.funcbase.FuncBase._get_callable"],
                    bounds="two leaves"))
    return out
