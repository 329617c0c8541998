"""Tree arithmetic and comparisons.  Arithmetic helpers are traced on trees of
symbolic real and complex arrays and proved equal to the elementwise formula;
value comparisons are traced with the verdict as a path decided by the solver;
shape comparisons run on stand-in arrays whose dimensions are symbolic
integers."""
from .common import *
from .P22 import arr, dims, conj
from ..psym import PCase
from parametricmatrixmodels import tree_util as TU

ASSUMPTIONS = ["dimensions between 1 and 6 (shape comparisons)"]


def T(kind, n=2):
    s = SC if kind == "c" else S
    return {
        "one": s(n, 2), "vec": s(n), "scalar": s(),
        "dict": {"b": s(n), "a": s(1, n)},
        "nest": {"a": [s(n), (s(1, 2), s())], "b": {"c": s(2, 1)}},
    }


def mp(f, *ts):
    return jax.tree.map(lambda *a: onp.asarray(f(*a), dtype=object), *ts,
                        is_leaf=is_arr)


def ew(f):
    """elementwise on object arrays (also 0-d)"""
    def g(*a):
        a = onp.broadcast_arrays(*[onp.asarray(x, dtype=object) for x in a])
        r = onp.empty(a[0].shape, dtype=object)
        for i in onp.ndindex(*r.shape):
            r[i] = f(*[el(x[i]) for x in a])
        return r
    return g


BIN = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b,
       "mul": lambda a, b: a * b, "div": lambda a, b: a / b}


def bin_case(op, tn, k1, k2):
    def fn(a, b):
        return getattr(TU, op)(a, b)

    def ref(a, b):
        return mp(ew(BIN[op]), a, b)

    def assume(ins):
        if op != "div":
            return []
        return [B(C.bnot(el(e).eq(el(0)).v)) for a in jax.tree.leaves(
            ins[1], is_leaf=is_arr) for e in a.reshape(-1)]
    return Case(f"{op} {tn} {k1}{k2}", [T(k1)[tn], T(k2)[tn]], fn, ref=ref,
                assume=assume, funcs=["tree_util." + op],
                bounds="tree " + tn)


def brd_case(op):
    def fn(a, b):
        return getattr(TU, op)(a, b)

    def ref(a, b):
        return mp(ew(BIN[op]), a, b)
    return Case(f"{op} broadcasting", [{"a": S(2, 2), "b": S(3)},
                                       {"a": S(2), "b": S()}], fn, ref=ref,
                assume=lambda ins: [
                    B(C.bnot(el(e).eq(el(0)).v)) for a in jax.tree.leaves(
                        ins[1], is_leaf=is_arr) for e in a.reshape(-1)],
                funcs=["tree_util." + op], bounds="leaves broadcast")


def sq(x):
    return x * onp.conjugate(x)


def un_case(op, tn, k):
    """value and, for the roots, the defining equation"""
    def fn(t):
        return getattr(TU, op)(t)

    def goals(ins, out):
        t, = ins
        if op == "neg":
            return eqs(out, mp(ew(lambda x: el(0) - x), t), op)
        if op == "abs_sqr":
            return eqs(out, mp(ew(sq), t), op)
        st = eqs(mp(lambda a: a * el(0), out), mp(lambda a: a * el(0), t), op)
        o2 = lambda f: mp(ew(f), out)
        nn = [Goal("le", el(0), e, label=op + " is not negative")
              for a in jax.tree.leaves(out, is_leaf=is_arr)
              for e in a.reshape(-1)]
        if op == "abs":
            return st + nn + eqs(o2(lambda x: x * x), mp(ew(sq), t),
                                 "abs squared")
        if op == "abs_sqrt":
            return st + nn + eqs(o2(lambda x: x * x * x * x),
                                 mp(ew(sq), t), "abs_sqrt^4")
        return st + nn + eqs(o2(lambda x: x * x), t, "sqrt squared")

    def assume(ins):
        if op != "sqrt":
            return []
        return [B(C.rcmp("ge", el(e).re, 0)) for a in jax.tree.leaves(
            ins[0], is_leaf=is_arr) for e in a.reshape(-1)]
    return Case(f"{op} {tn} {k}", [T(k)[tn]], fn, goals, assume=assume,
                funcs=["tree_util." + op], bounds="tree " + tn,
                gen=(lambda rng: [jax.tree.map(lambda s: onp.abs(
                    onp.array(rng.random() * 3 + onp.zeros(s[0]))), T(k)[tn],
                    is_leaf=isspec)]) if op == "sqrt" else None)


def isspec(x):
    return isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], str)


def pow_case(n, tn, k):
    def fn(t):
        return TU.pow(t, n)

    def ref(t):
        def p(x):
            r = el(1)
            for _ in range(abs(int(n))):
                r = r * x
            return r if n >= 0 else el(1) / r
        return mp(ew(p), t)

    def assume(ins):
        if n >= 0:
            return []
        return [B(C.bnot(el(e).eq(el(0)).v)) for a in jax.tree.leaves(
            ins[0], is_leaf=is_arr) for e in a.reshape(-1)]
    return Case(f"pow {n} {tn} {k}", [T(k)[tn]], fn, ref=ref, assume=assume,
                funcs=["tree_util.pow"], bounds="tree " + tn)


def scal_case(op, tn, k, how):
    f = BIN[op[-3:]]

    def fn(t, s):
        if how == "array":
            return getattr(TU, op)(t, s)
        return getattr(TU, op)(t, {"float": 2.5, "int": -3,
                                   "complex": 1.5 - 2j}[how])

    def ref(t, s):
        v = {"array": s.reshape(-1)[0], "float": el(Fraction(5, 2)),
             "int": el(-3), "complex": E(Fraction(3, 2), Fraction(-2))}[how]
        return mp(ew(lambda x: f(x, v)), t)
    return Case(f"{op} {tn} {k} {how}", [T(k)[tn], SC() if k == "c" else S()],
                fn, ref=ref, funcs=["tree_util." + op], bounds="tree " + tn)


def mean_case(tn, k):
    def fn(t):
        return TU.mean(t)

    def ref(t):
        es = [el(e) for a in jax.tree.leaves(t, is_leaf=is_arr)
              for e in a.reshape(-1)]
        r = onp.empty((), dtype=object)
        r[()] = sum(es, el(0)) / el(len(es))
        return r
    return Case(f"mean {tn} {k}", [T(k)[tn]], fn, ref=ref,
                funcs=["tree_util.mean"], bounds="tree " + tn)


def cat_case(sizes, axis, many):
    sh = lambda n: {"a": S(*(n if j == axis % 2 else 2 for j in range(2))),
                    "b": [S(*(n if j == axis % 2 else 1 for j in range(2)))]}

    def fn(*ts):
        return TU.concatenate(list(ts) if many == "list" else tuple(ts),
                              axis=axis)

    def ref(*ts):
        return mp(lambda *a: onp.concatenate(a, axis=axis), *ts)
    return Case(f"concatenate {sizes} axis={axis} {many}",
                [sh(n) for n in sizes], fn, ref=ref,
                funcs=["tree_util.concatenate"], bounds=f"parts {sizes}")


# -------------------------------------------------------- value comparisons
def cmp_case(op, tn, k, other=None):
    """verdict <=> the formula; other: leaf specs of the second tree"""
    def fn(a, b):
        r = getattr(TU, op)(a, b)
        return jnp.asarray(bool(r))

    def goals(ins, out):
        a, b = ins
        la = jax.tree.leaves(a, is_leaf=is_arr)
        lb = jax.tree.leaves(b, is_leaf=is_arr)
        c = jax.tree.structure(a, is_leaf=is_arr) == jax.tree.structure(
            b, is_leaf=is_arr) and [x.shape for x in la] == \
            [x.shape for x in lb]
        if c:
            for x, y in zip(la, lb):
                for u, v in zip(x.reshape(-1), y.reshape(-1)):
                    u, v = el(u), el(v)
                    if op == "all_equal":
                        c = C.band(c, u.eq(v).v)
                    else:
                        d = u - v
                        lim = Fraction(1, 10**8)
                        rt = Fraction(1, 10**5)
                        # |d| <= lim + rt |v|
                        ab = lambda z: ite(C.rcmp("ge", z.re, 0), z,
                                           el(0) - z)
                        c = C.band(c, C.rcmp("le", ab(d).re, (
                            el(lim) + el(rt) * ab(v)).re))
        o = C.tb(out.reshape(-1)[0])
        return [Goal("true", B(C.bor(C.band(o, c), C.band(
            C.bnot(o), C.bnot(c)))), label=f"{op} verdict")]

    def assume(ins):
        if op == "all_equal":
            return []
        # stay off the decision boundary, which floats cannot resolve
        a, b = ins
        r = []
        for x, y in zip(jax.tree.leaves(a, is_leaf=is_arr),
                        jax.tree.leaves(b, is_leaf=is_arr)):
            if x.shape != y.shape:
                continue
            for u, v in zip(x.reshape(-1), y.reshape(-1)):
                u, v = el(u), el(v)
                ab = lambda z: ite(C.rcmp("ge", z.re, 0), z, el(0) - z)
                d = ab(u - v)
                th = el(Fraction(1, 10**8)) + el(Fraction(1, 10**5)) * ab(v)
                r.append(B(C.bor(
                    C.rcmp("ge", d.re, (th * el(Fraction(101, 100))).re),
                    C.rcmp("le", d.re, (th * el(Fraction(99, 100))).re))))
        return r
    return Case(f"{op} {tn} {k}" + (f" other {other}" if other is not None else ""),
                [T(k)[tn], T(k)[tn] if other is None else other], fn, goals,
                assume=assume, forks=60, funcs=["tree_util." + op],
                bounds="tree " + tn, gen=None)


def cmpmix_case(op):
    """leaves that are not arrays"""
    def fn(ex):
        vs = [ex.int(f"v{i}", -3, 3) for i in range(4)]
        st = ex.pick("second", ["same", "list", "short"])
        a = {"p": [vs[0], "name"], "q": vs[1]}
        b = {"same": {"p": [vs[2], "name"], "q": vs[3]},
             "list": {"p": (vs[2], "name"), "q": vs[3]},
             "short": {"p": [vs[2], "name"]}}[st]
        r = bool(getattr(TU, op)(a, b))
        want = st == "same" and ((vs[0] == vs[2]) & (vs[1] == vs[3]))
        ex.check(want == r, f"{op} says {r}")
    return PCase(f"{op} plain leaves", fn, funcs=["tree_util." + op],
                 bounds="integers -3..3, three structures")


# -------------------------------------------------------- shape comparisons
AXES = [None, 0, 1, -1, (0, 1), (1,), (-1, 0), slice(1, None), slice(0, 1),
        slice(None), slice(-1, None), ()]


def sel(shape, axis):
    if axis is None:
        return tuple(shape)
    if isinstance(axis, slice):
        return tuple(shape[axis])
    if isinstance(axis, int):
        axis = (axis,)
    return tuple(shape[a] for a in axis)


def eqsh(a, b):
    return len(a) == len(b) and conj(*[x == y for x, y in zip(a, b)])


def shp_case(ai, struct, ranks):
    """ranks: ranks of the leaves of both trees (2+2)"""
    axis = AXES[ai]

    def fn(ex):
        sh = [dims(ex, f"d{i}", r) for i, r in enumerate(ranks)]
        A = [arr(ex, s) for s in sh]
        t1 = {"a": A[0], "b": [A[1]]}
        t2 = {"same": {"a": A[2], "b": [A[3]]},
              "tuple": {"a": A[2], "b": (A[3],)},
              "list": [A[2], A[3]]}[struct]
        s = [sel(x, axis) for x in sh]
        ex.opaque_str = True
        r = bool(TU.shapes_equal(t1, t2, axis))
        w = struct == "same" and conj(eqsh(s[0], s[2]), eqsh(s[1], s[3]))
        ex.check(w == r, f"shapes_equal says {r}")
        r = bool(TU.has_uniform_leaf_shapes(t1, axis))
        ex.check(eqsh(s[0], s[1]) == r, f"has_uniform_leaf_shapes says {r}")
        r = bool(TU.has_uniform_leaf_shapes([t1, t2], axis))
        ex.check(conj(*[eqsh(s[0], x) for x in s[1:]]) == r,
                 f"has_uniform_leaf_shapes of four says {r}")
        r = bool(TU.uniform_leaf_shapes_equal(t1, t2, axis))
        ex.check(conj(*[eqsh(s[0], x) for x in s[1:]]) == r,
                 f"uniform_leaf_shapes_equal says {r}")
        g = TU.get_shapes(t1, axis)
        ok = set(g) == {"a", "b"} and len(g["b"]) == 1
        ex.check(ok and conj(eqsh(tuple(g["a"]), s[0]),
                             eqsh(tuple(g["b"][0]), s[1])), "get_shapes")
    return PCase(f"shapes axis={axis} {struct} ranks {ranks}", fn, weight=2,
                 funcs=["tree_util.shapes_equal",
                        "tree_util.has_uniform_leaf_shapes",
                        "tree_util.uniform_leaf_shapes_equal",
                        "tree_util.get_shapes"],
                 bounds="dimensions 1..6")


def single_case(rank):
    def fn(ex):
        sh = dims(ex, "d", rank)
        want = dims(ex, "w", 2)
        wild = [ex.bool(f"any{i}") for i in range(2)]
        two = ex.bool("two leaves")
        form = ex.pick("form", ["array", "shape"])
        leaf = arr(ex, sh) if form == "array" else sh
        tree = {"a": [leaf, leaf]} if bool(two) else {"a": [leaf]}
        isl = TU.is_shape_leaf if form == "shape" else None
        shape = tuple(None if bool(w) else x for w, x in zip(wild, want))
        ex.opaque_str = True
        q = ex.pick("query", ["none", "ndim", "shape", "both"])
        kw = {}
        if q in ("ndim", "both"):
            kw["ndim"] = 2
        if q in ("shape", "both"):
            kw["shape"] = shape
        import io, contextlib
        with contextlib.redirect_stdout(io.StringIO()):
            r, v = TU.is_single_leaf(tree, is_leaf=isl, **kw)
        w = not bool(two)
        if w and q != "none":
            w = rank == 2
        if w and q in ("shape", "both"):
            w = conj(*[a == b for a, b in zip(sh, shape) if b is not None])
        ex.check(w == bool(r), f"is_single_leaf({kw}) says {r}")
        ex.check(v is leaf if bool(r) else v is None, "returned leaf")
    return PCase(f"single leaf rank {rank}", fn,
                 funcs=["tree_util.is_single_leaf", "tree_util.is_shape_leaf"],
                 bounds="dimensions 1..6, wildcards")


def mutable_case():
    def fn(ex):
        cnt = [0]

        def build(d):
            cnt[0] += 1
            k = ex.pick(f"node{cnt[0]}", ["leaf", "tuple", "list", "dict"]) \
                if d else "leaf"
            if k == "leaf":
                return ex.int(f"v{cnt[0]}")
            n = 1 + bool(ex.bool(f"two{cnt[0]}"))
            kids = [build(d - 1) for _ in range(n)]
            return {"tuple": tuple, "list": list, "dict": lambda x: {
                "kb"[i]: v for i, v in enumerate(x)}}[k](kids)

        def want(t):
            if type(t) in (tuple, list):
                return [want(x) for x in t]
            if type(t) is dict:
                return {k: want(v) for k, v in t.items()}
            return t

        def same(a, b):
            if type(b) is list:
                return type(a) is list and len(a) == len(b) and all(
                    same(x, y) for x, y in zip(a, b))
            if type(b) is dict:
                return type(a) is dict and set(a) == set(b) and all(
                    same(a[k], b[k]) for k in b)
            return a is b or (type(a) is int and a == b)
        t = build(2)
        ex.check(same(TU.make_mutable(t), want(t)), "make_mutable")
    return PCase("make_mutable", fn, funcs=["tree_util.make_mutable"],
                 bounds="trees of depth 2, one or two children")


def jobs(tier):
    q = tier == "quick"
    out = []
    tns = ["one", "scalar", "dict", "nest"]
    for op in BIN:
        for tn in tns:
            for kk in (("r", "r"), ("c", "c"), ("r", "c"), ("c", "r")):
                if kk[0] != kk[1] and (tn != "dict" or op == "div"):
                    continue
                out.append(bin_case(op, tn, *kk))
        out.append(brd_case(op))
    for op in ("neg", "abs", "abs_sqr", "sqrt", "abs_sqrt"):
        for tn in tns:
            for k in ("r", "c"):
                if op == "sqrt" and k == "c":
                    continue
                out.append(un_case(op, tn, k))
    for n in (0, 1, 2, 3, -1, -2, 2.0):
        for tn, k in (("dict", "r"), ("nest", "r"), ("dict", "c")):
            if k == "c" and n not in (1, 2, 3):
                continue
            out.append(pow_case(n, tn, k))
    for op in ("scalar_add", "scalar_mul"):
        for tn in ("dict", "nest", "scalar"):
            for k in ("r", "c"):
                for how in ("array", "float", "int", "complex"):
                    out.append(scal_case(op, tn, k, how))
    for tn in tns:
        for k in ("r", "c"):
            out.append(mean_case(tn, k))
    for sizes in ((2,), (1, 2), (2, 1, 3), (2, 0, 1)):
        for axis in (0, 1, -1):
            for many in ("list", "tuple"):
                out.append(cat_case(sizes, axis, many))
    for op in ("all_equal", "all_close"):
        for tn in ("one", "dict", "nest"):
            out.append(cmp_case(op, tn, "r"))
        if op == "all_equal":   # allclose broadcasts
            out.append(cmp_case(op, "dict", "r", {"b": S(2), "a": S(2, 1)}))
        out.append(cmp_case(op, "dict", "r", [S(1, 2), S(2)]))
        out.append(cmp_case(op, "dict", "r", {"b": S(2), "c": S(1, 2)}))
        out.append(cmpmix_case(op))
    out.append(cmp_case("all_equal", "dict", "c"))
    for ai in range(len(AXES)):
        for struct in ("same", "tuple", "list"):
            out.append(shp_case(ai, struct, (2, 2, 2, 2)))
        out.append(shp_case(ai, "same", (2, 3, 2, 3)))
        out.append(shp_case(ai, "same", (2, 2, 3, 3)))
    for r in (1, 2, 3):
        out.append(single_case(r))
    out.append(mutable_case())
    return out
