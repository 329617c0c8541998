"""Scalers and encoders: fit, transform and inverse_transform of the real
classes are traced with symbolic training data and symbolic new data and
proved equal to their documented formulas; inverse_transform is proved to undo
transform, also after serialize/deserialize."""
from pv.props.common import *
from pv.harness import is_spec
from parametricmatrixmodels.preprocessing import (
    MinMaxScaler, StandardScaler, RobustScaler, MixedScaler, OneHot)

ASSUMPTIONS = ["features are constant or spread by at least 1/8",
               "OneHot.fit: numpy's unique is replaced by its specification "
               "(sorted distinct rows) while tracing"]


def F(c):
    return [f"preprocessing.{c.__name__}.{m}" for m in
            ("fit", "transform", "inverse_transform", "serialize",
             "deserialize")]


def cols(t):
    """leaves as list of (path index, feature idx) -> column list"""
    out = []
    for a in jax.tree.leaves(t, is_leaf=is_arr):
        out.append(a)
    return out


def omin(a):
    r = a[0]
    for x in a[1:]:
        r = J.vec(C.emin, onp.asarray(r, dtype=object),
                  onp.asarray(x, dtype=object))
    return onp.asarray(r, dtype=object)


def omax(a):
    r = a[0]
    for x in a[1:]:
        r = J.vec(C.emax, onp.asarray(r, dtype=object),
                  onp.asarray(x, dtype=object))
    return onp.asarray(r, dtype=object)


def osort(a):
    """sort rows of an (N, ...) array per feature: list of arrays"""
    a = [onp.asarray(x, dtype=object) for x in a]
    n = len(a)
    for i in range(n):
        for j in range(n - 1 - i):
            lo = J.vec(C.emin, a[j], a[j + 1])
            hi = J.vec(C.emax, a[j], a[j + 1])
            a[j], a[j + 1] = lo, hi
    return a


def quant(a, q):
    s = osort(list(a))
    h = Fraction(q) * (len(s) - 1)
    i = int(h)
    if i == len(s) - 1:
        return s[i]
    f = h - i
    return s[i] * el(1 - f) + s[i + 1] * el(f)


def omean(a):
    return onp.asarray(sum(list(a[1:]), a[0]) * el(Fraction(1, len(a))),
                       dtype=object)


def ostd(a):
    m = omean(a)
    v = omean([(x - m) * (x - m) for x in a])
    return J.vec(lambda e: C.uf("sqrt", e), onp.asarray(v, dtype=object))


def tmap(f, *ts):
    return jax.tree.map(f, *ts, is_leaf=lambda x: is_arr(x) or x is None)


SH = {"one": lambda n: S(n, 1), "two": lambda n: S(n, 2),
      "tree": lambda n: {"a": S(n, 1), "b": [S(n, 2), S(n, 1, 1)]},
      "three": lambda n: S(n, 3)}


def spread(ins):
    r = []
    for a in jax.tree.leaves(ins[0], is_leaf=is_arr):
        a = onp.asarray(a, dtype=object)
        for i in onp.ndindex(*a.shape[1:]):
            c = [a[(k,) + i] for k in range(a.shape[0])]
            o = B(False)
            for x, y in itertools.permutations(c, 2):
                o = o | (x - y >= el(Fraction(1, 8)))
            r.append(o)
    return r


def spread0(ins):
    """every feature is constant or spread out"""
    r = []
    for a in jax.tree.leaves(ins[0], is_leaf=is_arr):
        a = onp.asarray(a, dtype=object)
        for i in onp.ndindex(*a.shape[1:]):
            c = [a[(k,) + i] for k in range(a.shape[0])]
            o, e = B(False), B(True)
            for x, y in itertools.permutations(c, 2):
                o = o | (x - y >= el(Fraction(1, 8)))
                e = e & x.eq(y)
            r.append(o | e)
    return r


def pos(r):
    """the scale, or one where there is none"""
    return J.vec(lambda e: ite((e > el(0)).v, e, el(1)),
                 onp.asarray(r, dtype=object))


def run3(mk):
    """fit on A, then transform B, inverse(C), inverse(transform(B)), and the
    same through serialize/deserialize"""
    def fn(A, B_, C_):
        s = mk()
        if s.fit(A) is not s:
            raise AssertionError("fit does not return the scaler")
        s2 = type(s).deserialize(s.serialize())
        s3 = mk()
        ft = s3.fit_transform(A)
        return dict(t=s.transform(B_), i=s.inverse_transform(C_),
                    rt=s.inverse_transform(s.transform(B_)),
                    t2=s2.transform(B_), i2=s2.inverse_transform(C_), ft=ft)
    return fn


def affine_case(name, mk, cls, sh, n, fwd, inv, assume=spread0, weight=3,
                m=1, parts=("t", "i", "rt", "t2", "i2", "ft")):
    """fwd(A, X) and inv(A, Z) give the documented maps (trees)"""
    sp = [SH[sh](n), SH[sh](m), SH[sh](m)]

    def goals(ins, out):
        A, B_, C_ = ins
        t, i, ft = fwd(A, B_), inv(A, C_), fwd(A, A)
        want = dict(t=t, i=i, rt=B_, t2=t, i2=i, ft=ft)
        g = []
        for k in parts:
            g += eqs(out[k], want[k], k)
        return g
    return Case(f"{name} {sh} n={n}", sp, run3(mk), goals=goals,
                assume=assume, funcs=F(cls), weight=weight,
                bounds=f"{n} training rows, data {sh}")


def mm_maps(lo, hi):
    def leaf(l, h):
        def f(A, X):
            mn, mx = omin(list(A)), omax(list(A))
            return (X - mn) / pos(mx - mn) * (h - l) + l

        def g(A, Z):
            mn, mx = omin(list(A)), omax(list(A))
            return (Z - l) / (h - l) * pos(mx - mn) + mn
        return f, g

    def each(k):
        def go(A, X):
            la = jax.tree.leaves(A, is_leaf=is_arr)
            lx, td = jax.tree.flatten(X, is_leaf=is_arr)
            ll = per(lo, len(la))
            lh = per(hi, len(la))
            return jax.tree.unflatten(td, [
                x if l is None or h is None else onp.asarray(
                    leaf(ra(l), ra(h))[k](a, x), dtype=object)
                for a, x, l, h in zip(la, lx, ll, lh)])
        return go
    return each(0), each(1)


def per(v, n):
    if v is None or onp.ndim(v) == 0 and not isinstance(v, (dict, list)):
        return [v] * n
    if isinstance(v, (dict, list)):
        return jax.tree.leaves(v, is_leaf=lambda x: x is None or is_arr(x))
    return [onp.asarray(v)]


def std_maps():
    def f(A, X):
        return tmap(lambda a, x: onp.asarray(
            (x - omean(list(a))) / pos(ostd(list(a))), dtype=object), A, X)

    def g(A, Z):
        return tmap(lambda a, z: onp.asarray(
            z * pos(ostd(list(a))) + omean(list(a)), dtype=object), A, Z)
    return f, g


def rob_maps(lo, hi, cen, sca, eps=None):
    def leaf(a, l, h, c, s):
        med = quant(a, Fraction(1, 2)) if c else el(0)
        sc = el(1)
        if s and l is not None and h is not None:
            if onp.ndim(l):
                ql = onp.array([quant(a[:, j], l[j]) for j in range(
                    a.shape[1])], dtype=object)
                qh = onp.array([quant(a[:, j], h[j]) for j in range(
                    a.shape[1])], dtype=object)
                sc = qh - ql
            else:
                sc = quant(a, h) - quant(a, l)
        return med, sc

    def each(k):
        def go(A, X):
            la = jax.tree.leaves(A, is_leaf=is_arr)
            lx, td = jax.tree.flatten(X, is_leaf=is_arr)
            n = len(la)
            o = []
            for a, x, l, h, c, s in zip(la, lx, per(lo, n), per(hi, n),
                                        per(cen, n), per(sca, n)):
                med, sc = leaf(a, l, h, c, s)
                if eps is not None:
                    sc = J.vec(lambda e: ite((abs(e) > el(eps)).v, e, el(1)),
                               onp.asarray(sc, dtype=object))
                r = (x - med) / sc if k == 0 else x * sc + med
                o.append(onp.asarray(r, dtype=object))
            return jax.tree.unflatten(td, o)
        return go
    return each(0), each(1)


def rob_assume(lo, hi, cen, sca):
    def asm(ins):
        la = jax.tree.leaves(ins[0], is_leaf=is_arr)
        n = len(la)
        r = []
        for a, l, h, s in zip(la, per(lo, n), per(hi, n), per(sca, n)):
            if not s or l is None or h is None:
                continue
            if onp.ndim(l):
                d = onp.array([quant(a[:, j], h[j]) - quant(a[:, j], l[j])
                               for j in range(a.shape[1])], dtype=object)
            else:
                d = onp.asarray(quant(a, h) - quant(a, l), dtype=object)
            r += [e >= el(Fraction(1, 8)) for e in d.reshape(-1)]
        return r
    return asm


# ------------------------------------------------------------------- one-hot
class unique_spec:
    """while tracing, jnp.unique(x, axis=0) returns the k distinct rows in
    lexicographic order (k is the harness's bound)"""

    def __init__(self, ks):
        self.ks = list(ks)

    def __enter__(self):
        self.real = jnp.unique
        ks = list(self.ks)

        def unique(x, *a, axis=None, **kw):
            if not isinstance(x, jax.core.Tracer):
                return self.real(x, *a, axis=axis, **kw)
            if axis != 0 or x.ndim != 2 or a or kw:
                raise C.Unsupported("unique used in another way")
            k = ks.pop(0)
            N, f = x.shape
            srt = jax.lax.sort([x[:, j] for j in range(f)], num_keys=f)
            s = jnp.stack(srt, axis=1)
            new = jnp.concatenate([jnp.ones((1,), bool), jnp.any(
                s[1:] != s[:-1], axis=1)])
            rank = jnp.cumsum(new.astype(jnp.int32)) - 1
            sel = (rank[None, :] == jnp.arange(k)[:, None]) & new[None, :]
            return jnp.sum(jnp.where(sel[:, :, None], s[None], 0.0), axis=1)
        jnp.unique = unique
        return self

    def __exit__(self, *a):
        jnp.unique = self.real


def rows_of(a):
    return [list(onp.asarray(r, dtype=object).reshape(-1)) for r in a]


def eqrow(a, b):
    r = B(True)
    for x, y in zip(a, b):
        r = r & x.eq(y)
    return r


def ltrow(a, b):
    r = B(False)
    for x, y in reversed(list(zip(a, b))):
        r = (x < y) | (x.eq(y) & r)
    return r


def ndistinct(rows, k):
    """exactly k distinct rows"""
    n = el(0)
    for i, r in enumerate(rows):
        new = B(True)
        for q in rows[:i]:
            new = new & ~eqrow(r, q)
        n = n + el(new)
    return n.eq(el(k))


def onehot_case(sh, n, ks):
    sp = SH[sh](n)
    nl = len(ks)

    def fn(A, B_):
        with unique_spec(ks):
            o = OneHot()
            o.fit(A)
            t = o.transform(A)
            o2 = OneHot.deserialize(o.serialize())
            return dict(t=t, tb=o.transform(B_), rt=o.inverse_transform(t),
                        t2=o2.transform(B_), rt2=o2.inverse_transform(t))

    def enc(A, X, k):
        """row i, category j: X[i] equals the j-th smallest distinct row"""
        R, Q = rows_of(A), rows_of(X)
        out = onp.empty((len(Q), k), dtype=object)
        for i, q in enumerate(Q):
            member = B(False)
            below = el(0)
            for a, r in enumerate(R):
                member = member | eqrow(q, r)
                first = B(True)
                for p in R[:a]:
                    first = first & ~eqrow(p, r)
                below = below + el(first & ltrow(r, q))
            for j in range(k):
                out[i, j] = ite((member & below.eq(el(j))).v, el(1), el(0))
        return out

    def goals(ins, out):
        A, B_ = ins
        la = jax.tree.leaves(A, is_leaf=is_arr)
        lb, td = jax.tree.flatten(B_, is_leaf=is_arr)
        t = jax.tree.unflatten(td, [enc(a, a, k) for a, k in zip(la, ks)])
        tb = jax.tree.unflatten(td, [enc(a, b, k)
                                     for a, b, k in zip(la, lb, ks)])
        return eqs(out["t"], t, "encoding") + eqs(
            out["tb"], tb, "encoding of new data") + eqs(
            out["t2"], tb, "reloaded encoding") + eqs(
            out["rt"], A, "inverse") + eqs(out["rt2"], A, "reloaded inverse")

    def asm(ins):
        return [ndistinct(rows_of(a), k) for a, k in zip(
            jax.tree.leaves(ins[0], is_leaf=is_arr), ks)]

    def gen(rng):
        def one(s, k):
            shape = s[0]
            f = int(onp.prod(shape[1:]))
            cats = []
            while len(cats) < k:
                c = tuple(rng.randint(-1, 1) for _ in range(f))
                if c not in cats:
                    cats.append(c)
            idx = list(range(k)) + [rng.randrange(k)
                                    for _ in range(shape[0] - k)]
            rng.shuffle(idx)
            return onp.array([cats[i] for i in idx], dtype=float
                             ).reshape(shape)
        l, td = jax.tree.flatten(sp, is_leaf=is_spec)
        a = jax.tree.unflatten(td, [one(s, k) for s, k in zip(l, ks)])
        b = jax.tree.unflatten(td, [one(s, k) for s, k in zip(l, ks)])
        return [a, b]
    return Case(f"onehot {sh} n={n} k={ks}", [sp, sp], fn, goals=goals,
                assume=asm, gen=gen, funcs=F(OneHot), weight=4,
                bounds=f"{n} rows, {ks} categories")


def refit_case(mk, cls, fwd, nm):
    """fitting again replaces the earlier fit"""
    def fn(A0, A, X):
        s = mk()
        s.fit(A0)
        s.transform(A0)
        s.fit(A)
        return s.transform(X)
    return Case(f"refit {nm}", [S(2, 1), S(2, 1), S(1, 1)], fn,
                goals=lambda ins, out: eqs(out, fwd(ins[1], ins[2]), "refit"),
                assume=lambda ins: spread0(ins) + spread0(ins[1:]),
                funcs=F(cls), weight=2, bounds="2 rows")


def unfitted(mk, cls, nm):
    def fn(X):
        n = 0
        s = mk()
        for f in (s.transform, s.inverse_transform):
            try:
                f(X)
            except RuntimeError:
                n += 1
        return X[0, 0] * 0 + n
    return Case(f"unfitted {nm}", [S(1, 1)], fn, goals=lambda ins, out: [
        Goal("eq", out[()], el(2), label="use before fit rejected")],
        funcs=F(cls), bounds="one value")


def file_case(nm, mk, cls, sp, n, assume=spread0):
    """a saved and loaded scaler transforms every value as the original"""
    from pv.props.P16 import world
    import pathlib

    def fn(A, B_, C_):
        out = []
        with world():
            s = mk()
            s.fit(A)
            want = (s.transform(B_), s.inverse_transform(C_))
            for save, f, g in (
                    ("save", "s", "s"), ("save", "s.npz", "s.npz"),
                    ("save_compressed", "s", "s"),
                    ("save", pathlib.Path("p"), pathlib.Path("p")),
                    ("save_compressed", pathlib.Path("q.npz"), "q"),
                    ("save", pathlib.Path("r"), "r")):
                getattr(s, save)(f)
                l = cls.load(g)
                out.append((l.transform(B_), l.inverse_transform(C_)))
                l = cls.from_file(g)
                out.append((l.transform(B_), l.inverse_transform(C_)))
        return want, out

    def goals(ins, o):
        return [g for r in o[1] for g in eqs(r, o[0], "reloaded")]
    return Case(f"file {nm} n={n}", [sp(n), sp(1), sp(1)], fn, goals=goals,
                assume=assume, funcs=F(cls) + ["preprocessing.Scaler.save/"
                                               "load"],
                weight=2, bounds=f"{n} training rows; six ways to name the "
                "file")


def range_case(n):
    """every target range"""
    def fn(A, B_, lo, hi):
        s = MinMaxScaler(jnp.stack([lo, hi]))
        t = s.fit(A).transform(A)
        return dict(t=s.transform(B_), i=s.inverse_transform(B_), a=t,
                    rt=s.inverse_transform(s.transform(B_)))

    def goals(ins, out):
        A, B_, lo, hi = ins
        f, g = mm_maps(lo[()], hi[()])
        return eqs(out["t"], f(A, B_), "transform") + eqs(
            out["i"], g(A, B_), "inverse") + eqs(out["rt"], B_, "round trip"
                                                 )
    return Case(f"minmax any range n={n}", [S(n, 1), S(1, 1), S(), S()], fn,
                goals=goals, funcs=F(MinMaxScaler), weight=3,
                assume=lambda ins: spread(ins) + [
                    ((ins[2][()] - ins[3][()] >= el(Fraction(1, 8)))
                     | (ins[3][()] - ins[2][()] >= el(Fraction(1, 8))))],
                bounds=f"{n} training rows, every range")


def constant_case(mk, cls, n, base, nm):
    """a feature that is constant in the training data beside one that is
    not: both invert exactly, and the constant maps to the documented value"""
    def fn(c, a, x):
        A = jnp.stack([jnp.broadcast_to(c, (n,)), a], axis=1)
        s = mk()
        t = s.fit(A).transform(A)
        return dict(t=t[:, 0], x=s.inverse_transform(s.transform(x)),
                    a=s.inverse_transform(t))

    def goals(ins, out):
        c, a, x = ins
        A = onp.array([[c[()], v] for v in a], dtype=object)
        # the rounded standard deviation of a constant need not be zero
        return ([] if base is None else eqs(
            out["t"], onp.array([el(base)] * n, dtype=object),
            "constant feature")) + eqs(out["x"], x, "round trip") \
            + eqs(out["a"], A, "round trip of training data")
    return Case(f"constant feature {nm} n={n}", [S(), S(n), S(2, 2)], fn,
                goals=goals, funcs=F(cls), weight=2,
                assume=lambda ins: spread([ins[1].reshape(-1, 1)]),
                bounds=f"{n} rows, one constant and one varying feature")


def mixed_case(n):
    mk = lambda: MixedScaler({"a": MinMaxScaler((-1.0, 1.0)), "b": None,
                              "c": [StandardScaler(),
                                    RobustScaler((0.0, 1.0))]})
    sp = lambda n: {"a": S(n, 1), "b": S(n, 2), "c": [S(n, 1), S(n, 1)]}
    mmf, mmi = mm_maps(-1.0, 1.0)
    sf, si = std_maps()
    rf, ri = rob_maps(0, 1, True, True)

    def fwd(A, X):
        return {"a": mmf(A["a"], X["a"]), "b": X["b"],
                "c": [sf(A["c"][0], X["c"][0]), rf(A["c"][1], X["c"][1])]}

    def inv(A, X):
        return {"a": mmi(A["a"], X["a"]), "b": X["b"],
                "c": [si(A["c"][0], X["c"][0]), ri(A["c"][1], X["c"][1])]}

    def goals(ins, out):
        A, B_, C_ = ins
        t, i = fwd(A, B_), inv(A, C_)
        return eqs(out["t"], t, "t") + eqs(out["i"], i, "i") + eqs(
            out["t2"], t, "t2") + eqs(out["i2"], i, "i2") + eqs(
            out["rt"], B_, "rt")
    return Case(f"mixed n={n}", [sp(n), sp(1), sp(1)], run3(mk), goals=goals,
                assume=spread, funcs=F(MixedScaler), weight=4,
                bounds=f"{n} training rows")


def jobs(tier):
    T = tier == "thorough"
    out = []
    mm = [("minmax", (0.0, 1.0)), ("minmax -1..3", (-1.0, 3.0)),
          ("minmax ints", (1, 2)), ("minmax reversed", (2.0, -1.0)),
          ("minmax to zero", (-3.0, 0.0)), ("minmax wide", (-100, 50))]
    for nm, (lo, hi) in mm:
        for sh in ("one", "two", "tree"):
            for n in (2, 3) + ((4,) if T else ()):
                f, g = mm_maps(lo, hi)
                out.append(affine_case(nm, lambda lo=lo, hi=hi: MinMaxScaler(
                    (lo, hi)), MinMaxScaler, sh, n, f, g))
    lo, hi = onp.array([0.0, -1.0]), onp.array([2.0, 1.0])
    f, g = mm_maps(lo, hi)
    out.append(affine_case("minmax per feature", lambda: MinMaxScaler(
        (jnp.asarray(lo), jnp.asarray(hi))), MinMaxScaler, "two", 3, f, g))
    tl, th = {"a": 0.0, "b": [None, -2.0]}, {"a": 3.0, "b": [1.0, 2.0]}
    f, g = mm_maps(tl, th)
    out.append(affine_case("minmax per leaf", lambda: MinMaxScaler((tl, th)),
                           MinMaxScaler, "tree", 2, f, g))
    f, g = mm_maps(None, 1.0)
    for sh in ("two", "tree"):
        out.append(affine_case("minmax none", lambda: MinMaxScaler(
            (None, 1.0)), MinMaxScaler, sh, 2, f, g))
    f, g = std_maps()
    for sh in ("one", "two", "tree"):
        for n in (2, 3) + ((4,) if T else ()):
            out.append(affine_case("standard", StandardScaler, StandardScaler,
                                   sh, n, f, g))
    for nm, ql, qh, c, s in (
            ("robust", 0.25, 0.75, True, True),
            ("robust 0..1", 0.0, 1.0, True, True),
            ("robust nocenter", 0.25, 0.75, False, True),
            ("robust noscale", 0.25, 0.75, True, False),
            ("robust none", None, None, True, True)):
        for sh in ("one", "two", "tree"):
            for n in (2, 3) + ((4,) if T and sh == "one" else ()):
                f, g = rob_maps(ql, qh, c, s)
                out.append(affine_case(
                    nm, lambda a=(ql, qh), c=c, s=s: RobustScaler(
                        a, with_centering=c, with_scaling=s), RobustScaler,
                    sh, n, f, g, assume=rob_assume(ql, qh, c, s)))
    for eps in (0.5, 2.0):
        for sh in ("one", "tree"):
            f, g = rob_maps(0.25, 0.75, True, True, eps)
            out.append(affine_case(
                f"robust eps={eps}", lambda eps=eps: RobustScaler(eps=eps),
                RobustScaler, sh, 2, f, g, assume=lambda ins: []))
    f, g = rob_maps(0.75, 0.25, True, True)
    out.append(affine_case("robust reversed", lambda: RobustScaler(
        (0.75, 0.25)), RobustScaler, "one", 3, f, g))
    ql, qh = onp.array([0.0, 0.25]), onp.array([1.0, 0.75])
    f, g = rob_maps(ql, qh, True, True)
    out.append(affine_case("robust per feature", lambda: RobustScaler(
        (jnp.asarray(ql), jnp.asarray(qh))), RobustScaler, "two", 3, f, g,
        assume=rob_assume(ql, qh, True, True)))
    tc = {"a": True, "b": [False, True]}
    ts = {"a": False, "b": [True, True]}
    tq0, tq1 = {"a": 0.25, "b": [0.0, None]}, {"a": .75, "b": [1.0, .5]}
    f, g = rob_maps(tq0, tq1, tc, ts)
    out.append(affine_case("robust per leaf", lambda: RobustScaler(
        (tq0, tq1), with_centering=tc, with_scaling=ts), RobustScaler, "tree",
        3, f, g, assume=rob_assume(tq0, tq1, tc, ts)))
    out.append(mixed_case(2))
    for n in (2, 3):
        out.append(range_case(n))
    out.append(refit_case(MinMaxScaler, MinMaxScaler, mm_maps(0., 1.)[0],
                          "minmax"))
    out.append(refit_case(StandardScaler, StandardScaler, std_maps()[0],
                          "standard"))
    out.append(refit_case(lambda: RobustScaler((0.0, 1.0)), RobustScaler,
                          rob_maps(0, 1, True, True)[0], "robust"))
    trees = [("array", lambda n: S(n, 2)), ("image", lambda n: S(n, 2, 2)),
             ("dict", lambda n: {"a": S(n, 1), "b": [S(n, 2), S(n, 1)]}),
             ("list", lambda n: [S(n, 1), S(n, 1)]),
             ("ragged list", lambda n: [S(n, 1), S(n, 2)]),
             ("tuple", lambda n: (S(n, 2), S(n, 2))),
             ("ragged tuple", lambda n: (S(n, 1), [S(n, 2)])),
             ("one leaf", lambda n: [S(n, 2)])]
    for nm, sp in trees:
        for sn, mk, cls in (
                ("minmax", lambda: MinMaxScaler((-1.0, 2)), MinMaxScaler),
                ("minmax none", lambda: MinMaxScaler((None, 1.0)),
                 MinMaxScaler),
                ("standard", StandardScaler, StandardScaler),
                ("robust", lambda: RobustScaler((0.25, 0.5)), RobustScaler),
                ("robust nocenter", lambda: RobustScaler(
                    with_centering=False), RobustScaler),
                ("robust eps", lambda: RobustScaler(
                    eps=0.5, with_scaling=True), RobustScaler),
                ("mixed", lambda sp=sp: MixedScaler(jax.tree.map(
                    lambda _: MinMaxScaler((0.0, 2.0)), sp(1),
                    is_leaf=is_spec)), MixedScaler),
                ("mixed none", lambda: MixedScaler(), MixedScaler)):
            out.append(file_case(f"{sn} {nm}", mk, cls, sp, 2))
    for n in (2, 3):
        for mk, cls, base, nm in (
                (MinMaxScaler, MinMaxScaler, 0, "minmax"),
                (lambda: MinMaxScaler((-1.0, 3.0)), MinMaxScaler, -1,
                 "minmax -1..3"),
                (StandardScaler, StandardScaler, None, "standard"),
                (RobustScaler, RobustScaler, 0, "robust")):
            out.append(constant_case(mk, cls, n, base, nm))
    for mk, nm in ((MinMaxScaler, "minmax"), (StandardScaler, "standard"),
                   (RobustScaler, "robust"), (OneHot, "onehot")):
        out.append(unfitted(mk, mk, nm))
    for sh, n, ks in (("one", 2, (1,)), ("one", 2, (2,)), ("one", 3, (2,)),
                      ("one", 3, (3,)), ("two", 2, (2,)), ("two", 3, (2,)),
                      ("two", 3, (3,)), ("three", 2, (2,))):
        out.append(onehot_case(sh, n, ks))
    return out
