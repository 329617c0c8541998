"""Conformal prediction: the real calibrate / get_qhat / __call__ run on
symbolic calibration data, parameters, scores and inputs."""
from .common import *
from .spies import Quad, Duo
from .P15 import quant, osort
from .P16 import world
import warnings, math
warnings.filterwarnings("ignore")
from parametricmatrixmodels.conformal import ConformalizedModel as CM
import parametricmatrixmodels.conformal.conformalizedmodel as CMOD

FQ = ["ConformalizedModel.get_qhat"]
FP = FQ + ["ConformalizedModel.calibrate", "ConformalizedModel.__call__",
           "ConformalizedModel.uncertainty_heuristic",
           "ConformalizedModel.parameter_sensitivity",
           "conformalizedmodel.pytree_robust_normalization"]
ASSUMPTIONS = ["miscoverage levels are concrete: one inside and one at the "
               "edge of every class of equal rank",
               "scipy's KDTree returns L1 nearest neighbours"]


def quadmodel(n=2, mods=None, shape=None):
    m = pmm.SequentialModel(mods or [Quad(n)])
    m.compile(0, shape or (n,))
    m.set_precision(64)
    return m


def rank(n, a):
    x = (n + 1) * (1 - Fraction(a))
    e = Fraction(1, 10 ** 9)
    return math.ceil(x - e), math.ceil(x + e)


def alphas(n):
    r = []
    for k in range(1, n + 2):
        r += [1 - (k - .5) / (n + 1)]
        if k < n + 1:
            r += [1 - k / (n + 1)]
    return r


def qgoals(s, q, a, label=""):
    """q is a valid threshold for the scores s (list of arrays) at level a"""
    n = len(s)
    lo, hi = rank(n, a)
    out = []
    s = [onp.asarray(x, dtype=object) for x in s]
    q = onp.asarray(q, dtype=object)
    if q.shape != s[0].shape:
        return [Goal("true", B(False), label=f"{label} threshold shape "
                     f"{q.shape}")]
    for i in onp.ndindex(*q.shape):
        if lo > n:
            out.append(Goal("eq", q[i], el(math.inf), label=f"{label} level "
                            f"{a:.4f}: {n} scores cannot support it"))
            continue
        le, lt = el(0), el(0)
        for x in s:
            le = le + el(C.ite(x[i] <= q[i], el(1), el(0)))
            lt = lt + el(C.ite(x[i] < q[i], el(1), el(0)))
        out.append(Goal("le", el(lo), le, label=f"{label} level {a:.4f}: "
                        f"threshold below the {lo}th smallest of {n} scores"))
        if hi < n:
            out.append(Goal("le", lt, el(hi), label=f"{label} level {a:.4f}: "
                            f"threshold above the {hi + 1}th smallest score"))
        elif hi == n:
            big = q[i]
            m = s[0][i]
            for x in s[1:]:
                m = C.emax(m, x[i])
            out.append(Goal("le", big, m, label=f"{label} level {a:.4f}: "
                            "threshold above all scores"))
    return out


# ------------------------------------------------------------------ threshold
def qhat_case(n, mode, sh=(2,)):
    al = alphas(n)
    tree = mode.endswith("tree")
    sp = {"u": S(n, 1), "v": [S(n, 2)]} if tree else S(n, *sh)

    def fn(s):
        c = CM(quadmodel(), alpha=al[0])
        c.scores = s
        extra = []
        if mode == "one by one":
            r = [c.get_qhat(a) for a in al]
        elif mode == "again":      # answers do not depend on what was asked
            c.get_qhat(al[::2])
            r = list(c.get_qhat(al[::-1]))[::-1]
            r2 = [c.get_qhat(a) for a in al]
            return r, r2, [c.get_qhat()]
        elif mode in ("orders", "orders tree"):
            # any order, some levels known already, repetitions
            c.get_qhat(al[1::2])
            o1 = list(range(len(al)))
            o2 = o1[1::2] + o1[::2][::-1]
            o3 = o1[::-1] + o1[:2] + o1[:1]
            r, r2 = [None] * len(al), [None] * len(al)
            for o, d in ((o2, r), (o3, r2), (o1, r), (o2[::-1], r2)):
                got = list(c.get_qhat([al[i] for i in o]))
                if len(got) != len(o):
                    raise ValueError(f"{len(got)} thresholds for {len(o)}")
                for i, g in zip(o, got):
                    d[i] = g
                extra.append(list(zip(o, got)))
            return r, r2, [c.get_qhat()], [g for e in extra for _, g in e]
        elif mode == "tuple":
            r = list(c.get_qhat(tuple(al)))
        elif mode == "array":
            r = list(c.get_qhat(jnp.array(al)))
        else:
            r = list(c.get_qhat(list(al)))
        return r, r, [c.get_qhat(None)]

    def goals(ins, out):
        g = []
        lv = jax.tree.leaves(ins[0], is_leaf=is_arr)
        for r in out[:2]:
            if len(r) != len(al):
                return [Goal("true", B(False), label=f"{len(r)} thresholds "
                             f"for {len(al)} levels")]
            for a, q in zip(al, r):
                ql = jax.tree.leaves(q, is_leaf=is_arr)
                for s, t in zip(lv, ql):
                    g += qgoals(list(s), t, a)
        if len(out) > 3:
            o1 = list(range(len(al)))
            o2 = o1[1::2] + o1[::2][::-1]
            o3 = o1[::-1] + o1[:2] + o1[:1]
            for i, q in zip(o2 + o3 + o1 + o2[::-1], out[3]):
                for s, t in zip(lv, jax.tree.leaves(q, is_leaf=is_arr)):
                    g += qgoals(list(s), t, al[i], "order")
        for s, t in zip(lv, jax.tree.leaves(out[2][0], is_leaf=is_arr)):
            g += qgoals(list(s), t, al[0], "default")
        return g
    return Case(f"threshold n={n} {mode}", [sp], fn, goals, funcs=FQ,
                forks=4, weight=n,
                bounds=f"{n} calibration scores of any size, {len(al)} "
                "miscoverage levels (inside and at the edge of each rank)")


# ------------------------------------------------------------------- pipeline
def absv(e):
    return C.emax(e, -e)


def mad(Sv):
    med = quant(list(Sv), Fraction(1, 2))
    return quant([J.vec(absv, s - med) for s in Sv], Fraction(1, 2))


def far(x, y):
    return (x - y >= el(Fraction(1, 4))) | (y - x >= el(Fraction(1, 4)))


def pos(a, lo=Fraction(1, 8)):
    a = onp.asarray(a, dtype=object)
    return [a[i] >= el(lo) for i in onp.ndindex(*a.shape)]


def spar(p, x):
    """documented parameter sensitivity of Quad"""
    d = x * x * p[None]
    return d * d * el(Fraction(1, p.size))


def predict(c, x, al=None, **k):
    kw = {} if al is None else {"alpha": al}
    return c(x, rng=KEY, **kw, **k)


def intervals(Y, u, q, lo, hi, label=""):
    return eqs(lo, Y - q[None] * u, label + "lower") + eqs(
        hi, Y + q[None] * u, label + "upper")


def pipe_case(n, f, al, bias=False, nx=1, **opts):
    """calibrate on symbolic data, predict: scores, heuristic, intervals"""
    def fn(p, X, Y, x):
        m = quadmodel(f)
        m.set_params([p])
        c = CM(m, alpha=0.37)
        c.calibrate(X, Y, skip_sanity_checks=True, rng=KEY,
                    stratified_bias_corrections=True if bias else None,
                    **opts)
        r = predict(c, x, al)
        u = c.uncertainty_heuristic(x, rng=KEY)
        if al is None or len(al) == 1:
            iv = [r[1]]
            q = [c.get_qhat(al)]
        else:
            iv, q = list(r[1]), list(c.get_qhat(al))
        return dict(s=c.scores, y=r[0], iv=[list(t) for t in iv], u=u, q=q)

    def ref(p, X, Y, x):
        nm = mad(spar(p, X))
        return nm

    def assume(ins):
        p, X, Y, x = ins
        return pos(mad(spar(p, X))) + pos(spar(p, X))

    def goals(ins, out):
        p, X, Y, x = ins
        nm = mad(spar(p, X))
        res = Y - p[None] * X * X
        b = quant(list(res), Fraction(1, 2)) if bias else None
        if bias:
            res = res - b[None]
        u = spar(p, x) / nm[None]
        uc = spar(p, X) / nm[None]
        yp = p[None] * x * x
        if bias:
            yp = yp + b[None]
        g = eqs(out["y"], yp, "prediction")
        g += eqs(out["u"], u, "heuristic")
        g += eqs(out["s"], J.vec(absv, res) / uc, "score")
        for a, q, (lo, hi) in zip(al or [0.37], out["q"], out["iv"]):
            # q itself is judged by the threshold cases on any scores
            g += intervals(out["y"], out["u"], onp.asarray(q, dtype=object),
                           lo, hi)
        return g
    return Case(f"pipeline n={n} f={f} bias={bias} levels={al} "
                + " ".join(f"{k}={v}" for k, v in opts.items()),
                [S(f), S(n, f), S(n, f), S(nx, f)], fn, goals, assume=assume,
                funcs=FP, forks=20, weight=10,
                bounds=f"{n} calibration samples, {f} features; heuristic "
                "spread at least 1/8 (main normalization branch)")


def spread_case(tag, xs, f, unsup=False):
    """normalization where the median deviation vanishes: f * p**2 is the
    spread that is left"""
    n = len(xs)
    X = onp.array(xs)[:, None]

    def fn(p, Y, x):
        m = quadmodel(1)
        m.set_params([p])
        c = CM(m, alpha=0.37)
        c.calibrate(jnp.asarray(X), None if unsup else Y, rng=KEY,
                    skip_sanity_checks=True)
        r = predict(c, x)
        return dict(s=c.scores, y=r[0], u=c.uncertainty_heuristic(x, rng=KEY),
                    lo=r[1][0], hi=r[1][1], q=c.get_qhat())

    def goals(ins, out):
        p, Y, x = ins
        g = eqs(out["y"], p[None] * x * x, "prediction")
        k = el(Fraction(1) / Fraction(f))
        g += near(out["u"], x ** 4 * k, "heuristic")
        Xe = cx(X)
        res = (Xe if unsup else Y) - p[None] * Xe * Xe
        g += near(out["s"] * (Xe ** 4 * k), J.vec(absv, res), "score")
        return g + intervals(out["y"], out["u"], onp.asarray(
            out["q"], dtype=object), out["lo"], out["hi"])

    def assume(ins):
        r = [(ins[0][0] >= el(Fraction(1, 2))), ins[0][0] <= el(4)]
        return r + [c for t in ins[1:] for e in t.reshape(-1)
                    for c in (e <= el(4), e >= el(-4))]
    return Case(f"spread {tag}", [S(1), S(n, 1), S(1, 1)], fn, goals,
                assume=assume, funcs=FP + [
                    "conformalizedmodel.robust_normalization"],
                gen=lambda rng: [onp.array([rng.uniform(.5, 4)]), onp.array(
                    [[rng.uniform(-3, 3)] for _ in range(n)]),
                    onp.array([[rng.uniform(-3, 3)]])],
                forks=20, weight=10,
                bounds=f"{n} calibration samples at fixed inputs")


# ------------------------------------------- mixed inputs, several outputs
# categorical leaf and training data are concrete, the rest symbolic
CC = onp.array([[1.], [2.], [2.], [1.], [2.]])       # calibration categories
CE = onp.array([[2.], [7.], [1.]])                   # 7. was never seen
TX = onp.array([[-2.], [0.], [2.], [1.]])            # range 4, IQR 1.75
TC = onp.array([[1.], [2.], [2.], [1.]])
PA, PB = 1.5, -0.5
YU = onp.array([[1.], [.5], [.8], [1.25], [1.]])
XU = onp.array([[.5], [0.], [.25], [2.], [1.]])


def duomodel():
    m = pmm.SequentialModel([Duo(1)])
    m.compile(0, {"c": (1,), "x": (1,)})
    m.set_precision(64)
    return m


class Tree:
    """stand-in for scipy's KDTree over concrete points, queried with
    symbolic ones (L1 distances; membership of a ball is a path decision)"""

    def __init__(self, data, *a, **k):
        self.data = onp.asarray(data)

    def dist(self, x):
        x = jnp.asarray(x)
        return jnp.sum(jnp.abs(x[:, None, :] - self.data[None]), axis=-1)

    def __getattr__(self, k):
        raise C.Unsupported(f"KDTree.{k}")

    def query(self, x, k=1, p=2, workers=1, **kw):
        if p != 1 or kw:
            raise C.Unsupported(f"KDTree.query p={p} {kw}")
        d = jnp.sort(self.dist(x), axis=-1)
        d = d[:, 0] if k == 1 else d[:, :k]
        return d, None

    def query_ball_point(self, x, r, p=2, workers=1, **kw):
        if p != 1 or kw:
            raise C.Unsupported(f"KDTree.query_ball_point p={p} {kw}")
        d = self.dist(x)
        return [[j for j in range(d.shape[1]) if bool(d[i, j] <= r)]
                for i in range(d.shape[0])]


import contextlib


@contextlib.contextmanager
def symtree():
    old = CMOD.KDTree
    CMOD.KDTree = Tree
    try:
        with world():
            yield
    finally:
        CMOD.KDTree = old


def cx(v):
    return const(onp.asarray(v))


def dsens(p, c, x, mask):
    """S_params of Duo (u, v) with per-leaf mask (a, b)"""
    k = Fraction(1, int(mask[0]) + int(mask[1]))
    a, b = p["a"][None], p["b"][None, None]
    wa, wb = el(int(mask[0])), el(int(mask[1]))
    ta, tb = x * x * a, c * x * b
    u = (ta * ta * wa + tb * tb * wb) * el(k)
    tv = x * x * b
    v = (ta * ta * wa + tv * tv * wb) * el(k)
    return [u, v]


def isens(p, c, x, scale):
    """input sensitivity over the one continuous feature"""
    a, b = p["a"][None], p["b"][None, None]
    du = (x * a * el(2) + b * c) * scale
    dv = (a + b) * x * el(2) * scale
    return [du * du, dv * dv]


def near(got, want, label):
    """equal up to the rounding of concretely computed coefficients"""
    got, want = onp.asarray(got, dtype=object), onp.asarray(want,
                                                            dtype=object)
    if got.shape != want.shape:
        return [Goal("true", B(False), label=f"{label} shape {got.shape}")]
    e = el(Fraction(1, 10 ** 8))
    out = []
    for i in onp.ndindex(*got.shape):
        d = el(got[i]) - el(want[i])
        out += [Goal("le", d, e, label=f"{label}{list(i)} too large"),
                Goal("le", -d, e, label=f"{label}{list(i)} too small")]
    return out


def wq(vals, ws, q=Fraction(1, 2)):
    """weighted quantile of a list of elements: linear interpolation of the
    sorted values over their cumulative weights (rank enumeration)"""
    n = len(vals)
    out = None
    tot = ws[0]
    for w in ws[1:]:
        tot = tot + w
    t = tot * el(q)
    for perm in itertools.permutations(range(n)):
        cond = B(True)
        for i, j in zip(perm, perm[1:]):
            # stable order, as the sort
            cond = cond & ((vals[i] < vals[j]) | (vals[i].eq(vals[j])
                                                  & B(i < j)))
        cum, acc = [], el(0)
        for i in perm:
            acc = acc + ws[i]
            cum.append(acc)
        v = vals[perm[-1]]
        for k in range(n - 1, 0, -1):
            a, b = perm[k - 1], perm[k]
            lin = vals[a] + (vals[b] - vals[a]) * (t - cum[k - 1]) / (
                cum[k] - cum[k - 1])
            v = el(C.ite(t <= cum[k], lin, v))
        v = el(C.ite(t <= cum[0], vals[perm[0]], v))
        out = v if out is None else el(C.ite(cond, v, out))
    return out


def cutoff(nnq, both):
    """quantile of nearest-neighbour distances of the training set"""
    n = len(TX)
    nn = [min(abs(TX[i, 0] - TX[j, 0]) / 4 + both * (TC[i, 0] != TC[j, 0])
              for j in range(n) if j != i) for i in range(n)]
    return Fraction(float(onp.quantile(onp.array(nn), nnq)))


def dist1(x, r, cat=None):
    """documented distance of one point (range-scaled) from TX (and TC)"""
    tot, cnt, best = el(0), el(0), None
    for j, t in enumerate(TX[:, 0]):
        d = absv(x / el(4) - el(Fraction(float(t)) / 4))
        if cat is not None:
            d = d + el(int(cat != TC[j, 0]))
        inside = d <= el(r)
        tot = tot + el(C.ite(inside, d, el(0)))
        cnt = cnt + el(C.ite(inside, el(1), el(0)))
        best = d if best is None else el(C.ite(d < best, d, best))
    m = el(0)
    for k in range(1, len(TX) + 1):
        m = el(C.ite(cnt.eq(el(k)), tot * el(Fraction(1, k)), m))
    return C.emax(m, best)


def duo_case(tag, n=3, ne=1, bias=None, mask=(True, True), train=False,
             inp=True, dist=False, unc=False, yunc=False, al=(0.4,), xcal=None,
             how="fresh", batch=None, nnq=0.5, nt=4, **kw):
    """real calibrate + predict of a two-leaf-in two-leaf-out model; with
    xcal the parameters and calibration inputs are concrete (labels and
    evaluation inputs stay symbolic)"""
    sym_cal = xcal is None
    cal_x = None if sym_cal else onp.array([[v] for v in xcal])
    strata = bias == "strata"
    ins = [{"a": S(1), "b": S()} if sym_cal else S(0),
           S(n, 1) if sym_cal else S(0),
           {"u": S(n, 1), "v": [S(n, 1)]}, S(ne, 1)]
    same = eqs if sym_cal else near
    eps = Fraction(1, 8 if sym_cal else 10 ** 6)

    def opts():
        o = dict(rng=KEY, skip_sanity_checks=True,
                 continuous_features={"c": False, "x": True},
                 parameter_sensitivity=[{"a": mask[0], "b": mask[1]}],
                 max_batch_size=batch)
        if bias is not None:
            o["stratified_bias_corrections"] = {
                "c": True, "x": False} if strata else True
        if train:
            o.update(X_train={"c": jnp.array(TC)[:nt], "x": jnp.array(TX)[:nt]},
                     input_sensitivity=inp,
                     distance_sensitivity=dist if isinstance(dist, dict)
                     else {"c": False, "x": bool(dist)})
        if yunc:
            o["Y_cal_unc"] = {"u": jnp.array(YU[:n]),
                              "v": [jnp.array(YU[:n][::-1])]}
        if unc:
            o["X_cal_unc"] = {"c": jnp.zeros((n, 1)), "x": jnp.array(XU[:n])}
        o.update(kw)
        return o

    def fn(p, X, Y, x):
        with symtree():
            m = duomodel()
            if not sym_cal:
                p = {"a": jnp.array([PA]), "b": jnp.array(PB)}
            m.set_params([p])
            c = CM(m, alpha=0.37)
            Xc = {"c": jnp.array(CC[:n]),
                  "x": X if sym_cal else jnp.array(cal_x)}
            xe = {"c": jnp.array(CE[:ne]), "x": x}
            o = opts()
            pk = {"X_unc": {"c": jnp.zeros((ne, 1)), "x": jnp.array(XU[:ne])}} if unc \
                else {}

            def ask(c):
                r = c(xe, alpha=list(al), rng=KEY, max_batch_size=batch, **pk)
                q = c.get_qhat(list(al))
                one = len(al) == 1
                d = dict(s=c.scores, y=r[0], q=[q] if one else list(q),
                         iv=[list(r[1])] if one else [list(t) for t in r[1]])
                if how == "fresh":
                    d["u"] = c.uncertainty_heuristic(xe, rng=KEY, **pk)
                return d
            if how == "fresh":
                c.calibrate(Xc, Y, **o)
                return ask(c)
            if how == "recal":
                # other data and options first, questions in between
                c.calibrate({"c": jnp.array(CC[:3]),
                             "x": jnp.array([[1.], [2.], [4.]])},
                            {"u": jnp.array([[1.], [5.], [2.]]),
                             "v": [jnp.array([[3.], [5.], [9.]])]},
                            rng=KEY, skip_sanity_checks=True,
                            continuous_features={"c": False, "x": True},
                            X_train={"c": jnp.array(TC) * 3,
                                     "x": jnp.array(TX) * 5},
                            stratified_bias_corrections=True)
                c({"c": jnp.array(CE[:1]), "x": jnp.array([[.5]])},
                  alpha=list(al) + [.77], rng=KEY)
                c.get_qhat(list(al))
                c.calibrate(Xc, Y, **o)
                got = ask(c)
                f = CM(m, alpha=0.37)
                f.calibrate(Xc, Y, **o)
                return got, ask(f)
            c.calibrate(Xc, Y, **o)
            c.name = "nm"
            if how.endswith("asked"):
                c({"c": jnp.array(CE[:1]), "x": jnp.array([[.5]])},
                  alpha=list(al), rng=KEY)
            if how.startswith("serialize"):
                d = CM.deserialize(c.serialize())
            else:
                f = "/nonexistent/cm" if "suffix" in how else \
                    "/nonexistent/cm.npz"
                (c.save_compressed if "compressed" in how else c.save)(f)
                d = CM.from_file(f)
            if (d.name, float(d.default_alpha), float(d.nn_dist_quantile)) \
                    != (c.name, 0.37, c.nn_dist_quantile):
                raise ValueError(f"loaded as {d.name!r} {d.default_alpha}")
            if len(al) > 1:
                got = ask(d)
                return got, ask(c)
            return ask(d), ask(c)

    if dist and isinstance(dist, dict):
        r = cutoff(nnq, 1)
    else:
        r = cutoff(nnq, 0)

    def parts(ins):
        p, X, Y, x = ins
        if not sym_cal:
            X = cx(cal_x)
            p = {"a": cx([PA]), "b": cx(PB)}
        cc, ce = cx(CC[:n]), cx(CE[:ne])
        S_ = []                      # (calibration values, eval values, norms)
        if any(mask):
            a, e = dsens(p, cc, X, mask), dsens(p, ce, x, mask)
            S_.append((a, e))
        if train and inp:
            iqr = el(Fraction(7, 4))
            a, e = isens(p, cc, X, iqr), isens(p, ce, x, iqr)
            if unc:
                a = [s + t for s, t in zip(a, isens(p, cc, X, cx(XU[:n])))]
                e = [s + t for s, t in zip(e, isens(p, ce, x, cx(XU[:ne])))]
            S_.append((a, e))
        res = []
        for a, e in S_:
            if yunc:
                ws = [cx(YU[:n]), cx(YU[:n][::-1])]
                nm = []
                for s, w in zip(a, ws):
                    vals = [s[i, 0] for i in range(n)]
                    wt = [el(1) / w[i, 0] for i in range(n)]
                    md = wq(vals, wt)
                    dv = [absv(v - md) for v in vals]
                    nm.append(onp.array([wq(dv, wt)], dtype=object))
            else:
                nm = [mad(s) for s in a]
            res.append((a, e, nm))
        dd = None
        if train and dist:
            both = isinstance(dist, dict)
            k = el(Fraction(1, 2 if both else 1))
            a = [dist1(X[i, 0], r, CC[i, 0] if both else None) * k
                 for i in range(n)]
            e = [dist1(x[i, 0], r, CE[i, 0] if both else None) * k
                 for i in range(ne)]
            col = onp.array(a, dtype=object).reshape(n, 1)
            dd = (col, onp.array(e, dtype=object).reshape(ne, 1), mad(col))
        return p, X, res, dd

    def assume(ins):
        p, X, res, dd = parts(ins)
        out = []
        for a, e, nm in res:
            for t in nm:
                out += pos(t, eps)
        ucal = heur(res, dd, 0)
        for t in ucal:
            out += pos(t, eps)
        for t in ins[3].flat:        # |x| <= 8 bounds the rounding
            out += [t <= el(8), -t <= el(8)]
        if not sym_cal:
            for t in list(ins[2]["u"].flat) + list(ins[2]["v"][0].flat):
                out += [t <= el(64), -t <= el(64)]
        return out

    def heur(res, dd, w):
        u = None
        for a, e, nm in res:
            t = [v / m[None] for v, m in zip((a, e)[w], nm)]
            u = t if u is None else [s + v for s, v in zip(u, t)]
        if dd is not None:
            t = dd[w] / dd[2][None]
            u = [t, t] if u is None else [s + t for s in u]
        return u

    def goals(ins, out):
        if how != "fresh":
            got, want = out
            g = []
            for k in ("y", "s"):
                g += eqs(got[k], want[k], f"{how} {k}")
            for i in range(len(al)):
                g += eqs(got["q"][i], want["q"][i], f"{how} threshold")
                g += eqs(got["iv"][i], want["iv"][i], f"{how} interval")
            return g
        _, _, Y, x = ins
        p, X, res, dd = parts(ins)
        cc, ce = cx(CC[:n]), cx(CE[:ne])
        a, b = p["a"][None], p["b"][None, None]

        def model(x, c):
            return [a * x * x + b * c * x, (a + b) * x * x]
        rs = [y - f for y, f in zip((Y["u"], Y["v"][0]), model(X, cc))]
        yp = model(x, ce)
        if bias is True:
            bs = [quant(list(t), Fraction(1, 2)) for t in rs]
            rs = [t - m[None] for t, m in zip(rs, bs)]
            yp = [t + m[None] for t, m in zip(yp, bs)]
        elif strata:
            for o in range(2):
                t, e = onp.array(rs[o], dtype=object), onp.array(
                    yp[o], dtype=object)
                for v in sorted(set(CC[:n, 0])):
                    idx = [i for i in range(n) if CC[i, 0] == v]
                    m = quant([rs[o][i] for i in idx], Fraction(1, 2))
                    for i in idx:
                        t[i] = t[i] - m
                    for i in range(ne):
                        if CE[i, 0] == v:
                            e[i] = e[i] + m
                rs[o], yp[o] = t, e
        uc, ue = heur(res, dd, 0), heur(res, dd, 1)
        lv = lambda t: jax.tree.leaves(t, is_leaf=is_arr)
        g = []
        for w, nm in enumerate(("u", "v")):
            g += same(lv(out["y"])[w], yp[w], f"{nm}: prediction")
            g += same(lv(out["u"])[w], ue[w], f"{nm}: heuristic")
            if sym_cal:
                g += eqs(lv(out["s"])[w], J.vec(absv, rs[w]) / uc[w],
                         f"{nm}: score")
            else:       # compare score * heuristic with the residual
                g += near(onp.asarray(lv(out["s"])[w]) * uc[w],
                          J.vec(absv, rs[w]), f"{nm}: score")
            for q, (lo, hi) in zip(out["q"], out["iv"]):
                g += intervals(lv(out["y"])[w], lv(out["u"])[w],
                               onp.asarray(lv(q)[w], dtype=object),
                               lv(lo)[w], lv(hi)[w], nm + ": ")
        return g
    return Case(f"model {tag}", ins, fn, goals, assume=assume, funcs=FP + [
        "ConformalizedModel.input_sensitivity",
        "ConformalizedModel.distance_sensitivity",
        "ConformalizedModel._prepare_data_for_kdtree",
        "conformalizedmodel.robust_normalization",
        "conformalizedmodel.weighted_quantile",
        "ConformalizedModel.serialize/deserialize/save/from_file"],
        forks=90, weight=20,
        bounds=f"{n} calibration and {ne} evaluation samples, one categorical "
        "(concrete) and one continuous input, two outputs; heuristic spread "
        "at least 1/8")


def jobs(tier):
    q = tier == "quick"
    out = []
    for n in range(1, 6 if q else 8):
        for mode in ("one by one", "list", "again", "orders", "tuple",
                     "array"):
            if n > 3 and mode in ("tuple", "array"):
                continue
            out.append(qhat_case(n, mode))
    out.append(qhat_case(3, "tree"))
    out.append(qhat_case(2, "orders tree"))
    out.append(pipe_case(3, 1, None))
    out.append(pipe_case(3, 1, [0.4, 0.7]))
    out.append(pipe_case(3, 1, None, bias=True))
    out.append(pipe_case(2, 2, [0.5], nx=2))
    h = Fraction(1, 2)
    out += [spread_case("quartiles", [1., 2., 1.], 15 * h),
            spread_case("percentiles", [1.] * 3 + [2.] + [1.] * 2,
                        Fraction(45, 4)),
            spread_case("range", [1.] * 20 + [2., 1.], 15),
            spread_case("median", [1., 2., 0.5], Fraction(15, 16)),
            spread_case("unsupervised", [1., 2., .5], Fraction(15, 16),
                        True)]
    D = duo_case
    xc = (-1.75, .75, 3.25)
    tr = dict(train=True, xcal=xc, inp=False)
    both = {"c": True, "x": True}
    out += [D("plain"), D("two levels", al=(0.4, 0.7)),
            D("batched", ne=3, batch=2),
            D("mask a", mask=(True, False)), D("mask b", mask=(False, True)),
            D("global bias", bias=True),
            D("strata bias", bias="strata", ne=3, xcal=xc),
            D("strata bias n=5", bias="strata", n=5, ne=3,
              xcal=(1., 2., 3., 5., -2.)),
            D("concrete n=5", n=5, ne=2, xcal=(1., 2., 3., 5., -2.),
              bias=True, al=(.3, .5)),
            D("input", train=True, xcal=xc),
            D("input only", train=True, xcal=xc, mask=(False, False)),
            D("no sensitivities", **tr),
            D("distance", dist=True, **tr),
            D("distance mixed", dist=both, **tr),
            D("all", dist=both, al=(0.4, .9), train=True, xcal=xc),
            D("input uncertainties", train=True, unc=True, xcal=xc, ne=2),
            D("label uncertainties", yunc=True, xcal=xc),
            D("label uncertainties n=4", yunc=True, xcal=xc + (2.5,), n=4,
              train=True)]
    for how in ("recal", "serialize", "serialize asked", "file",
                "file suffix asked", "file compressed asked"):
        out += [D(f"{how}: strata", how=how, bias="strata", ne=3,
                  al=(.4, .7), xcal=xc),
                D(f"{how}: train", how=how, al=(.4,), dist=both, train=True,
                  xcal=xc, nt=3),
                D(f"{how}: distance", how=how, al=(.4,), nt=3,
                  dist={"c": False, "x": True}, **tr)]
    return out
