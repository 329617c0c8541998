"""Optimizer steps: Model.train is traced with symbolic parameters and a
symbolic gradient for every epoch (losses linear in the parameters make the
gradient an arbitrary symbolic value), and the returned parameters are proved
to be the Adam recursion; frozen parameters are proved unchanged for every
pattern of frozen modules, nested models included."""
from pv.props.common import *
from pv.props.trainlib import Count, Tick, DictBias, Adam, train
from parametricmatrixmodels.training import adam, complex_adam, OptimizerState

ASSUMPTIONS = ["Adam constants in the harness are dyadic so that float "
               "constants are exact", "sqrt is an uninterpreted function of "
               "its (normalised) argument with its defining axiom"]
F = ["model.Model.train", "training.train", "training._train",
     "training._train_step", "training.adam", "training.complex_adam",
     "model.Model.get_trainable_modules"]
B1, B2, EPS, LR = 0.5, 0.75, 0.25, 0.125
HP = dict(b1=B1, b2=B2, eps=EPS, clip=float("inf"))


def vl(epoch, X, *a):
    """a validation loss that improves with every training step"""
    return -a[-1]["n"][0, 0]


def lin(epoch, X, Y, pred):
    """gradient of epoch k w.r.t. y is Y[0, k]"""
    K = Y.shape[1]
    g = jnp.sum(jnp.where((jnp.arange(K) == epoch)[None, :, None], Y, 0.0), 1)
    return jnp.sum((g * pred["y"]).real)


def build(mods, shape=(2,)):
    def f():
        m = pmm.SequentialModel(mods() + [Count()])
        m.compile(0, shape)
        m.set_precision(64)
        return m
    return f


def arr(l):
    return onp.array(l, dtype=object)


def hist(K, cplx, lr=LR, fwd=False, clip=None, n=2, loud=False):
    sch = callable(lr)
    hp = dict(HP)
    if clip is not None:
        hp["clip"] = clip

    def fn(m, p, G, X):
        if cplx:
            X = X + 0j
        return train(m, [p], X, G, loss_fn=lin, val_loss_fn=vl, epochs=K,
                     batch_size=1, lr=lr, fwd=fwd, verbose=loud, **hp)[0]

    def goals(ins, out):
        p, G, X = ins
        want = []
        for j in range(n):
            a = Adam(p[j], B1, B2, EPS, lr, clip)
            for k in range(K):
                g = G[0, k, j]
                a.step(g.conj() if cplx else g, k)
            want.append(a.x)
        return eqs(out[0], arr(want), "params")
    s = SC if cplx else S
    return Case(f"adam K={K} {'complex' if cplx else 'real'}"
                f"{' schedule' if sch else ''}{' fwd' if fwd else ''}"
                f"{f' clip={clip}' if clip else ''}"
                f"{' verbose' if loud else ''}",
                [s(n), s(1, K, n), S(1, n)], fn, goals=goals,
                setup=build(lambda: [M.Bias(real=not cplx)], (n,)), funcs=F,
                weight=3, bounds=f"{K} epochs, {n} parameters, every gradient "
                "history")


def mixed(K, kinds):
    """real and complex parameters in one model"""
    def fn(m, ps, G, X):
        return train(m, ps, X + 0j, G, loss_fn=lin, val_loss_fn=vl, epochs=K,
                     batch_size=1, lr=LR, **HP)[0]

    def goals(ins, out):
        ps, G, X = ins
        g = []
        for i, k in enumerate(kinds):
            a = Adam(ps[i][0], B1, B2, EPS, LR)
            for t in range(K):
                e = G[0, t, 0]
                a.step(e.conj() if k == "c" else e.real, t)
            g += eqs(out[i], arr([a.x]), f"leaf {i}")
        return g
    return Case(f"adam K={K} kinds {kinds}",
                [[SC(1) if k == "c" else S(1) for k in kinds], SC(1, K, 1),
                 S(1, 1)], fn, goals=goals, setup=build(
                    lambda: [M.Bias(real=k == "r") for k in kinds], (1,)),
                funcs=F, weight=3, bounds=f"{K} epochs, every gradient "
                "history, real (r) and complex (c) parameters")


def anyhist(K, cplx, clip=False):
    """every learning rate, decay, eps and clip"""
    def fn(m, p, G, X, h):
        if cplx:
            X = X + 0j
        a = [statfloat(h[k]) for k in range(5)]
        if clip:
            a[:4] = LR, B1, B2, EPS
        return train(m, [p], X, G, loss_fn=lin, val_loss_fn=vl, epochs=K,
                     batch_size=1, lr=a[0], b1=a[1], b2=a[2], eps=a[3],
                     clip=a[4] if clip else float("inf"))[0]

    def goals(ins, out):
        p, G, X, h = ins
        a = Adam(p[0], B1, B2, EPS, LR, h[4]) if clip else Adam(
            p[0], h[1], h[2], h[3], h[0])
        for k in range(K):
            g = G[0, k, 0]
            a.step(g.conj() if cplx else g, k)
        return eqs(out[0], arr([a.x]), "params")

    def asm(ins):
        L, b1, b2, ep, cl = ins[3]
        return [b1 >= el(0), b1 < el(1), b2 >= el(0), b2 < el(1),
                ep > el(0), cl > el(0)]
    s = SC if cplx else S
    return Case(f"adam K={K} {'complex' if cplx else 'real'} any "
                f"{'clip' if clip else 'constants'}",
                [s(1), s(1, K, 1), S(1, 1), S(5)],
                fn, goals=goals, assume=asm, funcs=F, weight=4,
                gen=lambda rng: [c(rng, cplx), onp.array(
                    [[c(rng, cplx) for _ in range(K)]]), onp.ones((1, 1)),
                    onp.array([0.5, 0.5, 0.75, 0.25, rng.choice([.5, 4.])])],
                setup=build(lambda: [M.Bias(real=not cplx)], (1,)),
                bounds=f"{K} epochs, one parameter, every "
                + ("clip" if clip else "lr, b1, b2, eps"))


def resume(K1, K2, cplx):
    def fn(m, p, G, G2, X):
        if cplx:
            X = X + 0j
        kw = dict(loss_fn=lin, val_loss_fn=vl, epochs=K1, batch_size=1,
                  lr=LR, **HP)
        return train(m, [p], X, G, then=[(X, G2, dict(epochs=K2))], **kw)[0]

    def goals(ins, out):
        p, G, G2, X = ins
        a = Adam(p[0], B1, B2, EPS, LR)
        gs = list(G[0, :, 0]) + list(G2[0, :, 0])
        for k, g in enumerate(gs):
            a.step(g.conj() if cplx else g, k)
        return eqs(out[0], arr([a.x]), "params")
    s = SC if cplx else S
    return Case(f"resume {K1}+{K2} {'complex' if cplx else 'real'}",
                [s(1), s(1, K1, 1), s(1, K2, 1), S(1, 1)], fn, goals=goals,
                setup=build(lambda: [M.Bias(real=not cplx)], (1,)),
                funcs=F, weight=3,
                bounds=f"{K1} epochs, then {K2} resumed epochs")


def moments(m, n=1):
    """first moments of the optimizer"""
    st = getattr(m, "_optimizer_state", None)
    l = [o for o in jax.tree.leaves(
        st, is_leaf=lambda x: isinstance(x, OptimizerState))
        if isinstance(o, OptimizerState)]
    if len(l) != n:
        raise C.Unsupported("optimizer state not found")
    return l[0].m if n == 1 else [o.m for o in l]


def steps(N, b):
    """several batches per epoch: one Adam step per batch, in some order of
    the samples, with the batch's gradient (X and Y stay aligned)"""
    def loss(epoch, X, Y, pred):
        return jnp.sum((X + 5.0 * (Y - 2.0 * X)) * pred["y"])

    def fn(m, p, X):
        return train(m, [p], X, 2.0 * X, loss_fn=loss, val_loss_fn=vl,
                     epochs=1, batch_size=b, lr=LR, X_val=X[:1],
                     Y_val=X[:1], opt=moments, **HP)

    def goals(ins, out):
        p, X = ins
        seen, alts = set(), []
        for perm in itertools.permutations(range(N)):
            parts = tuple(tuple(sorted(perm[i:i + b]))
                          for i in range(0, N, b))
            if parts in seen:
                continue
            seen.add(parts)
            mm = el(0)
            for part in parts:
                mm = mm * el(B1) + el(1 - B1) * sum(
                    (X[i, 0] for i in part), el(0))
            alts.append(mm)
        got = el(out[0])
        lb = "first moment is that of no batch order"
        if got.const():
            ok = any(abs(float(got.re) - float(a.re)) < 1e-6 * (
                1 + abs(float(a.re))) for a in alts)
            return [Goal("true", B(ok), label=lb)]
        r = False
        for a in alts:
            r = C.bor(r, Goal("eq", got, a).formula())
        return [Goal("true", B(r), label=lb)]
    return Case(f"batches N={N} b={b}", [S(1), S(N, 1)], fn,
                goals=goals,
                setup=build(lambda: [M.Bias()], (1,)), funcs=F, weight=6,
                bounds=f"{N} samples, batches of {b}, one epoch, symbolic "
                "shuffle")


# ---- frozen patterns: (builder, trainable flags of the parameter leaves)
def bias(t):
    return M.Bias(trainable=t)


class Nest:
    def __init__(self, name, mods, flags, cont=None):
        self.name, self.mods, self.flags = name, mods, flags


def seq(*mods):
    return pmm.SequentialModel(list(mods))


def nonseq(a, b):
    return pmm.NonSequentialModel(
        {"u": a, "v": b}, {"input": "u", "u": "v", "v": "output"})


NESTS = [
    Nest("flat", lambda: [bias(False), bias(True)], [0, 1]),
    Nest("flat2", lambda: [bias(True), bias(False), bias(True)], [1, 0, 1]),
    Nest("first trainable", lambda: [bias(True), bias(False)], [1, 0]),
    Nest("nested", lambda: [bias(True), seq(bias(False), bias(True))],
         [1, 0, 1]),
    Nest("nested frozen", lambda: [seq(bias(False), bias(False)), bias(True)],
         [0, 0, 1]),
    Nest("deep", lambda: [seq(seq(bias(False), bias(True)), bias(False)),
                          bias(True)], [0, 1, 0, 1]),
    Nest("nonseq", lambda: [nonseq(bias(False), bias(True)), bias(False)],
         [0, 1, 0]),
    Nest("nonseq2", lambda: [nonseq(bias(True), seq(bias(True), bias(False)))],
         [1, 1, 0]),
    Nest("dict frozen", lambda: [DictBias(False), bias(True)], [0, 0, 1]),
    Nest("dict trained", lambda: [DictBias(True), bias(False)], [1, 1, 0]),
    Nest("dict frozen nested", lambda: [bias(True), seq(
        DictBias(False), DictBias(True))], [1, 0, 0, 1, 1]),
    Nest("parameterless between", lambda: [bias(False), M.Reshape((2,)),
                                           bias(True)], [0, 1]),
]


def frozen(ns, K, cplx=False):
    nP = len(ns.flags)

    def fn(m, ps, G, X):
        return train(m, ps, X, G, loss_fn=lin, val_loss_fn=vl, epochs=K,
                     batch_size=1, lr=LR, **HP)

    def goals(ins, out):
        ps, G, X = ins
        g = []
        for i, fl in enumerate(ns.flags):
            want = []
            for j in range(2):
                a = Adam(ps[i][j], B1, B2, EPS, LR)
                if fl:
                    for k in range(K):
                        a.step(G[0, k, j], k)
                want.append(a.x)
            g += eqs(out[0][i], arr(want), f"{'trained' if fl else 'frozen'} "
                     f"leaf {i} ")
        st = jax.tree.leaves(out[1], is_leaf=is_arr)[-1]
        g += eqs(st, onp.asarray(el(K), dtype=object), "steps")
        return g
    return Case(f"frozen {ns.name} K={K}", [[S(2)] * nP, S(1, K, 2),
                                           S(1, 2)], fn, goals=goals,
                setup=build(ns.mods), funcs=F, weight=3,
                bounds=f"{K} epochs, pattern {ns.flags}")


def toggled():
    """trainability changed after construction is what counts"""
    def setup():
        m = build(lambda: [bias(True), bias(True), bias(False)])()
        m.modules[0].trainable = False
        m.modules[2].trainable = True
        return m

    ns = Nest("toggled", None, [0, 1, 1])
    c = frozen(ns, 2)
    c.setup = setup
    return c


def onestep(name, fwd=False):
    """the optimizer's first moment after one step is (1-b1) times the
    analytic gradient of the documented loss"""
    unc = name.endswith("_unc")

    def setup():
        m = pmm.SequentialModel([M.MatMul(output_shape=2, trainable=True),
                                 M.Bias(), Tick()])
        m.compile(0, (2,))
        m.set_precision(64)
        return m

    def fn(m, W, b, X, Y, U):
        kw = dict(loss_fn=name, fwd=fwd, epochs=1, batch_size=1, lr=LR,
                  val_loss_fn=lambda epoch, *a: -a[-1][0, 2], **HP)
        if unc:
            kw["Y_unc"] = U
        return train(m, [W, b], X, Y, opt=lambda m: moments(m, 2), **kw)

    def goals(ins, out):
        W, b, X, Y, U = ins
        pred = oeinsum("ij,j->i", W, X[0]) + b
        gy = []
        for j in range(2):
            d = pred[j] - Y[0, j]
            if name == "mae":
                gy.append(ite((d > el(0)).v, el(1), ite((d < el(0)).v, el(-1),
                                                        el(0))) / el(3))
                continue
            if unc:
                d = d / (U[0, j] * U[0, j])
            gy.append(d * el(2) / el(3))
        wantb = [upd(b[j], gy[j]) for j in range(2)]
        wantW = onp.empty((2, 2), dtype=object)
        for i in range(2):
            for j in range(2):
                wantW[j, i] = upd(W[j, i], gy[j] * X[0, i])
        return eqs(out[1], arr(wantb), "bias") + eqs(out[0], wantW, "matrix")

    def upd(p, g):
        return el(1 - B1) * g

    def asm(ins):
        r = []
        for t in ins[:4]:
            r += [c for e in t.reshape(-1) for c in (e <= el(2), e >= el(-2))]
        r += [c for e in ins[4].reshape(-1) for c in (e <= el(2),
                                                     e >= el(0.5))]
        if name == "mae":      # away from the kink
            W, b, X, Y, U = ins
            d = oeinsum("ij,j->i", W, X[0]) + b - Y[0, :2]
            r += [(e >= el(0.125)) | (e <= el(-0.125)) for e in d]
        return r

    def gen(rng):
        u = lambda lo, hi, *s: onp.array([rng.uniform(lo, hi) for _ in range(
            int(onp.prod(s)))]).reshape(s)
        return [u(-2, 2, 2, 2), u(-2, 2, 2), u(-2, 2, 1, 2), u(-2, 2, 1, 3),
                u(.5, 2, 1, 3)]
    return Case(f"one step {name}{' fwd' if fwd else ''}",
                [S(2, 2), S(2), S(1, 2), S(1, 3), S(1, 3)], fn,
                goals=goals, assume=asm, setup=setup, funcs=F, weight=6,
                gen=gen, bounds="one sample, 2 features, 2 outputs")


def epochs_rem(N, b, K):
    """the loss is given the number of the epoch in every batch, the last
    smaller one included"""
    def loss(epoch, X, Y, pred):
        return jnp.sum((1.0 + 8.0 * epoch) * Y[:, :1] * pred["y"])

    def fn(m, p, c):
        return train(m, [p], jnp.ones((N, 1)), jnp.broadcast_to(c, (N, 1)),
                     loss_fn=loss, val_loss_fn=vl, epochs=K, batch_size=b,
                     lr=LR, X_val=jnp.ones((1, 1)), Y_val=jnp.ones((1, 1)),
                     opt=moments, **HP)

    def goals(ins, out):
        c = ins[1][0]
        mm = el(0)
        for k in range(K):
            for i in range(0, N, b):
                g = c * el((1 + 8 * k) * min(b, N - i))
                mm = mm * el(B1) + el(1 - B1) * g
        return eqs(out, arr([mm]), "first moment")
    return Case(f"epoch number N={N} b={b} K={K}", [S(1), S(1)], fn,
                goals=goals, setup=build(lambda: [M.Bias()], (1,)), funcs=F,
                weight=4, bounds=f"{N} samples, batches of {b}, {K} epochs")


def custom(kind):
    """custom losses receive epoch, X, (Y, (Y_unc)), prediction"""
    def loss(epoch, *a):
        pred = a[-1]["y"]
        w = a[0]
        for i, t in enumerate(a[1:-1]):
            w = w + (i + 2.0) * t
        return jnp.sum((w + 8.0 * epoch) * pred)

    def fn(m, p, X, Y, U):
        kw = {}
        if kind == "unc":
            kw["Y_unc"] = U
        return train(m, [p], X, None if kind == "unsup" else Y, loss_fn=loss,
                     val_loss_fn=vl, epochs=2, batch_size=1, lr=LR, **HP,
                     **kw)[0]

    def goals(ins, out):
        p, X, Y, U = ins
        want = []
        for j in range(2):
            a = Adam(p[j], B1, B2, EPS, LR)
            for k in range(2):
                g = X[0, j] + el(8 * k)
                if kind != "unsup":
                    g = g + el(2) * Y[0, j]
                if kind == "unc":
                    g = g + el(3) * U[0, j]
                a.step(g, k)
            want.append(a.x)
        return eqs(out[0], arr(want), "params")
    return Case(f"custom loss {kind}", [S(2), S(1, 2), S(1, 2), S(1, 2)], fn,
                goals=goals, setup=build(lambda: [M.Bias()]),
                funcs=F, weight=3, bounds="2 epochs, one sample")


def direct(which, i, cplx, lr=LR, anyc=False, hp0=(B1, B2, EPS, 8.0)):
    """one update from an arbitrary optimizer state"""
    def fn(x, m, v, g, h=None):
        hp = [pyfloat(h[k]) for k in range(5)] if anyc else [
            lr, *hp0]
        init, update, get, setp, inc = which(*hp)
        st = OptimizerState(x, m, v + 0j if cplx else v, i)
        st = update(g, st)
        st2 = inc(2, setp(get(st) * 2.0, st))
        x0, m0, v0, i0 = init(x)
        return dict(x=get(st), m=st.m, v=st.v, i=jnp.asarray(st.epoch),
                    x2=st2.params, m2=st2.m, v2=st2.v,
                    i2=jnp.asarray(st2.epoch), ini=(x0, m0, v0,
                                                    jnp.asarray(i0)))

    def goals(ins, out):
        x, m, v, g = ins[:4]
        L, b1, b2, ep, cl = list(ins[4]) if anyc else (lr, *hp0)
        X_, M_, V_ = [], [], []
        for j in range(1):
            a = Adam(x[j], b1, b2, ep, L, cl)
            a.m, a.v = m[j], v[j]
            a.step(g[j].conj() if cplx else g[j], i)
            X_.append(a.x), M_.append(a.m), V_.append(a.v)
        z = arr([el(0)])
        n = lambda k: onp.asarray(el(k), dtype=object)
        want = dict(x=arr(X_), m=arr(M_), v=arr(V_), i=n(i),
                    x2=arr([e * el(2) for e in X_]), m2=arr(M_), v2=arr(V_),
                    i2=n(i + 2), ini=(x, z, z, n(0)))
        return eqs(out, want)

    def asm(ins):
        r = [ins[2][0] >= el(0)]
        if anyc:
            L, b1, b2, ep, cl = ins[4]
            r += [b1 >= el(0), b1 < el(1), b2 >= el(0), b2 < el(1),
                  ep > el(0), cl > el(0)]
        return r
    s = SC if cplx else S
    return Case(f"{which.__name__} update i={i} "
                f"{'complex' if cplx else 'real'}"
                f"{' schedule' if callable(lr) else ''}"
                f"{' any constants' if anyc else ''}"
                + ("" if hp0 == (B1, B2, EPS, 8.0) else f" {hp0}"),
                [s(1), s(1), S(1), s(1)] + ([S(5)] if anyc else []), fn,
                goals=goals, assume=asm,
                gen=lambda rng: [c(rng, cplx), c(rng, cplx), abs(c(rng, 0)),
                                 8 * c(rng, cplx)] + ([onp.array(
                    [rng.choice(v) for v in ([0.5, -1.0, 0.125], [0.5, 0.0],
                                             [0.75, 0.5, 0.0], [0.25, 1.0],
                                             [0.5, 4.0])])] if anyc else []),
                funcs=["training.adam", "training.complex_adam"],
                bounds=f"epoch counter {i}, one parameter, every state")


def c(rng, cplx):
    r = onp.array([rng.uniform(-2, 2)])
    return r + 1j * rng.uniform(-2, 2) if cplx else r


def sched(i):
    return 0.25 + 0.125 * i


def jobs(tier):
    T = tier == "thorough"
    out = []
    K = 4 if T else 3
    for cx in (False, True):
        out.append(hist(K, cx))
        out.append(hist(1, cx))
        out.append(hist(2, cx, lr=sched))
        if not cx:
            out.append(hist(2, cx, fwd=True))
        out.append(hist(1, cx, clip=0.5, n=1))
        out.append(hist(1, cx, clip=1e3, n=1))
        out.append(resume(1, 1, cx))
        out.append(resume(2, 1, cx))
    if T:
        out.append(resume(2, 2, False))
        out.append(hist(2, False, clip=0.5))
    for N, b in ((2, 1), (2, 2), (3, 2)) + (((3, 1),) if T else ()):
        out.append(steps(N, b))
    for k in ("cr", "rc", "crr", "rcr"):
        out.append(mixed(2, k))
    for N, b in ((3, 2), (2, 1), (4, 3), (5, 2)):
        out.append(epochs_rem(N, b, 2))
    for ns in NESTS:
        out.append(frozen(ns, 2))
    out.append(toggled())
    for k in ("sup", "unc", "unsup"):
        out.append(custom(k))
    for n in ("mse", "mse_unc", "mae"):
        out.append(onestep(n))
    out.append(onestep("mse", fwd=True))
    for hp0 in ((0.5, 0.25, 0.5, 1.0), (0.0, 0.0, 1.0, 0.125),
                (0.75, 0.9375, 2.0, 64.0), (0.25, 0.5, 0.0625, 2.0)):
        out.append(direct(adam, 2, False, hp0=hp0))
        out.append(direct(complex_adam, 2, False, hp0=hp0))
        out.append(direct(complex_adam, 2, True, hp0=hp0))
    for i in (12, 20):       # b ** (i + 1) exact in single precision
        h = (0.5, 0.5, EPS, 8.0)
        out.append(direct(adam, i, False, sched, hp0=h))
        out.append(direct(complex_adam, i, True, sched, hp0=h))
        out.append(direct(complex_adam, i, False, hp0=h))
    for i in (0, 1, 3, 7):
        out.append(direct(adam, i, False))
        out.append(direct(complex_adam, i, False))
        out.append(direct(complex_adam, i, True))
        out.append(direct(adam, i, False, sched))
        out.append(direct(complex_adam, i, True, sched))
    for cx in (False, True):
        out.append(anyhist(2 if not T else 3, cx))
    out.append(hist(2, False, loud=True))
    out.append(hist(2, True, loud=True))
    return out
