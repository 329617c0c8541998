"""The training loop: Model.train is traced with a symbolic table of
validation losses (one per number of completed epochs) and symbolic parameter
changes, and the returned parameters and state are proved to be those of the
best validated epoch among the epochs the stop conditions allow."""
from pv.props.common import *
from pv.props.trainlib import Count, Draws, LastRow, train

ASSUMPTIONS = ["validation losses are finite reals",
               "one sample per data set in the loop harnesses (batching is "
               "decided by P14)", "no termination signal arrives"]
F = ["model.Model.train", "training.train", "training._train"]


def build(n=2):
    m = pmm.SequentialModel([M.Bias(), Count()])
    m.compile(0, (n,))
    m.set_precision(64)
    return m


def ref(L, prm, D, K, P, delta, target):
    """L[k]: validation loss after k epochs; prm+sum(D[:k-1])... params seen
    by validation k.  Returns (best params, best index) as terms"""
    best, idx = L[0], el(0)
    ps = [list(prm)]
    cur = list(prm)
    for k in range(1, K + 1):
        ps.append(list(cur))               # validated after epoch k
        cur = [c + d for c, d in zip(cur, D[k - 1])]
    bp = list(ps[0])
    pat = el(P)
    alive = True
    for k in range(1, K + 1):
        alive = C.band(alive, C.band((best > el(target)).v, (pat > el(0)).v))
        imp = (L[k] <= best - el(delta)).v
        better = C.band(alive, (L[k] < best).v)
        pat = ite(C.band(alive, imp), el(P), pat - el(1))
        best, idx = ite(better, L[k], best), ite(better, el(k), idx)
        bp = [ite(better, a, b) for a, b in zip(ps[k], bp)]
    return bp, idx


def table_case(K, P, delta, target, xval=True, name=None, loud=False,
               anyc=False):
    n = K + 1

    def loss(epoch, X, Y, pred):
        return jnp.sum(0.0 * pred["y"])

    def vloss(epoch, X, Y, pred):
        k = pred["n"][0, 0].astype(jnp.int32)
        return jnp.sum(jnp.where(jnp.arange(n) == k, X[0], 0.0)) \
            + 7.0 * k * pred["t"][0, 0]

    def fn(m, prm, D, L, c=None):
        def cb(rng, epoch, params):
            d = jnp.sum(jnp.where(jnp.arange(K)[:, None] == epoch, D, 0.0),
                        axis=0)
            return rng, [p + d for p in params]
        X = jnp.ones((1, n))
        kw = dict(verbose=True) if loud else {}
        if delta is not None:
            kw["early_stopping_min_delta"] = delta
        if target is not None:
            kw["target_loss"] = target
        if P is not None:
            kw["early_stopping_patience"] = P
        if anyc:
            kw.update(early_stopping_min_delta=statfloat(c[0]),
                      target_loss=statfloat(c[1]))
        if xval:
            kw.update(X_val=L[None, :], Y_val=jnp.ones((1, 1)))
        else:
            X = L[None, :]
        p, s = train(m, [prm], X, jnp.ones((1, 1)), loss_fn=loss,
                     val_loss_fn=vloss, epochs=K, batch_size=1, callback=cb,
                     **kw)
        return p, s

    def goals(ins, out):
        prm, D, L = ins[:3]
        inf = -float("inf")
        dl, tg = (ins[3][0][()], ins[3][1][()]) if anyc else (
            inf if delta is None else delta,
            inf if target is None else target)
        bp, idx = ref(list(L), list(prm), D, K, 100 if P is None else P,
                      dl, tg)
        p, s = out
        g = eqs(p[0], onp.array(bp, dtype=object), "best params")
        st = jax.tree.leaves(s, is_leaf=is_arr)
        g += eqs(st[0], onp.asarray(idx, dtype=object), "best state")
        return g
    return Case(name or f"loop K={K} patience={P} delta={delta} "
                f"target={target}{'' if xval else ' noval'}"
                f"{' verbose' if loud else ''}{' any' if anyc else ''}",
                [S(n), S(K, n), S(n)] + ([(S(), S())] if anyc else []), fn, goals=goals,
                setup=lambda: build(n), funcs=F, weight=4,
                bounds=f"{K} epochs, patience {P}, min_delta {delta}, target "
                f"{target}; every loss history and parameter history")


def live_case(K, xval):
    """validation sees the current parameters and the validation data"""
    def loss(epoch, X, Y, pred):
        return jnp.sum(0.0 * pred["y"])

    def vloss(epoch, X, Y, pred):
        return jnp.sum(pred["y"] * Y)

    def fn(m, prm, D, X, Y, XV, YV):
        def cb(rng, epoch, params):
            d = jnp.sum(jnp.where(jnp.arange(K)[:, None] == epoch, D, 0.0),
                        axis=0)
            return rng, [p + d for p in params]
        kw = dict(X_val=XV, Y_val=YV) if xval else {}
        return train(m, [prm], X, Y, loss_fn=loss, val_loss_fn=vloss,
                     epochs=K, batch_size=1, callback=cb, **kw)

    def goals(ins, out):
        prm, D, X, Y, XV, YV = ins
        if not xval:
            XV, YV = X, Y
        L, cur = [], list(prm)
        for k in range(K + 1):
            if k > 1:
                cur = [c + d for c, d in zip(cur, D[k - 2])]
            L.append(sum(((x + c) * y for x, c, y in
                          zip(XV[0], cur, YV[0])), el(0)))
        bp, idx = ref(L, list(prm), D, K, 100, -float("inf"), -float("inf"))
        p, s = out
        return eqs(p[0], onp.array(bp, dtype=object), "best params") + eqs(
            jax.tree.leaves(s, is_leaf=is_arr)[0],
            onp.asarray(idx, dtype=object), "best state")
    return Case(f"validation data K={K} {'val' if xval else 'train data'}",
                [S(2), S(K, 2), S(1, 2), S(1, 2), S(1, 2), S(1, 2)], fn,
                goals=goals, setup=build, funcs=F, weight=4,
                bounds=f"{K} epochs; every data and parameter value")


def val_batches(N, b):
    """the validation loss of several batches is their mean (b divides N)"""
    def loss(epoch, X, Y, pred):
        return jnp.sum(0.0 * pred["y"])

    def vloss(epoch, X, Y, pred):
        # second epoch only: first feature, second feature, steps
        k = pred["n"][0, 0]
        return jnp.where(k < 0.5, jnp.mean(X[:, 0]), jnp.mean(X[:, 1]))

    def fn(m, prm, D, XV):
        def cb(rng, epoch, params):
            return rng, params
        return train(m, [prm], jnp.ones((1, 2)), jnp.ones((1, 2)),
                     loss_fn=loss, val_loss_fn=vloss, X_val=XV, Y_val=XV,
                     val_batch_size=b, epochs=1, batch_size=1, callback=cb)

    def goals(ins, out):
        prm, D, XV = ins
        L0 = sum(list(XV[:, 0]), el(0))
        L1 = sum(list(XV[:, 1]), el(0))
        st = jax.tree.leaves(out[1], is_leaf=is_arr)[0]
        return eqs(st, onp.asarray(ite((L1 < L0).v, el(1), el(0)),
                                   dtype=object), "best state")
    return Case(f"validation batches N={N} b={b}", [S(2), S(2), S(N, 2)], fn,
                goals=goals, setup=build, funcs=F, weight=4,
                bounds=f"{N} validation samples in batches of {b}")


def val_remainder(N, b):
    """no validation sample is ignored: a data set without loss beats one with
    some loss; equal losses are averaged to that loss"""
    def loss(epoch, X, Y, pred):
        return jnp.sum(0.0 * pred["y"])

    def vloss(epoch, X, Y, pred):
        k = pred["n"][0, 0]
        return jnp.where(k < 0.5, jnp.mean(X[:, 0]), jnp.mean(X[:, 1]))

    def fn(m, prm, XV):
        return train(m, [prm], jnp.ones((1, 2)), jnp.ones((1, 2)),
                     loss_fn=loss, val_loss_fn=vloss, X_val=XV, Y_val=XV,
                     val_batch_size=b, epochs=1, batch_size=1)

    def one(ins, out):
        st = jax.tree.leaves(out[1], is_leaf=is_arr)[0]
        return eqs(st, onp.asarray(el(1), dtype=object), "best state")

    def asm(ins):
        XV = ins[1]
        r = [e.eq(0) for e in XV[:, 1]] + [e >= el(0) for e in XV[:, 0]]
        return r + [sum(list(XV[:, 0]), el(0)) >= el(1)]

    def gen(rng):
        x = onp.zeros((N, 2))
        x[rng.randrange(N), 0] = 2.0
        return [onp.zeros(2), x]

    def eqgoals(ins, out):
        XV = ins[1]
        st = jax.tree.leaves(out[1], is_leaf=is_arr)[0]
        return eqs(st, onp.asarray(ite((XV[0, 1] < el(0.5)).v, el(1), el(0)),
                                   dtype=object), "best state")

    def eqasm(ins):
        XV = ins[1]
        return [e.eq(XV[0, 1]) for e in XV[1:, 1]] + [
            e.eq(el(0.5)) for e in XV[:, 0]]

    def eqgen(rng):
        return [onp.zeros(2), onp.array([[0.5, rng.choice(
            [0.25, 0.375, 0.4, 0.6, 0.75, 1.])] * N]).reshape(N, 2)]
    return [Case(f"no validation sample ignored N={N} b={b}",
                 [S(2), S(N, 2)], fn, goals=one, assume=asm, gen=gen,
                 setup=build, funcs=F, weight=4,
                 bounds=f"{N} validation samples in batches of {b}"),
            Case(f"equal validation losses N={N} b={b}",
                 [S(2), S(N, 2)], fn, goals=eqgoals, assume=eqasm, gen=eqgen,
                 setup=build, funcs=F, weight=4,
                 bounds=f"{N} validation samples in batches of {b}")]


def val_target(N, b, loud=False):
    """equal losses of all validation samples are the validation loss, which
    is what the target is compared with, whatever the batches"""
    def loss(epoch, X, Y, pred):
        return jnp.sum(0.0 * pred["y"])

    def vloss(epoch, X, Y, pred):
        k = pred["n"][0, 0]
        return jnp.mean(X[:, 0]) - k

    def fn(m, prm, c, t):
        XV = jnp.broadcast_to(c, (N, 2))
        return train(m, [prm], jnp.ones((1, 2)), jnp.ones((1, 2)),
                     loss_fn=loss, val_loss_fn=vloss, X_val=XV, Y_val=XV,
                     val_batch_size=b, epochs=3, batch_size=1,
                     target_loss=statfloat(t),
                     **(dict(verbose=True) if loud else {}))

    def goals(ins, out):
        c, t = ins[1][()], ins[2][()]
        w = el(3)
        for k in (2, 1, 0):
            w = ite((c - el(k) > t).v, w, el(k))
        st = jax.tree.leaves(out[1], is_leaf=is_arr)[0]
        return eqs(st, onp.asarray(w, dtype=object), "epochs run")
    return Case(f"validation target N={N} b={b}{' verbose' if loud else ''}",
                [S(2), S(), S()], fn, goals=goals, setup=build, funcs=F,
                weight=4, bounds=f"{N} validation samples in batches of {b}, "
                "3 epochs, every common loss and target")


def differ(a, b):
    """some outcome of the draws makes a and b differ"""
    a, b = el(a), el(b)
    e = a.eq(b).v
    if not isz(e):
        return not bool(e)
    s = z3.Solver()
    s.set("timeout", 5000)
    s.add(*CTX.axioms)
    s.add(z3.Not(e))
    return s.check() != z3.unsat


def draws_case(N, b, K, many=False):
    """every training step has a key of its own"""
    nb = K * -(-N // b)

    def setup():
        mods = [Draws(nb), M.Bias()] + ([Draws(nb)] if many else [])
        m = pmm.SequentialModel(mods + [Count()])
        m.compile(0, (2,))
        m.set_precision(64)
        return m

    def loss(epoch, X, Y, pred):
        return jnp.sum(0.0 * pred["y"])

    def fn(m, prm, X):
        return train(m, [prm], X, jnp.ones((N, 1)), loss_fn=loss,
                     val_loss_fn=lambda e, x, y, p: -p["n"][0, 0], epochs=K,
                     batch_size=b, X_val=X[:1], Y_val=jnp.ones((1, 1)))[1]

    def goals(ins, out):
        ls = jax.tree.leaves(out, is_leaf=is_arr)
        g = eqs(ls[-1], onp.asarray(el(nb), dtype=object), "steps")
        ds = [a for a in ls if a.shape == (nb,)]
        for w, d in enumerate(ds):
            for i in range(nb):
                for j in range(i):
                    g.append(Goal("true", B(differ(d[i], d[j])), label=f"the "
                                  f"draws of steps {j} and {i} of module {w} "
                                  "always agree"))
        return g
    return Case(f"draws N={N} b={b} K={K}{' two' if many else ''}",
                [S(2), S(N, 2)], fn, goals=goals, setup=setup, funcs=F,
                weight=4, bounds=f"{N} samples, batches of {b}, {K} epochs")


def rng_after(kind, then):
    """training again does not repeat the draws"""
    def setup():
        mods = {"plain": [M.Bias()], "state": [M.Bias(), Count()],
                "nested": [pmm.SequentialModel([M.Bias()]), M.Bias()]}[kind]
        m = pmm.SequentialModel(mods)
        m.compile(0, (2,))
        m.set_precision(64)
        return m

    def loss(epoch, X, Y, pred):
        return jnp.sum(0.0 * jax.tree.leaves(pred)[-1])

    def vloss(epoch, X, Y, pred):
        return jnp.sum(Y) - 1.0 * epoch

    def fn(m, prm, X):
        k0 = m.get_rng()
        k0 = jax.random.key(k0) if isinstance(k0, int) else k0
        n = len(jax.tree.leaves(m.get_params()))
        k1 = train(m, [prm] * n, X, X, loss_fn=loss, val_loss_fn=vloss,
                   epochs=2, batch_size=1, opt=lambda m: m.get_rng(),
                   then=[(X, X, {})] * then)
        return [jax.random.normal(k) for k in (k0, k1)]

    def goals(ins, out):
        return [Goal("true", B(differ(out[0][()], out[1][()])), label="the "
                     "key after training is the one before")]
    return Case(f"key after training {kind}{' resumed' * then}",
                [S(2), S(1, 2)], fn, goals=goals, setup=setup, funcs=F,
                weight=3, bounds="2 epochs")


def callback_rng(N, b):
    """the key that the callback returns is the one that counts"""
    def setup():
        m = pmm.SequentialModel([LastRow(2), M.Bias(), Count()])
        m.compile(0, (2,))
        m.set_precision(64)
        return m

    def loss(epoch, X, Y, pred):
        return jnp.sum(0.0 * pred["y"])

    def fn(m, prm, X):
        def cb(rng, epoch, params):
            return jax.random.key(17), params
        return [jax.tree.leaves(train(
            m, [prm], X, jnp.ones((N, 1)), loss_fn=loss,
            val_loss_fn=lambda e, x, y, p: -p["n"][0, 0], epochs=2,
            batch_size=b, X_val=X[:1], Y_val=jnp.ones((1, 1)), callback=cb,
            batch_rng=C.seed(r))[1])[0] for r in (0, 1, 2)]

    def goals(ins, out):
        return eqs(out[1], out[0], "last row") + eqs(out[2], out[0],
                                                     "last row")
    return Case(f"callback key N={N} b={b}", [S(2), S(N, 2)], fn,
                goals=goals, setup=setup, funcs=F, weight=6,
                bounds=f"{N} samples, batches of {b}, 2 epochs")


def jobs(tier):
    T = tier == "thorough"
    K = 10 if T else 6
    out = [table_case(K, None, None, None),
           table_case(K, None, None, None, xval=False),
           table_case(1, None, None, None),
           table_case(0, None, None, None)]
    for P in (1, 2, 3, 5) if T else (1, 2, 3):
        for d in (0.0, 0.5):
            out.append(table_case(K, P, d, None))
    out.append(table_case(K, 1, -0.5, None))
    out.append(table_case(K, 2, None, 0.25))
    out.append(table_case(K, 2, 0.25, 0.5))
    out.append(table_case(K, None, None, -1.0))
    for P in (1, 2, 3, None):
        out.append(table_case(4 if P is None else K, P, None, None,
                              anyc=True))
    out.append(table_case(3, 1, None, None, loud=True))
    out.append(table_case(3, 2, 0.25, 0.5, loud=True))
    out.append(table_case(3, None, None, None, xval=False, loud=True))
    out.append(live_case(3, True))
    out.append(live_case(3, False))
    for N, b in ((2, 2), (2, 1), (3, 3)) + (((4, 2),) if T else ()):
        out.append(val_batches(N, b))
    for N, b in ((3, 2), (2, 1)) + (((4, 3), (5, 2)) if T else ()):
        out += val_remainder(N, b)
    for N, b, K in ((1, 1, 3), (2, 1, 2), (3, 2, 2)):
        out.append(draws_case(N, b, K))
    out.append(draws_case(2, 1, 1, True))
    for k in ("plain", "state", "nested"):
        out.append(rng_after(k, 0))
    out.append(rng_after("plain", 1))
    for N, b in ((2, 1), (3, 2), (3, 3)):
        out.append(callback_rng(N, b))
    for N, b in ((3, 2), (4, 2), (5, 2), (3, 1), (2, 2), (7, 3), (2, 5)):
        out.append(val_target(N, b))
    return out
