"""Batched evaluation: for every number of samples and batch size in the
bounds, the model call / gradient calls with max_batch_size are traced with
symbolic inputs and parameters and proved equal to the per-sample definition;
models with state see their batches one after another, in order."""
from pv.props.common import *


def F32(c):
    return "state" not in c.name and not c.name.startswith("grad")

from pv.props.spies import Spy, _kind
from pv.props.P07 import gens, flat_gens, gen_ref, isspec
from pv.props.trainlib import quiet
from parametricmatrixmodels.model_util import autobatch

ASSUMPTIONS = ["every sample is a vector of symbolic entries; batch sizes and "
               "sample counts are enumerated inside the bounds"]
F = ["model_util.autobatch", "model.Model.__call__", "model.Model.grad_input",
     "model.Model.grad_params", "tree_util.pytree_split",
     "tree_util.concatenate"]


def chunks(N, b):
    return [(i, min(i + b, N)) for i in range(0, N, b)]


def relu(a):
    return J.vec(lambda e: C.emax(e, el(0)), a)


def build():
    m = pmm.SequentialModel([M.MatMul(output_shape=3, trainable=True),
                             M.Bias(), M.ReLU()])
    m.compile(0, (2,))
    m.set_precision(64)
    return m


def build_tree():
    m = pmm.SequentialModel([M.Bias()])
    m.compile(0, {"a": (2,), "b": [(), (1, 2)]})
    m.set_precision(64)
    return m


def build_state():
    m = pmm.SequentialModel([Spy(), Spy()])
    m.compile(0, (2,))
    return m


class Rows(M.BaseModule):
    """passes data on; the state counts rows and sums them"""
    __version__ = "0"
    name = "Rows"

    def __init__(self):
        self.s = (jnp.zeros(2), jnp.zeros(()))

    def is_ready(self):
        return True

    def compile(self, rng, input_shape):
        pass

    def get_output_shape(self, input_shape):
        return input_shape

    def get_hyperparameters(self):
        return {}

    def get_params(self):
        return ()

    def set_params(self, p):
        pass

    def get_state(self):
        return self.s

    def set_state(self, s):
        self.s = s

    def _get_callable(self):
        return lambda p, x, t, s, r: (
            x, (s[0] + x.sum(0), s[1] + x.shape[0]))


def build_rows():
    m = pmm.SequentialModel([Rows()])
    m.compile(0, (2,))
    return m


def withp(m, prm, f):
    keep = m.get_params()
    td = jax.tree.structure(keep)
    try:
        m.set_params(jax.tree.unflatten(td, jax.tree.leaves(prm)))
        return f()
    finally:
        m.set_params(keep)


def jobs(tier):
    out = []
    T = tier == "thorough"
    Ns = (1, 2, 3, 4, 5, 7) if T else (1, 3, 4, 5)
    bs = (1, 2, 3, 4, 5, 6, 8) if T else (1, 2, 3, 5, 6)

    def ref(W, b, x):
        return relu(oeinsum("ab,zb->za", W, x) + b[None])
    for N in Ns:
        for b in bs:
            for ar in (False, True):
                def fn(m, W, bi, x, b=b, ar=ar):
                    return withp(m, [W, bi], lambda: m(
                        x, max_batch_size=b, avoid_recompilation=ar,
                        rng=KEY))
                out.append(Case(
                    f"call N={N} b={b} avoid={ar}", [S(3, 2), S(3), S(N, 2)],
                    fn, ref=ref, setup=build, funcs=F,
                    bounds=f"{N} samples, batch {b}"))
    # pytree in and out, leaves of different rank
    tshape = lambda N: {"a": S(N, 2), "b": [S(N), S(N, 1, 2)]}
    pshape = {"a": S(2), "b": [S(), S(1, 2)]}
    for N, b in ((5, 2), (4, 2), (3, 1), (3, 5), (7, 3)):
        for ar in (False, True):
            def fn(m, p, x, b=b, ar=ar):
                return withp(m, p, lambda: m(
                    x, max_batch_size=b, avoid_recompilation=ar, rng=KEY))

            def rt(p, x):
                return jax.tree.map(lambda u, v: u + onp.asarray(
                    v, object)[None], x, p, is_leaf=is_arr)
            out.append(Case(f"tree N={N} b={b} avoid={ar}",
                            [pshape, tshape(N)], fn, ref=rt,
                            setup=build_tree, funcs=F,
                            bounds=f"{N} samples, batch {b}"))
    # state is handed from batch to batch
    STt = lambda: (S(2), S(), S())
    for N, b in ((5, 2), (4, 2), (3, 1), (3, 3), (3, 4), (2, 5), (5, 3),
                 (6, 2)):
        def fn(m, ps, ss, x, b=b):
            pst = jax.tree.structure(m.get_params())
            sst = jax.tree.structure(m.get_state())
            keep = m.get_params(), m.get_state()
            try:
                m.set_params(jax.tree.unflatten(pst, ps))
                m.set_state(jax.tree.unflatten(sst, jax.tree.leaves(ss)))
                y, st = m(x, max_batch_size=b, return_state=True, rng=KEY)
                return y, [jax.tree.leaves(s)[:2] for s in st]
            finally:
                m.set_params(keep[0])
                m.set_state(keep[1])

        def rs(ps, ss, x, N=N, b=b):
            st = [list(s[:2]) for s in ss]
            ys = []
            for lo, hi in chunks(N, b):
                v = x[lo:hi]
                for i in range(2):
                    v = v * ps[i] + st[i][0]
                    st[i] = [st[i][0] + ps[i], onp.asarray(
                        st[i][1] * el(2), object)]
                ys.append(v)
            return onp.concatenate(ys), st
        out.append(Case(f"state N={N} b={b}",
                        [[S(2)] * 2, [STt(), STt()], S(N, 2)], fn, ref=rs,
                        setup=build_state, funcs=F,
                        bounds=f"{N} samples, batch {b}, two modules"))
    # rows are seen once, in any chunking
    for N, b in ((5, 2), (4, 2), (3, 5), (7, 3)):
        for ar in (False, True):
            for upd in (False, True):
                def fn(m, s, x, b=b, ar=ar, upd=upd):
                    keep = m.get_state()
                    try:
                        m.set_state([(s[0], s[1])])
                        y, st = m(x, max_batch_size=b, return_state=True,
                                  avoid_recompilation=ar, rng=KEY,
                                  update_state=upd)
                        return y, list(st[0]), list(m.get_state()[0])
                    finally:
                        m.set_state(keep)

                def rr(s, x, N=N, upd=upd):
                    st = [s[0] + onp.sum(x, axis=0), onp.asarray(
                        s[1][()] + el(N), object)]
                    return x, st, st if upd else [s[0], s[1]]
                out.append(Case(
                    f"rows state N={N} b={b} avoid={ar} update={upd}",
                    [(S(2), S()), S(N, 2)], fn, ref=rr, setup=build_rows,
                    funcs=F, bounds=f"{N} samples, batch {b}"))
    # modules with and without parameters and state of all structures
    for i in range(8 if not T else 24):
        for N, b in ((5, 2), (4, 2)) if not T else (
                (5, 2), (4, 2), (3, 1), (3, 7)):
            def setup(i=i):
                m = pmm.SequentialModel(gens(("list", "containers", "model",
                                              "dict")[i % 4], i))
                m.compile(0, (2,))
                return m

            def fn(m, ps, ss, x, b=b):
                sp = flat_gens(m.modules)
                keep = [(g.p, g.s) for g in sp]
                try:
                    for g, p, q in zip(sp, ps, ss):
                        g.p = jax.tree.unflatten(jax.tree.structure(g.p), p)
                        g.s = jax.tree.unflatten(jax.tree.structure(g.s), q)
                    y = m(x, max_batch_size=b, rng=KEY, update_state=True)
                    return y, [jax.tree.leaves(g.s) for g in sp]
                finally:
                    for g, (p, q) in zip(sp, keep):
                        g.p, g.s = p, q
            mods = flat_gens(gens(("list", "containers", "model",
                                   "dict")[i % 4], i))

            def rg(ps, ss, x, N=N, b=b, mods=mods):
                st, ys = [list(s) for s in ss], []
                for lo, hi in chunks(N, b):
                    v = x[lo:hi]
                    for k, g in enumerate(mods):
                        v, st[k] = gen_ref(ps[k], st[k], v, False, g.id)
                    ys.append(v)
                return onp.concatenate(ys), st
            out.append(Case(
                f"structures state {i} N={N} b={b}",
                [[jax.tree.leaves(_kind(g.pk, S), is_leaf=isspec)
                  for g in mods],
                 [jax.tree.leaves(_kind(g.sk, S), is_leaf=isspec)
                  for g in mods], S(N, 2)], fn, ref=rg, setup=setup,
                funcs=F, bounds=f"{N} samples, batch {b}", weight=2))
    # with a progress display
    for N, b in ((5, 2), (4, 2)):
        for ar in (False,):
            def fn(m, W, bi, x, b=b, ar=ar):
                with quiet():
                    y = withp(m, [W, bi], lambda: m(
                        x, max_batch_size=b, avoid_recompilation=ar,
                        rng=KEY, verbose=True))
                    if not isinstance(y, jax.core.Tracer):
                        y.block_until_ready()
                    return y
            out.append(Case(
                f"verbose call N={N} b={b} avoid={ar}",
                [S(3, 2), S(3), S(N, 2)], fn, ref=ref, setup=build, funcs=F,
                bounds=f"{N} samples, batch {b}"))
    # the batch size may change from call to call
    seqs = [(2, None, 3), (None, 2, 2), (3, 1, 5), (1, 4, 2)]
    for sq in seqs:
        for ars in ((False, False, False), (True, False, True)):
            def fn(m, W, bi, x, z, sq=sq, ars=ars):
                return withp(m, [W, bi], lambda: [
                    m(v, max_batch_size=b, avoid_recompilation=a, rng=KEY)
                    for b, a, v in zip(sq, ars, (x, z, x))])
            out.append(Case(
                f"sequence {sq} {ars}".replace(" ", ""),
                [S(3, 2), S(3), S(5, 2), S(3, 2)], fn,
                ref=lambda W, b, x, z: [ref(W, b, x), ref(W, b, z),
                                        ref(W, b, x)],
                setup=build, funcs=F, bounds="three calls"))
    # gradients
    for N, b in ((5, 2), (3, 1), (4, 3), (4, 2), (2, 4)):
        for fwd in (True, False):
            for ar in ((False, True) if (N, b) in ((5, 2), (4, 2)) else
                       (False,)):
                def fn(m, W, bi, x, b=b, fwd=fwd, ar=ar):
                    return withp(m, [W, bi], lambda: (
                        m.grad_input(x, max_batch_size=b, fwd=fwd, rng=KEY,
                                     avoid_recompilation=ar),
                        m.grad_params(x, max_batch_size=b, fwd=fwd, rng=KEY,
                                      avoid_recompilation=ar)))

                def goals(ins, o, N=N):
                    W, bi, x = ins
                    gi, gp = o
                    pre = oeinsum("ab,zb->za", W, x) + bi[None]
                    on = J.vec(lambda e: ite(e > el(0), el(1), el(0)), pre)
                    # away from the kink
                    gs = eqs(gi, onp.einsum("za,ab->zab", on, W), "grad_x")
                    gW = onp.full((N, 3, 3, 2), el(0), object)
                    gb = onp.full((N, 3, 3), el(0), object)
                    for z in range(N):
                        for a in range(3):
                            gb[z, a, a] = on[z, a]
                            for c in range(2):
                                gW[z, a, a, c] = on[z, a] * x[z, c]
                    lv = jax.tree.leaves(gp, is_leaf=is_arr)
                    return gs + eqs(lv, [gW, gb], "grad_p")

                def assume(ins):
                    W, bi, x = ins
                    pre = oeinsum("ab,zb->za", W, x) + bi[None]
                    return [B(C.bnot(C.tb(e == el(0)))) for e in
                            pre.reshape(-1)]
                out.append(Case(
                    f"grad N={N} b={b} fwd={fwd} avoid={ar}",
                    [S(3, 2), S(3), S(N, 2)], fn, goals, assume=assume,
                    setup=build, funcs=F, weight=3,
                    bounds=f"{N} samples, batch {b}"))
    # the wrapper itself around an arbitrary callable
    for N, b in ((5, 2), (6, 3), (2, 3), (1, 1)):
        for ar in (False, True):
            def fn(p, x, b=b, ar=ar):
                g = autobatch(lambda pr, d, training, st, rng: (
                    {"y": d["u"] * pr[0] + d["v"][:, None] ** 2,
                     "w": d["v"] * (2.0 if training else 3.0)}, st),
                    b, avoid_recompilation=ar)
                return [g(p, x, tr, (), KEY)[0] for tr in (True, False)]

            def rw(p, x):
                return [{"y": x["u"] * p[0] + (x["v"] * x["v"])[:, None],
                         "w": x["v"] * el(k)} for k in (2, 3)]
            out.append(Case(f"wrapper N={N} b={b} avoid={ar}",
                            [[S(2)], {"u": S(N, 2), "v": S(N)}], fn, ref=rw,
                            funcs=F, bounds=f"{N} samples, batch {b}"))
    return out
