"""Shuffling and batching: random_permute_leaves, batch_leaves, pytree_split
and the batching of Model.train are traced with symbolic data and symbolic
random bits (every key); outputs are proved to be a joint permutation /
partition of the input rows."""
from pv.props.common import *
from pv.props.trainlib import Count, Acc, Tick, train
from parametricmatrixmodels.tree_util import (
    random_permute_leaves, batch_leaves, pytree_split)
from parametricmatrixmodels.training import OptimizerState

ASSUMPTIONS = ["random bits are arbitrary (every key, and more)"]
F = ["tree_util.random_permute_leaves", "tree_util.batch_leaves",
     "tree_util.pytree_split", "training._train"]


def rows(t, axis=0):
    """list of per-row element lists over all leaves"""
    ls = jax.tree.leaves(t, is_leaf=is_arr)
    N = ls[0].shape[axis]
    return [[e for a in ls for e in onp.moveaxis(a, axis, 0)[i].reshape(-1)]
            if ls[0].ndim else [] for i in range(N)]


def rw(t, axis=0):
    ls = [onp.moveaxis(onp.asarray(a, dtype=object), axis, 0)
          for a in jax.tree.leaves(t, is_leaf=is_arr)]
    return [[e for a in ls for e in onp.asarray(a[i], dtype=object
                                                ).reshape(-1)]
            for i in range(ls[0].shape[0])]


def eqrow(a, b):
    r = True
    for x, y in zip(a, b):
        r = C.band(r, el(x).eq(el(y)).v)
    return r


def is_perm(got, want, label):
    """one permutation maps all rows of want to got"""
    N = len(want)
    E_ = [[eqrow(got[i], want[j]) for j in range(N)] for i in range(N)]
    r = False
    for p in itertools.permutations(range(N)):
        c = True
        for i in range(N):
            c = C.band(c, E_[i][p[i]])
        r = C.bor(r, c)
    return [Goal("true", B(r), label=label + " is not one permutation of the "
                 "input rows")]


def shapes_ok(out, ins, label):
    a = [x.shape for x in jax.tree.leaves(out, is_leaf=is_arr)]
    b = [x.shape for x in jax.tree.leaves(ins, is_leaf=is_arr)]
    same = a == b and jax.tree.structure(out, is_leaf=is_arr) == \
        jax.tree.structure(ins, is_leaf=is_arr)
    return [] if same else [Goal("true", B(False), label=f"{label} shapes {a} "
                                 f"expected {b}")]


TREES = {
    "vec": lambda N: S(N),
    "mat": lambda N: S(N, 2),
    "tree": lambda N: {"a": S(N, 2), "b": [S(N), S(N, 1, 2)]},
    "cplx": lambda N: (SC(N), S(N, 1)),
}


def perm_case(tn, N, axis=0):
    sp = TREES[tn](N)
    if axis:
        sp = {"a": S(2, N), "b": S(1, N, 2)}

    def fn(t):
        return random_permute_leaves(t, jax.random.key(C.seed(3)), axis=axis)

    def goals(ins, out):
        g = shapes_ok(out, ins[0], "shuffled")
        return g or is_perm(rw(out, axis), rw(ins[0], axis), "shuffled data")
    return Case(f"permute {tn} N={N} axis={axis}", [sp], fn, goals=goals,
                funcs=F, weight=2, bounds=f"{N} rows, every key")


def same_key(N):
    """X, Y and Y_unc shuffled with the same key stay aligned"""
    def fn(X, Y, U):
        k = jax.random.key(C.seed(3))
        return [random_permute_leaves(t, k, axis=0) for t in (X, Y, U)]

    def goals(ins, out):
        return shapes_ok(out, list(ins), "") or is_perm(
            rw(out), rw(list(ins)), "joint data")
    return Case(f"aligned N={N}", [S(N, 2), {"y": S(N), "z": S(N, 1, 1)},
                                   S(N)], fn, goals=goals, funcs=F, weight=2,
                bounds=f"{N} rows, every key")


def indep(N):
    """independent leaves: each leaf is permuted on its own"""
    def fn(t):
        return random_permute_leaves(t, jax.random.key(C.seed(3)),
                                     independent_leaves=True)

    def goals(ins, out):
        g = shapes_ok(out, ins[0], "")
        if g:
            return g
        for i in range(len(ins[0])):
            g += is_perm(rw(out[i]), rw(ins[0][i]), f"leaf {i}")
        return g
    return Case(f"independent leaves N={N}", [[S(N), S(N, 2)]], fn,
                goals=goals, funcs=F, weight=2, bounds=f"{N} rows")


def slc(t, lo, hi, axis):
    return jax.tree.map(lambda a: onp.moveaxis(onp.moveaxis(
        a, axis, 0)[lo:hi], 0, axis), t, is_leaf=is_arr)


def batch_case(N, b, axis=0):
    sp = {"a": S(N, 2), "b": (S(N), S(N, 1, 2))} if axis == 0 else \
        {"a": S(2, N), "b": (S(1, N, 2),)}
    nb, rem = divmod(N, b)

    def fn(t):
        r = [batch_leaves(t, b, i, axis=axis) for i in range(nb)]
        if rem:
            r.append(batch_leaves(t, b, nb, length=rem, axis=axis))
        if nb:
            r.append(jax.lax.fori_loop(
                0, nb, lambda i, c: jax.tree.map(
                    jnp.add, c, batch_leaves(t, b, i, axis=axis)),
                jax.tree.map(lambda x: 0.0 * jax.lax.slice_in_dim(
                    x, 0, b, axis=axis), t)))
        return r

    def ref(t):
        r = [slc(t, i, min(i + b, N), axis) for i in range(0, N, b)]
        if nb:
            r.append(jax.tree.map(
                lambda *x: sum(x[1:], x[0]),
                *[slc(t, i * b, i * b + b, axis) for i in range(nb)],
                is_leaf=is_arr))
        return r
    return Case(f"batches N={N} b={b} axis={axis}", [sp], fn, ref=ref,
                funcs=F, bounds=f"{N} rows, batches of {b}")


def split_case(N, b, axis=0):
    sp = {"a": S(N, 2), "b": (S(N), S(N, 1, 2))} if axis == 0 else \
        {"a": S(2, N), "b": (S(1, N, 2),)}
    nb, rem = divmod(N, b)

    def fn(t):
        return pytree_split(t, b, axis=axis)

    def ref(t):
        parts = jax.tree.map(
            lambda *x: onp.stack(x),
            *[slc(t, i * b, i * b + b, axis) for i in range(nb)],
            is_leaf=is_arr) if nb else jax.tree.map(
            lambda a: onp.empty((0,) + tuple(
                b if k == axis else s for k, s in enumerate(a.shape)),
                dtype=object), t, is_leaf=is_arr)
        return (parts, slc(t, nb * b, N, axis) if rem else None)
    return Case(f"split N={N} b={b} axis={axis}", [sp], fn, ref=ref, funcs=F,
                bounds=f"{N} rows, parts of {b}")


def vl(epoch, X, *a):
    return -a[-1]["n"][0, 0]


def epoch_case(N, b, K):
    """every epoch of Model.train shows every sample exactly once"""
    def setup():
        m = pmm.SequentialModel([Acc(2), M.Bias(), Count()])
        m.compile(0, (2,))
        m.set_precision(64)
        return m

    def loss(epoch, X, Y, pred):
        return jnp.sum(0.0 * pred["y"])

    def fn(m, p, X):
        return train(m, [p], X, jnp.ones((N, 1)), loss_fn=loss,
                     val_loss_fn=vl, X_val=X[:1], Y_val=jnp.ones((1, 1)),
                     epochs=K, batch_size=b)[1]

    def goals(ins, out):
        p, X = ins
        a, r, c, n = jax.tree.leaves(out, is_leaf=is_arr)
        tot = [el(K) * sum(list(X[:, j]), el(0)) for j in range(2)]
        bb = min(b, N)
        nb = -(-N // bb)
        o = lambda v: onp.asarray(el(v), dtype=object)
        return eqs(a, onp.array(tot, dtype=object), "sum of rows seen") + \
            eqs(r, o(K * N), "rows seen") + eqs(c, o(K * nb), "batches") + \
            eqs(n, o(K * nb), "steps")
    return Case(f"epochs N={N} b={b} K={K}", [S(2), S(N, 2)], fn, goals=goals,
                setup=setup, funcs=F, weight=5,
                bounds=f"{N} samples, batches of {b}, {K} epochs, every "
                "shuffle")


def align_case(N, b):
    """inputs, targets and uncertainties of a sample arrive together"""
    def setup():
        m = pmm.SequentialModel([M.Bias(), Tick()])
        m.compile(0, (1,))
        m.set_precision(64)
        return m

    def loss(epoch, X, Y, U, pred):
        # every misaligned row contributes its difference
        return jnp.sum(pred[:, :1] * jnp.abs(Y["a"] - 2.0 * X)) + jnp.sum(
            pred[:, :1] * jnp.abs(U["a"] - 3.0 * X)) + jnp.sum(
            pred[:, 0] * jnp.abs(Y["b"][:, 0, 0] - 5.0 * X[:, 0]))

    def mom(m):
        st = getattr(m, "_optimizer_state", None)
        l = [o for o in jax.tree.leaves(
            st, is_leaf=lambda x: isinstance(x, OptimizerState))
            if isinstance(o, OptimizerState)]
        if len(l) != 1:
            raise C.Unsupported("optimizer state not found")
        return l[0].m

    def fn(m, p, X):
        Y = {"a": 2.0 * X, "b": 5.0 * X[:, :, None]}
        U = {"a": 3.0 * X, "b": X[:, :, None]}
        sl = lambda t: jax.tree.map(lambda x: x[:1], t)
        return train(m, [p], X, Y, Y_unc=U, X_val=X[:1], Y_val=sl(Y),
                     Y_val_unc=sl(U), loss_fn=loss,
                     val_loss_fn=lambda e, x, y, u, pr: -pr[0, 1],
                     epochs=1, batch_size=b, opt=mom)

    def goals(ins, out):
        return [Goal("eq", e, el(0), label="misaligned gradient")
                for e in out.reshape(-1)]
    return Case(f"train alignment N={N} b={b}", [S(1), S(N, 1)], fn,
                goals=goals, setup=setup, funcs=F, weight=5,
                bounds=f"{N} samples, batches of {b}, every shuffle")


def jobs(tier):
    T = tier == "thorough"
    out = []
    for tn in TREES:
        for N in (1, 2, 3) + ((4,) if T else ()):
            out.append(perm_case(tn, N))
    if not T:
        out.append(perm_case("mat", 4))
    out.append(perm_case("mat", 3, axis=1))
    for N in (2, 3):
        out.append(same_key(N))
        out.append(indep(N))
    for N in range(1, 8 if T else 6):
        for b in range(1, N + 1):
            out.append(batch_case(N, b))
            out.append(split_case(N, b))
    out.append(split_case(2, 3))
    for N, b in ((3, 2), (4, 2)):
        out.append(batch_case(N, b, axis=1))
        out.append(split_case(N, b, axis=1))
    for N, b, K in ((2, 1, 2), (3, 2, 2), (3, 1, 1), (3, 3, 2), (4, 3, 1),
                    (3, 5, 1)) + (((4, 2, 1), (4, 3, 2)) if T else ()):
        out.append(epoch_case(N, b, K))
    for N, b in ((2, 1), (3, 2), (3, 3)):
        out.append(align_case(N, b))
    return out
