"""Built-in losses: the real loss functions (make_loss_fn, and the loss seen
by Model.train) are traced with symbolic predictions, targets and
uncertainties and proved equal to their formula, over arrays and PyTrees, real
and complex; the model state passes through."""
from pv.props.common import *


def F32(c):
    return True

from parametricmatrixmodels.training import make_loss_fn

ASSUMPTIONS = ["denominators (targets, uncertainties) are nonzero"]
F = ["training.make_loss_fn", "tree_util.mean", "tree_util.sub",
     "tree_util.abs_sqr", "tree_util.div", "tree_util.abs"]
TINY = el(1e-4)


def leaves(t):
    return [e for a in jax.tree.leaves(t, is_leaf=is_arr)
            for e in onp.asarray(a, dtype=object).reshape(-1)]


def term(name, p, y, u):
    d = p - y
    if name == "mse":
        return d.abs2()
    if name == "mae":
        return abs(d)
    if name.startswith("pseudo_huber"):
        dl = el(float(name.split(":")[1]) if ":" in name else 1.0)
        return dl * dl * (C.uf("sqrt", el(1) + (d / dl).abs2()) - el(1))
    if name == "mse_unc":
        return (d / u).abs2()
    if name == "mae_unc":
        return abs(d / u)
    if name == "mre":
        return abs(d / (y + TINY))
    if name == "mre_unc":
        return abs(d / ((y + TINY) * u))
    if name == "mrd":
        return abs(d / ((y + p) * el(2) + TINY))
    if name == "mrd_unc":
        return abs(d / (((y + p) * el(2) + TINY) * u))
    raise KeyError(name)


def ref_loss(name, P_, Y, U=None):
    p, y = leaves(P_), leaves(Y)
    u = leaves(U) if U is not None else [None] * len(p)
    acc = el(0)
    for a, b, c in zip(p, y, u):
        acc = acc + term(name, el(a), el(b), None if c is None else el(c))
    return onp.asarray(acc / el(len(p)), dtype=object)


SHAPES = {
    "array": lambda s: s(2, 2),
    "vec1": lambda s: s(1, 3),
    "tree": lambda s: {"a": s(2, 1), "b": (s(2, 1, 2), s(2))},
    "unequal": lambda s: [s(1, 1), s(1, 2, 2)],
}


def case(name, sh, cplx):
    unc = name.endswith("_unc")
    uns = name.endswith("_unsupervised")
    sp = SHAPES[sh](SC if cplx else S)
    up = SHAPES[sh](S)

    def model_fn(X, params, training, state, rng):
        # the "prediction" is the parameters, the state counts
        return params, (state[0] + 1.0,)

    def fn(*a):
        if uns:
            P_, Y = a
            l = make_loss_fn(name, model_fn)
            return l(3, Y, P_, True, (jnp.asarray(5.0),), KEY)
        l = make_loss_fn(name, model_fn)
        P_, Y = a[:2]
        X = jnp.zeros((2, 1))
        if unc:
            return l(3, X, Y, a[2], P_, True, (jnp.asarray(5.0),), KEY)
        return l(3, X, Y, P_, True, (jnp.asarray(5.0),), KEY)

    def goals(ins, out):
        loss, st = out
        base = name[:-len("_unsupervised")] if uns else name
        want = ref_loss(base, ins[0], ins[1], ins[2] if unc else None)
        g = eqs(loss, want, "loss")
        g += eqs(st, (onp.asarray(el(6), dtype=object),), "state")
        return g

    def assume(ins):
        if not unc:
            return []
        return [C.bnot(e.eq(0).v) for e in leaves(ins[2])] if False else [
            B(C.rcmp("gt", el(e).re, Fraction(1, 64)))
            for e in leaves(ins[2])]
    inputs = [sp, sp] + ([up] if unc else [])
    return Case(f"{name} {sh} {'complex' if cplx else 'real'}", inputs, fn,
                goals=goals, assume=assume, funcs=F, weight=3 if cplx else 1,
                bounds=f"shape {sh}, "
                f"{'complex' if cplx else 'real'} values")


def zero_case(name, sh, cplx):
    """a perfect prediction has loss zero"""
    unc = name.endswith("_unc")
    sp = SHAPES[sh](SC if cplx else S)
    up = SHAPES[sh](S)

    def fn(Y, U):
        l = make_loss_fn(name, lambda X, p, t, s, r: (p, s))
        a = (0, jnp.zeros((2, 1)), Y) + ((U,) if unc else ())
        return l(*a, Y, False, (), KEY)[0]
    return Case(f"{name} {sh} {'complex' if cplx else 'real'} perfect",
                [sp, up], fn, goals=lambda ins, out: [
                    Goal("eq", out[()], el(0), label="loss of a perfect "
                         "prediction")],
                assume=lambda ins: [B(C.rcmp("gt", el(e).re, Fraction(1, 64)))
                                    for e in leaves(ins[1])],
                funcs=F, bounds=f"shape {sh}")


def reject(name, bad):
    """unknown names are rejected"""
    def fn(x):
        try:
            make_loss_fn(bad, lambda X, p, t, s, r: (p, s))
            return x * 0 + 1.0
        except ValueError:
            return x * 0
    return Case(name, [S()], fn, goals=lambda ins, out: [
        Goal("eq", out[()], el(0), label="unknown loss rejected")], funcs=F,
        bounds="one name")


def jobs(tier):
    out = []
    names = ["mse", "mae", "pseudo_huber", "pseudo_huber:0.5",
             "pseudo_huber:3", "mse_unc", "mae_unc", "mre", "mre_unc", "mrd",
             "mrd_unc", "mse_unsupervised", "mae_unsupervised",
             "mre_unsupervised"]
    for n in names:
        for sh in SHAPES:
            for cx in (False, True):
                out.append(case(n, sh, cx))
        if not n.endswith("_unsupervised"):
            out.append(zero_case(n, "tree", False))
            out.append(zero_case(n, "array", True))
    out.append(reject("unknown name", "nonsense"))
    out.append(reject("unknown name 2", "msee"))
    return out
