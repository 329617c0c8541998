"""Observable sums: for every observable array and every batch of state
vectors, ExpectationValueSum and TransitionAmplitudeSum return real values
equal to the documented sums over the Hermitian parts of the observables
(minus half the squared operator norms when centered), do not change when
state vectors are
multiplied by phases or reordered, and the terms are
weighted per vector by the squared modulus of any factor applied to it."""
from .common import *


def F32(c):
    return True


ASSUMPTIONS = ["singular values are an uninterpreted function of the matrix "
               "(descending, nonnegative); norm(ord=2) is their maximum"]


def norms(Dh):
    """sum over m of ||D_km||_2^2, as jax computes singular values"""
    q, l, n, _ = Dh.shape
    sp = jax.ShapeDtypeStruct(Dh.shape, jnp.complex128)
    sv = J.run(lambda d: jnp.linalg.svd(d, compute_uv=False), [sp], [Dh])
    out = onp.empty((q,), dtype=object)
    for k in range(q):
        acc = el(0)
        for m in range(l):
            acc = acc + sv[k, m, 0] * sv[k, m, 0]
        out[k] = acc
    return out


def ref(D, V, kind, centered):
    D = herm(D)
    b, n, r = V.shape
    q, l = D.shape[:2]
    out = onp.empty((b, q), dtype=object)
    nm = norms(D) if centered else None
    for s in range(b):
        for k in range(q):
            acc = el(0)
            for m in range(l):
                for i in range(r):
                    for j in ([i] if kind == "E" else range(r)):
                        z = el(0)
                        for a in range(n):
                            for c in range(n):
                                z = z + V[s, a, i].conj() * D[k, m, a, c] \
                                    * V[s, c, j]
                        acc = acc + (z.real if kind == "E" else z.abs2())
            if centered:
                acc = acc - nm[k] * el(Fraction(1, 2))
            out[s, k] = acc
    return out


def jobs(tier):
    out = []
    T = tier == "thorough"
    cfg = [(1, 1, 2, 1, 1), (2, 1, 2, 1, 2), (1, 2, 2, 2, 1), (2, 2, 2, 1, 1),
           (1, 1, 3, 1, 1), (2, 2, 2, 2, 2), (1, 3, 2, 1, 2),
           (3, 1, 2, 1, 1), (1, 1, 2, 1, 5), (1, 5, 2, 1, 1),
           (5, 1, 2, 1, 1)]
    if T:
        cfg += [(1, 1, 3, 2, 1), (1, 1, 3, 3, 1), (1, 1, 4, 1, 1),
                (1, 11, 2, 1, 1)]
    for kind, cls in (("E", M.ExpectationValueSum),
                      ("T", M.TransitionAmplitudeSum)):
        F = [f"modules.{cls.__name__.lower()}.{cls.__name__}._get_callable"]
        for q, l, n, r, b in cfg:
            for cen in (False, True):
                for dk in (CX, R):
                    if dk == R and (q, l, r) != (1, 2, 2):
                        continue
                    if cen and l >= 4:
                        continue
                    mod = cls(num_observables=l, output_size=q, centered=cen)
                    out.append(Case(
                        f"{cls.__name__} q={q} l={l} n={n} r={r} b={b} "
                        f"centered={cen} {dk}",
                        [((q, l, n, n), dk), SC(b, n, r)],
                        lambda D, V, mod=mod: mcall(mod, D, V),
                        lambda ins, o, kind=kind, cen=cen: eqs(
                            o, ref(ins[0], ins[1], kind, cen), "value"),
                        funcs=F, bounds=f"q={q} l={l} n={n} r={r} batch={b}",
                        weight=q * l * n * n * r * b, tol=1e-5))
        # real state vectors
        for dk in (CX, R):
            mod = cls(num_observables=1, output_size=2, centered=False)
            out.append(Case(f"{cls.__name__} real vectors {dk}",
                            [((2, 1, 2, 2), dk), S(2, 2, 2)],
                            lambda D, V, mod=mod: mcall(mod, D, V),
                            lambda ins, o, kind=kind: eqs(
                                o, ref(ins[0], ins[1], kind, False), "value"),
                            funcs=F, bounds="q=2 l=1 n=2 r=2 batch=2",
                            weight=8, tol=1e-5))
        # pytree leaf preserved, default centering on
        mod = cls(num_observables=1, output_size=2)
        out.append(Case(f"{cls.__name__} pytree default",
                        [SC(2, 1, 2, 2), {"v": SC(1, 2, 1)}],
                        lambda D, V, mod=mod: mcall(mod, D, V),
                        lambda ins, o, kind=kind: eqs(
                            o, {"v": ref(ins[0], ins[1]["v"], kind, True)}),
                        funcs=F, bounds="q=2 l=1 n=2 r=1", tol=1e-5))
        # scaling law: multiplying vector i by c_i weights its terms by
        # |c_i|^2 (so unit phases change nothing), and vector order is free
        mod = cls(num_observables=1, output_size=1, centered=False)
        r = 2 if kind == "E" else 1

        def fng(D, V, c, mod=mod):
            W = V * c[None, None, :]
            return (mcall(mod, D, W), mcall(mod, D, V),
                    mcall(mod, D, V[:, :, ::-1]),
                    [mcall(mod, D, V[:, :, i:i + 1])
                     for i in range(V.shape[2])])

        def gg(ins, o, kind=kind):
            ph = ins[2]
            want = el(0)
            for i, p in enumerate(ph):
                w = p.abs2() if kind == "E" else p.abs2() * p.abs2()
                want = want + w * o[3][i][0, 0]
            return [Goal("eq", o[0][0, 0], want, label="phase/scale law")] \
                + eqs(o[2], o[1], "vector order")
        out.append(Case(f"{cls.__name__} gauge",
                        [SC(1, 1, 2, 2), SC(1, 2, r), SC(r)], fng, gg,
                        funcs=F, bounds="n=2, r<=2, every complex factor",
                        tol=1e-5))
        # output is real typed

        def fnr(D, V, mod=mod):
            o = mcall(mod, D, V)
            return jnp.asarray(not jnp.iscomplexobj(o))
        out.append(Case(f"{cls.__name__} real output",
                        [SC(1, 1, 2, 2), SC(1, 2, 1)], fnr,
                        lambda ins, o: [Goal("true", o[()],
                                             label="output dtype is real")],
                        funcs=F, bounds="n=2"))
    return out


