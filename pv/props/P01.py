"""Affine matrix builders: for every parameter array (Hermitian or not) and
every real input, AffineHermitianMatrix and LowRankAffineHermitianMatrix return
for each sample a Hermitian matrix equal to M0 + sum_i x_i M_i + s*C, where M_i
is the Hermitian part of the parameters and C = i*sum_{i>j}[M_i, M_j];
AffineTensor returns T0 + sum_i x_i T_i."""
from .common import *


def F32(c):
    return True


def ref_affine(Ms, x, bias, s):
    b = x.shape[0]
    n = Ms.shape[1:]
    out = onp.empty((b,) + n, dtype=object)
    p = Ms.shape[0]
    off = 1 if bias else 0
    Cm = None
    if isinstance(s, E) or s:
        acc = None
        for i in range(p):
            for j in range(i):
                c = Ms[i] @ Ms[j] - Ms[j] @ Ms[i]
                acc = c if acc is None else acc + c
        if acc is not None:
            Cm = acc * I * el(s)
    for k in range(b):
        acc = None
        if bias:
            acc = Ms[0]
        for i in range(x.shape[1]):
            t = Ms[i + off] * x[k, i]
            acc = t if acc is None else acc + t
        if Cm is not None:
            acc = acc + Cm
        out[k] = acc
    return out


def lowrank(ls, us):
    p, n, r = us.shape
    Ms = onp.empty((p, n, n), dtype=object)
    for i in range(p):
        for a in range(n):
            for c in range(n):
                acc = el(0)
                for k in range(r):
                    acc = acc + ls[i, k] * us[i, a, k] * us[i, c, k].conj()
                Ms[i, a, c] = acc
    return Ms


def jobs(tier):
    out = []
    T = tier == "thorough"
    F = ["modules.affinehermitianmatrix.AffineHermitianMatrix._get_callable",
         "modules._smoothing.exact_smoothing_matrix"]
    cfgs = [(2, 2, 2, True, 0.0), (3, 2, 2, True, 0.0), (2, 3, 2, True, 0.5),
            (3, 2, 1, True, 2.0), (2, 2, 2, False, 0.0),
            (2, 3, 2, False, 0.5), (2, 1, 2, True, 0.25), (1, 2, 2, True, 0.5),
            (5, 2, 2, True, 0.0), (3, 6, 2, True, 0.0), (2, 2, 7, True, 0.5),
            (3, 4, 2, True, -1.5), (2, 6, 1, False, 0.5), (4, 1, 1, False, 0.0),
            (2, 9, 2, True, 0.0), (7, 1, 1, True, 0.0), (1, 1, 1, False, 0.5),
            (2, 2, 2, True, "sym"), (2, 3, 1, False, "sym"),
            (3, 2, 1, True, "sym"), (2, 2, 7, False, 0.5),
            (2, 2, 6, False, 0.0), (2, 2, 11, True, 0.0),
            (2, 11, 1, False, 0.0), (9, 1, 1, True, 0.0)]
    if T:
        cfgs += [(4, 3, 2, True, 0.0), (3, 3, 2, True, 0.5),
                 (3, 4, 2, False, 0.5), (4, 2, 1, True, 1.5),
                 (2, 5, 3, True, 0.5), (2, 1, 3, False, 0.0)]
    for n, p, b, bias, s in cfgs:
        P = p + (1 if bias else 0)
        if s == "sym":      # every smoothing value
            def fn(Ms, x, s, n=n, bias=bias):
                return mcall(M.AffineHermitianMatrix(
                    n, smoothing=pyfloat(s), bias_term=bias), Ms, x)

            def goals(ins, o, bias=bias):
                Ms, x, s = ins
                return eqs(o, ref_affine(herm(Ms), x, bias, s[()]),
                           "value") + is_hermitian(o)
            out.append(Case(f"affine_herm n={n} p={p} b={b} bias={bias} "
                            "any smoothing", [SC(P, n, n), S(b, p), S()], fn,
                            goals, funcs=F, forks=4, weight=n * n * p * 2,
                            bounds=f"matrix {n}x{n}, {p} features, batch {b},"
                            " every smoothing value"))
            continue
        mod = M.AffineHermitianMatrix(n, smoothing=s, bias_term=bias)
        for kind in (CX, R):
            if kind == R and (n, p) != (2, 3) and not T:
                continue
            if kind == R and s:
                continue
            nm = f"affine_herm n={n} p={p} b={b} bias={bias} s={s} {kind}"

            def fn(Ms, x, mod=mod):
                return mcall(mod, Ms, x)

            def goals(ins, o, bias=bias, s=s):
                Ms, x = ins
                return eqs(o, ref_affine(herm(Ms), x, bias, s), "value") \
                    + is_hermitian(o)
            out.append(Case(nm, [((P, n, n), kind), S(b, p)], fn, goals,
                            funcs=F, bounds=f"matrix {n}x{n}, {p} features, "
                            f"batch {b}, params {kind}", weight=n * n * p))
    # PyTree data with a single leaf keeps its structure
    mod = M.AffineHermitianMatrix(2)
    out.append(Case("affine_herm pytree", [SC(3, 2, 2), {"a": S(2, 2)}],
                    lambda Ms, x, mod=mod: mcall(mod, Ms, x),
                    lambda ins, o: eqs(o, {"a": ref_affine(
                        herm(ins[0]), ins[1]["a"], True, 0.0)}),
                    funcs=F, bounds="2x2, 2 features, batch 2"))
    # default-constructed smoothing (None) means no smoothing
    mod2 = M.AffineHermitianMatrix(matrix_size=2, smoothing=None)
    out.append(Case("affine_herm smoothing none", [SC(3, 2, 2), S(1, 2)],
                    lambda Ms, x: mcall(mod2, Ms, x),
                    lambda ins, o: eqs(o, ref_affine(
                        herm(ins[0]), ins[1], True, 0.0)), funcs=F,
                    bounds="2x2, 2 features"))
    F2 = ["modules.lowrankaffinehermitianmatrix."
          "LowRankAffineHermitianMatrix._get_callable",
          "modules._smoothing.exact_smoothing_matrix"]
    cfgs = [(2, 1, 2, 2, True, 0.0), (3, 2, 1, 2, True, 0.0),
            (2, 2, 2, 1, False, 0.0), (2, 1, 2, 1, True, 0.5),
            (2, 1, 2, 1, False, 0.5), (3, 3, 2, 1, True, 0.0),
            (2, 1, 5, 3, True, 0.0), (4, 1, 1, 1, False, 0.0),
            (2, 1, 2, 2, True, -1.5), (2, 1, 2, 2, False, -0.5),
            (2, 1, 2, 7, True, 0.0), (2, 1, 2, 7, False, 0.5),
            (2, 1, 2, 1, True, "sym"), (2, 2, 2, 1, False, "sym"),
            (5, 1, 2, 1, True, 0.0), (6, 2, 1, 1, True, 0.0)]
    if T:
        cfgs += [(3, 2, 2, 2, True, 0.0), (2, 2, 2, 1, True, 0.5),
                 (3, 3, 1, 1, False, 0.0), (3, 1, 2, 1, True, 0.5)]
    for n, r, p, b, bias, s in cfgs:
        P = p + (1 if bias else 0)
        if s == "sym":
            def fn(prm, x, s, n=n, r=r, bias=bias):
                return mcall(M.LowRankAffineHermitianMatrix(
                    n, r, smoothing=pyfloat(s), bias_term=bias),
                    (prm[0], prm[1]), x)

            def goals(ins, o, bias=bias):
                (ls, us), x, s = ins
                return eqs(o, ref_affine(lowrank(ls, us), x, bias, s[()]),
                           "value") + is_hermitian(o)
            out.append(Case(f"lowrank n={n} r={r} p={p} b={b} bias={bias} "
                            "any smoothing", [(S(P, r), SC(P, n, r)),
                                              S(b, p), S()], fn, goals,
                            funcs=F2, forks=4, weight=n * n * p * 4,
                            bounds=f"{n}x{n} rank {r}, {p} features, batch "
                            f"{b}, every smoothing value"))
            continue
        mod = M.LowRankAffineHermitianMatrix(n, r, smoothing=s, bias_term=bias)
        P = p + (1 if bias else 0)

        def fn(prm, x, mod=mod):
            return mcall(mod, (prm[0], prm[1]), x)

        def goals(ins, o, bias=bias, s=s):
            (ls, us), x = ins
            return eqs(o, ref_affine(lowrank(ls, us), x, bias, s), "value") \
                + is_hermitian(o)
        out.append(Case(f"lowrank n={n} r={r} p={p} b={b} bias={bias} s={s}",
                        [(S(P, r), SC(P, n, r)), S(b, p)], fn, goals,
                        funcs=F2, bounds=f"{n}x{n} rank {r}, {p} features, "
                        f"batch {b}", weight=n * n * p * 2))
    F3 = ["modules.affinetensor.AffineTensor._get_callable"]
    for sh, p, b, bias, kind in [((2,), 2, 2, True, R),
                                 ((2, 3), 2, 2, True, CX),
                                 ((3,), 3, 2, False, R),
                                 ((2, 1, 2), 2, 2, False, CX),
                                 ((4, 3), 6, 2, True, R), ((2,), 2, 6, True,
                                                           CX),
                                 ((1,), 1, 1, True, R), ((2, 2, 2, 2), 1, 1,
                                                         True, R),
                                 ((2,), 2, 9, False, R),
                                 ((2,), 11, 2, True, R),
                                 ((9,), 2, 2, False, CX)]:
        mod = M.AffineTensor(sh, bias_term=bias, real=kind == R)
        P = p + (1 if bias else 0)
        out.append(Case(f"affine_tensor {sh} p={p} b={b} bias={bias} {kind}",
                        [((P,) + sh, kind), S(b, p)],
                        lambda Ms, x, mod=mod: mcall(mod, Ms, x),
                        lambda ins, o, bias=bias: eqs(o, ref_affine(
                            ins[0], ins[1], bias, 0.0)),
                        funcs=F3, bounds=f"tensor {sh}, {p} features, "
                        f"batch {b}"))
        # complex input features
        out.append(Case(f"affine_tensor {sh} p={p} b={b} bias={bias} {kind} "
                        "complex input", [((P,) + sh, kind), SC(b, p)],
                        lambda Ms, x, mod=mod: mcall(mod, Ms, x),
                        lambda ins, o, bias=bias: eqs(o, ref_affine(
                            ins[0], ins[1], bias, 0.0)),
                        funcs=F3, bounds=f"tensor {sh}, {p} features, "
                        f"batch {b}"))
    mod = M.AffineTensor((2,))
    out.append(Case("affine_tensor pytree", [S(3, 2), {"a": [S(2, 2)]}],
                    lambda Ms, x, mod=mod: mcall(mod, Ms, x),
                    lambda ins, o: eqs(o, {"a": [ref_affine(
                        ins[0], ins[1]["a"][0], True, 0.0)]}),
                    funcs=F3, bounds="2 features, batch 2"))
    mod3 = M.LowRankAffineHermitianMatrix(2, 1)
    out.append(Case("lowrank pytree", [(S(3, 1), SC(3, 2, 1)),
                                       {"a": [S(2, 2)]}],
                    lambda prm, x: mcall(mod3, (prm[0], prm[1]), x),
                    lambda ins, o: eqs(o, {"a": [ref_affine(
                        lowrank(*ins[0]), ins[1]["a"][0], True, 0.0)]}),
                    funcs=F2, bounds="2 features, batch 2"))
    return out
