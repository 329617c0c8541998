"""Eigen selection: for every Hermitian matrix in the batch, Eigenvalues,
Eigenvectors and Eigensystem return exactly the k eigenpairs that `which`
names (S/L/E/I = smallest/largest/exterior/interior by A = algebraic value or
M = magnitude), in ascending order of that key, values and vectors paired
column by column; num_eig=None returns all of them.  eigh itself is an
uninterpreted function with its ordering axiom."""
from .common import *


def F32(c):
    # vectors are not compared across precisions (their sign is arbitrary)
    return c.name.startswith("module values")

from parametricmatrixmodels import eigen_util as EU

ASSUMPTIONS = ["jax.numpy.linalg.eigh is trusted (uninterpreted function of "
               "the matrix, eigenvalues ascending)",
               "eigenvector goals assume distinct keys (ties may be broken "
               "either way)"]
WH = ["SA", "LA", "SM", "LM", "EA", "EM", "IA", "IM"]


def positions(n, k, which):
    k = n if k is None else k
    c = which.lower()[0]
    h = k // 2
    if c == "s":
        return list(range(k))
    if c == "l":
        return list(range(n - k, n))
    if c == "e":
        return list(range(h)) + list(range(n - (k - h), n))
    return list(range(n // 2 - h, n // 2 + (k - h)))


def key(e, which):
    return e if which.lower()[1] == "a" else abs(e)


def order_stats(ks):
    """sorted keys by comparator network (bubble), independent of the code"""
    ks = list(ks)
    n = len(ks)
    for i in range(n):
        for j in range(n - 1 - i):
            a, b = ks[j], ks[j + 1]
            ks[j], ks[j + 1] = C.emin(a, b), C.emax(a, b)
    return ks


def rank(ks, j):
    r = el(0)
    for i in range(len(ks)):
        if i != j:
            r = r + el(ks[i] < ks[j])
    return r


def distinct(ks):
    out = []
    for i in range(len(ks)):
        for j in range(i):
            out.append(~ks[i].eq(ks[j]))
    return out


def select_goals(Ein, Vin, Eo, Vo, k, which, tol=1e-6):
    """Ein [n], Vin [n,n] or None, Eo [k], Vo [n,k]"""
    n = len(Ein)
    ks = [key(e, which) for e in Ein]
    pos = positions(n, k, which)
    gs = []
    want = (len(pos),)
    if Eo is not None:
        if Eo.shape != want:
            return [Goal("true", B(False), label=f"shape {Eo.shape} "
                         f"expected {want}")]
        os_ = order_stats(ks)
        for j, p in enumerate(pos):
            gs.append(Goal("eq", key(Eo[j], which), os_[p],
                           label=f"key of output {j}"))
            hit = B(False)
            for i in range(n):
                hit = hit | near(Eo[j], Ein[i], tol)
            gs.append(Goal("true", hit, label=f"output {j} is an eigenvalue"))
    if Vo is not None:
        if Vo.shape != (Vin.shape[0], len(pos)):
            return [Goal("true", B(False), label=f"shape {Vo.shape}")]
        for j, p in enumerate(pos):
            for i in range(n):
                c = rank(ks, i).eq(el(p))
                for r in range(Vin.shape[0]):
                    a, b = el(Vo[r, j]), el(Vin[r, i])
                    gs.append(Goal("true", ~c | near(a, b),
                                   label=f"V[{r},{j}] from rank {p}"))
                if Eo is not None:
                    gs.append(Goal("true", ~c | near(Eo[j], Ein[i], tol),
                                   label=f"E[{j}] from rank {p}"))
    return gs


def near(a, b, tol=1e-6):
    if a.const() and b.const():
        z = complex(float(a.re - b.re), float(a.im - b.im))
        return B(abs(z) < tol * (1 + abs(float(a.re))))
    return a.eq(b)



def jobs(tier):
    out = []
    T = tier == "thorough"
    F0 = ["eigen_util.select_eigenpairs_by_eigenvalue",
          "eigen_util.select_eigenvalues", "eigen_util.select_eigenpairs_by_fn"]
    ns = [1, 2, 3, 4] if not T else [1, 2, 3, 4, 5]
    for w in WH:
        for n in ns:
            for k in [None] + list(range(1, n + 1)):
                if n == 5 and k not in (2, 3, None):
                    continue
                if n == 4 and not T and k == 1:
                    continue

                def fn(e, k=k, w=w):
                    return EU.select_eigenvalues(e, k, w)
                out.append(Case(f"select values n={n} k={k} {w}", [S(n)], fn,
                                lambda ins, o, k=k, w=w: select_goals(
                                    ins[0], None, o, None, k, w),
                                funcs=F0, bounds=f"any {n} values in any "
                                f"order, k={k}", weight=n))
                if n > 4 or (n == 4 and not T and k != 3):
                    continue

                def fn2(e, v, k=k, w=w):
                    return EU.select_eigenpairs_by_eigenvalue(e, v, k, w)
                out.append(Case(
                    f"select pairs n={n} k={k} {w}", [S(n), S(2, n)], fn2,
                    lambda ins, o, k=k, w=w: select_goals(
                        ins[0], ins[1], o[0], o[1], k, w),
                    assume=lambda ins, w=w: distinct(
                        [key(e, w) for e in ins[0]]),
                    funcs=F0, bounds=f"any {n} pairs, distinct keys, k={k}",
                    weight=n * 2))
    # modules on matrices
    FM = ["modules.eigenvalues.Eigenvalues._get_callable",
          "modules.eigenvectors.Eigenvectors._get_callable",
          "modules.eigensystem.Eigensystem._get_callable"]

    def hm(A):
        return (A + jnp.conj(jnp.swapaxes(A, -1, -2))) / 2

    def eigref(A):
        sp = jax.ShapeDtypeStruct(A.shape, jnp.complex128 if not all(
            e.isreal for e in A.reshape(-1)) else jnp.float64)
        return J.run(lambda a: tuple(jnp.linalg.eigh(hm(a))), [sp], [A])

    for w in WH:
        for n, k, b, kind in [(3, 2, 2, CX), (2, None, 2, CX), (3, 1, 1, CX),
                              (4, 3, 1, R), (2, 1, 5, R), (5, 2, 1, R),
                              (6, 3, 1, R), (7, 4, 1, R)]:
            if n == 4 and w[1] == "M" and not T:
                continue
            if n > 4 and w[1] == "M":
                continue

            def fn(A, k=k, w=w):
                A = hm(A)
                ev = mcall(M.Eigenvalues(k, w), (), A)
                vec = mcall(M.Eigenvectors(k, w), (), A)
                es = mcall(M.Eigensystem(k, w), (), A)
                return ev, vec, es

            def asm(ins, w=w):
                W, V = eigref(ins[0])
                r = []
                for s in range(len(W)):
                    r += distinct([key(e, w) for e in W[s]])
                return r

            def goals(ins, o, k=k, w=w):
                W, V = eigref(ins[0])
                ev, vec, es = o
                gs = []
                if set(es) != {"eigenvalues", "eigenvectors"}:
                    return [Goal("true", B(False), label="eigensystem keys")]
                for s in range(len(W)):
                    g = select_goals(W[s], V[s], ev[s], vec[s], k, w)
                    g2 = select_goals(W[s], V[s], es["eigenvalues"][s],
                                      es["eigenvectors"][s], k, w)
                    gs += g + g2
                return gs
            def fnv(A, k=k, w=w):
                A = hm(A)
                return (mcall(M.Eigenvalues(k, w), (), A),
                        mcall(M.Eigensystem(k, w), (), A)["eigenvalues"])

            def goalsv(ins, o, k=k, w=w):
                W, V = eigref(ins[0])
                return [g for s in range(len(W)) for r in o
                        for g in select_goals(W[s], None, r[s], None, k, w,
                                              2e-3)]
            if n < 4:
                out.append(Case(f"module values n={n} k={k} b={b} {w} {kind}",
                                [((b, n, n), kind)], fnv, goalsv,
                                funcs=FM + F0, bounds=f"{n}x{n} {kind} "
                                f"Hermitian, k={k}, batch {b}", weight=n * n))
            out.append(Case(f"modules n={n} k={k} b={b} {w} {kind}",
                            [((b, n, n), kind)], fn, goals, assume=asm,
                            funcs=FM + F0, bounds=f"{n}x{n} {kind} Hermitian, "
                            f"k={k}, batch {b}", weight=n * n))
    # PyTree input keeps its structure; defaults
    def fnp(t):
        t = jax.tree.map(hm, t)
        return (mcall(M.Eigenvalues(2, "la"), (), t),
                mcall(M.Eigenvectors(2, "la"), (), t),
                mcall(M.Eigensystem(2, "la"), (), t),
                mcall(M.Eigenvalues(), (), t), mcall(M.Eigenvectors(), (), t),
                mcall(M.Eigensystem(), (), t))

    def goalsp(ins, o):
        gs = []
        t = ins[0]
        for nm in ("a", "b"):
            W, V = eigref(t[nm])
            for s in range(len(W)):
                for d, kk, ww in ((0, 2, "la"), (3, 1, "sa")):
                    gs += select_goals(W[s], V[s], o[d][nm][s],
                                       o[d + 1][nm][s], kk, ww)
                    gs += select_goals(W[s], V[s],
                                       o[d + 2]["eigenvalues"][nm][s],
                                       o[d + 2]["eigenvectors"][nm][s], kk, ww)
        return gs

    def asmp(ins):
        r = []
        for nm in ("a", "b"):
            W, V = eigref(ins[0][nm])
            for s in range(len(W)):
                r += distinct(W[s])
        return r
    out.append(Case("modules pytree", [{"a": SC(1, 2, 2), "b": S(1, 3, 3)}],
                    fnp, goalsp, assume=asmp, funcs=FM,
                    bounds="dict of 2x2 and 3x3", weight=9))
    return out
