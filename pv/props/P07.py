"""Sequential models: for every input, parameter and state value the output is
the composition of the modules in tree order, each with its own parameters,
state and key (keys of different modules differ); the returned state has each
module's new state in its place; get/set of parameters and state is the
identity; calling without update_state leaves the stored state alone and with
it stores exactly the returned one; calls follow the parameters set last."""
from .common import *


def F32(c):
    return True

from .spies import Spy, Gen, _kind
import warnings
warnings.filterwarnings("ignore")

ASSUMPTIONS = ["random bits are an uninterpreted function of the key"]


def spy_ref(xs, p, s, noise, tr):
    """xs: dict/array of object arrays"""
    sv, n, u = s
    f = lambda x: x * p[None] + sv[None]
    return f(xs), (sv + p, n * el(2) + el(1 if tr else 0))


STATE = lambda: [S(2), S(), S()]


def mods_of(kind):
    """container of spies, list of paths in execution order"""
    if kind == "list3":
        return lambda: [Spy(noise=True), Spy(), Spy(noise=True)], 3
    if kind == "tuple4":
        return lambda: (Spy(), Spy(noise=True), Spy(), Spy()), 4
    if kind == "dict":
        return lambda: {"b": Spy(noise=True), "a": Spy(),
                        "c": Spy()}, 3
    if kind == "nested containers":
        return lambda: [Spy(), (Spy(noise=True), {"z": Spy(), "y": Spy()})], 4
    if kind == "nested model":
        return lambda: [Spy(), pmm.SequentialModel([Spy(noise=True), Spy()]),
                        Spy(noise=True)], 4
    if kind == "nested twice":
        return lambda: [pmm.SequentialModel([pmm.SequentialModel(
            [Spy(noise=True), Spy()]), Spy(noise=True)]), Spy()], 4
    if kind == "list12":
        return lambda: [Spy(noise=i % 3 == 0) for i in range(12)], 12
    if kind == "deep 11":
        return lambda: [Spy(), {"block_b": [Spy(noise=True) for _ in range(
            4)], "block_a": pmm.SequentialModel(tuple(
                Spy(noise=i == 3) for i in range(5)))}, Spy()], 11
    if kind == "single":
        return lambda: [Spy(noise=True)], 1


def flat_spies(m):
    out = []
    for x in jax.tree.leaves(m.modules):
        if isinstance(x, Spy):
            out.append(x)
        else:
            out.extend(flat_spies(x))
    return out


KINDS = ["single", "list3", "tuple4", "dict", "nested containers",
         "nested model", "nested twice", "list12", "deep 11"]


def build(kind, pyt):
    mk, n = mods_of(kind)
    m = pmm.SequentialModel(mk())
    m.compile(0, {"u": (2,), "v": (3, 2)} if pyt else (2,))
    return m


def group3(flat):
    """model state leaves -> per-module (s, n, u)"""
    return [tuple(flat[i:i + 3]) for i in range(0, len(flat), 3)]


def jobs(tier):
    out = []
    F = ["sequentialmodel.SequentialModel._get_callable",
         "model.Model.__call__", "model.Model.get_params/set_params",
         "model.Model.get_state/set_state", "model_util.autobatch"]
    for kind in KINDS:
        mk, n = mods_of(kind)
        for pyt in (False, True):
            if pyt and kind not in ("list3", "nested model"):
                continue
            data = {"u": S(2, 2), "v": S(1, 3, 2)} if False else (
                {"u": S(2, 2), "v": S(2, 3, 2)} if pyt else S(2, 2))
            for via in ("callable", "call", "train", "update"):
                if pyt and via not in ("callable", "call"):
                    continue

                def fn(m, ps, ss, x, via=via):
                    sp = flat_spies(m)
                    pst = jax.tree.structure(m.get_params())
                    sst = jax.tree.structure(m.get_state())
                    P = jax.tree.unflatten(pst, ps)
                    St = jax.tree.unflatten(
                        sst, [e for s in ss for e in s])
                    keep = (m.get_params(), m.get_state())
                    try:
                        if via in ("callable", "train"):
                            # parameters stored in the model must not matter
                            y, st = m._get_callable()(
                                P, x, via == "train", St, KEY)
                            extra = ()
                        else:
                            m.set_params(P)
                            m.set_state(St)
                            y, st = m(x, return_state=True, rng=KEY,
                                      update_state=via == "update")
                            y2 = m(x, rng=KEY)
                            extra = (jax.tree.leaves(m.get_params()),
                                     jax.tree.leaves(m.get_state()), y2,
                                     [q.p for q in sp])
                        if jax.tree.structure(st) != sst:
                            raise ValueError("state structure changed")
                        return y, jax.tree.leaves(st), extra
                    finally:
                        m.set_params(keep[0])
                        m.set_state(keep[1])

                def goals(ins, o, via=via, mk=mk, n=n, pyt=pyt):
                    ps, ss, x = ins
                    y, st, extra = o
                    noise = NOISE[mk]
                    st = group3(st)
                    gs = []

                    def run(states, us):
                        cur = x if pyt else {"": x}
                        news = []
                        for i in range(n):
                            s_, n_, _ = states[i]
                            nz = us[i] if noise[i] else el(0)
                            cur = {k: v * ps[i] + s_ + nz
                                   for k, v in cur.items()}
                            news.append((s_ + ps[i], n_ * el(2) + el(
                                1 if via == "train" else 0)))
                        return (cur if pyt else cur[""]), news
                    us = [t[2][()] for t in st]
                    want, news = run([(s[0], s[1], s[2]) for s in ss], us)
                    gs += eqs(y, want, "output")
                    for i in range(n):
                        gs += eqs(st[i][0], news[i][0], f"state s of {i}")
                        gs += eqs(st[i][1], onp.asarray(news[i][1],
                                                        dtype=object),
                                  f"state n of {i}")
                        for j in range(i):
                            same = us[i].re is us[j].re or (
                                isz(us[i].re) and isz(us[j].re)
                                and us[i].re.eq(us[j].re)) or (
                                not isz(us[i].re) and us[i].re == us[j].re)
                            gs.append(Goal("true", B(not same),
                                           label=f"keys of {i} and {j} "
                                           "differ"))
                    if extra:
                        gp, gst, y2, own = extra
                        gs += eqs(gp, list(ps), "get_params")
                        gs += eqs(own, list(ps), "module params")
                        gst = group3(gst)
                        if via == "update":
                            for i in range(n):
                                gs += eqs(list(gst[i]), list(st[i]),
                                          f"stored state of {i}")
                            w2, _ = run(st, us)
                            gs += eqs(y2, w2, "second call")
                        else:
                            for i in range(n):
                                gs += eqs(list(gst[i]), list(ss[i]),
                                          f"stored state of {i}")
                            gs += eqs(y2, want, "second call")
                    return gs
                NOISE[mk] = [s.noise for s in _flat(mk())]
                out.append(Case(
                    f"{kind} {'pytree' if pyt else 'array'} {via}",
                    [[S(2)] * n, [STATE() for _ in range(n)], data], fn,
                    goals, funcs=F, weight=n * 2,
                    setup=lambda kind=kind, pyt=pyt: build(kind, pyt),
                    bounds=f"{n} modules, {kind}, batch 2"))
    # results follow the parameters set last, through the cached callable
    def fn2(m, p1, p2, x):
        keep = m.get_params()
        st = jax.tree.structure(keep)
        try:
            m.set_params(jax.tree.unflatten(st, p1))
            a = m(x, rng=KEY)
            m.set_params(jax.tree.unflatten(st, p2))
            b = m(x, rng=KEY)
            m.set_params(jax.tree.unflatten(st, p1))
            c = m(x, rng=KEY)
            return a, b, c
        finally:
            m.set_params(keep)

    def build2():
        m = pmm.SequentialModel([M.Flatten(), M.MatMul(
            output_shape=2, trainable=True), M.Bias(), M.ReLU()])
        m.compile(0, (2, 2))
        m.set_precision(64)
        return m

    def ref2(p1, p2, x):
        r = []
        for W, b in (p1, p2, p1):
            r.append(J.vec(lambda e: C.emax(e, el(0)), oeinsum(
                "ab,zb->za", W, x.reshape(len(x), -1)) + b[None]))
        return tuple(r)
    out.append(Case("latest parameters", [[S(2, 4), S(2)], [S(2, 4), S(2)],
                                          S(2, 2, 2)], fn2, ref=ref2,
                    setup=build2, funcs=F + ["modules"],
                    bounds="MatMul+Bias+ReLU, batch 2", weight=5))

    # a module whose parameters are None between modules that have some
    def build3():
        m = pmm.SequentialModel([M.MatMul(trainable=False), M.Flatten(),
                                 M.Bias()])
        m.compile(0, [(2, 2), (2,)])
        m.set_precision(64)
        return m

    def ref3(p1, p2, x):
        y = oeinsum("zab,zb->za", x[0], x[1])
        return tuple(y + b[None] for (b,) in (p1, p2, p1))
    out.append(Case("parameterless module", [
        [S(2)], [S(2)], [S(2, 2, 2), S(2, 2)]], fn2, ref=ref3, setup=build3,
        funcs=F + ["modules"], bounds="data-only MatMul+Flatten+Bias, "
        "batch 2", weight=5))
    return out + mixed(tier)


PK = ["none", "empty", "array", "scalar", "dict", "tuple", "list", "hollow"]
SK = ["empty", "array", "scalar", "dict", "tuple", "list", "hollow"]


def gens(kind, perm):
    """Gen spies of every (parameter, state) kind mixed in one model"""
    it = iter(range(1, 99))
    g = lambda: (lambda i: Gen(PK[(perm + i) % len(PK)],
                               SK[(perm * 3 + i) % len(SK)], i))(next(it))
    if kind == "list":
        return [g() for _ in range(4)]
    if kind == "tuple":
        return tuple(g() for _ in range(3))
    if kind == "dict":
        return {"b": g(), "a": g(), "c": g()}
    if kind == "list11":
        return [g() for _ in range(11)]
    if kind == "containers":
        return [g(), (g(), {"z": g(), "y": [g()]})]
    if kind == "model":
        return [g(), pmm.SequentialModel((g(), g())), g()]
    if kind == "model in dict":
        return {"m": pmm.SequentialModel({"q": g(), "p": pmm.SequentialModel(
            [g()])}), "k": g()}


def flat_gens(c):
    out = []
    for x in jax.tree.leaves(c):
        out.extend([x] if isinstance(x, Gen) else flat_gens(x.modules))
    return out


def isnone(x):
    return x is None


def mixed(tier):
    out = []
    kinds = ["list", "tuple", "dict", "containers", "model", "model in dict"]
    for kind in kinds + ["list11"]:
        for perm in range((2 if kind == "list11" else 8)
                          if tier == "quick" else 56):
            sp = flat_gens(gens(kind, perm))
            specs = [(jax.tree.leaves(_kind(g.pk, S), is_leaf=isspec),
                      jax.tree.leaves(_kind(g.sk, S), is_leaf=isspec))
                     for g in sp]
            ids = [g.id for g in sp]

            def setup(kind=kind, perm=perm):
                m = pmm.SequentialModel(gens(kind, perm))
                m.compile(0, (2,))
                return m
            for via in ("callable", "train", "call", "update"):
                def fn(m, ps, ss, x, via=via):
                    sp = flat_gens(m.modules)
                    sst = jax.tree.structure(m.get_state())
                    keep = [(g.p, g.s) for g in sp]
                    pt = [jax.tree.structure(g.p) for g in sp]
                    tt = [jax.tree.structure(g.s) for g in sp]
                    Pl = [jax.tree.unflatten(t, p) for t, p in zip(pt, ps)]
                    Sl = [jax.tree.unflatten(t, q) for t, q in zip(tt, ss)]

                    def put(vals):
                        for g, (a, b) in zip(sp, vals):
                            g.p, g.s = a, b
                    # each module's own values, gathered by the model
                    put(zip(Pl, Sl))
                    P, St = m.get_params(), m.get_state()
                    put(keep)
                    try:
                        if via in ("callable", "train"):
                            y, st = m._get_callable()(
                                P, x, via == "train", St, KEY)
                            ex = ()
                        else:
                            m.set_params(P)
                            m.set_state(St)
                            own0 = [jax.tree.leaves((g.p, g.s)) for g in sp]
                            y, st = m(x, return_state=True, rng=KEY,
                                      update_state=via == "update")
                            ex = (own0, [jax.tree.leaves(g.p) for g in sp],
                                  [jax.tree.leaves(g.s) for g in sp])
                        if jax.tree.structure(st) != sst:
                            raise ValueError("state structure changed")
                        # hand the new state to the modules
                        keep_s = [g.s for g in sp]
                        m.set_state(st)
                        new = [jax.tree.leaves(g.s) for g in sp]
                        for g, k, t in zip(sp, keep_s, tt):
                            if jax.tree.structure(g.s) != t:
                                raise ValueError("state structure changed")
                            g.s = k
                        return y, new, ex
                    finally:
                        put(keep)

                def goals(ins, o, via=via, ids=ids):
                    ps, ss, x = ins
                    y, new, ex = o
                    cur, gs = x, []
                    for i, (p, s, id) in enumerate(zip(ps, ss, ids)):
                        cur, ns = gen_ref(p, s, cur, via == "train", id)
                        gs += eqs(list(new[i]), ns, f"new state of {i}")
                        if ex:
                            gs += eqs(list(ex[0][i]), list(p) + list(s),
                                      f"set values of {i}")
                            gs += eqs(list(ex[1][i]), list(p),
                                      f"parameters of {i}")
                            gs += eqs(list(ex[2][i]), ns if via == "update"
                                      else list(s), f"stored state of {i}")
                    return gs + eqs(y, cur, "output")
                out.append(Case(
                    f"mixed {kind} {perm} {via}",
                    [[list(a) for a, _ in specs], [list(b) for _, b in specs],
                     S(2, 2)], fn, goals, setup=setup,
                    funcs=["sequentialmodel.SequentialModel._get_callable",
                           "model.Model.__call__",
                           "model.Model.get_params/set_params",
                           "model.Model.get_state/set_state"],
                    weight=2, bounds="modules with parameters and state of "
                    f"{len(PK)}x{len(SK)} structures, absent ones included, "
                    f"{kind}, batch 2"))
    return out


def isspec(x):
    return isinstance(x, tuple) and len(x) == 2 and x[1] == "real"


def gen_ref(p, s, x, training, id):
    """oracle for Gen: lists of object arrays"""
    scale = onp.full(x.shape[1:], el(1), dtype=object)
    for i, v in enumerate(p):
        scale = scale + v * el(i + 1)
    shift = onp.full(x.shape[1:], el(id), dtype=object)
    for j, v in enumerate(s):
        shift = shift + v * el(j + 1)
    two = any(v.shape for v in p)
    ns = []
    for j, v in enumerate(s):
        w = v * el(j + 2) + el(id + (1 if training else 0))
        t = onp.full((2,) if two else (), el(0), dtype=object)
        for q in p:
            t = t + q
        if p:
            w = w + (t if v.shape else onp.sum(t))
        ns.append(onp.asarray(w, dtype=object))
    return x * scale[None] + shift[None], ns


NOISE = {}


def _flat(c):
    out = []
    for x in jax.tree.leaves(c):
        out.extend([x] if isinstance(x, Spy) else _flat(x.modules))
    return out
