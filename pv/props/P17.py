"""Editing a model: (A) every history of edits within the bound, with symbolic
operations, indices (all integers) and keys, leaves exactly the modules a plain
list/dict would hold and an unready model; (B) outputs after edits, recompiles
and parameter changes are those of the current modules for all inputs and
parameter values (no stale compiled version)."""
import jax, jax.numpy as jnp
import parametricmatrixmodels as pmm
from parametricmatrixmodels.modules import BaseModule
from .. import core as C
from ..harness import Case, eqs
from ..psym import PCase, Violation, Abort, SymInt
from .common import *
from .zoo import *
from .P16 import world, run, TL

ASSUMPTIONS = [
    "all sequence indices beyond the clamp (8) are one class: sequences in "
    "the bound are shorter and cannot tell them apart",
    "names given to added modules are new names",
]


class Op(BaseModule):
    """opaque module"""
    __version__ = "0"

    def __init__(self, tag=""):
        self.tag = tag
        self.r = False

    @property
    def name(self):
        return f"Op({self.tag})"

    def is_ready(self):
        return self.r

    def compile(self, rng, input_shape):
        self.r = True

    def get_output_shape(self, input_shape):
        return input_shape

    def get_hyperparameters(self):
        return {"tag": self.tag}

    def get_params(self):
        return ()

    def set_params(self, params):
        pass

    def _get_callable(self):
        return lambda params, data, training, state, rng: (data, state)


def same(a, b):
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


def keyname(i):
    # not in sorted order of creation
    return "qmzafk"[i % 6] + str(i)


def scenario(kind, cls, ops, steps, n0max=3, first=None):
    def fn(ex):
        n0 = ex.choice("n0", n0max + 1)
        mods = [Op(i) for i in range(n0)]
        if kind == "dict":
            ref = [(keyname(i), m) for i, m in enumerate(mods)]
            model = cls(dict(ref))
        else:
            ref = list(mods)
            model = cls(list(mods) if kind == "list" else tuple(mods))
        isseq = cls is pmm.SequentialModel
        others = []          # (model, its reference) that must stay as is
        nk = n0

        def held(m=None):
            m = model if m is None else m
            c = m.get_modules()
            return list(c.items()) if kind == "dict" else list(c)

        def agree(m=None, r=None):
            m = model if m is None else m
            r = ref if r is None else r
            h = held(m)
            if kind == "dict":
                return [k for k, _ in h] == [k for k, _ in r] and same(
                    [v for _, v in h], [v for _, v in r])
            return same(h, r)
        ex.check(agree(), "modules after construction")
        ready = False
        for t in range(steps):
            if isseq and ref and not ready and ex.bool(f"compile{t}"):
                model.compile(0, (2,))
                ready = True
                ex.check(model.is_ready(), f"step {t}: ready after compile")
            op = first if t == 0 and first else ex.pick(f"op{t}", ops)
            new = Op(f"new{t}")
            key = keyname(nk)
            n = len(ref)
            want = list(ref)
            ret = wret = None
            target = None
            legal = True
            go = None
            if op in ("append", "prepend", "insert"):
                i = n if op == "append" else 0 if op == "prepend" else \
                    ex.int(f"i{t}")
                e = (key, new) if kind == "dict" else new
                want.insert(i, e)
                kw = {"key": key} if kind == "dict" else {}
                if op == "insert":
                    go = lambda: model.insert(i, new, **kw)
                else:
                    go = lambda: getattr(model, op)(new, **kw)
                nk += 1
            elif op in ("popindex", "pop"):
                i = ex.int(f"i{t}")
                try:
                    w = want.pop(i)
                    wret = w[1] if kind == "dict" else w
                except IndexError:
                    legal = False
                go = (lambda: model.pop_module_by_index(i)) \
                    if op == "popindex" else (lambda: model.pop(i))
            elif op == "popkey":
                if n == 0:
                    raise Abort()
                j = ex.choice(f"k{t}", n + 1)
                if j == n:
                    legal = False
                    k = "nosuchname"
                else:
                    k, wret = want.pop(j)
                go = lambda: model.pop(k)
            elif op == "set":
                i = ex.int(f"i{t}")
                try:
                    want[i] = new
                except IndexError:
                    legal = False

                def go():
                    model[i] = new
            elif op == "setslice":
                i, j = ex.int(f"i{t}"), ex.int(f"j{t}")
                m2 = Op(f"newb{t}")
                want[i:j] = [new, m2]

                def go():
                    model[i:j] = [new, m2] if kind == "list" else (new, m2)
            elif op == "setkey":
                j = ex.choice(f"k{t}", n + 1)
                if j == n:
                    want.append((key, new))
                    k = key
                    nk += 1
                else:
                    k = want[j][0]
                    want[j] = (k, new)

                def go():
                    model[k] = new
            elif op == "setall":
                m2 = Op(f"newb{t}")
                if kind == "dict":
                    want = [(key, new)]
                    nk += 1
                    val = dict(want)
                else:
                    want = [new, m2]
                    val = [new, m2] if kind == "list" else (new, m2)

                def go():
                    model[None] = val
            elif op == "add":
                want = ref + [new]

                def go():
                    return model + new
                target = "new"
            elif op == "get":
                i = ex.int(f"i{t}")
                try:
                    wret = want[i]
                except IndexError:
                    legal = False
                go = lambda: model[i]
            elif op == "getslice":
                i, j = ex.int(f"i{t}"), ex.int(f"j{t}")
                wret = want[i:j]
                go = lambda: list(model[i:j])
            elif op == "getkey":
                if n == 0:
                    raise Abort()
                j = ex.choice(f"k{t}", n)
                k, wret = ref[j]
                go = lambda: model[k]
            ctx = f"step {t} {op}"
            try:
                ret = go()
                raised = None
            except (IndexError, KeyError) as e:
                raised = e
            if not legal:
                ex.check(raised is not None, f"{ctx}: invalid position or "
                         "name accepted")
                ex.check(agree(), f"{ctx}: rejected edit changed the modules")
                ready = ready and model.is_ready()
                continue
            ex.check(raised is None, f"{ctx}: rejected: {raised}")
            if op in ("get", "getslice", "getkey"):
                ex.check(ret is wret if op != "getslice"
                         else same(ret, wret), f"{ctx}: wrong module returned")
                ex.check(agree(), f"{ctx}: reading changed the modules")
                ex.check(model.is_ready() == ready or not isseq,
                         f"{ctx}: reading changed readiness")
                continue
            if target == "new":
                ex.check(type(ret) is cls, f"{ctx}: result type")
                ex.check(agree(), f"{ctx}: the operand was changed")
                ex.check(bool(model.is_ready()) == ready,
                         f"{ctx}: the operand's readiness changed")
                others.append((model, list(ref)))
                model, ref = ret, want
                ready = False
                if kind == "dict":
                    # the result's name for the new module is its own choice
                    h, old = dict(held()), dict(ref[:-1])
                    extra = [k for k in h if k not in old]
                    ex.check(len(extra) == 1 and h[extra[0]] is new
                             and len(h) == len(old) + 1
                             and all(h.get(k) is v for k, v in old.items()),
                             f"{ctx}: modules of the sum")
                    ref = held()
                ex.check(not model.is_ready(), f"{ctx}: sum is ready "
                         "without compile")
            else:
                if op in ("pop", "popindex", "popkey"):
                    ex.check(ret is wret, f"{ctx}: returned module")
                ref = want
                ready = False
                ex.check(not model.is_ready(),
                         f"{ctx}: model still ready after edit")
            ex.check(agree(), f"{ctx}: modules differ from a plain {kind}")
        for m, r in others:
            ex.check(agree(m, r), "operand of + changed by a later edit")
    return fn


FA = ["Model.append_module", "Model.prepend_module", "Model.insert_module",
      "Model.pop_module_by_index", "Model.pop_module_by_key",
      "Model.__setitem__", "Model.__getitem__", "Model.__add__",
      "Model.reset", "Model.is_ready"]


def structure(tier):
    q = tier == "quick"
    S, N = pmm.SequentialModel, pmm.NonSequentialModel
    LO = ["append", "prepend", "insert", "popindex", "pop", "set", "setall",
          "add", "get"]
    SL = ["setslice", "getslice", "insert", "popindex", "add", "append"]
    DO = ["append", "prepend", "insert", "popindex", "popkey", "setkey",
          "setall", "getkey"]
    st = 2 if q else 3
    out = []
    for cls, kinds in ((S, ("list", "tuple", "dict")), (N, ("list", "dict"))):
        for kind in kinds:
            ops = DO if kind == "dict" else LO
            if cls is N:
                ops = [o for o in ops if o != "add"]
            elif kind == "dict":
                ops = ops + ["add"]
            nm = f"{cls.__name__} {kind}"
            bd = f"0-2 initial modules, {st} edits, any integer index"
            for f in ops:
                out.append(PCase(
                    f"edits {nm} {f} first",
                    scenario(kind, cls, ops, st, 2, f), FA, bd,
                    weight=10 if f in ("insert", "set", "pop") else 6,
                    clamp=6 if q else 8))
            if kind != "dict":
                o2 = [o for o in SL if cls is S or o != "add"]
                out.append(PCase(f"slices {nm}", scenario(
                    kind, cls, o2, 1 if q else 2, 3), FA,
                    f"0-3 initial modules, {1 if q else 2} edits, any integer"
                    " indices", weight=6, clamp=8 if not q else 6))
    return out



# ------------------------------------------------------------------ outputs
FB = ["Model.__call__", "Model.grad_input", "Model.grad_params",
      "Model.set_params", "Model.reset", "SequentialModel.compile",
      "NonSequentialModel.compile", "SequentialModel._get_callable",
      "NonSequentialModel._get_callable"]


def refresh(z):
    """call, change parameters and state, call again: the second answers are
    those of a fresh object holding the new values"""
    def setup():
        def mk():
            m = z.mk()
            if not isinstance(m, pmm.Model):
                m = pmm.SequentialModel([m])
            m.compile(jax.random.key(7), z.shape)
            m.set_precision(64)
            return m
        return mk

    def inputs(mk):
        m = mk()
        return [pspec(m), pspec(m), sspec(m), z.xspec(), z.xspec()]

    def fn(mk, p1, p2, s2, x1, x2):
        with world():
            with jax.ensure_compile_time_eval():
                m, f = mk(), mk()
            dt = jnp.complex128 if z.cx else jnp.float64
            put(m, p1, None)
            m(x1, rng=KEY, dtype=dt)
            put(m, p2, s2)
            got = m(x2, rng=KEY, dtype=dt)
            put(f, p2, s2)
            want = run(f, x2)[0]
            own = jax.tree.leaves(m.get_params())
            return got, want, own

    def goals(ins, out):
        got, want, own = out
        gs = eqs(got, want, "output after change ")
        if ins[1]:
            gs += eqs(own, ins[1], "params read back ")
        return gs
    return Case("refresh " + z.name, inputs, fn, goals, setup=setup, funcs=FB,
                bounds="batch 2, two calls, one parameter and state change",
                weight=2)


class Aff(BaseModule):
    """x -> p*x + q (scalars)"""
    __version__ = "0"

    def __init__(self, p=None):
        self.pq = p
        self.r = False

    def is_ready(self):
        return self.r

    def compile(self, rng, input_shape):
        self.r = True

    def get_output_shape(self, input_shape):
        return input_shape

    def get_hyperparameters(self):
        return {}

    def get_params(self):
        return self.pq

    def set_params(self, params):
        self.pq = params

    def _get_callable(self):
        return lambda params, data, training, state, rng: (
            jax.tree.map(lambda x: params[0] * x + params[1], data), state)


def history(name, script, npar, weight=3):
    """script(mk, ask): mk(i) a module with the i-th symbolic parameters;
    ask(model, [i, j..]) calls the model, which must apply those modules in
    that order"""
    inputs = [[S(2)] * npar, S(2, 2)]

    def fn(ps, x):
        asks = []

        def mk(i):
            return Aff(ps[i])

        def ask(m, order, grad=False):
            o = {"y": m(x)}
            if grad:
                o["g"] = m.grad_input(x)
                if grad == "params":
                    o["gp"] = jax.tree.leaves(m.grad_params(x))
            asks.append(o)
            orders.append((tuple(order), grad))
        orders = []
        script(mk, ask)
        script.orders = orders
        return asks

    def goals(ins, out):
        ps, x = ins
        gs = []
        for t, (o, (order, grad)) in enumerate(zip(out, script.orders)):
            y = x
            for i in order:
                y = y * ps[i][0] + ps[i][1]
            gs += eqs(o["y"], y, f"call {t} ")
            if grad:
                d = onp.full((2, 2, 2), el(0), dtype=object)
                k = el(1)
                for i in order:
                    k = k * ps[i][0]
                for n in range(2):
                    for j in range(2):
                        d[n, j, j] = k
                gs += eqs(o["g"], d, f"call {t} grad_input ")
            if grad == "params":
                # d y / d (p_i, q_i), modules in container order
                w = []
                for a, i in enumerate(order):
                    xin = x
                    for h in order[:a]:
                        xin = xin * ps[h][0] + ps[h][1]
                    k = el(1)
                    for h in order[a + 1:]:
                        k = k * ps[h][0]
                    w.append(onp.stack([xin * k,
                                        onp.full((2, 2), k, dtype=object)],
                                       axis=-1))
                gs += eqs(o["gp"], w, f"call {t} grad_params ")
        return gs
    return Case("history " + name, inputs, fn, goals, funcs=FB,
                bounds="batch 2, 2 features, symbolic parameters; edit and "
                "recompile history: " + name, weight=weight)


def outputs(tier):
    Sq, N = pmm.SequentialModel, pmm.NonSequentialModel
    cs = []

    def h(name, npar, weight=3):
        def deco(f):
            cs.append(history(name, f, npar, weight))
        return deco

    for kind, con in (("list", list), ("tuple", tuple)):
        @h(f"append prepend {kind}", 3)
        def _(mk, ask, con=con):
            m = Sq(con([mk(0)]))
            m.compile(0, (2,))
            ask(m, [0], True)
            m.append(mk(1))
            m.compile(0, (2,))
            ask(m, [0, 1], "params")
            m.prepend(mk(2))
            m.compile(0, (2,))
            ask(m, [2, 0, 1], "params")

        @h(f"insert pop {kind}", 3)
        def _(mk, ask, con=con):
            m = Sq(con([mk(0), mk(1)]))
            m.compile(0, (2,))
            ask(m, [0, 1], True)
            m.insert(1, mk(2))
            m.compile(1, (2,))
            ask(m, [0, 2, 1], True)
            m.pop_module_by_index(0)
            m.compile(1, (2,))
            ask(m, [2, 1], "params")
            m.pop(-1)
            m.compile(1, (2,))
            ask(m, [2], "params")

        @h(f"set {kind}", 4)
        def _(mk, ask, con=con):
            m = Sq(con([mk(0), mk(1)]))
            m.compile(0, (2,))
            ask(m, [0, 1])
            m[0] = mk(2)
            m.compile(0, (2,))
            ask(m, [2, 1], True)
            m[None] = con([mk(3), mk(0), mk(1)])
            m.compile(0, (2,))
            ask(m, [3, 0, 1], True)

        @h(f"sum {kind}", 3)
        def _(mk, ask, con=con):
            m = Sq(con([mk(0), mk(1)]))
            m.compile(0, (2,))
            ask(m, [0, 1])
            s = m + mk(2)
            ask(m, [0, 1], True)
            s.compile(0, (2,))
            ask(s, [0, 1, 2], True)
            ask(m, [0, 1])
            s.append(m)
            s.compile(0, (2,))
            ask(s, [0, 1, 2, 0, 1])

    @h("module replaced in place, same shapes", 3)
    def _(mk, ask):
        m = Sq({"b": mk(0), "c": mk(1)})
        m.compile(0, (2,))
        ask(m, [0, 1], "params")
        m["b"] = mk(2)
        m.compile(0, (2,))
        ask(m, [2, 1], "params")
        m.pop("c")
        m.compile(0, (2,))
        ask(m, [2], "params")

    @h("nested edit then recompile", 4)
    def _(mk, ask):
        inner = Sq([mk(0), mk(1)])
        m = Sq([inner, mk(2)])
        m.compile(0, (2,))
        ask(m, [0, 1, 2], True)
        inner.append(mk(3))
        m.compile(0, (2,))
        ask(m, [0, 1, 3, 2], True)
        inner.pop(0)
        m.compile(0, (2,))
        ask(m, [1, 3, 2], "params")

    @h("nested replace then recompile", 4)
    def _(mk, ask):
        inner = Sq([mk(0), mk(1)])
        m = Sq([inner, mk(2)])
        m.compile(0, (2,))
        ask(m, [0, 1, 2])
        inner[0] = mk(3)
        m.compile(0, (2,))
        ask(m, [3, 1, 2])

    @h("doubly nested", 4)
    def _(mk, ask):
        i2 = Sq([mk(0)])
        i1 = Sq([i2, mk(1)])
        m = Sq([i1, mk(2)])
        m.compile(0, (2,))
        ask(m, [0, 1, 2])
        i2.prepend(mk(3))
        m.compile(0, (2,))
        ask(m, [3, 0, 1, 2], True)

    @h("graph model: replace and rewire", 4)
    def _(mk, ask):
        m = N({"a": mk(0), "b": mk(1)},
              {"input": "a", "a": "b", "b": "output"})
        m.compile(0, (2,))
        ask(m, [0, 1], True)
        m["a"] = mk(2)
        m.compile(0, (2,))
        ask(m, [2, 1], True)
        m.append(mk(3), key="c")
        m.connections = {"input": "c", "c": "b", "b": "a", "a": "output"}
        m.compile(0, (2,))
        ask(m, [3, 1, 2], True)

    @h("graph model: nested edit then recompile", 3)
    def _(mk, ask):
        inner = Sq([mk(0)])
        m = N({"a": inner, "b": mk(1)},
              {"input": "a", "a": "b", "b": "output"})
        m.compile(0, (2,))
        ask(m, [0, 1], True)
        inner.append(mk(2))
        m.compile(0, (2,))
        ask(m, [0, 2, 1], True)

    @h("recompile for another shape", 2)
    def _(mk, ask):
        m = Sq([mk(0), mk(1)])
        m.compile(0, (3,))
        m.compile(0, (2,))
        ask(m, [0, 1], True)
        m.compile(0, (2,))
        ask(m, [0, 1], True)

    @h("set_params between calls", 4)
    def _(mk, ask):
        a, b, c, d = (mk(i) for i in range(4))
        m = Sq([a, b])
        m.compile(0, (2,))
        ask(m, [0, 1], "params")
        m.set_params([c.get_params(), d.get_params()])
        ask(m, [2, 3], "params")
        a.set_params(mk(1).get_params())
        ask(m, [1, 3], "params")
    for z in zoo():
        cs.append(refresh(z))
    return cs


def jobs(tier):
    return structure(tier) + outputs(tier)
