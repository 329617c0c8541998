"""Non-sequential models: for a family of connection graphs (hand written ones
covering every documented spelling, and all graphs over three inner modules in
the bounds) the compiled model's callable is traced with every parameter,
state and input symbolic, and its output and new state are proved equal to the
dataflow the connections describe."""
from pv.props.common import *


def F32(c):
    return True

from pv.props.spies import Spy, Mix, Split, Gen, _kind

ASSUMPTIONS = ["inner modules are affine spies; their parameters, states and "
               "inputs are symbolic"]
F = ["nonsequentialmodel.NonSequentialModel._get_callable",
     "nonsequentialmodel.NonSequentialModel.compile",
     "nonsequentialmodel.NonSequentialModel.get_execution_order",
     "nonsequentialmodel.NonSequentialModel._get_module_input_dependencies",
     "graph_util.place_connections_in_tree", "graph_util.resolve_connections",
     "graph_util.concretize_connections",
     "tree_util.extend_structure_from_strpaths",
     "tree_util.getitem_by_strpath", "tree_util.setitem_by_strpath",
     "model.Model.__call__"]


def ismod(m):
    return isinstance(m, (Spy, Mix, Split, pmm.modules.BaseModule))


def tmap(f, t):
    return jax.tree.map(f, t, is_leaf=ismod)


def pspec(m):
    if isinstance(m, Gen):
        return _kind(m.pk, S)
    if isinstance(m, Spy):
        return S(2)
    if isinstance(m, Mix):
        return {k: S() for k in m.names}
    if isinstance(m, Split):
        return {"p": S(), "q": S()}
    if hasattr(m, "modules"):
        return tmap(pspec, m.modules)
    return ()


def sspec(m):
    if isinstance(m, Gen):
        return _kind(m.sk, S)
    if isinstance(m, Spy):
        return (S(2), S(), S())
    if hasattr(m, "modules"):
        return tmap(sspec, m.modules)
    return ()


def spy(p, s, x):
    return x * p + s[0]


def snew(p, s, training=False):
    return (s[0] + p, s[1] * el(2) + el(1 if training else 0))


def mix(p, d):
    acc = None
    for k in p:
        t = d[k] * p[k][()]
        acc = t if acc is None else acc + t
    return acc


def split(p, x):
    return {"lo": x * p["p"][()], "hi": [x * p["q"][()], x]}


X2 = S(2, 2)
TOPO = []


def topo(name, shape, data, sep="."):
    def deco(f):
        TOPO.append((name, f, shape, data, sep))
        return f
    return deco


# every entry: f() -> (modules, connections, ref(P, S, x) -> output,
#                      [paths of executed spies])
@topo("sequential by index", (2,), X2)
def _():
    def ref(P, St, x):
        return spy(P[1], St[1], spy(P[0], St[0], x))
    return [Spy(), Spy()], {"input": "0", "0": "1", "1": "output"}, ref


@topo("indices out of order", (2,), X2)
def _():
    def ref(P, St, x):
        a = spy(P[2], St[2], x)
        b = spy(P[0], St[0], a)
        return spy(P[1], St[1], b)
    return [Spy(), Spy(), Spy()], {"0": "1", "1": "output", "2": "0",
                                   "input": "2"}, ref


@topo("named", (2,), X2)
def _():
    def ref(P, St, x):
        return spy(P["b"], St["b"], spy(P["a"], St["a"], x))
    return {"b": Spy(), "a": Spy()}, {"a": "b", "b": "output",
                                      "input": "a"}, ref


@topo("nested blocks", (2,), X2)
def _():
    def ref(P, St, x):
        a = spy(P["blk"]["p"], St["blk"]["p"], x)
        b = spy(P["blk"]["q"][1], St["blk"]["q"][1], a)
        c = spy(P["blk"]["q"][0], St["blk"]["q"][0], b)
        return spy(P["z"], St["z"], c)
    return {"z": Spy(), "blk": {"p": Spy(), "q": [Spy(), Spy()]}}, {
        "input": "blk.p", "blk.p": "blk.q.1", "blk.q.1": "blk.q.0",
        "blk.q.0": "z", "z": "output"}, ref


@topo("list input to a module swapped", (2,), X2)
def _():
    def ref(P, St, x):
        d = split(P["M1"], x)
        return mix(P["M2"], {0: d["hi"][0], 1: d["lo"]})
    return {"M1": Split(), "M2": Mix((0, 1))}, {
        "input": "M1", "M1.lo": "M2.1", "M1.hi.0": "M2.0",
        "M2": "output"}, ref


@topo("dict input to a module from deep paths", (2,), X2)
def _():
    def ref(P, St, x):
        d = split(P["M1"], x)
        return mix(P["M2"], {"u": d["hi"][1], "v": d["lo"], "w": x})
    return {"M1": Split(), "M2": Mix(("u", "v", "w"))}, {
        "input": ["M2.w", "M1"], "M1.lo": "M2.v", "M1.hi.1": "M2.u",
        "M2": "output"}, ref


@topo("input parts routed apart", {"x1": (2,), "x2": (2,)},
      {"x1": X2, "x2": X2})
def _():
    def ref(P, St, x):
        a = spy(P["M1"], St["M1"], x["x1"])
        return [x["x2"], spy(P["M2"], St["M2"], a)]
    return {"M1": Spy(), "M2": Spy()}, {
        "input.x1": "M1", "input.x2": "output.0", "M1": "M2",
        "M2": "output.1"}, ref


@topo("input list parts by index", [(2,), ((2,), (2,))], [X2, (X2, X2)])
def _():
    def ref(P, St, x):
        return {"s": spy(P[0], St[0], x[1][0]),
                "t": spy(P[1], St[1], x[0]), "raw": x[1][1]}
    return [Spy(), Spy()], {
        "input.1.0": "0", "input.0": "1", "input.1.1": "output.raw",
        "0": "output.s", "1": "output.t"}, ref


@topo("subtree passed whole", {"x1": {"u": (2,), "v": (2,)}, "x2": (2,)},
      {"x1": {"u": X2, "v": X2}, "x2": X2})
def _():
    def ref(P, St, x):
        return {"a": {k: spy(P["A"], St["A"], v) for k, v in
                      x["x1"].items()}, "b": x["x2"]}
    return {"A": Spy()}, {"input.x1": "A", "A": "output.a",
                          "input.x2": "output.b"}, ref


@topo("fan out list", (2,), X2)
def _():
    def ref(P, St, x):
        a = spy(P["a"], St["a"], x)
        b = spy(P["b"], St["b"], a)
        return [b, a, x]
    return {"a": Spy(), "b": Spy()}, {
        "input": ("a", "output.2"), "a": ["b", "output.1"],
        "b": "output.0"}, ref


@topo("two sources one target become a list", (2,), X2)
def _():
    def ref(P, St, x):
        a = spy(P["a"], St["a"], x)
        b = spy(P["b"], St["b"], x)
        return mix(P["c"], {0: b, 1: a})
    return {"a": Spy(), "b": Spy(), "c": Mix((0, 1))}, {
        "input": ["a", "b"], "b": "c", "a": "c", "c": "output"}, ref


@topo("three sources to the output", (2,), X2)
def _():
    def ref(P, St, x):
        a = spy(P["a"], St["a"], x)
        b = spy(P["b"], St["b"], a)
        return [a, x, b]
    return {"a": Spy(), "b": Spy()}, {
        "a": ["b", "output"], "input": ["a", "output"], "b": "output"}, ref


@topo("whole tree output", (2,), X2)
def _():
    def ref(P, St, x):
        return split(P["s"], x)
    return {"s": Split()}, {"input": "s", "s": "output"}, ref


@topo("tree output inside the output", (2,), X2)
def _():
    def ref(P, St, x):
        d = split(P["s"], x)
        return {"k": d, "l": [d["hi"], d["lo"]]}
    return {"s": Split()}, {"input": "s", "s": "output.k",
                            "s.hi": "output.l.0", "s.lo": "output.l.1"}, ref


@topo("twelve outputs", (2,), X2)
def _():
    def ref(P, St, x):
        return [spy(P[i], St[i], x) for i in range(12)]
    return [Spy() for _ in range(12)], {
        "input": [str(i) for i in range(12)],
        **{str(i): f"output.{i}" for i in reversed(range(12))}}, ref


@topo("twelve parallel into one", (2,), X2)
def _():
    def ref(P, St, x):
        return mix(P[12], {i: spy(P[i], St[i], x) for i in range(12)})
    return [Spy() for _ in range(12)] + [Mix(tuple(range(12)))], {
        "input": [str(i) for i in range(12)],
        **{str(i): f"12.{i}" for i in (5, 11, 0, 2, 10, 1, 3, 4, 6, 7, 9, 8)},
        "12": "output"}, ref


@topo("module names that start with input and output", (2,), X2)
def _():
    def ref(P, St, x):
        a = spy(P["input_x"], St["input_x"], x)
        b = spy(P["output_x"], St["output_x"], a)
        return spy(P["inputs"]["k"], St["inputs"]["k"],
                   spy(P["outputs"]["k"], St["outputs"]["k"], b))
    return {"input_x": Spy(), "output_x": Spy(), "inputs": {"k": Spy()},
            "outputs": {"k": Spy()}}, {
        "input": "input_x", "input_x": "output_x", "output_x": "outputs.k",
        "outputs.k": "inputs.k", "inputs.k": "output"}, ref


@topo("output_x fed by dict", (2,), X2)
def _():
    def ref(P, St, x):
        d = split(P["input2"], x)
        return {"r": mix(P["output2"], {"m": d["lo"], "n": d["hi"][0]})}
    return {"input2": Split(), "output2": Mix(("m", "n"))}, {
        "input": "input2", "input2.lo": "output2.m",
        "input2.hi.0": "output2.n", "output2": "output.r"}, ref


@topo("unused modules", (2,), X2)
def _():
    def ref(P, St, x):
        return spy(P["b"], St["b"], x)
    return {"a": Spy(), "b": Spy(), "c": Spy()}, {
        "input": ["b", "c"], "b": "output"}, ref


@topo("diamond with skip", (2,), X2)
def _():
    def ref(P, St, x):
        a = spy(P["a"], St["a"], x)
        b = spy(P["b"], St["b"], a)
        c = spy(P["c"], St["c"], a)
        d = mix(P["d"], {"l": b, "r": c, "skip": x})
        return spy(P["e"], St["e"], d)
    return {"e": Spy(), "d": Mix(("l", "r", "skip")), "c": Spy(),
            "b": Spy(), "a": Spy()}, {
        "d": "e", "c": "d.r", "b": "d.l", "a": ["b", "c"], "e": "output",
        "input": ["d.skip", "a"]}, ref


@topo("long path before short one", (2,), X2)
def _():
    def ref(P, St, x):
        v = x
        for k in "abc":
            v = spy(P[k], St[k], v)
        return mix(P["m"], {"far": v, "near": x})
    return {"m": Mix(("far", "near")), "a": Spy(), "b": Spy(),
            "c": Spy()}, {
        "input": ["m.near", "a"], "a": "b", "b": "c", "c": "m.far",
        "m": "output"}, ref


@topo("slash separator", (2,), X2, sep="/")
def _():
    def ref(P, St, x):
        a = spy(P["g.1"]["p"], St["g.1"]["p"], x)
        return {"y.z": a, "x": x}
    return {"g.1": {"p": Spy()}}, {
        "input": ["g.1/p", "output/x"], "g.1/p": "output/y.z"}, ref


@topo("long separator", (2,), X2, sep="::")
def _():
    def ref(P, St, x):
        d = split(P["s"], x)
        return mix(P["g"]["m"], {"u": d["hi"][1], "v": d["lo"]})
    return {"s": Split(), "g": {"m": Mix(("u", "v"))}}, {
        "input": "s", "s::hi::1": "g::m::u", "s::lo": "g::m::v",
        "g::m": "output"}, ref


@topo("long names in reverse", (2,), X2)
def _():
    def ref(P, St, x):
        v = x
        for k in ("final_projection", "embedding_layer", "b2", "a",
                  "classifier_head"):
            v = spy(P[k], St[k], v)
        return v
    return {"a": Spy(), "b2": Spy(), "classifier_head": Spy(),
            "embedding_layer": Spy(), "final_projection": Spy()}, {
        "input": "final_projection", "final_projection": "embedding_layer",
        "embedding_layer": "b2", "b2": "a", "a": "classifier_head",
        "classifier_head": "output"}, ref


@topo("long nested paths in reverse", (2,), X2)
def _():
    def ref(P, St, x):
        a = spy(P["encoder_block"]["layer_two"],
                St["encoder_block"]["layer_two"], x)
        b = spy(P["encoder_block"]["layer_one"],
                St["encoder_block"]["layer_one"], a)
        c = spy(P["dec"][1], St["dec"][1], b)
        return {"prediction_mean": spy(P["dec"][0], St["dec"][0], c),
                "raw": b}
    return {"encoder_block": {"layer_one": Spy(), "layer_two": Spy()},
            "dec": [Spy(), Spy()]}, {
        "input": "encoder_block.layer_two",
        "encoder_block.layer_two": "encoder_block.layer_one",
        "encoder_block.layer_one": ["dec.1", "output.raw"],
        "dec.1": "dec.0", "dec.0": "output.prediction_mean"}, ref


@topo("chain of eleven", (2,), X2)
def _():
    order = [7, 10, 2, 0, 9, 1, 5, 3, 8, 4, 6]

    def ref(P, St, x):
        for k in order:
            x = spy(P[k], St[k], x)
        return x
    return [Spy() for _ in range(11)], {
        "input": "7", **{str(a): str(b) for a, b in zip(order, order[1:])},
        "6": "output"}, ref


@topo("bar separator", (2,), X2, sep="|")
def _():
    def ref(P, St, x):
        d = split(P["s.one"], x)
        return {"y/z": mix(P["g"]["m"], {"u": d["hi"][1], "v": d["lo"]}),
                "e": x}
    return {"s.one": Split(), "g": {"m": Mix(("u", "v"))}}, {
        "input": ["s.one", "output|e"], "s.one|hi|1": "g|m|u",
        "s.one|lo": "g|m|v", "g|m": "output|y/z"}, ref


@topo("same input part used twice", {"x": (2,), "y": (2,)},
      {"x": X2, "y": X2})
def _():
    def ref(P, St, x):
        a = spy(P["a"], St["a"], x["x"])
        b = spy(P["b"], St["b"], x["x"])
        return mix(P["m"], {"a": a, "b": b, "y": x["y"], "x": x["x"]})
    return {"a": Spy(), "b": Spy(), "m": Mix(("a", "b", "x", "y"))}, {
        "input.x": ["a", "b", "m.x"], "input.y": "m.y", "a": "m.a",
        "b": "m.b", "m": "output"}, ref


@topo("sequential model inside", (2,), X2)
def _():
    def ref(P, St, x):
        a = spy(P["a"], St["a"], x)
        v = a
        for i in range(2):
            v = spy(P["s"][i], St["s"][i], v)
        return {"s": v, "a": a}
    return {"a": Spy(), "s": pmm.SequentialModel([Spy(), Spy()])}, {
        "input": "a", "a": ["s", "output.a"], "s": "output.s"}, ref


@topo("nonsequential model inside", (2,), X2)
def _():
    def ref(P, St, x):
        i = P["n"]
        si = St["n"]
        a = spy(i["u"], si["u"], x)
        y = {"a": a, "b": spy(i["v"], si["v"], a)}
        return mix(P["m"], {"p": y["b"], "q": y["a"]})
    return {"n": pmm.NonSequentialModel({"u": Spy(), "v": Spy()}, {
        "input": "u", "u": ["v", "output.a"], "v": "output.b"}),
        "m": Mix(("p", "q"))}, {
        "input": "n", "n.a": "m.q", "n.b": "m.p", "m": "output"}, ref


@topo("repository modules", (2,), X2)
def _():
    def ref(P, St, x):
        a = spy(P["a"], St["a"], x)
        y = onp.concatenate([a, x], axis=1)
        return spy4(P["z"], St["z"], y)

    def spy4(p, s, x):
        return x.reshape(len(x), 2, 2) * p + s[0]
    return {"a": Spy(), "c": M.ConcatenateLeaves(), "r": M.Reshape((2, 2)),
            "z": Spy()}, {
        "input": ["a", "c.1"], "a": "c.0", "c": "r", "r": "z",
        "z": "output"}, ref


def leafs(t):
    """leaves of a parameter or state tree in the order of jax"""
    return jax.tree.leaves(t, is_leaf=lambda v: isinstance(v, onp.ndarray))


def gen(m, p, s, x, training=False):
    from pv.props.P07 import gen_ref
    return gen_ref(leafs(p), leafs(s), x, training, m.id)


PK = ["empty", "array", "dict", "tuple", "none", "list", "hollow", "scalar"]
SK = ["array", "empty", "dict", "list", "tuple", "hollow", "scalar"]


def structures(i):
    """modules with parameters and states of all structures, some absent"""
    g = lambda j: Gen(PK[(i + j) % len(PK)], SK[(i * 3 + j * 2) % len(SK)],
                      i + j)

    def f():
        mods = {"e": g(0), "b": {"q": g(1), "p": [g(2), g(3)]}, "a": g(4)}
        conn = {"input": ["b.p.1", "e"], "b.p.1": ["a", "output.1"],
                "a": "b.q", "b.q": "b.p.0", "b.p.0": "output.0",
                "e": "output.2"}

        def ref(P, St, x):
            def at(path, v):
                m, p, s = mods, P, St
                for k in path:
                    m, p, s = m[k], p[k], s[k]
                return gen(m, p, s, v)[0]
            p1 = at(("b", "p", 1), x)
            q = at(("b", "q"), at(("a",), p1))
            return [at(("b", "p", 0), q), p1, at(("e",), x)]
        return mods, conn, ref
    return f


for _i in range(8):
    TOPO.append((f"structures {_i}", structures(_i), (2,), X2, "."))


def generated(tier):
    """all graphs over three inner modules with named inputs where every
    module used is reachable from the input and the graph is acyclic"""
    import random
    order = ["k", "a", "m"]
    pos = [(i, j) for i in range(3) for j in range(i)]
    allg = []
    for bits in range(1 << 9):
        b = [(bits >> k) & 1 for k in range(9)]
        fin, ee, fout = b[:3], b[3:6], b[6:]
        preds = {i: [] for i in range(3)}
        for (i, j), e in zip(pos, ee):
            if e:
                preds[i].append(j)
        # every module has an input and reaches the output
        if any(not fin[i] and not preds[i] for i in range(3)):
            continue
        reach = [bool(fout[i]) for i in range(3)]
        for i in (2, 1, 0):
            for k in range(3):
                if i in preds[k] and reach[k]:
                    reach[i] = True
        if not all(reach):
            continue
        allg.append((fin, preds, fout))
    rng = random.Random(5)
    if tier == "quick":
        allg = rng.sample(allg, 24)
    for gi, (fin, preds, fout) in enumerate(allg):
        def f(fin=fin, preds=preds, fout=fout):
            mods, conn = {}, {}

            def edge(a, b):
                conn.setdefault(a, []).append(b)
            for i in range(3):
                ins = [order[j] for j in preds[i]] + (
                    ["in"] if fin[i] else [])
                mods[order[i]] = Mix(tuple(ins))
                for j in preds[i]:
                    edge(order[j], f"{order[i]}.{order[j]}")
                if fin[i]:
                    edge("input", f"{order[i]}.in")
                if fout[i]:
                    edge(order[i], f"output.o{i}")
            keys = list(conn)
            conn = {k: (conn[k] if len(conn[k]) > 1 else conn[k][0])
                    for k in sorted(keys)}
            mods = {k: mods[k] for k in sorted(mods)}

            def ref(P, St, x):
                v = {"in": x}
                for i in range(3):
                    v[order[i]] = mix(P[order[i]], v)
                return {f"o{i}": v[order[i]] for i in range(3) if fout[i]}
            return mods, conn, ref
        yield (f"graph {gi} in={fin} preds={list(preds.values())} "
               f"out={fout}".replace(" ", "_"), f, (2,), X2, ".")


def jobs(tier):
    out = []
    for name, f, shape, data, sep in TOPO + list(generated(tier)):
        mods, conn, ref = f()
        ps, ss = tmap(pspec, mods), tmap(sspec, mods)
        hand = not name.startswith("graph")
        for via in (("callable", "call", "update", "train") if hand
                    else ("callable",)):
            if via != "callable" and tier == "quick" and \
                    len(jax.tree.leaves(ps, is_leaf=lambda t: t == S(2))) > 8:
                continue

            def setup(f=f, shape=shape, sep=sep):
                mods, conn, _ = f()
                m = pmm.NonSequentialModel(mods, conn, separator=sep)
                m.compile(0, shape)
                return m

            def fn(m, P, St, x, via=via):
                keep = m.get_params(), m.get_state()
                try:
                    if via in ("callable", "train"):
                        before = jax.tree.leaves((P, St, x))
                        y, st = m._get_callable()(P, x, via == "train", St,
                                                  KEY)
                        after = jax.tree.leaves((P, St, x))
                        if len(before) != len(after) or any(
                                a is not b for a, b in zip(before, after)):
                            raise ValueError("evaluation changed its "
                                             "arguments in place")
                        ex = ()
                    else:
                        m.set_params(P)
                        m.set_state(St)
                        y, st = m(x, return_state=True, rng=KEY,
                                  update_state=via == "update")
                        ex = (m.get_params(), m.get_state())
                    return y, st, ex
                finally:
                    m.set_params(keep[0])
                    m.set_state(keep[1])

            def goals(ins, o, ref=ref, via=via, f=f, name=name):
                P, St, x = ins
                y, st, ex = o
                gs = eqs(y, ref(P, St, x), "output")
                mods, conn, _ = f()

                def one(path, m, p, s, ns):
                    if isinstance(m, Gen):
                        w = gen(m, p, s, x if is_arr(x) else None,
                                via == "train")[1]
                        gs.extend(eqs(leafs(ns), w, f"state {path}"))
                    elif isinstance(m, Spy):
                        if name == "unused modules" and path != "b":
                            return    # not executed, not compiled
                        w = snew(p, s, via == "train")
                        gs.extend(eqs(ns[0], w[0], f"state {path}"))
                        gs.extend(eqs(ns[1], onp.asarray(w[1], object),
                                      f"state n {path}"))
                    elif hasattr(m, "modules"):
                        walk(path, m.modules, p, s, ns)

                def walk(path, c, p, s, ns):
                    if ismod(c):
                        one(path, c, p, s, ns)
                        return
                    it = c.items() if isinstance(c, dict) else enumerate(c)
                    for k, v in it:
                        walk(f"{path}\0{k}" if path else str(k), v, p[k],
                             s[k], ns[k])
                walk("", mods, P, St, st)

                def drop(t):
                    return t["b"] if name == "unused modules" else t
                if ex:
                    gs += eqs(ex[0], P, "stored params")
                    if via == "update":
                        gs += eqs(drop(ex[1]), drop(st), "stored state")
                    else:
                        gs += eqs(drop(ex[1]), drop(St), "stored state")
                return gs
            out.append(Case(f"{name} {via}", [ps, ss, data], fn, goals,
                            setup=setup, funcs=F, weight=3 if hand else 1,
                            bounds="batch 2, width 2 per leaf"))
    return out
