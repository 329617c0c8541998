"""Structural modules: for every data value, Reshape, Flatten, TreeFlatten,
ConcatenateLeaves, TreeKey and Comment put every element of every sample at
its documented place, unchanged, and never mix samples; leaves told to stay
are unchanged; the data handed in is what comes out."""
from .common import *


def F32(c):
    return True


ASSUMPTIONS = []


def rs(a, shape):
    return a.reshape((len(a),) + tuple(shape))


def jobs(tier):
    out = []
    T = tier == "thorough"

    def comp(mod, sh):
        def setup():
            m = mod()
            m.compile(KEY, sh)
            return m
        return setup

    def add(name, mod, sh, spec, ref, funcs):
        out.append(Case(name, [spec], lambda m, x: mcall(m, m.get_params()
                                                         or (), x),
                        ref=ref, setup=comp(mod, sh), funcs=funcs,
                        bounds=f"input shapes {sh}"))
    # --- Reshape, all factorizations of small shapes
    FR = ["modules.reshape.Reshape._get_callable",
          "modules.reshape.Reshape.validate_and_concretify_shape"]
    shapes = {4: [(4,), (2, 2), (4, 1), (1, 4), (-1,), (2, -1), (-1, 2)],
              6: [(6,), (2, 3), (3, 2), (-1, 3), (3, -1), (1, 2, 3),
                  (3, 2, 1), (-1,)]}
    if T:
        shapes[8] = [(8,), (2, 4), (4, 2), (2, 2, 2), (2, -1, 2), (-1, 4)]
    for n, shs in shapes.items():
        for i in shs:
            if -1 in i:
                continue
            for o in shs:
                tgt = tuple(d if d != -1 else n // -int(onp.prod(o))
                            for d in o)
                for b in (1, 3):
                    if b == 1 and i != shs[0]:
                        continue
                    add(f"Reshape {i}->{o} batch {b}",
                        lambda o=o: M.Reshape(o), i, S(b, *i),
                        lambda x, tgt=tgt: rs(x, tgt), FR)
    add("Reshape None", lambda: M.Reshape(), (2, 3), S(2, 2, 3),
        lambda x: x, FR)
    t = [(6,), ((2, 2), (2, 1))]
    ts = [S(2, 6), (S(2, 2, 2), S(2, 2, 1))]
    add("Reshape pytree", lambda: M.Reshape([(2, 3), (None, (-1,))]), t, ts,
        lambda x: [rs(x[0], (2, 3)), (x[1][0], rs(x[1][1], (2,)))], FR)
    add("Reshape dict", lambda: M.Reshape({"a": (2, 1), "b": None}),
        {"a": (2,), "b": (3,)}, {"a": S(2, 2), "b": S(2, 3)},
        lambda x: {"a": rs(x["a"], (2, 1)), "b": x["b"]}, FR)
    FF = ["modules.flatten.Flatten", "modules.reshape.Reshape._get_callable"]
    for i in [(3,), (2, 3), (2, 1, 2), (1,), (2, 2, 2)]:
        add(f"Flatten {i}", lambda: M.Flatten(), i, S(2, *i),
            lambda x: x.reshape(len(x), -1), FF)
    add("Flatten pytree", lambda: M.Flatten(), {"a": (2, 2), "b": [(3,),
                                                                  (1, 2)]},
        {"a": S(2, 2, 2), "b": [S(2, 3), S(2, 1, 2)]},
        lambda x: jax.tree.map(lambda a: a.reshape(len(a), -1), x,
                               is_leaf=is_arr), FF)
    # flatten then reshape back is the identity
    out.append(Case("flatten/reshape round trip", [S(3, 2, 3)],
                    lambda m, x: mcall(m[1], (), mcall(m[0], (), x)),
                    ref=lambda x: x, funcs=FF + FR, bounds="2x3",
                    setup=lambda: (comp(lambda: M.Flatten(), (2, 3))(),
                                   comp(lambda: M.Reshape((2, 3)), (6,))())))
    FT = ["modules.treeflatten.TreeFlatten._get_callable"]
    trees = [({"b": (2,), "a": (1, 2)}, {"b": S(2, 2), "a": S(2, 1, 2)},
              lambda x: [x["a"], x["b"]]),
             ([(2,), {"z": (1,), "y": [(2,), (1, 1)]}],
              [S(2, 2), {"z": S(2, 1), "y": [S(2, 2), S(2, 1, 1)]}],
              lambda x: [x[0], x[1]["y"][0], x[1]["y"][1], x[1]["z"]]),
             ((2, 2), S(2, 2, 2), lambda x: [x]),
             (((2,), ((3,), (1,))), (S(2, 2), (S(2, 3), S(2, 1))),
              lambda x: [x[0], x[1][0], x[1][1]])]
    for n, (sh, sp, rf) in enumerate(trees):
        add(f"TreeFlatten {n}", lambda: M.TreeFlatten(), sh, sp, rf, FT)
    FC = ["modules.concatenateleaves.ConcatenateLeaves._get_callable",
          "tree_util.getitem_by_strpath"]

    def fl(a):
        return a.reshape(len(a), -1)
    sh = {"b": (2, 2), "a": (3,), "c": [(1, 2), (2,)]}
    sp = {"b": S(2, 2, 2), "a": S(2, 3), "c": [S(2, 1, 2), S(2, 2)]}
    add("Concat flat", lambda: M.ConcatenateLeaves(), sh, sp,
        lambda x: onp.concatenate([fl(x["a"]), fl(x["b"]), fl(x["c"][0]),
                                   fl(x["c"][1])], axis=1), FC)
    add("Concat flat order",
        lambda: M.ConcatenateLeaves(path_order=["c.1", "b", "c.0", "a"]),
        sh, sp, lambda x: onp.concatenate(
            [fl(x["c"][1]), fl(x["b"]), fl(x["c"][0]), fl(x["a"])], axis=1),
        FC)
    add("Concat subset", lambda: M.ConcatenateLeaves(
        path_order=("c/1", "a"), separator="/"), sh, sp,
        lambda x: onp.concatenate([fl(x["c"][1]), fl(x["a"])], axis=1), FC)
    for ax, s1, s2 in [(0, (2, 2), (1, 2)), (1, (2, 1), (2, 2)),
                       (-1, (2, 1), (2, 2)), (-2, (1, 2), (2, 2)),
                       (0, (2,), (3,)), (-1, (2,), (1,)),
                       (2, (1, 2, 1), (1, 2, 2)), (1, (2, 1, 2), (2, 2, 2)),
                       (-1, (1, 2, 1), (1, 2, 2)), (-2, (1, 1, 2), (1, 2, 2)),
                       (-3, (1, 1, 2), (2, 1, 2))]:
        for od in (None, ["y", "x"]):
            def rf(x, ax=ax, od=od):
                n = x["x"].ndim - 1
                o = od or ["x", "y"]
                return onp.stack([onp.concatenate(
                    [x[k][s] for k in o], axis=ax)
                    for s in range(len(x["x"]))])
            add(f"Concat axis {ax} {s1} {s2} {od}",
                lambda ax=ax, od=od: M.ConcatenateLeaves(axis=ax,
                                                         path_order=od),
                {"x": s1, "y": s2}, {"x": S(2, *s1), "y": S(2, *s2)}, rf, FC)
    FK = ["modules.treekey.TreeKey._get_callable",
          "tree_util.getitem_by_strpath"]
    sh = [{"x": (2,), "y": {"q": (1, 2)}}, (3,), ((1,), (2,))]
    sp = [{"x": S(2, 2), "y": {"q": S(2, 1, 2)}}, S(2, 3),
          (S(2, 1), S(2, 2))]
    for n, (kp, sep, rf) in enumerate([
            (None, ".", lambda x: x),
            ({"a": "0.x", "b": "1"}, ".",
             lambda x: {"a": x[0]["x"], "b": x[1]}),
            (("0.x", "1"), ".", lambda x: (x[0]["x"], x[1])),
            (["1", ("2.1", {"k": "0.y.q"}), "2.0"], ".",
             lambda x: [x[1], (x[2][1], {"k": x[0]["y"]["q"]}), x[2][0]]),
            ("0.y", ".", lambda x: x[0]["y"]),
            ({"s": "0", "t": "2"}, ".", lambda x: {"s": x[0], "t": x[2]}),
            (["0/x", "0/x"], "/", lambda x: [x[0]["x"], x[0]["x"]]),
            ("2.-1", ".", None),
    ]):
        if rf is None:
            continue
        add(f"TreeKey {n} {kp}", lambda kp=kp, sep=sep: M.TreeKey(
            kp, separator=sep), sh, sp, rf, FK)
    for nm in ("Comment", "TreeKey"):
        add(f"{nm} passes data through", (lambda: M.Comment("hello"))
            if nm == "Comment" else (lambda: M.TreeKey()),
            {"a": (2,), "b": [(1, 2)]}, {"a": S(2, 2), "b": [S(2, 1, 2)]},
            lambda x: x, ["modules.comment.Comment"])
    return out
