"""Connection specifications: the real expansion and placement functions run on
specifications whose targets, path depths and path components are symbolic
(each component a symbolic code: an integer or a name; bare string or list
values), and are compared with the documented meaning: a connection to a place
no other connection reaches delivers there; several connections to one place
(or to a place and below it) fill the free integer positions in order, or
fresh names when names are used there; nothing else is placed."""
import uuid
from parametricmatrixmodels.graph_util import (
    concretize_paths, concretize_connections, place_connections_in_tree,
    partition_connections_by_tree, get_outer_connections_by_tree)
from ..psym import PCase, Abort

ASSUMPTIONS = [
    "one level of a target structure uses integers or names, not both "
    "(except where a fresh name is asked for)",
    "path components are compared only for equality, being an integer, and "
    "integer value; each code stands for every name with the same answers",
    "separators: '.', '/', '::'",
]
F = ["graph_util.concretize_paths", "graph_util.concretize_connections",
     "graph_util.place_connections_in_tree",
     "graph_util.partition_connections_by_tree",
     "graph_util.get_outer_connections_by_tree",
     "tree_util.extend_structure_from_strpaths",
     "tree_util.getitem_by_strpath"]


class Fresh:
    def __repr__(self):
        return "<fresh>"


def expand(entries):
    """entries: [(parts, tag)] in order -> {tag: parts}; documented meaning"""
    if len(entries) == 1:
        return {entries[0][1]: list(entries[0][0])}
    expl = [p[0] for p, _ in entries if p]
    names = any(not k.isdigit() for k in expl)
    if not any(not p for p, _ in entries):
        free = None
    elif names:
        free = iter([Fresh() for _ in entries])
    else:
        used = {int(k) for k in expl}
        free = iter([str(i) for i in range(len(entries) + len(used))
                     if i not in used])
    groups, out = {}, {}
    for p, t in entries:
        if p:
            groups.setdefault(p[0], []).append((p[1:], t))
        else:
            groups.setdefault(next(free), []).append(([], t))
    for k, g in groups.items():
        for t, p in expand(g).items():
            out[t] = [k] + p
    return out


def mixed(entries):
    """a level with both integer and name components"""
    lv = {}
    for p, _ in entries:
        for i, k in enumerate(p):
            lv.setdefault(tuple(p[:i]), set()).add(k.isdigit())
    return any(len(v) > 1 for v in lv.values())


def match(got, want, fresh, sep):
    """got: list of components; want: list with Fresh marks"""
    if len(got) != len(want):
        return False
    for g, w in zip(got, want):
        if isinstance(w, Fresh):
            if fresh.setdefault(w, g) != g or not g or sep in g:
                return False
        elif g != w:
            return False
    return True


def struct(paths):
    """{tuple(parts): value} -> nested lists/dicts (None in gaps)"""
    if len(paths) == 1 and () in paths:
        return paths[()]
    keys = {}
    for p, v in paths.items():
        keys.setdefault(p[0], {})[p[1:]] = v
    if all(k.isdigit() for k in keys):
        out = [None] * (max(int(k) for k in keys) + 1)
        for k, s in keys.items():
            out[int(k)] = struct(s)
        return out
    return {k: struct(s) for k, s in keys.items()}


def symparts(ex, tag, depth, codes):
    d = ex.choice(f"{tag}depth", depth + 1)
    return [ex.pick(f"{tag}c{i}", codes) for i in range(d)]


def paths_fn(n, depth, codes, sep="."):
    def fn(ex):
        ps = [symparts(ex, f"p{i}", depth, codes) for i in range(n)]
        strs = [sep.join(p) for p in ps]
        given = list(strs)
        got = concretize_paths(strs, sep)
        ex.check(strs == given, "the given list was changed")
        want = expand([(p, i) for i, p in enumerate(ps)])
        ex.check(len(got) == n, "number of paths")
        fresh = {}
        for i in range(n):
            g = got[i].split(sep) if got[i] else []
            ex.check(match(g, want[i], fresh, sep),
                     f"path {strs[i]!r} of {strs} became {got[i]!r}, "
                     f"expected {want[i]}")
        ex.check(len(set(map(str, fresh.values()))) == len(fresh)
                 and not set(fresh.values()) & {k for p in ps for k in p},
                 f"fresh names {list(fresh.values())} collide")
    return fn


def wide_fn(n, k, sep=".", conn=False):
    """n connections to one place, k of them at symbolic explicit positions"""
    def fn(ex):
        ps = [[] for _ in range(n)]
        for j in range(k):
            i = ex.choice(f"which{j}", n)
            c = ex.choice(f"position{j}", n + 2)
            if ps[i] or [str(c)] in ps:
                raise Abort()
            ps[i] = [str(c)]
        want = expand([(p, i) for i, p in enumerate(ps)])
        if not conn:
            got = concretize_paths([sep.join(p) for p in ps], sep)
        else:
            src = [f"m{(i * 5) % n}" for i in range(n)] if n % 5 else [
                f"m{i}" for i in range(n)]
            T = {**{s_: "*" for s_ in sorted(src)}, "t": "*"}
            spec = {s_: sep.join(["t"] + p) for s_, p in zip(src, ps)}
            c = concretize_connections(spec, T, sep)
            ex.check(list(c) == list(spec), f"sources of {c}")
            ex.check(all(len(c[s_]) == 1 and c[s_][0].startswith("t" + sep)
                         for s_ in src), f"{spec} -> {c}")
            got = [c[s_][0][1 + len(sep):] for s_ in src]
            placed, rest = place_connections_in_tree(spec, T, sep)
            w = struct({tuple(want[i]): src[i] for i in range(n)})
            ex.check(placed["t"] == w, f"{spec}: placed {placed['t']} "
                     f"expected {w}")
        ex.check([g.split(sep) for g in got] == [want[i] for i in range(n)],
                 f"{ps} -> {got}, expected {want}")
    return fn


TREES = {
    "flat": ({"A": "*", "B": "*"}, ["A", "B"]),
    "nested": ({"A": "*", "B": {"C": "*", "A": "*"}}, ["B.A", "A", "B.C"]),
    "list": (["*", {"x": "*"}, "*"], ["0", "1.x", "2"]),
    "prefix": ({"in": "*", "out": "*", "input1": ("*", "*")},
               ["in", "input1.1", "out", "input1.0"]),
}


def conn_fn(tree, n, depth, codes, srcs, sep=".", outers=None, skip=True):
    T, mods = TREES[tree]

    def fn(ex):
        outer = [o.replace(".", sep) for o in (outers or mods + ["output"])]
        es = []
        for i in range(n):
            s = ex.pick(f"src{i}", srcs) if len(srcs) > 1 else srcs[0]
            s = s.format(i=i).replace(".", sep)
            o = ex.pick(f"dst{i}", outer) if len(outer) > 1 else outer[0]
            p = symparts(ex, f"t{i}", depth, codes)
            es.append((s, o, p))
        by, order = {}, []
        conn = {}
        for s, o, p in es:
            conn.setdefault(s, []).append(sep.join([o] + p))
        # the order in which the specification lists them
        flat = []
        for s in conn:
            flat += [e for e in es if e[0] == s]
        for t, (s, o, p) in enumerate(flat):
            by.setdefault(o, []).append((p, t))
        if any(mixed(v) for v in by.values()):
            raise Abort()
        spec = {s: (v[0] if len(v) == 1 and ex.bool("bare") else
                    tuple(v) if len(v) > 1 and ex.bool("tuple") else list(v))
                for s, v in conn.items()}
        given = {k: (v if isinstance(v, str) else type(v)(v))
                 for k, v in spec.items()}
        want = {}
        for o, v in by.items():
            for t, parts in expand(v).items():
                want[t] = parts
        got = concretize_connections(spec, T, sep)
        ex.check(spec == given, "the given connections were changed")
        ctx = f"{spec} -> {got}"
        ex.check(set(got) == set(conn), f"sources changed: {ctx}")
        fresh = {}
        ins = {t: [] for t in range(len(flat))}
        total = 0
        for s in got:
            mine = [t for t, e in enumerate(flat) if e[0] == s]
            total += len(got[s])
            ex.check(len(got[s]) == len(mine), f"connections of {s}: {ctx}")
            left = list(got[s])
            for t in mine:
                o = flat[t][1]
                hit = None
                for g in left:
                    if g == o or g.startswith(o + sep):
                        r = g[len(o):].lstrip(sep)
                        if match(r.split(sep) if r else [], want[t],
                                 dict(fresh), sep):
                            hit = g
                            match(r.split(sep) if r else [], want[t], fresh,
                                  sep)
                            break
                ex.check(hit is not None, f"{s} -> {o} {flat[t][2]} should "
                         f"become {want[t]}: {ctx}")
                left.remove(hit)
        ex.check(total == len(flat), f"number of connections: {ctx}")
        # outer graph
        og = get_outer_connections_by_tree(spec, T, sep)

        def outer_of(s):
            if s == "input" or s.startswith("input" + sep):
                return "input"
            for m in sorted((m.replace(".", sep) for m in mods), key=len,
                            reverse=True):
                if s == m or s.startswith(m + sep):
                    return m
        wo = {}
        for s, o, p in flat:
            w = wo.setdefault(outer_of(s), [])
            if o not in w:
                w.append(o)
        ex.check({k: list(v) for k, v in og.items()} == wo,
                 f"module graph of {spec}: {og} expected {wo}")
        # partition: what belongs to the module tree and what lies below it
        pt = partition_connections_by_tree(spec, T, sep)
        wp = {}
        for s, o, p in flat:
            m = outer_of(s)
            wp.setdefault(m + sep * 2 + s[len(m):].removeprefix(sep),
                          []).append(o + sep * 2 + sep.join(p))
        ex.check(pt == wp, f"partition of {spec}: {pt} expected {wp}")
        # placement
        placed, rest = place_connections_in_tree(spec, T, sep)
        for o in by:
            paths = {}
            for t, parts in want.items():
                if flat[t][1] == o:
                    paths[tuple(fresh.get(k, k) for k in parts)] = flat[t][0]
            # fresh names differ from call to call
            w = struct(paths)
            cur = rest if o == "output" else placed
            if o != "output":
                for k in o.split(sep):
                    try:
                        cur = cur[int(k) if isinstance(cur, list) else k]
                    except (KeyError, IndexError, TypeError):
                        cur = "<missing>"
                        break
            ex.check(alike(cur, w, set(fresh.values())),
                     f"{spec}: placed at {o}: {cur} expected {w}")
        if "output" not in by:
            ex.check(rest in ([], {}, None), f"{spec}: output {rest}")
        extra = leaves(placed) + (leaves(rest) if rest else [])
        # the output entry may also be listed in the tree when it is whole
        n_out = len(by.get("output", []))
        ex.check(len(extra) in (len(flat), len(flat) + (n_out == 1)),
                 f"{spec}: placed {placed} {rest}")
    return fn


def leaves(t):
    if isinstance(t, str):
        return [t]
    if isinstance(t, dict):
        return [x for v in t.values() for x in leaves(v)]
    if isinstance(t, (list, tuple)):
        return [x for v in t for x in leaves(v)]
    return []


def alike(a, b, fresh):
    if isinstance(b, dict):
        if not isinstance(a, dict) or len(a) != len(b):
            return False
        fb = [k for k in b if k in fresh]
        fa = [k for k in a if k not in b]
        if len(fa) != len(fb):
            return False
        if any(not alike(a[k], b[k], fresh) for k in b if k not in fresh):
            return False
        # fresh entries in order
        va, vb = [a[k] for k in fa], [b[k] for k in fb]
        return sorted(map(repr, va)) == sorted(map(repr, vb))
    if isinstance(b, list):
        return isinstance(a, list) and len(a) == len(b) and all(
            alike(x, y, fresh) for x, y in zip(a, b))
    return a == b


def reject_fn(tree):
    T, mods = TREES[tree]

    def fn(ex):
        k = ex.choice("kind", 5)
        sep = ex.pick("sep", [".", "/"])
        sub = ex.pick("sub", ["", sep + "0", sep + "q"])
        m = ex.pick("mod", mods).replace(".", sep)
        bad = {0: {"input": m, "output" + sub: m},
               1: {"input": m, m: "input" + sub},
               2: {"input": m + sep + sep + "x"},
               3: {"input" + sep + sep + "x": m},
               4: {"input": "nosuch" + sub}}[k]
        for f in (concretize_connections, place_connections_in_tree,
                  get_outer_connections_by_tree,
                  partition_connections_by_tree):
            try:
                f(bad, T, sep)
                ok = False
            except (ValueError, KeyError, IndexError, TypeError):
                ok = True
            ex.check(ok, f"{f.__name__} accepted {bad}")
    return fn


def jobs(tier):
    q = tier == "quick"
    out = []

    def a(name, fn, bounds, w=4):
        out.append(PCase(name, fn, F, bounds, w))
    D, P = ["0", "1", "2"], ["0", "1", "p"]
    a("paths 1", paths_fn(1, 3, ["0", "p"]), "1 path, depth <= 3", 1)
    a("paths 2", paths_fn(2, 3, ["0", "1", "p", "q"]),
      "2 paths, depth <= 3, 4 component codes", 6)
    a("paths 3", paths_fn(3, 2, ["0", "1", "2", "p"]),
      "3 paths, depth <= 2, 4 component codes", 9)
    a("paths 3 names", paths_fn(3, 2, ["0", "p", "q"], "/"),
      "3 paths, depth <= 2, 3 component codes, separator /", 5)
    a("paths 4 flat", paths_fn(4, 1, ["0", "1", "2", "3", "p", "12"]),
      "4 paths, depth <= 1, 6 component codes", 5)
    if not q:
        a("paths 5 flat", paths_fn(5, 1, ["0", "1", "3", "p", "4"]),
          "5 paths, depth <= 1", 9)
        a("paths 4 deep", paths_fn(4, 2, ["0", "1", "p"]),
          "4 paths, depth <= 2, 3 codes", 20)
        a("paths 3 deep", paths_fn(3, 3, ["0", "1", "p"]),
          "3 paths, depth <= 3, 3 codes", 20)
    a("wide paths 13", wide_fn(13, 1), "13 paths to one place, one of them "
      "at any position", 5)
    a("wide paths 12, two explicit", wide_fn(12 if not q else 11, 2),
      "11 (thorough: 12) paths to one place, two at any positions", 20)
    a("wide connections 12", wide_fn(12, 1, "/", True), "12 connections to "
      "one module, one of them at any position", 5)
    if not q:
        a("wide connections 23", wide_fn(23, 1, ".", True), "23 connections "
          "to one module, one of them at any position", 9)
    for o in (["output"], ["A"]):
        a(f"one target {o[0]}", conn_fn("flat", 3, 2, D, ["input.s{i}"],
                                        outers=o),
          "3 sources to one target, depth <= 2, integer components", 8)
        a(f"one target {o[0]} names", conn_fn(
            "flat", 3, 2, ["p", "q"], ["input.s{i}"], outers=o),
          "3 sources to one target, depth <= 2, name components", 8)
        a(f"one target {o[0]} mixed", conn_fn(
            "flat", 3, 2, ["0", "p"], ["input.s{i}"], outers=o),
          "3 sources to one target, depth <= 2, integer or name components "
          "(not both at one level)", 8)
    for t in TREES:
        S0 = {"flat": ["input", "A", "input.A"], "nested": ["B.A", "input.0",
                                                            "B.C.z"],
              "list": ["0.1", "input", "1.x"],
              "prefix": ["in", "input1.0", "input"]}[t]
        a(f"several targets {t}", conn_fn(t, 3 if not q else 2, 1,
                                          ["0", "1", "p"], S0),
          f"{2 if q else 3} connections between 3 sources and all targets, "
          "depth <= 1", 9)
        a(f"shared source {t}", conn_fn(t, 3, 1, ["0"] if q else ["0", "1"],
                                        S0[:2]),
          "3 connections from 2 sources to all targets", 9)
    a("separator /", conn_fn("nested", 2, 2, ["0", "p"], ["input.0", "B.C"],
                             "/"), "2 connections, separator /", 6)
    a("separator ::", conn_fn("nested", 2, 1, ["0", "p"], ["input.0", "A"],
                              "::"), "2 connections, separator ::", 6)
    for t in TREES:
        a(f"rejects {t}", reject_fn(t), "output as source, input as target, "
          "doubled separators, unknown modules", 1)
    return out
