"""Tree path operations: the real functions run on trees whose node kinds
(dict, list, tuple, leaf), sizes and key names and on paths whose components
are symbolic; reading, writing, extending and listing are compared with plain
definitions and with each other (what is set is read back, nothing else
changes, the listed paths are exactly the readable leaves)."""
import copy
import jax
from parametricmatrixmodels import tree_util as T
from ..psym import PCase, Abort

ASSUMPTIONS = [
    "dict keys are strings without the separator",
    "each key code stands for every key with the same equality and "
    "integer-ness",
]
F = ["tree_util.getitem_by_strpath", "tree_util.setitem_by_strpath",
     "tree_util.extend_structure_from_strpaths", "tree_util.make_mutable"]
NO = object()


class Leaf:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return f"L{self.n}"


def tree(ex, depth, keys, cnt, tag="t", kinds=("dict", "list", "tuple"),
         width=2, root=True):
    ks = (list(kinds) if root else ["leaf"] + list(kinds)) if depth else \
        ["leaf"]
    k = ex.pick(tag + "k", ks) if len(ks) > 1 else ks[0]
    if k == "leaf":
        cnt[0] += 1
        return Leaf(cnt[0])
    n = ex.choice(tag + "n", width + 1)
    if k == "dict":
        # a choice of key sets, insertion order not sorted
        opts = [keys[i:] + keys[:i] for i in range(len(keys))]
        o = ex.pick(tag + "o", opts) if n else []
        names = o[:n]
        return {nm: tree(ex, depth - 1, keys, cnt, f"{tag}{i}", kinds, width,
                         False) for i, nm in enumerate(names)}
    v = [tree(ex, depth - 1, keys, cnt, f"{tag}{i}", kinds, width, False)
         for i in range(n)]
    return v if k == "list" else tuple(v)


def wide(ex, depth, keys, cnt, tag="t", **kw):
    """containers with more than ten entries"""
    L = lambda n: [Leaf(i) for i in range(n)]
    return [L(12), tuple(L(12)), {"10": L(11), "9": tuple(L(11)),
                                  "1": Leaf("x")},
            [*L(10), L(11), tuple(L(12))],
            tuple(L(10)) + ({"11": Leaf("y"), "a": Leaf("z")},),
            ][ex.choice(tag + "w", 5)]


def walk(t, parts):
    for p in parts:
        if isinstance(t, dict):
            if p not in t:
                return NO
            t = t[p]
        elif isinstance(t, (list, tuple)):
            if not p.isdigit() or int(p) >= len(t):
                return NO
            t = t[int(p)]
        else:
            return NO
    return t


def leafpaths(t, pre=()):
    if isinstance(t, dict):
        return [x for k in t for x in leafpaths(t[k], pre + (k,))]
    if isinstance(t, (list, tuple)):
        return [x for i, v in enumerate(t)
                for x in leafpaths(v, pre + (str(i),))]
    return [(pre, t)]


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(map(same, a, b))
    return a is b or (isinstance(a, (str, int)) and a == b)


def clone(t):
    if isinstance(t, dict):
        return {k: clone(v) for k, v in t.items()}
    if isinstance(t, (list, tuple)):
        return type(t)(clone(v) for v in t)
    return t


def refset(t, parts, v):
    """a new tree with v at parts, or NO"""
    if not parts:
        return NO
    p, rest = parts[0], parts[1:]
    if isinstance(t, dict):
        if rest:
            if p not in t:
                return NO
            s = refset(t[p], rest, v)
            if s is NO:
                return NO
            return {k: (s if k == p else x) for k, x in t.items()}
        return {**t, p: v}
    if isinstance(t, (list, tuple)):
        if not p.isdigit() or int(p) >= len(t):
            return NO
        i = int(p)
        if rest:
            s = refset(t[i], rest, v)
            if s is NO:
                return NO
        else:
            if isinstance(t, tuple):
                return NO
            s = v
        return type(t)(s if j == i else x for j, x in enumerate(t))
    return NO


def attempt(f):
    try:
        return f()
    except (KeyError, IndexError, TypeError, ValueError):
        return NO


def symparts(ex, tag, lo, hi, codes):
    d = lo + ex.choice(tag + "d", hi - lo + 1)
    return [ex.pick(f"{tag}{i}", codes) for i in range(d)]


def get_fn(depth, pd, keys, codes, sep, mk=None, **kw):
    def fn(ex):
        t = (mk or tree)(ex, depth, keys, [0], **kw)
        before = clone(t)
        parts = symparts(ex, "p", 0, pd, codes)
        s = sep.join(parts)
        want = walk(t, parts)
        got = attempt(lambda: T.getitem_by_strpath(t, s, sep))
        ctx = f"{t} at {s!r}"
        ex.check(got is want, f"{ctx}: got {got} expected {want}")
        g2 = attempt(lambda: T.getitem_by_strpath(t, s, sep,
                                                  return_remainder=True))
        ex.check(g2 is NO if want is NO else (g2[0] is want and g2[1] == ""),
                 f"{ctx} with remainder: {g2}")
        # early return stops at leaves only
        cur, i, w = t, 0, None
        while i < len(parts) and isinstance(cur, (dict, list, tuple)):
            cur = walk(cur, parts[i:i + 1])
            if cur is NO:
                break
            i += 1
        g3 = attempt(lambda: T.getitem_by_strpath(
            t, s, sep, allow_early_return=True, return_remainder=True))
        ex.check(g3 is NO if cur is NO else
                 (g3 is not NO and g3[0] is cur and
                  g3[1] == sep.join(parts[i:])),
                 f"{ctx} early: {g3} expected {cur}, {sep.join(parts[i:])!r}")
        g4 = attempt(lambda: T.getitem_by_strpath(t, s, sep,
                                                  allow_early_return=True))
        ex.check(g4 is cur, f"{ctx} early without remainder: {g4}")
        # custom leaves
        isl = lambda x: isinstance(x, tuple)
        cur, i = t, 0
        while i < len(parts) and isinstance(cur, (dict, list)):
            cur = walk(cur, parts[i:i + 1])
            if cur is NO:
                break
            i += 1
        g5 = attempt(lambda: T.getitem_by_strpath(
            t, s, sep, allow_early_return=True, return_remainder=True,
            is_leaf=isl))
        ex.check(g5 is NO if cur is NO else
                 (g5 is not NO and g5[0] is cur and
                  g5[1] == sep.join(parts[i:])),
                 f"{ctx} tuples as leaves: {g5}")
        g6 = attempt(lambda: T.getitem_by_strpath(t, s, sep, is_leaf=isl))
        ex.check(g6 is (NO if cur is NO or i < len(parts) else cur),
                 f"{ctx} tuples as leaves, no early return: {g6}")
        ex.check(same(t, before), f"{ctx}: reading changed the tree")
    return fn


def list_fn(depth, keys, sep, width=2):
    def fn(ex):
        t = tree(ex, depth, keys, [0], width=width)
        fl = jax.tree_util.tree_flatten_with_path(t)[0]
        for p, v in fl:
            s = jax.tree_util.keystr(p, simple=True, separator=sep)
            ex.check(attempt(lambda: T.getitem_by_strpath(t, s, sep)) is v,
                     f"{t}: listed path {s!r} does not read its leaf")
        m = T.make_mutable(t)

        def lst(x):
            if isinstance(x, dict):
                return {k: lst(v) for k, v in x.items()}
            if isinstance(x, (list, tuple)):
                return [lst(v) for v in x]
            return x

        def eqd(a, b):
            if isinstance(b, dict):
                return isinstance(a, dict) and set(a) == set(b) and all(
                    eqd(a[k], b[k]) for k in b)
            if isinstance(b, list):
                return type(a) is list and len(a) == len(b) and all(
                    map(eqd, a, b))
            return a is b
        ex.check(eqd(m, lst(t)), f"make_mutable({t}) = {m}")
    return fn


def set_fn(depth, pd, keys, codes, sep, leafs=False, mk=None, **kw):
    def fn(ex):
        t = (mk or tree)(ex, depth, keys, [0], **kw)
        before = clone(t)
        parts = symparts(ex, "p", 0, pd, codes)
        s = sep.join(parts)
        v = Leaf("new")
        isl = (lambda x: isinstance(x, tuple)) if leafs else None
        want = refset(before, parts, v)
        if leafs and want is not NO:
            # a tuple on the way is a leaf: nothing below it can be set
            for i in range(len(parts)):
                if isinstance(walk(before, parts[:i]), tuple):
                    want = NO
        ok = attempt(lambda: T.setitem_by_strpath(t, s, v, sep, isl)) is None
        ctx = f"{before} set {s!r}"
        if want is NO:
            ex.check(not ok, f"{ctx}: accepted, gives {t}")
            ex.check(same(t, before), f"{ctx}: failed but changed to {t}")
            return
        ex.check(ok, f"{ctx}: rejected")
        ex.check(same(t, want), f"{ctx}: {t} expected {want}")
        ex.check(T.getitem_by_strpath(t, s, sep) is v, f"{ctx}: not read back")
        for p, u in leafpaths(before):
            if list(p[:len(parts)]) != parts:
                ex.check(T.getitem_by_strpath(t, sep.join(p), sep) is u,
                         f"{ctx}: {p} changed")
    return fn


def mixed(paths, base=None):
    lv = {}
    for p in paths:
        for i, k in enumerate(p):
            lv.setdefault(tuple(p[:i]), set()).add(k.isdigit())
    return any(len(v) > 1 for k, v in lv.items() if k or base is not None)


def prefixed(paths):
    return any(a != b and b[:len(a)] == a for a in paths for b in paths)


def refextend(t, parts, v):
    """reference: add parts to t (mutable reference tree); NO if impossible"""
    if not parts:
        return v if t is NO or t is None else NO
    p, rest = parts[0], parts[1:]
    if t is NO or t is None:
        t = [] if p.isdigit() else {}
    if isinstance(t, dict):
        s = refextend(t.get(p, NO), rest, v)
        return NO if s is NO else {**t, p: s}
    if isinstance(t, (list, tuple)):
        if not p.isdigit():
            return NO
        i = int(p)
        u = list(t) + [None] * (i + 1 - len(t))
        s = refextend(u[i], rest, v)
        if s is NO:
            return NO
        u[i] = s
        return type(t)(u)
    return NO


def extend_fn(n, pd, codes, sep):
    """from nothing"""
    def fn(ex):
        ps = [symparts(ex, f"p{i}", 1, pd, codes) for i in range(n)]
        if prefixed(ps) or mixed(ps) or len({tuple(p) for p in ps}) < n:
            raise Abort()
        one = ex.bool("one")
        single = Leaf("all")
        vals = [single] * n if one else [Leaf(i) for i in range(n)]
        ss = [sep.join(p) for p in ps]
        got = T.extend_structure_from_strpaths(
            None, ss if ex.bool("aslist") else tuple(ss), sep,
            single if one else (vals if ex.bool("vlist") else tuple(vals)))
        want = [] if all(p[0].isdigit() for p in ps) else {}
        for p, v in zip(ps, vals):
            want = refextend(want, p, v)
        ex.check(same(got, want), f"{ss}: {got} expected {want}")
        for s, v in zip(ss, vals):
            ex.check(attempt(lambda: T.getitem_by_strpath(got, s, sep)) is v,
                     f"{ss}: {s} does not read its value in {got}")
        ex.check(sorted(map(repr, [v for _, v in leafpaths(got)
                                   if v is not None]))
                 == sorted(map(repr, vals)), f"{ss}: leaves of {got}")
    return fn


def base_fn(depth, n, pd, keys, codes, sep, mk=None, **kw):
    """extending an existing tree"""
    def fn(ex):
        t = (mk or tree)(ex, depth, keys, [0], **kw)
        before = clone(t)
        ps = [symparts(ex, f"p{i}", 1, pd, codes) for i in range(n)]
        if prefixed(ps) or len({tuple(p) for p in ps}) < n:
            raise Abort()
        vals = [Leaf(f"v{i}") for i in range(n)]
        want = clone(before)
        for p, v in zip(ps, vals):
            if walk(before, p) is not NO:
                raise Abort()       # occupied
            want = refextend(want, p, v)
            if want is NO:
                break
        ss = [sep.join(p) for p in ps]
        ctx = f"{before} + {ss}"
        got = attempt(lambda: T.extend_structure_from_strpaths(
            t, ss, sep, vals))
        if want is NO:
            ex.check(got is NO, f"{ctx}: accepted, gives {got}")
            return
        ex.check(got is not NO, f"{ctx}: rejected")
        ex.check(same(got, want), f"{ctx}: {got} expected {want}")
    return fn


def jobs(tier):
    q = tier == "quick"
    out = []

    def a(name, fn, bounds, w=5):
        out.append(PCase(name, fn, F, bounds, w))
    K = ["b", "a"]
    D = 2
    a("get", get_fn(D, 2 if q else 3, K, ["a", "c", "0", "1"] if q else
                    ["a", "b", "0", "1", "2", "c"], "."),
      f"trees of depth <= 2 and width <= 2, paths of length <= {2 if q else 3}", 9)
    a("get numeric names", get_fn(D, 2, ["1", "0"], ["0", "1", "a"], "/"),
      "dict keys that look like indices", 6)
    a("list", list_fn(D if q else 3, ["b", "a", "0"], ".", 2), "trees of "
      f"depth <= {2 if q else 3}", 6)
    a("set", set_fn(D, 2 if q else 3, K, ["a", "c", "0", "1"], "."),
      f"trees of depth <= 2, paths of length <= {2 if q else 3}", 9)
    a("get deep", get_fn(3, 4, ["a"], ["a", "0", "1"], ".", width=1),
      "trees of depth <= 3, width 1, paths of length <= 4", 6)
    a("set deep", set_fn(3, 4, ["a"], ["a", "0", "1"], ".", width=1),
      "trees of depth <= 3, width 1, paths of length <= 4", 6)
    a("set leaves", set_fn(D, 2, K, ["a", "0", "1"], "::", True),
      "trees of depth <= 2, tuples as leaves", 6)
    a("build 1", extend_fn(1, 3, ["0", "1", "2", "a"], "."), "one path", 2)
    a("build 2", extend_fn(2, 3, ["0", "1", "a"] if q else
                           ["0", "1", "2", "a", "b"], "."), "two paths, "
      "length <= 3", 6)
    a("build 3", extend_fn(3, 2, ["0", "1", "a", "b"], "/"), "three paths, "
      "length <= 2", 6)
    a("extend 1", base_fn(D, 1, 2 if q else 3, K,
                          ["a", "c", "0", "2"] if q else
                          ["a", "b", "c", "0", "1", "2"], "."),
      f"one path (length <= {2 if q else 3}) into an existing tree of depth "
      "<= 2", 9)
    a("extend deep", base_fn(3, 1, 4, ["a"], ["a", "0", "1"], ".", width=1),
      "one path (length <= 4) into a tree of depth <= 3, width 1", 6)
    a("extend deep tuples", base_fn(3, 2, 4, ["a"], ["0", "1"], ".",
                                    width=1, kinds=("tuple",)),
      "two paths (length <= 4) into nested tuples of depth <= 3", 6)
    W = ["1", "9", "10", "11", "12"] + ([] if q else ["2", "a", "100"])
    a("wide get", get_fn(0, 2, [], W, ".", mk=wide),
      "containers of 10 to 12 entries, indices of one and two digits", 6)
    a("wide set", set_fn(0, 2, [], W, "/", mk=wide),
      "containers of 10 to 12 entries, indices of one and two digits", 6)
    a("wide extend", base_fn(0, 2, 2, [], W[1:], ".", mk=wide),
      "containers of 10 to 12 entries, indices of one and two digits", 8)
    a("wide build", extend_fn(3 if q else 4, 1, ["0", "2", "9", "10", "11",
                                                  "1"], "."),
      "lists of up to 12 entries from out of order paths", 6)
    a("wide build deep", extend_fn(2, 2, ["2", "10", "0"] + (
        [] if q else ["9", "11"]), "."),
      "nested lists of up to 11 entries from out of order paths", 6)
    a("extend 2", base_fn(1 if q else 2, 2, 2, K, ["a", "c", "0", "2"], "."),
      "two paths into an existing tree", 8)
    return out
