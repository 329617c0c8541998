"""Graph resolution: the real resolve_connections runs on graphs whose edges
are symbolic booleans (all directed graphs on the bounded node set) and on edge
lists whose node names are symbolic (any names; equality decided by the
solver); the result is compared with the definition: nodes on some path from
start to end, each once, after everything it needs; rejection exactly when no
such order exists.  NonSequentialModel.get_execution_order and compile are
driven the same way."""
import itertools
import z3
import jax
import parametricmatrixmodels as pmm
from parametricmatrixmodels.graph_util import resolve_connections
from ..psym import PCase, Abort, wrapb, SymBool
from .. import psym
from .P17 import Op

ASSUMPTIONS = [
    "start is given: edges into start from nodes that start cannot reach are "
    "ignored",
]
F = ["graph_util.resolve_connections", "graph_util.validate_resolution"]
FM = F + ["NonSequentialModel.get_execution_order",
          "graph_util.get_outer_connections_by_tree",
          "graph_util.partition_connections_by_tree",
          "NonSequentialModel.compile"]


def closure(adj, s):
    seen, st = [], [s]
    while st:
        n = st.pop()
        if n in seen:
            continue
        seen.append(n)
        st += adj.get(n, [])
    return seen


def expected(edges, start, end):
    """(set of nodes on paths, valid?)"""
    adj, rev = {}, {}
    for u, v in edges:
        adj.setdefault(u, []).append(v)
        rev.setdefault(v, []).append(u)
    P = [n for n in closure(adj, start) if n in closure(rev, end)]
    if start not in P or end not in P:
        return P, False
    for v in P:
        if v != start and any(u not in P for u in rev.get(v, [])):
            return P, False
    # acyclic?
    left = list(P)
    while left:
        k = [n for n in left if not any(u in left for u in rev.get(n, [])
                                        if u in P)]
        if not k:
            return P, False
        left = [n for n in left if n not in k]
    return P, True


def judge(ex, edges, start, end, go):
    P, ok = expected(edges, start, end)
    try:
        order = list(go())
    except (Abort, psym.Violation):
        raise
    except psym.Unsupported:
        raise
    except Exception as e:
        ex.check(not ok, f"valid graph rejected: {type(e).__name__}: "
                 f"{str(e)[:80]}")
        return None
    ex.check(ok, f"graph without a valid order accepted: {order}")
    ex.check(len(order) == len(P) and all(n in P for n in order)
             and all(n in order for n in P),
             f"order {order} is not each of {P} exactly once")
    for u, v in edges:
        if u in P and v in P:
            ex.check(order.index(u) < order.index(v),
                     f"{v} is scheduled before {u}, which it needs: {order}")
    ex.check(order[0] == start and order[-1] == end, f"order {order} does "
             "not go from start to end")
    return order


def edges_fn(k, fixed, extra_edges=False, rev=False):
    """all graphs on start, end and k more nodes"""
    inner = ["n%d" % i for i in range(k)]
    src = ["s"] + inner + (["e"] if extra_edges else [])
    dst = inner + ["e"] + (["s"] if extra_edges else [])
    if rev:
        src, dst = src[::-1], dst[::-1]
    pairs = [(u, v) for u in src for v in dst]

    def fn(ex):
        edges = []
        for i, (u, v) in enumerate(pairs):
            b = ex.bool(f"{u}->{v}")
            if i < len(fixed):
                ex.assume(b if fixed[i] else (~b if type(b) is SymBool
                                              else not b))
            if b:
                edges.append((u, v))
        g = {}
        for u, v in edges:
            g.setdefault(u, []).append(v)
        given = {u: list(v) for u, v in g.items()}
        judge(ex, edges, "s", "e",
              lambda: resolve_connections(g, "s", "e")[0])
        ex.check(g == given, "the given graph was changed")
    return fn


class Name(str):
    """a name known only up to equality with other names"""
    def __new__(cls, z):
        o = str.__new__(cls, "name")
        o.z = z
        return o

    def __eq__(self, o):
        if type(o) is Name:
            if o is self:
                return True
            return psym.CUR.decide(self.z == o.z)
        return NotImplemented if not isinstance(o, str) else False

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return 17

    def __repr__(self):
        return f"Name({self.z})"


def names_fn(E, alias, first=None):
    """E edges with symbolic endpoints; start and end symbolic names too"""
    def fn(ex):
        def nm(n):
            v = ex.int(n)
            return f"v{v}" if ex.concrete else Name(v.z)
        s, e = nm("start"), nm("end")
        if not alias:
            ex.assume(s != e)
        edges = [(nm(f"src{i}"), nm(f"dst{i}")) for i in range(E)]
        if first is not None:
            ex.assume((edges[0][0] == s) == first)
        g = {}
        for u, v in edges:
            g.setdefault(u, []).append(v)
        judge(ex, edges, s, e, lambda: resolve_connections(g, s, e)[0])
    return fn


# modules with confusable names
TREES = {
    "dict": (lambda: {"a": Op("a"), "input2": Op("b")}, ["a", "input2"]),
    "nested": (lambda: {"g": {"x": Op("x"), "xy": Op("y")}},
               ["g.x", "g.xy"]),
    "list": (lambda: [Op(0), Op(1)], ["0", "1"]),
    "mixed": (lambda: {"outputs": [Op(0)], "o": Op("o")},
              ["outputs.0", "o"]),
}


def model_fn(tree, k, sub):
    mk, paths = TREES[tree]

    def fn(ex):
        src = ["input"] + paths
        dst = paths + ["output"]
        edges, conn = [], {}
        for u in src:
            vs = []
            for v in dst:
                if ex.bool(f"{u}->{v}"):
                    edges.append((u, v))
                    vs.append(v + (".k" + u.replace(".", "") if sub and
                                   v != "output" else ""))
            if vs:
                uu = u + ".z" if sub and u == "input" else u
                if len(vs) == 1 and ex.bool(f"bare{u}"):
                    conn[uu] = vs[0]
                else:
                    conn[uu] = vs if ex.bool("aslist") else tuple(vs)
        m = pmm.NonSequentialModel(mk(), conn)
        order = judge(ex, edges, "input", "output", m.get_execution_order)
        if order is not None and not sub:
            m.compile(0, (2,))
            for p in paths:
                mod = pmm.tree_util.getitem_by_strpath(m.modules, p)
                ex.check(mod.is_ready() == (p in order),
                         f"module {p} compiled: {mod.is_ready()}")
            ex.check(m.is_ready(), "model not ready after compile")
    return fn


def jobs(tier):
    q = tier == "quick"
    out = []
    for k in (0, 1, 2):
        for rev in (False, True):
            if k == 2 and rev and q:
                continue
            out.append(PCase(f"all graphs {k} inner nodes rev={rev}",
                             edges_fn(k, (), k < 2, rev), F,
                             f"every directed graph on start, end and {k} "
                             "more nodes" + (" (self loops, edges into start "
                                             "and out of end)" if k < 2
                                             else " (self loops)"), 2))
    for fx in itertools.product((False, True), repeat=3):
        out.append(PCase(f"all graphs 3 inner nodes {fx}",
                         edges_fn(3, fx), F,
                         "every directed graph on start, end and 3 more "
                         "nodes, self loops included (2^16 graphs in 8 "
                         "parts)", 8))
    if not q:
        for fx in itertools.product((False, True), repeat=4):
            out.append(PCase(f"all graphs 2 inner nodes, any edges {fx}",
                             edges_fn(2, fx, True, True), F,
                             "every directed graph on 4 nodes, edges into "
                             "start and out of end included (16 parts)", 8))
    for E in (0, 1, 2, 3) if q else (0, 1, 2, 3, 4):
        for a in (False, True):
            for f in ((None,) if E < 3 else (True, False)):
                out.append(PCase(f"{E} edges any names alias={a} first={f}",
                                 names_fn(E, a, f), F,
                                 f"{E} edges between arbitrary names; start"
                                 + (" may equal end" if a else " != end"),
                                 2 * E + 1))
    for t in TREES:
        for sub in (False, True):
            out.append(PCase(f"model {t} subpaths={sub}",
                             model_fn(t, 2, sub), FM,
                             "every connection graph on two modules; bare "
                             "string, list or tuple targets", 6))
    return out
