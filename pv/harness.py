"""Case runner: trace real code -> symbolic execution -> solver -> replay."""
from __future__ import annotations
import os, sys, json, time, traceback, random, math, functools, copy
from fractions import Fraction
import numpy as onp

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

import jax
jax.config.update("jax_enable_x64", True)
import jax.numpy as jnp
import z3
from . import core as C
from . import jsym as J
from .core import E, B, Opq, CTX, el, const, isz, Unsupported

TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))


class Goal:
    """kind: eq (a == b), le (a <= b), true (a is a B)"""
    __slots__ = ("kind", "a", "b", "label")

    def __init__(self, kind, a, b=None, label=""):
        self.kind, self.a, self.b, self.label = kind, a, b, label

    def formula(self):
        if self.kind == "true":
            return C.tb(self.a)
        a, b = el(self.a), el(self.b)
        if self.kind == "le":
            return C.rcmp("le", a.re, b.re)
        return C.band(self._eq(a.re, b.re), self._eq(a.im, b.im))

    @staticmethod
    def _eq(x, y):
        if not isz(x) and not isz(y):
            return x == y or (C.special(x) and math.isnan(x)
                              and C.special(y) and math.isnan(y))
        if isz(x) and isz(y) and x.eq(y):
            return True
        if (not isz(x) and C.special(x)) or (not isz(y) and C.special(y)):
            return False
        return z3.simplify(C.zr(x) - C.zr(y), som=True) == 0

    def hyp(self):
        return None

    def robust_neg(self, m=Fraction(1, 16)):
        """a strictly-violated version (for replay)"""
        if self.kind == "true":
            return C.bnot(C.tb(self.a))
        a, b = el(self.a), el(self.b)
        m = C.zr(m)
        if self.kind == "le":
            return C.zr(a.re) >= C.zr(b.re) + m
        r = []
        for x, y in ((a.re, b.re), (a.im, b.im)):
            if (not isz(x) and C.special(x)) or (not isz(y) and C.special(y)):
                continue
            d = C.zr(x) - C.zr(y)
            r += [d >= m, d <= -m]
        return z3.Or(*r)

    def holds(self, tol=1e-6):
        """concrete evaluation with tolerance"""
        if self.kind == "true":
            v = C.tb(self.a)
            if isz(v):
                v = z3.is_true(z3.simplify(v))
            return bool(v)
        a, b = el(self.a), el(self.b)
        af, bf = tocx(a), tocx(b)
        if any(math.isnan(t) for t in (af.real, af.imag, bf.real, bf.imag)):
            return (cnan(af) and cnan(bf))
        if self.kind == "le":
            return af.real <= bf.real + tol * (1 + abs(bf.real))
        if af == bf:
            return True
        if math.isinf(abs(af)) or math.isinf(abs(bf)):
            return False
        return abs(af - bf) <= tol * (1 + abs(af) + abs(bf))


def cnan(z):
    return math.isnan(z.real) or math.isnan(z.imag)


def tof(x):
    if isz(x):
        x = z3.simplify(x)
        if z3.is_rational_value(x) or z3.is_int_value(x):
            return float(x.as_fraction() if not z3.is_int_value(x)
                         else x.as_long())
        raise Unsupported(f"not concrete: {x}")
    return float(x)


def tocx(e):
    return complex(tof(e.re), tof(e.im))


def is_arr(x):
    return isinstance(x, onp.ndarray)


def eqs(got, want, label="", shape_goal=True):
    """goals: two pytrees of object arrays are elementwise equal"""
    gl, gt = jax.tree_util.tree_flatten_with_path(got, is_leaf=is_arr)
    wl, wt = jax.tree_util.tree_flatten_with_path(want, is_leaf=is_arr)
    out = []
    gs = [(jax.tree_util.keystr(p), onp.asarray(v, dtype=object))
          for p, v in gl]
    ws = [(jax.tree_util.keystr(p), onp.asarray(v, dtype=object))
          for p, v in wl]
    if gt != wt:
        return [Goal("true", B(False),
                     label=f"{label} structure {gt} expected {wt}")]
    for (p, a), (_, b) in zip(gs, ws):
        if a.shape != b.shape:
            out.append(Goal("true", B(False), label=f"{label}{p} shape "
                            f"{a.shape} expected {b.shape}"))
            continue
        for i in onp.ndindex(*a.shape):
            x, y = a[i], b[i]
            lb = f"{label}{p}{list(i)}"
            if isinstance(x, (B,)) or isinstance(y, B):
                out.append(Goal("true", B(_iff(C.tb(x), C.tb(y))), label=lb))
            elif isinstance(x, Opq) or isinstance(y, Opq):
                out.append(Goal("true", B(x == y), label=lb))
            else:
                out.append(Goal("eq", x, y, label=lb))
    return out


def _iff(a, b):
    return C.bor(C.band(a, b), C.band(C.bnot(a), C.bnot(b)))


class Case:
    """One harness.

    inputs: list of pytrees with leaves (shape, kind)
    fn: jax-traceable function of the real code, outputs a pytree of arrays
    goals(ins, out) -> list[Goal]   (object arrays, symbolic or concrete)
    assume(ins) -> list of B
    """

    def __init__(self, name, inputs, fn, goals=None, ref=None, assume=None,
                 funcs=(), bounds="", lo=-4, hi=4, tol=1e-6, x64=True,
                 nonzero_div=True, expect_raise=None, positive=False,
                 gen=None, weight=1, setup=None, forks=0):
        # forks: the traced code may branch on symbolic values; up to this
        # many paths are explored, each decided by the solver
        self.forks = forks
        self.path = None
        self.name, self.inputs, self.fn = name, inputs, fn
        self.setup = setup
        if ref is not None:
            assert goals is None
            goals = lambda ins, out: eqs(out, ref(*ins))
        self.goals = goals
        self.assume = assume or (lambda ins: [])
        self.funcs = list(funcs)
        self.bounds = bounds
        self.lo, self.hi, self.tol = lo, hi, tol
        self.nonzero_div = nonzero_div
        self.gen = gen
        self.weight = weight


    f32 = False

    def spec(self, s):
        r = J.spec(*s)
        if self.f32 and r.dtype in NARROW:
            r = jax.ShapeDtypeStruct(r.shape, NARROW[r.dtype])
        return r

    def asarray(self, x):
        x = jnp.asarray(x)
        return x.astype(NARROW[x.dtype]) if self.f32 and x.dtype in NARROW \
            else x


NARROW = {jnp.dtype("float64"): jnp.dtype("float32"),
          jnp.dtype("complex128"): jnp.dtype("complex64")}


def f32s(cases):
    """the same harnesses with all inputs in single precision (the values
    are still exact reals: this is about code that looks at dtypes)"""
    out = []
    for c in cases:
        if type(c) is not Case:
            continue
        d = copy.copy(c)
        d.name += " f32"
        d.f32 = True
        d.tol = max(c.tol, 2e-3)
        out.append(d)
    return out


def load_jobs(mod, tier):
    jobs = mod.jobs(tier)
    f = getattr(mod, "F32", None)
    if f is not None:
        jobs = jobs + f32s([j for j in jobs if f(j)])
    return jobs


def is_spec(x):
    return isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], str) \
        and isinstance(x[0], tuple)


def leafmap(f, t):
    return jax.tree.map(f, t, is_leaf=is_spec)


def model_value(m, t):
    v = m.eval(t, model_completion=True)
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_rational_value(v):
        return v.as_fraction()
    if z3.is_algebraic_value(v):
        return v.approx(20).as_fraction()
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    raise Unsupported(f"model value {v}")


def inst(sarr, m):
    """instantiate a symbolic input array under a model -> jnp array"""
    flat = sarr.reshape(-1)
    if flat.size == 0:
        return onp.zeros(sarr.shape)
    if isinstance(flat[0], B):
        return onp.array([bool(model_value(m, e.v)) for e in flat]).reshape(
            sarr.shape)
    if isz(flat[0].im):
        return onp.array([complex(float(model_value(m, e.re)),
                                  float(model_value(m, e.im)))
                          for e in flat], dtype=complex).reshape(sarr.shape)
    if z3.is_int(flat[0].re):
        return onp.array([int(model_value(m, e.re)) for e in flat],
                         dtype=onp.int32).reshape(sarr.shape)
    return onp.array([float(model_value(m, e.re)) for e in flat],
                     dtype=float).reshape(sarr.shape)


def to_const(t):
    """concrete pytree -> pytree of const object arrays"""
    return jax.tree.map(lambda x: const(jnp.asarray(x) if not hasattr(
        x, "dtype") else x), t)


class Concrete:
    """context manager: uninterpreted functions evaluate on constants"""

    def __enter__(self):
        self.uf = C.uf
        C.uf = conc_uf
        self.jr = J.C.ruf
        C.ruf = conc_ruf
        self.q = C.isqrt_mode if hasattr(C, "isqrt_mode") else None
        E.CONC = True
        return self

    def __exit__(self, *a):
        C.uf = self.uf
        C.ruf = self.jr
        E.CONC = False


E_CONC = False
import cmath


def conc_ruf(name, *args):
    raise Unsupported(f"concrete {name}")


def conc_uf(name, a, *rest):
    a = el(a)
    z = tocx(a)
    if name == "pow":
        r = z ** tocx(el(rest[0]))
        return el(r.real if a.isreal and z.real >= 0 else r)
    if name == "atan2":
        return el(math.atan2(z.real, tocx(el(rest[0])).real))
    if name == "bessel_i0e":
        return el(float(jax.scipy.special.i0e(z.real)))
    if a.isreal:
        x = z.real
        try:
            f = {"sqrt": math.sqrt, "exp": math.exp, "log": math.log,
                 "cbrt": math.cbrt, "tanh": math.tanh, "sin": math.sin,
                 "cos": math.cos, "tan": math.tan, "erf": math.erf,
                 "erfc": math.erfc, "atan": math.atan, "sinh": math.sinh,
                 "cosh": math.cosh, "asinh": math.asinh, "asin": math.asin,
                 "acos": math.acos, "atanh": math.atanh,
                 "acosh": math.acosh, "lgamma": math.lgamma}[name]
        except KeyError:
            raise Unsupported(f"concrete {name}")
        try:
            return el(f(x))
        except ValueError:
            return el(-math.inf if name == "log" and x == 0 else math.nan)
        except OverflowError:
            return el(math.inf)
    return el({"sqrt": cmath.sqrt, "exp": cmath.exp}[name](z))


def rand_inputs(case, rng):
    if case.gen is not None:
        return case.gen(rng)

    def one(s):
        shape, kind = s
        n = int(onp.prod(shape)) if shape else 1

        def r():
            v = onp.array([rng.uniform(case.lo, case.hi) for _ in range(n)])
            if rng.random() < 0.3:
                v = onp.round(v)
            return v.reshape(shape)
        if kind == "complex":
            return r() + 1j * r()
        if kind == "int":
            return onp.array([rng.randint(int(max(case.lo, -4)),
                                          int(min(case.hi, 6)))
                              for _ in range(n)],
                             dtype=onp.int32).reshape(shape)
        if kind == "bool":
            return onp.array([rng.random() < .5 for _ in range(n)]
                             ).reshape(shape)
        return r()
    return leafmap(one, case.inputs)


def check_concrete(case, cins, seeds=1):
    """run the real code on concrete inputs, with several keys where the case
    draws from one; returns (violations, info)"""
    C.SEED[:] = [0, False]
    try:
        bad, info = check_once(case, cins)
        for k in range(1, seeds):
            if bad or not C.SEED[1]:
                break
            C.SEED[0] = k
            b, i = check_once(case, cins)
            if b:
                return [x + f" (seed {k})" for x in b], i
    finally:
        C.SEED[0] = 0
    return bad, info


def check_once(case, cins):
    if case.f32:        # inputs that single precision can hold
        cins = [jax.tree.map(lambda x: onp.asarray(case.asarray(x)).astype(
            jnp.asarray(x).dtype), t) for t in cins]
    with Concrete():
        ob = [leafconst(t) for t in cins]
        for a in case.assume(ob):
            v = C.tb(a)
            if isz(v):
                v = z3.is_true(z3.simplify(v))
            if not v:
                return None, "assumption not met"
    jin = [jax.tree.map(case.asarray, t) for t in cins]
    try:
        out = case.fn(*jin)
        out = jax.tree.map(lambda x: onp.asarray(x) if not is_key(x) else x,
                           out)
    except Unsupported as e:      # the harness cannot drive this code
        return None, str(e)
    except Exception as e:
        if C.harness_error(e):
            return None, f"harness: {e}"
        return [f"raised {type(e).__name__}: {str(e)[:300]}"], None
    with Concrete():
        gs = case.goals(ob, jax.tree.map(const, out))
        bad = [g for g in gs if not g.holds(case.tol)]
    return [describe(g) for g in bad], None


def is_key(x):
    return hasattr(x, "dtype") and jax.dtypes.issubdtype(
        x.dtype, jax.dtypes.prng_key)


def leafconst(t):
    return jax.tree.map(lambda x: const(onp.asarray(x)), t)


def describe(g):
    try:
        if g.kind == "true":
            return g.label or "condition false"
        return f"{g.label}: got {tocx(el(g.a))} expected " \
            f"{'<= ' if g.kind == 'le' else ''}{tocx(el(g.b))}"
    except Exception:
        return g.label


def ser(t):
    if t is None:
        return None

    def f(x):
        x = onp.asarray(x)
        if onp.iscomplexobj(x):
            return {"re": x.real.tolist(), "im": x.imag.tolist()}
        return x.tolist()
    return jax.tree.map(f, t)


def nonvac_key(x):
    return x


class Fork:
    """while tracing: operations on concrete values run at once, operations on
    symbolic values go to the jaxpr, and the truth value of a symbolic value
    is taken from the given decisions (False beyond them) and recorded"""

    def __init__(self, decisions):
        self.dec, self.conds = list(decisions), []

    def wrap(self, fn):
        from jax._src import core

        def g(*args):
            outer = core.trace_ctx.trace
            ET = core.EvalTrace
            orig, ob = ET.process_primitive, core.Tracer.__bool__

            def pp(tr, prim, a, params, /):
                if any(isinstance(x, core.Tracer) for x in a):
                    with core.set_current_trace(outer):
                        return prim.bind(*a, **params)
                return orig(tr, prim, a, params)

            def boolean(tr):
                if tr._trace is not outer or tr.shape != ():
                    return ob(tr)
                i = len(self.conds)
                if i >= len(self.dec):
                    self.dec.append(False)
                self.conds.append(tr)
                return self.dec[i]
            ET.process_primitive = pp
            core.Tracer.__bool__ = boolean
            self.raised = None
            try:
                with jax.ensure_compile_time_eval():
                    o = fn(*args)
            except Unsupported:
                raise
            except Exception as e:
                if not self.conds:
                    raise
                self.raised, o = e, ()
            finally:
                ET.process_primitive = orig
                core.Tracer.__bool__ = ob
            return o, [jnp.asarray(c).astype(bool) for c in self.conds]
        return g


def run_case(case, tier):
    if not case.forks:
        return run_path(case, tier)
    todo, n, agg = [[]], 0, None
    t0 = time.time()
    infeasible = 0
    while todo:
        d = todo.pop()
        if n >= case.forks or time.time() - t0 > (
                150 if tier == "quick" else 900):
            agg["notes"].append(f"{len(todo) + 1} paths not explored")
            agg["status"] = "inconclusive"
            break
        case.path = d
        r = run_path(case, tier)
        n += 1
        for i in range(len(d), len(case.taken)):
            if not r.get("prune"):
                todo.append(case.taken[:i] + [not case.taken[i]])
        if r.get("infeasible"):
            infeasible += 1
        if agg is None:
            agg = r
        else:
            for k in ("queries", "unsat", "goals", "validated", "solver_s"):
                agg[k] += r[k]
            agg["notes"] = sorted(set(agg["notes"]) | set(r["notes"]))
            if r["status"] != "held" and agg["status"] != "violated":
                agg["status"] = r["status"]
                agg["violations"] = r["violations"]
        if agg["status"] == "violated":
            break
    agg["paths"] = n
    agg["wall_s"] = time.time() - t0
    if infeasible == n and agg["status"] == "held":
        agg["status"] = "inconclusive"
        agg["notes"].append("no feasible path")
    return agg


def run_path(case, tier):
    """returns a result dict"""
    t0 = time.time()
    CTX.reset()
    case.taken = list(case.path or [])
    res = dict(name=case.name, funcs=case.funcs, bounds=case.bounds,
               queries=0, unsat=0, goals=0, solver_s=0.0, status="held",
               notes=[], validated=0, violations=[])
    rng = random.Random(SEED * 7919 + hash(case.name) % 1000
                        if False else SEED * 7919 + sum(map(ord, case.name)))
    qto = (20 if tier == "quick" else 120) * 1000
    if case.setup is not None and not hasattr(case, "ctx"):
        # real code that prepares the object under test (outside tracing)
        try:
            case.ctx = case.setup()
        except Exception as e:
            if C.harness_error(e):
                res["status"] = "inconclusive"
                res["notes"].append(f"harness: {e}")
                return res
            return mark(res, None, ["setup raised " + type(e).__name__ + ": "
                        + str(e)[:300]], t0, "valid configuration rejected")
        case.fn = functools.partial(case.fn, case.ctx)
        if callable(case.inputs):
            case.inputs = case.inputs(case.ctx)
    try:
        sins = []
        cnt = [0]

        def mk(s):
            cnt[0] += 1
            return C.sym(f"x{cnt[0]}", s[0], s[1])
        sins = [leafmap(mk, t) for t in case.inputs]
        specs = [leafmap(case.spec, t) for t in case.inputs]
        try:
            if case.path is not None:
                fk = Fork(case.path)
                case.taken = fk.dec
                cj, td = J.trace(fk.wrap(case.fn), specs)
            else:
                cj, td = J.trace(case.fn, specs)
        except Exception as e:
            # the real code rejects an abstract valid input: confirm concretely
            return confirm_raise(case, rng, res, e, t0)
        flat = []
        for t in sins:
            flat.extend(jax.tree.leaves(t, is_leaf=is_arr))
        if case.path and infeasible(case, fk, cj, flat, sins, res):
            res["infeasible"] = True
            res["wall_s"] = time.time() - t0
            return res
        try:
            outs = J.eval_jaxpr(cj.jaxpr, [const(c) for c in cj.consts], flat)
        except Unsupported as e:
            return fallback(case, rng, res, f"unsupported: {e}", t0)
        out = jax.tree.unflatten(td, outs)
        pcs = []
        if case.path is not None:
            out, conds = out
            pcs = [c.reshape(-1)[0] if t else ~c.reshape(-1)[0]
                   for c, t in zip(conds, case.taken)]
            if fk.raised is not None:
                return raised_path(case, rng, res, fk.raised, pcs, sins, t0)
        # translator validation on a concrete input
        for _ in range(1 if tier == "quick" else 3):
            cins = rand_inputs(case, rng)
            with Concrete():
                ok = all(concrete_true(a) for a in
                         case.assume([leafconst(t) for t in cins]))
            if not ok:
                continue
            v = validate(case, cj, td, cins)
            if v is None:
                continue
            if v:
                res["validated"] += 1
            else:
                return fallback(case, rng, res,
                                "encoding disagrees with execution", t0)
        gs = case.goals(sins, out)
        asm = [C.tb(a) for a in case.assume(sins)]
        asm += [C.tb(a) for a in pcs]
        res["goals"] = len(gs)
        s = z3.Solver()
        s.set("timeout", qto)
        pre = [a if isz(a) else z3.BoolVal(bool(a)) for a in asm]
        pre += CTX.axioms
        if case.nonzero_div:
            pre += [d != 0 for d in CTX.divisors]
            if CTX.divisors:
                res["notes"].append("divisors assumed nonzero")
        for p in pre:
            s.add(p)
        # vacuity twin: the assumptions must be satisfiable
        ts = time.time()
        asm_only = [p for p in pre if not any(p is x for x in CTX.axioms)]
        sv = z3.Solver()
        sv.set("timeout", 8000)
        for p in asm_only + relevant(CTX.axioms, asm_only):
            sv.add(p)
        vac = sv.check()
        res["solver_s"] += time.time() - ts
        res["queries"] += 1
        res["vacuity"] = str(vac)
        if vac == z3.unsat and case.path is not None and case.taken:
            res["infeasible"] = True
            res["wall_s"] = time.time() - t0
            return res
        if vac == z3.unsat:
            return fallback(case, rng, res, "vacuous assumptions", t0)
        fs = [(g, g.formula()) for g in gs]
        pend = [(g, f) for g, f in fs if isz(f) or not f]
        triv = len(fs) - len(pend)
        res["folded"] = triv
        neg = [z3.Not(f) if isz(f) else z3.BoolVal(True) for _, f in pend]
        verdict = z3.unsat
        # first with only the axioms that share uninterpreted applications
        # with the goals (dropping premises is sound for unsat)
        negall = z3.Or(*neg) if neg else z3.BoolVal(False)
        model = None
        done = False
        rel = CTX.axioms
        if any(g.hyp() is not None for g, _ in pend):
            s.set("timeout", 6000)
        if CTX.axioms and neg:
            rel = relevant(CTX.axioms, [negall] + [a for a in pre if not any(
                a is x for x in CTX.axioms)])
            if len(rel) < len(CTX.axioms):
                s1 = z3.Solver()
                s1.set("timeout", 6000)
                for p in pre:
                    if not any(p is x for x in CTX.axioms):
                        s1.add(p)
                for p in rel:
                    s1.add(p)
                s1.add(negall)
                ts = time.time()
                done = s1.check() == z3.unsat
                res["solver_s"] += time.time() - ts
                res["queries"] += 1
        if not done and neg and CTX.divisors:
            # products and quotients as uninterpreted functions (an
            # over-approximation, so unsat carries over)
            ab = Abstract()
            s2 = z3.SolverFor("QF_UFLRA")
            s2.set("timeout", 15000)
            for p in pre:
                s2.add(ab(p))
            s2.add(ab(negall))
            for x in ab.axioms:
                s2.add(x)
            ts = time.time()
            done = s2.check() == z3.unsat
            res["solver_s"] += time.time() - ts
            res["queries"] += 1
        # one query over all goals (also when all folded: records the verdict)
        if not done:
            s.push()
            s.add(negall)
            ts = time.time()
            verdict = s.check()
            res["solver_s"] += time.time() - ts
            res["queries"] += 1
            model = s.model() if verdict == z3.sat else None
            s.pop()
        if verdict == z3.unsat:
            res["unsat"] += 1
            res["status"] = "held"
        elif verdict == z3.unknown:
            # goal by goal
            unk = []
            s.set("timeout", qto)
            pre1 = [p for p in pre if not any(p is x for x in CTX.axioms)]
            pre1 += list(rel)
            for (g, f), n in zip(pend, neg):
                s.push()
                s.add(n)
                ts = time.time()
                if split_proves(g, f, pre1, res, t0):
                    r = z3.unsat
                else:
                    r = s.check()
                    res["queries"] += 1
                res["solver_s"] += time.time() - ts
                if r == z3.unsat:
                    res["unsat"] += 1
                elif r == z3.sat:
                    verdict = z3.sat
                    model = s.model()
                    s.pop()
                    break
                else:
                    unk.append(g.label)
                s.pop()
                if time.time() - t0 > (90 if tier == "quick" else 600):
                    unk.append("time")
                    break
            if verdict != z3.sat:
                if unk:
                    return fallback(case, rng, res,
                                    f"solver unknown on {unk[:3]}", t0)
                res["status"] = "held"
        if verdict == z3.sat:
            return replay(case, rng, res, s, pend, model, sins, t0)
    except Unsupported as e:
        return fallback(case, rng, res, f"unsupported: {e}", t0)
    except Exception as e:
        return fallback(case, rng, res, "harness error: "
                        + traceback.format_exc()[-600:], t0)
    res["notes"] += sorted(CTX.notes)
    res["prims"] = sorted(CTX.prims)
    res["wall_s"] = time.time() - t0
    return res


def infeasible(case, fk, cj, flat, sins, res):
    """are the branch decisions of this path contradictory? (decided from the
    part of the trace that computes them, before anything else is encoded)"""
    from jax.interpreters import partial_eval as pe
    n = len(fk.conds)
    no = len(cj.jaxpr.outvars)
    try:
        jx, used = pe.dce_jaxpr(cj.jaxpr, [i >= no - n for i in range(no)],
                                instantiate=True)
        outs = J.eval_jaxpr(jx, [const(c) for c in cj.consts], flat)
    except Unsupported:
        return False
    pcs = [c.reshape(-1)[0] if t else ~c.reshape(-1)[0]
           for c, t in zip(outs, fk.dec)]
    asm = list(case.assume(sins))
    # the decisions this path was started with: if they already contradict
    # each other nothing below them needs exploring
    if contradictory(pcs[:len(case.path)] + asm, res):
        res["prune"] = True
        return True
    return len(pcs) > len(case.path) and contradictory(pcs + asm, res)


def contradictory(conds, res):
    pre = []
    for a in conds:
        a = C.tb(a)
        if isz(a):
            pre.append(a)
        elif not a:
            return True
    ax = relevant(CTX.axioms, pre)
    ts = time.time()
    ok = False
    for mode in ("abstract", "exact"):
        if mode == "abstract":
            ab = Abstract()
            s = z3.SolverFor("QF_UFLRA")
            s.set("timeout", 3000)
            for p in pre + list(ax):
                s.add(ab(p))
            for x in ab.axioms:
                s.add(x)
        else:
            s = z3.Solver()
            s.set("timeout", 5000)
            for p in pre + list(ax):
                s.add(p)
        res["queries"] += 1
        r = s.check()
        if r == z3.unsat:
            ok = True
            res["unsat"] += 1
            break
        if mode == "exact":
            res["pathsat"] = str(r)
    res["solver_s"] += time.time() - ts
    return ok


class Abstract:
    """replace nonlinear products, powers and quotients of reals by
    uninterpreted functions"""

    def __init__(self):
        R = z3.RealSort()
        self.mul = z3.Function("abs!mul", R, R, R)
        self.div = z3.Function("abs!div", R, R, R)
        self.memo, self.axioms, self.keep = {}, [], []

    def __call__(self, t):
        t = z3.simplify(t, som=True)
        self.keep.append(t)
        return self.go(t)

    def prod(self, fs):
        fs = sorted(fs, key=lambda x: x.get_id())
        r = fs[0]
        for x in fs[1:]:
            r0, r = r, self.mul(r, x)
            if r0.eq(x):
                self.axioms.append(r >= 0)
        self.keep.append(r)
        return r

    def go(self, t):
        i = t.get_id()
        if i in self.memo:
            return self.memo[i]
        if not z3.is_app(t) or not t.num_args():
            r = t
        else:
            k = t.decl().kind()
            ch = [self.go(c) for c in t.children()]
            if k == z3.Z3_OP_MUL and z3.is_real(t):
                cs = [c for c in ch if z3.is_rational_value(c)]
                vs = [c for c in ch if not z3.is_rational_value(c)]
                r = self.prod(vs) if vs else z3.RealVal(1)
                for c in cs:
                    r = c * r
            elif k == z3.Z3_OP_DIV and not z3.is_rational_value(ch[1]):
                r = self.div(ch[0], ch[1])
            elif k == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]) and \
                    ch[1].as_fraction().denominator == 1 and \
                    1 <= ch[1].as_fraction() <= 12:
                r = self.prod([ch[0]] * int(ch[1].as_fraction()))
            else:
                r = t.decl()(*ch)
        self.memo[i] = r
        self.keep.append(r)
        return r


def raised_path(case, rng, res, e, pcs, sins, t0):
    """the code raised under these branch decisions: is the path feasible?"""
    s = z3.Solver()
    s.set("timeout", 10000)
    for a in [C.tb(x) for x in case.assume(sins)] + [C.tb(p) for p in pcs]:
        s.add(a if isz(a) else z3.BoolVal(bool(a)))
    for a in CTX.axioms:
        s.add(a)
    res["queries"] += 1
    r = s.check()
    if r == z3.unsat:
        res["infeasible"] = True
        res["wall_s"] = time.time() - t0
        return res
    if r == z3.sat:
        m = s.model()
        try:
            cins = [jax.tree.map(lambda a: inst(a, m), t, is_leaf=is_arr)
                    for t in sins]
            bad, _ = check_concrete(case, cins)
            if bad:
                return mark(res, cins, bad, t0, "solver counterexample")
        except Unsupported:
            pass
    return fallback(case, rng, res, f"path raises {type(e).__name__}: "
                    f"{str(e)[:200]}", t0)


def ite_cond(t):
    """an innermost if-then-else condition occurring in t, or None"""
    seen, st, found = set(), [t], None
    while st:
        u = st.pop()
        i = u.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(u):
            if u.decl().kind() == z3.Z3_OP_ITE:
                found = u.arg(0)
                st = [found]
                continue
            st.extend(u.children())
    return found


def split_proves(g, f, pre, res, t0, maxn=64):
    """decide a goal by splitting on its if-then-else conditions; every leaf
    is a solver query.  True only if every leaf is unsat"""
    if not isz(f) or g.kind != "eq" or ite_cond(f) is None:
        return False
    h = g.hyp()
    a, b = el(g.a), el(g.b)
    lin = z3.Solver()
    lin.set("timeout", 3000)
    goal0 = []
    for x, y in ((a.re, b.re), (a.im, b.im)):
        if (not isz(x) and C.special(x)) or (not isz(y) and C.special(y)):
            return False
        goal0.append(C.zr(x) - C.zr(y))
    base = list(pre) + ([h] if h is not None and isz(h) else [])
    for p in base:
        lin.add(p)
    cnt = [0]

    def q(sol, *x):
        res["queries"] += 1
        return sol.check(*x)

    def rec(ts):
        cnt[0] += 1
        if cnt[0] > maxn or time.time() - t0 > 300:
            return False
        ts = [z3.simplify(t, som=True) for t in ts]
        ts = [t for t in ts if not (z3.is_rational_value(t)
                                    and t.as_fraction() == 0)]
        if not ts:
            return True
        c = None
        for t in ts:
            c = ite_cond(t)
            if c is not None:
                break
        if c is None:
            lin.push()
            lin.add(z3.Or(*[t != 0 for t in ts]))
            r = q(lin) == z3.unsat
            lin.pop()
            return r
        for val in (True, False):
            lin.push()
            lin.add(c if val else z3.Not(c))
            if q(lin) != z3.unsat:
                if not rec([z3.substitute(t, (c, z3.BoolVal(val)))
                            for t in ts]):
                    lin.pop()
                    return False
            lin.pop()
        return True
    try:
        return rec(goal0)
    except z3.Z3Exception:
        return False


def ufapps(f, memo):
    """ids of uninterpreted function applications in f"""
    out, seen, st = set(), set(), [f]
    while st:
        t = st.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(t):
            if t.num_args() and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(i)
            st.extend(t.children())
    return out


def relevant(axioms, goals):
    have = set()
    for g in goals:
        have |= ufapps(g, None)
    apps = [(a, ufapps(a, None)) for a in axioms]
    rel = []
    changed = True
    while changed:
        changed = False
        rest = []
        for a, u in apps:
            if not u or u & have:
                rel.append(a)
                if not u <= have:
                    have |= u
                    changed = True
            else:
                rest.append((a, u))
        apps = rest
    return rel


def concrete_true(a):
    v = C.tb(a)
    if isz(v):
        v = z3.is_true(z3.simplify(v))
    return bool(v)


def validate(case, cj, td, cins):
    flat = []
    for t in cins:
        flat.extend(jax.tree.leaves(t))
    try:
        with Concrete():
            so = J.eval_jaxpr(cj.jaxpr, [const(c) for c in cj.consts],
                              [const(onp.asarray(x)) for x in flat])
    except (Unsupported, ZeroDivisionError):
        return None
    if case.path is not None:
        nb = len(case.taken)
        for c, t in zip(so[len(so) - nb:], case.taken):
            v = C.tb(c.reshape(-1)[0])
            if isz(v) or bool(v) != t:
                return None
        so = so[:len(so) - nb]
    try:
        ro = jax.tree.leaves(case.fn(*[jax.tree.map(case.asarray, t)
                                       for t in cins]))
    except Exception:
        return None
    for a, b in zip(so, ro):
        if is_key(b):
            continue
        b = onp.asarray(b)
        for i in onp.ndindex(*b.shape):
            x = a[i]
            if isinstance(x, Opq):
                continue
            if isinstance(x, B):
                if isz(x.v) or bool(x.v) != bool(b[i]):
                    return False
                continue
            try:
                z = tocx(x)
            except Unsupported:
                return None
            w = complex(b[i])
            if cnan(z) or cnan(w) or math.isinf(abs(z)) or math.isinf(abs(w)):
                continue
            if abs(z - w) > max(1e-5, case.tol if case.f32 else 0) * (
                    1 + abs(z) + abs(w)):
                return False
    return True


def mark(res, cins, bad, t0, how):
    res["status"] = "violated"
    res["violations"] = [dict(inputs=ser(cins), what=bad[:8], how=how)]
    res["wall_s"] = time.time() - t0
    res["prims"] = sorted(CTX.prims)
    return res


def replay(case, rng, res, s, pend, model, sins, t0):
    cands = []
    # prefer a model with moderate values and a clear difference
    vars_ = []
    for t in sins:
        for a in jax.tree.leaves(t, is_leaf=is_arr):
            for e in a.reshape(-1):
                if isinstance(e, E):
                    for p in (e.re, e.im):
                        if isz(p):
                            vars_.append(p)
    s.set("timeout", 10000)
    for box, m in ((4, Fraction(1, 4)), (64, Fraction(1, 16)), (None, None)):
        s.push()
        if box is not None:
            for v in vars_:
                s.add(v >= -box, v <= box)
            s.add(z3.Or(*[g.robust_neg(m) if isz(f) else z3.BoolVal(True)
                          for g, f in pend]))
            r = s.check()
            res["queries"] += 1
            if r == z3.sat:
                cands.append(s.model())
        else:
            cands.append(model)
        s.pop()
    for m in cands:
        try:
            cins = [jax.tree.map(lambda a: inst(a, m), t, is_leaf=is_arr)
                    for t in sins]
        except Unsupported:
            continue
        bad, _ = check_concrete(case, cins, 6)
        if bad:
            return mark(res, cins, bad, t0, "solver counterexample")
    return fallback(case, rng, res, "counterexample did not replay", t0)


def confirm_raise(case, rng, res, e, t0):
    for _ in range(20):
        cins = rand_inputs(case, rng)
        bad, info = check_concrete(case, cins)
        if bad is None:
            continue
        if bad:
            return mark(res, cins, bad, t0, "real code rejected valid input "
                        f"while tracing: {type(e).__name__}: {str(e)[:300]}")
        break
    res["status"] = "inconclusive"
    res["notes"].append(f"trace failed: {type(e).__name__}: {str(e)[:300]}")
    res["wall_s"] = time.time() - t0
    return res


def fallback(case, rng, res, why, t0):
    """not decided symbolically: probe the real code; report only a real
    violation, otherwise inconclusive"""
    res["notes"].append(why)
    try:
        for _ in range(12):
            cins = rand_inputs(case, rng)
            bad, info = check_concrete(case, cins, 4)
            if bad:
                return mark(res, cins, bad, t0, f"concrete probe ({why[:80]})")
    except Exception as e:
        res["notes"].append("probe failed: " + traceback.format_exc()[-400:])
    res["status"] = "inconclusive"
    res["wall_s"] = time.time() - t0
    return res


# ------------------------------------------------------------------- checks
def load_known():
    p = os.path.join(ROOT, "known-findings.txt")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("KNOWN-FINDING:"):
                out.append(line)
    return out


Case.run = lambda self, tier: run_case(self, tier)


def worker(prop, tier, names, q):
    import importlib
    mod = importlib.import_module(f"pv.props.{prop}")
    jobs = {j.name: j for j in load_jobs(mod, tier)}
    for n in names:
        q.put(("start", n, os.getpid()))
        try:
            r = jobs[n].run(tier)
        except BaseException as e:   # never lose a result
            if isinstance(e, KeyboardInterrupt):
                raise
            r = dict(name=n, status="inconclusive",
                     notes=["worker error " + traceback.format_exc()[-500:]])
        q.put(("done", n, r))
    q.put(("end", None, os.getpid()))
