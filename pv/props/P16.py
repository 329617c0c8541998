"""Serialization: for every module and model configuration and every parameter
and state value, serializing and deserializing into a fresh object (in memory,
by copy, through save/load of a file) yields the same parameters, state,
trainability, hyperparameters, names and readiness, and the same output and
new state for every input; the original is unchanged.  The npz container is
modelled by an in-memory store in the symbolic runs (numpy's own packing of
values into object arrays is kept) and used for real once per configuration;
optimizer state is covered by train - save - load - resume histories."""
from .common import *
from .zoo import *
from . import trainlib as TL
import warnings, os, shutil, tempfile, contextlib, pathlib, io
warnings.filterwarnings("ignore")

ASSUMPTIONS = ["parameters handed to set_params satisfy the module's own "
               "admissibility test (np.allclose hermiticity)",
               "numpy's npz reader returns the arrays its writer was given"]
F = ["modules.basemodule.BaseModule.serialize/deserialize/copy",
     "model.Model.serialize/deserialize/save/load/from_file",
     "get/set_hyperparameters, get/set_params, get/set_state of the modules"]


class Npz(dict):
    @property
    def files(self):
        return list(self)

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


@contextlib.contextmanager
def world():
    """admissibility tests pass on symbolic values; npz files live in memory"""
    fs = {}
    keep = [(o, n, getattr(o, n)) for o, n in (
        (jnp, "savez"), (onp, "savez"), (onp, "savez_compressed"),
        (jnp, "load"), (onp, "load"), (jnp, "allclose"))]

    def key(f, suffix):
        if isinstance(f, (str, os.PathLike)):
            f = os.fspath(f)
            if suffix and not f.endswith(".npz"):
                f += ".npz"
            return f
        return id(f)

    def savez(f, *args, **kw):
        kw.pop("allow_pickle", None)
        if args:
            raise C.Unsupported("positional savez")
        fs[key(f, True)] = {k: arr(v) for k, v in kw.items()}

    def arr(v):
        if isinstance(v, jax.core.Tracer):
            return v
        return onp.asanyarray(v)

    def load(f, *a, **k):
        n = key(f, False)
        if n not in fs:
            raise FileNotFoundError(f)
        return Npz({k: (v.copy() if isinstance(v, onp.ndarray) else v)
                    for k, v in fs[n].items()})

    def allclose(a, b, *r, **k):
        return True
    try:
        for o, n, _ in keep:
            setattr(o, n, allclose if n == "allclose" else load
                    if n == "load" else savez)
        yield
    finally:
        for o, n, v in keep:
            setattr(o, n, v)


class Differ(Exception):
    pass


def same(a, b, path=""):
    """plain-data equality; symbolic arrays are compared elsewhere"""
    if isinstance(a, jax.core.Tracer) or isinstance(b, jax.core.Tracer):
        if jnp.shape(a) != jnp.shape(b):
            raise Differ(f"{path}: shape {jnp.shape(a)} != {jnp.shape(b)}")
        return
    if isinstance(a, M.BaseModule):
        if type(a) is not type(b):
            raise Differ(f"{path}: {type(a)} != {type(b)}")
        return same(a.get_hyperparameters(), b.get_hyperparameters(), path)
    if isinstance(a, dict):
        if not isinstance(b, dict) or set(a) != set(b):
            raise Differ(f"{path}: keys {a} != {b}")
        for k in a:
            same(a[k], b[k], f"{path}.{k}")
    elif isinstance(a, (list, tuple)):
        if type(a) is not type(b) or len(a) != len(b):
            raise Differ(f"{path}: {a!r} != {b!r}")
        for i, (x, y) in enumerate(zip(a, b)):
            same(x, y, f"{path}.{i}")
    elif isinstance(a, (onp.ndarray, jnp.ndarray)):
        if is_key(a):
            a, b = jax.random.key_data(a), jax.random.key_data(b)
        a, b = onp.asarray(a), onp.asarray(b)
        if a.shape != b.shape or a.dtype != b.dtype or \
                a.tobytes() != b.tobytes():
            raise Differ(f"{path}: {a!r} != {b!r}")
    elif type(a) is not type(b) and not (
            isinstance(a, (int, float, bool)) and a == b):
        raise Differ(f"{path}: {a!r} != {b!r}")
    elif isinstance(a, (int, float, complex, str, bool, type(None))):
        if a != b:
            raise Differ(f"{path}: {a!r} != {b!r}")


def is_key(x):
    return hasattr(x, "dtype") and jax.dtypes.issubdtype(
        x.dtype, jax.dtypes.prng_key)


def all_modules(m, path=""):
    yield path, m
    if isinstance(m, pmm.Model):
        fl, _ = jax.tree_util.tree_flatten_with_path(m.modules)
        for p, c in fl:
            yield from all_modules(c, path + jax.tree_util.keystr(p))


def dtypes(t):
    return [jnp.asarray(x).dtype if not is_key(x) else None
            for x in jax.tree.leaves(t)]


def compare(m, m2):
    """everything about two modules that is not a symbolic value"""
    A, B_ = list(all_modules(m)), list(all_modules(m2))
    if [p for p, _ in A] != [p for p, _ in B_]:
        raise Differ(f"modules {[p for p, _ in A]} != {[p for p, _ in B_]}")
    for (p, a), (_, b) in zip(A, B_):
        if type(a) is not type(b):
            raise Differ(f"{p}: {type(a)} != {type(b)}")
        if a is b:
            raise Differ(f"{p}: module shared with the original")
        for w in ("trainable", "name"):
            if getattr(a, w) != getattr(b, w):
                raise Differ(f"{p}: {w} {getattr(a, w)} != {getattr(b, w)}")
        if a.is_ready() != b.is_ready():
            raise Differ(f"{p}: readiness {a.is_ready()} != {b.is_ready()}")
        same(a.get_hyperparameters(), b.get_hyperparameters(), p + " hyper")
        if a.get_num_trainable_floats() != b.get_num_trainable_floats():
            raise Differ(f"{p}: trainable floats")
        if isinstance(a, pmm.Model):
            same(a.get_rng(), b.get_rng(), p + " rng")
            oa, ob = (getattr(q, "_optimizer_state", None) for q in (a, b))
            if jax.tree.structure(oa) != jax.tree.structure(ob):
                raise Differ(f"{p}: optimizer state structure")
            same(jax.tree.leaves(oa), jax.tree.leaves(ob),
                 p + " optimizer state")
    for g, w in ((m.get_params, "params"), (m.get_state, "state")):
        x, y = g(), getattr(m2, g.__name__)()
        if jax.tree.structure(x) != jax.tree.structure(y):
            raise Differ(f"{w} structure {jax.tree.structure(x)} != "
                         f"{jax.tree.structure(y)}")
        if dtypes(x) != dtypes(y):
            raise Differ(f"{w} dtypes {dtypes(x)} != {dtypes(y)}")


def run(m, x):
    st = m.get_state()
    out, new = m._get_callable()(m.get_params(), x, False, st, KEY)
    return out, jax.tree.leaves(new)


def vias(m, tmp):
    """ways to make an equal object"""
    def memory():
        d = m.serialize()
        m2 = type(m)()
        m2.deserialize(d)
        m3 = type(m)()
        m3.deserialize(d)          # the data can be used again
        compare(m2, m3)
        return m3

    def onto():
        # loading replaces whatever the object held before
        m2 = pmm.SequentialModel([M.Bias(), M.Flatten()]) if isinstance(
            m, pmm.SequentialModel) and type(m) is pmm.SequentialModel \
            else None
        if m2 is None:
            return None
        m2.compile(3, (2,))
        m2(jnp.ones((1, 2)))
        m2.deserialize(m.serialize())
        return m2

    def file(save, fs, fl, cls=None):
        def f():
            getattr(m, save)(fs)
            if cls:
                return type(m).from_file(fl)
            m2 = type(m)()
            m2.load(fl)
            return m2
        return f
    out = {"memory": memory, "copy": m.copy, "deepcopy": m.deepcopy}
    if isinstance(m, pmm.Model):
        P = pathlib.Path(tmp)
        out.update({
            "onto": onto,
            "save": file("save", tmp + "/a", tmp + "/a"),
            "save npz": file("save", tmp + "/b.npz", tmp + "/b"),
            "from_file": file("save", tmp + "/c", tmp + "/c.npz", True),
            "path": file("save", P / "d.npz", P / "d.npz", True),
            "path no suffix": file("save", P / "f", P / "f"),
            "compressed": file("save_compressed", tmp + "/e", tmp + "/e"),
        })
    return out


SYM = ("memory", "copy", "save", "compressed")


HIST = {
    "train": lambda m: m.train(jnp.ones((3, 2)), jnp.zeros((3, 2)), epochs=2,
                               batch_size=2, lr=0.1, verbose=False),
    "call": lambda m: m(jnp.ones((2, 2)), update_state=True),
    "rng": lambda m: m.set_rng(11),
    "append": lambda m: (m.append(M.Bias()), m.compile(4, (2,))),
    "precision": lambda m: m.set_precision(32),
    "freeze": lambda m: setattr(m[1], "trainable", False),
    "compile": lambda m: m.compile(9, (2,)),
    "name": lambda m: setattr(m, "name", "renamed"),
    "uncompiled": lambda m: m.insert(1, M.Bias()),
}


def case(z, wrap, hist=()):
    nm = z.name + (" in model" if wrap else "") + "".join(
        " " + h for h in hist)

    def setup():
        m = z.mk()
        if wrap:
            m = pmm.SequentialModel([m])
        m.compile(jax.random.key(7), z.shape)
        if wrap and m.is_ready():
            m.set_precision(64)
        for h in hist:
            HIST[h](m)
        m.set_params(m.get_params())
        m.set_state(m.get_state())
        # real files, once per configuration
        tmp = tempfile.mkdtemp(prefix="pv16")
        try:
            for k, f in vias(m, tmp).items():
                m2 = f()
                if m2 is None:
                    continue
                try:
                    compare(m, m2)
                    same(m.get_params(), m2.get_params(), "params")
                    same(m.get_state(), m2.get_state(), "state")
                except Differ as e:
                    raise Differ(f"{k}: {e}")
            if isinstance(m, pmm.Model):
                with open(tmp + "/h.npz", "wb") as h:
                    m.save(h)
                with open(tmp + "/h.npz", "rb") as h:
                    m2 = type(m).from_file(h)
                compare(m, m2)
        finally:
            shutil.rmtree(tmp)
        return m

    def inputs(m):
        return [pspec(m), sspec(m), z.xspec()]

    def fn(m, ps, ss, x):
        keep = m.get_params(), m.get_state()
        with world():
            try:
                put(m, ps, ss)
                if not m.is_ready():
                    for k, f in vias(m, "/nonexistent").items():
                        if k in SYM:
                            compare(m, f())
                    return (), {}, (jax.tree.leaves(m.get_params()),
                                    jax.tree.leaves(m.get_state()))
                ref = run(m, x)
                outs = {}
                for k, f in vias(m, "/nonexistent").items():
                    if k not in SYM:
                        continue
                    m2 = f()
                    compare(m, m2)
                    outs[k] = (jax.tree.leaves(m2.get_params()),
                               jax.tree.leaves(m2.get_state()), run(m2, x))
                    if isinstance(m2, pmm.Model):
                        outs[k] += ((m2(x, rng=KEY),),)
                    # the copy is independent of the original
                    if ps:
                        m2.set_params(jax.tree.map(jnp.zeros_like,
                                                   m2.get_params()))
                return ref, outs, (jax.tree.leaves(m.get_params()),
                                   jax.tree.leaves(m.get_state()))
            finally:
                m.set_params(keep[0])
                m.set_state(keep[1])

    def goals(ins, out):
        ps, ss, x = ins
        ref, outs, own = out
        gs = []
        for k, o in outs.items():
            gs += eqs(o[0], ps, f"{k} params")
            gs += eqs(o[1], ss, f"{k} state")
            gs += eqs(o[2], ref, f"{k} output")
            if len(o) > 3:
                gs += eqs(o[3][0], ref[0], f"{k} call")
        gs += eqs(own[0], ps, "original params")
        gs += eqs(own[1], ss, "original state")
        return gs
    return Case(nm, inputs, fn, goals, setup=setup, funcs=F, weight=3,
                bounds="batch of 2; all parameter, state and input values")


def resume_case(kind, opt):
    """train - save - load - resume equals train - resume"""
    def setup():
        m = pmm.SequentialModel([M.Bias(scalar=True), TL.Acc(1)] if
                                kind == "seq" else (
            pmm.SequentialModel([M.Bias()]), frozen(M.Bias()), TL.Acc(1)))
        m.compile(0, (1,))
        m.set_rng(5)
        m.set_precision(64)
        return m

    def fn(m, ps, X, Y):
        sq = lambda e, x, y, p: jnp.sum((p - y) * (p - y))
        kw = dict(loss_fn=sq, epochs=1, lr=0.5, b1=0.5, b2=0.5, eps=0.25,
                  X_val=X, Y_val=Y, val_loss_fn=lambda e, x, y, p: -1.0 * e)

        def then(m1):
            m2 = vias(m1, "/nonexistent")[opt]()
            compare(m1, m2)
            r = []
            for q in (m1, m2):
                q.train(X, Y, resume=True, verbose=False, batch_rng=0,
                        **{**kw, "epochs": 2})
                r.append((jax.tree.leaves(q.get_params()),
                          jax.tree.leaves(q.get_state())))
            return r
        with world():
            return TL.train(m, ps, X, Y, opt=then, **kw)

    def goals(ins, out):
        return eqs(out[1], out[0], "resumed")
    return Case(f"resume {kind} {opt}", lambda m: [pspec(m), S(2, 1),
                                                   S(2, 1)], fn, goals,
                setup=setup, funcs=F + ["training.OptimizerState.serialize",
                                        "training.train"], weight=6,
                bounds="1 epoch, saved, 1 more epoch")


def jobs(tier):
    out = []
    for z in zoo():
        out.append(case(z, False))
        if not z.name.startswith(("seq", "nonseq", "stateful", "spies")):
            out.append(case(z, True))
    for k in ("seq", "nested"):
        for o in ("memory", "save", "copy", "compressed"):
            out.append(resume_case(k, o))
    zh = Z("history", lambda: seq(Spy(noise=True), M.Bias(), seq(
        M.PReLU(), Acc(2)), rng=3), (2,))
    hs = [(h,) for h in HIST]
    pairs = [(g, h) for g in HIST for h in HIST if g != "uncompiled"
             and (g, h) != ("precision", "train")]
    hs += pairs if tier != "quick" else [
        p for p in pairs if "train" in p or "uncompiled" in p]
    for h in hs:
        out.append(case(zh, False, h))
    return out
