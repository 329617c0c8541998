"""mutation campaign: mutate.py OUT.jsonl PER_FILE SEED WORKERS [FILE...]
Small syntactic changes of the package, each tried in a scratch copy against
the quick checks of the properties anchored in that file (first catch ends
it).  What no check catches is listed for inspection; tools/survivors.py runs
the test suite on those."""
import ast, json, os, random, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
import queue
PKG = "/repo/parametricmatrixmodels"
PROPS = {
    "modules/_smoothing.py": ["P01"],
    "modules/affinehermitianmatrix.py": ["P01", "P16", "P22", "P23"],
    "modules/lowrankaffinehermitianmatrix.py": ["P01", "P16", "P22", "P23"],
    "modules/affinetensor.py": ["P01", "P16", "P23"],
    "eigen_util.py": ["P02", "P23"],
    "modules/eigenvalues.py": ["P02", "P16", "P23"],
    "modules/eigenvectors.py": ["P02", "P16", "P23"],
    "modules/eigensystem.py": ["P02", "P16", "P23"],
    "modules/transitionamplitudesum.py": ["P03", "P16", "P23"],
    "modules/expectationvaluesum.py": ["P03", "P16", "P23"],
    "modules/affineeigenvaluepmm.py": ["P04", "P16", "P23"],
    "modules/affineobservablepmm.py": ["P04", "P16", "P23"],
    "modules/bias.py": ["P05", "P16", "P23"],
    "modules/matmul.py": ["P05", "P16", "P23"],
    "modules/linearnn.py": ["P05", "P16", "P23"],
    "modules/constant.py": ["P05", "P16", "P23"],
    "modules/prelu.py": ["P05", "P16", "P23"],
    "modules/einsum.py": ["P05", "P16", "P23"],
    "modules/funcbase.py": ["P05", "P16", "P23"],
    "modules/activationbase.py": ["P05", "P16", "P23"],
    "modules/reshape.py": ["P06", "P16", "P23"],
    "modules/flatten.py": ["P06", "P16", "P23"],
    "modules/treeflatten.py": ["P06", "P16", "P23"],
    "modules/concatenateleaves.py": ["P06", "P16", "P23"],
    "modules/treekey.py": ["P06", "P16", "P23"],
    "modules/basemodule.py": ["P07", "P16", "P22", "P12", "P25"],
    "sequentialmodel.py": ["P07", "P23", "P16", "P17", "P25"],
    "nonsequentialmodel.py": ["P08", "P19", "P23", "P16", "P17", "P25"],
    "model.py": ["P07", "P16", "P22", "P10", "P17", "P12", "P13", "P14", "P23", "P25", "P09"],
    "model_util.py": ["P09"],
    "training.py": ["P11", "P12", "P13", "P14"],
    "preprocessing/": ["P15"],
    "graph_util.py": ["P18", "P19", "P08"],
    "tree_util.py": ["P24", "P20", "P14", "P11", "P22", "P09", "P15"],
    "conformal/conformalizedmodel.py": ["P21"],
}
SKIPFN = ("name", "__repr__", "__str__", "strfmt_pytree", "__init_subclass__",
          "_get_unready_reason", "summary")
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=",
       ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in",
       ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*",
       ast.FloorDiv: "*", ast.Pow: "*", ast.MatMult: "*", ast.Mod: "*"}


class Collect(ast.NodeVisitor):
    def __init__(self, src):
        self.src, self.out, self.skip = src, [], 0
        self.lines = src.splitlines(keepends=True)
        self.off = [0]
        for l in self.lines:
            self.off.append(self.off[-1] + len(l.encode()))
        self.b = src.encode()

    def span(self, n):
        return (self.off[n.lineno - 1] + n.col_offset,
                self.off[n.end_lineno - 1] + n.end_col_offset)

    def txt(self, n):
        a, b = self.span(n)
        return self.b[a:b].decode()

    def add(self, n, new, kind):
        a, b = self.span(n)
        self.out.append((a, b, new, kind, n.lineno))

    def visit_FunctionDef(self, n):
        if n.name in SKIPFN:
            return
        for d in n.args.defaults + n.args.kw_defaults:
            if d is not None:
                self.visit(d)
        for s in n.body:
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            self.visit(s)

    def visit_Raise(self, n):
        pass

    def visit_Assert(self, n):
        self.visit(n.test)

    def visit_AnnAssign(self, n):
        if n.value is not None:
            self.visit(n.value)

    def visit_JoinedStr(self, n):
        pass

    def visit_If(self, n):
        t = self.txt(n.test)
        if "verbose" in t:
            return
        raising = all(isinstance(s, ast.Raise) for s in n.body)
        self.add(n.test, f"(not ({t}))", "negate if")
        if raising:
            self.add(n.test, "False", "drop check")
        self.visit(n.test)
        for s in n.body + n.orelse:
            self.visit(s)

    def visit_IfExp(self, n):
        self.add(n, f"({self.txt(n.orelse)} if {self.txt(n.test)} else "
                 f"{self.txt(n.body)})", "swap ifexp")
        self.generic_visit(n)

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            self.add(n, f"({self.txt(n.left)} {CMP[type(n.ops[0])]} "
                     f"{self.txt(n.comparators[0])})", "compare")
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        o = "or" if isinstance(n.op, ast.And) else "and"
        self.add(n, "(" + f" {o} ".join(f"({self.txt(v)})" for v in n.values)
                 + ")", "boolop")
        self.add(n, f"({self.txt(n.values[0])})", "first operand")
        self.generic_visit(n)

    def visit_BinOp(self, n):
        if isinstance(n.op, (ast.BitOr,)):
            return
        if type(n.op) in BIN and not (isinstance(n.left, ast.Constant)
                                      and isinstance(n.left.value, str)):
            self.add(n, f"({self.txt(n.left)} {BIN[type(n.op)]} "
                     f"{self.txt(n.right)})", "binop")
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        self.add(n, f"({self.txt(n.operand)})", "drop unary")
        self.generic_visit(n)

    def visit_Constant(self, n):
        v = n.value
        if v is True or v is False:
            self.add(n, str(not v), "bool")
        elif type(v) is int:
            self.add(n, str(v + 1), "int+1")
            if v > 0:
                self.add(n, str(v - 1), "int-1")
        elif type(v) is float:
            self.add(n, f"({v} * 2 + 1)", "float")

    def visit_Call(self, n):
        f = self.txt(n.func)
        if f in ("print", "warnings.warn") or "ProgressBar" in f:
            return
        if isinstance(n.func, ast.Attribute) and not n.args and not \
                n.keywords and n.func.attr in (
                    "conj", "copy", "real", "squeeze", "sum", "mean"):
            self.add(n, self.txt(n.func.value), "drop method")
        if len(n.args) == 2 and not isinstance(n.args[0], ast.Lambda) \
                and not isinstance(n.args[1], ast.Starred):
            a, b = n.args
            s0, s1 = self.span(a)[0], self.span(b)[1]
            self.out.append((s0, s1, f"{self.txt(b)}, {self.txt(a)}",
                             "swap args", n.lineno))
        for k in n.keywords:
            if k.arg in ("axis", "keepdims", "argnums", "in_axes", "order",
                         "ord", "initializer", "independent", "dtype",
                         "trainable", "real", "separator", "is_leaf"):
                a, b = self.span(k.value)
                a -= len(k.arg) + 1
                e = b
                while self.b[e:e + 1] in (b",", b" "):
                    e += 1
                    if self.b[e - 1:e] == b",":
                        break
                self.out.append((a, e, "", "drop kw " + k.arg, n.lineno))
        self.generic_visit(n)

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Call):
            t = self.txt(n)
            if not t.startswith(("print", "warnings", "super", "progress",
                                 "pb.", "bar.")):
                self.add(n, "pass", "drop statement")
        self.generic_visit(n)

    def visit_Assign(self, n):
        if isinstance(n.targets[0], ast.Attribute):
            self.add(n, "pass", "drop attribute assignment")
        self.generic_visit(n)

    def visit_Continue(self, n):
        self.add(n, "pass", "drop continue")

    def visit_Lambda(self, n):
        self.visit(n.body)


def mutants(f):
    src = open(f"{PKG}/{f}").read()
    c = Collect(src)
    c.visit(ast.parse(src))
    out = []
    for a, b, new, kind, line in c.out:
        t = c.b[:a] + new.encode() + c.b[b:]
        try:
            compile(t, f, "exec")
        except SyntaxError:
            continue
        out.append(dict(file=f, line=line, kind=kind,
                        old=c.b[a:b].decode()[:120], new=new[:120],
                        a=a, b=b, full=new))
    return out


def apply(m, root):
    p = f"{root}/parametricmatrixmodels/{m['file']}"
    t = open(f"{PKG}/{m['file']}", "rb").read()
    open(p, "wb").write(t[:m["a"]] + m["full"].encode() + t[m["b"]:])
    return p


def props(f):
    for k, v in PROPS.items():
        if f == k or (k.endswith("/") and f.startswith(k)):
            return v
    return []


def main():
    out, per, seed, nw = sys.argv[1], *map(int, sys.argv[2:5])
    files = sys.argv[5:]
    if not files:
        for k in PROPS:
            if k.endswith("/"):
                files += [k + x for x in sorted(os.listdir(f"{PKG}/{k}"))
                          if x.endswith(".py") and x != "__init__.py"]
            else:
                files.append(k)
    rnd = random.Random(seed)
    todo = []
    for f in files:
        ms = mutants(f)
        rnd.shuffle(ms)
        todo += ms[:per]
    free = queue.Queue()
    for k in range(nw):
        r = f"/tmp/mut/{k}"
        shutil.rmtree(r, ignore_errors=True)
        os.makedirs(r)
        shutil.copytree(PKG, f"{r}/parametricmatrixmodels",
                        ignore=shutil.ignore_patterns("__pycache__"))
        shutil.copytree("/verif/pv", f"{r}/pv")
        shutil.copy("/verif/known-findings.txt", r)
        free.put(r)
    jobs = int(os.environ.get("MJ", 8 // nw))
    log = open(out, "a")

    def one(m):
        r = free.get()
        try:
            p = apply(m, r)
            m["res"] = {}
            for q in props(m["file"]):
                c = subprocess.run(
                    ". /opt/vp/env.sh; export XLA_FLAGS='--xla_cpu_multi_"
                    "thread_eigen=false intra_op_parallelism_threads=1'; "
                    f"cd {r}; PV_FAILFAST=1 PV_BUDGET=600 PV_JOBS={jobs} "
                    f"PYTHONPATH={r} timeout 700 /opt/venv/bin/python -m "
                    f"pv.run {q} quick 2>/dev/null", shell=True,
                    capture_output=True, text=True)
                n = c.stdout.count("INCONCLUSIVE")
                m["res"][q] = (c.returncode, n, "COULD NOT LOAD" in c.stdout)
                if c.returncode == 1 or "COULD NOT LOAD" in c.stdout:
                    m["caught"] = q
                    break
            else:
                m["caught"] = None
            shutil.copy(f"{PKG}/{m['file']}", p)
        finally:
            free.put(r)
        log.write(json.dumps(m) + "\n")
        log.flush()

    with ThreadPoolExecutor(nw) as ex:
        list(ex.map(one, todo))
    print("done", len(todo))


if __name__ == "__main__":
    main()
