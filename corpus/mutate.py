"""Run the checks on mechanical one-place changes of the package.

``python3 -m corpus.mutate FILE.py [every N]`` prints, for each change that no
check reports, whether it was passed or left undecided.  Changes of this kind
often keep the behaviour, or do not reach any property; the list is for
reading, not for counting.
"""
import ast
import concurrent.futures as cf
import copy
import os
import random
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"

SWAPS = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.MatMult: ast.Mult, ast.Pow: ast.Mult,
         ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt,
         ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}


def is_doc(st):
    return isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant) and isinstance(st.value.value, str)


def changes(tree):
    """Yield (description, function that changes a copy of the tree in place)."""
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Raise, ast.Import, ast.ImportFrom)):
            skip |= {id(x) for x in ast.walk(n)}
        if isinstance(n, ast.arg) and n.annotation:
            skip |= {id(x) for x in ast.walk(n.annotation)}
        if isinstance(n, ast.FunctionDef) and n.returns:
            skip |= {id(x) for x in ast.walk(n.returns)}
        if isinstance(n, ast.AnnAssign):
            skip |= {id(x) for x in ast.walk(n.annotation)}
    nodes = list(ast.walk(tree))
    func = {}
    for fn in nodes:
        if isinstance(fn, ast.FunctionDef):
            for x in ast.walk(fn):
                func[id(x)] = fn
    rnd = random.Random(5)
    for i, n in enumerate(nodes):
        if id(n) in skip:
            continue
        line = getattr(n, "lineno", 0)

        def emit(what, f, n=n, i=i, line=line):
            try:
                src = ast.unparse(n).split("\n")[0][:70]
            except Exception:
                src = type(n).__name__
            return (f"{line}: {what}: {src}", i, f)

        if isinstance(n, ast.Call):
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args[:2]):
                yield emit("swap arguments", lambda m: m.args.__setitem__(slice(0, 2), m.args[1::-1]))
            if len(n.args) >= 3 and not any(isinstance(a, ast.Starred) for a in n.args):
                yield emit("swap last arguments", lambda m: m.args.__setitem__(slice(-2, None), m.args[:-3:-1]))
            if len(n.args) >= 2:
                yield emit("drop last argument", lambda m: m.args.pop())
            for k, kw in enumerate(n.keywords):
                yield emit(f"drop keyword {kw.arg}", lambda m, k=k: m.keywords.pop(k))
            if len(n.args) == 1 and not n.keywords and not isinstance(n.args[0], ast.Starred):
                yield emit("call -> argument", "arg")
        if isinstance(n, ast.BinOp):
            if type(n.op) in SWAPS:
                yield emit("operator", lambda m: setattr(m, "op", SWAPS[type(m.op)]()))
            if isinstance(n.op, (ast.Sub, ast.Div, ast.MatMult)):
                def sw(m):
                    m.left, m.right = m.right, m.left
                yield emit("swap operands", sw)
            yield emit("left only", "left")
            yield emit("right only", "right")
        if isinstance(n, ast.UnaryOp):
            yield emit("drop unary", "operand")
        if isinstance(n, ast.Compare) and type(n.ops[0]) in SWAPS:
            yield emit("comparison", lambda m: m.ops.__setitem__(0, SWAPS[type(m.ops[0])]()))
        if isinstance(n, ast.BoolOp):
            yield emit("and/or", lambda m: setattr(m, "op", ast.Or() if isinstance(m.op, ast.And) else ast.And()))
            for k in range(len(n.values)):
                if len(n.values) > 1:
                    def dv(m, k=k):
                        m.values.pop(k)
                    yield emit(f"drop operand {k}", dv)
        if isinstance(n, (ast.If, ast.IfExp)):
            def ng(m):
                m.test = ast.UnaryOp(ast.Not(), m.test)
            yield emit("negate test", ng)
        if isinstance(n, ast.Constant):
            if n.value is True or n.value is False:
                yield emit("flip", lambda m: setattr(m, "value", not m.value))
            elif isinstance(n.value, (int, float)):
                yield emit("constant + 1", lambda m: setattr(m, "value", m.value + 1))
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and isinstance(n.slice, (ast.Slice, ast.Tuple)):
            yield emit("drop subscript", "value")
        if isinstance(n, ast.comprehension) and n.ifs:
            yield emit("drop filter", lambda m: m.ifs.pop())
        if isinstance(n, ast.Starred) and isinstance(n.ctx, ast.Load):
            pass
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and id(n) in func:
            fn = func[id(n)]
            names = sorted({x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.lineno < line}
                           | {a.arg for a in ast.walk(fn) if isinstance(a, ast.arg)})
            if n.id in names and len(names) > 1:
                other = rnd.choice([x for x in names if x != n.id])
                yield emit(f"name -> {other}", lambda m, o=other: setattr(m, "id", o))
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and n.attr in ("inputs", "outputs"):
            yield emit("inputs/outputs", lambda m: setattr(m, "attr", "outputs" if m.attr == "inputs" else "inputs"))
        for field in ("body", "orelse"):
            body = getattr(n, field, None)
            if isinstance(body, list):
                for k, st in enumerate(body):
                    if is_doc(st) or isinstance(st, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom, ast.Raise, ast.Pass, ast.AnnAssign)):
                        continue
                    if isinstance(st, ast.Assign) and isinstance(st.targets[0], ast.Name) and id(st) not in func:
                        continue

                    def dl(m, k=k, field=field):
                        getattr(m, field)[k] = ast.Pass()
                    s = ast.unparse(st).split("\n")[0][:70]
                    yield (f"{st.lineno}: delete: {s}", i, dl)


class Replace(ast.NodeTransformer):
    def __init__(self, target, attr):
        self.target, self.attr = target, attr

    def visit(self, node):
        if node is self.target:
            return node.args[0] if self.attr == "arg" else getattr(node, self.attr)
        return self.generic_visit(node)


def mutants(src):
    tree = ast.parse(src)
    for what, i, f in changes(tree):
        t = copy.deepcopy(tree)
        n = list(ast.walk(t))[i]
        try:
            if isinstance(f, str):
                t = Replace(n, f).visit(t)
            else:
                f(n)
            out = ast.unparse(ast.fix_missing_locations(t))
            compile(out, "m", "exec")
        except Exception:
            continue
        yield what, out


def run(file, what, src):
    d = tempfile.mkdtemp(prefix="mutant")
    try:
        shutil.copytree(os.path.join(REPO, "aemcmc"), os.path.join(d, "aemcmc"), ignore=shutil.ignore_patterns("__pycache__"))
        open(os.path.join(d, "aemcmc", file), "w").write(src)
        try:
            r = subprocess.run(
                [sys.executable, "-c",
                 "import sys,threading;sys.path.insert(0,'.');sys.setrecursionlimit(200000);threading.stack_size(512<<20)\n"
                 "from sa import report,run\nreport.VERIF_OUT=%r\n"
                 "t=threading.Thread(target=lambda: run.main(sys.argv[1:]));t.start();t.join()" % d, "all"],
                cwd=VERIF, env=dict(os.environ, VERIF_REPO=d, VERIF_OUT=d), capture_output=True, text=True, timeout=400,
            )
            out = r.stdout + r.stderr[-600:]
        except subprocess.TimeoutExpired:
            out = "TIMEOUT"
    finally:
        shutil.rmtree(d)
    al = sorted({l.split("property=")[1].split()[0] for l in out.splitlines() if l.startswith("VIOLATION")})
    und = sorted({l.strip()[:160] for l in out.splitlines() if "undecided:" in l})
    und_props = sorted({l.split()[1].rstrip(":") for l in out.splitlines() if "undecided" in l and l.split()[:1] not in (["undecided:"],) and len(l.split()) > 1 and " 0 undecided" not in l})
    return what, al, und_props, und, out[-300:] if "Traceback" in out or out == "TIMEOUT" else ""


def main(argv):
    file = argv[0]
    step = int(argv[1]) if len(argv) > 1 else 1
    src = open(os.path.join(REPO, "aemcmc", file)).read()
    ms = list(mutants(src))[::step]
    print(file, len(ms), "changes", flush=True)
    n = 0
    with cf.ThreadPoolExecutor(8) as ex:
        for what, al, up, und, err in ex.map(lambda m: run(file, *m), ms):
            if err:
                print("ERROR", what, err, flush=True)
            if al:
                n += 1
                print("caught", what, "|", ",".join(al), flush=True)
            else:
                print("UNDEC" if und else "PASSED", what, "|", ",".join(up), "|", "; ".join(und)[:300], flush=True)
    print(file, "reported:", n, "of", len(ms))


if __name__ == "__main__":
    main(sys.argv[1:])
