"""Run the checks on mechanical rewrites that keep the behaviour.

``python3 -m corpus.refactor [FILE.py ...] [-k KIND]`` prints each rewrite of a
function after which a check reports a violation, or can no longer decide.
"""
import ast
import concurrent.futures as cf
import copy
import os
import sys

from .mutate import REPO, is_doc, run


def names_loaded(n):
    """The names that are free in an expression or statement."""
    if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
        bound = {x.id for g in n.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
        out = set()
        for y in ast.iter_child_nodes(n):
            out |= names_loaded(y)
        return (out - bound) | names_loaded(n.generators[0].iter)
    if isinstance(n, ast.Name):
        return {n.id} if isinstance(n.ctx, ast.Load) else set()
    return set().union(*[names_loaded(y) for y in ast.iter_child_nodes(n)])


def names_stored(n):
    out = {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    bound = set()
    for c in ast.walk(n):
        if isinstance(c, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for g in c.generators:
                bound |= {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
    return out - bound


def locals_of(fn):
    out = {a.arg for a in fn.args.args + fn.args.kwonlyargs + fn.args.posonlyargs}
    for a in (fn.args.vararg, fn.args.kwarg):
        if a:
            out.add(a.arg)
    for st in fn.body:
        out |= {x.id for x in ast.walk(st) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        out |= {x.name for x in ast.walk(st) if isinstance(x, ast.FunctionDef)}
    return out


def blocks(fn):
    """The statement lists of a function, without those of nested functions."""
    todo = [fn]
    while todo:
        n = todo.pop()
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list):
                yield n, f, b
                todo.extend(x for x in b if not isinstance(x, (ast.FunctionDef, ast.ClassDef)))


def has_nested(fn):
    return any(isinstance(x, (ast.FunctionDef, ast.Lambda)) for st in fn.body for x in ast.walk(st))


def name(x, store=False):
    return ast.Name(x, ast.Store() if store else ast.Load())


def rename_locals(fn, tree):
    params = {a.arg for a in ast.walk(fn.args) if isinstance(a, ast.arg)}
    ren = {x: x + "_x" for x in locals_of(fn) - params}
    for st in fn.body:
        for x in ast.walk(st):
            if isinstance(x, ast.Name) and x.id in ren:
                x.id = ren[x.id]
            elif isinstance(x, ast.FunctionDef) and x.name in ren:
                x.name = ren[x.name]
            elif isinstance(x, ast.arg) and x.arg in ren:
                return False
            elif isinstance(x, (ast.Nonlocal, ast.Global)):
                return False
    return bool(ren)


def hoist(fn, tree):
    """``x = f(a, g(b))`` -> ``t = g(b); x = f(a, t)``."""
    k, done = 0, False
    for _, _, b in blocks(fn):
        out = []
        for st in b:
            val = getattr(st, "value", None) if isinstance(st, (ast.Assign, ast.Return, ast.Expr)) else None
            if isinstance(val, ast.Call) and isinstance(val.func, (ast.Name, ast.Attribute)):
                for i, a in enumerate(val.args):
                    if isinstance(a, (ast.Name, ast.Constant)):
                        continue
                    if isinstance(a, ast.Starred) or any(isinstance(x, (ast.Lambda, ast.GeneratorExp, ast.NamedExpr)) for x in ast.walk(a)):
                        break
                    out.append(ast.Assign([name(f"hoisted_{k}", True)], a))
                    val.args[i] = name(f"hoisted_{k}")
                    k, done = k + 1, True
                    break
            elif isinstance(val, ast.BinOp) and not isinstance(val.left, (ast.Name, ast.Constant)):
                out.append(ast.Assign([name(f"hoisted_{k}", True)], val.left))
                val.left = name(f"hoisted_{k}")
                k, done = k + 1, True
            if isinstance(st, ast.If) and not isinstance(st.test, ast.Name):
                out.append(ast.Assign([name(f"hoisted_{k}", True)], st.test))
                st.test = name(f"hoisted_{k}")
                k, done = k + 1, True
            out.append(st)
        b[:] = out
    return done


def helper_expr(fn, tree):
    """Every assigned or returned expression becomes a helper function."""
    loc = locals_of(fn)
    new, k = [], 0
    for _, _, b in blocks(fn):
        for st in b:
            if isinstance(st, (ast.Assign, ast.Return)) and st.value is not None and not isinstance(st.value, (ast.Name, ast.Constant)):
                if any(isinstance(x, (ast.Lambda, ast.NamedExpr, ast.Yield)) for x in ast.walk(st.value)):
                    continue
                if any(isinstance(x, ast.Name) and x.id in ("super", "locals") for x in ast.walk(st.value)):
                    continue
                ps = sorted(names_loaded(st.value) & loc)
                h = f"_helper_{fn.name}_{k}"
                k += 1
                new.append(ast.FunctionDef(h, ast.arguments([], [ast.arg(p) for p in ps], None, [], [], None, []), [ast.Return(st.value)], [], None))
                st.value = ast.Call(name(h), [name(p) for p in ps], [])
    return place(fn, tree, new)


def place(fn, tree, new):
    if not new:
        return False
    for i, x in enumerate(tree.body):
        if any(y is fn for y in ast.walk(x)):
            tree.body[i:i] = new
            return True
    return False


def helper_block(fn, tree):
    """The longest runs of assignments become helper functions."""
    loc = locals_of(fn)
    new, k = [], 0
    if any(isinstance(x, ast.FunctionDef) for st in fn.body for x in ast.walk(st)):
        return False
    for _, _, b in list(blocks(fn)):
        i = 0
        while i < len(b):
            j = i
            while j < len(b) and isinstance(b[j], ast.Assign) and not any(isinstance(x, (ast.Lambda, ast.Yield)) for x in ast.walk(b[j])) and all(
                isinstance(t, (ast.Name, ast.Tuple)) for t in b[j].targets
            ) and "super" not in names_loaded(b[j]):
                j += 1
            if j - i >= 2:
                seg = b[i:j]
                outs, ins = [], []
                for st in seg:
                    for x in sorted(names_loaded(st) & loc):
                        if x not in outs and x not in ins:
                            ins.append(x)
                    for x in sorted(names_stored(st)):
                        if x not in outs:
                            outs.append(x)
                h = f"_block_{fn.name}_{k}"
                k += 1
                ret = ast.Return(ast.Tuple([name(o) for o in outs], ast.Load()))
                new.append(ast.FunctionDef(h, ast.arguments([], [ast.arg(p) for p in ins], None, [], [], None, []), seg + [ret], [], None))
                b[i:j] = [ast.Assign([ast.Tuple([name(o, True) for o in outs], ast.Store())], ast.Call(name(h), [name(p) for p in ins], []))]
                i += 1
            else:
                i = max(j, i + 1)
    return place(fn, tree, new)


def invert(fn, tree):
    done = False
    for x in ast.walk(fn):
        if isinstance(x, ast.If) and x.orelse:
            x.test = ast.UnaryOp(ast.Not(), x.test)
            x.body, x.orelse = x.orelse, x.body
            done = True
        elif isinstance(x, ast.IfExp):
            x.test = ast.UnaryOp(ast.Not(), x.test)
            x.body, x.orelse = x.orelse, x.body
            done = True
    return done


def noops(fn, tree):
    for n, f, b in list(blocks(fn)):
        b.insert(1 if is_doc(b[0]) else 0, ast.Pass()) if b else None
    i = 1 if is_doc(fn.body[0]) else 0
    fn.body.insert(i, ast.Assign([name("unused", True)], ast.Constant(None)))
    return True


def split_and(fn, tree):
    done = False
    for x in ast.walk(fn):
        if isinstance(x, ast.If) and not x.orelse and isinstance(x.test, ast.BoolOp) and isinstance(x.test.op, ast.And):
            rest = x.test.values[1:]
            inner = ast.If(rest[0] if len(rest) == 1 else ast.BoolOp(ast.And(), rest), x.body, [])
            x.test, x.body = x.test.values[0], [inner]
            done = True
    return done


def split_or(fn, tree):
    """``if a or b: return/raise/continue`` -> two tests."""
    done = False
    for _, _, b in list(blocks(fn)):
        out = []
        for st in b:
            if (isinstance(st, ast.If) and not st.orelse and isinstance(st.test, ast.BoolOp) and isinstance(st.test.op, ast.Or)
                    and isinstance(st.body[-1], (ast.Return, ast.Continue, ast.Raise))):
                for v in st.test.values:
                    out.append(ast.If(v, copy.deepcopy(st.body), []))
                done = True
            else:
                out.append(st)
        b[:] = out
    return done


def else_after_return(fn, tree):
    done = False
    for _, _, b in list(blocks(fn)):
        for i, st in enumerate(b[:-1]):
            if isinstance(st, ast.If) and not st.orelse and isinstance(st.body[-1], (ast.Return, ast.Raise, ast.Continue)):
                st.orelse = b[i + 1:]
                del b[i + 1:]
                done = True
                break
    return done


def no_else(fn, tree):
    """``if c: ...return else: rest`` -> ``if c: ...return; rest``."""
    done = False
    for _, _, b in list(blocks(fn)):
        for i, st in enumerate(list(b)):
            if isinstance(st, ast.If) and st.orelse and isinstance(st.body[-1], (ast.Return, ast.Raise, ast.Continue)):
                k = b.index(st)
                b[k + 1:k + 1] = st.orelse
                st.orelse = []
                done = True
    return done


def ifexp(fn, tree):
    done = False
    for _, _, b in list(blocks(fn)):
        for i, st in enumerate(b):
            if isinstance(st, (ast.Assign, ast.Return)) and isinstance(st.value, ast.IfExp):
                e = st.value
                mk = (lambda v, st=st: ast.Assign(copy.deepcopy(st.targets), v)) if isinstance(st, ast.Assign) else (lambda v: ast.Return(v))
                b[i] = ast.If(e.test, [mk(e.body)], [mk(e.orelse)])
                done = True
    return done


def unpack(fn, tree):
    done, k = False, 0
    for _, _, b in list(blocks(fn)):
        out = []
        for st in b:
            if isinstance(st, ast.Assign) and isinstance(st.targets[0], ast.Tuple) and isinstance(st.value, ast.Call) and not any(
                    isinstance(x, (ast.Starred, ast.Tuple)) for x in st.targets[0].elts):
                if isinstance(st.value.func, ast.Name) and st.value.func.id in ("zip", "map", "vars"):
                    out.append(st)
                    continue
                out.append(ast.Assign([name(f"pair_{k}", True)], st.value))
                for i, t in enumerate(st.targets[0].elts):
                    out.append(ast.Assign([t], ast.Subscript(name(f"pair_{k}"), ast.Constant(i), ast.Load())))
                k, done = k + 1, True
            else:
                out.append(st)
        b[:] = out
    return done


def loops(fn, tree):
    """Assigned comprehensions become loops."""
    done, k = False, 0
    for _, _, b in list(blocks(fn)):
        out = []
        for st in b:
            c = getattr(st, "value", None) if isinstance(st, (ast.Assign, ast.Return)) else None
            wrap = None
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id in ("tuple", "list", "dict", "set") and len(c.args) == 1 and not c.keywords:
                wrap, c0 = c.func.id, c.args[0]
                c = c0 if isinstance(c0, (ast.GeneratorExp, ast.ListComp)) else None
                if wrap == "dict":
                    c = None
            if isinstance(c, (ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp)) and (wrap or not isinstance(c, ast.GeneratorExp)):
                acc = f"acc_{k}"
                k += 1
                bound = {x.id for g in c.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
                free = {x.id for y in fn.body for x in ast.walk(y) if isinstance(x, ast.Name)}
                ren = {x: x + f"_it{k}" for x in bound}
                for x in ast.walk(c):
                    if isinstance(x, ast.Name) and x.id in ren:
                        x.id = ren[x.id]
                if isinstance(c, ast.DictComp):
                    init, add = ast.Dict([], []), ast.Assign([ast.Subscript(name(acc), c.key, ast.Store())], c.value)
                elif isinstance(c, ast.SetComp):
                    init, add = ast.Call(name("set"), [], []), ast.Expr(ast.Call(ast.Attribute(name(acc), "add", ast.Load()), [c.elt], []))
                else:
                    init, add = ast.List([], ast.Load()), ast.Expr(ast.Call(ast.Attribute(name(acc), "append", ast.Load()), [c.elt], []))
                body = add
                for g in reversed(c.generators):
                    for t in reversed(g.ifs):
                        body = ast.If(t, [body], [])
                    body = ast.For(g.target, g.iter, [body], [])
                out += [ast.Assign([name(acc, True)], init), body]
                st.value = ast.Call(name(wrap), [name(acc)], []) if wrap else name(acc)
                done = True
            out.append(st)
        b[:] = out
    return done


def comprehensions(fn, tree):
    """``xs = []; for a in S: [if c:] xs.append(e)`` -> a comprehension."""
    done = False
    for _, _, b in list(blocks(fn)):
        i = 0
        while i + 1 < len(b):
            s, f = b[i], b[i + 1]
            t = s.targets[0] if isinstance(s, ast.Assign) else s.target if isinstance(s, ast.AnnAssign) else None
            if isinstance(t, ast.Name) and isinstance(s.value, ast.List) and not s.value.elts and isinstance(f, ast.For) and not f.orelse and len(f.body) == 1:
                y, conds = f.body[0], []
                while isinstance(y, ast.If) and not y.orelse and len(y.body) == 1:
                    conds.append(y.test)
                    y = y.body[0]
                if (isinstance(y, ast.Expr) and isinstance(y.value, ast.Call) and isinstance(y.value.func, ast.Attribute) and y.value.func.attr == "append"
                        and isinstance(y.value.func.value, ast.Name) and y.value.func.value.id == t.id):
                    b[i:i + 2] = [ast.Assign([t], ast.ListComp(y.value.args[0], [ast.comprehension(f.target, f.iter, conds, 0)]))]
                    done = True
            i += 1
    return done


def guard_continue(fn, tree):
    done = False
    for x in ast.walk(fn):
        if isinstance(x, ast.For) and isinstance(x.body[-1], ast.If) and not x.body[-1].orelse:
            y = x.body.pop()
            x.body += [ast.If(ast.UnaryOp(ast.Not(), y.test), [ast.Continue()], [])] + y.body
            done = True
    return done


def commute(fn, tree):
    done = False
    for x in ast.walk(fn):
        if isinstance(x, ast.BinOp) and isinstance(x.op, ast.Mult) and not any(isinstance(y, (ast.List, ast.Tuple, ast.Constant)) for y in (x.left, x.right)):
            x.left, x.right = x.right, x.left
            done = True
        elif isinstance(x, ast.Compare) and len(x.ops) == 1 and isinstance(x.ops[0], (ast.Eq, ast.NotEq)):
            x.left, x.comparators[0] = x.comparators[0], x.left
            done = True
    return done


def wrapper(fn, tree):
    """The body of a function moves to an inner implementation."""
    if fn not in tree.body or fn.args.vararg or fn.args.kwarg:
        return False
    impl = copy.deepcopy(fn)
    impl.name = "_implementation_of_" + fn.name
    impl.decorator_list = []
    impl.args.defaults, impl.args.kw_defaults = [], [None] * len(impl.args.kwonlyargs)
    kws = [ast.keyword(a.arg, name(a.arg)) for a in fn.args.kwonlyargs]
    fn.body = [ast.Return(ast.Call(name(impl.name), [name(a.arg) for a in fn.args.args], kws))]
    tree.body.insert(tree.body.index(fn), impl)
    return True


def swap_independent(fn, tree):
    """Adjacent assignments that share no names and draw nothing."""
    done = False

    def quiet(st):
        return isinstance(st, ast.Assign) and all(isinstance(t, ast.Name) for t in st.targets) and not any(
            isinstance(x, (ast.Call,)) and not (isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id in ("at", "np"))
            or isinstance(x, (ast.Lambda, ast.NamedExpr)) for x in ast.walk(st.value))

    for _, _, b in list(blocks(fn)):
        i = 0
        while i + 1 < len(b):
            p, q = b[i], b[i + 1]
            if quiet(p) and quiet(q) and not names_stored(p) & (names_loaded(q) | names_stored(q)) and not names_stored(q) & names_loaded(p):
                b[i], b[i + 1] = q, p
                done = True
                i += 1
            i += 1
    return done


def inline_once(fn, tree):
    """``t = e; <statement that uses t once>`` -> the statement with e."""
    done = False
    for _, _, b in list(blocks(fn)):
        i = 0
        while i + 1 < len(b):
            p, q = b[i], b[i + 1]
            if isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name) and isinstance(q, (ast.Assign, ast.Return, ast.Expr)):
                t = p.targets[0].id
                uses = [x for y in fn.body for x in ast.walk(y) if isinstance(x, ast.Name) and x.id == t]
                here = [x for x in ast.walk(q) if isinstance(x, ast.Name) and x.id == t and isinstance(x.ctx, ast.Load)]
                if len(uses) == 2 and len(here) == 1 and not any(isinstance(x, (ast.comprehension, ast.Lambda)) for x in ast.walk(q)):
                    calls = [x for x in ast.walk(q) if isinstance(x, ast.Call)]
                    if len(calls) <= 1:
                        class R(ast.NodeTransformer):
                            def visit_Name(self, n):
                                return p.value if n is here[0] else n
                        b[i + 1] = R().visit(q)
                        del b[i]
                        done = True
                        continue
            i += 1
    return done


def nested_helper(fn, tree):
    """Every assigned expression becomes a local function without parameters."""
    done, k = False, 0
    for _, _, b in list(blocks(fn)):
        out = []
        for st in b:
            if isinstance(st, ast.Assign) and isinstance(st.value, (ast.Call, ast.BinOp)) and not names_stored(st) & names_loaded(st.value) and not any(
                    isinstance(x, (ast.Lambda, ast.NamedExpr)) for x in ast.walk(st.value)) and "super" not in names_loaded(st.value):
                h = f"compute_{k}"
                k += 1
                out.append(ast.FunctionDef(h, ast.arguments([], [], None, [], [], None, []), [ast.Return(st.value)], [], None))
                st.value = ast.Call(name(h), [], [])
                done = True
            out.append(st)
        b[:] = out
    return done


def aliases(fn, tree):
    """Parameters are used by way of local aliases."""
    ps = [a.arg for a in fn.args.args if a.arg not in ("self", "cls")]
    if not ps or has_nested(fn):
        return False
    stored = set().union(*[names_stored(s) for s in fn.body])
    ps = [p for p in ps if p not in stored]
    for st in fn.body:
        for x in ast.walk(st):
            if isinstance(x, ast.Name) and x.id in ps:
                x.id += "_arg"
    i = 1 if is_doc(fn.body[0]) else 0
    fn.body[i:i] = [ast.Assign([name(p + "_arg", True)], name(p)) for p in ps]
    return bool(ps)


def demorgan(fn, tree):
    done = False

    class R(ast.NodeTransformer):
        def visit_BoolOp(self, n):
            nonlocal done
            self.generic_visit(n)
            done = True
            op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
            return ast.UnaryOp(ast.Not(), ast.BoolOp(op, [ast.UnaryOp(ast.Not(), x) for x in n.values]))

    for x in ast.walk(fn):
        if isinstance(x, (ast.If, ast.IfExp)):
            x.test = R().visit(x.test)
    return done


KINDS = [rename_locals, hoist, helper_expr, helper_block, invert, noops, split_and, split_or, else_after_return, no_else, ifexp,
         unpack, loops, comprehensions, guard_continue, commute, wrapper, swap_independent, inline_once, nested_helper, aliases, demorgan]


def functions(tree):
    for x in tree.body:
        if isinstance(x, ast.FunctionDef):
            yield x.name, x
        elif isinstance(x, ast.ClassDef):
            for y in x.body:
                if isinstance(y, ast.FunctionDef):
                    yield f"{x.name}.{y.name}", y


def variants(src, kinds):
    base = ast.parse(src)
    for qual, _ in functions(base):
        for kind in kinds:
            t = copy.deepcopy(base)
            fn = dict(functions(t))[qual]
            if not kind(fn, t):
                continue
            out = ast.unparse(ast.fix_missing_locations(t))
            try:
                compile(out, "r", "exec")
            except SyntaxError as e:
                print("INVALID", qual, kind.__name__, e)
                continue
            yield f"{qual} {kind.__name__}", out


def main(argv):
    kinds = KINDS
    if "-k" in argv:
        i = argv.index("-k")
        kinds = [k for k in KINDS if k.__name__ == argv[i + 1]]
        argv = argv[:i] + argv[i + 2:]
    for file in argv or ["conjugates.py", "gibbs.py", "dists.py", "ffbs.py", "nuts.py", "basic.py", "rewriting.py", "utils.py", "types.py", "sample.py", "transforms.py"]:
        vs = list(variants(open(os.path.join(REPO, "aemcmc", file)).read(), kinds))
        bad = und = 0
        with cf.ThreadPoolExecutor(8) as ex:
            for what, al, up, u, err in ex.map(lambda m: run(file, *m), vs):
                if err:
                    print("ERROR", file, what, err, flush=True)
                if al:
                    bad += 1
                    print("ALARM", file, what, "|", ",".join(al), flush=True)
                elif u:
                    und += 1
                    print("undecided", file, what, "|", ",".join(up), "|", "; ".join(u)[:300], flush=True)
        print(file, len(vs), "rewrites,", bad, "alarms,", und, "undecided", flush=True)


if __name__ == "__main__":
    main(sys.argv[1:])
