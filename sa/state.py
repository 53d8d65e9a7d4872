"""State that outlives a call: what functions change in modules, classes and default values."""
import ast

MUTATORS = set(
    "append extend add update insert pop popitem popleft setdefault remove discard clear sort reverse appendleft "
    "intersection_update difference_update symmetric_difference_update __setitem__ __delitem__ move_to_end".split()
)


FN = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)


def children(fn):
    """The nodes of a function, without those of the functions that it defines."""
    todo = list(fn.body if isinstance(fn.body, list) else [fn.body])
    while todo:
        x = todo.pop()
        yield x
        todo.extend(y for y in ast.iter_child_nodes(x) if not isinstance(x, FN))


def functions(tree, outer=frozenset()):
    """``(function, names that are local to it or to the ones around it)``"""
    todo = [tree] if not isinstance(tree, FN) else list(children(tree))
    found = []
    while todo:
        x = todo.pop()
        if isinstance(x, FN):
            found.append(x)
        else:
            todo.extend(ast.iter_child_nodes(x))
    for fn in found:
        local = outer | bound(fn)
        yield fn, local
        yield from functions(fn, local)


def own(fn):
    return children(fn)


def bound(fn):
    a = fn.args
    out = {x.arg for x in a.args + a.kwonlyargs + a.posonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}
    shared = set()
    for x in own(fn):
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
            out.add(x.id)
        elif isinstance(x, (ast.Global, ast.Nonlocal)):
            shared |= set(x.names)
    return out - shared


def changed(nodes):
    """The expressions whose objects are changed in place, and the names that are assigned."""
    for x in nodes:
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS:
            yield x.func.value
        elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "next" and x.args:
            yield x.args[0]
        elif isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)):
            yield x.value
        elif isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)):
            yield x
        elif isinstance(x, ast.AugAssign) and isinstance(x.target, (ast.Name, ast.Attribute)):
            yield x.target


def module_names(tree, executed=()):
    """The names of a module whose objects its functions change, except those that run when it is imported."""
    out = set()
    # `at.sort(x)` is a function of a module, not a change of it
    modules = {a.asname or a.name.split(".")[0] for s in tree.body if isinstance(s, ast.Import) for a in s.names}
    for fn, local in functions(tree):
        if fn in executed:
            continue
        for x in changed(own(fn)):
            if isinstance(x, ast.Name) and x.id not in local and x.id not in modules:
                out.add(x.id)
        for x in own(fn):
            if isinstance(x, ast.Global):
                stored = {y.id for y in own(fn) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)}
                out |= set(x.names) & stored
    return out


def class_names(cls, tree, executed=()):
    """The attributes of a class that are changed on the class itself."""
    methods = [x for x in cls.body if isinstance(x, ast.FunctionDef)]
    out = set()

    def is_self(x, fn):
        return isinstance(x, ast.Name) and fn.args.args and x.id == fn.args.args[0].arg

    per_object = {
        x.attr
        for fn in methods
        for x in own(fn)
        if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and is_self(x.value, fn)
    }
    for fn in methods:
        if fn in executed:
            continue
        on_class = any(isinstance(d, ast.Name) and d.id == "classmethod" for d in fn.decorator_list)
        for x in changed(own(fn)):
            if isinstance(x, ast.Attribute) and is_self(x.value, fn) and not isinstance(x.ctx, ast.Store):
                if on_class or x.attr not in per_object:
                    out.add(x.attr)
            elif on_class and isinstance(x, ast.Attribute) and is_self(x.value, fn):
                out.add(x.attr)
    for fn, _ in functions(tree):
        if fn in executed:
            continue
        for x in changed(own(fn)):
            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == cls.name:
                out.add(x.attr)
    return out


def parameters(fn):
    """The parameters whose default objects the function changes."""
    a = fn.args
    params = a.posonlyargs + a.args
    pairs = list(zip(params[len(params) - len(a.defaults):], a.defaults)) + [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
    mutable = {
        p.arg
        for p, d in pairs
        if isinstance(d, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp, ast.Call))
    }
    if not mutable or isinstance(fn, ast.Lambda):
        return set()
    return mutable & {x.id for x in changed(ast.walk(fn)) if isinstance(x, ast.Name)}
