"""Functions of the package that are known by what they do, as nothing fixes their names."""
import ast
import os

from .report import VERIF, Broken

SPEC = os.path.join(VERIF, "spec")


def functions(root, module, package="aemcmc"):
    path = os.path.join(root, package, module + ".py")
    try:
        with open(path) as f:
            tree = ast.parse(f.read())
    except (OSError, SyntaxError) as e:
        raise Broken(f"can't read {path}: {e}")
    return [x for x in tree.body if isinstance(x, ast.FunctionDef)]


def names(node):
    return {x.id for x in ast.walk(node) if isinstance(x, ast.Name)} | {
        x.attr for x in ast.walk(node) if isinstance(x, ast.Attribute)
    }


def only(found, usual):
    """``usual`` if it is there, else the only one that was found."""
    if usual in found or len(found) != 1:
        return usual
    return found[0]


def reached(fs):
    """The names each function mentions, itself or through other functions of its module."""
    out = {f.name: names(f) for f in fs}
    changed = True
    while changed:
        changed = False
        for k, v in out.items():
            more = set().union(*[out[n] for n in v if n in out]) - v
            if more:
                v |= more
                changed = True
    return out


def outermost(found, fs):
    """Those that no other one of them uses."""
    r = {f.name: names(f) for f in fs}
    return [n for n in found if not any(n in r[m] for m in found if m != n)] or found


def nuts_constructor(root):
    fs = functions(root, "nuts")
    r = reached(fs)
    if "step" in r.get("construct_sampler", ()):
        return "construct_sampler"
    used = set()
    for f in functions(root, "basic"):
        used |= names(f)
    found = [f.name for f in fs if f.name != "step" and "step" in r[f.name] and len(f.args.args) == 3]
    return only([n for n in found if n in used] or outermost(found, fs), "construct_sampler")


def update_collector(root):
    fs = functions(root, "utils")
    used = set()
    for f in functions(root, "sample"):
        used |= names(f)
    return only([f.name for f in fs if f.args.vararg and (f.name in used)], "get_rv_updates")


def finder_decorator(root):
    own = {f.name for f in functions(root, "rewriting")}
    found = []
    for m in ("gibbs", "conjugates"):
        for f in functions(root, m):
            for d in f.decorator_list:
                for n in sorted(names(d) & own):
                    if n not in found:
                        found.append(n)
    return only(found, "sampler_finder")


def expander(root):
    """The rewriter for folded operations that isn't the one that folds them."""
    fs = functions(root, "rewriting")
    found = [
        f.name
        for f in fs
        if f.name != "local_elemwise_dimshuffle_subsume"
        and any("node_rewriter" in names(d) for d in f.decorator_list)
        and "SubsumingElemwise" in names(f)
    ]
    return only(found, "inline_SubsumingElemwise")


ROLES = {
    ("aemcmc.nuts", "construct_sampler"): nuts_constructor,
    ("aemcmc.utils", "get_rv_updates"): update_collector,
    ("aemcmc.rewriting", "sampler_finder"): finder_decorator,
    ("aemcmc.rewriting", "inline_SubsumingElemwise"): expander,
}


def resolve(root, module, name):
    f = None if root == SPEC else ROLES.get((module, name))
    return f(root) if f else name
