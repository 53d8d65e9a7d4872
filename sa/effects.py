"""Effects on objects that a caller has passed in."""
from . import terms as tm
from . import vals as v
from .kernels import subterms
from .terms import T


def targets(world):
    """``[(effect, object, arguments)]`` of the effects that make up a state of the world.

    An effect on an object that the analysis follows is ``eff(name, object,
    ...)``, one on any other object is ``eff(name, world, object, ...)``, and
    ``eff("world", world, object)`` makes the former part of the world.
    """
    out = []
    for x in subterms(world):
        if x.op != "eff" or x.args[0] == "world":
            continue
        a = [y for y in x.args[1:] if isinstance(y, T)]
        if len(a) > 1 and is_world(a[0]):
            out.append((x, a[1], a[2:]))
        elif a:
            out.append((x, a[0], a[1:]))
    return out


def is_world(x):
    if x.op == "sym":
        return x.args[0] == "world0"
    if x.op == "eff":
        return is_world(x.args[1])
    if x.op == "ite":
        return is_world(x.args[1]) or is_world(x.args[2])
    return x.op in ("lvar", "bv", "bound", "fold", "var")


def root(x):
    """The object that an object is a part of."""
    while True:
        if x.op in ("attr", "idx", "at", "eff") and isinstance(x.args[0 if x.op != "eff" else 1], T):
            x = x.args[0 if x.op != "eff" else 1]
        elif x.op == "mcall" and x.args[0] in ("values", "keys", "items", "get") and len(x.args) > 1 and isinstance(x.args[1], T):
            x = x.args[1]
        else:
            return x


def touching(world, roots):
    """The effects on objects whose root is one of ``roots``."""
    return [(e, o) for e, o, _ in targets(world) if root(o) in roots]


# ---------------------------------------------------------------- one form for equal effects


def entries(t):
    """The same term, with one form for the ways of adding to a collection that the analysis doesn't follow."""
    if not any(x.op == "eff" and x.args[0] in ("setitem", "setattr") for x in subterms(t)):
        return t
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        if not any(isinstance(a, T) for a in x.args) or not any(y.op == "eff" for y in subterms(x)):
            r = x
        elif x.op == "lam":
            bs = [tm.fresh("e") for _ in x.args[:-1]]
            r = tm.lam(bs, go(tm.app(x, *bs)))
        elif x.op == "ite":
            r = decided(tm.ite(tm.atom(x.args[0]), go(x.args[1]), go(x.args[2])))
        else:
            r = plain(tm.rebuild(x, [go(a) if isinstance(a, T) else a for a in x.args]))
        memo[x] = r
        return r

    return go(t)


def slot(w, D, k, s):
    return tm.raw("eff", "append", w, tm.raw("oslot", D, k, v.EMPTY), s)


def plain(x):
    if x.op != "eff":
        return x
    if x.args[0] == "setattr" and len(x.args) == 5:
        # ``o.s |= {k}``
        _, w, o, name, val = x.args
        name = name.args[0] if isinstance(name, T) else name
        old = v.spl(tm.mk("attr", o, name))
        if val.op == "sett" and old in val.args and all(p is old or p.op == "one" for p in val.args):
            for p in val.args:
                if p is not old:
                    w = tm.raw("eff", "add", w, old.args[0], p.args[0])
            return w
    if x.args[0] == "setitem" and len(x.args) == 5:
        # ``d[k] = d.get(k, []) + [s]``
        _, w, D, k, val = x.args
        old = v.spl(tm.raw("idx", D, k))
        if val.op == "cat" and len(val.args) == 2 and val.args[1].op == "one":
            p = val.args[0]
            if p.op == "opt" and p.args[0] is tm.atom(tm.raw("in", k, D)) and p.args[1] is v.cat(old) and p.args[2] is v.EMPTY:
                return slot(w, D, k, val.args[1].args[0])
    return x


def decided(x):
    """``d[k].append(s)`` if ``k`` is in ``d``, and ``d[k] = [s]`` otherwise."""
    if x.op != "ite":
        return x
    for a in tm.atoms(x):
        if a.op == "in":
            k, D = a.args
            x = tm.ite(
                tm.atom(a),
                tm.map_leaves(tm.assume(x, a, True), lambda l: known(l, k, D, True)),
                tm.map_leaves(tm.assume(x, a, False), lambda l: known(l, k, D, False)),
            )
    return x


def known(x, k, D, present):
    if x.op == "tuple":
        return tm.rebuild(x, [known(y, k, D, present) if isinstance(y, T) else y for y in x.args])
    if x.op != "eff" or x.args[0] not in ("append", "setitem", "add"):
        return x
    w, rest = x.args[1], x.args[2:]
    entry = tm.raw("idx", D, k)
    if x.args[0] == "append" and rest[0] is entry:
        if present:
            return slot(known(w, k, D, present), D, k, rest[1])
        if w.op == "eff" and w.args[0] == "setitem" and w.args[2:] == (D, k, v.EMPTY):
            return slot(known(w.args[1], k, D, present), D, k, rest[1])
    if x.args[0] == "setitem" and not present and rest[:2] == (D, k) and rest[2].op == "cat" and len(rest[2].args) == 1:
        if rest[2].args[0].op == "one":
            return slot(known(w, k, D, present), D, k, rest[2].args[0].args[0])
    return tm.rebuild(x, [x.args[0], known(w, k, D, present), *rest])
