"""Equality of value numbers up to the identity of the objects that they create."""
from . import terms as tm
from . import vals as v
from .kernels import subterms
from .terms import T


ABSENT = tm.sym("absent")


def optional(p):
    """``(key, value or absent)`` of a piece of a dictionary that has at most one item."""
    if p.op == "kv":
        return p.args
    if p.op == "kvo":
        return p.args
    if p.op != "dopt":
        return None
    c, A, B = p.args
    sides = []
    for d in (A, B):
        if d.op == "dct" and not d.args:
            sides.append(None)
            continue
        if d.op != "dct":
            return None
        kv = None
        for q in d.args:
            o = optional(q)
            if o is None or (kv is not None and o[0] is not kv[0]):
                return None
            kv = o if kv is None else override(kv, o)
        sides.append(kv)
    a, b = sides
    if a is None and b is None:
        return None
    if a is not None and b is not None and a[0] is not b[0]:
        return None
    k = (a or b)[0]
    return k, tm.ite(c, a[1] if a else ABSENT, b[1] if b else ABSENT)


def override(a, b):
    return a[0], tm.map_leaves(b[1], lambda x: a[1] if x is ABSENT else x)


# the general sampler's variables and the realized ones: no variable is both
DISJOINT = {tm.sym("to_sample_rvs"), tm.sym("realized_rvs_to_values")}


def items(y):
    """Optional items in a form that doesn't depend on how their conditions are nested."""
    if len(y.args) == 2 and {p.op for p in y.args} == {"dspl"} and {p.args[0] for p in y.args} == DISJOINT:
        return tm.raw("dct", *sorted(y.args, key=lambda p: p.args[0].args[0]))
    out = []
    for p in y.args:
        o = optional(p)
        if o is not None and out and out[-1].op in ("kv", "kvo") and out[-1].args[0] is o[0]:
            o = override(out.pop().args, o)
        if o is None:
            out.append(p)
        elif ABSENT in tm.leaves(o[1]):
            out.append(tm.raw("kvo", *o))
        else:
            out.append(tm.raw("kv", *o))
    return tm.raw("dct", *out)


def conjunction(y):
    """Goals in an order that doesn't depend on how they are written."""
    out = []

    def flat(g):
        if g.op == "goal" and g.args[0] == "and":
            for h in g.args[1:]:
                flat(h)
        elif g.op == "goal" and g.args[0] == "eq":
            a, b = g.args[1:]
            if skeleton(b).id < skeleton(a).id:
                a, b = b, a
            out.append(tm.raw("goal", "eq", a, b))
        else:
            out.append(g)

    flat(y)
    out.sort(key=lambda g: skeleton(g).id)
    return out[0] if len(out) == 1 else tm.raw("goal", "and", *out)


LV = tm.raw("lv", "any")


def skeleton(t):
    """``t`` without the identity of its logic variables."""
    return rebuild(t, lambda y: LV if y.op == "lv" else y)


def rebuild(t, f):
    """Apply ``f`` bottom-up, keeping the names of bound variables."""
    memo = {}
    stack = [t]
    while stack:
        y = stack[-1]
        if y.id in memo:
            stack.pop()
            continue
        todo = [a for a in y.args if isinstance(a, T) and a.id not in memo]
        if todo:
            stack.extend(todo)
            continue
        stack.pop()
        args = [memo[a.id] if isinstance(a, T) else a for a in y.args]
        z = y if all(p is q for p, q in zip(args, y.args)) else tm.raw(y.op, *args)
        memo[y.id] = f(z)
    return memo[t.id]


def normalise(y):
    if y.op == "dct":
        return items(y)
    if y.op == "goal":
        return conjunction(y)
    return y


def canon(t):
    t = number(rebuild(t, normalise))
    return logic_variables(t)


def logic_variables(t):
    """Number logic variables in the order in which they occur."""
    if not any(x.op == "lv" for x in subterms(t)):
        return t
    m = {}

    def walk(x, seen):
        if not isinstance(x, T) or x.id in seen:
            return
        seen.add(x.id)
        if x.op == "lv":
            m.setdefault(x.id, tm.raw("lv", ("#", len(m))))
        for a in x.args:
            walk(a, seen)

    walk(t, set())
    return rebuild(t, lambda y: m[y.id] if y.op == "lv" and y.id in m else y)


def number(t):
    """``t`` with what it creates numbered among what is equal, in creation order.

    The structure is rebuilt as it is: bound variables keep their names.
    """
    memo, count = {}, {}
    order = sorted((x for x in subterms(t) if x.op == "new"), key=uid)

    def go(x):
        stack = [x]
        while stack:
            y = stack[-1]
            if y.id in memo:
                stack.pop()
                continue
            todo = [a for a in y.args if isinstance(a, T) and a.id not in memo]
            if todo:
                stack.extend(todo)
                continue
            stack.pop()
            memo[y.id] = renumber(y) if y.op == "new" else rebuilt(y)
        return memo[x.id]

    def rebuilt(y):
        args = [memo[a.id] if isinstance(a, T) else a for a in y.args]
        if all(p is q for p, q in zip(args, y.args)):
            return y
        if y.op == "sett":
            args.sort(key=lambda p: p.id)
        return tm.raw(y.op, *args)

    def renumber(y):
        content = memo[y.args[1].id]
        n = count.get(content, 0)
        count[content] = n + 1
        return tm.raw("new", ("#", n), content)

    for x in order:
        go(x)
    return go(t)


def uid(x):
    a = x.args[0]
    return a.args[0] if isinstance(a, T) else a


def same(a, b):
    return a is b or canon(a) is canon(b)


def difference(a, b, path=()):
    """The smallest pair of different sub-terms, as ``(path, a, b)``."""
    while True:
        if not isinstance(a, T) or not isinstance(b, T) or a.op != b.op or len(a.args) != len(b.args):
            return path, a, b
        bad = [(i, x, y) for i, (x, y) in enumerate(zip(a.args, b.args)) if x is not y and x != y]
        if len(bad) != 1:
            return path, a, b
        i, x, y = bad[0]
        path, a, b = path + ((a.op, i),), x, y


def brief(t, n=300):
    if not isinstance(t, T):
        return repr(t)[:n]
    s = tm.show(t, 12) if size(t, 4000) else tm.show(t, 6)
    return s if len(s) <= n else s[: n // 2] + " ... " + s[-n // 2 :]


def size(t, limit):
    seen = 0
    for _ in subterms(t):
        seen += 1
        if seen > limit:
            return False
    return True


def unknown(t):
    """What the value-flow analysis has no model for in a term."""
    return [x for x in subterms(t) if x.op in ("unk", "while", "undef")]


def vocabulary(t):
    """The operations, external names and attributes that a term uses."""
    out = set()
    for x in subterms(t):
        if x.op in ("glob", "pkgfn", "cls"):
            out.add((x.op, x.args[0] if not isinstance(x.args[0], T) else tm.show(x.args[0])))
        elif x.op in ("call", "mcall", "attr", "eff"):
            out.add((x.op, next((a for a in x.args if isinstance(a, str)), "")))
        else:
            out.add((x.op, ""))
    return out
