"""Hash-consed terms with gated (if-then-else) values.

A term is an interned node ``T(op, args)``; structural equality is identity.
``ite`` nodes form reduced, ordered decision diagrams over *atoms* (terms
that stand for undetermined conditions), both for conditions (leaves TRUE and
FALSE) and for ordinary values.  Pure constructors (``mk``) lift ``ite``
nodes out of their arguments, so that two gated values built in different
ways have the same representation.  No condition is ever solved or sampled.
"""
import itertools

_table = {}
_counter = itertools.count()


class T:
    __slots__ = ("op", "args", "id", "_bh", "_ite", "_fb", "__weakref__")

    def __repr__(self):
        return show(self)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def _key(a):
    if isinstance(a, T):
        return ("T", a.id)
    if isinstance(a, (tuple, list)):
        return ("t",) + tuple(_key(x) for x in a)
    return (type(a).__name__, a)


def raw(op, *args):
    """Intern a node without any simplification."""
    k = (op,) + tuple(_key(a) for a in args)
    t = _table.get(k)
    if t is None:
        t = T()
        t.op = op
        t.args = tuple(args)
        t.id = next(_counter)
        bh = 0
        ite = op == "ite"
        fb = ()
        for a in args:
            if isinstance(a, T):
                if a._bh > bh:
                    bh = a._bh
                if a._fb:
                    fb = fb + tuple(x for x in a._fb if x not in fb)
        if op == "bv":
            fb = (t,)
        if op == "lam":
            # args: (bound variables..., body)
            bound = args[:-1]
            fb = tuple(x for x in fb if x not in bound)
            bh = bh + 1
        t._bh = bh
        t._ite = ite
        t._fb = fb
        _table[k] = t
    return t


def const(v):
    return raw("const", v)


TRUE = const(True)
FALSE = const(False)
NONE = const(None)


def is_const(t):
    return t.op == "const"


def sym(name):
    return raw("sym", name)


def glob(name):
    return raw("glob", name)


# ---------------------------------------------------------------- decision diagrams


def _top(*ts):
    best = None
    for t in ts:
        if isinstance(t, T) and t.op == "ite":
            a = t.args[0]
            if best is None or a.id < best.id:
                best = a
    return best


def _cof(t, atom, val):
    if isinstance(t, T) and t.op == "ite" and t.args[0] is atom:
        return t.args[1] if val else t.args[2]
    return t


def _node(atom, hi, lo):
    if hi is lo:
        return hi
    return raw("ite", atom, hi, lo)


_ite_cache = {}
MERGE = {}  # op -> how to merge two ungated values of that form


def ite(c, a, b):
    """The value that is ``a`` if the condition ``c`` holds and ``b`` otherwise."""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    k = (c.id, a.id, b.id)
    r = _ite_cache.get(k)
    if r is not None:
        return r
    if c.op != "ite":
        raise TypeError(f"not a condition: {c.op}")
    if a.op == b.op and a.op in MERGE:
        r = MERGE[a.op](c, a, b)
        _ite_cache[k] = r
        return r
    at = _top(c, a, b)
    r = _node(
        at,
        ite(_cof(c, at, True), _cof(a, at, True), _cof(b, at, True)),
        ite(_cof(c, at, False), _cof(a, at, False), _cof(b, at, False)),
    )
    _ite_cache[k] = r
    return r


def atom(t):
    """The condition represented by the undetermined truth of ``t``."""
    assert t.op != "ite"
    return _node(t, TRUE, FALSE)


def Not(c):
    return ite(c, FALSE, TRUE)


def And(*cs):
    r = TRUE
    for c in cs:
        r = ite(r, c, FALSE)
    return r


def Or(*cs):
    r = FALSE
    for c in cs:
        r = ite(r, TRUE, c)
    return r


def is_cond(t):
    """Whether ``t`` is a decision diagram with only TRUE/FALSE leaves."""
    if t is TRUE or t is FALSE:
        return True
    return t.op == "ite" and all(x is TRUE or x is FALSE for x in leaves(t))


def _dd(t):
    """The leaves and the atoms of a decision diagram."""
    ls, ats, seen, stack = {}, {}, set(), [t]
    while stack:
        x = stack.pop()
        if x.op != "ite":
            ls[x] = None
        elif x.id not in seen:
            seen.add(x.id)
            ats[x.args[0]] = None
            stack.append(x.args[2])
            stack.append(x.args[1])
    return list(ls), list(ats)


def leaves(t):
    return _dd(t)[0]


def atoms(t):
    return _dd(t)[1]


def map_leaves(t, f, _memo=None):
    """Apply ``f`` to every leaf of a gated value."""
    if t.op != "ite":
        return f(t)
    if _memo is None:
        _memo = {}
    r = _memo.get(t.id)
    if r is None:
        c = atom(t.args[0])
        r = ite(c, map_leaves(t.args[1], f, _memo), map_leaves(t.args[2], f, _memo))
        _memo[t.id] = r
    return r


LIFT_LIMIT = 4096


class TooBig(Exception):
    pass


def lift(f, *args):
    """Apply ``f`` to terms after lifting the gates out of its arguments."""
    at = _top(*args)
    if at is None:
        return f(*args)
    budget = [LIFT_LIMIT]
    memo = {}

    def go(xs):
        k = tuple(x.id if isinstance(x, T) else x for x in xs)
        r = memo.get(k)
        if r is not None:
            return r
        a = _top(*xs)
        if a is None:
            budget[0] -= 1
            if budget[0] < 0:
                raise TooBig()
            r = f(*xs)
        else:
            r = ite(
                atom(a),
                go(tuple(_cof(x, a, True) for x in xs)),
                go(tuple(_cof(x, a, False) for x in xs)),
            )
        memo[k] = r
        return r

    return go(args)


def mk(op, *args):
    """Build a pure term, lifting gates out of the arguments."""
    ts = [a for a in args if isinstance(a, T)]
    if _top(*ts) is None:
        return raw(op, *args)
    idx = [i for i, a in enumerate(args) if isinstance(a, T)]

    def f(*xs):
        full = list(args)
        for i, x in zip(idx, xs):
            full[i] = x
        return raw(op, *full)

    return lift(f, *ts)


# ---------------------------------------------------------------- binders

_fresh = itertools.count()


def fresh(hint="v"):
    return raw("bv", f"{hint}#{next(_fresh)}")


def lam(bvs, body):
    """A function term.  Bound variables are renamed by binder height, which
    makes alpha-equivalent functions identical.  Gates that don't depend on
    the bound variables are lifted out."""
    if not isinstance(bvs, (list, tuple)):
        bvs = (bvs,)
    if body.op == "ite":
        free = [a for a in atoms(body) if not any(b in a._fb for b in bvs)]
        if free:
            a = min(free, key=lambda x: x.id)
            return ite(
                atom(a),
                lam(bvs, assume(body, a, True)),
                lam(bvs, assume(body, a, False)),
            )
    h = body._bh
    # only names that no inner binder uses
    new = [raw("bv", f"@{h}.{i}") for i in range(len(bvs))]
    body2 = subst(body, dict(zip(bvs, new)))
    return raw("lam", *new, body2)


def assume(t, a, val, _memo=None):
    """Restrict the decision diagram ``t`` by the truth value of atom ``a``."""
    if t.op != "ite":
        return t
    if _memo is None:
        _memo = {}
    r = _memo.get(t.id)
    if r is None:
        if t.args[0] is a:
            r = t.args[1] if val else t.args[2]
        else:
            r = ite(
                atom(t.args[0]),
                assume(t.args[1], a, val, _memo),
                assume(t.args[2], a, val, _memo),
            )
        _memo[t.id] = r
    return r


def assume_cond(t, c, _memo=None):
    """Restrict ``t`` to the states in which the condition ``c`` holds."""
    if c is TRUE or c is FALSE:
        return t
    if _memo is None:
        _memo = {}
    k = (t.id, c.id)
    if k in _memo:
        return _memo[k]
    at = _top(t, c)
    if t.op != "ite":
        return t
    th, tl = _cof(t, at, True), _cof(t, at, False)
    ch, cl = _cof(c, at, True), _cof(c, at, False)
    if ch is FALSE:
        r = assume_cond(tl, cl, _memo)
    elif cl is FALSE:
        r = assume_cond(th, ch, _memo)
    else:
        r = ite(atom(at), assume_cond(th, ch, _memo), assume_cond(tl, cl, _memo))
    _memo[k] = r
    return r


def app(f, *xs):
    """Beta-reduce ``f`` applied to ``xs``."""

    def go(f, *xs):
        if f.op == "lam":
            return subst(f.args[-1], dict(zip(f.args[:-1], xs)))
        return raw("app", f, *xs)

    if f.op == "ite":
        return map_leaves(f, lambda g: go(g, *xs))
    return go(f, *xs)


REBUILD = {}  # op -> smart constructor used when rebuilding


def rebuild(t, newargs):
    if t.op == "ite":
        c = newargs[0]
        # the atom may have become a decided or compound condition
        c = as_cond(c)
        return ite(c, newargs[1], newargs[2])
    f = REBUILD.get(t.op)
    if f is not None:
        return f(*newargs)
    if t.op == "lam":
        # binders may have changed height
        return lam(t.args[:-1], newargs[-1])
    return mk(t.op, *newargs)


AS_COND = [None]


def as_cond(t):
    if is_cond(t):
        return t
    if AS_COND[0] is not None:
        return AS_COND[0](t)
    return atom(t)


_opened = {}


def opened(t):
    """The bound variables of a function, as free ones of its own, and its body."""
    r = _opened.get(t)
    if r is None:
        fr = [fresh("s") for _ in t.args[:-1]]
        r = _opened[t] = fr, subst(t.args[-1], dict(zip(t.args[:-1], fr)))
    return r


def holder(keys):
    """A function that tells whether a term contains one of ``keys``."""
    known = {}

    def has(x):
        r = known.get(x)
        if r is not None:
            return r
        todo = [x]
        while todo:
            y = todo[-1]
            if y in known:
                todo.pop()
                continue
            if y in keys:
                known[y] = True
                continue
            kids = [a for a in y.args if isinstance(a, T)]
            for a in y.args:
                if isinstance(a, tuple):
                    kids += [z for z in a if isinstance(z, T)]
            rest = [a for a in kids if a not in known]
            if rest:
                todo.extend(rest)
            else:
                known[y] = any(known[a] for a in kids)
        return known[x]

    return has


def subst(t, m, _memo=None, _has=None):
    """Substitute terms for terms (capture cannot occur: bound variables are
    named by height and substituted values are closed or fresh)."""
    if not m:
        return t
    if _memo is None:
        _memo = {}
    only_bv = all(k.op == "bv" for k in m)
    if _has is None and not any(k._fb for k in m):
        _has = holder(m)

    def go(t):
        r = m.get(t)
        if r is not None:
            return r
        if not t.args:
            return t
        if _has is not None and not _has(t):
            return t
        if only_bv and not any(k in t._fb for k in m):
            return t
        r = _memo.get(t.id)
        if r is not None:
            return r
        new = []
        changed = False
        bound = t.args[:-1] if t.op == "lam" else ()
        for a in t.args:
            if isinstance(a, T) and a not in bound:
                n = go(a)
                changed = changed or n is not a
                new.append(n)
            elif isinstance(a, tuple):
                n = tuple(go(x) if isinstance(x, T) else x for x in a)
                changed = changed or n != a
                new.append(n)
            else:
                new.append(a)
        if not changed:
            r = t
        elif t.op == "lam":
            # rename bound variables apart first
            fr, body = opened(t)
            if any(b in x._fb for b in fr for x in m.values()):
                fr = [fresh("s") for _ in bound]
                body = subst(t.args[-1], dict(zip(bound, fr)))
            body = subst(body, m, _memo, _has)
            r = lam(fr, body)
        else:
            r = rebuild(t, new)
        _memo[t.id] = r
        return r

    return go(t)


def walk(t, seen=None):
    """All distinct subterms."""
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if not isinstance(x, T) or x.id in seen:
            continue
        seen.add(x.id)
        yield x
        for a in x.args:
            if isinstance(a, T):
                stack.append(a)
            elif isinstance(a, tuple):
                stack.extend(y for y in a if isinstance(y, T))


def contains(t, u):
    return any(x is u for x in walk(t))


# ---------------------------------------------------------------- printing


def show(t, depth=60):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ", ".join(show(x, depth) for x in t) + ")"
        return repr(t)
    if depth <= 0:
        return "…"
    d = depth - 1
    if t.op == "const":
        return repr(t.args[0])
    if t.op in ("sym", "bv"):
        return str(t.args[0])
    if t.op == "glob":
        return t.args[0]
    if t.op == "ite":
        if t.args[1] is TRUE and t.args[2] is FALSE:
            return f"[{show(t.args[0], d)}]"
        return f"({show(t.args[1], d)} if {show(t.args[0], d)} else {show(t.args[2], d)})"
    if t.op == "attr":
        return f"{show(t.args[0], d)}.{t.args[1]}"
    if t.op == "idx":
        return f"{show(t.args[0], d)}[{show(t.args[1], d)}]"
    if t.op == "seq":
        return "[" + ", ".join(show(a, d) for a in t.args) + "]"
    if t.op == "lam":
        return f"(λ{','.join(show(a) for a in t.args[:-1])}. {show(t.args[-1], d)})"
    return f"{t.op}(" + ", ".join(show(a, d) for a in t.args) + ")"
