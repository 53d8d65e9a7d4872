"""Work-list loops: a set that is closed under a step, and what is collected on the way.

``while work: x = work.pop(); if x in seen: continue; seen.add(x); found |= g(x); work += e(x)``
visits exactly what can be reached from the initial work by way of ``e``, in whatever order,
so that ``seen`` and ``found`` don't depend on how the loop is organised.
"""
from . import terms as tm
from . import vals as v
from .terms import FALSE, NONE, TRUE, const, fresh, lam, raw


def worklist(c, syms, new, init):
    """``{location: value after the loop}`` for the locations whose value follows, and what is known about an iteration."""
    work = [l for l, b in syms.items() if c is tm.atom(raw("truthy", b))]
    if len(work) != 1:
        return {}, None
    work = work[0]
    W = syms[work]
    new = {l: tm.subst(t, {raw("truthy", W): TRUE}) for l, t in new.items()}
    nW = new[work]
    if nW.op != "cat" or not nW.args or nW.args[0].op != "spl":
        return {}, None
    rest = nW.args[0]
    x = popped(rest.args[0], W)
    if x is None:
        return {}, None
    visited = [l for l, b in syms.items() if l != work and marks(new[l], b, x)]
    k = fresh("k")
    out = {}
    for seen in [*visited, None]:
        V = syms[seen] if seen is not None else None
        member = raw("in", x, V) if V is not None else None
        if V is not None and (set_of(init[seen]) != v.SEMPTY or drop(nW, rest, {member: TRUE}) != v.EMPTY):
            continue
        E = drop(nW, rest, {member: FALSE} if V is not None else {})
        if V is not None:
            E = unguarded(E, V, x)
        E = tm.subst(E, {x: k})
        if any(b in E._fb for b in syms.values()):
            continue
        R = raw("reach", v.set_of(init[work]), lam([k], v.sett(*E.args)))
        out[work] = v.EMPTY
        if seen is not None:
            out[seen] = v.sett(v.spl(R))
        for l, b in syms.items():
            if l in (work, seen) or set_of(init[l]) is None:
                continue
            if V is not None and set_of(tm.subst(new[l], {member: TRUE})) is not v.sett(v.spl(b)):
                continue
            g = set_of(tm.subst(new[l], {member: FALSE} if V is not None else {}))
            if g is None or v.spl(b) not in g.args:
                continue
            g = tm.subst(v.cat(*[p for p in g.args if p is not v.spl(b)]), {x: k})
            if any(y in g._fb for y in syms.values()):
                continue
            out[l] = v.sett(*set_of(init[l]).args, raw("fm", R, lam([k], v.cat(*v.sett(*g.args).args))))
        m = {raw("truthy", W): TRUE}
        if member is not None:
            m[member] = FALSE
        return out, (R, k, lambda t: tm.subst(tm.subst(t, m), {x: k}))
    return {}, None


def set_of(t):
    return t if t.op == "sett" else v.sett(v.spl(t)) if t.op == "bv" else None


def popped(t, W):
    """What a list of the rest of ``W`` leaves out."""
    if t.op != "slice" or t.args[0] not in (W, v.cat(v.spl(W))):
        return None
    if t.args[1] in (NONE, const(0)) and t.args[2] is const(-1) and t.args[3] is NONE:
        return raw("idx", W, const(-1))
    if t.args[1] is const(1) and t.args[2] is NONE and t.args[3] is NONE:
        return raw("idx", W, const(0))
    return None


def marks(t, b, x):
    """Is ``t`` the set ``b`` with ``x``?"""
    a = raw("in", x, b)
    return tm.subst(t, {a: FALSE}) is v.sett(v.spl(b), v.one(x)) and set_of(tm.subst(t, {a: TRUE})) in (
        v.sett(v.spl(b)), v.sett(v.spl(b), v.one(x))
    )


def drop(t, rest, m):
    t = tm.subst(t, m)
    ps = list(t.args)
    ps.remove(rest)
    return v.cat(*ps)


def unguarded(t, V, x):
    """Without the tests that keep what was visited from being put on the list again."""
    out = []
    for p in t.args:
        if p.op == "opt":
            c = p.args[0]
            if p.args[1].op == "cat" and len(p.args[1].args) == 1 and p.args[1].args[0].op == "one" and not p.args[2].args:
                y = p.args[1].args[0].args[0]
                for a in (raw("in", y, V), raw("eq", x, y), raw("eq", y, x)):
                    if tm.assume(c, a, True) is FALSE:
                        c = tm.assume(c, a, False)
            q = raw("opt", c, unguarded(p.args[1], V, x), unguarded(p.args[2], V, x))
            out.append(q if c not in (TRUE, FALSE) else v.spl(q.args[1 if c is TRUE else 2]))
        elif p.op == "fm":
            i = fresh("i")
            v.DOM_OF[i] = p.args[0]
            out.append(raw("fm", p.args[0], lam([i], unguarded(tm.app(p.args[1], i), V, x))))
        else:
            out.append(p)
    return v.cat(*out)
