"""Comparison of sampling kernels, as distributions over index-notation tensors."""
from . import poly as P
from . import tensor as tn
from . import terms as tm
from .poly import Lam, Unmodelled
from .tensor import ShapeError, Tensors
from .terms import sym


class Kernel:
    """What a term draws: result polynomials and the table of draws they use."""

    def __init__(self, results, E, dims):
        self.results, self.E, self.dims = results, E, dims


def is_unknown(t):
    """Does a term contain something the value-flow analysis has no model for?"""
    return any(x.op == "unk" for x in subterms(t))


def streams(rep, key, where, t, stream):
    """The draws in ``t`` are made from the random stream ``stream``, which the caller supplies."""
    for x in subterms(t):
        if x.op != "rv":
            continue
        rep.count("draws")
        src = x.args[1]
        if src is stream:
            rep.ok(f"{key}/stream", where)
        elif tm.contains(src, stream) or is_unknown(src):
            rep.undecided(f"{key}/stream", where, f"the random stream of a draw is {tm.show(src)[:100]}")
        else:
            what = "no stream at all, so it is never renewed" if src is tm.NONE else tm.show(src)[:80]
            rep.violation(f"{key}/stream", where, f"the draw {tm.show(x)[:120]} doesn't use the random stream that the caller supplies, but {what}")


def subterms(t):
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if not isinstance(x, tm.T) or x.id in seen:
            continue
        seen.add(x.id)
        yield x
        todo.extend(x.args)


def evaluate(ts, decl, integers=(), assume=None, gauss=False, projective=False):
    """The kernel that computes the terms ``ts``.

    ``decl``: ``{term or name: (name, dims)}`` of the declared tensors.
    """
    E = Tensors(integers=integers, assume=assume)
    for k, d in decl.items():
        if isinstance(k, str):
            E.declare(sym(k), k, d)
        elif isinstance(d, tm.T):
            E.env[k] = E.ev(d)
        else:
            E.declare(k, d[0], d[1])
    tvs = [E.ev(t) for t in ts]
    lams, dims = [], [tv.dims for tv in tvs]
    for tv in tvs:
        L = tv.lam()
        if gauss:
            g = tn.gaussian(L, tv.dims, E.draws)
            if g is None:
                raise Unmodelled("not an affine function of independent standard normals")
            if g[0] == "dependent":
                raise Dependent("the same noise elements are used for two purposes")
            lams += [Lam(x.params, P.reduce_inverses(x.body)) for x in g]
        else:
            lams.append(L)
    if projective:
        for d in E.draws.values():
            for k in d.params:
                d.params[k] = Lam(d.params[k].params, tn.projective(d.params[k].body))
    return Kernel(lams, E, dims)


class Dependent(Exception):
    pass


def difference(a, b, names=None):
    """``None`` if two kernels are the same, a description of the difference otherwise."""
    if len(a.results) != len(b.results):
        return f"{len(a.results)} results instead of {len(b.results)}"
    for x, y in zip(a.dims, b.dims):
        if [d.key() for d in x] != [d.key() for d in y]:
            return f"the dimensions are {[d.key() for d in x]} instead of {[d.key() for d in y]}"
    return tn.match(a.results, a.E.draws, b.results, b.E.draws)


def leaves(t):
    """The alternatives of a gated term, or of a tuple with gated components."""
    return list(tm.leaves(t))


def component(t, i):
    """Component ``i`` of a tuple-valued term (through gates)."""
    if t.op == "ite":
        return tm.ite(t.args[0], component(t.args[1], i), component(t.args[2], i))
    if t.op == "cat" and all(p.op == "one" for p in t.args):
        return t.args[i].args[0] if i < len(t.args) else None
    return None


def check(rep, key, where, t, refs, decl, components=None, known=(), also=None, **opts):
    """Each alternative of ``t`` has to be one of the reference kernels ``refs``.

    ``refs``: terms; ``known``: ``(id, term)`` of recorded findings.
    """
    if is_unknown(t):
        rep.undecided(key, where, "the function contains a construct that isn't modelled")
        return None
    if also is not None:
        also(rep, key, where, t)
    if components is not None:
        ts = [component(t, i) for i in components]
        if any(x is None for x in ts):
            rep.violation(key, where, "the result doesn't have the documented components")
            return None
    else:
        ts = [t]

    def ref_kernels(rs):
        out = []
        for r in rs:
            rr = [component(r, i) for i in components] if components is not None else [r]
            out.append(evaluate(rr, decl, **opts))
        return out

    R = ref_kernels(refs)
    K = [(kid, ref_kernels([r])[0]) for kid, r in known]
    alts = alternatives(ts)
    status = "ok"
    for n, alt in enumerate(alts):
        rep.count("alternatives compared")
        k2 = f"{key}" if len(alts) == 1 else f"{key}/{n}"
        try:
            A = evaluate(alt, decl, **opts)
        except ZeroDivisionError:
            rep.violation(k2, where, "divides by a quantity that is zero for every model of the required form")
            status = "bad"
            continue
        except ShapeError as e:
            rep.violation(k2, where, f"the operands don't conform: {e}")
            status = "bad"
            continue
        except Dependent as e:
            rep.violation(k2, where, str(e))
            status = "bad"
            continue
        except Unmodelled as e:
            rep.undecided(k2, where, f"not expressible: {e}")
            status = "undecided"
            continue
        rep.count("draws compared", len(A.E.draws))
        reasons = []
        for r in R:
            d = difference(A, r)
            if d is None:
                reasons = None
                break
            reasons.append(d)
        if reasons is None:
            rep.ok(k2, where)
            continue
        for kid, r in K:
            if difference(A, r) is None:
                rep.known(kid, k2, where, "")
                break
        else:
            status = "bad"
            rep.violation(k2, where, describe(A, R, reasons))
    return status


def alternatives(ts):
    """The combinations of the alternatives of ``ts`` under consistent conditions."""
    out = []

    def go(ts):
        for t in ts:
            c = t.args[0] if t.op == "ite" else None
            if c is None:
                c = next((x.args[0] for x in subterms(t) if x.op == "ite" and splits(x.args[0])), None)
            if c is not None:
                go([tm.subst(x, {c: tm.TRUE}) for x in ts])
                go([tm.subst(x, {c: tm.FALSE}) for x in ts])
                return
        if ts not in out:
            out.append(ts)

    go(list(ts))
    return out


def splits(c):
    """Conditions that are decided when the graph is built, not by its values."""
    return c.op not in ("lt", "eq", "truthy") or c.op == "truthy" and c.args[0].op == "call" and c.args[0].args[0] == "ae:_is_sparse_variable"


def describe(A, R, reasons):
    best = reasons[0]
    lines = [best]
    try:
        for u, d in A.E.draws.items():
            lines.append(f"draws {d.family} with " + ", ".join(f"{k} = {x.key()[:600]}" for k, x in d.params.items()))
        for r in A.results:
            lines.append(f"returns {r.key()[:600]}")
        for u, d in R[0].E.draws.items():
            lines.append(f"expected: draws {d.family} with " + ", ".join(f"{k} = {x.key()[:600]}" for k, x in d.params.items()))
        for r in R[0].results:
            lines.append(f"expected: returns {r.key()[:600]}")
    except Unmodelled:
        pass
    return "\n    ".join(lines)
