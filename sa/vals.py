"""Containers, arithmetic and conditions over terms.

Sequences are ``cat(pieces)``; a piece is ``one(x)``, ``spl(S)`` (all elements
of an opaque sequence), ``fm(dom, i -> cat)`` (one contribution per element of
an opaque domain) or ``opt(c, A, B)``.  Dictionaries are ``dct(pieces)`` with
``kv``, ``dspl``, ``dfm``, ``dopt``, ``ddel`` and ``ddelfm`` pieces, and sets
are unordered ``sett(pieces)``.
"""
from fractions import Fraction

from . import terms as tm
from .terms import (
    FALSE,
    NONE,
    TRUE,
    And,
    Not,
    Or,
    T,
    app,
    atom,
    const,
    fresh,
    is_cond,
    is_const,
    ite,
    lam,
    lift,
    map_leaves,
    mk,
    raw,
)

# ---------------------------------------------------------------- facts

NONNULL = set()  # terms known not to be None
TRUTHY = set()
DOM_OF = {}  # iteration index -> domain
DISTINCT = [None]  # predicate: are the elements of this domain distinct?

NEVER_NONE = {
    "call",
    "mcall",
    "draw",
    "cat",
    "dct",
    "sett",
    "ref",
    "slot",
    "obj",
    "cls",
    "fn",
    "lam",
    "add",
    "mul",
    "pow",
    "one",
    "glob",
    "kernel",
    "img",
    "eff",
    "new",
    "str",
    "partial",
    "len",
    "et",
    "etz",
    "etop",
    "lv",
}


# ---------------------------------------------------------------- sequences


def one(x):
    return raw("one", x)


def spl(S):
    return raw("spl", S)


def cat(*pieces):
    out = []

    def add(p):
        if p.op == "cat":
            for q in p.args:
                add(q)
        elif p.op == "spl":
            S = p.args[0]
            if S.op == "cat":
                add(S)
            elif S.op == "ite" and all(
                x.op in ("cat", "const") or x.op == "dct" for x in tm.leaves(S)
            ):
                add(map_leaves(S, as_seq_leaf))
            elif S.op == "const" and isinstance(S.args[0], (str, tuple)):
                for x in S.args[0]:
                    out.append(one(const(x)))
            else:
                out.append(p)
        elif p.op == "opt":
            c, A, B = p.args
            if c is TRUE:
                add(A)
            elif c is FALSE:
                add(B)
            elif A is B:
                add(A)
            elif len(A.args) == len(B.args) == 1 and A.args[0].op == B.args[0].op == "one":
                out.append(one(ite(c, A.args[0].args[0], B.args[0].args[0])))
            elif not B.args and len(A.args) > 1:
                for q in A.args:
                    add(raw("opt", c, raw("cat", q), EMPTY))
            elif not A.args:
                add(raw("opt", Not(c), B, A))
            elif not B.args and A.args[0].op == "opt" and not A.args[0].args[2].args:
                add(raw("opt", And(c, A.args[0].args[0]), A.args[0].args[1], EMPTY))
            else:
                out.append(p)
        elif p.op == "fm":
            dom, f = p.args
            body = f.args[-1]
            if body is EMPTY:
                return
            bv = f.args[0]
            if (
                len(body.args) == 1
                and body.args[0].op == "one"
                and body.args[0].args[0] is at(dom, bv)
                and dom.op not in ("range", "revdom", "zipdom")
            ):
                out.append(spl(dom))
            else:
                out.append(p)
        elif p.op == "ite":
            add(raw("opt", atom(p.args[0]), seq_of(p.args[1]), seq_of(p.args[2])))
        else:
            out.append(p)

    for p in pieces:
        add(p)
    return raw("cat", *out)


EMPTY = raw("cat")


def tup(*xs):
    return cat(*[one(x) for x in xs])


def as_seq_leaf(x):
    return seq_of(x)


def seq_of(t):
    """``t`` as a ``cat``; opaque values are spliced."""
    if t.op == "cat":
        return t
    if t.op == "dct":
        return dkeys(t)
    if t.op == "sett":
        return cat(spl(t))
    if t.op == "const" and t.args[0] is None:
        return EMPTY
    if t.op == "ite":
        return ite(atom(t.args[0]), seq_of(t.args[1]), seq_of(t.args[2]))
    return cat(spl(t))


def fm(dom, i, body):
    """One contribution ``body`` (a cat) for each index ``i`` of ``dom``."""
    if body is EMPTY:
        return EMPTY
    return cat(raw("fm", dom, lam(i, body)))


def _merge_cat(c, A, B):
    a, b = list(A.args), list(B.args)
    pre = []
    while a and b and a[0] is b[0]:
        pre.append(a.pop(0))
        b.pop(0)
    suf = []
    while a and b and a[-1] is b[-1]:
        suf.insert(0, a.pop())
        b.pop()
    if len(a) == len(b) and all(x.op == y.op == "one" for x, y in zip(a, b)):
        mid = [one(ite(c, x.args[0], y.args[0])) for x, y in zip(a, b)]
    else:
        mid = [raw("opt", c, raw("cat", *a), raw("cat", *b))]
    return cat(*pre, *mid, *suf)


tm.MERGE["cat"] = _merge_cat


def at(S, i):
    """The element of the iteration domain ``S`` at index ``i``."""
    if S.op == "range":
        return i
    if S.op == "revdom":
        return at(S.args[0], i)
    if S.op == "zipdom":
        return tup(*[at(s, i) for s in S.args])
    if S.op == "ite" or i.op == "ite":
        return lift(at, S, i)
    if S.op == "cat":
        r = index_seq(S, i)
        if r is not None:
            return r
    return raw("at", S, i)


def length(t):
    if t.op == "ite":
        return map_leaves(t, length)
    if t.op in ("dct",):
        return add_(*[dlen(p) for p in t.args]) if t.args else const(0)
    if t.op != "cat":
        return raw("len", t)
    tot = [const(0)]
    for p in t.args:
        if p.op == "one":
            tot.append(const(1))
        elif p.op == "spl":
            tot.append(raw("len", p.args[0]))
        elif p.op == "fm":
            body = p.args[1].args[-1]
            if all(q.op == "one" for q in body.args):
                tot.append(mul_(const(len(body.args)), dom_len(p.args[0])))
            else:
                tot.append(raw("len", raw("cat", p)))
        elif p.op == "opt":
            tot.append(ite(p.args[0], length(p.args[1]), length(p.args[2])))
    return add_(*tot)


def dom_len(dom):
    if dom.op == "range":
        return dom.args[0]
    if dom.op == "revdom":
        return dom_len(dom.args[0])
    if dom.op == "zipdom":
        return dom_len(dom.args[0])
    return raw("len", dom)


def dlen(p):
    if p.op == "kv":
        return const(1)
    if p.op == "dspl":
        return raw("len", p.args[0])
    if p.op == "dfm":
        dom, f = p.args
        body = f.args[-1]
        if len(body.args) == 1 and body.args[0].op == "kv" and body.args[0].args[0] is at(dom, f.args[0]):
            return dom_len(dom)
    return raw("len", raw("dct", p))


def index_seq(S, k):
    """``S[k]`` for a cat ``S``, or None if that isn't known."""
    ps = S.args
    if k.op == "const" and isinstance(k.args[0], int):
        n = k.args[0]
        rng = ps if n >= 0 else ps[::-1]
        m = n if n >= 0 else -n - 1
        for p in rng:
            if p.op == "one":
                if m == 0:
                    return p.args[0]
                m -= 1
            elif p.op == "spl" and len(ps) == 1:
                return subscript(p.args[0], const(n))
            else:
                break
        if len(ps) == 1 and ps[0].op == "fm":
            f = ps[0].args[1]
            body = f.args[-1]
            if len(body.args) == 1 and body.args[0].op == "one":
                if n >= 0:
                    return map_body(app(f, k))
        return None
    if ps and ps[0].op in ("fm", "spl"):
        dom = ps[0].args[0]
        kd = DOM_OF.get(k)
        if kd is not None and same_len(kd, dom):
            if ps[0].op == "spl":
                return at(dom, k)
            body = app(ps[0].args[1], k)
            if len(body.args) == 1 and body.args[0].op == "one":
                return body.args[0].args[0]
    # k = 1 + i etc. after leading ones
    c, rest = split_const(k)
    if ps and ps[0].op == "one" and c >= 1:
        return index_seq(raw("cat", *ps[1:]), add_(k, const(-1)))
    # an offset by the length of the leading piece
    if ps and ps[0].op in ("fm", "spl"):
        l = length(raw("cat", ps[0]))
        for t, co in lin(k)[1].items():
            if t is l and co == 1:
                return index_seq(raw("cat", *ps[1:]), add_(k, mul_(const(-1), l)))
    return None


def map_body(b):
    return b.args[0].args[0]


def split_const(k):
    c, d = lin(k)
    return (c if isinstance(c, (int, Fraction)) else 0), d


def same_len(d1, d2):
    def base(d):
        while d.op == "revdom":
            d = d.args[0]
        return d

    d1, d2 = base(d1), base(d2)
    if d1 is d2:
        return True
    return dom_len(d1) is dom_len(d2)


def subscript(x, k):
    """``x[k]`` for immutable values."""
    if x.op == "ite" or k.op == "ite":
        return lift(subscript, x, k)
    if x.op == "cat":
        r = index_seq(x, k)
        if r is not None:
            return r
        if len(x.args) == 1 and x.args[0].op == "spl":
            return subscript(x.args[0].args[0], k)
        return raw("idx", x, k)
    if x.op == "dct":
        return dget(x, k)
    if x.op == "const" and k.op == "const":
        try:
            return const(x.args[0][k.args[0]])
        except Exception:
            return raw("idx", x, k)
    if k in DOM_OF and same_len(DOM_OF[k], x):
        return at(x, k)
    if x.op == "slice" and x.args[2] is NONE and x.args[3] in (NONE, const(1)):
        lo = x.args[1]
        if all(z.op == "const" and type(z.args[0]) is int and z.args[0] >= 0 for z in (lo, k)):
            return subscript(x.args[0], const(lo.args[0] + k.args[0]))
    return raw("idx", x, k)


def slice_seq(x, lo, hi, step):
    """``x[lo:hi:step]``"""
    if x.op == "ite":
        return map_leaves(x, lambda y: slice_seq(y, lo, hi, step))
    if any(z.op == "ite" for z in (lo, hi, step)):
        return lift(lambda a, b, c: slice_seq(x, a, b, c), lo, hi, step)
    if x.op == "cat" and step.op == "const" and step.args[0] in (None, 1, -1):
        if step.args[0] == -1:
            if lo is NONE and hi is NONE:
                return reverse(x)
            return raw("slice", x, lo, hi, step)
        pre = cut(x, lo)
        if pre is not None:
            _, rest = pre
            if hi is NONE:
                return rest
            if hi.op == "const" and isinstance(hi.args[0], int) and hi.args[0] < 0:
                ps = list(rest.args)
                n = -hi.args[0]
                if len(ps) >= n and all(p.op == "one" for p in ps[len(ps) - n :]):
                    return cat(*ps[: len(ps) - n])
            else:
                off = lo if lo is not NONE else const(0)
                c2 = cut(rest, add_(hi, mul_(const(-1), off)))
                if c2 is not None:
                    return c2[0]
    if x.op == "cat" and len(x.args) == 1 and x.args[0].op == "spl":
        x = x.args[0].args[0]
    if lo is NONE or lo is const(0):
        lo = NONE
        if hi is NONE and step.args[0] in (None, 1):
            return cat(spl(x))
    if step.op == "const" and step.args[0] == 1:
        step = NONE
    return raw("slice", x, lo, hi, step)


def cut(x, n):
    """Split a cat after its first ``n`` elements."""
    if n is NONE:
        return EMPTY, x
    ps = list(x.args)
    out = []
    if n.op == "const" and isinstance(n.args[0], int) and n.args[0] < 0:
        m = -n.args[0]
        if len(ps) >= m and all(p.op == "one" for p in ps[len(ps) - m :]):
            return cat(*ps[: len(ps) - m]), cat(*ps[len(ps) - m :])
        return None
    while True:
        c, d = lin(n)
        if not d and c == 0:
            return cat(*out), cat(*ps)
        if not ps:
            if not d and c > 0:
                return cat(*out), EMPTY
            return None
        p = ps[0]
        if p.op == "one":
            if c < 1:
                # maybe a length precedes: cannot tell the order
                return None
            n = add_(n, const(-1))
            out.append(ps.pop(0))
        elif p.op in ("spl", "fm"):
            l = length(raw("cat", p))
            lc, ld = lin(l)
            ok = all(d.get(t, 0) >= co for t, co in ld.items()) and c >= lc and ld
            if not ok:
                return None
            n = add_(n, mul_(const(-1), l))
            out.append(ps.pop(0))
        else:
            return None


def reverse(x):
    out = []
    for p in reversed(x.args):
        if p.op == "one":
            out.append(p)
        elif p.op == "spl":
            i = fresh("i")
            DOM_OF[i] = p.args[0]
            out.append(fm(revdom(p.args[0]), i, tup(at(p.args[0], i))))
        elif p.op == "fm":
            i = fresh("i")
            out.append(fm(revdom(p.args[0]), i, reverse(app(p.args[1], i))))
        elif p.op == "opt":
            out.append(raw("opt", p.args[0], reverse(p.args[1]), reverse(p.args[2])))
    return cat(*out)


def revdom(d):
    if d.op == "revdom":
        return d.args[0]
    return raw("revdom", d)


# ---------------------------------------------------------------- dictionaries


def kv(k, v):
    return raw("kv", k, v)


def dct(*pieces):
    out = []

    def add(p):
        if p.op == "dct":
            for q in p.args:
                add(q)
        elif p.op == "dspl":
            D = p.args[0]
            if D.op == "dct":
                add(D)
            elif D.op == "const" and D.args[0] is None:
                return
            elif D.op == "ite" and any(x.op == "dct" for x in tm.leaves(D)):
                add(
                    raw(
                        "dopt",
                        atom(D.args[0]),
                        dct(raw("dspl", D.args[1])),
                        dct(raw("dspl", D.args[2])),
                    )
                )
            else:
                out.append(p)
        elif p.op == "kv":
            k, v = p.args
            if k.op == "ite":
                add(
                    raw(
                        "dopt",
                        atom(k.args[0]),
                        dct(kv(k.args[1], v)),
                        dct(kv(k.args[2], v)),
                    )
                )
                return
            _store(out, k, v)
        elif p.op == "dfm":
            dom, f = p.args
            body = f.args[-1]
            if body is DEMPTY:
                return
            bv = f.args[0]
            if len(body.args) == 1 and body.args[0].op == "kv":
                k, v = body.args[0].args
                if k is at(dom, bv) and v is raw("idx", dom, k):
                    add(raw("dspl", dom))
                    return
            if len(body.args) == 1 and body.args[0].op == "dspl":
                pass
            out.append(p)
        elif p.op == "dopt":
            c, A, B = p.args
            if c is TRUE or A is B:
                add(A)
            elif c is FALSE:
                add(B)
            elif (
                len(A.args) == len(B.args) == 1
                and A.args[0].op == B.args[0].op == "kv"
                and A.args[0].args[0] is B.args[0].args[0]
            ):
                add(kv(A.args[0].args[0], ite(c, A.args[0].args[1], B.args[0].args[1])))
            elif not A.args:
                add(raw("dopt", Not(c), B, A))
            elif not B.args and len(A.args) > 1:
                for q in A.args:
                    add(raw("dopt", c, raw("dct", q), DEMPTY))
            elif (
                not B.args
                and A.args[0].op == "dopt"
                and not A.args[0].args[2].args
            ):
                add(raw("dopt", And(c, A.args[0].args[0]), A.args[0].args[1], DEMPTY))
            elif not B.args and A.args[0].op == "dspl" and _nonempty_cond(A.args[0].args[0], c):
                # splicing a possibly empty dictionary when it isn't empty
                add(A.args[0])
            elif (
                not B.args
                and A.args[0].op == "dfm"
                and _nonempty_cond(A.args[0].args[0], c)
            ):
                add(A.args[0])
            else:
                out.append(p)
        elif p.op == "ite":
            add(raw("dopt", atom(p.args[0]), dict_of(p.args[1]), dict_of(p.args[2])))
        else:
            out.append(p)

    for p in pieces:
        add(p)
    return raw("dct", *out)


def _nonempty_cond(D, c):
    return c is truth(D)


def _store(out, k, v):
    j = len(out) - 1
    while j >= 0:
        p = out[j]
        if p.op == "kv":
            if p.args[0] is k:
                out[j] = kv(k, v)
                return
            if p.args[0].op == "const" and k.op == "const":
                j -= 1
                continue
            break
        if (
            p.op == "dopt"
            and not p.args[2].args
            and all(q.op == "kv" and q.args[0] is k for q in p.args[1].args)
        ):
            del out[j]
            j -= 1
            continue
        break
    out.append(kv(k, v))


DEMPTY = raw("dct")


def dict_of(t):
    if t.op == "dct":
        return t
    if t.op == "const" and t.args[0] is None:
        return DEMPTY
    if t.op == "cat":
        return dict_from_pairs(t)
    if t.op == "ite":
        return ite(atom(t.args[0]), dict_of(t.args[1]), dict_of(t.args[2]))
    return dct(raw("dspl", t))


def dfm(dom, i, body):
    if body is DEMPTY:
        return DEMPTY
    return dct(raw("dfm", dom, lam(i, body)))


def _merge_dct(c, A, B):
    a, b = list(A.args), list(B.args)
    pre = []
    while a and b and a[0] is b[0]:
        pre.append(a.pop(0))
        b.pop(0)
    suf = []
    while a and b and a[-1] is b[-1]:
        suf.insert(0, a.pop())
        b.pop()
    if len(a) == len(b) and all(
        x.op == y.op == "kv" and x.args[0] is y.args[0] for x, y in zip(a, b)
    ):
        mid = [kv(x.args[0], ite(c, x.args[1], y.args[1])) for x, y in zip(a, b)]
    else:
        mid = [raw("dopt", c, raw("dct", *a), raw("dct", *b))]
    return dct(*pre, *mid, *suf)


tm.MERGE["dct"] = _merge_dct


def dict_from_pairs(seq):
    out = []
    for p in seq.args:
        if p.op == "one":
            x = p.args[0]
            out.append(pair_to_dict(x))
        elif p.op == "fm":
            i = fresh("i")
            DOM_OF[i] = p.args[0]
            out.append(dfm(p.args[0], i, dict_from_pairs(app(p.args[1], i))))
        elif p.op == "opt":
            out.append(
                dct(
                    raw(
                        "dopt",
                        p.args[0],
                        dict_from_pairs(p.args[1]),
                        dict_from_pairs(p.args[2]),
                    )
                )
            )
        elif p.op == "spl":
            S = p.args[0]
            if S.op == "zipdom":
                i = fresh("i")
                out.append(dfm(S, i, dct(kv(at(S.args[0], i), at(S.args[1], i)))))
            else:
                out.append(dct(raw("dspl", raw("call", "py:dict", S))))
    return dct(*out)


def pair_to_dict(x):
    if x.op == "ite":
        return ite(atom(x.args[0]), pair_to_dict(x.args[1]), pair_to_dict(x.args[2]))
    return dct(kv(subscript(x, const(0)), subscript(x, const(1))))


def dkeys(d):
    out = []
    for p in d.args:
        if p.op == "kv":
            out.append(one(p.args[0]))
        elif p.op == "dspl":
            out.append(spl(p.args[0]))
        elif p.op == "dfm":
            i = fresh("i")
            DOM_OF[i] = p.args[0]
            out.append(fm(p.args[0], i, dkeys(app(p.args[1], i))))
        elif p.op == "dopt":
            out.append(raw("opt", p.args[0], dkeys(p.args[1]), dkeys(p.args[2])))
        else:
            return cat(spl(d))
    return cat(*out)


def ditems(d, f=None):
    """Sequence of ``f(k, v)`` for the items of ``d``."""
    f = f or (lambda k, v: tup(k, v))
    if d.op == "ite":
        return map_leaves(d, lambda x: ditems(x, f))
    if d.op == "const":
        return EMPTY
    if d.op != "dct":
        d = dct(raw("dspl", d))
    out = []
    for p in d.args:
        if p.op == "kv":
            out.append(one(f(*p.args)))
        elif p.op == "dspl":
            D = p.args[0]
            i = fresh("i")
            DOM_OF[i] = D
            k = at(D, i)
            out.append(fm(D, i, cat(one(f(k, raw("idx", D, k))))))
        elif p.op == "dfm":
            i = fresh("i")
            DOM_OF[i] = p.args[0]
            out.append(fm(p.args[0], i, ditems(app(p.args[1], i), f)))
        elif p.op == "dopt":
            out.append(raw("opt", p.args[0], ditems(p.args[1], f), ditems(p.args[2], f)))
        else:
            i = fresh("i")
            DOM_OF[i] = d
            k = at(d, i)
            return fm(d, i, cat(one(f(k, raw("idx", d, k)))))
    return cat(*out)


def distinct_domain(dom):
    return DISTINCT[0] is None or DISTINCT[0](dom)


def match_key(ki, bv, k):
    """The index at which the key ``ki`` (a function of ``bv``) equals ``k``."""
    if ki.op == "at" and k.op == "at" and ki.args[1] is bv and ki.args[0] is k.args[0]:
        return k.args[1]
    if ki.op == k.op and ki.op not in ("at", "bv", "const") and len(ki.args) == len(k.args):
        res = None
        for a, b in zip(ki.args, k.args):
            if isinstance(a, T) and bv in a._fb:
                r = match_key(a, bv, b)
                if r is None or (res is not None and r is not res):
                    return None
                res = r
            elif a is not b and a != b:
                return None
        return res
    return None


def dget(d, k, default=None):
    """``d[k]`` (``default`` is None) or ``d.get(k, default)``."""
    if d.op == "ite" or k.op == "ite":
        return lift(lambda a, b: dget(a, b, default), d, k)
    if d.op == "const" and d.args[0] is None:
        return default if default is not None else raw("idx", d, k)
    if d.op != "dct":
        d = dct(raw("dspl", d))

    def scan(ps):
        if not ps:
            return default
        p = ps[-1]
        if p.op == "kv":
            e = eq(p.args[0], k)
            if e is TRUE:
                return p.args[1]
            rest = scan(ps[:-1])
            if e is FALSE:
                return rest
            return p.args[1] if rest is None else ite(e, p.args[1], rest)
        if p.op == "dspl":
            D = p.args[0]
            c = contains(k, D)
            v = raw("idx", D, k)
            if c is TRUE:
                return v
            rest = scan(ps[:-1])
            return v if rest is None else ite(c, v, rest)
        if p.op == "dfm":
            dom, f = p.args
            body = f.args[-1]
            if len(body.args) == 1 and body.args[0].op == "kv":
                j = match_key(body.args[0].args[0], f.args[0], k)
                if j is not None:
                    return app(f, j).args[0].args[1]
            rest = scan(ps[:-1])
            v = raw("lookup", raw("dct", p), k)
            if rest is None:
                return v
            return ite(contains(k, raw("dct", p)), v, rest)
        if p.op == "dopt":
            c, A, B = p.args
            a = scan(ps[:-1] + A.args)
            b = scan(ps[:-1] + B.args)
            if a is None and b is None:
                return None
            if a is None:
                return b
            if b is None:
                return a
            return ite(c, a, b)
        if p.op == "ddel":
            e = eq(p.args[0], k)
            rest = scan(ps[:-1])
            if e is FALSE:
                return rest
            if default is None:
                return rest
            return ite(e, default, rest)
        if p.op == "ddelfm":
            rest = scan(ps[:-1])
            if default is None:
                return rest
            return ite(deleted_by(p, k), default, rest)
        return raw("lookup", raw("dct", *ps), k)

    r = scan(d.args)
    if r is None:
        return raw("idx", d, k)
    return r


def deleted_by(p, k):
    dom, f = p.args
    i = fresh("i")
    DOM_OF[i] = dom
    return exists(dom, i, contains(k, app(f, i)))


def dstore(d, k, v):
    return dct(*d.args, kv(k, v))


def ddelete(d, k):
    ps = list(d.args)
    for j in range(len(ps) - 1, -1, -1):
        p = ps[j]
        if p.op == "kv":
            e = eq(p.args[0], k)
            if e is TRUE:
                # earlier pieces could still hold the key
                rest = ddelete(raw("dct", *ps[:j]), k)
                return dct(*rest.args, *ps[j + 1 :])
            if e is FALSE:
                continue
        break
    if all(p.op == "kv" and eq(p.args[0], k) is FALSE for p in ps):
        return d
    return dct(*ps, raw("ddel", k))


# ---------------------------------------------------------------- sets


def sett(*xs):
    """A set with the elements of the given pieces (order is immaterial)."""
    ps = set()

    def add(p):
        if p.op in ("sett", "cat"):
            for q in p.args:
                add(q)
        elif p.op == "spl" and p.args[0].op in ("sett", "cat"):
            add(p.args[0])
        elif p.op == "opt" and (p.args[0] in (TRUE, FALSE)):
            add(p.args[1] if p.args[0] is TRUE else p.args[2])
        else:
            ps.add(p)

    for x in xs:
        add(x)
    return raw("sett", *sorted(ps, key=lambda p: p.id))


SEMPTY = raw("sett")


def _merge_set(c, A, B):
    a, b = set(A.args), set(B.args)
    common = a & b
    x = sorted(a - b, key=lambda p: p.id)
    y = sorted(b - a, key=lambda p: p.id)
    ps = list(common)
    ps += [raw("opt", c, raw("cat", p), EMPTY) for p in x]
    ps += [raw("opt", Not(c), raw("cat", p), EMPTY) for p in y]
    return sett(*ps)


tm.MERGE["sett"] = _merge_set


def set_of(t):
    if t.op == "sett":
        return t
    if t.op == "ite":
        return ite(atom(t.args[0]), set_of(t.args[1]), set_of(t.args[2]))
    return sett(*seq_of(t).args)


# ---------------------------------------------------------------- arithmetic


def num(x):
    if isinstance(x, Fraction) and x.denominator == 1:
        return int(x)
    return x


def lin(t):
    """``(constant, {term: coefficient})``"""
    if t.op == "const" and isinstance(t.args[0], (int, float, Fraction)):
        return (int(t.args[0]) if isinstance(t.args[0], bool) else t.args[0]), {}
    if t.op == "add":
        c, d = 0, {}
        for a in t.args:
            c2, d2 = lin(a)
            c = c + c2
            for k, v in d2.items():
                d[k] = d.get(k, 0) + v
        return c, d
    if t.op == "mul" and t.args[0].op == "const":
        rest = t.args[1:]
        base = rest[0] if len(rest) == 1 else raw("mul", *rest)
        return 0, {base: t.args[0].args[0]}
    return 0, {t: 1}


def from_lin(c, d):
    items = []
    for k, v in d.items():
        if v == 0:
            continue
        items.append(k if v == 1 else mul_(const(v), k))
    items.sort(key=lambda x: x.id)
    if c != 0 or not items:
        items.insert(0, const(c))
    if len(items) == 1:
        return items[0]
    return raw("add", *items)


def is_num(t):
    return t.op == "const" and isinstance(t.args[0], (int, float, Fraction))


def add_(*xs):
    def go(*xs):
        c, d = 0, {}
        for x in xs:
            c2, d2 = lin(x)
            c = num(c + c2)
            for k, v in d2.items():
                d[k] = num(d.get(k, 0) + v)
        return from_lin(c, d)

    return lift(go, *xs)


def mul_(*xs):
    def go(*xs):
        c = 1
        fs = []
        for x in xs:
            if is_num(x):
                c = num(c * x.args[0])
            elif x.op == "mul":
                for y in x.args:
                    if is_num(y):
                        c = num(c * y.args[0])
                    else:
                        fs.append(y)
            else:
                fs.append(x)
        if not fs:
            return const(c)
        if len(fs) == 1 and fs[0].op == "add":
            c1, d = lin(fs[0])
            return from_lin(num(c1 * c), {k: num(v * c) for k, v in d.items()})
        fs.sort(key=lambda x: x.id)
        if c != 1:
            fs.insert(0, const(c))
        if len(fs) == 1:
            return fs[0]
        return raw("mul", *fs)

    return lift(go, *xs)


def pow_(a, b):
    def go(a, b):
        if is_num(b):
            if b.args[0] == 1:
                return a
            if is_num(a):
                try:
                    return const(a.args[0] ** b.args[0])
                except Exception:
                    pass
            e = b.args[0]
            if isinstance(e, float):
                e = num(Fraction(e).limit_denominator(1000))
            b = const(e)
        return raw("pow", a, b)

    return lift(go, a, b)


def neg(x):
    return mul_(const(-1), x)


def sub_(a, b):
    return add_(a, neg(b))


def div_(a, b):
    if is_num(a) and is_num(b) and b.args[0] != 0:
        return const(num(Fraction(a.args[0]) / Fraction(b.args[0]))) if all(
            isinstance(z.args[0], (int, Fraction)) for z in (a, b)
        ) else const(a.args[0] / b.args[0])
    return mul_(a, pow_(b, const(-1)))


# ---------------------------------------------------------------- conditions


def is_update(x):
    """The values of ``RandomStream.state_updates`` are the generators' next states, which are neither ``None`` nor false."""
    return x.op == "idx" and isinstance(x.args[0], T) and x.args[0].op == "attr" and x.args[0].args[1] == "state_updates"


def isnone(t):
    def leaf(x):
        if x is NONE:
            return TRUE
        if x in NONNULL or x.op in NEVER_NONE or x.op == "const" or is_update(x):
            return FALSE
        if tm.is_cond(x):
            return FALSE
        return atom(raw("isnone", x))

    return _cond_map(t, leaf)


def _cond_map(t, leaf):
    return map_leaves(t, leaf)


TRUTH_HOOK = []


def all_elements(x):
    """Is an element-wise comparison true for all the elements?"""
    if x.args[0] == "eq":
        return atom(raw("alleq", x.args[1], x.args[2]))
    return Not(atom(raw("anyeq", x.args[1], x.args[2])))


def any_element(x):
    if x.args[0] == "eq":
        return atom(raw("anyeq", x.args[1], x.args[2]))
    return Not(atom(raw("alleq", x.args[1], x.args[2])))


def elt(kind, a, b):
    def go(a, b):
        if b.id < a.id:
            a, b = b, a
        return raw("elt", kind, a, b)

    return lift(go, a, b)


NONE_OR_TRUE_ATTRS = {"owner", "default_update"}


def truth(t):
    """The condition that ``t`` is true in a boolean context."""

    def leaf(x):
        if x.op == "const":
            return TRUE if x.args[0] else FALSE
        if x in TRUTHY or is_update(x):
            return TRUE
        for h in TRUTH_HOOK:
            r = h(x)
            if r is not None:
                return r
        if x.op == "elt":
            return all_elements(x)
        if x.op == "cat":
            r = FALSE
            for p in x.args:
                if p.op == "one":
                    return TRUE
                if p.op == "spl":
                    r = Or(r, truth(p.args[0]))
                elif p.op == "opt":
                    r = Or(r, ite(p.args[0], truth(p.args[1]), truth(p.args[2])))
                elif p.op == "fm":
                    body = p.args[1].args[-1]
                    i = fresh("i")
                    DOM_OF[i] = p.args[0]
                    r = Or(r, exists(p.args[0], i, truth(app(p.args[1], i))))
            return r
        if x.op == "dct":
            if any(p.op.startswith("ddel") for p in x.args):
                return atom(raw("truthy", x))
            return truth(dkeys(x))
        if x.op == "sett":
            return truth(raw("cat", *x.args))
        if x.op == "attr" and x.args[1] in NONE_OR_TRUE_ATTRS:
            return Not(isnone(x))
        if x.op in ("obj", "cls", "fn", "partial", "glob", "et", "lam", "img"):
            return TRUE
        if x.op == "len":
            return truth(x.args[0])
        if x.op in ("revdom",):
            return truth(x.args[0])
        if x.op == "range":
            return Not(lt(x.args[0], const(1)))
        if x.op == "str":
            return TRUE
        return atom(raw("truthy", x))

    return _cond_map(t, leaf)


tm.AS_COND[0] = lambda t: decide(t)


def decide(t):
    """Re-decide an atom after substitution."""
    if t.op == "ite":
        return ite(as_c(t.args[0]), as_c(t.args[1]), as_c(t.args[2]))
    f = ATOM_REBUILD.get(t.op)
    if f is not None:
        return f(*t.args)
    if t is TRUE or t is FALSE:
        return t
    return atom(t)


def as_c(t):
    return t if is_cond(t) else decide(t)


def exists(dom, i, c):
    if c is FALSE:
        return FALSE
    if c is TRUE:
        return truth(dom)
    if dom.op == "call" and dom.args[0] == "setiter":
        # in which order a set is searched doesn't matter
        inner = dom.args[1]
        while inner.op == "sett" and len(inner.args) == 1:
            b = inner.args[0]
            if b.op == "cat" and len(b.args) == 1:
                b = b.args[0]
            if b.op != "spl":
                break
            inner = b.args[0]
        old = raw("at", dom, i)
        DOM_OF[i] = inner
        c = as_c(tm.subst(c, {old: raw("at", inner, i)}))
        return exists(inner, i, c)
    if i not in c._fb:
        return And(truth(dom), c)
    if dom.op == "sett":
        e = fresh("e")
        d = tm.subst(c, {raw("at", dom, i): e})
        if i not in d._fb:
            r = exists_part(dom, e, as_c(d))
            if r is not None:
                return r
    if c.op == "ite":
        free = [a for a in tm.atoms(c) if i not in a._fb]
        if free:
            a = min(free, key=lambda x: x.id)
            return ite(
                atom(a),
                exists(dom, i, tm.assume(c, a, True)),
                exists(dom, i, tm.assume(c, a, False)),
            )
    return atom(raw("exists", dom, lam(i, c)))


def exists_part(t, e, c):
    """Is ``c`` true of an element ``e`` of the collection ``t``?"""
    r = FALSE
    for p in t.args:
        if p.op == "one":
            x = as_c(tm.subst(c, {e: p.args[0]}))
        elif p.op == "opt" and p.args[1].op in ("cat", "sett") and p.args[2].op in ("cat", "sett"):
            a, b = exists_part(p.args[1], e, c), exists_part(p.args[2], e, c)
            if a is None or b is None:
                return None
            x = ite(p.args[0], a, b)
        elif p.op == "fm" and p.args[1].op == "lam" and len(p.args[1].args) == 2:
            j = fresh("i")
            DOM_OF[j] = p.args[0]
            body = app(p.args[1], j)
            if body.op not in ("cat", "sett"):
                return None
            x = exists_part(body, e, c)
            if x is None:
                return None
            x = exists(p.args[0], j, x)
        elif p.op == "spl" and p.args[0].op in ("cat", "sett"):
            x = exists_part(p.args[0], e, c)
            if x is None:
                return None
        else:
            return None
        r = Or(r, x)
    return r


def _rebuild_exists(dom, f):
    if f.op != "lam":
        return atom(raw("exists", dom, f))
    i = fresh("i")
    DOM_OF[i] = dom
    return exists(dom, i, as_c(app(f, i)))


def distinct_keys(a, b):
    """Are ``a`` and ``b`` certainly different objects?"""
    if a.op == "const" and b.op == "const":
        return a is not b and a.args[0] != b.args[0]
    if {a.op, b.op} == {"const", "cat"}:
        return True
    if a.op == "lv" and b.op == "lv":
        return a is not b
    return False


def is_array(t):
    """Numeric data, which is compared element by element."""
    return t.op == "attr" and t.args[1] == "data"


def eq(a, b):
    def go(a, b):
        if a is b:
            return TRUE
        if a.op == "const" and b.op == "const":
            return TRUE if a.args[0] == b.args[0] else FALSE
        if a is NONE:
            return isnone(b)
        if b is NONE:
            return isnone(a)
        if a.op == "cat" and b.op == "cat":
            if all(p.op == "one" for p in a.args + b.args):
                if len(a.args) != len(b.args):
                    return FALSE
                return And(*[eq(x.args[0], y.args[0]) for x, y in zip(a.args, b.args)])
        if a.op == "glob" and b.op == "glob":
            return FALSE
        if distinct_keys(a, b):
            return FALSE
        if a.op in ("len",) and b is const(0):
            return Not(truth(a))
        if b.op in ("len",) and a is const(0):
            return Not(truth(b))
        if a is TRUE:
            return truth(b)
        if b is TRUE:
            return truth(a)
        if is_num(a) or is_num(b) or "add" in (a.op, b.op) or "len" in (a.op, b.op):
            d = sub_(a, b)
            if is_num(d):
                return TRUE if d.args[0] == 0 else FALSE
            a, b = balance(d)
            if a.op == "len" and b is const(0):
                return Not(truth(a))
            if b.op == "len" and a is const(0):
                return Not(truth(b))
        if a.id > b.id:
            a, b = b, a
        return atom(raw("eq", a, b))

    if (is_cond(a) and a.op == "ite") or (is_cond(b) and b.op == "ite"):
        if is_cond(a) and is_cond(b):
            return ite(a, b, Not(b))
    return lift(go, a, b)


def balance(d):
    """``(a, b)`` with ``d = a - b``, both without negative coefficients."""
    c, m = lin(d)
    a = from_lin(c if c > 0 else 0, {t: k for t, k in m.items() if k > 0})
    b = from_lin(-c if c < 0 else 0, {t: -k for t, k in m.items() if k < 0})
    return a, b


def no_longer(a, b):
    """Whether the sequence ``a`` cannot be longer than ``b`` because it's made from the latter's elements."""
    if a.op != "dct" or len(a.args) != 1 or a.args[0].op != "dfm":
        return False
    dom, f = a.args[0].args
    if dom.op == "call" and dom.args[0] == "setiter":
        dom = dom.args[1]
    if b.op == "call" and b.args[0] == "setiter":
        b = b.args[1]
    body = f.args[-1]
    return dom is b and len(body.args) == 1 and body.args[0].op == "kv"


def lt(a, b):
    def go(a, b):
        if a.op == "len" and b.op == "len":
            if no_longer(b.args[0], a.args[0]):
                return FALSE
            if no_longer(a.args[0], b.args[0]):
                return Not(eq(a, b))
        if "add" in (a.op, b.op):
            a, b = balance(sub_(a, b))
        if is_num(a) and is_num(b):
            return TRUE if a.args[0] < b.args[0] else FALSE
        if a.op == "len" and b.op == "const" and b.args[0] == 1:
            return Not(truth(a))
        if a.op == "const" and a.args[0] == 0 and b.op == "len":
            return truth(b)
        return atom(raw("lt", a, b))

    return lift(go, a, b)


def contains(k, C):
    def go(k, C):
        if C.op == "const":
            return FALSE
        if C.op == "dct":
            r = FALSE
            for p in C.args:
                if p.op == "kv":
                    r = Or(r, eq(p.args[0], k))
                elif p.op == "dspl":
                    r = Or(r, contains(k, p.args[0]))
                elif p.op == "dfm":
                    i = fresh("i")
                    DOM_OF[i] = p.args[0]
                    body = app(p.args[1], i)
                    r = Or(r, _exists_in(p.args[0], i, body, k))
                elif p.op == "dopt":
                    r = ite(
                        p.args[0],
                        Or(r, contains(k, p.args[1])),
                        Or(r, contains(k, p.args[2])),
                    )
                elif p.op == "ddel":
                    r = And(r, Not(eq(p.args[0], k)))
                elif p.op == "ddelfm":
                    r = And(r, Not(deleted_by(p, k)))
                else:
                    return atom(raw("in", k, C))
            return r
        if C.op in ("cat", "sett"):
            r = FALSE
            for p in C.args:
                if p.op == "one":
                    r = Or(r, eq(p.args[0], k))
                elif p.op == "spl":
                    r = Or(r, contains(k, p.args[0]))
                elif p.op == "fm":
                    i = fresh("i")
                    DOM_OF[i] = p.args[0]
                    r = Or(r, _exists_in(p.args[0], i, app(p.args[1], i), k))
                elif p.op == "opt":
                    r = Or(
                        r, ite(p.args[0], contains(k, p.args[1]), contains(k, p.args[2]))
                    )
            return r
        if C.op == "revdom":
            return contains(k, C.args[0])
        if k.op == "at" and k.args[0] is C:
            return TRUE
        return atom(raw("in", k, C))

    return lift(go, k, C)


def _exists_in(dom, i, body, k):
    # an element of the domain itself
    if len(body.args) == 1:
        p = body.args[0]
        key = p.args[0] if p.op in ("kv", "one") else None
        if key is not None:
            j = match_key(key, i, k)
            if j is not None:
                return TRUE
            if key is at(dom, i) and dom.op not in ("range", "zipdom", "revdom"):
                return contains(k, dom)
        if p.op in ("opt", "dopt") and len(p.args[1].args) == 1 and not p.args[2].args:
            q = p.args[1].args[0]
            key = q.args[0] if q.op in ("kv", "one") else None
            if key is not None:
                j = match_key(key, i, k)
                if j is not None and distinct_domain(dom):
                    return tm.subst(p.args[0], {i: j})
                if key is at(dom, i) and dom.op not in ("range", "zipdom", "revdom"):
                    c = p.args[0]
                    return And(contains(k, dom), as_c(tm.subst(c, {at(dom, i): k}))) \
                        if i not in tm.subst(c, {at(dom, i): k})._fb \
                        else exists(dom, i, contains(k, body))
    return exists(dom, i, contains(k, body))


ATOM_REBUILD = {
    "eq": eq,
    "lt": lt,
    "in": contains,
    "exists": _rebuild_exists,
    "isnone": isnone,
    "truthy": truth,
}


# ---------------------------------------------------------------- rebuilding after substitution

R = tm.REBUILD
R["add"] = add_
R["mul"] = mul_
R["pow"] = pow_
R["at"] = at
R["idx"] = subscript
R["cat"] = cat
R["one"] = one
R["spl"] = spl
R["opt"] = lambda c, a, b: raw("opt", as_c(c), a, b)
R["fm"] = lambda d, f: raw("fm", d, f)
R["dct"] = dct
R["kv"] = kv
R["dspl"] = lambda d: raw("dspl", d)
R["dopt"] = lambda c, a, b: raw("dopt", as_c(c), a, b)
R["dfm"] = lambda d, f: raw("dfm", d, f)
R["ddel"] = lambda k: raw("ddel", k)
R["ddelfm"] = lambda d, f: raw("ddelfm", d, f)
R["sett"] = sett
R["len"] = length
R["lookup"] = lambda d, k: dget(d, k)
for _o in ("kout", "kapp", "kern"):
    # gates stay inside kernels
    R[_o] = (lambda o: lambda *a: raw(o, *a))(_o)
for _o in ("eq", "lt", "in", "exists", "isnone", "truthy"):
    # an atom whose arguments change is re-decided by ``rebuild`` of the gate
    R[_o] = (lambda o: lambda *a: raw(o, *a))(_o)
