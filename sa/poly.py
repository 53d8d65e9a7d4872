"""Polynomials in index notation.

An element of a tensor expression is a polynomial over *factors*: elements of
the input tensors, elements of random draws, Kronecker/Iverson brackets,
entries of matrix inverses and Cholesky factors, and powers of sums.
Contractions are explicit sums over bound indices, and everything is kept in a
canonical form, so that two ways to write the same expression coincide.
"""
import itertools
import math
from fractions import Fraction

_names = itertools.count()


def fresh(hint="s"):
    return f"{hint}~{next(_names):08d}"


class Unmodelled(Exception):
    pass


class Lam:
    """A polynomial with named parameters."""

    __slots__ = ("params", "body", "_key")

    def __init__(self, params, body):
        self.params, self.body = tuple(params), body
        self._key = None

    def key(self, env=None, depth=0):
        if env is None and self._key is not None:
            return self._key
        e = dict(env or {})
        params, body = self.params, self.body
        if len(params) > 1 and any(f[0] == "eq0" for _, fs, _ in body.terms for f, _ in fs):
            # the substitutions made under Kronecker deltas follow the order of the names
            params = [fresh("p") for _ in params]
            body = body.subst(dict(zip(self.params, [ix(q) for q in params])))
        for k, p in enumerate(params):
            e[p] = f"p{depth}.{k}"
        r = "λ%d." % len(params) + body.key(e, depth + 1)
        if env is None:
            self._key = r
        return r

    def free(self):
        return self.body.free() - set(self.params)

    def subst(self, m):
        m = {k: x for k, x in m.items() if k not in self.params}
        if not any(k in self.body.free() for k in m):
            return self
        # avoid capture
        ps = tuple(fresh("p") for _ in self.params)
        body = self.body.subst(dict({p: ix(q) for p, q in zip(self.params, ps)}, **m))
        return Lam(ps, body)

    def __call__(self, *xs):
        return self.body.subst(dict(zip(self.params, xs)))


def fkey(f, env, depth):
    kind, data, args = f
    if kind == "ix":
        return "ix:" + (env.get(data, data) if env else data)
    if isinstance(data, Lam):
        d = data.key(env or {}, depth)
    elif isinstance(data, tuple):
        d = "(" + ",".join(x.key(env or {}, depth) if isinstance(x, (Lam, Poly)) else str(x) for x in data) + ")"
    else:
        d = str(data)
    ks = [a.key(env or {}, depth) for a in args]
    if kind == "inv" and symmetric(data) or kind == "v" and data in SYMMETRIC:
        ks.sort()
    return f"{kind}:{d}[" + ",".join(ks) + "]"


def ffree(f):
    kind, data, args = f
    if kind == "ix":
        return {data}
    r = set()
    if isinstance(data, (Lam, Poly)):
        r |= data.free()
    elif isinstance(data, tuple):
        for x in data:
            if isinstance(x, (Lam, Poly)):
                r |= x.free()
    for a in args:
        r |= a.free()
    return r


class Poly:
    """``terms``: list of (coefficient, ((factor, exponent), ...), ((bound, range), ...))"""

    __slots__ = ("terms", "_key", "_free")

    def __init__(self, terms):
        self.terms = terms
        self._key = None
        self._free = None

    # -- canonical keys

    def key(self, env=None, depth=0):
        if not env and depth == 0 and self._key is not None:
            return self._key
        ks = sorted(f"{c}*{mkey(fs, bs, env or {}, depth)}" for c, fs, bs in self.terms)
        r = "(" + "+".join(ks) + ")"
        if not env and depth == 0:
            self._key = r
        return r

    def __repr__(self):
        return self.key()

    def __eq__(self, o):
        return isinstance(o, Poly) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def free(self):
        if self._free is None:
            r = set()
            for c, fs, bs in self.terms:
                s = set()
                for f, e in fs:
                    s |= ffree(f)
                for _, d in bs:
                    s |= d.free()
                r |= s - {n for n, _ in bs}
            self._free = r
        return self._free

    def is_const(self):
        return not self.terms or (len(self.terms) == 1 and not self.terms[0][1] and not self.terms[0][2])

    def value(self):
        return self.terms[0][0] if self.terms else Fraction(0)

    # -- arithmetic

    def __add__(self, o):
        return collect(self.terms + lift(o).terms)

    __radd__ = __add__

    def __neg__(self):
        return Poly([(-c, f, b) for c, f, b in self.terms])

    def __sub__(self, o):
        return self + (-lift(o))

    def __rsub__(self, o):
        return lift(o) - self

    def __mul__(self, o):
        o = lift(o)
        out = []
        for c1, f1, b1 in self.terms:
            for c2, f2, b2 in o.terms:
                n1 = {n for n, _ in b1}
                if n1 & {n for n, _ in b2}:
                    f2, b2 = rename(f2, b2)
                out.extend(norm(c1 * c2, list(f1) + list(f2), list(b1) + list(b2)))
        return collect(out)

    __rmul__ = __mul__

    def __pow__(self, e):
        e = Fraction(e)
        if e == 0:
            return ONE
        if e == 1:
            return self
        if not self.terms:
            if e > 0:
                return self
            raise Unmodelled("division by zero")
        if len(self.terms) == 1 and not self.terms[0][2]:
            c, fs, _ = self.terms[0]
            r = const_pow(c, e)
            out = list(r)
            return collect(norm(out[0], list(out[1]) + [(f, x * e) for f, x in fs], []))
        if e.denominator == 1 and 0 < e <= 4:
            r = self
            for _ in range(int(e) - 1):
                r = r * self
            return r
        N, D = rational(self)
        if D:
            r = N**e
            for f, x in D:
                r = r * collect(norm(Fraction(1), [(f, -x * e)], []))
            return r
        # pull out the content
        lead = min(self.terms, key=lambda t: mkey(t[1], t[2], {}, 0))[0]
        if e.denominator != 1:
            lead = abs(lead)
        common = {}
        first = True
        for c, fs, bs in self.terms:
            d = {}
            bn = {n for n, _ in bs}
            for f, x in fs:
                if not (ffree(f) & bn) and f[0] in ("v", "d", "P", "f", "inv", "chol", "num", "dim", "rec"):
                    d[fkey(f, {}, 0)] = (f, x)
            if first:
                common = dict(d)
                first = False
            else:
                for k in set(common) | set(d):
                    f = (common.get(k) or d.get(k))[0]
                    x = min(common[k][1] if k in common else Fraction(0), d[k][1] if k in d else Fraction(0))
                    common[k] = (f, x)
        common = {k: fx for k, fx in common.items() if fx[1] != 0}
        if lead != 1 or common:
            inv = collect(norm(1 / Fraction(lead), [(f, -x) for f, x in common.values()], []))
            prim = self * inv
            cc = const_pow(Fraction(lead), e)
            outer = collect(norm(cc[0], list(cc[1]) + [(f, x * e) for f, x in common.values()], []))
            if len(prim.terms) == 1 and not prim.terms[0][2]:
                return (prim**e) * outer
            return collect(norm(Fraction(1), [(("P", None, (prim,)), e)], [])) * outer
        return collect(norm(Fraction(1), [(("P", None, (self,)), e)], []))

    def __truediv__(self, o):
        return self * lift(o) ** -1

    def subst(self, m):
        m = {k: x for k, x in m.items() if k in self.free()}
        if not m:
            return self
        out = []
        for c, fs, bs in self.terms:
            used = set()
            for x in m.values():
                used |= x.free()
            if used & {n for n, _ in bs}:
                fs, bs = rename(fs, bs)
            fs2 = []
            extra = ONE
            for f, e in fs:
                g = fsubst(f, m)
                if isinstance(g, Poly):
                    extra = extra * g**e
                else:
                    fs2.append((g, e))
            bs2 = [(n, d.subst(m)) for n, d in bs]
            r = collect(norm(c, fs2, bs2))
            if extra is not ONE:
                r = r * extra
            out.extend(r.terms)
        return collect(out)

    def sum(self, name, rng):
        """Sum over the index ``name`` in ``range(rng)``."""
        if rng.is_const() and rng.value() == 1:
            return self.subst({name: ZERO})
        out = []
        for c, fs, bs in self.terms:
            out.extend(norm(c, list(fs), list(bs) + [(name, rng)]))
        return collect(out)


def rational(p, limit=6):
    """``p`` as a quotient: ``(numerator, [(factor, exponent)])``."""
    D = []
    for _ in range(limit):
        den = {}
        for c, fs, bs in p.terms:
            bn = {n for n, _ in bs}
            for f, e in fs:
                if f[0] == "P" and e < 0 and e.denominator == 1 and not (ffree(f) & bn):
                    k = fkey(f, {}, 0)
                    if k not in den or e < den[k][1]:
                        den[k] = (f, e)
        if not den or len(p.terms) == 1:
            break
        for f, e in den.values():
            out = []
            for c, fs, bs in p.terms:
                out.extend(norm(c, list(fs) + [(f, -e)], list(bs)))
            p = collect(out)
            D.append((f, -e))
    return p, D


def const_pow(c, e):
    """``c**e`` as a coefficient and powers of primes with exponents in (0, 1)."""
    c = Fraction(c)
    if e.denominator == 1:
        return (c ** int(e), [])
    if c < 0:
        return (Fraction(1), [(("num", str(c), ()), e)])
    coef, fs = Fraction(1), []
    for n, s in ((c.numerator, 1), (c.denominator, -1)):
        for p, k in primes(n):
            x = e * k * s
            w = x.numerator // x.denominator
            coef *= Fraction(p) ** w
            if x != w:
                fs.append((("num", str(p), ()), x - w))
    return coef, fs


def primes(n):
    out, d = [], 2
    while n > 1:
        if d * d > n or d > 10**4:
            out.append((n, 1))
            break
        k = 0
        while n % d == 0:
            n //= d
            k += 1
        if k:
            out.append((d, k))
        d += 1
    return out


def lift(x):
    if isinstance(x, Poly):
        return x
    return num(x)


def num(c):
    c = Fraction(c)
    return Poly([(c, (), ())] if c else [])


def ix(name):
    return Poly([(Fraction(1), ((("ix", name, ()), Fraction(1)),), ())])


def factor(kind, data, *args):
    return collect(norm(Fraction(1), [((kind, data, tuple(args)), Fraction(1))], []))


def ravel_index(idx, dims):
    """The position of an element of an array of ``dims`` in its flattened form."""
    return factor("ravelix", len(dims), *idx, *dims)


def unravel(k, i, *dims):
    """The ``k``-th index of the element at the position ``i`` of a flattened array of ``dims``."""
    if len(i.terms) == 1:
        c, fs, bs = i.terms[0]
        if c == 1 and not bs and len(fs) == 1 and fs[0][1] == 1 and fs[0][0][0] == "ravelix":
            args = fs[0][0][2]
            n = fs[0][0][1]
            if tuple(args[n:]) == dims:
                return args[k]
    return factor("unravel", k, i, *dims)


def rename(fs, bs):
    m = {n: ix(fresh()) for n, _ in bs}
    r = collect_raw(fs, m)
    return r, tuple((m[n].terms[0][1][0][0][1], d.subst(m)) for n, d in bs)


def collect_raw(fs, m):
    names = {k: x.terms[0][1][0][0][1] for k, x in m.items()}
    return tuple((fraw(f, names, m), e) for f, e in fs)


def fraw(f, names, m):
    """A factor with some of its indices renamed."""
    kind, data, args = f
    if kind == "ix":
        return (kind, names.get(data, data), args)
    if not any(k in ffree(f) for k in names):
        return f
    if isinstance(data, (Lam, Poly)):
        data = data.subst(m)
    elif isinstance(data, tuple):
        data = tuple(x.subst(m) if isinstance(x, (Lam, Poly)) else x for x in data)
    return (kind, data, tuple(praw(a, names, m) for a in args))


def praw(p, names, m):
    if not any(k in p.free() for k in names):
        return p
    out = []
    for c, fs, bs in p.terms:
        inner = {n for n, _ in bs}
        if inner & (set(names) | set(names.values())):
            fs, bs = rename(fs, bs)
        out.append(
            (c, tuple((fraw(f, names, m), e) for f, e in fs), tuple((n, praw(d, names, m)) for n, d in bs))
        )
    return Poly(out)


def fsubst(f, m):
    kind, data, args = f
    if kind == "ix":
        return m.get(data, f)
    if not any(k in ffree(f) for k in m):
        return f
    if isinstance(data, (Lam, Poly)):
        data = data.subst(m)
    elif isinstance(data, tuple):
        data = tuple(x.subst(m) if isinstance(x, (Lam, Poly)) else x for x in data)
    nargs = tuple(a.subst(m) for a in args)
    if kind == "P":
        return nargs[0] if len(nargs[0].terms) > 1 else nargs[0]
    if kind == "f":
        return apply_f(data, *nargs)
    if kind == "lt":
        return iverson_lt(nargs[0])
    if kind == "eq0":
        return iverson_eq(nargs[0])
    if kind == "unravel":
        return unravel(data, *nargs)
    return (kind, data, nargs)


_mk = {}


def mkey(fs, bs, env, depth):
    """The canonical key of a product with bound indices."""
    if not bs:
        return "·".join(sorted(f"{fkey(f, env, depth)}^{e}" for f, e in fs))
    best = None
    # order by an index-blind signature first, and refine it as long as that tells more indices apart
    color = {name: "*" for name, _ in bs}
    groups, classes = {}, 1
    while True:
        sigs = []
        for name, d in bs:
            e = {**env, **color, name: "@"}
            sigs.append("·".join(sorted(f"{fkey(f, e, depth + 1)}^{x}" for f, x in fs)) + d.key(env, depth + 1))
        groups = {}
        for k, s in enumerate(sigs):
            groups.setdefault(s, []).append(k)
        if math.prod(math.factorial(len(g)) for g in groups.values()) <= 720 or len(groups) <= classes:
            break
        classes = len(groups)
        for n, s in enumerate(sorted(groups)):
            for k in groups[s]:
                color[bs[k][0]] = f"*{n}"
    if math.prod(math.factorial(len(g)) for g in groups.values()) > 5040:
        raise Unmodelled("too many contractions")
    orders = [[]]
    for s in sorted(groups):
        orders = [o + list(p) for o in orders for p in itertools.permutations(groups[s])]
    for o in orders:
        e = dict(env)
        for pos, k in enumerate(o):
            e[bs[k][0]] = f"b{depth}.{pos}"
        r = (
            "·".join(sorted(f"{fkey(f, e, depth + 1)}^{x}" for f, x in fs))
            + "Σ"
            + ",".join(bs[k][1].key(e, depth + 1) for k in o)
        )
        if best is None or r < best:
            best = r
    return best


def collect(terms):
    d = {}
    for c, fs, bs in terms:
        k = mkey(fs, bs, {}, 0)
        if k in d:
            c0, fs0, bs0 = d[k]
            d[k] = (c0 + c, fs0, bs0)
        else:
            d[k] = (Fraction(c), tuple(fs), tuple(bs))
    return Poly([t for t in d.values() if t[0] != 0])


def iverson_lt(p):
    """[p < 0]"""
    if p.is_const():
        return num(1 if p.value() < 0 else 0)
    lead = min(p.terms, key=lambda t: mkey(t[1], t[2], {}, 0) if t[1] else "~")[0]
    # integer valued expressions have a strict and a non-strict form
    integer = is_int(p)
    if integer:
        den = 1
        if lead < 0:
            # [p < 0] = 1 - [-p <= 0] = 1 - [-p - 1 < 0]
            return ONE - factor("lt", None, -p - 1)
        return factor("lt", None, p)
    q = p * num(1 / abs(lead))
    if lead < 0:
        return ONE - factor("lt", None, -q)
    return factor("lt", None, q)


def iverson_eq(p):
    if p.is_const():
        return num(1 if p.value() == 0 else 0)
    lead = min(p.terms, key=lambda t: mkey(t[1], t[2], {}, 0) if t[1] else "~")[0]
    p = p * num(1 / lead)
    if len(p.terms) == 1 and is_count(p):
        return iverson_lt(p - 1)
    return factor("eq0", None, p)


SYMMETRIC = set()  # names of the inputs that are symmetric matrices
INTEGERS = set()  # names of the inputs that are counts


def is_count(p):
    return is_int(p)


def is_int(p):
    for c, fs, bs in p.terms:
        if c.denominator != 1:
            return False
        for f, e in fs:
            if e.denominator != 1 or e < 0:
                return False
            if f[0] in ("ix", "dim"):
                continue
            if f[0] == "v" and f[1] in INTEGERS:
                continue
            return False
    return True


def apply_f(name, *args):
    if name == "exp":
        (p,) = args
        r = ONE
        for c, fs, bs in p.terms:
            if not fs and not bs:
                r = r * collect([(Fraction(1), ((("f", "exp", (ONE,)), c),), ())])
                continue
            if len(fs) == 1 and not bs and fs[0][1] == 1 and fs[0][0][0] == "f" and fs[0][0][1] == "log":
                r = r * fs[0][0][2][0] ** c
                continue
            m = Poly([(Fraction(1), fs, bs)])
            r = r * collect([(Fraction(1), ((("f", "exp", (m,)), c),), ())])
        return r
    if name == "log":
        (p,) = args
        if not p.terms:
            raise Unmodelled("log of zero")
        if p.is_const() and p.value() == 1:
            return ZERO
        if len(p.terms) == 1 and not p.terms[0][2]:
            c, fs, _ = p.terms[0]
            r = ZERO
            if c != 1:
                r = r + collect([(Fraction(1), ((("f", "log", (num(c),)), Fraction(1)),), ())])
            for f, e in fs:
                if f[0] == "f" and f[1] == "exp":
                    r = r + e * f[2][0]
                elif f[0] == "P":
                    r = r + e * raw_f("log", f[2][0])
                else:
                    r = r + e * raw_f("log", Poly([(Fraction(1), ((f, Fraction(1)),), ())]))
            return r
        N, D = rational(p)
        if D:
            r = apply_f("log", N)
            for f, x in D:
                r = r - x * apply_f("log", f[2][0])
            return r
        # pull out the content
        q = p ** Fraction(1, 7)
        if len(q.terms) == 1 and not (
            len(q.terms[0][1]) == 1 and q.terms[0][1][0][0][0] == "P" and q.terms[0][1][0][0][2][0] == p
        ):
            c, fs, _ = q.terms[0]
            r = ZERO
            for f, e in fs:
                e = e * 7
                if f[0] == "P":
                    r = r + e * raw_f("log", f[2][0])
                elif f[0] == "num":
                    r = r + e * raw_f("log", num(Fraction(f[1])))
                else:
                    r = r + e * apply_f("log", Poly([(Fraction(1), ((f, Fraction(1)),), ())]))
            if c != 1:
                raise Unmodelled("log")
            return r
        return raw_f("log", p)
    return raw_f(name, *args)


def raw_f(name, *args):
    return collect([(Fraction(1), ((("f", name, tuple(args)), Fraction(1)),), ())])


def linear_in(p, name):
    """Solve ``p == 0`` for the index ``name``."""
    a, rest = None, []
    for c, fs, bs in p.terms:
        if len(fs) == 1 and fs[0][0] == ("ix", name, ()) and fs[0][1] == 1 and not bs:
            a = c
        elif any(name in ffree(f) for f, _ in fs):
            return None
        else:
            rest.append((c, fs, bs))
    if a is None or abs(a) != 1:
        return None
    return collect(rest) * num(-1 / a)


def norm(c, fs, bs):
    """Normalise a product: a list of terms."""
    if c == 0:
        return []
    fs = list(fs)
    bs = list(bs)
    changed = True
    while changed:
        changed = False
        d = {}
        order = []
        for f, e in fs:
            k = fkey(f, {}, 0)
            if k in d:
                d[k] = (f, d[k][1] + e)
            else:
                d[k] = (f, e)
        fs = []
        for f, e in d.values():
            if e == 0:
                continue
            if f[0] in ("eq0", "lt"):
                e = Fraction(1)
            fs.append((f, e))
        # Kronecker deltas
        for n, (f, e) in enumerate(fs):
            if f[0] != "eq0":
                continue
            p = f[2][0]
            if p.is_const():
                if p.value() != 0:
                    return []
                fs.pop(n)
                changed = True
                break
            done = False
            for name, rng in bs:
                if name in p.free():
                    s = linear_in(p, name)
                    if s is not None:
                        rest = fs[:n] + fs[n + 1 :]
                        nb = [b for b in bs if b[0] != name]
                        # the replacement can contain other bound indices
                        q = collect([(Fraction(c), tuple(rest), ())]).subst({name: s})
                        nb = [(x, d2.subst({name: s})) for x, d2 in nb]
                        return mul_terms(Fraction(1), [], nb, q)
            bound = {b for b, _ in bs}
            cand = sorted((x for x in p.free() if x not in bound), reverse=True)
            for name in cand:
                s = linear_in(p, name)
                if s is None or s.free() and max(s.free()) > name:
                    continue
                others = [g for m, g in enumerate(fs) if m != n]
                if any(name in ffree(g) for g, _ in others):
                    q = collect([(Fraction(c), tuple(others), ())]).subst({name: s})
                    return mul_terms(Fraction(1), [(f, Fraction(1))], bs, q)
                break
        if changed:
            continue
        # sums of something that doesn't depend on the index
        for n, (name, rng) in enumerate(bs):
            if not any(name in ffree(f) for f, _ in fs) and not any(name in d2.free() for _, d2 in bs):
                nb = bs[:n] + bs[n + 1 :]
                out = []
                for c2, f2, b2 in rng.terms:
                    out.extend(norm(c * c2, fs + list(f2), nb + list(b2)))
                return out
        # positive integer powers of sums
        for n, (f, e) in enumerate(fs):
            if f[0] == "P" and (len(f[2][0].terms) == 1 and not f[2][0].terms[0][2]):
                rest = fs[:n] + fs[n + 1 :]
                q = f[2][0] ** e
                return mul_terms(c, rest, bs, q)
            if f[0] == "P" and e.denominator == 1 and 0 < e <= 4:
                rest = fs[:n] + fs[n + 1 :]
                return mul_terms(c, rest, bs, f[2][0] ** e)
            if f[0] == "num" and (e.denominator == 1 or Fraction(f[1]) > 0 and not 0 < e < 1):
                w = e.numerator // e.denominator
                fs = fs[:n] + ([(f, e - w)] if e != w else []) + fs[n + 1 :]
                c = c * Fraction(f[1]) ** w
                changed = True
                break
        if changed:
            continue
        # products of Cholesky factors
        r = simplify_chol(fs, bs)
        if r is not None:
            rest, nb, q = r
            return mul_terms(c, rest, nb, q)
        # symmetric inverses
        new = []
        for f, e in fs:
            if f[0] == "inv":
                o = orientation(f[1])
                if o is None and f[2][0].key() > f[2][1].key():
                    f = (f[0], f[1], (f[2][1], f[2][0]))
                    changed = True
                elif o is not None and o is not f[1]:
                    f = (f[0], o, (f[2][1], f[2][0]))
                    changed = True
            new.append((f, e))
        fs = new
    return [(Fraction(c), tuple(fs), tuple(bs))]


def mul_terms(c, rest, bs, q):
    out = []
    for c2, f2, b2 in q.terms:
        if {n for n, _ in b2} & {n for n, _ in bs}:
            f2, b2 = rename(f2, b2)
        out.extend(norm(c * c2, list(rest) + list(f2), list(bs) + list(b2)))
    return out


_orient = {}


def orientation(M):
    """``None`` for a symmetric matrix; else the one of it and its transpose that we use."""
    k = M.key()
    if k not in _orient:
        t = Lam((M.params[1], M.params[0]), M.body)
        tk = t.key()
        _orient[k] = None if tk == k else (M if k < tk else t)
        if chol_of(M) is not None:
            _orient[k] = M if chol_of(M)[1] else t
    r = _orient[k]
    return M if r is not None and r.key() == k else r


def symmetric(M):
    return len(M.params) == 2 and orientation(M) is None


def simplify_chol(fs, bs):
    """Contract pairs of Cholesky factors or of their inverses."""
    for name, rng in bs:
        use = [n for n, (f, e) in enumerate(fs) if name in ffree(f)]
        if len(use) == 1:
            f, e = fs[use[0]]
            if e == 2 and f[0] in ("inv", "chol"):
                pair = (f, f)
            else:
                continue
        elif len(use) == 2 and all(fs[u][1] == 1 for u in use):
            pair = (fs[use[0]][0], fs[use[1]][0])
        else:
            continue
        f, g = pair
        me = ix(name)
        rest = [x for n, x in enumerate(fs) if n not in use]
        nb = [b for b in bs if b[0] != name]
        if f[0] == "chol" and g[0] == "chol" and f[1].key() == g[1].key():
            if f[2][1] == me and g[2][1] == me and name not in f[2][0].free() | g[2][0].free():
                return rest, nb, f[1](f[2][0], g[2][0])
        if f[0] == "inv" and g[0] == "inv" and f[1].key() == g[1].key():
            L = chol_of(f[1])
            if L is not None:
                M, lower = L
                # inv(M) = inv(L)^T inv(L)
                a, b = (0, 1) if lower else (1, 0)
                if f[2][a] == me and g[2][a] == me and name not in f[2][b].free() | g[2][b].free():
                    return rest, nb, factor("inv", M, f[2][b], g[2][b])
        # inv(A) A = 1
        for x, y in ((f, g), (g, f)):
            if x[0] != "inv":
                continue
            A = x[1]
            if y[0] == "chol":
                L = chol_of(A)
                if L is not None and L[1] and L[0].key() == y[1].key():
                    if x[2][1] == me and y[2][0] == me and name not in x[2][0].free() | y[2][1].free():
                        return rest, nb, iverson_eq(x[2][0] - y[2][1])
    return None


def chol_of(A):
    """``(M, lower)`` if the matrix is the Cholesky factor of ``M`` (or its transpose)."""
    t = A.body.terms
    if len(t) == 1 and t[0][0] == 1 and len(t[0][1]) == 1 and not t[0][2]:
        f, e = t[0][1][0]
        if e == 1 and f[0] == "chol":
            i, j = ix(A.params[0]), ix(A.params[1])
            if f[2] == (i, j):
                return f[1], True
            if f[2] == (j, i):
                return f[1], False
    return None


ONE = num(1)
ZERO = num(0)


def is_zero(p, limit=12):
    """Is ``p`` identically zero?  Clears the denominators."""
    for _ in range(limit):
        if not p.terms:
            return True
        den = {}
        for c, fs, bs in p.terms:
            bn = {n for n, _ in bs}
            for f, e in fs:
                if f[0] == "P" and e < 0 and not (ffree(f) & bn):
                    k = fkey(f, {}, 0)
                    if k not in den or e < den[k][1]:
                        den[k] = (f, e)
        if not den:
            return False
        for f, e in den.values():
            mult = collect([(Fraction(1), ((f, -e),), ())])
            out = []
            for c, fs, bs in p.terms:
                out.extend(norm(c, list(fs) + [(f, -e)], list(bs)))
            p = collect(out)
    return not p.terms


def equal(a, b):
    return a.key() == b.key() or is_zero(a - b)


def remap(p, f):
    """Rebuild ``p`` with ``f(kind, data, args) -> Poly | None`` applied to its factors."""

    def go_lam(L):
        ps = tuple(fresh("p") for _ in L.params)
        return Lam(ps, go(L.body.subst(dict(zip(L.params, [ix(q) for q in ps])))))

    def go_data(d):
        if isinstance(d, Lam):
            return go_lam(d)
        if isinstance(d, Poly):
            return go(d)
        if isinstance(d, tuple):
            return tuple(go_data(x) for x in d)
        return d

    def go_fac(fac):
        kind, data, args = fac
        if kind == "ix":
            return ix(data)
        data = go_data(data)
        args = tuple(go(a) for a in args)
        r = f(kind, data, args)
        if r is not None:
            return r
        if kind == "P":
            return args[0]
        if kind == "f":
            return apply_f(data, *args)
        if kind == "lt":
            return iverson_lt(args[0])
        if kind == "eq0":
            return iverson_eq(args[0])
        return factor(kind, data, *args)

    def go(p):
        out = ZERO
        for c, fs, bs in p.terms:
            if bs:
                m = {n: ix(fresh()) for n, _ in bs}
                fs = collect_raw(fs, m)
                bs = [(m[n].terms[0][1][0][0][1], d.subst(m)) for n, d in bs]
            r = num(c)
            for fac, e in fs:
                r = r * go_fac(fac) ** e
            for n, d in bs:
                r = r.sum(n, go(d))
            out = out + r
        return out

    return go(p)


def factors(p, acc=None):
    """All the factors that occur in ``p``, at any depth."""
    if acc is None:
        acc = []

    def data(d):
        if isinstance(d, Lam):
            factors(d.body, acc)
        elif isinstance(d, Poly):
            factors(d, acc)
        elif isinstance(d, tuple):
            for x in d:
                data(x)

    for c, fs, bs in p.terms:
        for f, e in fs:
            acc.append(f)
            data(f[1])
            for a in f[2]:
                factors(a, acc)
    return acc


def diagonal_part(M):
    """``(c, g, rest)`` with ``M(i, j) = c·δ(i - j)·g(i) + rest(i, j)``, if it has this form."""
    i, j = M.params
    d = ix(i) - ix(j)
    lead, rest = None, []
    for c, fs, bs in M.body.terms:
        es = [n for n, (f, e) in enumerate(fs) if f[0] == "eq0" and f[2][0] in (d, -d)]
        if es and not bs and lead is None:
            fs2 = tuple(x for n, x in enumerate(fs) if n != es[0])
            g = collect([(Fraction(1), fs2, ())]).subst({j: ix(i)})
            if len(g.terms) != 1:
                return None
            lead = (c, Lam((i,), g))
        elif es:
            return None
        else:
            rest.append((c, fs, bs))
    if lead is None:
        return None
    return lead[0], lead[1], Lam((i, j), collect(rest))


def reduce_inverses(p, limit=200):
    """Apply ``inv(M) M = 1`` where the diagonal part of ``M`` meets its inverse."""
    for _ in range(limit):
        for n, (c, fs, bs) in enumerate(p.terms):
            r = _reduce_term(c, fs, bs)
            if r is not None:
                p = collect(p.terms[:n] + p.terms[n + 1 :]) + r
                break
        else:
            return p
    raise Unmodelled("reduction of inverses")


def _reduce_term(c, fs, bs):
    have = {fkey(f, {}, 0): e for f, e in fs}
    for n, (f, e) in enumerate(fs):
        if f[0] != "inv" or e != 1:
            continue
        d = diagonal_part(f[1])
        if d is None:
            continue
        k, g, rest = d
        for side in (0, 1):
            a, b = f[2][1 - side], f[2][side]
            gb = g(b)
            if len(gb.terms) != 1 or gb.terms[0][2] or not gb.terms[0][1]:
                continue
            gf = gb.terms[0][1]
            if not all((have.get(fkey(h, {}, 0), 0) / x) >= 1 for h, x in gf):
                continue
            s = fresh()
            inner = ZERO
            rng = _range_of(b, bs)
            if rng is None:
                rng = _row_range(f[1], bs)
            if rng is None:
                continue
            m = factor("inv", f[1], *((ix(s), a) if side == 0 else (a, ix(s))))
            r2 = rest(b, ix(s)) if side == 0 else rest(ix(s), b)
            inner = (m * r2).sum(s, rng)
            new = iverson_eq(a - b) - inner
            gk = {fkey(h, {}, 0): x for h, x in gf}
            left = [(h, x - gk.get(fkey(h, {}, 0), 0)) for q, (h, x) in enumerate(fs) if q != n]
            out = []
            coef = Fraction(c) / k / gb.terms[0][0]
            for c2, f2, b2 in new.terms:
                if {x for x, _ in b2} & {x for x, _ in bs}:
                    f2, b2 = rename(f2, b2)
                out.extend(norm(coef * c2, left + list(f2), list(bs) + list(b2)))
            return collect(out)
    return None


def _range_of(b, bs):
    for name, rng in bs:
        if b == ix(name):
            return rng
    return None


def _row_range(M, bs):
    return None
