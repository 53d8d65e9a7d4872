"""Tensor expressions as index-notation polynomials.

``Tensors`` evaluates the terms computed by the value-flow analysis to a list
of dimensions and an element polynomial.  The draws that occur are tabulated
with canonical distributions (location and scale are moved into the
expression), so that equal distributions can be recognised.
"""
from fractions import Fraction

from . import poly as P
from . import terms as tm
from . import vals as v
from .poly import ONE, ZERO, Lam, Poly, Unmodelled, factor, fresh, ix, num
from .terms import FALSE, NONE, TRUE, T, is_const


class ShapeError(Exception):
    """The dimensions of the operands don't agree."""


class TV:
    __slots__ = ("dims", "f", "note")

    def __init__(self, dims, f, note=None):
        self.dims, self.f, self.note = tuple(dims), f, note

    def lam(self):
        ps = [fresh("q") for _ in self.dims]
        return Lam(ps, self.f([ix(p) for p in ps]))


def dim(name):
    return factor("dim", name)


def scalar(p):
    return TV((), lambda i: p)


def is_one(d):
    return d.is_const() and d.value() == 1


def broadcast(*tvs):
    n = max(len(t.dims) for t in tvs)
    dims = []
    for k in range(n):
        d = ONE
        for t in tvs:
            j = k - (n - len(t.dims))
            if j >= 0 and not is_one(t.dims[j]):
                if is_one(d):
                    d = t.dims[j]
                elif d != t.dims[j]:
                    raise ShapeError(f"{d} and {t.dims[j]}")
        dims.append(d)
    return tuple(dims)


def bidx(t, idx, n):
    idx = idx[n - len(t.dims) :] if len(t.dims) else []
    return [ZERO if is_one(d) else i for d, i in zip(t.dims, idx)]


def elementwise(f, *tvs):
    dims = broadcast(*tvs)
    n = len(dims)
    return TV(dims, lambda idx: f(*[t.f(bidx(t, idx, n)) for t in tvs]))


def size_of(dims):
    r = ONE
    for d in dims:
        r = r * d
    return r


def ravel(x):
    return TV((size_of(x.dims),), lambda i: x.f([P.unravel(k, i[0], *x.dims) for k in range(len(x.dims))]))


class Draw:
    def __init__(self, uid, family, params, dims, nloops):
        self.uid, self.family, self.params = uid, family, params
        self.dims, self.nloops = dims, nloops
        self.shape = dims


ELEM = {
    "exp": "exp",
    "log": "log",
    "abs": "abs",
    "abs_": "abs",
    "cos": "cos",
    "sin": "sin",
    "tanh": "tanh",
    "floor": "floor",
    "ceil": "ceil",
    "sgn": "sgn",
    "gammaln": "gammaln",
    "erf": "erf",
    "round": "round",
    "isnan": "isnan",
    "isinf": "isinf",
}
IDENT = {
    "as_tensor",
    "dense_from_sparse",
    "cast",
    "astype",
    "copy",
    "tensor_copy",
    "identity",
    "second_identity",
    "asarray",
    "specify_shape",
    "patternbroadcast",
    "unbroadcast",
}


class Tensors:
    def __init__(self, declared=None, integers=(), assume=None):
        self.env = dict(declared or {})  # term -> TV
        self.draws = {}
        self.memo = {}
        self.loops = []
        self.assume = assume or (lambda atom: None)
        P.INTEGERS.clear()
        P.INTEGERS.update(integers)
        self.evaluated = 0

    def declare(self, term, name, dims):
        dims = [d if isinstance(d, Poly) else (num(d) if isinstance(d, int) else ONE if d == "1" else dim(d)) for d in dims]
        tv = TV(dims, lambda idx: factor("v", name, *idx))
        self.env[term] = tv
        return tv

    # ------------------------------------------------------------ evaluation

    def ev(self, t):
        r = self.env.get(t)
        if r is not None:
            return r
        k = (t.id, tuple(self.loops))
        r = self.memo.get(k)
        if r is None:
            self.evaluated += 1
            r = self.memo[k] = self._ev(t)
        return r

    def _ev(self, t):
        op = t.op
        if op == "const":
            c = t.args[0]
            if isinstance(c, bool):
                return scalar(num(int(c)))
            if isinstance(c, (int, Fraction)):
                return scalar(num(c))
            if isinstance(c, float):
                return scalar(num(Fraction(repr(c))))
            raise Unmodelled(repr(c))
        if op == "add":
            return elementwise(lambda *xs: sum(xs, ZERO), *[self.ev(a) for a in t.args])
        if op == "mul":

            def prod(*xs):
                r = ONE
                for x in xs:
                    r = r * x
                return r

            return elementwise(prod, *[self.ev(a) for a in t.args])
        if op == "pow":
            e = self.ev(t.args[1])
            if not e.dims:
                p = e.f([])
                if p.is_const():
                    return elementwise(lambda x: x ** p.value(), self.ev(t.args[0]))
            return elementwise(
                lambda x, y: x ** y.value() if y.is_const() else P.apply_f("exp", y * P.apply_f("log", x)),
                self.ev(t.args[0]),
                e,
            )
        if op == "ite":
            return self.ev_ite(t)
        if op == "attr":
            if t.args[1] == "T":
                return self.transpose(self.ev(t.args[0]))
            if t.args[1] == "shape":
                return self.vec(self.ev(t.args[0]).dims)
            if t.args[1] == "size":
                r = ONE
                for d in self.ev(t.args[0]).dims:
                    r = r * d
                return scalar(r)
            if t.args[1] == "ndim":
                x = t.args[0]
                if x.op == "attr" and x.args[1] == "type":
                    x = x.args[0]
                return scalar(num(len(self.ev(x).dims)))
            raise Unmodelled("attribute " + t.args[1])
        if op == "len":
            return scalar(self.ev(t.args[0]).dims[0])
        if op == "idx":
            return self.ev_idx(t.args[0], t.args[1])
        if op == "slice":
            return self.subscript(self.ev(t.args[0]), [("sl", t.args[1], t.args[2], t.args[3])])
        if op == "new":
            return self.ev_draw(t)
        if op == "scanout":
            outs = self.ev_scan(t.args[0])
            if len(outs) != 1:
                raise Unmodelled("several outputs")
            return outs[0]
        if op == "cat":
            parts = [self.ev(p.args[0]) for p in t.args if p.op == "one"]
            if len(parts) != len(t.args):
                raise Unmodelled("splice")
            return self.stack(parts)
        if op == "call" and isinstance(t.args[0], str):
            return self.ev_call(t)
        if op == "mcall":
            raise Unmodelled("method " + str(t.args[0]))
        raise Unmodelled(op + (":" + str(t.args[0]) if t.args and isinstance(t.args[0], str) else ""))

    def vec(self, dims):
        def f(idx):
            (i,) = idx
            if i.is_const():
                return dims[int(i.value())]
            raise Unmodelled("shape vector")

        return TV((num(len(dims)),), f, note=("shape", dims))

    def stack(self, parts):
        dims = broadcast(*parts)

        def f(idx):
            i = idx[0]
            rest = idx[1:]
            r = ZERO
            for k, p in enumerate(parts):
                r = r + P.iverson_eq(i - k) * p.f(bidx(p, rest, len(dims)))
            return r

        return TV((num(len(parts)),) + dims, f)

    def ev_ite(self, t):
        a = self.assume(t.args[0])
        if a is not None:
            return self.ev(t.args[1] if a else t.args[2])
        c = self.cond_atom(t.args[0])
        x, y = self.ev(t.args[1]), self.ev(t.args[2])
        return elementwise(lambda c, x, y: c * x + (ONE - c) * y, c, x, y)

    def cond_atom(self, a):
        if a.op == "lt":
            return elementwise(lambda x, y: P.iverson_lt(x - y), self.ev(a.args[0]), self.ev(a.args[1]))
        if a.op == "eq":
            return elementwise(lambda x, y: P.iverson_eq(x - y), self.ev(a.args[0]), self.ev(a.args[1]))
        if a.op == "truthy":
            return elementwise(lambda x: ONE - P.iverson_eq(x), self.ev(a.args[0]))
        raise Unmodelled("condition " + a.op)

    def cond(self, c):
        """A decision diagram as an indicator."""
        if c is TRUE:
            return scalar(ONE)
        if c is FALSE:
            return scalar(ZERO)
        return self.ev_ite(c)

    # ------------------------------------------------------------ shapes

    def dims_of(self, t):
        """The dimensions denoted by a ``size`` or ``shape`` argument."""
        if t.op == "attr" and t.args[1] == "shape":
            return list(self.ev(t.args[0]).dims)
        if t.op == "call" and t.args[0] == "ae:shape":
            return list(self.ev(self.kws(t)["x"]).dims)
        if t.op == "cat":
            out = []
            for p in t.args:
                if p.op == "one":
                    out.append(self.scalar_of(p.args[0]))
                elif p.op == "spl":
                    out.extend(self.dims_of(p.args[0]))
                else:
                    raise Unmodelled("shape")
            return out
        if t.op == "slice":
            d = self.dims_of(t.args[0])
            c = [x.args[0] if isinstance(x, T) and x.op == "const" else None for x in t.args[1:]]
            if any(isinstance(x, T) and x.op != "const" for x in t.args[1:]):
                raise Unmodelled("shape slice")
            return d[slice(*c)]
        if t.op == "const" and isinstance(t.args[0], tuple):
            return [num(x) for x in t.args[0]]
        if t.op == "call" and t.args[0] == "ae:as_tensor":
            return self.dims_of(self.argn(t, 0))
        if t.op == "ite":
            a = self.assume(t.args[0])
            if a is not None:
                return self.dims_of(t.args[1] if a else t.args[2])
            x, y = self.dims_of(t.args[1]), self.dims_of(t.args[2])
            if x == y:
                return x
            raise Unmodelled("shape")
        if t in self.env or t.op in ("idx", "add", "mul", "const", "call", "len"):
            tv = self.ev(t)
            if not tv.dims:
                return [tv.f([])]
            if tv.note and tv.note[0] == "shape":
                return list(tv.note[1])
            if tv.dims == (ONE,):
                return [tv.f([ZERO])]
        raise Unmodelled("shape " + t.op)

    def scalar_of(self, t):
        tv = self.ev(t)
        if tv.dims:
            raise Unmodelled("not a scalar")
        return tv.f([])

    # ------------------------------------------------------------ indexing

    def ev_idx(self, x, k):
        if x.op == "scanout":
            outs = self.ev_scan(x.args[0])
            if len(outs) > 1:
                if is_const(k):
                    return outs[k.args[0]]
                raise Unmodelled("several outputs")
        if x.op == "attr" and x.args[1] == "shape" or (x.op == "slice" and self.is_shape(x)):
            d = self.dims_of(x)
            if is_const(k):
                if not -len(d) <= k.args[0] < len(d):
                    raise ShapeError(f"dimension {k.args[0]} of a tensor with {len(d)}")
                return scalar(d[k.args[0]])
        base = self.ev(x)
        items = []
        for p in (k.args if k.op == "cat" else [v.one(k)]):
            if p.op != "one":
                raise Unmodelled("index")
            items.append(self.item(p.args[0]))
        return self.subscript(base, items)

    def is_shape(self, t):
        return t.op == "attr" and t.args[1] == "shape" or (t.op == "slice" and self.is_shape(t.args[0]))

    def item(self, q):
        if q.op == "sl":
            return ("sl",) + tuple(q.args)
        if q is NONE:
            return ("new",)
        if q.op == "const" and q.args[0] is Ellipsis:
            return ("dots",)
        if q.op == "glob" and q.args[0] == "py:Ellipsis":
            return ("dots",)
        return ("at", self.ev(q))

    def bound_of(self, x, default, n):
        if x is None or x is NONE or (isinstance(x, T) and x.op == "const" and x.args[0] is None):
            return default
        p = self.scalar_of(x)
        if p.is_const() and p.value() < 0:
            return n + p
        return p

    def subscript(self, base, items):
        nd = len(base.dims)
        used = sum(1 for i in items if i[0] in ("sl", "at"))
        if not any(i[0] == "dots" for i in items):
            items = list(items) + [("dots",)]
        out = []
        for i in items:
            if i[0] == "dots":
                out.extend([("sl", None, None, None)] * (nd - used))
            else:
                out.append(i)
        plan = []  # per base axis: function of the result indices
        dims = []
        axis = 0
        adv = None
        for i in out:
            if i[0] == "new":
                dims.append(ONE)
                continue
            if axis >= nd:
                raise ShapeError("too many indices")
            n = base.dims[axis]
            if i[0] == "sl":
                st = None if i[3] in (None, NONE) else i[3]
                step = 1
                if st is not None:
                    if not is_const(st):
                        raise Unmodelled("step")
                    step = st.args[0] if st.args[0] is not None else 1
                if step == 1:
                    lo = self.bound_of(i[1], ZERO, n)
                    hi = self.bound_of(i[2], n, n)
                    d = hi - lo
                    pos = len(dims)
                    dims.append(d)
                    plan.append(lambda idx, pos=pos, lo=lo: idx[pos] + lo)
                elif step == -1:
                    lo = self.bound_of(i[1], n - 1, n)
                    if i[2] is None or i[2] is NONE or (is_const(i[2]) and i[2].args[0] is None):
                        hi = num(-1)
                    else:
                        hi = self.bound_of(i[2], num(-1), n)
                    pos = len(dims)
                    dims.append(lo - hi)
                    plan.append(lambda idx, pos=pos, lo=lo: lo - idx[pos])
                else:
                    raise Unmodelled("step")
            else:
                tv = i[1]
                if not tv.dims:
                    p = tv.f([])
                    if p.is_const() and p.value() < 0:
                        p = n + p
                    plan.append(lambda idx, p=p: p)
                elif len(tv.dims) == 1:
                    if adv is None:
                        adv = len(dims)
                        dims.append(tv.dims[0])
                    elif dims[adv] != tv.dims[0]:
                        raise ShapeError("index arrays")
                    plan.append(lambda idx, tv=tv, pos=adv: tv.f([idx[pos]]))
                else:
                    raise Unmodelled("index array")
            axis += 1
        return TV(dims, lambda idx: base.f([g(idx) for g in plan]))

    # ------------------------------------------------------------ linear algebra

    def transpose(self, x):
        return TV(x.dims[::-1], lambda idx: x.f(list(idx)[::-1]))

    def dot(self, a, b):
        if not a.dims or not b.dims:
            return elementwise(lambda x, y: x * y, a, b)
        ka = len(a.dims) - 1
        kb = max(len(b.dims) - 2, 0)
        n, m = a.dims[ka], b.dims[kb]
        if n != m:
            raise ShapeError(f"dot: {n} and {m}")
        if len(a.dims) > 2 or len(b.dims) > 2:
            raise Unmodelled("dot of higher-order tensors")
        da = a.dims[:ka]
        db = b.dims[:kb] + b.dims[kb + 1 :]

        def f(idx):
            s = fresh()
            ia, ib = list(idx[: len(da)]), list(idx[len(da) :])
            x = a.f(ia + [ix(s)])
            y = b.f(ib[:kb] + [ix(s)] + ib[kb:])
            return (x * y).sum(s, n)

        return TV(da + db, f)

    def matrix(self, m):
        if len(m.dims) != 2:
            raise ShapeError("not a matrix")
        if m.dims[0] != m.dims[1]:
            raise ShapeError("not square")
        return m.lam(), m.dims[0]

    def apply_inverse(self, m, b, transposed=False):
        if not b.dims:
            raise ShapeError("a linear system with a scalar right-hand side")
        L, n = self.matrix(m)
        if transposed:
            L = Lam(L.params[::-1], L.body)
        inv = TV((n, n), lambda idx: factor("inv", L, *idx))
        return self.dot(inv, b)

    def reduce(self, x, axis, keepdims, f):
        nd = len(x.dims)
        if axis is None:
            axes = list(range(nd))
        else:
            if nd and not all(-nd <= a < nd for a in axis):
                raise ShapeError("axis")
            axes = sorted((a + nd) % nd if nd else a for a in axis)
        dims = [d for k, d in enumerate(x.dims) if k not in axes]
        if keepdims:
            dims = [ONE if k in axes else d for k, d in enumerate(x.dims)]

        def g(idx):
            idx = list(idx)
            full, names = [], []
            pos = 0
            for k, d in enumerate(x.dims):
                if k in axes:
                    s = fresh()
                    names.append((s, d))
                    full.append(ix(s))
                    if keepdims:
                        pos += 1
                else:
                    full.append(idx[pos])
                    pos += 1
            return f(x.f(full), names)

        return TV(dims, g)

    # ------------------------------------------------------------ calls

    def kws(self, t):
        d = {}
        k = 0
        for a in t.args[1:]:
            if isinstance(a, T) and a.op == "kw":
                d[a.args[0]] = a.args[1]
            else:
                d[k] = a
                k += 1
        return d

    def argn(self, t, n):
        d = self.kws(t)
        if n in d:
            return d[n]
        for nm in ("x", "v", "a", "arry", "arr"):
            if nm in d and n == 0:
                return d[nm]
        raise Unmodelled("arguments of " + t.args[0])

    def axis(self, kw):
        a = kw.get("axis")
        if a is None or a is NONE:
            return None
        if is_const(a) and isinstance(a.args[0], int):
            return [a.args[0]]
        if a.op == "cat" and all(p.op == "one" and is_const(p.args[0]) for p in a.args):
            return [p.args[0].args[0] for p in a.args]
        raise Unmodelled("axis")

    def ev_call(self, t):
        name = t.args[0].split(":")[-1]
        kw = self.kws(t)

        def arg(n, *names):
            for nm in names:
                if nm in kw:
                    return self.ev(kw[nm])
            if n in kw:
                return self.ev(kw[n])
            raise Unmodelled("arguments of " + name)

        if t.args[0].split(":")[0] not in ("ae", "np", "x", "py"):
            raise Unmodelled(t.args[0])
        if name in IDENT:
            x = arg(0, "x", "v")
            dt = kw.get("dtype", kw.get(1) if name in ("cast", "astype", "asarray") else None)
            return x if dt is None else self.to_type(x, dt)
        if name in ELEM:
            return elementwise(lambda x: P.apply_f(ELEM[name], x), arg(0, "x"))
        if name in ("sigmoid", "expit"):
            return elementwise(lambda x: (ONE + P.apply_f("exp", -x)) ** -1, arg(0, "x"))
        if name == "softplus":
            return elementwise(lambda x: P.apply_f("log", ONE + P.apply_f("exp", x)), arg(0, "x"))
        if name == "log1p":
            return elementwise(lambda x: P.apply_f("log", ONE + x), arg(0, "x"))
        if name == "log1mexp":
            return elementwise(lambda x: P.apply_f("log", ONE - P.apply_f("exp", x)), arg(0, "x"))
        if name == "expm1":
            return elementwise(lambda x: P.apply_f("exp", x) - 1, arg(0, "x"))
        if name in ("sqr", "square"):
            return elementwise(lambda x: x**2, arg(0, "x"))
        if name == "sqrt":
            return elementwise(lambda x: x ** Fraction(1, 2), arg(0, "x"))
        if name in ("reciprocal", "inv_elem"):
            return elementwise(lambda x: x**-1, arg(0, "x"))
        if name in ("add", "sub", "mul", "true_div", "neg"):
            xs = [self.ev(kw[k]) for k in sorted(k for k in kw if isinstance(k, int))]
            if name == "add":
                return elementwise(lambda *a: sum(a, ZERO), *xs)
            if name == "sub":
                return elementwise(lambda a, b: a - b, *xs)
            if name == "mul":
                r = xs[0]
                for y in xs[1:]:
                    r = elementwise(lambda a, b: a * b, r, y)
                return r
            if name == "neg":
                return elementwise(lambda a: -a, *xs)
            return elementwise(lambda a, b: a / b, *xs)
        if name == "transpose":
            if len(kw) != 1:
                raise Unmodelled("axes")
            return self.transpose(arg(0, "x"))
        if name == "dot":
            return self.dot(arg(0), arg(1))
        if name == "outer":
            a, b = arg(0), arg(1)
            return TV(a.dims + b.dims, lambda i: a.f(i[:1]) * b.f(i[1:]))
        if name in ("sum", "mean"):
            x = arg(0, "x")
            kd = kw.get("keepdims") is TRUE

            def f(p, names):
                for s, d in names:
                    p = p.sum(s, d)
                    if name == "mean":
                        p = p / d
                return p

            return self.reduce(x, self.axis(kw), kd, f)
        if name in ("max", "min", "prod", "logsumexp"):
            x = arg(0, "x")

            def f(p, names):
                if not names:
                    return p
                if name == "logsumexp":
                    p = P.apply_f("exp", p)
                    for s, d in names:
                        p = p.sum(s, d)
                    return P.apply_f("log", p)
                return factor("red", (name, Lam([s for s, _ in names], p)) + tuple(d for _, d in names))

            return self.reduce(x, self.axis(kw), kw.get("keepdims") is TRUE, f)
        if name in ("diag", "extract_diag", "alloc_diag", "diagonal"):
            x = arg(0, "v", "x")
            if kw.get("k") is not None:
                raise Unmodelled("offset")
            if len(x.dims) == 1:
                return TV(x.dims * 2, lambda i: P.iverson_eq(i[0] - i[1]) * x.f([i[0]]))
            if len(x.dims) == 2 and x.dims[0] == x.dims[1]:
                return TV(x.dims[:1], lambda i: x.f([i[0], i[0]]))
            raise ShapeError("diag")
        if name in ("eye", "identity_like"):
            if name == "eye":
                n = self.scalar_of(kw.get("n", kw.get(0)))
            else:
                n = arg(0).dims[0]
            return TV((n, n), lambda i: P.iverson_eq(i[0] - i[1]))
        if name == "cholesky":
            M, n = self.matrix(arg(0, "x"))
            lower = kw.get("lower", TRUE) is not FALSE
            return TV((n, n), lambda i: factor("chol", M, *(i if lower else [i[1], i[0]])))
        if name in ("inv", "matrix_inverse", "pinv"):
            M, n = self.matrix(arg(0, "x"))
            return TV((n, n), lambda i: factor("inv", M, *i))
        if name == "solve":
            m, b = arg(0, "a"), arg(1, "b")
            aa = kw.get("assume_a")
            if aa is not None and is_const(aa) and aa.args[0] in ("sym", "pos", "her"):
                if not P.symmetric(self.matrix(m)[0]):
                    # only one of the triangles is used
                    u = m
                    m = TV(u.dims, lambda i: P.iverson_lt(i[0] - i[1] - ONE) * u.f(i) + P.iverson_lt(i[1] - i[0]) * u.f([i[1], i[0]]))
            return self.apply_inverse(m, b)
        if name in ("solve_triangular", "solve_lower_triangular", "solve_upper_triangular"):
            m, b = arg(0, "a"), arg(1, "b")
            lower = kw.get("lower", FALSE) is TRUE or name == "solve_lower_triangular"
            trans = kw.get("trans", tm.const(0))
            if kw.get("unit_diagonal", FALSE) is not FALSE:
                raise Unmodelled("unit diagonal")
            if not (is_const(trans) and trans.args[0] in (0, 1, "N", "T", False, True)):
                raise Unmodelled("trans")
            if not b.dims:
                raise ShapeError("a linear system with a scalar right-hand side")
            L, n = self.matrix(m)
            c = P.chol_of(L)
            if c is None:
                k = (lambda i: i[1] - i[0]) if lower else (lambda i: i[0] - i[1])
                tri = TV((n, n), lambda i: P.iverson_lt(k(i) - ONE) * m.f(i))
                return self.apply_inverse(tri, b, trans.args[0] in (1, "T", True))
            if c[1] != lower:
                # only the diagonal of the factor is used
                tri = TV((n, n), lambda i: P.iverson_eq(i[0] - i[1]) * m.f(i) ** -1)
                return self.dot(tri, b)
            return self.apply_inverse(m, b, trans.args[0] in (1, "T", True))
        if name == "sum of shapes":
            raise ShapeError("a tuple is added to the shape of a tensor, which adds their elements")
        if name == "cho_solve":
            raise Unmodelled(name)
        if name == "arange":
            if "stop" in kw:
                a, b = self.scalar_of(kw["start"]), self.scalar_of(kw["stop"])
            else:
                a, b = ZERO, self.scalar_of(kw["start"])
            st = kw.get("step")
            if st is not None and not (is_const(st) and st.args[0] == 1):
                raise Unmodelled("step")
            return TV((b - a,), lambda i: a + i[0])
        if name in ("ones_like", "zeros_like", "ones", "zeros", "full", "full_like", "fill", "second"):
            c = {"o": ONE, "z": ZERO}.get(name[0])
            if name.endswith("_like"):
                d = arg(0, "x", "model").dims
            elif name in ("fill", "second"):
                a, b = arg(0), arg(1)
                return elementwise(lambda x, y: y, a, b)
            else:
                d = self.dims_of(kw.get("shape", kw.get(0)))
            if c is None:
                c = self.scalar_of(kw.get("fill_value", kw.get(1)))
            return TV(d, lambda i: c)
        if name == "broadcast_to":
            x = arg(0, "x")
            d = self.dims_of(kw.get("shape", kw.get(1)))
            n = len(d)
            for k in range(len(x.dims)):
                y = d[n - len(x.dims) + k]
                if not is_one(x.dims[k]) and x.dims[k] != y:
                    raise ShapeError("broadcast_to")
            return TV(d, lambda idx: x.f(bidx(x, list(idx), n)))
        if name in ("set_subtensor", "inc_subtensor"):
            return self.set_subtensor(kw, name == "inc_subtensor")
        if name in ("ravel", "flatten"):
            x = arg(0, "x")
            if len(kw) != 1:
                raise Unmodelled(name)
            if len(x.dims) == 1:
                return x
            if not x.dims:
                return TV((ONE,), lambda i: x.f([]))
            return ravel(x)
        if name == "reshape":
            x = arg(0, "x")
            d = self.dims_of(kw.get("newshape", kw.get(1)))
            if tuple(d) == x.dims:
                return x
            if len(x.dims) == 1 and len(d) == 1 and d[0].is_const() and d[0].value() == -1:
                return x
            if x.dims == (ONE,) and not d:
                return TV((), lambda i: x.f([ZERO]))
            if len(d) == 1 and (d[0].is_const() and d[0].value() == -1 or d[0] == size_of(x.dims)):
                return ravel(x)
            if len(x.dims) == 1 and x.dims[0] == size_of(d):
                return TV(d, lambda i: x.f([P.ravel_index(i, d)]))
            raise Unmodelled("reshape")
        if name == "atleast_Nd":
            x = arg(0, "arry")
            n = self.scalar_of(kw["n"]) if "n" in kw else ONE
            left = kw.get("left", TRUE)
            if not n.is_const() or left is not TRUE:
                raise Unmodelled(name)
            k = max(int(n.value()) - len(x.dims), 0)
            return TV((ONE,) * k + x.dims, lambda i: x.f(i[k:]))
        if name in ("atleast_1d", "atleast_2d"):
            x = arg(0)
            k = max(int(name[8]) - len(x.dims), 0)
            return TV((ONE,) * k + x.dims, lambda i: x.f(i[k:]))
        if name in ("shape_padleft", "shape_padright"):
            x = arg(0)
            n = self.scalar_of(kw[1]) if 1 in kw else ONE
            k = int(n.value())
            if name == "shape_padleft":
                return TV((ONE,) * k + x.dims, lambda i: x.f(i[k:]))
            return TV(x.dims + (ONE,) * k, lambda i: x.f(i[: len(i) - k]))
        if name == "expand_dims":
            x = arg(0)
            a = kw.get("axis", kw.get(1))
            k = a.args[0]
            if k < 0:
                k = len(x.dims) + 1 + k
            return TV(x.dims[:k] + (ONE,) + x.dims[k:], lambda i: x.f(i[:k] + i[k + 1 :]))
        if name == "squeeze":
            x = arg(0)
            keep = [k for k, d in enumerate(x.dims) if not is_one(d)]

            def f(i):
                full = [ZERO] * len(x.dims)
                for k, j in zip(keep, i):
                    full[k] = j
                return x.f(full)

            return TV([x.dims[k] for k in keep], f)
        if name == "dimshuffle":
            raise Unmodelled(name)
        if name == "join":
            xs = [self.ev(kw[k]) for k in sorted(k for k in kw if isinstance(k, int) and k > 0)]
            if not xs:
                raise Unmodelled("join")
            ax = kw.get(0, kw.get("axis"))
            if not (is_const(ax) and ax.args[0] == 0):
                raise Unmodelled("axis")
            return self.join(xs)
        if name == "shape":
            return self.vec(arg(0, "x").dims)
        if name in ("maximum", "minimum"):
            return elementwise(lambda a, b: P.raw_f(name, *sorted([a, b], key=lambda z: z.key())), arg(0), arg(1))
        if name in ("clip",):
            return elementwise(lambda a, b, c: P.raw_f(name, a, b, c), arg(0), arg(1), arg(2))
        raise Unmodelled(t.args[0])

    def join(self, xs):
        n = len(xs[0].dims)
        if any(len(x.dims) != n for x in xs):
            raise ShapeError("join")
        total = ZERO
        starts = []
        for x in xs:
            starts.append(total)
            total = total + x.dims[0]
        rest = broadcast(*[TV(x.dims[1:], None) for x in xs]) if n > 1 else ()

        def f(idx):
            r = ZERO
            for k, x in enumerate(xs):
                ind = ONE
                i = idx[0]
                if k > 0:
                    ind = ind * (ONE - P.iverson_lt(i - starts[k]))
                if k < len(xs) - 1:
                    ind = ind * P.iverson_lt(i - starts[k + 1])
                j = ZERO if is_one(x.dims[0]) else i - starts[k]
                r = r + ind * x.f([j] + list(idx[1:]))
            return r

        return TV((total,) + tuple(rest), f)

    def set_subtensor(self, kw, inc):
        x = kw.get("x", kw.get(0))
        y = self.ev(kw.get("y", kw.get(1)))
        if x.op != "idx":
            raise Unmodelled("set_subtensor")
        base = self.ev(x.args[0])
        k = x.args[1]
        items = [self.item(p.args[0]) for p in (k.args if k.op == "cat" else [v.one(k)])]
        if all(i[0] == "at" and len(i[1].dims) == 1 for i in items) and len(items) == len(base.dims) == 2:
            s = fresh()
            es = [i[1].f([ix(s)]) for i in items]
            if all(e == ix(s) for e in es) and all(i[1].dims[0] == d for i, d in zip(items, base.dims)):
                if y.dims and not is_one(y.dims[0]) and y.dims[0] != base.dims[0]:
                    raise ShapeError("set_subtensor")

                def f(idx):
                    val = y.f(bidx(y, [idx[0]], 1))
                    old = ZERO if inc else base.f([idx[0], idx[0]])
                    return base.f(idx) + P.iverson_eq(idx[0] - idx[1]) * (val - old)

                return TV(base.dims, f)
        if len(items) == 1 and items[0][0] == "at" and not items[0][1].dims:
            p = items[0][1].f([])

            def f(idx):
                val = y.f(bidx(y, list(idx[1:]), len(idx) - 1))
                old = ZERO if inc else base.f(idx)
                return base.f(idx) + P.iverson_eq(idx[0] - p) * (val - old)

            return TV(base.dims, f)
        raise Unmodelled("set_subtensor")

    # ------------------------------------------------------------ draws

    def ev_draw(self, t):
        uid, c = t.args[0], t.args[1]
        if c.op != "rv":
            raise Unmodelled("new " + c.op)
        fam = c.args[0].args[0] if c.args[0].op == "const" else None
        if fam is None and c.args[0].op == "obj":
            fam = c.args[0].args[0].args[0].split(".")[-1]
        kw = {}
        for a in c.args[2:]:
            if isinstance(a, T) and a.op == "kw":
                kw[a.args[0]] = a.args[1]
            else:
                raise Unmodelled("parameters")
        size = kw.pop("size", None)
        dtype = kw.pop("dtype", None)
        kw.pop("rng", None)
        r = self.draw(uid, fam, {k: self.ev(x) for k, x in kw.items()}, size)
        return r if dtype is None else self.to_type(r, dtype)

    # ------------------------------------------------------------ types

    def to_type(self, x, dt):
        """``x`` as an array of the type ``dt``: what isn't representable changes."""
        kind = self.type_kind(dt)
        if kind == "float":
            return x
        if kind is None:
            raise Unmodelled("type " + repr(dt)[:60])

        def go(p):
            n = self.integral(p)
            if n is None:
                raise Unmodelled("type of a value")
            if n and kind == "wide":
                return p
            return P.apply_f(kind if n else "trunc", p)

        return elementwise(go, x)

    def type_kind(self, dt):
        """Does a type hold all real numbers, all integers, or only small ones?"""
        if dt.op == "const" and isinstance(dt.args[0], str):
            n = dt.args[0]
        elif dt.op == "str":
            n = dt.args[0]
        elif dt.op == "glob":
            n = dt.args[0].split(":")[-1].split(".")[-1]
        elif dt.op == "attr" and dt.args[1] == "floatX":
            return "float"
        elif dt.op == "attr" and dt.args[1] == "dtype":
            x = dt.args[0]
            x = self.ev(x.args[0] if x.op == "attr" and x.args[1] == "type" else x)
            n = self.integral(x.f([ix(fresh("q")) for _ in x.dims]))
            return None if n is None else "wide" if n else "float"
        else:
            return None
        if n in ("float64", "float32", "floatX", "float", "double"):
            return "float"
        if n in ("int64", "uint64", "int", "int32", "uint32", "long", "int_", "uint"):
            return "wide"
        if n in ("int8", "int16", "uint8", "uint16", "bool", "bool_", "float16", "half"):
            return n
        return None

    def integral(self, p):
        """Are the values whole numbers? ``None``: it depends."""
        real = 0
        for c, fs, bs in p.terms:
            if c.denominator == 1 and not bs and all(e.denominator == 1 and e > 0 and self.whole(f) for f, e in fs):
                continue
            if bs or fs and any(self.whole(f) for f, _ in fs):
                return None
            real += 1
        return True if not real else False if real == 1 else None

    def whole(self, f):
        if f[0] in ("ix", "dim"):
            return True
        if f[0] == "v":
            return f[1] in P.INTEGERS or f[1] == "y"
        if f[0] == "d":
            return f[1] in self.draws and self.draws[f[1]].family in ("bernoulli", "categorical", "binomial", "poisson", "nbinom")
        return False

    def draw(self, uid, fam, ps, size):
        event = 1 if fam in ("categorical", "dirichlet", "multinomial") else 0
        names = set(ps)
        if fam == "multivariate_normal":
            mean, cov = ps["mean"], ps["cov"]
            L, n = self.matrix(cov)
            z = self.atomic(uid, "N", {}, (n,))
            cf = TV((n, n), lambda i: factor("chol", L, *i))
            return elementwise(lambda a, b: a + b, mean, self.dot(cf, z))
        batch = []
        for k, p in ps.items():
            batch.append(TV(p.dims[: len(p.dims) - event], None))
        if size is not None:
            dims = tuple(self.dims_of(size))
            n = len(dims)
            for b in batch:
                for d, e in zip(b.dims[::-1], dims[::-1]):
                    if not is_one(d) and d != e:
                        raise ShapeError(f"size: {d} and {e}")
                if len(b.dims) > n:
                    raise ShapeError("size")
        else:
            dims = broadcast(*batch) if batch else ()
        sc = lambda p: TV(dims, lambda idx: p.f(bidx(p, list(idx), len(dims))))

        def get(k, default=None):
            if k in ps:
                return sc(ps[k])
            if default is None:
                raise Unmodelled("parameter " + k)
            return TV(dims, lambda i: num(default))

        mul = lambda *x: elementwise(lambda *a: _prod(a), *x)
        div = lambda a, b: elementwise(lambda x, y: x / y, a, b)
        one = TV(dims, lambda i: ONE)
        if fam == "standard_normal":
            return self.atomic(uid, "N", {}, dims)
        if fam == "normal":
            z = self.atomic(uid, "N", {}, dims)
            return elementwise(lambda l, s, z: l + s * z, get("loc", 0), get("scale", 1), z)
        if fam in ("cauchy", "laplace", "logistic", "gumbel"):
            z = self.atomic(uid, fam, {}, dims)
            return elementwise(lambda l, s, z: l + s * z, get("loc", 0), get("scale", 1), z)
        if fam in ("halfnormal", "halfcauchy"):
            z = self.atomic(uid, fam, {}, dims)
            return elementwise(lambda l, s, z: l + s * z, get("loc", 0), get("scale", 1), z)
        if fam == "t":
            z = self.atomic(uid, fam, {"df": get("df")}, dims)
            return elementwise(lambda l, s, z: l + s * z, get("loc", 0), get("scale", 1), z)
        if fam == "gamma":
            if "rate" in names and "scale" in names:
                raise Unmodelled("gamma")
            g = self.atomic(uid, "G", {"shape": get("shape")}, dims)
            if "scale" in names:
                return mul(g, get("scale"))
            return div(g, get("rate", 1))
        if fam == "exponential":
            g = self.atomic(uid, "G", {"shape": one}, dims)
            return mul(g, get("scale", 1))
        if fam == "chisquare":
            g = self.atomic(uid, "G", {"shape": elementwise(lambda d: d / 2, get("df"))}, dims)
            return elementwise(lambda x: 2 * x, g)
        if fam == "invgamma":
            g = self.atomic(uid, "G", {"shape": get("shape")}, dims)
            return div(get("scale", 1), g)
        if fam == "bernoulli":
            return self.atomic(uid, "binomial", {"n": one, "p": get("p")}, dims)
        if fam in ("PolyaGammaRV", "polyagamma"):
            # the distribution is even in its second parameter
            return self.atomic(uid, "PG", {"h": get("h", 1), "z": get("z", 0)}, dims)
        if fam in ("categorical",):
            p = ps["p"]
            return self.atomic(uid, fam, {}, dims, extra={"p": p})
        if event:
            raise Unmodelled(fam)
        return self.atomic(uid, fam, {k: get(k) for k in ps}, dims)

    def atomic(self, uid, family, params, dims, extra=None):
        loops = [ix(n) for n, _ in self.loops]
        ns = [n for n, _ in self.loops]
        lams = {}
        for k, p in params.items():
            q = [fresh("q") for _ in dims]
            lams[k] = Lam(ns + q, p.f([ix(x) for x in q]))
        for k, p in (extra or {}).items():
            q = [fresh("q") for _ in p.dims]
            lams[k] = Lam(ns + q, p.f([ix(x) for x in q]))
        self.draws[uid] = d = Draw(uid, family, lams, tuple(dims), len(ns))
        d.shape = tuple(Lam(ns, x).key() for x in dims)
        dims = tuple(dims)
        return TV(
            dims,
            lambda idx: factor("d", uid, *(loops + [ZERO if is_one(d) else i for d, i in zip(dims, idx)])),
        )

    # ------------------------------------------------------------ scans

    def ev_scan(self, s):
        k = ("scan", s.id, tuple(self.loops))
        r = self.memo.get(k)
        if r is None:
            r = self.memo[k] = self._scan(s)
        return r

    def _scan(self, s):
        kw = {a.args[0]: a.args[1] for a in s.args}
        fn = kw["fn"]
        if fn.op != "lam":
            raise Unmodelled("scan function")
        seqs = []
        for p in kw["sequences"].args if "sequences" in kw and kw["sequences"] is not NONE else []:
            if p.op != "one":
                raise Unmodelled("sequences")
            x = p.args[0]
            if x.op == "dct":
                d = {q.args[0].args[0]: q.args[1] for q in x.args}
                if set(d) - {"input"}:
                    raise Unmodelled("taps")
                x = d["input"]
            seqs.append(self.ev(x))
        nons = [self.term(p) for p in (kw["non_sequences"].args if "non_sequences" in kw else [])]
        back = kw.get("go_backwards", FALSE) is TRUE
        n = None
        if "n_steps" in kw and kw["n_steps"] is not NONE:
            n = self.scalar_of(kw["n_steps"])
        for q in seqs:
            if n is None:
                n = q.dims[0]
            elif q.dims[0] != n:
                raise ShapeError("sequences")
        if n is None:
            raise Unmodelled("n_steps")
        inits = []
        for p in kw["outputs_info"].args if "outputs_info" in kw and kw["outputs_info"] is not NONE else []:
            x = p.args[0]
            if x is NONE:
                inits.append(None)
                continue
            if x.op == "dct":
                d = {q.args[0].args[0]: q.args[1] for q in x.args}
                taps = d.get("taps")
                if taps is not None and taps is not v.tup(tm.const(-1)):
                    raise Unmodelled("taps")
                if "initial" not in d:
                    inits.append(None)
                    continue
                x = d["initial"]
            inits.append(self.ev(x))
        t = f"t{len(self.loops)}~{s.id}"
        params = fn.args[:-1]
        subs = {}
        args = []
        for q in seqs:
            ph = tm.sym(f"seq{tm.fresh('s').id}")
            pos = (n - 1 - ix(t)) if back else ix(t)
            self.env[ph] = TV(q.dims[1:], lambda idx, q=q, pos=pos: q.f([pos] + list(idx)))
            args.append(ph)
        prevs = []
        for k, i in enumerate(inits):
            if i is None:
                continue
            ph = tm.sym(f"prev{tm.fresh('s').id}")
            self.env[ph] = TV(i.dims, lambda idx, k=k, i=i: factor("prev", str(k), *[ZERO if is_one(d) else x for d, x in zip(i.dims, idx)]))
            args.append(ph)
            prevs.append((k, i))
        args += nons
        if len(args) != len(params):
            raise Unmodelled("arguments of the scan function")
        body = tm.app(fn, *args)
        self.loops.append((t, n))
        try:
            outs = self.scan_outputs(body)
            tvs = [self.ev(o) for o in outs]
            lams = []
            for o in tvs:
                q = [fresh("q") for _ in o.dims]
                lams.append((Lam([t] + q, o.f([ix(x) for x in q])), o.dims))
        finally:
            self.loops.pop()
        res = []
        recurrent = any(f[0] == "prev" for L, _ in lams for f in P.factors(L.body)) or any(
            f[0] == "prev" for d in self.draws.values() for L in d.params.values() for f in P.factors(L.body)
            if d.nloops > len(self.loops)
        )
        if not recurrent:
            for L, dims in lams:
                res.append(TV((n,) + tuple(dims), lambda idx, L=L: L(*idx)))
            return res
        ini = tuple(i.lam() for _, i in prevs)
        for k, (L, dims) in enumerate(lams):
            if k < len(inits) and inits[k] is not None:
                j = [a for a, _ in prevs].index(k)
                if broadcast(TV(dims, None), TV(inits[k].dims, None)) != inits[k].dims:
                    raise ShapeError("recurrence")
            data = (k, "len", n) + tuple(x for x, _ in lams) + ("init",) + ini
            res.append(TV((n,) + tuple(dims), lambda idx, data=data, L=L: factor("rec", data, *idx)))
        return res

    def term(self, p):
        if p.op != "one":
            raise Unmodelled("splice")
        return p.args[0]

    def scan_outputs(self, body):
        if body.op == "cat":
            xs = [self.term(p) for p in body.args]
            if len(xs) == 2 and xs[1].op in ("dct",):
                return self.scan_outputs(xs[0])
            return [x for x in xs if x.op != "dct"]
        if body.op == "ite" and any(l.op == "cat" for l in tm.leaves(body)):
            raise Unmodelled("gated outputs")
        return [body]


def _prod(xs):
    r = ONE
    for x in xs:
        r = r * x
    return r


# ---------------------------------------------------------------- comparison


def used_draws(p, draws):
    """The draws that ``p`` depends on, including the parameters of draws."""
    seen, todo = {}, [p]
    while todo:
        q = todo.pop()
        for f in P.factors(q):
            if f[0] == "d" and f[1] not in seen:
                seen[f[1]] = None
                for L in draws[f[1]].params.values():
                    todo.append(L.body)
    return list(seen)


def relabel(p, m):
    return P.remap(p, lambda kind, data, args: factor("d", m.get(data, data), *args) if kind == "d" else None)


def rename_lam(L, m):
    return Lam(L.params, relabel(L.body, m))


def same_lam(a, b):
    if len(a.params) != len(b.params):
        return False
    xs = [ix(fresh("z")) for _ in a.params]
    return P.equal(a(*xs), b(*xs))


def same_params(a, b, m):
    """Do two draws have the same distribution, given the matching ``m``?"""
    if a.family != b.family or set(a.params) != set(b.params):
        return False
    for k in a.params:
        x, y = rename_lam(a.params[k], m), b.params[k]
        if same_lam(x, y):
            continue
        if a.family == "PG" and k == "z":
            neg = Lam(y.params, -y.body)
            if same_lam(x, neg):
                continue
        return False
    return True


def match(results_a, draws_a, results_b, draws_b):
    """Are two lists of results equal up to the identity of the draws?

    Returns ``None`` if they are and a reason otherwise.
    """
    ua, ub = [], []
    for r in results_a:
        for u in used_draws(r.body, draws_a):
            if u not in ua:
                ua.append(u)
    for r in results_b:
        for u in used_draws(r.body, draws_b):
            if u not in ub:
                ub.append(u)
    fa = sorted((draws_a[u].family, len(draws_a[u].dims)) for u in ua)
    fb = sorted((draws_b[u].family, len(draws_b[u].dims)) for u in ub)
    if fa != fb:
        return f"the draws are {_fams(fa)} instead of {_fams(fb)}"
    import itertools

    groups = {}
    for u in ub:
        groups.setdefault((draws_b[u].family, draws_b[u].shape), []).append(u)
    byfam = {}
    for u in ua:
        byfam.setdefault((draws_a[u].family, draws_a[u].shape), []).append(u)
    if {k: len(x) for k, x in byfam.items()} != {k: len(x) for k, x in groups.items()}:
        return "the draws don't have the expected shapes"
    keys = list(byfam)
    tag = "#"
    reason = "the parameters of the draws differ"

    for perm in itertools.product(*[list(itertools.permutations(groups[k])) for k in keys]):
        m = {}
        for k, ps in zip(keys, perm):
            m.update(zip(byfam[k], ps))
        if not all(same_params(draws_a[u], draws_b[m[u]], m) for u in ua):
            continue
        reason = "the value differs"
        if all(same_lam(rename_lam(a, m), b) for a, b in zip(results_a, results_b)):
            return None
    return reason


def _fams(fs):
    return ", ".join(f"{f}" for f, _ in fs) or "none"


def gaussian(L, dims, draws):
    """``(mean, covariance)`` of a vector that is affine in standard normal draws."""
    if len(L.params) != 1:
        raise ShapeError(f"the result has {len(L.params)} dimensions instead of one")
    (p,) = L.params
    mean, parts = ZERO, []
    for c, fs, bs in L.body.terms:
        zs = [(n, f, e) for n, (f, e) in enumerate(fs) if f[0] == "d" and draws[f[1]].family == "N"]
        if not zs:
            mean = mean + P.collect(P.norm(c, list(fs), list(bs)))
            continue
        if len(zs) > 1 or zs[0][2] != 1:
            return None
        n, f, _ = zs[0]
        rest = fs[:n] + fs[n + 1 :]
        if any(g[0] == "d" and draws[g[1]].family == "N" for h, _ in rest for g in _sub(h)):
            return None
        parts.append((f[1], f[2], P.collect(P.norm(c, list(rest), [])), bs))
    ranges = {p: dims[0]}
    # blocks of a vector draw
    blocks = {}
    for uid, idx, coef, bs in parts:
        if len(idx) != 1:
            return None
        i = idx[0]
        names = [x for x in i.free()]
        if len(names) != 1:
            return None
        off = i - ix(names[0])
        if off.free():
            return None
        rng = dict(bs).get(names[0], ranges.get(names[0]))
        if rng is None:
            return None
        blocks.setdefault(uid, {})[off.key()] = (off, rng)
    for uid, bl in blocks.items():
        bl = list(bl.values())
        for a in range(len(bl)):
            for b in range(len(bl)):
                if a < b and not (_nonneg(bl[b][0] - bl[a][0] - bl[a][1]) or _nonneg(bl[a][0] - bl[b][0] - bl[b][1])):
                    return ("dependent",)
    i, j = fresh("i"), fresh("j")
    cov = ZERO
    for u1, x1, c1, b1 in parts:
        for u2, x2, c2, b2 in parts:
            if u1 != u2:
                continue
            n1, n2 = next(iter(x1[0].free())), next(iter(x2[0].free()))
            if x1[0] - ix(n1) != x2[0] - ix(n2):
                continue
            A, B = (c1, b1), (c2, b2)
            f2 = {n: ix(fresh()) for n, _ in b2}
            c2r = c2.subst({**f2, p: ix(j)})
            c1r = c1.subst({p: ix(i)})
            y1 = x1[0].subst({p: ix(i)})
            y2 = x2[0].subst({**f2, p: ix(j)})
            term = c1r * c2r * P.iverson_eq(y1 - y2)
            for n, d in b1:
                term = term.sum(n, d)
            for n, d in b2:
                term = term.sum(f2[n].terms[0][1][0][0][1], d)
            cov = cov + term
    return Lam((p,), mean), Lam((i, j), cov)


def _sub(f):
    return [f] + [g for a in f[2] for g in P.factors(a)]


def _nonneg(p):
    """A sum of dimensions with positive coefficients."""
    return all(c > 0 and all(f[0] == "dim" for f, _ in fs) and not bs for c, fs, bs in p.terms)


# ---------------------------------------------------------------- quantities defined up to a factor


def projective(p):
    """``p`` with the linear recurrences in it replaced by representatives.

    A recurrence whose step is ``c(t, prev)·X(t, s, prev)`` with ``X`` linear in
    the previous value and ``c`` independent of the component ``s`` and never zero
    is, up to a factor that doesn't depend on ``s``, the one with ``c = 1``.
    """

    def f(kind, data, args):
        if kind != "rec" or "init" not in data:
            return None
        cut = data.index("init")
        if cut != 4 or len(data) != 6:
            return None
        step, init = data[3], data[5]
        step = _drop_scale(step, step.params[1:])
        init = _drop_scale(init, init.params)
        if step is None or init is None:
            return None
        return factor("rec", data[:3] + (step, "init", init), *args)

    return P.remap(p, f)


def _drop_scale(L, state):
    groups = []
    for c, fs, bs in L.body.terms:
        names = set(state) | {n for n, _ in bs}
        dep, scale = [], []
        for fx in fs:
            fac, _ = fx
            if fac[0] == "prev" or P.ffree(fac) & names:
                dep.append(fx)
            else:
                scale.append(fx)
        groups.append((c, tuple(scale), Poly([(Fraction(1), tuple(dep), bs)])))
    if not groups or any(x.key() != groups[0][2].key() for _, _, x in groups):
        return None
    atoms, rows, common = {}, [], None
    for c, scale, _ in groups:
        at, rest = set(), []
        for fac, e in scale:
            if fac[0] in ("lt", "eq0"):
                k = P.fkey(fac, {}, 0)
                atoms[k] = fac
                at.add(k)
            else:
                rest.append(f"{P.fkey(fac, {}, 0)}^{e}")
        rest = sorted(rest)
        if common is None:
            common = rest
        elif common != rest:
            return None
        rows.append((c, at))
    if len(atoms) > 8:
        return None
    ks = sorted(atoms)
    for bits in range(1 << len(ks)):
        on = {k for n, k in enumerate(ks) if bits >> n & 1}
        if sum((c for c, at in rows if at <= on), Fraction(0)) <= 0:
            return None
    return Lam(L.params, groups[0][2])
