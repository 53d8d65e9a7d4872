"""Facts about the data of constants, decided for representative constants.

Whether two predicates over the data of a constant of a matched graph (``np.all(x == 0)``, ``np.allclose(x, 0)``,
``x.mean() == 0``, ...) agree isn't decided by their form: the terms of both are valued at the representatives of the classes
that such predicates tell apart (equal, close, of the other sign, larger, smaller, with the same mean / first / largest
element, ...).  A representative is only used when each of the facts has a value for it."""
from . import terms as tm
from .terms import FALSE, TRUE, mk


class Unknown(Exception):
    pass


def is_data(t):
    return t.op == "attr" and t.args[1] == "data"


def data_of(t, _seen=None):
    """The data terms in ``t``."""
    out, seen, todo = [], set(), [t]
    while todo:
        x = todo.pop()
        if not isinstance(x, tm.T) or x.id in seen:
            continue
        seen.add(x.id)
        if is_data(x):
            out.append(x)
        else:
            todo.extend(a for a in x.args if isinstance(a, tm.T))
    return sorted(out, key=lambda x: x.id)


class Array:
    """A number (no dimensions) or a vector."""

    def __init__(self, xs, nd=1):
        self.xs, self.nd = tuple(xs), nd

    def map(self, f):
        return Array([f(x) for x in self.xs], self.nd)

    def show(self):
        return f"{self.xs[0]:g}" if not self.nd else "[" + ", ".join(f"{x:.10g}" for x in self.xs) + "]"


def num(x):
    return Array([x], 0)


def pair(f, a, b):
    if a.nd and b.nd and len(a.xs) != len(b.xs):
        raise Unknown
    n = max(len(a.xs), len(b.xs))
    xs = a.xs * (n // len(a.xs)), b.xs * (n // len(b.xs))
    return Array([f(x, y) for x, y in zip(*xs)], max(a.nd, b.nd))


def close(x, y):
    return abs(x - y) <= 1e-8 + 1e-5 * abs(y)


def _round(x):
    return float(round(x))


def _mean(xs):
    return sum(xs) / len(xs)


REDUCE = {
    "all": all,
    "any": any,
    "mean": _mean,
    "sum": sum,
    "max": max,
    "amax": max,
    "min": min,
    "amin": min,
    "ptp": lambda xs: max(xs) - min(xs),
    "median": lambda xs: sorted(xs)[len(xs) // 2] if len(xs) % 2 else _mean(sorted(xs)[len(xs) // 2 - 1 : len(xs) // 2 + 1]),
    "count_nonzero": lambda xs: sum(1 for x in xs if x),
    "size": len,
    "var": lambda xs: _mean([(x - _mean(xs)) ** 2 for x in xs]),
    "std": lambda xs: _mean([(x - _mean(xs)) ** 2 for x in xs]) ** 0.5,
}


def _prod(xs):
    r = 1
    for x in xs:
        r *= x
    return r


REDUCE["prod"] = _prod
MAPS = {
    "abs": abs,
    "absolute": abs,
    "fabs": abs,
    "round": _round,
    "around": _round,
    "rint": _round,
    "sign": lambda x: (x > 0) - (x < 0),
    "square": lambda x: x * x,
    "trunc": lambda x: float(int(x)),
    "isfinite": lambda x: True,
    "isnan": lambda x: False,
    "logical_not": lambda x: not x,
    "negative": lambda x: -x,
    "asarray": lambda x: x,
    "array": lambda x: x,
    "ravel": lambda x: x,
    "flatten": lambda x: x,
}
PAIRS = {
    "isclose": close,
    "less": lambda x, y: x < y,
    "less_equal": lambda x, y: x <= y,
    "greater": lambda x, y: x > y,
    "greater_equal": lambda x, y: x >= y,
    "equal": lambda x, y: x == y,
    "not_equal": lambda x, y: x != y,
    "subtract": lambda x, y: x - y,
    "add": lambda x, y: x + y,
    "multiply": lambda x, y: x * y,
}


def scalar(a):
    """The one value of the elements, which has to be one."""
    if len(set(a.xs)) != 1:
        raise Unknown
    return a.xs[0]


def value(t, env):
    if t in env:
        return env[t]
    op, xs = t.op, t.args
    if op == "const" and isinstance(xs[0], (int, float, bool)):
        return num(xs[0])
    if op in ("add", "mul"):
        r = value(xs[0], env)
        for x in xs[1:]:
            r = pair((lambda a, b: a + b) if op == "add" else (lambda a, b: a * b), r, value(x, env))
        return r
    if op == "pow" and xs[1].op == "const" and xs[1].args[0] in (2, 3):
        return value(xs[0], env).map(lambda x: x ** xs[1].args[0])
    if op == "elt" and xs[0] in ("eq", "ne"):
        f = (lambda a, b: a == b) if xs[0] == "eq" else (lambda a, b: a != b)
        return pair(f, value(xs[1], env), value(xs[2], env))
    if op == "idx" and xs[1].op == "const" and xs[1].args[0] == 0 and not isinstance(xs[1].args[0], bool):
        a = value(xs[0], env)
        if not a.nd and not (xs[0].op == "attr" and xs[0].args[1] == "flat"):
            raise Unknown
        return num(a.xs[0])
    if op == "attr" and xs[1] in ("flat", "T"):
        return value(xs[0], env)
    if op == "attr" and xs[1] == "size":
        return num(len(value(xs[0], env).xs))
    if op == "attr" and xs[1] == "ndim":
        return num(value(xs[0], env).nd)
    if op == "mcall" and xs[0] in ("item", "tolist", "copy", "squeeze", "ravel", "flatten") and len(xs) == 2:
        a = value(xs[1], env)
        if xs[0] == "item" and len(a.xs) != 1 or xs[0] == "tolist":
            raise Unknown
        return num(a.xs[0]) if xs[0] == "item" else a
    if op == "call" and isinstance(xs[0], str):
        space, _, name = xs[0].partition(":")
        args = [x.args[1] if x.op == "kw" and x.args[0] == "x" else x for x in xs[1:]]
        if space in ("np", "ae") and len(args) == 1:
            a = value(args[0], env)
            if name in REDUCE:
                return num(REDUCE[name](a.xs))
            if name in MAPS:
                return a.map(MAPS[name])
        if space == "py" and len(args) == 1 and name in ("abs", "float", "int", "bool", "round"):
            a = value(args[0], env)
            if name == "abs":
                return a.map(abs)
            if a.nd:
                raise Unknown
            return a.map({"float": float, "int": int, "bool": bool, "round": _round}[name])
        if space == "ae" and name == "astype" and len(args) == 2 and args[1] in (tm.glob("py:int"), tm.glob("py:float")):
            return value(args[0], env).map(lambda x: int(x) if args[1] is tm.glob("py:int") else float(x))
        if space in ("np", "ae") and len(args) == 2:
            if name == "allclose":
                return num(all(pair(close, value(args[0], env), value(args[1], env)).xs))
            if name == "array_equal":
                a, b = value(args[0], env), value(args[1], env)
                return num(a.nd == b.nd and a.xs == b.xs)
            if name in PAIRS:
                return pair(PAIRS[name], value(args[0], env), value(args[1], env))
    raise Unknown


def fact(a, env):
    """The truth value of an atom."""
    if a.op in ("alleq", "anyeq"):
        r = pair(lambda x, y: x == y, value(a.args[0], env), value(a.args[1], env))
        return (all if a.op == "alleq" else any)(r.xs)
    if a.op in ("eq", "lt"):
        x, y = scalar(value(a.args[0], env)), scalar(value(a.args[1], env))
        return x == y if a.op == "eq" else x < y
    if a.op == "truthy":
        return bool(scalar(value(a.args[0], env)))
    raise Unknown


def values(about, env):
    try:
        return {a: fact(a, env) for a in about}
    except (Unknown, ArithmeticError, ValueError):
        return None


def representatives(k):
    near = [k, k + 1e-9, k + 0.25, k - 0.25, k + 1, k - 1, k + 1000.0, k - 1000.0] + ([-k] if k else [])
    out = [num(float(x)) for x in near]
    for xs in [(0, 0, 0), (0, 1, -1), (1, 0, -1), (1, -1, 0), (0, 0, 1), (0, 0, -1), (1, 0, 0), (1e-9, 0, 0), (0.25, 0, 0)]:
        out.append(Array([float(k + x) for x in xs]))
    return out


def keys(ats, D):
    """The numbers that the data are compared with."""
    out = set()
    for a in ats:
        if a.op in ("alleq", "anyeq") and D in a.args:
            for x in a.args:
                if x.op == "const" and isinstance(x.args[0], (int, float)) and not isinstance(x.args[0], bool):
                    out.add(x.args[0])
    return sorted(out)


def usable(ats, D):
    """Are the only facts about the constant whether it is one, whether it has a node, and its data?"""
    x = D.args[0]
    for a in ats:
        if tm.contains(a, x) and not data_of(a):
            if a.op == "isnone" and a.args[0] is mk("attr", x, "owner") or a.op == "isinst" and a.args[0] is x:
                continue
            return False
    return True


def settle(A, S, limit=400):
    """Pairs of the two conditions for representative constants, with a description of them.

    The conditions of a pair have no facts about data any more."""
    ats = set(tm.atoms(A)) | set(tm.atoms(S))
    about = [a for a in ats if data_of(a)]
    Ds = sorted({d for a in about for d in data_of(a)}, key=lambda d: d.id)
    spec = {d: keys(tm.atoms(S), d) for d in Ds}
    if not Ds or not all(spec.values()) or not all(usable(ats, d) for d in Ds):
        return
    n = 0
    for d in Ds:
        for k in spec[d]:
            for r in representatives(k):
                for rest in combinations([(e, spec[e]) for e in Ds if e is not d]):
                    n += 1
                    if n > limit:
                        return
                    for other in (lambda x: num(float(x)), lambda x: Array([float(x)] * 3)):
                        env = {**{e: other(x) for e, x in rest.items()}, d: r}
                        vals = values(about, env)
                        if vals is not None:
                            break
                    else:
                        continue
                    A1, S1 = A, S
                    for a, b in vals.items():
                        A1, S1 = tm.assume(A1, a, b), tm.assume(S1, a, b)
                    if A1 is not S1:
                        yield A1, S1, f"the constant {tm.show(d.args[0])[:100]} = {r.show()}"


def combinations(xs):
    if not xs:
        yield {}
        return
    (e, ks), rest = xs[0], xs[1:]
    for k in ks:
        for r in combinations(rest):
            yield {e: k, **r}
