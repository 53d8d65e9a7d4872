"""Models of the language's built-ins and of the libraries that are called."""
import itertools

from . import terms as tm
from . import vals as v
from .terms import (
    FALSE,
    NONE,
    TRUE,
    And,
    Not,
    Or,
    T,
    app,
    atom,
    const,
    fresh,
    glob,
    is_cond,
    is_const,
    ite,
    lam,
    lift,
    map_leaves,
    mk,
    raw,
    sym,
)

_uid = itertools.count(1)


def new(content):
    """A value with an identity of its own (a draw, a clone, ...)."""
    return raw("new", next(_uid), content)


# ---------------------------------------------------------------- names

BUILTINS = set(
    """len list tuple dict set frozenset zip enumerate range isinstance issubclass
    hasattr getattr setattr delattr all any sum min max sorted reversed map filter next iter str repr
    format super type print int float bool abs callable id object round divmod slice hash
    property classmethod staticmethod vars dir open
    ValueError TypeError KeyError IndexError AttributeError RuntimeError StopIteration
    NotImplementedError NotImplemented AssertionError Exception BaseException LookupError ArithmeticError
    OverflowError ZeroDivisionError Ellipsis __debug__ UserWarning Warning DeprecationWarning
    """.split()
)


def is_builtin(n):
    return n in BUILTINS


MODULES = set(
    """aesara aesara.tensor aesara.tensor.random aesara.tensor.linalg aesara.tensor.slinalg
    aesara.tensor.nlinalg aesara.tensor.subtensor aesara.tensor.math aesara.tensor.basic
    aesara.tensor.extra_ops aesara.tensor.var aesara.tensor.elemwise aesara.tensor.shape
    aesara.tensor.random.basic aesara.tensor.random.op aesara.tensor.random.utils
    aesara.tensor.random.var aesara.tensor.rewriting aesara.tensor.rewriting.shape
    aesara.graph aesara.graph.basic aesara.graph.fg aesara.graph.op aesara.graph.features
    aesara.graph.type aesara.graph.rewriting aesara.graph.rewriting.basic
    aesara.graph.rewriting.db aesara.graph.rewriting.unify aesara.graph.rewriting.utils
    aesara.graph.utils aesara.compile aesara.compile.builders aesara.compile.mode
    aesara.compile.sharedvalue aesara.ifelse aesara.sparse aesara.sparse.basic
    numpy numpy.random numpy.linalg scipy scipy.special scipy.stats scipy.linalg
    aehmc aehmc.nuts aehmc.utils aeppl aeppl.transforms aeppl.rewriting aeppl.joint_logprob
    etuples etuples.core etuples.dispatch kanren kanren.facts kanren.core unification unification.core cons cons.core
    functools itertools operator collections collections.abc typing typing_extensions dataclasses
    copy math polyagamma warnings logging abc contextlib types""".split()
)
# ``aeppl.joint_logprob`` is both a module and a function
MODULES.discard("aeppl.joint_logprob")

RVNAMES = {
    "normal": ("NormalRV", ["loc", "scale"]),
    "standard_normal": ("StandardNormalRV", []),
    "halfnormal": ("HalfNormalRV", ["loc", "scale"]),
    "lognormal": ("LogNormalRV", ["mean", "sigma"]),
    "gamma": ("GammaRV", ["shape", "rate"]),
    "chisquare": ("ChiSquareRV", ["df"]),
    "pareto": ("ParetoRV", ["b", "scale"]),
    "gumbel": ("GumbelRV", ["loc", "scale"]),
    "exponential": ("ExponentialRV", ["scale"]),
    "weibull": ("WeibullRV", ["shape"]),
    "logistic": ("LogisticRV", ["loc", "scale"]),
    "vonmises": ("VonMisesRV", ["mu", "kappa"]),
    "multivariate_normal": ("MvNormalRV", ["mean", "cov"]),
    "dirichlet": ("DirichletRV", ["alphas"]),
    "poisson": ("PoissonRV", ["lam"]),
    "geometric": ("GeometricRV", ["p"]),
    "hypergeometric": ("HyperGeometricRV", ["ngood", "nbad", "nsample"]),
    "cauchy": ("CauchyRV", ["loc", "scale"]),
    "halfcauchy": ("HalfCauchyRV", ["loc", "scale"]),
    "invgamma": ("InvGammaRV", ["shape", "scale"]),
    "wald": ("WaldRV", ["mean", "scale"]),
    "truncexpon": ("TruncExponentialRV", ["b", "loc", "scale"]),
    "t": ("StudentTRV", ["df", "loc", "scale"]),
    "bernoulli": ("BernoulliRV", ["p"]),
    "laplace": ("LaplaceRV", ["loc", "scale"]),
    "binomial": ("BinomialRV", ["n", "p"]),
    "nbinom": ("NegBinomialRV", ["n", "p"]),
    "betabinom": ("BetaBinomialRV", ["n", "a", "b"]),
    "gengamma": ("GenGammaRV", ["alpha", "p", "lambd"]),
    "multinomial": ("MultinomialRV", ["n", "p"]),
    "categorical": ("CategoricalRV", ["p"]),
    "randint": ("RandIntRV", ["low", "high"]),
    "integers": ("IntegersRV", ["low", "high"]),
    "choice": ("ChoiceRV", ["a", "size", "replace", "p"]),
    "permutation": ("PermutationRV", ["x"]),
    "uniform": ("UniformRV", ["low", "high"]),
    "triangular": ("TriangularRV", ["left", "mode", "right"]),
    "beta": ("BetaRV", ["alpha", "beta"]),
}
RVALIAS = {"negative_binomial": "nbinom", "random": "uniform"}
RVCLASS = {c: n for n, (c, _) in RVNAMES.items()}
# number of distribution parameters of a node
RVARITY = {c: len(p) for _, (c, p) in RVNAMES.items()}
RVARITY["TruncExponentialRV"] = 3

ALIAS = {
    "ae:as_tensor_variable": "ae:as_tensor",
    "ae:constant": "ae:as_tensor",
    "ae:true_divide": "ae:true_div",
    "ae:divide": "ae:true_div",
    "ae:square": "ae:sqr",
    "ae:power": "ae:pow",
    "ae:matmul": "ae:dot",
    "ae:inv_": "ae:reciprocal",
    "ae:where": "ae:switch",
    "ae:local_optimizer": "ae:node_rewriter",
    "ae:concatenate": "ae:join",
    "ae:less": "ae:lt",
    "ae:greater": "ae:gt",
}


def ext_glob(path):
    if path in MODULES:
        return glob("mod:" + path)
    parts = path.split(".")
    last = parts[-1]
    root = parts[0]
    if root == "aesara":
        mod = ".".join(parts[:-1])
        if mod.startswith("aesara.tensor.random"):
            n = RVALIAS.get(last, last)
            if n in RVNAMES:
                return glob("rnd:" + n)
            if last in RVCLASS:
                return glob("rv:" + last)
        n = "ae:" + last
        return glob(ALIAS.get(n, n))
    pre = {
        "numpy": "np",
        "aeppl": "pp",
        "aehmc": "hmc",
        "etuples": "log",
        "kanren": "log",
        "unification": "log",
        "cons": "log",
        "functools": "py",
        "itertools": "py",
        "operator": "op",
        "collections": "py",
        "dataclasses": "py",
        "copy": "py",
        "typing": "ty",
        "polyagamma": "pg",
        "math": "np",
    }.get(root, "x")
    if pre == "x":
        return glob("x:" + path)
    if path.startswith("numpy.random."):
        return glob("np:random." + last)
    return glob(pre + ":" + last)


# ---------------------------------------------------------------- decorators


def decorate(I, d, f, node):
    if d.op == "glob":
        n = d.args[0]
        if n in ("py:property", "py:staticmethod", "py:classmethod"):
            I.fns[f.args[0]].kind = n[3:]
            return f
        if n in ("py:lru_cache", "py:cache"):
            return f
    if d.op == "call" and d.args[0] in ("py:wraps",):
        if f.op == "fn":
            I.fns[f.args[0]].wraps = d.args[1]
        return f
    if d.op == "call" and d.args[0] in ("py:lru_cache",):
        return f
    if d.op == "call" and d.args[0] == "ae:node_rewriter":
        I.rewriters = getattr(I, "rewriters", [])
        r = raw("rewriter", f, d)
        I.rewriters.append(r)
        return r
    if d.op == "fn":
        g = I.fns[d.args[0]]
        r = I.call(d, [v.one(f)], {})
        if r.op == "rewriter" or True:
            I.decorated = getattr(I, "decorated", {})
            if f.op == "fn":
                I.decorated[I.fns[f.args[0]].qualname] = (f, d, r)
        return r
    return I.call(d, [v.one(f)], {})


def decorate_class(I, d, c):
    n = None
    kw = {}
    if d.op == "glob":
        n = d.args[0]
    elif d.op == "call" and isinstance(d.args[0], str):
        n = d.args[0]
        for a in d.args[1:]:
            if isinstance(a, T) and a.op == "kw":
                kw[a.args[0]] = a.args[1]
    if n == "py:dataclass":
        I.classes[c.args[0]].dataclass = kw
    return c


# ---------------------------------------------------------------- classes


def mro(I, c):
    """Package classes of ``c`` in resolution order, then external bases."""
    out, ext = [], []

    def go(c):
        if c.op == "cls":
            if c not in out:
                out.append(c)
            for b in I.classes[c.args[0]].bases:
                go(b)
        elif c not in ext:
            ext.append(c)

    go(c)
    return out, ext


def class_attr(I, c, name, skip=0):
    pk, ext = mro(I, c)
    for k in pk[skip:]:
        f = I.st.cells[I.classes[k.args[0]].frame].content
        if name in f and name != "__isclass__":
            return f[name], k
    return None, None


def ext_base(I, c, *names):
    _, ext = mro(I, c)
    return any(e.op == "glob" and e.args[0].split(":")[-1] in names for e in ext)


def dataclass_fields(I, c):
    """``(name, default, factory, init)`` in definition order."""
    import ast

    pk, _ = mro(I, c)
    fields = {}
    for k in reversed(pk):
        C = I.classes[k.args[0]]
        for s in C.node.body:
            if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                default, factory, init = None, None, True
                if s.value is not None:
                    call = s.value
                    val = I.st.cells[C.frame].content.get(s.target.id)
                    if val is not None and val.op == "call" and val.args[0] == "py:field":
                        for a in val.args[1:]:
                            if a.op == "kw":
                                if a.args[0] == "default_factory":
                                    factory = a.args[1]
                                elif a.args[0] == "default":
                                    default = a.args[1]
                                elif a.args[0] == "init":
                                    init = a.args[1] is not FALSE
                    else:
                        default = val
                fields[s.target.id] = (default, factory, init)
    return fields


def instantiate(I, c, args, kwargs):
    C = I.classes[c.args[0]]
    n = I.new_cell(_cell("obj", {}, c))
    ref = raw("ref", n)
    init, _ = class_attr(I, c, "__init__")
    dcs = [k for k in mro(I, c)[0] if I.classes[k.args[0]].dataclass is not None]
    if init is not None:
        I.call(init, [v.one(ref)] + list(args), kwargs)
        return ref
    if dcs:
        pos = list(args)
        for name, (default, factory, doinit) in dataclass_fields(I, c).items():
            if doinit:
                if pos and pos[0].op == "one":
                    I.store_attr(ref, name, pos.pop(0).args[0])
                    continue
                if name in kwargs:
                    I.store_attr(ref, name, kwargs[name])
                    continue
            if factory is not None:
                I.store_attr(ref, name, I.call(factory, [], {}))
            elif default is not None:
                I.store_attr(ref, name, default)
        post, _ = class_attr(I, c, "__post_init__")
        if post is not None:
            I.call(post, [v.one(ref)], {})
        return ref
    ext_init(I, c, ref, args, kwargs)
    return ref


def _cell(kind, content, extra):
    from .interp import Cell

    return Cell(kind, content, extra)


def ext_init(I, c, ref, args, kwargs):
    if ext_base(I, c, "OpFromGraph"):
        ps = list(args)
        inputs = kwargs.pop("inputs", None) if "inputs" in kwargs else None
        outputs = kwargs.pop("outputs", None) if "outputs" in kwargs else None
        if inputs is None and ps:
            inputs = ps.pop(0).args[0]
        if outputs is None and ps:
            outputs = ps.pop(0).args[0]
        I.store_attr(ref, "__inputs", I.freeze(inputs) if inputs is not None else NONE)
        I.store_attr(ref, "__outputs", I.freeze(outputs) if outputs is not None else NONE)
        names = ["inline"]
        kw = {k: I.freeze(x) for k, x in kwargs.items()}
        for nme, p in zip(names, ps):
            if p.op == "one":
                kw[nme] = I.freeze(p.args[0])
            else:
                # opaque arguments
                break
        for k in sorted(kw):
            I.store_attr(ref, "__kw_" + k, kw[k])
    else:
        I.store_attr(ref, "__initargs", I.freeze(v.cat(*args)))
        for k in sorted(kwargs):
            I.store_attr(ref, "__kw_" + k, I.freeze(kwargs[k]))


def super_call(I, name, args, kwargs):
    """``super().name(...)`` in a method."""
    frame = I.frame
    # the enclosing method's class and first argument
    for entry in reversed(I.cur):
        if len(entry) > 3:
            fn = next((f for f in I.fns.values() if f.node is entry[3]), None)
            if fn is not None and fn.cls is not None:
                cls = next(c for c, k in I.classes.items() if k.frame == fn.cls)
                a = fn.node.args
                first = (a.posonlyargs + a.args)[0].arg
                self_ = I.st.cells[entry[1]].content[first]
                break
    else:
        return raw("unk", "super")
    return base_call(I, raw("cls", cls), self_, name, args, kwargs)


def base_call(I, cls, self_, name, args, kwargs):
    """Call ``name`` of the bases of package class ``cls``."""
    for b in I.classes[cls.args[0]].bases:
        if b.op == "cls":
            m, _ = class_attr(I, b, name)
            if m is not None and m.op == "fn":
                return I.call(m, [v.one(self_)] + list(args), kwargs)
    if name == "__setattr__":
        I.store_attr(self_, args[0].args[0].args[0], args[1].args[0])
        return NONE
    if name == "__init__":
        if self_.op == "ref":
            ext_init(I, cls, self_, args, dict(kwargs))
        return NONE
    return mk("call", "super:" + name, I.freeze(self_), *fargs(I, args, kwargs))


# ---------------------------------------------------------------- attributes

TYPE_ATTRS = {"ndim", "broadcastable", "dtype"}
CONTAINER_METHODS = {
    "append",
    "extend",
    "insert",
    "pop",
    "remove",
    "clear",
    "copy",
    "items",
    "keys",
    "values",
    "get",
    "update",
    "setdefault",
    "add",
    "discard",
    "union",
    "difference",
    "intersection",
}


def get_attribute(I, x, name):
    op = x.op
    if op == "glob":
        g = x.args[0]
        if g.startswith("pkg:"):
            mod = g[4:]
            m = I.run_module(mod)
            if m is not None:
                y = I.st.cells[m.frame].content.get(name)
                if y is not None:
                    return y
            if I.run_module(mod + "." + name) is not None:
                return glob("pkg:" + mod + "." + name)
            return raw("unk", f"attribute {mod}.{name}")
        if g.startswith("mod:"):
            return ext_glob(g[4:] + "." + name)
        if g.startswith("x:") and not g.split(".")[-1].split(":")[-1][:1].isupper():
            return glob(g + "." + name)
        return attr(I, x, name)
    if op == "ref":
        c = I.cell(x)
        if c.kind == "obj":
            if name in c.content:
                return c.content[name]
            if name == "__class__":
                return c.extra
            a, k = class_attr(I, c.extra, name)
            if a is not None:
                if a.op == "fn":
                    kind = getattr(I.fns[a.args[0]], "kind", None)
                    if kind == "property":
                        return I.call(a, [v.one(x)], {})
                    if kind == "staticmethod":
                        return a
                    if kind == "classmethod":
                        return raw("partial", a, v.tup(c.extra), v.DEMPTY)
                    return raw("boundfn", x, a)
                return a
            return raw("attr", I.freeze(x), name)
        if c.kind == "ext":
            r = ext_attr(I, x, c, name)
            if r is not None:
                return r
            return attr(I, c.content, name)
        return raw("bound", x, name)
    if op == "slot":
        return raw("bound", x, name)
    if op == "cls":
        a, k = class_attr(I, x, name)
        if a is not None:
            return a
        if name in ("__name__", "__qualname__"):
            return const(x.args[0].split(".")[-1])
        return raw("attr", x, name)
    if op == "fn":
        f = I.fns[x.args[0]]
        if name in ("__name__", "__qualname__"):
            return raw("fname", I.freeze_fn(x) if f.frame in [m.frame for m in I.modules.values()] else x)
        return raw("attr", x, name)
    if op in ("cat", "dct", "sett"):
        return raw("bound", x, name)
    return attr(I, x, name)


def ext_attr(I, ref, c, name):
    if name == "outputs" and isinstance(c.extra, T):
        E = I.freeze(ref)
        return map_seq(c.extra, lambda o: raw("img", E, o))
    return None


def map_seq(seq, f):
    """Apply ``f`` to every element of a cat."""
    if seq.op == "ite":
        return map_leaves(seq, lambda s: map_seq(s, f))
    out = []
    for p in seq.args:
        if p.op == "one":
            out.append(v.one(f(p.args[0])))
        elif p.op == "spl":
            i = fresh("i")
            v.DOM_OF[i] = p.args[0]
            out.append(v.fm(p.args[0], i, v.tup(f(v.at(p.args[0], i)))))
        elif p.op == "fm":
            i = fresh("i")
            v.DOM_OF[i] = p.args[0]
            out.append(v.fm(p.args[0], i, map_seq(app(p.args[1], i), f)))
        elif p.op == "opt":
            out.append(raw("opt", p.args[0], map_seq(p.args[1], f), map_seq(p.args[2], f)))
    return v.cat(*out)


def attr(I, x, name):
    if x.op == "ite":
        return I.lift_eval(lambda y: attr(I, y, name), x)
    if x is NONE:
        I.raise_if(TRUE, "AttributeError") if I.implicit else None
        return raw("attr", x, name)
    if I.implicit and (
        I.implicit != "owner" or x.op == "attr" and x.args[1] == "owner" and x.args[0].op in ("idx", "at", "attr", "sym", "bv")
    ):
        c = v.isnone(x)
        if c is not FALSE:
            I.raise_if(c, "AttributeError")
    if name == "T":
        return mk("call", "ae:transpose", x)
    if name in TYPE_ATTRS and not (x.op == "attr" and x.args[1] == "type"):
        return attr(I, raw("attr", x, "type"), name)
    if name == "owner":
        if x.op == "idx" and x.args[0].op == "attr" and x.args[0].args[1] == "outputs":
            return x.args[0].args[0]
        if x.op == "kout":
            return raw("knode", x.args[0])
    if x.op == "knode":
        app_ = x.args[0]
        kern = app_.args[0]
        if name == "outputs":
            return map_seq(kern.args[2], lambda o: raw("kout", app_, o))
        if name == "inputs":
            return app_.args[1]
        if name == "op":
            return kern
    if name == "default_update":
        # the next state of the generator of a draw
        if (
            x.op == "idx"
            and x.args[1] is const(0)
            and x.args[0].op == "attr"
            and x.args[0].args[1] == "inputs"
            and x.args[0].args[0].op == "attr"
            and x.args[0].args[0].args[1] == "owner"
            and x.args[0].args[0].args[0].op == "new"
        ):
            node = x.args[0].args[0]
            return raw("idx", raw("attr", node, "outputs"), const(0))
    if x.op == "etz" and name in ("evaled_obj", "_evaled_obj"):
        return x.args[0]
    return raw("attr", x, name)


# ---------------------------------------------------------------- subscripts


def subscript(I, x, k, unpack=None):
    if x.op == "ref":
        c = I.cell(x)
        if c.kind == "dict":
            key = I.key(k)
            d = v.dict_of(c.content)
            if c.extra is not None:
                # defaultdict
                r = v.dget(d, key, raw("missing"))
                if r.op == "missing" or raw("missing") in tm.leaves(r):
                    I.set_content(
                        x,
                        v.dstore(
                            d,
                            key,
                            map_leaves(
                                r,
                                lambda y: I.freeze(I.call(c.extra, [], {}))
                                if y.op == "missing"
                                else y,
                            ),
                        ),
                    )
                return raw("slot", x, key)
            r = v.dget(d, key)
            if _is_container(I, r):
                return raw("slot", x, key) if r.op != "ref" else r
            return r
        if c.kind == "list":
            return seq_index(I, c.content, k)
        if c.kind == "ext":
            return raw("idx", I.freeze(x), I.freeze(k))
        if c.kind == "obj":
            m, _ = class_attr(I, c.extra, "__getitem__")
            if m is not None:
                return I.call(m, [v.one(x), v.one(k)], {})
            return raw("idx", I.freeze(x), I.freeze(k))
    if x.op == "slot":
        return subscript_value(I, I.deref(x), k)
    return subscript_value(I, x, k)


def _is_container(I, r):
    return r.op in ("cat", "dct", "sett") and r.op != "const"


def seq_index(I, s, k):
    if k.op == "sl":
        r = v.slice_seq(s, *k.args)
        return I.new_list(v.seq_of(r)) if r.op == "cat" else r
    return v.subscript(s, k)


def subscript_value(I, x, k):
    if x.op == "ref":
        return subscript(I, x, k)
    if x.op == "cat":
        if k.op == "sl":
            return v.slice_seq(x, *k.args)
        return v.subscript(x, k)
    if x.op == "dct":
        return v.dget(x, I.key(k))
    if x.op == "etz":
        return et_index(I, x, k)
    if x.op == "const" and k.op == "sl":
        try:
            return const(
                x.args[0][slice(*[None if a is NONE else a.args[0] for a in k.args])]
            )
        except Exception:
            pass
    k = I.freeze(k)
    if k.op == "sl":
        lo, hi, st = k.args
        if lo is const(0):
            lo = NONE
        if st is const(1):
            st = NONE
        if lo is NONE and hi is NONE and st is NONE:
            return x
        return mk("slice", x, lo, hi, st)
    if x.op == "slice" and is_const(k) and isinstance(k.args[0], int):
        # x[a:b][0] etc. are left alone
        pass
    if x.op == "attr" and x.args[1] == "inputs" and is_const(k) and k.args[0] is not None:
        n = arity(I, x.args[0])
        if n is not None and isinstance(k.args[0], int) and k.args[0] < 0:
            k = const(n + k.args[0])
    return v.subscript(x, k)


def arity(I, node):
    """The number of inputs of an apply node, if its class is known."""
    facts = getattr(I, "node_class", {})
    c = facts.get(node)
    if c is not None and c in RVARITY:
        return 3 + RVARITY[c]
    return None


def et_index(I, x, k):
    obj = x.args[0]
    node = attr(I, obj, "owner")
    if is_const(k) and isinstance(k.args[0], int):
        n = arity(I, node)
        i = k.args[0]
        if i == 0:
            return raw("etop", attr(I, node, "op"))
        if i < 0 and n is not None:
            i = n + 1 + i
        if i > 0:
            return raw("etz", raw("idx", attr(I, node, "inputs"), const(i - 1)))
    return raw("idx", x, I.freeze(k))


# ---------------------------------------------------------------- identity, sets


def identical(I, a, b):
    if a is b:
        return TRUE
    if a is NONE:
        return _isnone(I, b)
    if b is NONE:
        return _isnone(I, a)

    def go(x, y):
        if x is y:
            return TRUE
        if x.op == "ref" and y.op == "ref":
            return FALSE
        if x.op == "const" and y.op == "const":
            return TRUE if x is y else FALSE
        for p, q in ((x, y), (y, x)):
            if p in (TRUE, FALSE):
                if q.op in ("dct", "cat", "sett", "ref", "glob", "cls", "fn", "new", "subst"):
                    return FALSE
                if is_cond(q):
                    return q if p is TRUE else Not(q)
        return eq_op(I, I.freeze(x), I.freeze(y))

    return lift(go, a, b)


def _isnone(I, t):
    return v.isnone(t)


def eq_op(I, x, y):
    r = op_match_eq(x, y)
    if r is not None:
        return r
    return v.eq(x, y)


def op_match_eq(x, y):
    for p, q in ((x, y), (y, x)):
        if p.op == "glob" and p.args[0][:3] in ("rnd", "ae:") and q.op == "attr" and q.args[1] == "op":
            return opmatch(q, p)
    return None


def opmatch(opt, head):
    """The condition that an `Op` is an instance of the one named ``head``."""
    if head.op == "glob":
        n = head.args[0]
        if n.startswith("rnd:"):
            return isinst(opt, glob("rv:" + RVNAMES[n[4:]][0]))
        if n == "ae:Dot":
            return isinst(opt, head)
        return atom(raw("isop", opt, head))
    return v.eq(opt, head)


def set_diff(I, a, b):
    return raw("setdiff", I.freeze(a), I.freeze(b))


def _truth_setdiff(x):
    if x.op == "setdiff":
        a, b = x.args
        i = fresh("i")
        dom = a
        if a.op == "sett" and len(a.args) == 1 and a.args[0].op == "spl":
            dom = a.args[0].args[0]
        v.DOM_OF[i] = dom
        return v.exists(dom, i, Not(v.contains(v.at(dom, i), b)))
    if x.op == "call" and x.args[0] == "setiter":
        return v.truth(x.args[1])
    return None


v.TRUTH_HOOK.append(_truth_setdiff)


def subset(I, a, b):
    """Are the elements of ``a`` all in ``b``?"""
    return Not(v.truth(set_diff(I, a, b)))


# ---------------------------------------------------------------- isinstance

NOT_INSTANCE = {
    # op of the term -> classes that it is certainly not an instance of
    "new": {"ae:Constant", "ae:TensorConstant"},
    "kout": {"ae:Constant", "ae:TensorConstant", "ae:SharedVariable"},
}


def isinst(x, c):
    def go(x):
        if c.op == "glob":
            n = c.args[0]
            if n in ("ae:Constant", "ae:TensorConstant"):
                cc = glob("ae:Constant")
                if x.op == "const" and isinstance(x.args[0], (int, float)):
                    return TRUE
                if x.op in ("new", "kout", "img", "call", "add", "mul", "pow", "cat"):
                    return FALSE
                return atom(raw("isinst", x, cc))
            if n == "ae:SharedVariable" and x.op in ("kout", "const", "add", "mul", "pow"):
                return FALSE
            if n == "ae:SharedVariable" and x.op == "call" and str(x.args[0]).startswith("ae:") and x.args[0] != "ae:shared":
                return FALSE
            if x.op == "cat" and n in ("py:list", "py:tuple"):
                return TRUE
            if x.op in ("cat", "dct", "sett", "const") and n.startswith(("ae:", "rv:")):
                return FALSE
        return atom(raw("isinst", x, c))

    return v._cond_map(x, go)


def isinstance_(I, x, c):
    c = I.deref(c)
    if c.op == "cat":
        return Or(*[isinstance_(I, x, p.args[0]) for p in c.args])
    if x.op == "ref":
        cell = I.cell(x)
        kinds = {"list": "py:list", "dict": "py:dict", "set": "py:set"}
        if cell.kind in kinds:
            return TRUE if c.op == "glob" and c.args[0] == kinds[cell.kind] else FALSE
        if cell.kind == "obj":
            pk, ext = mro(I, cell.extra)
            if c in pk or c in ext:
                return TRUE
            return FALSE
    if c.op == "call" and c.args[0] == "py:type":
        y = c.args[1]
        if y.op == "glob" and y.args[0].startswith("rnd:"):
            c = glob("rv:" + RVNAMES[y.args[0][4:]][0])
    return isinst(I.freeze(x), c)


# ---------------------------------------------------------------- calls


def fargs(I, args, kwargs):
    out = []
    for p in args:
        if p.op == "one":
            out.append(I.freeze(p.args[0]))
        else:
            out.append(I.freeze(p))
    for k in sorted(kwargs):
        out.append(mk("kw", k, I.freeze(kwargs[k])))
    return out


def posargs(args):
    """Positional arguments as terms (splices stay pieces)."""
    return [p.args[0] if p.op == "one" else p for p in args]


SIGS = {
    # canonical parameter names and defaults of library functions
    "ae:scan": (
        "fn sequences outputs_info non_sequences n_steps truncate_gradient go_backwards mode name profile allow_gc strict return_list",
        {
            "sequences": None,
            "outputs_info": None,
            "non_sequences": None,
            "n_steps": None,
            "truncate_gradient": -1,
            "go_backwards": False,
            "mode": None,
            "profile": False,
            "allow_gc": None,
            "return_list": False,
        },
    ),
    "ae:FunctionGraph": (
        "inputs outputs features clone update_mapping",
        {"inputs": None, "features": None, "clone": True, "update_mapping": None},
    ),
    "ae:clone_get_equiv": (
        "inputs outputs copy_inputs copy_orphans memo clone_inner_graphs",
        {"copy_inputs": True, "copy_orphans": True, "memo": None, "clone_inner_graphs": False},
    ),
    "ae:clone_replace": ("output replace", {"replace": None}),
    "ae:in2out": ("", {}),
    "ae:sum": ("x axis dtype keepdims acc_dtype", {"axis": None, "dtype": None, "keepdims": False, "acc_dtype": None}),
    "ae:max": ("x axis keepdims", {"axis": None, "keepdims": False}),
    "ae:min": ("x axis keepdims", {"axis": None, "keepdims": False}),
    "ae:mean": ("x axis dtype op keepdims acc_dtype", {"axis": None, "dtype": None, "op": False, "keepdims": False, "acc_dtype": None}),
    "ae:prod": ("x axis dtype keepdims", {"axis": None, "dtype": None, "keepdims": False}),
    "ae:arange": ("start stop step dtype", {"stop": None, "step": 1, "dtype": None}),
    "ae:diag": ("v k", {"k": 0}),
    "ae:solve": ("a b assume_a lower check_finite", {"assume_a": "gen", "lower": False, "check_finite": True}),
    "ae:solve_triangular": (
        "a b trans lower unit_diagonal check_finite",
        {"trans": 0, "lower": False, "unit_diagonal": False, "check_finite": True},
    ),
    "ae:cholesky": ("x lower on_error", {"lower": True, "on_error": "raise"}),
    "ae:set_subtensor": ("x y inplace tolerate_inplace_aliasing", {"inplace": False, "tolerate_inplace_aliasing": False}),
    "ae:inc_subtensor": ("x y inplace tolerate_inplace_aliasing", {"inplace": False, "tolerate_inplace_aliasing": False}),
    "ae:broadcast_to": ("x shape", {}),
    "ae:atleast_Nd": ("arry n left", {"n": 1, "left": True}),
    "ae:reshape": ("x newshape ndim", {"ndim": None}),
    "ae:io_toposort": ("inputs outputs orderings clients", {"orderings": None, "clients": None}),
    "ae:graph_inputs": ("graphs blockers", {"blockers": None}),
    "ae:ancestors": ("graphs blockers", {"blockers": None}),
    "ae:scalar": ("name dtype", {"name": None, "dtype": None}),
    "hmc:RaveledParamsMap": ("ref_params", {}),
    "hmc:new_kernel": ("srng logprob_fn max_num_expansions divergence_threshold", {"max_num_expansions": 10, "divergence_threshold": 1000}),
    "hmc:new_state": ("q logprob_fn", {}),
    "pg:random_polyagamma": ("h z size out method disable_checks random_state", {"size": None}),
    "log:run": ("n x", {}),
    "pp:_default_transformed_rv": ("op node", {}),
}
IGNORED_KW = {
    "ae:scan": {"name", "profile", "strict", "mode", "allow_gc", "return_list", "truncate_gradient"},
    "ae:scalar": set(),
}


def canon_args(name, args, kwargs):
    """``{param: term}`` for a function with a known signature."""
    sig = SIGS.get(name)
    if sig is None:
        return None
    names = sig[0].split()
    res = {}
    if any(p.op != "one" for p in args) or len(args) > len(names):
        return None
    for n, p in zip(names, args):
        res[n] = p.args[0]
    for k, x in kwargs.items():
        res[k] = x
    for k, d in sig[1].items():
        if k in res and res[k] is const(d):
            del res[k]
    for k in IGNORED_KW.get(name, ()):
        res.pop(k, None)
    return res


KNOWN_ROOTS = ("ae:", "rv:", "rnd:", "log:", "hmc:", "pp:", "pg:", "np:", "py:")


def call_named(I, name, args, kwargs):
    if not name.startswith(KNOWN_ROOTS) or name.startswith("np:random"):
        # a library that nothing is known about may change what it's given
        for x in posargs_or_none(args) + list(kwargs.values()):
            if isinstance(x, T) and x.op == "ref":
                c = I.cell(x)
                if c.kind in ("list", "dict", "set"):
                    I.set_content(x, {"list": v.cat, "dict": v.dct, "set": v.sett}[c.kind]({"list": v.spl, "dict": lambda y: raw("dspl", y), "set": v.spl}[c.kind](raw("unk", "changed:" + name))))
    c = canon_args(name, args, kwargs)
    if c is None:
        return mk("call", name, *fargs(I, args, kwargs))
    if name == "pg:random_polyagamma":
        # which converts its parameters to arrays of floating-point numbers itself
        c = {k: as_numbers(I.freeze(x)) if k in ("h", "z") else x for k, x in c.items()}
    return mk("call", name, *[mk("kw", k, I.freeze(c[k])) for k in sorted(c)])


def as_numbers(x):
    """The data that a conversion to an array of real numbers is made from."""
    while True:
        if x.op == "call" and x.args[0] in ("np:asarray", "np:array", "np:ascontiguousarray") and len(x.args) in (2, 3):
            if len(x.args) == 3 and not (x.args[2].op == "kw" and x.args[2].args[0] == "dtype" and is_real_type(x.args[2].args[1])):
                return x
            x = x.args[1]
        elif x.op == "call" and x.args[0] == "ae:astype" and len(x.args) == 3 and is_real_type(x.args[2]):
            x = x.args[1]
        else:
            return x


def is_real_type(t):
    if t.op == "const":
        return t.args[0] in ("float64", "float32", "floatX", "float", "d")
    if t.op == "glob":
        return t.args[0] in ("py:float", "np:float64", "np:float32", "np:double")
    return t.op == "attr" and t.args[1] == "floatX" or t.op == "glob" and t.args[0].endswith("config.floatX")


def posargs_or_none(args):
    return [p.args[0] for p in args if p.op == "one"]


def call_value(I, f, args, kwargs):
    op = f.op
    if op == "fn":
        return I.call_fn(f, args, kwargs)
    if op == "boundfn":
        return I.call(f.args[1], [v.one(f.args[0])] + list(args), kwargs)
    if op == "bound":
        return I.method(f.args[0], f.args[1], args, kwargs)
    if op == "partial":
        kw = {}
        for p in f.args[2].args:
            kw[p.args[0].args[0]] = p.args[1]
        kw.update(kwargs)
        return I.call(f.args[0], list(f.args[1].args) + list(args), kw)
    if op == "cls":
        return instantiate(I, f, args, kwargs)
    if op == "lam":
        xs = posargs(args)
        if len(xs) == len(f.args) - 1:
            return app(f, *xs)
    if op == "glob":
        n = f.args[0]
        m = MODELS.get(n)
        if m is not None:
            return m(I, args, kwargs)
        if n.startswith("rnd:"):
            return draw(I, const(n[4:]), NONE, args, kwargs)
        if n.startswith("rv:"):
            return glob("rnd:" + RVCLASS[n[3:]])
        base = n.split(":")[-1]
        if n[:3] in ("ae:", "hmc", "pp:", "x:", "log") and base[:1].isupper() and base not in ("MergeOptimizer",):
            r = call_named(I, n, args, kwargs)
            return I.new_ext(r)
        return call_named(I, n, args, kwargs)
    if op == "ref":
        c = I.cell(f)
        if c.kind == "obj":
            if ext_base(I, c.extra, "RandomVariable"):
                # without a stream
                return draw(I, I.freeze(f), kwargs.get("rng", NONE), args, kwargs)
            m, _ = class_attr(I, c.extra, "__call__")
            if m is not None:
                return I.call(m, [v.one(f)] + list(args), kwargs)
            if ext_base(I, c.extra, "OpFromGraph"):
                return kernel_apply(I, f, c, args, kwargs)
            return mk("call", I.freeze(f), *fargs(I, args, kwargs))
        if c.kind == "ext":
            g = I.freeze(f)
            if g.op == "relation" or (g.op == "eff" and _root(g).op == "relation") or _root(g).op == "call" and _root(g).args[0] == "log:Relation":
                return raw("goal", "rel", g, *fargs(I, args, kwargs))
            return mk("call", g, *fargs(I, args, kwargs))
    if op == "rewriter":
        return I.call(f.args[0], args, kwargs)
    if op == "attr" and f.args[1] == "gen":
        return method_draw(I, f.args[0], "gen", args, kwargs)
    if op == "calledrw":
        return I.call(f.args[0], args, kwargs)
    return mk("call", I.freeze(f), *fargs(I, args, kwargs))


def _root(t):
    while t.op == "eff":
        t = t.args[1]
    return t


def draw(I, dist, srng, args, kwargs):
    """A random draw: a new value with the given distribution."""
    if dist.op == "glob" and dist.args[0].startswith("rnd:"):
        dist = const(dist.args[0][4:])
    names = RVNAMES[dist.args[0]][1] if dist.op == "const" and dist.args[0] in RVNAMES else None
    kw = {}
    pos = posargs(args)
    if dist.op == "obj":
        names = ["h", "z"]
    if names is not None and len(pos) <= len(names) + 1 and all(p.op == "one" for p in args):
        for n, x in zip(names + ["size"], pos):
            kw[n] = I.freeze(x)
        for k, x in kwargs.items():
            kw[k] = I.freeze(x)
        rest = []
    else:
        rest = [I.freeze(x) for x in pos]
        kw = {k: I.freeze(x) for k, x in kwargs.items()}
    kw.pop("name", None)
    for k in ("size", "dtype", "rng"):
        if kw.get(k) is NONE:
            del kw[k]
    content = raw("rv", dist, srng, *rest, *[raw("kw", k, kw[k]) for k in sorted(kw)])
    return new(content)


def method_draw(I, obj, name, args, kwargs):
    o = I.freeze(obj)
    if name == "gen":
        d = args[0].args[0]
        if d.op == "ref":
            d = I.freeze(d)
        return draw(I, d, o, args[1:], kwargs)
    return draw(I, const(RVALIAS.get(name, name)), o, args, kwargs)


def kernel_apply(I, ref, c, args, kwargs):
    at_ = c.content
    inputs, outputs = at_.get("__inputs", NONE), at_.get("__outputs", NONE)
    kw = [
        raw("field", k[5:], at_[k]) for k in sorted(at_) if k.startswith("__kw_")
    ]
    others = [
        raw("field", k, I.freeze(x))
        for k, x in sorted(at_.items())
        if not k.startswith("__")
    ]
    kern = raw("kern", c.extra, v.seq_of(inputs), v.seq_of(outputs), *kw, *others)
    app_ = raw("kapp", kern, I.freeze(v.cat(*args)))
    outs = map_seq(v.seq_of(outputs), lambda o: raw("kout", app_, o))
    d = c.content.get("default_output")
    if d is None:
        d, _ = class_attr(I, c.extra, "default_output")
    if d is not None and is_const(d) and isinstance(d.args[0], int):
        return v.subscript(outs, d)
    if len(outs.args) == 1 and outs.args[0].op == "one":
        return outs.args[0].args[0]
    return I.new_list(outs)


# ---------------------------------------------------------------- methods

EFFECTS = {
    "attach_feature",
    "remove_feature",
    "replace_all",
    "replace",
    "replace_all_validate",
    "replace_validate",
    "register",
    "remove",
    "import_var",
    "import_node",
    "add_input",
    "add_output",
    "seed",
    "append",
    "add",
    "update",
    "clear",
    "insert",
    "extend",
    "change_node_input",
    "setup_node",
    "set_value",
}
TENSOR_METHODS = {
    "sum",
    "max",
    "min",
    "mean",
    "prod",
    "dot",
    "reshape",
    "ravel",
    "flatten",
    "dimshuffle",
    "transpose",
    "astype",
    "exp",
    "log",
    "sqrt",
    "any",
    "all",
    "cumsum",
    "squeeze",
    "argmax",
    "norm",
    "diagonal",
}


def call_method(I, obj, name, args, kwargs):
    op = obj.op
    if op == "ref":
        c = I.cell(obj)
        if c.kind == "list":
            return list_method(I, obj, c, name, args, kwargs)
        if c.kind == "dict":
            return dict_method(I, obj, c.content, name, args, kwargs, obj)
        if c.kind == "set":
            return set_method(I, obj, c.content, name, args, kwargs)
        if c.kind == "obj":
            a = c.content.get(name)
            if a is not None:
                return I.call(a, args, kwargs)
            m, _ = class_attr(I, c.extra, name)
            if m is not None:
                return I.call(get_attribute(I, obj, name), args, kwargs)
            if ext_base(I, c.extra, "OpFromGraph") and name == "make_node":
                return raw("knode", kernel_apply_node(I, obj, c, args))
            return mk("mcall", name, I.freeze(obj), *fargs(I, args, kwargs))
        if c.kind == "ext":
            if name in ("__call__",):
                return I.call(obj, args, kwargs)
            return ext_method(I, obj, c, name, args, kwargs)
    if op == "slot":
        d = I.deref(obj)
        return slot_method(I, obj, d, name, args, kwargs)
    if op == "cat":
        return seq_method(I, obj, name, args, kwargs)
    if op == "dct":
        return dict_method(I, None, obj, name, args, kwargs, obj)
    if op == "sett":
        return set_method(I, None, obj, name, args, kwargs)
    if op == "glob":
        g = obj.args[0]
        if g.startswith(("mod:", "pkg:")) or g.startswith("x:") and not g.split(".")[-1].split(":")[-1][:1].isupper():
            return I.call(get_attribute(I, obj, name), args, kwargs)
        if name == "__init__" and args:
            self_ = args[0].args[0]
            if self_.op == "ref":
                ext_init(I, I.cell(self_).extra, self_, args[1:], dict(kwargs))
            return NONE
        if name == "__setattr__":
            I.store_attr(args[0].args[0], args[1].args[0].args[0], args[2].args[0])
            return NONE
        if g.startswith("py:") and g[3:] in ("dict", "list", "set", "object"):
            if name == "fromkeys":
                i = None
                val = args[1].args[0] if len(args) > 1 else NONE
                return I.new_dict(
                    v.dict_from_pairs(map_seq(I.iter_seq(args[0].args[0]), lambda x: v.tup(x, val)))
                )
            return I.method(args[0].args[0], name, args[1:], kwargs)
        if g == "py:chain" and name == "from_iterable":
            out = []
            seq = I.iter_seq(args[0].args[0])
            for p in seq.args:
                if p.op == "one":
                    out.extend(I.iter_seq(p.args[0]).args)
                else:
                    return v.cat(v.spl(raw("call", "py:chain", I.freeze(seq))))
            return v.cat(*out)
    if op == "cls":
        a, _ = class_attr(I, obj, name)
        if a is not None:
            if a.op == "fn" and getattr(I.fns[a.args[0]], "kind", None) == "classmethod":
                return I.call(a, [v.one(obj)] + list(args), kwargs)
            return I.call(a, args, kwargs)
        if args and args[0].op == "one" and args[0].args[0].op == "ref":
            return base_call(I, obj, args[0].args[0], name, args[1:], kwargs)
    if op == "const" and isinstance(obj.args[0], str):
        return raw("str", name)
    if op == "str":
        return raw("str", name)
    if name == "gen" or name in RVNAMES or name in RVALIAS:
        if not (name in TENSOR_METHODS):
            return method_draw(I, obj, name, args, kwargs)
    if I.implicit and op not in ("ref",):
        c = v.isnone(obj)
        if c is not FALSE:
            I.raise_if(c, "AttributeError")
    if name == "rewrite" or (name == "apply" and len(args) == 1) or name == "transform" and False:
        return rewrite_effect(I, obj, args, kwargs)
    if name in ("items", "keys", "values", "get", "copy", "setdefault", "pop", "popitem") and op not in ("call",) or (
        name in ("items", "keys", "values") and op == "call"
    ):
        r = opaque_dict_method(I, obj, name, args, kwargs)
        if r is not None:
            return r
    if name == "clone":
        return new(mk("mcall", "clone", I.freeze(obj), *fargs(I, args, kwargs)))
    if op == "elt" and name in ("all", "any") and not args and not kwargs:
        return v.all_elements(obj) if name == "all" else v.any_element(obj)
    if v.is_array(obj) and name in ("ravel", "flatten") and not args and not kwargs:
        return obj
    if name in TENSOR_METHODS:
        f = MODELS.get("ae:" + name)
        if f is not None:
            return f(I, [v.one(obj)] + list(args), kwargs)
        return call_named(I, "ae:" + name, [v.one(obj)] + list(args), kwargs)
    if name in ("update", "extend") and op in ("attr", "sym", "glob", "oslot", "idx") and not kwargs and len(args) == 1 and args[0].op == "one":
        # one element after the other
        x = I.freeze(args[0])
        x = x.args[0] if x.op == "one" else x
        if name == "update" and x.op == "dct" and all(p.op == "kv" for p in x.args):
            for p in x.args:
                I.effect("setitem", obj, [p.args[0], p.args[1]])
            return NONE
        if x.op in ("cat", "sett") and (name == "update") == (x.op == "sett") and all(p.op == "one" for p in x.args):
            for p in x.args:
                I.effect("append" if name == "extend" else "add", obj, [p.args[0]])
            return NONE
    if name == "append" or name == "extend" or name == "add":
        I.effect(name, obj, posargs(args))
        return NONE
    if name == "query":
        return raw("mcall", "query", I.freeze(obj), *fargs(I, args, kwargs))
    if name in EFFECTS and op in ("attr", "sym", "glob"):
        I.effect(name, obj, posargs(args))
        return NONE
    return mk("mcall", name, I.freeze(obj), *fargs(I, args, kwargs))


def kernel_apply_node(I, ref, c, args):
    at_ = c.content
    kern = raw("kern", c.extra, v.seq_of(at_.get("__inputs", NONE)), v.seq_of(at_.get("__outputs", NONE)))
    return raw("kapp", kern, I.freeze(v.cat(*args)))


def rewrite_effect(I, obj, args, kwargs):
    """``rewriter.rewrite(fgraph)`` changes the graph it is given."""
    target = args[0].args[0]
    o = I.freeze(obj)
    rest = [I.freeze(x) for x in posargs(args)[1:]]
    if target.op == "ref" and I.cell(target).kind == "ext":
        c = I.cell(target)
        before = I.freeze(target)
        I.set_content(target, raw("eff", "rewrite", c.content, o, *rest))
        I.set_world(raw("eff", "world", I.world(), raw("eff", "rewrite", before, o, *rest)))
        return raw("call", "rewritten", o, before)
    I.effect("rewrite", target, [obj])
    return raw("call", "rewritten", o, I.freeze(target))


def ext_method(I, ref, c, name, args, kwargs):
    if name == "rewrite":
        return rewrite_effect(I, ref, args, kwargs)
    if name in EFFECTS:
        before = I.freeze(ref)
        fa = fargs(I, args, kwargs)
        if name in ("register",):
            c2 = raw("eff", name, c.content, *fa)
            I.registrations = getattr(I, "registrations", [])
            I.registrations.append((ref, before, fa, I.where(), args, kwargs))
            I.set_content(ref, c2)
            return NONE
        I.set_content(ref, raw("eff", name, c.content, *fa))
        I.set_world(raw("eff", "world", I.world(), raw("eff", name, before, *fa)))
        return raw("effres", name)
    if name == "query":
        return raw("mcall", "query", I.freeze(ref), *fargs(I, args, kwargs))
    if name in ("clone",):
        return new(mk("mcall", "clone", I.freeze(ref), *fargs(I, args, kwargs)))
    if name == "gen" or name in RVNAMES or name in RVALIAS:
        return method_draw(I, ref, name, args, kwargs)
    return mk("mcall", name, I.freeze(ref), *fargs(I, args, kwargs))


def opaque_dict_method(I, obj, name, args, kwargs):
    D = I.freeze(obj)
    if name == "items":
        return v.ditems(D)
    if name == "keys":
        return v.cat(v.spl(D))
    if name == "values":
        return v.ditems(D, lambda k, x: x)
    if name == "get":
        k = I.key(args[0].args[0])
        d = args[1].args[0] if len(args) > 1 else kwargs.get("default", NONE)
        return v.dget(D, k, I.freeze(d) if d.op == "ref" else d)
    if name == "copy":
        return None
    if name == "pop":
        if not args:
            return v.subscript(D, const(-1))
        k = I.freeze(args[0].args[0])
        if is_const(k) and isinstance(k.args[0], int):
            return v.subscript(D, k)
        I.effect("pop", obj, [k])
        if len(args) > 1:
            return v.dget(D, k, args[1].args[0])
        return v.dget(D, k)
    if name == "setdefault":
        return raw("oslot", obj, I.key(args[0].args[0]), I.freeze(args[1].args[0]) if len(args) > 1 else NONE)
    return None


def list_method(I, ref, c, name, args, kwargs):
    s = c.content
    xs = posargs(args)
    if s.op == "ite" and name in ("append", "extend", "insert", "pop", "clear", "reverse"):
        s = v.seq_of(s)
    if name == "append":
        I.set_content(ref, v.cat(*s.args, v.one(xs[0])))
        return NONE
    if name == "extend":
        I.set_content(ref, v.cat(*s.args, *I.iter_seq(xs[0]).args))
        return NONE
    if name == "insert" and xs[0] is const(0):
        I.set_content(ref, v.cat(v.one(xs[1]), *s.args))
        return NONE
    if name == "clear":
        I.set_content(ref, v.EMPTY)
        return NONE
    if name == "reverse":
        I.set_content(ref, v.reverse(s))
        return NONE
    if name == "pop":
        k = xs[0] if xs else const(-1)
        val = v.subscript(s, k)
        if is_const(k) and k.args[0] in (0, -1):
            ps = list(s.args)
            if ps and ps[k.args[0]].op == "one":
                del ps[k.args[0]]
                I.set_content(ref, v.cat(*ps))
            else:
                lo, hi = (const(1), NONE) if k.args[0] == 0 else (NONE, const(-1))
                I.set_content(ref, v.cat(v.spl(raw("slice", s, lo, hi, NONE))))
        else:
            I.set_content(ref, v.cat(v.spl(raw("delidx", s, I.freeze(k)))))
        return val
    if name == "copy":
        return I.new_list(s)
    if name in ("sort", "remove", "insert"):
        I.set_content(ref, v.cat(v.spl(mk("call", "list." + name, I.freeze(s), *fargs(I, args, kwargs)))))
        return NONE
    return seq_method(I, s, name, args, kwargs)


def seq_method(I, s, name, args, kwargs):
    if name == "copy":
        return s
    return mk("mcall", name, I.freeze(s), *fargs(I, args, kwargs))


def slot_method(I, slot, d, name, args, kwargs):
    """A method of a container that is stored in a dictionary."""
    ref, k = slot.args
    xs = posargs(args)
    if name == "append":
        I.store_slot(slot, v.cat(*v.seq_of(d).args, v.one(xs[0])))
        return NONE
    if name == "extend":
        I.store_slot(slot, v.cat(*v.seq_of(d).args, *I.iter_seq(xs[0]).args))
        return NONE
    if name == "update" and d.op != "sett":
        I.store_slot(slot, v.dct(*v.dict_of(d).args, *v.dict_of(I.deref(xs[0])).args))
        return NONE
    if name == "add":
        I.store_slot(slot, v.sett(v.set_of(d), v.one(I.key(xs[0]))))
        return NONE
    if d.op == "dct":
        return dict_method(I, None, d, name, args, kwargs, slot)
    return I.method(d, name, args, kwargs)


def as_dict(I, x):
    x = I.deref(x)
    if x.op == "cat":
        return v.dict_from_pairs(x)
    return v.dict_of(x)


def dict_method(I, ref, d, name, args, kwargs, handle):
    xs = posargs(args)
    d = v.dict_of(d)
    if name == "items":
        return v.ditems(d)
    if name == "keys":
        return v.dkeys(d) if d.op == "dct" else map_leaves(d, v.dkeys)
    if name == "values":
        return v.ditems(d, lambda k, x: x)
    if name == "get":
        default = xs[1] if len(xs) > 1 else NONE
        return v.dget(d, I.key(xs[0]), I.freeze(default) if default.op == "ref" else default)
    if name == "copy":
        return I.new_dict(d)
    if name in ("__contains__",):
        return v.contains(I.key(xs[0]), d)
    if ref is not None:
        if name == "update":
            new_ = d
            if xs:
                y = as_dict(I, xs[0])
                new_ = v.dct(*new_.args, *y.args) if y.op == "dct" and new_.op == "dct" else lift(lambda a, b: v.dct(*a.args, *b.args), new_, y)
            for k, x in kwargs.items():
                new_ = v.dstore(new_, const(k), x)
            I.set_content(ref, new_)
            return NONE
        if name == "setdefault":
            k = I.key(xs[0])
            default = I.freeze(xs[1]) if len(xs) > 1 else NONE
            cur = v.dget(d, k, default)
            I.set_content(ref, v.dstore(d, k, cur))
            return raw("slot", ref, k)
        if name == "pop":
            k = I.key(xs[0])
            val = v.dget(d, k, xs[1]) if len(xs) > 1 else v.dget(d, k)
            I.set_content(ref, map_leaves(d, lambda y: v.ddelete(y, k)))
            return val
        if name == "clear":
            I.set_content(ref, v.DEMPTY)
            return NONE
        if name == "__setitem__":
            I.set_content(ref, v.dstore(d, I.key(xs[0]), xs[1]))
            return NONE
    return mk("mcall", name, I.freeze(d), *fargs(I, args, kwargs))


def set_method(I, ref, s, name, args, kwargs):
    xs = posargs(args)
    if name == "add" and ref is not None:
        I.set_content(ref, v.sett(v.set_of(s), v.one(I.key(xs[0]))))
        return NONE
    if name in ("update", "union", "__or__"):
        r = v.set_of(s)
        for x in xs:
            y = I.deref(x)
            y = v.dkeys(y) if y.op == "dct" else y
            r = v.sett(r, *(y.args if y.op in ("cat", "sett") else [v.spl(I.freeze(y))]))
        if name == "update" and ref is not None:
            I.set_content(ref, r)
            return NONE
        return I.new_set(r)
    if name == "copy":
        return I.new_set(v.set_of(s))
    if name in ("difference", "difference_update"):
        r = set_diff(I, s, I.deref(xs[0]))
        if name == "difference_update" and ref is not None:
            I.set_content(ref, v.sett(v.spl(r)))
            return NONE
        return r
    if name in ("discard", "remove") and ref is not None:
        I.set_content(ref, v.sett(v.spl(set_diff(I, s, v.sett(v.one(I.key(xs[0])))))))
        return NONE
    if name == "pop" and ref is not None:
        val = raw("idx", raw("call", "setiter", I.freeze(s)), const(0))
        I.setiters.append((s, I.where()))
        I.set_content(ref, v.sett(v.spl(raw("setpop", I.freeze(s)))))
        return val
    if name == "issubset":
        return subset(I, s, I.deref(xs[0]))
    return mk("mcall", name, I.freeze(s), *fargs(I, args, kwargs))


# ---------------------------------------------------------------- functions


def m_len(I, args, kw):
    x = I.deref(args[0].args[0])
    return map_leaves(x, v.length)


def m_list(I, args, kw):
    if not args:
        return I.new_list(v.EMPTY)
    return I.new_list(I.iter_seq(args[0].args[0]))


def m_tuple(I, args, kw):
    if not args:
        return v.EMPTY
    return I.iter_seq(args[0].args[0])


def m_dict(I, args, kw):
    d = v.DEMPTY
    if args:
        d = as_dict(I, args[0].args[0])
    for k, x in kw.items():
        if k == "**":
            d = v.dct(*v.dict_of(d).args, *v.dict_of(x).args)
        else:
            d = v.dstore(v.dict_of(d), const(k), x)
    return I.new_dict(d)


def m_set(I, args, kw):
    if not args:
        return I.new_set(v.SEMPTY)
    x = I.deref(args[0].args[0])
    if x.op == "sett":
        return I.new_set(x)
    return I.new_set(v.sett(*I.iter_seq(x).args))


def zip_cats(seqs):
    """Element-wise pairing of cats, aligning their pieces."""
    seqs = [prefix(s, seqs) for s in seqs]
    out = []
    ps = [list(s.args) for s in seqs]
    while all(ps):
        heads = [p[0] for p in ps]
        if all(h.op == "one" for h in heads):
            out.append(v.one(v.tup(*[h.args[0] for h in heads])))
            for p in ps:
                p.pop(0)
            continue
        if all(h.op in ("spl", "fm") for h in heads):
            doms = [h.args[0] for h in heads]
            if all(v.same_len(doms[0], d) for d in doms) and len({d.op == "revdom" for d in doms}) == 1:
                dom = pick_dom(doms)
                i = fresh("i")
                v.DOM_OF[i] = dom
                bodies = [
                    v.tup(v.at(h.args[0], i)) if h.op == "spl" else app(h.args[1], i)
                    for h in heads
                ]
                b = zip_bodies(bodies)
                if b is not None:
                    out.append(v.fm(dom, i, b))
                    for p in ps:
                        p.pop(0)
                    continue
            if all(len(p) == 1 for p in ps):
                # different domains: pair them up to the shorter one
                base = []
                for h in heads:
                    base.append(h.args[0] if h.op == "spl" else raw("cat", h))
                # equal domains are paired with themselves
                zd = raw("zipdom", *base)
                i = fresh("i")
                v.DOM_OF[i] = zd
                out.append(v.fm(zd, i, v.tup(v.tup(*[_at(b, i) for b in base]))))
                return v.cat(*out)
        if all(len(p) == 1 for p in ps) or True:
            base = [raw("cat", *p) for p in ps]
            base = [
                b.args[0].args[0] if len(b.args) == 1 and b.args[0].op == "spl" else b
                for b in base
            ]
            zd = raw("zipdom", *base)
            i = fresh("i")
            v.DOM_OF[i] = zd
            out.append(v.fm(zd, i, v.tup(v.tup(*[_at(b, i) for b in base]))))
            return v.cat(*out)
    return v.cat(*out)


def prefix(s, seqs):
    """``S[:len(D)]`` next to ``D``, element by element."""
    if len(s.args) != 1 or s.args[0].op != "spl":
        return s
    S = s.args[0].args[0]
    if S.op != "slice" or S.args[1] is not NONE or S.args[3] is not NONE:
        return s
    for o in seqs:
        if len(o.args) == 1 and o.args[0].op in ("spl", "fm") and v.length(o) is S.args[2]:
            i = fresh("i")
            v.DOM_OF[i] = o.args[0].args[0]
            return v.fm(o.args[0].args[0], i, v.tup(v.subscript(S.args[0], i)))
    return s


def _at(b, i):
    if b.op == "cat" and len(b.args) == 1 and b.args[0].op == "fm":
        f = b.args[0].args[1]
        body = f.args[-1]
        if len(body.args) == 1 and body.args[0].op == "one":
            return app(f, i).args[0].args[0]
    return raw("at", b, i)


def pick_dom(doms):
    """A canonical representative among domains of equal length."""
    for d in doms:
        if d.op not in ("range",):
            return min((x for x in doms if x.op != "range"), key=lambda x: x.id)
    return doms[0]


def zip_bodies(bodies):
    if all(b.op == "cat" and len(b.args) == 1 and b.args[0].op == "one" for b in bodies):
        return v.tup(v.tup(*[b.args[0].args[0] for b in bodies]))
    if all(
        b.op == "cat" and len(b.args) == 1 and b.args[0].op == "opt" and not b.args[0].args[2].args
        for b in bodies
    ):
        c = bodies[0].args[0].args[0]
        if all(b.args[0].args[0] is c for b in bodies):
            inner = zip_bodies([b.args[0].args[1] for b in bodies])
            if inner is not None:
                return v.cat(raw("opt", c, inner, v.EMPTY))
    if all(b.op == "cat" for b in bodies) and len({len(b.args) for b in bodies}) == 1:
        if all(p.op == "one" for b in bodies for p in b.args):
            return v.cat(*[v.one(v.tup(*[p.args[0] for p in ps])) for ps in zip(*[b.args for b in bodies])])
    return None


def m_zip(I, args, kw):
    if len(args) == 1 and args[0].op in ("fm", "spl"):
        # zip(*pairs): the transposed pairs
        p = args[0]
        dom = p.args[0]
        if p.op == "fm":
            i = fresh("i")
            v.DOM_OF[i] = dom
            body = app(p.args[1], i)
            if len(body.args) == 1 and body.args[0].op == "one":
                pair = body.args[0].args[0]
                if pair.op == "cat":
                    n = len(pair.args)
                    return v.tup(
                        *[
                            v.fm(dom, i, v.tup(v.subscript(pair, const(k))))
                            for k in range(n)
                        ]
                    )
        return v.cat(v.spl(raw("call", "py:zip*", p)))
    if any(p.op != "one" for p in args):
        # zip(*pieces) over several pieces: transpose each and concatenate
        if len(args) == 1:
            return v.cat(v.spl(raw("call", "py:zip*", *args)))
        cols = None
        for p in args:
            if p.op == "one":
                x = I.deref(p.args[0])
                if x.op != "cat" or any(q.op != "one" for q in x.args):
                    return v.cat(v.spl(raw("call", "py:zip*", *args)))
                col = [v.tup(q.args[0]) for q in x.args]
            else:
                r = m_zip(I, [p], {})
                if any(q.op != "one" for q in r.args):
                    return v.cat(v.spl(raw("call", "py:zip*", *args)))
                col = [q.args[0] for q in r.args]
            cols = col if cols is None else [v.cat(*a.args, *b.args) for a, b in zip(cols, col)]
        return v.tup(*cols)
    seqs = []
    for p in args:
        s = I.iter_seq(p.args[0])
        seqs.append(s)
    if not seqs:
        return v.EMPTY
    if len(seqs) > 0 and all(
        s.op == "cat" for s in seqs
    ):
        # transposing known tuples: zip(*[(a, b), ...])
        return zip_cats(seqs)
    return lift(lambda *ss: zip_cats(list(ss)), *seqs)


def m_enumerate(I, args, kw):
    s = I.iter_seq(args[0].args[0])
    start = args[1].args[0] if len(args) > 1 else kw.get("start", const(0))
    out = []
    off = start
    for p in s.args:
        if p.op == "one":
            out.append(v.one(v.tup(off, p.args[0])))
            off = v.add_(off, const(1))
        elif p.op in ("spl", "fm"):
            dom = p.args[0]
            i = fresh("i")
            v.DOM_OF[i] = dom
            body = v.tup(v.at(dom, i)) if p.op == "spl" else app(p.args[1], i)
            if not (len(body.args) == 1 and body.args[0].op == "one"):
                return v.cat(v.spl(raw("call", "py:enumerate", s)))
            idx = i if off is const(0) else v.add_(off, i)
            out.append(v.fm(dom, i, v.tup(v.tup(idx, body.args[0].args[0]))))
            off = v.add_(off, v.length(raw("cat", p)))
        else:
            return v.cat(v.spl(raw("call", "py:enumerate", s)))
    return v.cat(*out)


def m_range(I, args, kw):
    xs = posargs(args)
    lo, hi = (const(0), xs[0]) if len(xs) == 1 else (xs[0], xs[1])
    if len(xs) == 3 and xs[2] is not const(1):
        return v.cat(v.spl(raw("call", "py:range", *xs)))
    n = v.sub_(hi, lo)
    if is_const(n):
        return v.tup(*[v.add_(lo, const(k)) for k in range(max(0, n.args[0]))])
    dom = raw("range", n)
    if n.op == "len":
        # indices of a sequence
        dom = n.args[0]
    i = fresh("i")
    v.DOM_OF[i] = dom
    r = raw("fm", dom, lam(i, v.tup(v.add_(lo, i) if lo is not const(0) else i)))
    return raw("cat", r)


def m_isinstance(I, args, kw):
    x, c = posargs(args)
    return I.lift_eval(lambda y: isinstance_(I, y, c), x) if x.op == "ite" else isinstance_(I, x, c)


def m_hasattr(I, args, kw):
    x, n = posargs(args)
    return has_attr(I, x, n.args[0])


def has_attr(I, x, n):
    if x.op == "ref":
        c = I.cell(x)
        if c.kind == "obj":
            if n in c.content or class_attr(I, c.extra, n)[0] is not None:
                return TRUE
        return atom(raw("hasattr", I.freeze(x), n))
    return atom(raw("hasattr", I.freeze(x), n))


def m_getattr(I, args, kw):
    xs = posargs(args)
    if not is_const(xs[1]):
        return mk("call", "py:getattr", *fargs(I, args, kw))
    n = xs[1].args[0]
    if len(xs) == 2:
        return I.getattr(xs[0], n)
    return I.branch(has_attr(I, xs[0], n), lambda: I.getattr(xs[0], n), lambda: xs[2])


def m_setattr(I, args, kw):
    xs = posargs(args)
    if is_const(xs[1]):
        I.store_attr(xs[0], xs[1].args[0], xs[2])
    return NONE


def _quant(I, x, isany):
    s = I.iter_seq(x)

    def seq(s):
        if s.op == "ite":
            return ite(atom(s.args[0]), seq(s.args[1]), seq(s.args[2]))
        r = FALSE if isany else TRUE
        for p in s.args:
            if p.op == "one":
                c = I.truth(p.args[0])
            elif p.op == "spl":
                dom = p.args[0]
                i = fresh("i")
                v.DOM_OF[i] = dom
                c = v.truth(v.at(dom, i))
                c = v.exists(dom, i, c) if isany else Not(v.exists(dom, i, Not(c)))
            elif p.op == "fm":
                dom = p.args[0]
                i = fresh("i")
                v.DOM_OF[i] = dom
                c = seq(app(p.args[1], i))
                c = v.exists(dom, i, c) if isany else Not(v.exists(dom, i, Not(c)))
            elif p.op == "opt":
                c = ite(p.args[0], seq(p.args[1]), seq(p.args[2]))
            r = Or(r, c) if isany else And(r, c)
        return r

    return seq(s)


def m_any(I, args, kw):
    x = args[0].args[0]
    d = I.deref(x)
    return _quant(I, d, True)


def m_all(I, args, kw):
    return _quant(I, I.deref(args[0].args[0]), False)


def m_bool(I, args, kw):
    return I.truth(args[0].args[0]) if args else FALSE


def m_sum(I, args, kw):
    s = I.iter_seq(args[0].args[0])
    start = args[1].args[0] if len(args) > 1 else const(0)
    if all(p.op == "one" for p in s.args):
        r = start
        for p in s.args:
            r = I.binop("Add", r, p.args[0])
        return r
    d = I.deref(start)
    return mk("call", "py:sum", I.freeze(s), I.freeze(start))


def m_next(I, args, kw):
    x = I.deref(args[0].args[0])
    default = args[1].args[0] if len(args) > 1 else None
    if x.op == "ite":
        return I.lift_eval(lambda y: m_next(I, [v.one(y)] + list(args[1:]), kw), x)
    if x.op != "cat":
        if default is None:
            return raw("idx", I.freeze(x), const(0))
        return ite(v.truth(x), raw("idx", I.freeze(x), const(0)), default)

    def go(ps):
        if not ps:
            if default is None:
                I.raise_if(TRUE, "StopIteration")
                return raw("unk", "StopIteration")
            return default
        p = ps[0]
        if p.op == "one":
            return p.args[0]
        if p.op == "opt":
            return I.branch(p.args[0], lambda: go(p.args[1].args + ps[1:]), lambda: go(p.args[2].args + ps[1:]))
        if p.op == "spl":
            S = p.args[0]
            return I.branch(v.truth(S), lambda: v.subscript(S, const(0)), lambda: go(ps[1:]))
        dom = p.args[0]
        i = fresh("i")
        v.DOM_OF[i] = dom
        body = app(p.args[1], i)
        c = v.exists(dom, i, v.truth(body))
        q = body.args[0] if len(body.args) == 1 else None
        if q is not None and q.op == "one":
            val = I.first(dom, i, TRUE, q.args[0])
        elif q is not None and q.op == "opt" and len(q.args[1].args) == 1 and not q.args[2].args:
            val = I.first(dom, i, q.args[0], q.args[1].args[0].args[0])
        else:
            val = raw("unk", "next")
        return I.branch(c, lambda: val, lambda: go(ps[1:]))

    return go(x.args)


def m_iter(I, args, kw):
    x = I.deref(args[0].args[0])
    return x if x.op == "cat" else I.iter_seq(x)


def m_reversed(I, args, kw):
    s = I.iter_seq(args[0].args[0])
    return map_leaves(s, v.reverse)


def m_sorted(I, args, kw):
    s = I.iter_seq(args[0].args[0])
    return I.new_list(v.cat(v.spl(mk("call", "py:sorted", I.freeze(s), *[mk("kw", k, I.freeze(x)) for k, x in sorted(kw.items())]))))


def m_map(I, args, kw):
    f = args[0].args[0]
    acc = I.new_list(v.EMPTY)
    if len(args) == 2:
        seq = I.iter_seq(args[1].args[0])
        unpack = False
    else:
        seq = m_zip(I, args[1:], {})
        unpack = True

    def body(e):
        r = I.call(f, list(e.args) if unpack else [v.one(e)], {})
        c = I.cell(acc)
        I.set_content(acc, v.cat(*v.seq_of(c.content).args, v.one(r)))

    I.for_loop(seq, body, set())
    return I.cell(acc).content


def m_filter(I, args, kw):
    f = args[0].args[0]
    acc = I.new_list(v.EMPTY)

    def body(e):
        r = e if f is NONE else I.call(f, [v.one(e)], {})

        def keep():
            c = I.cell(acc)
            I.set_content(acc, v.cat(*v.seq_of(c.content).args, v.one(e)))

        I.branch(I.truth(r), keep, lambda: None)

    I.for_loop(I.iter_seq(args[1].args[0]), body, set())
    return I.cell(acc).content


def m_str(I, args, kw):
    return raw("str", "str")


def m_type(I, args, kw):
    x = args[0].args[0]
    if x.op == "ref" and I.cell(x).kind == "obj":
        return I.cell(x).extra
    x = I.freeze(x)
    if x.op == "glob" and x.args[0].startswith("rnd:"):
        return glob("rv:" + RVNAMES[x.args[0][4:]][0])
    return mk("call", "py:type", x)


def m_partial(I, args, kw):
    d = v.DEMPTY
    for k, x in kw.items():
        d = v.dstore(d, const(k), x)
    return raw("partial", args[0].args[0], v.cat(*args[1:]), d)


def m_defaultdict(I, args, kw):
    factory = args[0].args[0] if args else None
    d = v.DEMPTY
    if len(args) > 1:
        d = as_dict(I, args[1].args[0])
    return I.new_dict(d, factory if factory is not NONE else None)


def m_chain(I, args, kw):
    out = []
    for p in args:
        if p.op == "one":
            out.extend(I.iter_seq(p.args[0]).args)
        else:
            out.append(p)
    return v.cat(*out)


def m_reduce(I, args, kw):
    f = args[0].args[0]
    s = I.iter_seq(args[1].args[0])
    if all(p.op == "one" for p in s.args):
        xs = [p.args[0] for p in s.args]
        if len(args) > 2:
            xs.insert(0, args[2].args[0])
        r = xs[0]
        for x in xs[1:]:
            r = I.call(f, [v.one(r), v.one(x)], {})
        return r
    return mk("call", "py:reduce", *fargs(I, args, kw))


def m_identity(I, args, kw):
    return args[0].args[0]


def m_cast(I, args, kw):
    return args[1].args[0]


def m_copy(I, args, kw):
    x = args[0].args[0]
    if x.op == "ref":
        c = I.cell(x)
        if c.kind in ("list", "dict", "set"):
            return raw("ref", I.new_cell(_cell(c.kind, c.content, c.extra)))
    return mk("call", "py:copy", I.freeze(x))


def arith(f):
    def m(I, args, kw):
        xs = posargs(args)
        return f(*[I.freeze(x) for x in xs])

    return m


def m_pow_half(I, args, kw):
    from fractions import Fraction

    return v.pow_(I.freeze(args[0].args[0]), const(Fraction(1, 2)))


def compare_model(op):
    def m(I, args, kw):
        a, b = posargs(args)
        return I.compare(op, a, b)

    return m


def m_switch(I, args, kw):
    names = ["cond", "ift", "iff"]
    xs = dict(zip(names, posargs(args)))
    alias = {"condition": "cond", "then_branch": "ift", "else_branch": "iff"}
    for k, x in kw.items():
        xs[alias.get(k, k)] = x
    if len(xs) < 3:
        return mk("call", "ae:switch", *fargs(I, args, kw))
    c = I.truth(xs["cond"])
    a, b = I.freeze(xs["ift"]), I.freeze(xs["iff"])
    return ite(c, a, b)


def m_functiongraph(I, args, kw):
    c = canon_args("ae:FunctionGraph", args, kw)
    if c is None:
        return I.new_ext(call_named(I, "ae:FunctionGraph", args, kw))
    outs = c.get("outputs", NONE)
    cloned = c.get("clone", TRUE)
    kws = []
    for k in sorted(c):
        if k == "outputs":
            continue
        kws.append(raw("kw", k, I.freeze(c[k])))
    oseq = v.seq_of(I.freeze(outs)) if outs is not NONE else v.EMPTY
    content = raw("FG", v.sett(*oseq.args), *kws)
    if cloned is not FALSE:
        content = new(raw("tuple", content, I.world()))
    else:
        content = raw("tuple", content, I.world())
    memo = c.get("memo")
    if memo is not None and memo.op == "ref" and cloned is not FALSE:
        I.set_content(memo, v.dct(raw("dspl", raw("clonememo", content))))
    return I.new_ext(content, oseq)


def m_clone_get_equiv(I, args, kw):
    c = canon_args("ae:clone_get_equiv", args, kw)
    if c is None:
        return call_named(I, "ae:clone_get_equiv", args, kw)
    # what is cloned doesn't depend on the order of the outputs
    kws = []
    for k in sorted(c):
        x = I.freeze(c[k])
        if k in ("inputs", "outputs"):
            x = v.set_of(v.seq_of(x) if x.op != "sett" else x)
        if k == "copy_inputs" and I.freeze(c["inputs"]) is v.cat():
            continue
        kws.append(raw("kw", k, x))
    content = new(raw("cge", I.world(), *kws))
    memo = c.get("memo")
    if memo is not None and memo.op == "ref" and I.cell(memo).kind == "dict":
        I.set_content(memo, v.dct(raw("dspl", content)))
        return memo
    return I.new_dict(v.dct(raw("dspl", content)))


def m_joint_logprob(I, args, kw):
    """The log-density, and the list of the values at which it is."""
    x = I.freeze(call_named(I, "pp:joint_logprob", args, kw))
    return v.tup(raw("idx", x, const(0)), v.cat(v.spl(raw("idx", x, const(1)))))


def m_clone_replace(I, args, kw):
    c = canon_args("ae:clone_replace", args, kw)
    out = c["output"]
    rep = I.freeze(c.get("replace", NONE))
    if rep.op == "cat":
        rep = v.dict_from_pairs(rep)
    w = I.world()
    d = I.deref(out)
    one_ = lambda o: raw("subg", w, I.freeze(o), rep)
    if d.op == "cat":
        return I.new_list(map_seq(d, one_))
    if d.op == "attr" and d.args[1] in ("inputs", "outputs"):
        return I.new_list(map_seq(v.cat(v.spl(d)), one_))
    return one_(out)


def m_scan(I, args, kw):
    c = canon_args("ae:scan", args, kw)
    if c is None:
        c = {k: x for k, x in kw.items()}
        c["args"] = v.cat(*args)
    kws = []
    for k in sorted(c):
        x = c[k]
        x = I.freeze(x)
        if k in ("sequences", "non_sequences", "outputs_info"):
            if x.op != "cat":
                x = v.tup(x)
            if k == "non_sequences" and not x.args:
                continue
        kws.append(raw("kw", k, x))
    scan = raw("scan", *kws)
    return v.tup(raw("scanout", scan), raw("scanupd", scan))


def m_new_kernel(I, args, kw):
    return call_named(I, "hmc:new_kernel", args, kw)


def m_scalar(name):
    def m(I, args, kw):
        kw = {k: x for k, x in kw.items() if k != "name"}
        if name == "ae:scalar" or name.endswith(("vector", "matrix")):
            args = [a for a in args if not (a.op == "one" and a.args[0].op == "const" and isinstance(a.args[0].args[0], str) and False)]
            args = args[1:]
        return new(mk("call", name, *fargs(I, args, kw)))

    return m


def m_relation(I, args, kw):
    return I.new_ext(raw("relation"))


def m_fact(I, args, kw):
    rel = args[0].args[0]
    xs = [I.freeze(x) for x in posargs(args)[1:]]
    if rel.op == "ref":
        c = I.cell(rel)
        facts = c.content.args[0] if c.content.args else v.SEMPTY
        I.set_content(rel, raw("relation", v.sett(facts, v.one(v.tup(*xs)))))
    return NONE


def m_facts(I, args, kw):
    for p in args[1:]:
        x = I.deref(p.args[0])
        m_fact(I, [args[0]] + list(x.args), {})
    return NONE


def m_dot(I, args, kw):
    return mk("call", "ae:dot", *[I.freeze(x) for x in posargs(args)])


def m_transpose(I, args, kw):
    if len(args) == 1 and not kw:
        return mk("call", "ae:transpose", I.freeze(args[0].args[0]))
    return mk("call", "ae:transpose", *fargs(I, args, kw))


def m_np_all(I, args, kw):
    """``np.all(cond)`` of an element-wise comparison."""
    return _np_quant(I, "np:all", args, kw, v.all_elements)


def m_np_any(I, args, kw):
    return _np_quant(I, "np:any", args, kw, v.any_element)


def _np_quant(I, name, args, kw, f):
    x = I.freeze(args[0].args[0])

    def go(x):
        if x.op == "elt" and not kw and len(args) == 1:
            return f(x)
        if (x is TRUE or x is FALSE) and len(args) == 1:
            return x
        return call_named(I, name, [v.one(x)] + list(args[1:]), kw)

    return map_leaves(x, go)


def m_np_identity(I, args, kw):
    x = args[0].args[0]
    if len(args) == 1 and not kw and isinstance(x, T):
        return map_leaves(x, lambda a: a if v.is_array(a) else call_named(I, "np:asarray", [v.one(a)], kw))
    return call_named(I, "np:asarray", args, kw)


def m_print(I, args, kw):
    return NONE


def m_setsub(name):
    def m(I, args, kw):
        return call_named(I, name, args, kw)

    return m


MODELS = {
    "py:len": m_len,
    "py:list": m_list,
    "py:tuple": m_tuple,
    "py:dict": m_dict,
    "py:OrderedDict": m_dict,
    "py:set": m_set,
    "py:frozenset": m_set,
    "py:zip": m_zip,
    "py:enumerate": m_enumerate,
    "py:range": m_range,
    "py:isinstance": m_isinstance,
    "py:hasattr": m_hasattr,
    "py:getattr": m_getattr,
    "py:setattr": m_setattr,
    "py:any": m_any,
    "py:all": m_all,
    "py:bool": m_bool,
    "py:sum": m_sum,
    "py:next": m_next,
    "py:iter": m_iter,
    "py:reversed": m_reversed,
    "py:sorted": m_sorted,
    "py:map": m_map,
    "py:filter": m_filter,
    "py:str": m_str,
    "py:repr": m_str,
    "py:type": m_type,
    "py:partial": m_partial,
    "py:defaultdict": m_defaultdict,
    "py:chain": m_chain,
    "py:reduce": m_reduce,
    "py:copy": m_copy,
    "py:print": m_print,
    "py:deque": m_list,
    "ty:cast": m_cast,
    "op:add": arith(v.add_),
    "op:mul": arith(v.mul_),
    "op:sub": arith(v.sub_),
    "op:truediv": arith(v.div_),
    "ae:add": arith(v.add_),
    "ae:sub": arith(v.sub_),
    "ae:mul": arith(v.mul_),
    "ae:true_div": arith(v.div_),
    "ae:neg": arith(v.neg),
    "ae:reciprocal": arith(lambda x: v.pow_(x, const(-1))),
    "ae:pow": arith(v.pow_),
    "ae:sqr": arith(lambda x: v.pow_(x, const(2))),
    "ae:sqrt": m_pow_half,
    "ae:as_tensor": m_identity,
    "ae:dot": m_dot,
    "ae:transpose": m_transpose,
    "ae:lt": compare_model("Lt"),
    "ae:gt": compare_model("Gt"),
    "ae:le": compare_model("LtE"),
    "ae:ge": compare_model("GtE"),
    "ae:eq": compare_model("Eq"),
    "ae:neq": compare_model("NotEq"),
    "ae:switch": m_switch,
    "ae:ifelse": m_switch,
    "ae:FunctionGraph": m_functiongraph,
    "ae:clone_get_equiv": m_clone_get_equiv,
    "pp:joint_logprob": m_joint_logprob,
    "ae:clone_replace": m_clone_replace,
    "ae:scan": m_scan,
    "ae:scalar": m_scalar("ae:scalar"),
    "ae:tensor": m_scalar("ae:tensor"),
    "log:Relation": m_relation,
    "log:fact": m_fact,
    "log:facts": m_facts,
    "np:all": m_np_all,
    "np:any": m_np_any,
    "np:alltrue": m_np_all,
    "np:equal": lambda I, a, k: I.compare("Eq", a[0].args[0], a[1].args[0]),
    "np:not_equal": lambda I, a, k: I.compare("NotEq", a[0].args[0], a[1].args[0]),
    "np:asarray": m_np_identity,
    "np:array": m_np_identity,
    "np:atleast_1d": m_np_identity,
    "np:ravel": m_np_identity,
}


def identity_shape(I, args, kw):
    return attr(I, I.freeze(args[0].args[0]), "shape")


MODELS["ae:shape"] = identity_shape

from . import logic  # noqa: E402

logic.install(MODELS)
