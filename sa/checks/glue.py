"""The construction code: what it computes, and on which objects it acts.

Each unit is a function of the package (or a method, by way of an entry point
in ``spec/harness/glue.py``), evaluated to one value number for its result,
one condition per kind of exception, and one value number for the state of the
objects it acts on.  The same evaluation of the definitions in ``spec/aemcmc``
says what these value numbers have to be.
"""
import ast
import os

from .. import compare as cm
from .. import effects as ef
from .. import roles
from .. import terms as tm
from .. import vals as v
from ..interp import Missing, Unsupported
from ..kernels import subterms
from ..program import ROOT, Program
from ..report import VERIF, Broken
from ..terms import FALSE, NONE, Not, Or, T, const, raw, sym

HARNESS = os.path.join(VERIF, "spec", "harness", "glue.py")
NUMBER = 1000000
SPEC = os.path.join(VERIF, "spec")

RULE = (
    "the value numbers of results, exceptions and effects of the construction code equal those of its specification, "
    "up to the identity of created objects; unmodelled constructs are undecided"
)


# ------------------------------------------------------------------ evaluation


def bind(I, names, args, kw):
    out = dict(zip(names, [I.freeze(a.args[0]) for a in args]))
    for k, x in kw.items():
        if k not in names:
            out.setdefault("**", []).append(raw("kw", k, I.freeze(x)))
        else:
            out[k] = I.freeze(x)
    return [out.get(n, NONE) for n in names] + out.get("**", [])


def stub(name, params, arity, defaults=None, dicts=()):
    """A stand-in for a function that is analysed on its own, with the results that are dictionaries."""

    def f(I, args, kw):
        xs = bind(I, params, args, kw)
        for n, d in (defaults or {}).items():
            k = params.index(n)
            xs[k] = d if xs[k] is NONE else xs[k]
        t = raw("call", name, *xs)
        if name == "IR":
            return v.tup(I.new_ext(raw("call", "IR_fgraph", *xs)), *[raw("idx", t, const(k)) for k in range(1, arity)])
        results = [raw("idx", t, const(k)) for k in range(arity)]
        return v.tup(*[v.dct(raw("dspl", x)) if k in dicts else x for k, x in enumerate(results)])

    return f


STUBS = {
    "aemcmc.rewriting.construct_ir_fgraph": stub(
        "IR", ["obs_rvs_to_values", "clone"], 4, {"clone": tm.TRUE if isinstance(tm.TRUE, T) else const(True)}
    ),
    "aemcmc.nuts.construct_sampler": stub("NUTS", ["srng", "to_sample_rvs", "realized_rvs_to_values"], 3, dicts=(0, 1, 2)),
    "aemcmc.nuts.step": stub("step", ["srng", "to_sample_rvs", "realized_rvs_to_values"], 3, dicts=(0, 1)),
}


class Result:
    def __init__(self, prog, unit, fn):
        self.prog, self.unit = prog, unit
        args = list(unit.args)
        if unit.by_role:
            args.insert(0, prog.get(unit.by_role[0], roles.resolve(prog.root, *unit.by_role)))
        self.value, exits, world = prog.call(fn, args, number=NUMBER)
        if unit.rewriter:
            # the rewriter that a decorator returns, applied to a node
            rw = self.raw_call(fn, args)
            if rw.op != "rewriter":
                raise Broken(f"{unit.name} is not a rewriter")
            self.decorated_by = prog.I.freeze(rw.args[1])
            fn = rw.args[0]
            self.value, exits, world = prog.call(fn, unit.rewriter, number=NUMBER)
        for name in unit.sizes:
            self.value = nonempty(self.value, sym(name))
        self.fn = fn
        kinds = {}
        for e in exits:
            if e.kind == "raise":
                k = exception_name(e.value)
                kinds[k] = Or(kinds.get(k, FALSE), e.cond)
        self.exits = {k: c for k, c in kinds.items() if c is not FALSE}
        self.world = world

    def raw_call(self, fn, args):
        I = self.prog.I
        I.set_world(sym("world0"))
        I.exits = []
        return I.call_fn(fn, [v.one(a if isinstance(a, T) else sym(a)) for a in args], {})


def nonempty(t, x):
    """``t`` for an ``x`` that is either None or a tuple that isn't empty."""
    t = tm.subst(t, {raw("truthy", x): Not(v.isnone(x)), raw("len", x): sym("positive")})
    a, b = (tm.assume(t, raw("isnone", x), yes) for yes in (True, False))
    # without a size, both are the same
    return b if tm.subst(a, {x: NONE}) is tm.subst(b, {x: NONE}) else t


def exception_name(x):
    if isinstance(x, T):
        for y in subterms(x):
            for a in y.args:
                if isinstance(a, str):
                    return a.rsplit(".", 1)[-1].rsplit(":", 1)[-1]
        return tm.show(x)
    return str(x)


class Unit:
    def __init__(self, name, module, function, args, parts, stubs=(), rewriter=None, by_role=None, known=None, repaired=(), sizes=()):
        # ``sizes``: arguments that the framework passes as None or as a tuple that isn't empty
        self.sizes = sizes
        # ``known``: the finding that the specification of the result has, as the code does
        self.known, self.repaired = known, repaired
        self.by_role = by_role
        self.name, self.module, self.function, self.args = name, module, function, args
        self.parts, self.stubs, self.rewriter = parts, stubs, rewriter


_programs = {}


def program(root, stubs):
    key = root, tuple(stubs)
    if key not in _programs:
        S = {}
        for k in stubs:
            m, n = k.rsplit(".", 1)
            S[f"{m}.{roles.resolve(root, m, n)}"] = STUBS[k]
        mods = ("aemcmc",) if root != SPEC else ("aemcmc.rewriting",)
        p = Program(root, stubs=S, modules=mods, extra={"harness": HARNESS})
        p.shared = shared_objects(p)
        _programs[key] = p
    return _programs[key]


def shared_objects(p):
    """Names for the registries, so that what they contain is only compared once."""
    m = {}
    I = p.I
    for n in ("sampler_rewrites_db", "sampler_ir_db"):
        try:
            g = p.get("aemcmc.rewriting", n)
        except Broken:
            continue
        m[I.freeze(g)] = tm.glob("registry:" + n)
    last = expansion(p)
    if last is not None:
        m[last] = tm.glob("registry:expansion")
    return m


def expansion(p):
    """The rewriter that is registered after discovery, if there is one."""
    try:
        g = p.get("aemcmc.rewriting", "sampler_rewrites_db")
    except Broken:
        return None
    out = []
    for ref, _, fa, _, _, _ in getattr(p.I, "registrations", []):
        if ref is g and any(isinstance(a, T) and a.op == "kw" and a.args[0] == "position" and is_last(a.args[1]) for a in fa):
            out.append(fa[1])
    return out[0] if len(out) == 1 else None


def is_last(x):
    return tm.is_const(x) and x.args[0] == "last"


_results = {}


def result(root, unit):
    key = root, unit.name, unit.function
    if key not in _results:
        p = program(root, unit.stubs)
        try:
            fn = p.get(unit.module, roles.resolve(root, unit.module, unit.function))
        except Missing as e:
            raise Broken(f"missing: {e}")
        if fn.op == "rewriter":
            # a rewriter is a function of the graph and the node
            u = Unit(unit.name, unit.module, unit.function, unit.args, unit.parts, unit.stubs)
            r = Result(p, u, fn.args[0])
            r.decorated_by = p.I.freeze(fn.args[1])
        else:
            r = Result(p, unit, fn)
        _results[key] = r
    return _results[key]


# ------------------------------------------------------------------ comparison


def normal(p, t):
    t = tm.subst(t, p.shared) if p.shared else t
    return cm.canon(dimensions(ef.entries(expand_functions(p, t))))


def dimensions(t):
    """One form for the number of dimensions of the variables around an element-wise node.

    The order of a dimension shuffling has an entry for each dimension of its result, and the inputs of an element-wise
    node have as many dimensions as its outputs."""
    node = tm.sym("node")
    ndim = lambda x: tm.mk("attr", tm.mk("attr", x, "type"), "ndim")

    def path(x, *names):
        for n in names:
            if x.op != "attr" or x.args[1] != n:
                return None
            x = x.args[0]
        return x

    def length(x):
        y = path(x.args[0], "new_order", "op", "owner")
        if y is not None:
            return ndim(y)
        y = path(x.args[0], "input_broadcastable", "op", "owner")
        return x if y is None else ndim(tm.mk("idx", tm.mk("attr", tm.mk("attr", y, "owner"), "inputs"), tm.const(0)))

    def size(x):
        y = path(x, "ndim", "type")
        if y is not None and y.op == "at" and path(y.args[0], "inputs") is node:
            return ndim(tm.mk("idx", tm.mk("attr", node, "outputs"), tm.const(0)))
        return x

    memo = {}
    known = {}

    def matters(x):
        """Is there something to be replaced in ``x``?"""
        todo = [x]
        while todo:
            y = todo[-1]
            if y in known:
                todo.pop()
                continue
            if y.op == "len" and y.args[0].op == "attr" and y.args[0].args[1] in ("new_order", "input_broadcastable"):
                known[y] = True
                continue
            z = path(y, "ndim", "type")
            if z is not None and z.op == "at":
                known[y] = True
                continue
            rest = [a for a in y.args if isinstance(a, T) and a not in known]
            if rest:
                todo.extend(rest)
                continue
            known[y] = any(known[a] for a in y.args if isinstance(a, T))
        return known[x]

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        if not matters(x):
            r = x
        elif x.op == "lam":
            bs = [tm.fresh("e") for _ in x.args[:-1]]
            r = tm.lam(bs, go(tm.app(x, *bs)))
        elif x.op == "ite":
            r = tm.ite(tm.atom(go(x.args[0])), go(x.args[1]), go(x.args[2]))
        else:
            args = [go(a) if isinstance(a, T) else a for a in x.args]
            r = x if all(p is q for p, q in zip(args, x.args)) else tm.rebuild(x, args)
            r = size(length(r) if r.op == "len" else r)
        memo[x] = r
        return r

    return go(t)


def expand_functions(p, t):
    """Package functions used as values are what they compute, whatever they are called."""
    for _ in range(4):
        m = {}
        for x in subterms(t):
            if x.op == "pkgfn":
                f = find_function(p, x.args[0])
                if f is not None:
                    try:
                        m[x] = p.I.freeze(p.I.fn_to_lam(f))
                    except Exception:
                        continue
        m = {k: x for k, x in m.items() if x is not k}
        if not m:
            return t
        t = tm.subst(t, m)
    return t


def find_function(p, qualname):
    for i, f in p.I.fns.items() if isinstance(p.I.fns, dict) else enumerate(p.I.fns):
        if f is not None and (f.qualname == qualname or qualname == f"{f.qualname}#{i}"):
            return raw("fn", i)
    return None


def base_vocabulary():
    global _base
    if _base is None:
        _base = set()
        for u in UNITS:
            s = result(SPEC, u)
            for t in (s.value, s.world, *s.exits.values()):
                _base |= cm.vocabulary(normal(s.prog, t))
        _base |= {(op, n) for op, n in EXTRA}
    return _base


_base = None
EXTRA = [("mcall", "type"), ("mcall", "connection_pattern"), ("attr", "type"), ("attr", "name"), ("attr", "inputs"), ("attr", "outputs"), ("call", "py:sorted")]
# properties of variables that no other way of writing the specification has to look at
EXTRA += [("attr", n) for n in "ndim dtype broadcastable shape default_update is_inline default_output owner op tag ndim_supp".split()]
# functions of values that aren't another way of writing what the specification does
EXTRA += [
    ("call", "ae:" + n)
    for n in "ones_like zeros_like exp log sqrt sqr abs sigmoid maximum minimum clip sum prod mean max min floor round".split()
]
EXTRA += [("call", "np:" + n) for n in "floor ceil round rint trunc fix maximum minimum clip abs sqrt exp log".split()]
EXTRA += [("glob", "py:int"), ("glob", "py:float"), ("call", "py:int"), ("call", "py:round"), ("call", "py:abs"), ("call", "np:asarray")]
EXTRA += [("call", "ae:RandomStream"), ("call", "py:type"), ("call", "py:min"), ("eff", "setitem"), ("eff", "update")]


# classes that everything of its kind belongs to
GENERAL = ("object", "Variable", "Op", "Apply", "Node", "Type", "AtomicVariable", "TensorVariable", "Hashable", "Iterable")


def consulted(e, t):
    """Whether the mapping that an assignment changes is looked at as well."""
    d = e.args[2] if len(e.args) == 5 else e.args[1]
    return any(x is not e and x.op not in ("eff", "attr") and d in x.args for x in subterms(t))


def foreign(t):
    words = cm.vocabulary(t)
    B = base_vocabulary()
    # a test for another class is another test, unless everything passes it
    tests = {x.args[1] for x in subterms(t) if x.op in ("isinst", "isop") and x.args[1].op == "glob"}
    elsewhere = {a for x in subterms(t) if x.op not in ("isinst", "isop") for a in x.args if isinstance(a, T) and a.op == "glob"}
    words = {w for w in words if w[0] != "glob" or w[1].split(":")[-1] in GENERAL or tm.glob(w[1]) not in tests - elsewhere}
    if not any(x.op == "eff" and x.args[0] == "setitem" and consulted(x, t) for x in subterms(t)):
        # replacing what a mapping has for a key isn't adding to it
        words.discard(("eff", "setitem"))
    # no family of distributions is another name of another one
    words = {w for w in words if not (w[0] == "glob" and w[1].startswith("rnd:"))}
    return sorted(w for w in words if w not in B and w[0] in ("glob", "call", "mcall", "attr", "eff", "kw"))


def without_copying(t):
    return tm.subst(t, {x: raw("call", *x.args[:2]) for x in subterms(t) if x.op == "call" and x.args[0] in ("IR", "IR_fgraph") and len(x.args) > 2})


def run(rep, prop):
    rep.rule(RULE)
    n = 0
    for u in UNITS:
        parts = u.parts.get(prop)
        if not parts:
            continue
        spec = result(SPEC, u)
        rep.count("units compared")
        try:
            repo = result(ROOT, u)
        except Unsupported as e:
            rep.undecided(u.name, f"{u.module}.{u.function}", f"uses what the analysis has no model for: {e}")
            continue
        where = location(repo)
        for key, project in parts:
            n += 1
            key = f"{u.name}: {key}"
            want, got = project(spec), project(repo)
            if want is None:
                raise Broken(f"the specification of {key} is empty")
            if prop != "C13":
                # how the model is copied is another property's matter
                want, got = without_copying(want), got and without_copying(got)
            want = normal(spec.prog, want)
            if got is None:
                rep.undecided(key, where, "not found in this form")
                continue
            got = normal(repo.prog, got)
            if want is got:
                if u.known and project is whole:
                    rep.known(u.known, key, where, "")
                else:
                    rep.ok(key, where)
                continue
            if project is whole and any(got is normal(spec.prog, result(SPEC, f).value) for f in u.repaired):
                rep.ok(key, where)
                continue
            common = set(subterms(want))
            bad = [b for b in cm.unknown(got) if b not in common]
            if bad:
                rep.undecided(key, where, "not modelled: " + "; ".join(cm.brief(b, 80) for b in bad[:3]))
                continue
            odd = foreign(got)
            if odd:
                rep.undecided(key, where, f"uses what the specification doesn't: {odd[:4]}")
                continue
            path, a, b = cm.difference(want, got)
            rep.violation(key, where, f"is {cm.brief(b, 240)} instead of {cm.brief(a, 240)}")
    rep.count("projections compared", n)


def location(r):
    """Where what a unit is about is defined."""
    u = r.unit
    if u.module != "harness":
        return r.prog.location(r.fn)
    if u.by_role:
        return r.prog.location(r.prog.get(u.by_role[0], roles.resolve(r.prog.root, *u.by_role)))
    cls, _, method = u.name.split(" ")[0].partition(".")
    base = os.path.join(r.prog.root, "aemcmc")
    for f in sorted(os.listdir(base)):
        if not f.endswith(".py"):
            continue
        with open(os.path.join(base, f)) as h:
            tree = ast.parse(h.read())
        for x in tree.body:
            if isinstance(x, ast.ClassDef) and x.name == cls:
                for y in x.body:
                    if isinstance(y, ast.FunctionDef) and y.name == (method or "__init__"):
                        return f"aemcmc/{f}:{y.lineno} {cls}.{y.name}"
                return f"aemcmc/{f}:{x.lineno} {cls}"
    return u.name


# ----------------------------------------------------------------- projections


def whole(r):
    return r.value


def world(r):
    return r.world


def exits(r):
    return raw("exits", *[raw("exit", k, c) for k, c in sorted(r.exits.items())])


def elem(k, inner=None):
    def f(r):
        x = r.value
        if x.op != "cat" or len(x.args) <= k:
            return None
        y = x.args[k]
        if y.op != "one":
            return None
        return inner(y.args[0]) if inner else y.args[0]

    return f


def field(name):
    def f(x):
        x = x.value if isinstance(x, Result) else x
        if x.op != "obj":
            return None
        for y in x.args[1:]:
            if y.args[0] == name:
                return y.args[1]
        return None

    return f


def keys(t):
    return v.dict_keys(t) if hasattr(v, "dict_keys") else None


def calls(name):
    """The applications of a stubbed function."""

    def f(r):
        return sorted(
            {x for x in subterms(raw("both", r.value, r.world)) if x.op == "call" and x.args[0] == name}, key=lambda x: x.id
        )

    return f


def argument(name, k):
    def f(r):
        cs = calls(name)(r)
        return cs[0].args[1 + k] if len(cs) == 1 else None

    return f


def stream_of_calls(name):
    """The random stream that the function ``name``, an argument, is called with."""

    def f(r):
        calls = {x.args[-1] for t in (r.value, r.world) for x in subterms(t) if x.op == "call" and x.args[0] is tm.sym(name)}
        return calls.pop() if len(calls) == 1 else None

    return f


def applied_to(*classes):
    """Whether a node rewriter is applied to the nodes of some class, given with its base classes."""

    def f(r):
        d = getattr(r, "decorated_by", None)
        if d is None or d.op != "call" or d.args[0] != "ae:node_rewriter":
            return None
        tracks = d.args[1]
        if tracks is tm.NONE:
            return tm.TRUE
        if tracks.op != "cat" or any(p.op != "one" for p in tracks.args):
            return None
        names = {str(p.args[0].args[0]).split(":")[-1].split(".")[-1] for p in tracks.args if p.args[0].op in ("glob", "cls")}
        if len(names) < len(tracks.args):
            return None
        return raw("applied", *sorted(names)) if not names & set(classes) else tm.TRUE

    return f


def user_objects(*names):
    """The effects on the objects that the user has passed in, or that stand for them in the internal representation."""

    def f(r):
        roots = {sym(n) for n in names}
        ir = {x for x in subterms(raw("both", r.value, r.world)) if x.op == "idx" and x.args[0].op == "call" and x.args[0].args[0] == "IR"}

        def path(o):
            while o.op in ("attr", "at", "idx") and o not in ir:
                o = o.args[0]
            return o

        bad = [e for e, o in ef.touching(r.world, roots)]
        # a returned mapping is new, but what it contains isn't
        bad += [e for e, o, _ in ef.targets(r.world) if o not in ir and path(o) in ir]
        return raw("changes", *sorted({raw("change", e.args[0]) for e in bad}, key=lambda x: str(x.args[0])))

    return f


def expansions(r):
    """What is done to the graphs of the steps before the steps and their updates are taken from them."""
    made = {}

    def skeleton(x):
        if x.op == "tuple" and x.args and isinstance(x.args[0], T) and x.args[0].op == "FG":
            return raw("FG")
        if x.op == "FG":
            return x
        if x.op == "eff" and x.args[0] != "world" and isinstance(x.args[1], T):
            s = skeleton(x.args[1])
            if s is None:
                return None
            last = r.prog.shared.get(x.args[2]) if len(x.args) > 2 and isinstance(x.args[2], T) else None
            return raw("eff", x.args[0], s, *([last] if last is not None else []))
        if x.op == "ite":
            a, b = skeleton(x.args[1]), skeleton(x.args[2])
            if a is None or b is None:
                return None
            return a if a is b else raw("ite", x.args[0], a, b)
        return None

    out = set()
    for name in ("sample_steps", "updates"):
        t = elem(0, field(name))(r)
        if t is None:
            return None
        for x in subterms(t):
            if x.op in ("eff", "ite", "FG", "tuple"):
                continue
            for a in x.args:
                if isinstance(a, T):
                    s = skeleton(a)
                    if s is not None:
                        out.add(raw("taken from", name, s))
    made = sorted(out, key=tm.show)
    return raw("expansions", *made) if made else None


CS = ("aemcmc.rewriting.construct_ir_fgraph", "aemcmc.nuts.construct_sampler")
ALL = [("the result", whole), ("the exceptions", exits), ("the effects", world)]

UNITS = [
    Unit(
        "construct_sampler", "aemcmc.basic", "construct_sampler", ["obs_rvs_to_values", "srng"],
        dict(
            C09=[
                ("the initial values", elem(1)),
                ("the variables left to the general sampler", argument("NUTS", 1)),
                ("the updated variables and their steps", elem(0, field("sample_steps"))),
            ],
            C10=[
                ("the steps and their order", elem(0, field("sample_steps"))),
                ("the values that the general sampler is conditioned on", argument("NUTS", 2)),
            ],
            C11=[("the updates", elem(0, field("updates")))],
            C12=[("the parameters of the general sampler", elem(0, field("parameters")))],
            C13=[("the model of the internal representation", argument("IR_fgraph", 0)),
                 ("the copying of the model", argument("IR_fgraph", 1)),
                 ("the effects on the user's objects", user_objects("obs_rvs_to_values"))],
            C14=[("the expansion of the steps and updates", expansions)],
            C20=[("the steps and their order", elem(0, field("sample_steps")))],
        ),
        stubs=CS,
    ),
    Unit(
        "construct_ir_fgraph", "aemcmc.rewriting", "construct_ir_fgraph", ["obs_rvs_to_values", "clone"],
        dict(
            C13=[("the observed variables and values", elem(1)), ("the copies", elem(2)), ("the correspondence", elem(3)),
                 ("the effects", world), ("the exceptions", exits)],
            C19=[("the internal representation", elem(0))],
        ),
    ),
    Unit(
        "nuts.step", "aemcmc.nuts", "step", ["srng", "to_sample_rvs", "realized_rvs_to_values"],
        dict(
            C12=[("the new values", elem(0)), ("the parameters", elem(2)), ("the exceptions", exits), ("the effects", world)],
            C11=[("the updates", elem(1))],
        ),
    ),
    Unit(
        "nuts.construct_sampler", "aemcmc.nuts", "construct_sampler", ["srng", "to_sample_rvs", "realized_rvs_to_values"],
        dict(
            C12=[("the new values", elem(0)), ("the parameters", elem(2))],
            C11=[("the updates", elem(1))],
            C17=[("the kernel", elem(0)), ("the parameters", elem(2))],
        ),
        stubs=("aemcmc.nuts.step",),
    ),
    Unit(
        "sample_prior", "aemcmc.sample", "sample_prior", ["srng", "num_samples", "*rvs"], dict(C15=ALL),
    ),
    Unit("get_rv_updates", "aemcmc.utils", "get_rv_updates", ["srng", "*rvs"], dict(C15=ALL)),
    Unit(
        "sampler_finder", "harness", "finder", ["tracks", "f"], dict(C23=ALL, C11=[("the random stream", stream_of_calls("f"))]), rewriter=["fgraph", "node"],
        by_role=("aemcmc.rewriting", "sampler_finder"),
    ),
    Unit("SamplerTracker", "harness", "tracker", ["srng"], dict(C23=ALL)),
    Unit("SamplerTracker stream", "harness", "tracker_stream", ["srng"], dict(C11=[("the random stream", whole)])),
    Unit("SamplerTracker sharing", "harness", "trackers", ["srng"], dict(C23=ALL, C20=[("the result", whole)])),
    Unit("SamplerTracker.on_attach", "harness", "attach", ["tracker", "fgraph"], dict(C23=ALL)),
    Unit(
        "local_elemwise_dimshuffle_subsume", "aemcmc.rewriting", "local_elemwise_dimshuffle_subsume", ["fgraph", "node"],
        dict(C14=[*ALL, ("the operations that it is applied to", applied_to("Elemwise", "COp", "Op"))]),
    ),
    Unit(
        "inline_SubsumingElemwise", "aemcmc.rewriting", "inline_SubsumingElemwise", ["fgraph", "node"],
        dict(C14=[*ALL, ("the operations that it is applied to", applied_to("SubsumingElemwise", "OpFromGraph", "Op", "HasInnerGraph"))]),
    ),
    Unit("SubsumingElemwise is no Elemwise", "harness", "subsuming_kind", ["inputs", "outputs"], dict(C14=[("the result", whole)])),
    Unit("SubsumingElemwise properties", "harness", "subsuming_props", [], dict(C14=[("the result", whole)])),
    Unit("SubsumingElemwise", "harness", "subsuming", ["inputs", "outputs"], dict(C14=ALL)),
    Unit("SubsumingElemwise.make_node", "harness", "subsuming_node", ["self", "*inputs"], dict(C14=ALL)),
    Unit("SubsumingElemwise.clone", "harness", "subsuming_clone", ["self"], dict(C14=ALL)),
    Unit("SubsumingElemwise.__eq__", "harness", "subsuming_eq", ["self", "other"], dict(C14=ALL)),
    Unit("SubsumingElemwise.__hash__", "harness", "subsuming_hash", ["self"], dict(C14=ALL)),
    Unit("SamplingStep", "harness", "sampling_step", ["inputs", "outputs"], dict(C17=ALL)),
    Unit("SamplingStep options", "harness", "sampling_step_options", ["inputs", "outputs"], dict(C17=ALL)),
    Unit("SamplingStep.connection_pattern", "harness", "sampling_step_connections", ["self", "node"], dict(C17=ALL)),
    Unit("Sampler", "harness", "sampler", ["steps", "updates", "parameters"], dict(C22=ALL)),
    Unit("Sampler defaults", "harness", "sampler_defaults", ["steps"], dict(C22=ALL)),
    Unit("Sampler sharing", "harness", "sampler_twice", ["steps"], dict(C22=ALL)),
    Unit("ModelInfo", "harness", "model", ["observed", "values", "deterministic", "updates"], dict(C16=ALL)),
    Unit("ModelInfo defaults", "harness", "model_defaults", ["observed", "values"], dict(C16=ALL)),
    Unit("PolyaGammaRV attributes", "harness", "pg_attributes", [], dict(C21=ALL)),
    Unit("PolyaGammaRV.__call__", "harness", "pg_call", ["self", "h", "z", "size"], dict(C21=ALL)),
    Unit("PolyaGammaRV defaults", "harness", "pg_defaults", ["self"], dict(C21=ALL)),
    Unit("PolyaGammaRV.rng_fn", "harness", "pg_draw", ["rng", "h", "z", "size"], dict(C21=ALL), sizes=["size"]),
    Unit(
        "location_scale_transform", "aemcmc.transforms", "location_scale_transform", ["in_expr", "out_expr"], dict(C18=ALL),
        known="K3",
    ),
    Unit(
        "invgamma_exponential", "aemcmc.transforms", "invgamma_exponential", ["in_expr", "out_expr"], dict(C18=ALL),
        known="K2",
        repaired=[
            Unit("invgamma_exponential (repaired)", "aemcmc.repaired", n, ["in_expr", "out_expr"], {})
            for n in ("invgamma_exponential", "invgamma_exponential_reciprocal")
        ],
    ),
]


# ------------------------------------------------------------------ determinism

PIPELINE = """construct_sampler construct_ir_fgraph nuts.step nuts.construct_sampler sampler_finder SamplerTracker.on_attach
    local_elemwise_dimshuffle_subsume inline_SubsumingElemwise SubsumingElemwise SubsumingElemwise.make_node SamplingStep
    Sampler get_rv_updates""".split()
IDENTITY = ("py:id", "py:hash", "py:repr", "py:object.__hash__")
CHANCE = ("x:random", "x:secrets", "x:uuid", "x:time", "x:os", "x:datetime", "x:threading", "x:socket", "x:gc", "np:random.")


def sources(t):
    """What makes a value depend on more than what it is computed from."""
    out = {}
    seen, todo = set(), [(t, False)]
    while todo:
        x, immaterial = todo.pop()
        if not isinstance(x, T) or (x.id, immaterial) in seen:
            continue
        seen.add((x.id, immaterial))
        if x.op == "call" and x.args[0] == "setiter" and not immaterial:
            out[x] = "the order of a set"
        elif x.op == "attr" and x.args[1] in ("apply_nodes", "variables") and not immaterial:
            out[x] = f"the order of the set {x.args[1]}"
        elif x.op == "unk" and str(x.args[0]).startswith("changed:" ) and str(x.args[0])[8:].startswith(CHANCE):
            out[x] = str(x.args[0])[8:]
        elif x.op == "unk" and x.args and str(x.args[0]).startswith("state:"):
            out[x] = "the state of " + str(x.args[0])[6:]
        elif x.op == "call" and x.args[0] in ("py:sorted", "py:min", "py:max") or x.op == "lt":
            bad = [y for y in subterms(x) if y.op == "glob" and y.args[0] in IDENTITY or y.op == "call" and y.args[0] in IDENTITY]
            if bad:
                out[x] = f"an order by {bad[0].args[0][3:]}"
        elif x.op in ("glob", "call", "mcall") and isinstance(x.args[0], str) and x.args[0].startswith(CHANCE):
            out[x] = x.args[0]
        # which element comes first doesn't matter to a set, a quantifier or a membership test
        forgets = x.op in ("exists", "forall", "sett", "setdiff", "in", "contains", "len") or x.op == "call" and x.args[0] == "py:sorted"
        for a in x.args:
            todo.append((a, forgets or immaterial and x.op in ("cat", "spl", "fm", "opt", "one")))
    return out


def c20(rep):
    run(rep, "C20")
    rep.rule(
        "no result, exception or effect of the functions that construct samplers, and no step that a finder offers, contains the iteration "
        "order of a set, an order by identity or hash, or state of a module, class or default value that functions change"
    )
    n = 0
    terms = []
    for u in UNITS:
        if u.name not in PIPELINE:
            continue
        got, want = result(ROOT, u), result(SPEC, u)
        for r, into in ((want, False), (got, True)):
            for what, t in (("the result", r.value), ("the effects", r.world), *[(f"the condition of {k}", c) for k, c in r.exits.items()]):
                terms.append((u, location(got), what, into, normal(r.prog, t)))
    expected = {}
    for u, where, what, into, t in terms:
        s = sources(t)
        if not into:
            expected[u.name, what] = {w for w in s.values()}
            continue
        n += 1
        new = {x: w for x, w in s.items() if w not in expected.get((u.name, what), ())}
        key = f"{u.name}: {what} (determinism)"
        if new:
            x, w = next(iter(new.items()))
            rep.violation(key, where, f"depends on {w}: {cm.brief(x, 200)}")
        else:
            rep.ok(key, where)
    from . import finders

    prog, F = finders.load(rep)
    for f in F:
        n += 1
        s = sources(f.term)
        if s:
            x, w = next(iter(s.items()))
            rep.violation(f"{f.name} (determinism)", f.where, f"depends on {w}: {cm.brief(x, 200)}")
        else:
            rep.ok(f"{f.name} (determinism)", f.where)
    rep.count("terms searched", n)


def check(prop):
    return lambda rep: run(rep, prop)


CHECKS = {p: check(p) for p in sorted({p for u in UNITS for p in u.parts})}
CHECKS["C20"] = c20
