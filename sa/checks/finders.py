"""The sampling steps that the finders offer: recognition, composition, closure and updates."""
import itertools

from .. import compare as cm
from .. import data
from .. import effects as ef
from .. import finders as fd
from .. import kernels as kn
from .. import models
from .. import terms as tm
from .. import vals as v
from ..finders import NODE, Y, inp, node_input
from ..program import Program, reference
from ..terms import FALSE, NONE, TRUE, And, Not, Or, T, atom, const, mk, sym

# ---------------------------------------------------------------- the recognised forms


def owner(x):
    return mk("attr", x, "owner")


def op_of(x):
    return mk("attr", owner(x), "op")


def has(x):
    return Not(atom(mk("isnone", owner(x))))


def rv(x, cls):
    return And(has(x), atom(mk("isinst", op_of(x), tm.glob("rv:" + cls))))


def node_is(cls):
    return atom(mk("isinst", mk("attr", NODE, "op"), tm.glob("rv:" + cls)))


def type_attr(x, name):
    return mk("attr", mk("attr", x, "type"), name)


def eq(a, b):
    return atom(raw_sorted("eq", a, b))


def raw_sorted(op, a, b):
    return v.eq(a, b).args[0]


def filled(x, k):
    return And(
        atom(mk("isinst", x, tm.glob("ae:Constant"))),
        atom(mk("alleq", const(k), mk("attr", x, "data"))),
    )


def same_shape(a, b):
    return eq(type_attr(a, "broadcastable"), type_attr(b, "broadcastable"))


def ndim(x, n):
    return eq(type_attr(x, "ndim"), const(n))


def is_op(x, name):
    return And(has(x), atom(mk("isop", op_of(x), tm.glob("ae:" + name))))


def n_inputs(x, n):
    return eq(mk("len", fd.inputs(x)), const(n))


def is_dot(x):
    return And(has(x), atom(mk("isinst", op_of(x), tm.glob("ae:Dot"))))


def scalar_like(x):
    shape = type_attr(x, "shape")
    b = tm.fresh("i")
    body = v.Not(eq(v.at(shape, b), const(1))) if hasattr(v, "Not") else Not(eq(v.at(shape, b), const(1)))
    return Or(ndim(x, 0), Not(atom(tm.raw("exists", shape, tm.lam(b, body)))))


def conjugate(cls, k, prior):
    x = node_input(k)
    return {x: And(node_is(cls), rv(x, prior), same_shape(x, Y))}


class Regression:
    """The parts of ``sigmoid(-1 * dot(X, beta))``."""

    def __init__(self, k):
        self.p = node_input(k)
        self.eta = inp(self.p, 0)
        self.minus = inp(self.eta, 0)
        self.dot = inp(self.eta, 1)
        self.X = inp(self.dot, 0)
        self.beta = inp(self.dot, 1)
        self.std = inp(self.beta, 4)
        self.cond = And(
            is_op(self.p, "sigmoid"), is_op(self.eta, "mul"), n_inputs(self.eta, 2), is_dot(self.dot),
            filled(self.minus, -1), rv(self.beta, "NormalRV"), ndim(self.beta, 1), filled(inp(self.beta, 3), 0),
        )


class Horseshoe:
    def __init__(self):
        self.scale = node_input(4)
        self.shrinkage = [inp(self.scale, 0), inp(self.scale, 1)]
        a, b = self.shrinkage
        self.local = {
            b: And(scalar_like(a), same_shape(b, Y)),
            a: And(Not(scalar_like(a)), scalar_like(b), same_shape(a, Y)),
        }
        self.cond = And(
            node_is("NormalRV"), is_op(self.scale, "mul"), n_inputs(self.scale, 2), ndim(Y, 1), filled(node_input(3), 0),
            *[And(rv(x, "HalfCauchyRV"), filled(inp(x, 3), 0), filled(inp(x, 4), 1)) for x in self.shrinkage],
            Or(*self.local.values()),
        )


def expected():
    """``{(family, variable): (what it is, the condition)}``"""
    out = {}
    for cls, k, prior, what in [
        ("PoissonRV", 3, "GammaRV", "gamma-Poisson"),
        ("BinomialRV", 4, "BetaRV", "beta-binomial"),
        ("NegBinomialRV", 4, "BetaRV", "beta-negative binomial"),
    ]:
        for x, c in conjugate(cls, k, prior).items():
            out[cls, x] = (what, c)
    R = Regression(4)
    c = And(node_is("NegBinomialRV"), R.cond)
    out["NegBinomialRV", R.beta] = ("negative binomial regression", c)
    h = node_input(3)
    out["NegBinomialRV", h] = ("negative binomial dispersion", And(c, rv(h, "GammaRV"), ndim(h, 0)))
    R = Regression(3)
    out["BernoulliRV", R.beta] = ("Bernoulli regression", And(node_is("BernoulliRV"), R.cond))
    H = Horseshoe()
    for x in H.shrinkage:
        out["NormalRV", x] = ("horseshoe", H.cond)
    return out


# ---------------------------------------------------------------- comparison of conditions

INDEPENDENT = ("isinst", "isop", "isnone", "alleq", "anyeq")
SUPER = {
    "ae:RandomVariable": lambda n: n.startswith("rv:"),
    "ae:Op": lambda n: True,
    "ae:Elemwise": lambda n: n.endswith("SubsumingElemwise"),
    "ae:Variable": lambda n: n in ("ae:Constant", "ae:TensorConstant", "ae:TensorVariable", "ae:SharedVariable"),
    "ae:TensorVariable": lambda n: n in ("ae:TensorConstant",),
    "ae:Constant": lambda n: n in ("ae:TensorConstant",),
}


def independent(a):
    """Facts about a graph that don't follow from the facts of the recognised forms."""
    if a.op in INDEPENDENT:
        return True
    if a.op in ("eq", "lt") and numeric(a):
        return True
    return a.op == "eq" and all(
        x.op == "const" or x.op == "len" or x.op == "attr" and x.args[1] in ("ndim", "broadcastable", "shape") for x in a.args
    )


def is_ndim(x):
    return x.op == "attr" and x.args[1] == "ndim"


def is_int(x):
    return x.op == "const" and isinstance(x.args[0], int) and not isinstance(x.args[0], bool)


def numeric(a):
    """A comparison of numbers of dimensions."""
    return all(is_ndim(x) or is_int(x) for x in a.args) and any(is_ndim(x) for x in a.args)


def related(A, B):
    """What two facts ``isinst(x, A)`` and ``isinst(x, B)`` say about each other."""
    na, nb = (x.args[1].args[0] if x.args[1].op == "glob" else tm.show(x.args[1]) for x in (A, B))
    for x, y, nx, ny in ((A, B, na, nb), (B, A, nb, na)):
        if nx in SUPER and SUPER[nx](ny):
            return Or(Not(atom(y)), atom(x))
    if na in SUPER or nb in SUPER:
        return TRUE
    return Not(And(atom(A), atom(B)))


def dimensions(atoms):
    """Numbers of dimensions are natural numbers."""
    cmp = [a for a in atoms if a.op in ("eq", "lt") and numeric(a)]
    same = [a for a in atoms if a.op == "eq" and all(x.op == "attr" and x.args[1] == "broadcastable" for x in a.args)]
    nd = lambda x: mk("attr", x.args[0], "ndim")
    xs = sorted({x for a in cmp for x in a.args if is_ndim(x)}, key=lambda x: x.id)
    if not xs or len(xs) > 4:
        return TRUE
    same = [a for a in same if all(nd(x) in xs for x in a.args)]
    top = max([x.args[0] for a in cmp for x in a.args if is_int(x)] + [1]) + 2
    out = FALSE
    for values in itertools.product(range(min(top, 5)), repeat=len(xs)):
        m = dict(zip(xs, values))
        val = lambda x: x.args[0] if is_int(x) else m[x]
        c = TRUE
        for a in cmp:
            l, r = map(val, a.args)
            c = And(c, atom(a) if (l == r if a.op == "eq" else l < r) else Not(atom(a)))
        for a in same:
            l, r = (m[nd(x)] for x in a.args)
            if l != r:
                c = And(c, Not(atom(a)))
            elif l == 0:
                c = And(c, atom(a))
        out = Or(out, c)
    return out


def theory(atoms):
    """What holds between the facts."""
    atoms = list(atoms)
    c = dimensions(atoms)
    for a in atoms:
        # nothing is known about the node of a variable that has none
        if a.op == "isnone":
            for b in atoms:
                if b is not a and tm.contains(b, a.args[0]):
                    c = And(c, Or(Not(atom(a)), Not(atom(b)) if b.op != "isnone" else Not(atom(b))))
        if a.op in ("alleq", "anyeq") and a.args[1].op == "attr" and a.args[1].args[1] == "data":
            x = a.args[1].args[0]
            b = mk("isinst", x, tm.glob("ae:Constant"))
            if b in atoms:
                c = And(c, Or(Not(atom(a)), atom(b)))
        if a.op == "alleq":
            b = tm.raw("anyeq", *a.args)
            if b in atoms:
                c = And(c, Or(Not(atom(a)), atom(b)))
        if a.op == "eq" and all(x.op == "attr" and x.args[1] == "shape" for x in a.args):
            b = raw_sorted("eq", *[mk("attr", x.args[0], "broadcastable") for x in a.args])
            if b in atoms:
                c = And(c, Or(Not(atom(a)), atom(b)))
        if a.op == "isop":
            # the operations with a name of their own are element-wise, or random variables
            for b in atoms:
                if b.op == "isinst" and b.args[0] is a.args[0] and b.args[1] is tm.glob("ae:Elemwise"):
                    c = And(c, Or(Not(atom(a)), atom(b)))
        for b in atoms:
            if a.id >= b.id:
                continue
            # a value has one class, one operation, one length
            if a.op == b.op == "isop" and a.args[0] is b.args[0]:
                c = And(c, Not(And(atom(a), atom(b))))
            if a.op == b.op == "isinst" and a.args[0] is b.args[0]:
                c = And(c, related(a, b))
            if a.op == b.op == "eq":
                ka, kb = [x for x in a.args if x.op == "const"], [x for x in b.args if x.op == "const"]
                ra, rb = [x for x in a.args if x.op != "const"], [x for x in b.args if x.op != "const"]
                if ka and kb and ra == rb and ka != kb:
                    c = And(c, Not(And(atom(a), atom(b))))
    return c


def quantify(c, ats, universal):
    for a in ats:
        hi, lo = tm.assume(c, a, True), tm.assume(c, a, False)
        c = And(hi, lo) if universal else Or(hi, lo)
    return c


def compare_conditions(A, S):
    """``("same" | "wider" | "narrower" | "unknown", detail)``"""
    if A is S:
        return "same", ""
    ats = set(tm.atoms(A)) | set(tm.atoms(S))
    th = theory(ats)
    foreign = [a for a in tm.atoms(A) if a not in set(tm.atoms(S)) and not independent(a)]
    wider = And(A, Not(S), th)
    narrower = And(S, Not(A), th)
    if wider is FALSE and narrower is FALSE:
        return "same", ""
    w = quantify(wider, foreign, True) if foreign else wider
    n = quantify(narrower, foreign, True) if foreign else narrower
    if w is not FALSE:
        return "wider", example(w, S, A)
    if n is not FALSE:
        return "narrower", example(n, A, S)
    for A1, S1, what in data.settle(A, S):
        verdict, detail = compare_conditions(A1, S1)
        if verdict in ("wider", "narrower"):
            return verdict, f"for example for {what}"
    return "unknown", "; ".join(tm.show(a)[:120] for a in foreign)


def example(c, false, true):
    """The facts of one model that distinguish two conditions."""
    facts = []
    while c.op == "ite":
        a = c.args[0]
        val = c.args[1] is not FALSE
        c = c.args[1] if val else c.args[2]
        # only the facts that matter
        if tm.assume(false, a, val) is not false or not val:
            facts.append(("" if val else "not ") + tm.show(a))
    neg = [f for f in facts if f.startswith("not ")]
    neg = [f for f in neg if not f.startswith("not isnone")] or neg
    return "for example for models with " + "; ".join((neg or facts)[:4])


# ---------------------------------------------------------------- the program


def drop_impossible(c):
    """Nothing but the node of a variable may be ``None``."""
    for a in tm.atoms(c):
        if a.op == "isnone" and not (a.args[0].op == "attr" and a.args[0].args[1] == "owner"):
            c = tm.assume(c, a, False)
    return c


def load(rep, implicit=False):
    prog = Program(implicit="owner" if implicit else False)
    F = fd.find(prog)
    rep.count("finders analysed", len(F))
    return prog, F


def grouped(rep, F, report=True):
    """``{(family, variable): [(finder, step)]}``; what can't be read is reported as undecided."""
    out = {}
    for f in F:
        steps, bad = fd.steps(f)
        for c, x in bad:
            if report:
                rep.undecided(f"{f.name}/result", f.where, f"the result isn't a list of steps: {tm.show(x)[:200]}")
        for s in steps:
            out.setdefault((f.family, s.rv), []).append((f, s))
    return out


def c08(rep):
    rep.rule(
        "for every variable that a finder may offer a step for, the condition under which it is offered (a decision diagram "
        "over facts about the matched graph) is equivalent to the condition under which the step is derived, and no path "
        "through a finder ends with an exception"
    )
    rep.assume("only the owner of a variable can be None; the facts of different sub-graphs are independent")
    prog, F = load(rep, implicit=True)
    E = expected()
    G = grouped(rep, F)
    unknown = {f.family for f in F if kn.is_unknown(f.term)}
    for key, (what, S) in E.items():
        offers = G.pop(key, [])
        where = offers[0][0].where if offers else "; ".join(f.where for f in F if f.family == key[0])
        A = FALSE
        for f, s in offers:
            A = Or(A, drop_impossible(s.cond))
        if key[0] in {"BinomialRV", "PoissonRV", "NegBinomialRV", "BernoulliRV", "NormalRV"}:
            # finders only see nodes of their family
            A = tm.assume(A, node_is(key[0]).args[0], True)
            S = tm.assume(S, node_is(key[0]).args[0], True)
        verdict, detail = compare_conditions(A, S)
        rep.count("facts about graphs", len(tm.atoms(A)))
        name = f"{what}/{tm.show(key[1])}"
        if verdict == "same":
            rep.ok(name, where)
        elif verdict == "wider":
            rep.violation(name, where, f"the step is offered for models that it isn't derived for, {detail}")
        elif verdict == "narrower" and key[0] not in unknown:
            rep.violation(name, where, f"the step isn't offered for models of the required form, {detail}")
        else:
            rep.undecided(name, where, f"the condition uses facts that aren't modelled: {detail}")
    for (fam, x), offers in G.items():
        A = FALSE
        for f, s in offers:
            A = Or(A, drop_impossible(s.cond))
        name, where = f"{fam}/{tm.show(x)[:80]}", offers[0][0].where
        verdict, detail = compare_conditions(A, FALSE)
        if verdict == "wider":
            rep.violation(name, where, f"a step is offered for a variable that no step is derived for, {detail}")
        elif verdict != "same":
            rep.undecided(name, where, "a step for a variable that has no specification")
    for f in F:
        n = 0
        for e in f.raises:
            c = drop_impossible(e.cond)
            c = And(c, theory(tm.atoms(c)))
            if c is FALSE:
                continue
            n += 1
            if all(independent(a) or a.op == "exists" for a in tm.atoms(c)):
                rep.violation(f"{f.name}/raises", f.where, f"declining ends with {e.value!r}, {example(c, c, c)}")
            else:
                rep.undecided(f"{f.name}/raises", f.where, f"may raise {e.value!r}")
        if not n:
            rep.ok(f"{f.name}/no exceptions", f.where)
    rep.count("functions analysed", prog.functions())


# ---------------------------------------------------------------- what the steps draw


class Kernel:
    """``kout(kapp(kern(class, inputs, outputs, ...), arguments), output)``"""

    def __init__(self, post):
        app = post.args[0]
        k = app.args[0]
        self.app, self.cls, self.ins, self.outs = app, k.args[0], k.args[1], k.args[2]
        self.fields = {f.args[0]: f.args[1] for f in k.args[3:] if f.op == "field"}
        self.args = app.args[1]
        self.out = post.args[1]


def kernel_of(post):
    return Kernel(post) if post.op == "kout" and post.args[0].op == "kapp" else None


def c01(rep):
    rep.rule(
        "the term of each conjugate step is a draw of the conjugate family whose parameters coincide, as polynomials over the "
        "matched graph's own parameters and the observed response, with those of the posterior; its size and dtype are the prior's"
    )
    prog, F = load(rep)
    G = grouped(rep, F)
    S = reference()
    for cls, k, prior, ref, params, known in [
        ("PoissonRV", 3, "GammaRV", "gamma_poisson", ("alpha", "scale"), ()),
        ("BinomialRV", 4, "BetaRV", "beta_binomial", ("alpha", "beta", "n"), ()),
        ("NegBinomialRV", 4, "BetaRV", "beta_negative_binomial", ("alpha", "beta", "n"), (("K4", "beta_negative_binomial_k4"),)),
    ]:
        x = node_input(k)
        offers = G.get((cls, x), [])
        if not offers:
            f = [f for f in F if f.family == cls]
            where = "; ".join(g.where for g in f)
            if any(kn.is_unknown(g.term) for g in f):
                rep.undecided(ref, where, "the finder isn't modelled")
            else:
                rep.violation(ref, where, f"no step is offered for the latent variable {tm.show(x)}")
            continue
        decl = {Y: ("y", "n"), inp(x, 3): (params[0], "n"), inp(x, 4): (params[1], "n")}
        args = ["srng", params[0], params[1]]
        if "n" in params:
            decl[node_input(3)] = ("n", "n")
            args.append("n")
        args.append("y")
        decl.update({q: "n" for q in args[1:]})
        r = S.result("reference.conjugates", ref, args)
        ks = [(kid, S.result("reference.conjugates", n, args)) for kid, n in known]
        for f, s in offers:
            rep.count("steps compared")
            post = s.post
            kk = kernel_of(post)
            if kk is not None:
                post = kk.out
            d = fd.rv_term(post)
            if d is None:
                if kn.is_unknown(post) or post.op != "new":
                    rep.undecided(ref, f.where, f"the posterior isn't a draw: {tm.show(post)[:100]}")
                else:
                    kn.check(rep, ref, f.where, post, [r], decl, known=ks)
                continue
            fam, srng, kw = d
            if srng is not sym("srng"):
                rep.violation(f"{ref}/stream", f.where, f"the draw comes from {tm.show(srng)[:100]}, not from the tracker's stream")
            size, dtype = kw.get("size"), kw.get("dtype")
            if size is None or size in (inp(x, 1), mk("attr", x, "shape")):
                rep.ok(f"{ref}/size", f.where)
            elif size.op == "const" or fd.graph_paths(size, ()):
                rep.violation(f"{ref}/size", f.where, f"the size of the draw is {tm.show(size)[:100]}, not the prior's")
            else:
                rep.undecided(f"{ref}/size", f.where, f"the size of the draw is {tm.show(size)[:100]}")
            if dtype in (inp(x, 2), type_attr(x, "dtype"), mk("attr", x, "dtype")):
                rep.ok(f"{ref}/dtype", f.where)
            elif dtype is None or dtype.op == "const" or fd._rooted(dtype):
                rep.violation(f"{ref}/dtype", f.where, f"the dtype of the draw is {tm.show(dtype or NONE)[:100]}, not the prior's")
            else:
                rep.undecided(f"{ref}/dtype", f.where, f"the dtype of the draw is {tm.show(dtype)[:100]}")
            kn.check(rep, ref, f.where, fd.without(post, "size", "dtype"), [r], decl, known=ks)
    rep.count("functions analysed", prog.functions())


def regression(rep, F, G, cls, k, name, refs, extra):
    """A coefficient step of a logistic regression."""
    S = reference()
    R = Regression(k)
    offers = G.get((cls, R.beta), [])
    if not offers:
        missing(rep, name, F, cls, R.beta)
        return
    decl0 = {Y: ("y", "n"), R.X: ("X", "np"), R.beta: ("beta", "p"), R.std: ("beta_std", "p")}
    for dims in ("", "n") if extra else (None,):
        decl = dict(decl0)
        args = ["srng", "beta", "beta_std", "X"]
        if extra:
            decl[node_input(3)] = ("h", dims)
            args.append("h")
        args.append("y")
        for x, (n, d) in list(decl.items()):
            decl[n] = d
        # what the match says about the rest of the graph
        decl[inp(R.beta, 3)] = const(0)
        decl[R.minus] = const(-1)
        rs = [S.result("reference.logistic", n, args) for n in refs]
        for f, s in offers:
            rep.count("steps compared")
            kk = kernel_of(s.post)
            out = generic(kk.out if kk is not None else s.post)
            kn.check(rep, name + (f"[h:{dims}]" if extra else ""), f.where, out, rs, decl, gauss=True)


def generic(t):
    """The general case, in which none of the matched graph's variable parts is constant."""
    m = {}
    for x in kn.subterms(t):
        if x.op == "isinst" and x.args[1] is tm.glob("ae:Constant"):
            m[x] = FALSE
    return tm.subst(t, m)


def missing(rep, name, F, cls, x):
    f = [f for f in F if f.family == cls]
    where = "; ".join(g.where for g in f)
    if any(kn.is_unknown(g.term) for g in f):
        rep.undecided(name, where, "the finder isn't modelled")
    else:
        rep.violation(name, where, f"no step is offered for {tm.show(x)}")


def c04(rep):
    rep.rule(
        "the coefficient steps that the finders offer are compared in the same way with the conditional of the matched model, "
        "as terms over the matched graph"
    )
    prog, F = load(rep)
    G = grouped(rep, F)
    regression(rep, F, G, "BernoulliRV", 3, "Bernoulli regression step", ["bernoulli_model_primal", "bernoulli_model_dual"], False)
    regression(rep, F, G, "NegBinomialRV", 4, "negative binomial regression step", ["nbinom_model_primal", "nbinom_model_dual"], True)


def c05(rep):
    rep.rule("the shrinkage steps are compared as terms over the matched graph, and each output with the variable it is reported for")
    prog, F = load(rep)
    G = grouped(rep, F)
    S = reference()
    H = Horseshoe()
    a, b = H.shrinkage
    pairs = {}
    for x in H.shrinkage:
        if ("NormalRV", x) not in G:
            missing(rep, f"horseshoe/{tm.show(x)}", F, "NormalRV", x)
        for f, s in G.get(("NormalRV", x), []):
            app = s.post.args[0] if s.post.op == "kout" else s.post
            # the arms of one result
            pairs.setdefault((f.name, app), {}).setdefault(x, []).append((f, s))
    # steps of the same application under compatible conditions
    todo = []
    apps = {}
    for x in H.shrinkage:
        for f, s in G.get(("NormalRV", x), []):
            for y in H.shrinkage:
                if y is x:
                    continue
                for g, u in G.get(("NormalRV", y), []):
                    if g is f and x is a and And(s.cond, u.cond) is not FALSE:
                        todo.append((f, s, u))
    # which of the two is the local scale
    for f, s, u in todo:
        cond = And(s.cond, u.cond)
        rep.count("steps compared", 2)
        name = "horseshoe step"
        results = {}
        for loc, glob in ((a, b), (b, a)):
            decl = {Y: ("beta", "p"), loc: ("lam", "p"), glob: ("tau", ""), "lam": "p", "tau": "", "beta": "p"}
            ref = S.result("reference.horseshoe", "horseshoe_model", ["srng", "beta", "lam", "tau"])
            outs = {s.rv: s.post, u.rv: u.post}
            ts = [generic(strip(fd.simplify(outs[z], cond))) for z in (loc, glob)]
            if any(kn.is_unknown(t) for t in ts):
                results[loc] = ("undecided", "not modelled")
                continue
            quiet = Quiet()
            kn.check(quiet, name, f.where, v.tup(*ts), [ref], decl, components=[0, 1])
            results[loc] = quiet.worst()
        good = [loc for loc, r in results.items() if r[0] == "ok"]
        if not good:
            if any(r[0] == "undecided" for r in results.values()):
                rep.undecided(name, f.where, "; ".join(r[1][:200] for r in results.values() if r[0] == "undecided"))
            else:
                # report the assignment that the shapes suggest
                want = next((z for z in H.shrinkage if And(cond, H.local[z]) is not FALSE), b)
                rep.violation(name, f.where, results[want][1])
            continue
        loc = good[0]
        if And(cond, H.local[loc]) is FALSE:
            rep.violation(name, f.where, f"{tm.show(loc)} is updated as the local scale although it is the global one")
        else:
            rep.ok(f"{name}[local: {tm.show(loc)}]", f.where)
    rep.count("functions analysed", prog.functions())


def strip(post):
    k = kernel_of(post)
    return k.out if k is not None else post


class Quiet:
    """Collects the outcome of a comparison."""

    def __init__(self):
        self.out = []

    def count(self, *a):
        pass

    def ok(self, key, where="", detail=""):
        self.out.append(("ok", detail))

    def violation(self, key, where, detail):
        self.out.append(("violation", detail))

    def undecided(self, key, where, detail):
        self.out.append(("undecided", detail))

    def known(self, kid, key, where, detail):
        self.out.append(("known:" + kid, detail))

    def worst(self):
        for st in ("violation", "undecided"):
            for o in self.out:
                if o[0] == st:
                    return o
        return self.out[0] if self.out else ("undecided", "nothing compared")


def c06(rep):
    rep.rule("the dispersion step is compared as a term over the matched graph and the new coefficients")
    prog, F = load(rep)
    G = grouped(rep, F)
    S = reference()
    R = Regression(4)
    h = node_input(3)
    offers = G.get(("NegBinomialRV", h), [])
    if not offers:
        missing(rep, "dispersion step", F, "NegBinomialRV", h)
    decl = {
        Y: ("y", "n"), R.X: ("X", "np"), R.beta: ("beta", "p"), h: ("h", ""), inp(h, 3): ("a", ""), inp(h, 4): ("b", ""),
    }
    for x, (n, d) in list(decl.items()):
        decl[n] = d
    args = ["srng", "h", "X", "beta", "a", "b", "y"]
    r = S.result("reference.dispersion", "dispersion_model", args)
    k1 = S.result("reference.dispersion", "dispersion_model_k1", args)
    for f, s in offers:
        rep.count("steps compared")
        out = generic(strip(s.post))
        # the new coefficients are the current ones by the time of this step
        for g, u in G.get(("NegBinomialRV", R.beta), []):
            out = tm.subst(out, {generic(fd.simplify(u.post, s.cond)): sym("beta")})
        kn.check(
            rep, "dispersion step", f.where, out, [kn.component(r, 0)], decl,
            known=[("K1", kn.component(k1, 0))], integers=("y",),
        )
    rep.count("functions analysed", prog.functions())


# ---------------------------------------------------------------- closure and updates


def c17(rep):
    rep.rule(
        "for every kernel that a finder builds: its class is an in-lined OpFromGraph, only constants are missing from its inputs, "
        "its outputs depend on the matched graph through its inputs alone, and it is applied to its own inputs in their order"
    )
    prog, F = load(rep)
    G = grouped(rep, F)
    for (fam, x), offers in G.items():
        for f, s in offers:
            key = f"{f.name}/{tm.show(x)[-60:]}"
            k = kernel_of(s.post)
            if k is None:
                if s.post.op == "new":
                    rep.ok(f"{key}/plain draw", f.where)
                    continue
                if s.post.op == "cat":
                    rep.violation(key, f.where, "the new value is a sequence of a kernel's outputs, and not its first output")
                    continue
                inner = [y for y in kn.subterms(s.post) if y.op == "kout"]
                rep.undecided(key, f.where, "the new value is not an output of a kernel" if inner else f"the new value is {tm.show(s.post)[:80]}")
                continue
            rep.count("kernels analysed")
            reported = {kernel_of(z.post).out for y in G.values() for g, z in y if g is f and kernel_of(z.post) and kernel_of(z.post).app is k.app}
            closure(rep, prog, f, s, key, k, reported)
    rep.count("functions analysed", prog.functions())


def closure(rep, prog, f, s, key, k, reported):
    if k.fields.get("inline") is not TRUE and k.fields.get("inline") != const(True):
        rep.violation(f"{key}/inline", f.where, f"{tm.show(k.cls)} isn't in-lined when it is compiled")
    else:
        rep.ok(f"{key}/inline", f.where)
    state = k.out.op in ("idx", "at") and k.out.args[0].op == "attr" and k.out.args[0].args[1] in ("outputs", "inputs") and k.out.args[1] is const(0)
    if state or k.out.op in ("scanupd", "updval") or k.out.op == "attr" and k.out.args[1] == "default_update":
        rep.violation(f"{key}/new value", f.where, f"the new value is the state {tm.show(k.out)[-100:]} of a generator")
    leading = []
    for p in k.outs.args if k.outs.op == "cat" else ():
        if p.op != "one" or p.args[0] is k.out:
            leading.append(p)
            break
        leading.append(p)
    if not leading or leading[-1].op != "one":
        rep.undecided(f"{key}/outputs", f.where, f"the outputs are {tm.show(k.outs)[:100]}")
    else:
        other = [p.args[0] for p in leading if p.args[0] is not k.out and p.args[0] not in reported]
        if leading[-1].args[0] is k.out and not other:
            rep.ok(f"{key}/outputs", f.where)
        else:
            rep.violation(
                f"{key}/outputs", f.where,
                f"the kernel's output {tm.show((other or [k.out])[0])[:150]} comes before the new value {tm.show(k.out)[:150]}, but is not the new value of a variable",
            )
    ins = []
    fine = True
    if k.ins.op != "cat":
        rep.undecided(f"{key}/inputs", f.where, f"the inputs are {tm.show(k.ins)[:80]}")
        return
    for p in k.ins.args:
        if p.op == "one":
            ins.append(p.args[0])
        elif p.op == "opt" and p.args[2] is v.EMPTY and len(p.args[1].args) == 1 and p.args[1].args[0].op == "one":
            x = p.args[1].args[0].args[0]
            c = p.args[0]
            if c is Not(Or(*[models.isinst(x, tm.glob(g)) for g in ("ae:Constant", "ae:SharedVariable")])):
                ins.append(x)
            elif all(a.op == "isinst" and a.args[0] is x for a in tm.atoms(c)):
                rep.violation(f"{key}/inputs", f.where, f"{tm.show(x)} is only an input if {tm.show(c)[:200]}")
                fine = False
            else:
                rep.undecided(f"{key}/inputs", f.where, f"{tm.show(x)} is only an input if {tm.show(c)[:200]}")
                fine = False
        else:
            rep.undecided(f"{key}/inputs", f.where, f"the inputs contain {tm.show(p)[:80]}")
            fine = False
    rep.count("kernel inputs", len(ins))
    if not fine:
        return
    seen = {}
    for x in ins:
        if x in seen:
            rep.violation(f"{key}/inputs", f.where, f"{tm.show(x)[:100]} is an input twice")
        seen[x] = 1
    constants = {a.args[0] for a in tm.atoms(s.cond) if a.op == "isinst" and a.args[1] is tm.glob("ae:Constant") and tm.assume(s.cond, a, False) is FALSE}
    stop = set(ins) | constants
    free = fd.graph_paths(k.outs, stop)
    if free:
        flat = [x for x in ins if x.op in ("add", "mul") and any(tm.contains(x, y) for y in free)]
        what = ", ".join(tm.show(y)[-80:] for y in free[:3])
        if flat:
            rep.undecided(f"{key}/closed", f.where, f"the outputs depend on {what}, which also occur in compound inputs")
        else:
            rep.violation(f"{key}/closed", f.where, f"the outputs depend on {what}, which the inputs don't determine")
    else:
        rep.ok(f"{key}/closed", f.where)
    if k.args is k.ins:
        rep.ok(f"{key}/application", f.where)
    elif k.args.op == "cat" and all(p.op in ("one", "opt") for p in k.args.args):
        rep.violation(f"{key}/application", f.where, "the kernel is applied to other quantities than, or in another order from, its inputs: " + tm.show(k.args)[:300])
    else:
        rep.undecided(f"{key}/application", f.where, f"the kernel is applied to {tm.show(k.args)[:100]}")


def generators(t):
    """The scans whose generators advance in ``t``."""
    return [x for x in kn.subterms(t) if x.op == "scan"]


def c11(rep):
    rep.rule(
        "a kernel that runs a scan has an output for the next state of every generator and every scan update, and the step's "
        "updates map each of these to the output that was computed for it"
    )
    prog, F = load(rep)
    G = grouped(rep, F)
    for (fam, x), offers in G.items():
        for f, s in offers:
            key = f"{f.name}/{tm.show(x)[-60:]}"
            for part in (s.post, s.updates):
                kn.streams(rep, key, f.where, part, tm.sym("srng"))
            k = kernel_of(s.post)
            scans = [y for y in kn.subterms(strip(s.post)) if y.op == "scan"]
            inner = {z for y in kn.subterms(strip(s.post)) if y.op == "kout" for z in kn.subterms(y.args[1]) if z.op == "scan"}
            scans = [y for y in scans if y not in inner]
            rep.count("steps analysed")
            if not scans and s.updates is NONE:
                rep.ok(f"{key}/no scan", f.where)
                continue
            updates(rep, f, s, key, k, scans)
    rep.count("functions analysed", prog.functions())


def updates(rep, f, s, key, k, scans):
    u = s.updates
    if u is NONE or u.op == "dct" and not u.args:
        rep.violation(f"{key}/updates", f.where, "the step runs a scan, but has no updates for its generators")
        return
    if u.op != "dct":
        rep.undecided(f"{key}/updates", f.where, f"the updates are {tm.show(u)[:100]}")
        return
    entries = []
    for p in u.args:
        if p.op == "kv":
            entries.append((p.args[0], p.args[1], None))
        elif p.op == "dfm":
            i = tm.fresh("i")
            body = tm.app(p.args[1], i)
            if body.op == "dct" and all(q.op == "kv" for q in body.args):
                entries += [(q.args[0], q.args[1], p.args[0]) for q in body.args]
            else:
                rep.undecided(f"{key}/updates", f.where, f"{tm.show(p)[:200]}")
        elif p.op == "dspl":
            entries.append((None, p.args[0], p.args[0]))
        else:
            rep.undecided(f"{key}/updates", f.where, f"{tm.show(p)[:200]}")
    for sc in scans:
        rep.count("scans")
        own = [e for e in entries if e[2] is not None and e[2].op == "scanupd" and e[2].args[0] is sc]
        if own:
            rep.ok(f"{key}/scan updates", f.where)
        elif kn.is_unknown(u) or any(e[2] is not None and e[2].op != "scanupd" for e in entries):
            rep.undecided(f"{key}/scan updates", f.where, "not modelled")
        else:
            rep.violation(f"{key}/scan updates", f.where, "the updates of a scan that the step runs are lost")
    own = [k1 for k1, _, _ in entries if k1 is not None]
    for x in shallow(strip(s.post)):
        # the generators that the kernel advances next to those of the scan
        if x.op == "new" and x.args[1].op == "rv":
            if any(next_state(k1) is not None and tm.contains(k1, x) for k1 in own):
                rep.ok(f"{key}/{x.args[1].args[0]} generator" if isinstance(x.args[1].args[0], str) else key, f.where)
            elif kn.is_unknown(u):
                rep.undecided(f"{key}/generators", f.where, "not modelled")
            else:
                rep.violation(f"{key}/generators", f.where, f"there is no update for the generator of {tm.show(x)[:80]}")
    for k1, val, dom in entries:
        rep.count("updates")
        if k1 is None:
            if val.op == "scanupd":
                rep.violation(f"{key}/pairs", f.where, "the updates are those of the scan before it was made a part of the kernel")
            else:
                rep.undecided(f"{key}/pairs", f.where, f"the updates include {tm.show(val)[:200]}")
            continue
        nxt = next_state(k1)
        if nxt is None:
            rep.undecided(f"{key}/pairs", f.where, f"the updated variable is {tm.show(k1)[:200]}")
            continue
        new = val
        if val.op == "kout" and k is not None:
            if val.args[0] is not k.app:
                rep.violation(f"{key}/pairs", f.where, "the update is an output of another application than the new value")
                continue
            new = val.args[1]
        elif k is not None:
            rep.violation(f"{key}/pairs", f.where, f"the update of {tm.show(k1)[-60:]} isn't an output of the kernel")
            continue
        if new is nxt:
            rep.ok(f"{key}/pairs", f.where)
        elif kn.is_unknown(new):
            rep.undecided(f"{key}/pairs", f.where, "not modelled")
        else:
            rep.violation(f"{key}/pairs", f.where, f"{tm.show(k1)[-60:]} is mapped to {tm.show(new)[-120:]}, which isn't its own next state")


def shallow(t):
    """Sub-terms, without those of other kernels and of the bodies of scans."""
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if not isinstance(x, T) or x.id in seen:
            continue
        seen.add(x.id)
        yield x
        if x.op not in ("kout", "scan"):
            todo.extend(x.args)


def next_state(k):
    """The next state of a generator, or of a variable that a scan updates."""
    if k.op == "at" and k.args[0].op == "scanupd":
        return v.subscript(k.args[0], k)
    if k.op == "idx" and k.args[1] is const(0) and k.args[0].op == "attr" and k.args[0].args[1] == "inputs":
        node = k.args[0].args[0]
        if node.op == "attr" and node.args[1] == "owner" and node.args[0].op == "new":
            return v.subscript(mk("attr", node, "outputs"), const(0))
    return None


def c23(rep):
    rep.rule("no finder has an effect on anything that it reaches from the matched node or the graph")
    _, F = load(rep)
    roots = {tm.sym("node"), tm.sym("fgraph")}
    for f in F:
        key = f"{f.name}: {f.family}: effects"
        bad = ef.touching(f.world, roots)
        if bad:
            rep.violation(key, f.where, "; ".join(f"{e.args[0]} on {cm.brief(o, 80)}" for e, o in bad[:3]))
            continue
        odd = cm.unknown(f.world)
        if odd:
            rep.undecided(key, f.where, "not modelled: " + "; ".join(cm.brief(b, 80) for b in odd[:3]))
        else:
            rep.ok(key, f.where)


CHECKS = dict(C23=c23, C01=c01, C04=c04, C05=c05, C06=c06, C08=c08, C11=c11, C17=c17)
