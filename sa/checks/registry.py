"""Which rewriters sampler construction reaches through the databases, and in which order."""
import os

from .. import finders as fd
from .. import kernels as kn
from .. import roles
from .. import terms as tm
from ..interp import Missing
from ..models import RVNAMES
from ..program import ROOT, Program
from ..report import Broken
from ..terms import FALSE, NONE, And, T
from . import finders as fi
from . import glue
from ..kernels import subterms

RULE = (
    "starting from the databases that construct_sampler and construct_ir_fgraph apply, following registrations (with their tags "
    "and positions, as they are when the database is queried), every function that is decorated as a sampler finder in any module "
    "of the package is reached after the package is imported, finders come before the expansion of folded operations, and the "
    "internal representation is made with broadcast folding and canonicalization"
)
CONTAINERS = ("ae:in2out", "ae:out2in", "ae:EquilibriumGraphRewriter", "ae:SequentialGraphRewriter", "ae:WalkingGraphRewriter")
DATABASES = ("ae:SequenceDB", "ae:LocalGroupDB", "ae:EquilibriumDB", "ae:RewriteDatabase", "ae:TopoDB", "ae:SequentialDB")


class Unclear(Exception):
    pass


def string(x):
    return x.args[0] if tm.is_const(x) and isinstance(x.args[0], str) else None


def value(p):
    return p.args[0] if isinstance(p, T) and p.op == "one" else p


class Registry:
    def __init__(self, prog):
        self.prog, self.I = prog, prog.I
        self.regs = list(getattr(prog.I, "registrations", []))

    def entries(self, chain):
        """``[(position, name, tags, object)]`` of a database's content, in the order in which they are applied."""
        out = []
        while chain.op == "eff" and chain.args[0] == "register":
            prev, fa = chain.args[1], tuple(chain.args[2:])
            for ref, before, fa2, where, args, kw in self.regs:
                if before is prev and tuple(fa2) == fa:
                    break
            else:
                raise Unclear("a registration that isn't one of the package's modules'")
            pos = [value(a) for a in args]
            if len(pos) < 2 or string(pos[0]) is None:
                raise Unclear("a registration without a literal name")
            name, obj = pos[0].args[0], pos[1]
            tags = {name}
            for t in pos[2:]:
                if string(t) is None:
                    raise Unclear(f"the tags of {name}")
                tags.add(string(t))
            position = kw.get("position", None)
            if position is not None:
                if not tm.is_const(position):
                    raise Unclear(f"the position of {name}")
                position = position.args[0]
            if set(kw) - {"position", "use_db_name_as_tag", "final_rewriter", "cleanup"}:
                raise Unclear(f"the registration of {name}")
            out.append((position, name, tags, obj, where))
            chain = prev
        out.reverse()
        if chain.op != "call" or chain.args[0] not in DATABASES:
            raise Unclear(f"the database {tm.show(chain)[:60]}")
        if chain.args[0] != "ae:SequenceDB":
            return [e[1:] for e in out]
        placed = []
        for e in out:
            p = e[0]
            if p is None or p == "last":
                p = max([q for q, _ in placed], default=-1) + 1
            elif p == "first":
                p = min([q for q, _ in placed], default=1) - 1
            placed.append((p, e[1:]))
        placed.sort(key=lambda q: (q[0], q[1][0]))
        return [e for _, e in placed]

    def selected(self, chain, query):
        plus, minus, every = set(), set(), set()
        for q in query:
            if string(q) is None:
                raise Unclear("a query that isn't literal")
            q = string(q)
            {"+": plus, "-": minus, "&": every}.get(q[:1], plus).add(q[1:])
        for name, tags, obj, where in self.entries(chain):
            if tags & plus and not tags & minus and every <= tags:
                yield name, obj, where

    def leaves(self, x, query=()):
        """The rewriters that ``x`` consists of, in order."""
        x = value(x)
        if x.op == "ref":
            content = self.I.freeze(x)
            if content.op == "eff" or (content.op == "call" and content.args[0] in DATABASES):
                if not query:
                    raise Unclear("a database that isn't queried")
                for _, obj, _ in self.selected(content, query):
                    yield from self.leaves(obj, query)
                return
            x = content
        if x.op == "mcall" and x.args[0] == "query":
            base = x.args[1]
            if base.op == "glob" and base.args[0] == "ae:optdb":
                yield x
                return
            for _, obj, _ in self.selected(base, x.args[2:]):
                yield from self.leaves(obj, x.args[2:])
            return
        if x.op == "call" and x.args[0] in CONTAINERS:
            for a in x.args[1:]:
                if isinstance(a, T) and a.op == "cat":
                    for p in a.args:
                        if p.op != "one":
                            raise Unclear(f"the rewriters of {tm.show(x)[:60]}")
                        yield from self.leaves(p, query)
                elif isinstance(a, T) and a.op != "kw":
                    yield from self.leaves(a, query)
            return
        if x.op == "rewriter":
            yield x
            return
        if x.op == "call" and x.args[0] in DATABASES or x.op == "eff":
            # the content of a database, at the time at which it was read
            if not query:
                raise Unclear("a database that isn't queried")
            for _, obj, _ in self.selected(x, query):
                yield from self.leaves(obj, query)
            return
        raise Unclear(f"the rewriter {tm.show(x)[:80]}")


def applied(r):
    """The rewriters that a function applies, in order."""
    both = tm.raw("both", r.value, r.world)
    effs = []
    for x in subterms(both):
        if x.op == "eff" and x.args[0] == "rewrite" and x not in effs:
            effs.append(x)
    out = []
    for x in sorted(effs, key=lambda x: sum(1 for y in effs if y is not x and tm.contains(x.args[1], y))):
        entry = x.args[2], rewritten(x.args[1])
        if entry not in out:
            out.append(entry)
    return out


def rewritten(g):
    """The graph that a chain of effects starts with."""
    while g.op == "eff":
        g = g.args[1]
    return g


def function_name(I, leaf):
    f = leaf.args[0]
    if f.op == "fn":
        return I.fns[f.args[0]].qualname
    return f.args[0] if f.op == "pkgfn" else tm.show(f)


def all_finders():
    """The finders of every module, whether or not importing the package imports it."""
    mods = sorted(
        "aemcmc." + f[:-3] for f in os.listdir(os.path.join(ROOT, "aemcmc")) if f.endswith(".py") and f not in ("__init__.py", "_version.py")
    )
    p = Program(ROOT, modules=["aemcmc"] + mods)
    return p, finders(p)


def finders(p):
    out = {}
    for q, (f, d, r) in getattr(p.I, "decorated", {}).items():
        if r.op == "rewriter" and any(fam in RVNAMES.values() or fam.endswith("RV") for fam in fd.family_of(r)):
            out[q] = f, r
    return out


def check(rep):
    rep.rule(RULE)
    units = {u.name: u for u in glue.UNITS}
    rs = {n: glue.result(ROOT, units[n]) for n in ("construct_ir_fgraph", "construct_sampler")}
    every_prog, every = all_finders()
    if not every:
        raise Broken("no sampler finders")
    prog = rs["construct_sampler"].prog
    here = finders(prog)
    R = Registry(prog)
    where = {n: glue.location(r) for n, r in rs.items()}
    found = {}
    for n, r in rs.items():
        G = Registry(r.prog)
        try:
            found[n] = [(leaf, G.I, graph) for x, graph in applied(r) for leaf in G.leaves(x)]
        except Unclear as e:
            rep.undecided(f"the rewriters of {n}", where[n], str(e))
            return
        rep.count("rewriters reached", len(found[n]))
    names = [(function_name(I, leaf) if leaf.op == "rewriter" else None, leaf) for leaf, I, _ in found["construct_sampler"]]
    graphs = [g for _, _, g in found["construct_sampler"]]
    inline = "aemcmc.rewriting." + roles.resolve(ROOT, "aemcmc.rewriting", "inline_SubsumingElemwise")
    # the graph that samplers are found in is the one that has to be expanded afterwards
    searched = {g for (_, leaf), g in zip(names, graphs) if any(leaf is h[1] for h in here.values())}
    expansions = [i for i, (n, _) in enumerate(names) if n == inline and graphs[i] in (searched or graphs)]
    if not expansions:
        rep.violation("expansion", where["construct_sampler"], f"{inline} isn't among the rewriters that sampler construction applies to the model")
    for q, (f, _) in sorted(every.items()):
        rep.count("finders")
        at = every_prog.location(f)
        at_ = [i for i, (n, leaf) in enumerate(names) if q in here and leaf is here[q][1]]
        if q not in here:
            rep.violation(f"{q}: registered", at, "importing the package doesn't import the module that defines it")
        elif not at_:
            rep.violation(
                f"{q}: registered", at, "the databases that sampler construction queries don't contain it, with the tags that are queried, when they are queried"
            )
        elif expansions and min(expansions) < min(at_):
            rep.violation(f"{q}: registered", at, "folded operations are expanded before it looks for them")
        else:
            rep.ok(f"{q}: registered", at)
    if expansions:
        (rep.ok if not [i for i, (n, leaf) in enumerate(names) if i > max(expansions) and any(leaf is h[1] for h in here.values())] else rep.violation)(
            "expansion", where["construct_sampler"], ""
        )
    ir = found["construct_ir_fgraph"]
    irn = [function_name(I, leaf) if leaf.op == "rewriter" else None for leaf, I, _ in ir]
    key = "aemcmc.rewriting.local_elemwise_dimshuffle_subsume"
    (rep.ok if key in irn else rep.violation)("folding", where["construct_ir_fgraph"], "" if key in irn else f"{key} isn't applied")
    canon = [x for x, _, _ in ir if x.op == "mcall" and any("canonicalize" in (string(a) or "") for a in x.args[2:])]
    (rep.ok if canon else rep.violation)("canonicalization", where["construct_ir_fgraph"], "" if canon else "no canonicalization is applied")
    for n in irn:
        if n in {h for h in here} or n == inline:
            rep.violation("the internal representation", where["construct_ir_fgraph"], f"{n} is applied while it is made")
    # a finder must recognise variables of the kind that it is registered for
    F = fd.find(every_prog)
    for f in sorted(F, key=lambda f: (f.name, f.family)):
        rep.count("families", 1)
        kind = f"{f.name}: recognises {f.family}"
        if f.term is NONE or tm.is_const(f.term):
            rep.violation(kind, f.where, "no node of this kind is recognised")
        else:
            rep.ok(kind, f.where)


def steps(rep):
    """A step for each variable of each form is offered by a finder of the kind of its observed variable."""
    rep.rule(
        "for each kind of observed variable and each variable that a specialised step is derived for, some finder registered for "
        "that kind offers a step for that variable, under a condition that can be met"
    )
    prog, F = fi.load(rep)
    G = fi.grouped(rep, F)
    unknown = {f.family for f in F if kn.is_unknown(f.term)}
    for (fam, x), (what, _) in fi.expected().items():
        key = f"{what} for {fam}/{tm.show(x)}"
        offers = G.get((fam, x), [])
        at = offers[0][0].where if offers else "; ".join(f.where for f in F if f.family == fam) or "aemcmc"
        met = False
        for f, s in offers:
            c = fi.drop_impossible(s.cond)
            met = met or And(c, fi.theory(tm.atoms(c))) is not FALSE
        if met:
            rep.ok(key, at)
        elif fam in unknown:
            rep.undecided(key, at, "the finders for this kind aren't modelled")
        else:
            rep.violation(key, at, f"no finder that is registered for {fam} nodes offers this step")


def folded(rep):
    """Pattern matching takes folded operations for the operations that they fold."""
    rep.rule(
        "for folded operations, alone or against the operations that they fold, the handlers registered for unification and for "
        "taking expressions apart have to unify the folded operations, and to give their type"
    )
    prog = glue.program(ROOT, glue.CS)
    I = prog.I
    sub, plain = tm.mk("cls", "aemcmc.rewriting.SubsumingElemwise"), tm.glob("ae:Elemwise")
    got = {}
    for x in subterms(prog.module_world):
        if x.op == "eff" and x.args[0] in ("add", "register") and len(x.args) > 3 and x.args[2].op == "glob":
            name, kinds = x.args[2].args[0].split(":")[-1], x.args[3]
            if kinds.op == "cat":
                got[name, tuple(value(k) for k in kinds.args)[:2]] = x.args[4] if len(x.args) > 4 else None
    want = {("_car", (sub,)): "type"}
    for pair in ((sub, plain), (plain, sub), (sub, sub)):
        want["_unify", pair] = "unify"
    where = prog.where("aemcmc.rewriting", "SubsumingElemwise")
    for (name, kinds), what in sorted(want.items(), key=lambda k: (k[0][0], [tm.show(t) for t in k[0][1]])):
        key = f"{name}: " + ", ".join("folded" if k is sub else "plain" for k in kinds)
        rep.count("handlers")
        if (name, kinds) not in got:
            others = [k for k in got if k[0] == name]
            if any(k is None or not all(t.op in ("cls", "glob") for t in k[1]) for k in others):
                rep.undecided(key, where, "handlers registered for what isn't a class")
            else:
                rep.violation(key, where, "no handler is registered")
            continue
        h = got[name, kinds]
        f = glue.expand_functions(prog, h) if h is not None else None
        if f is None or f.op != "lam":
            rep.undecided(key, where, "the handler isn't a function of the package")
            continue
        args = [tm.sym(n) for n in "uvs"][: len(kinds) + (name == "_unify")]
        try:
            if len(f.args) != len(args) + 1:
                raise ValueError
            r = tm.subst(f.args[-1], dict(zip(f.args[:-1], args)))
        except Exception:
            rep.undecided(key, where, "the handler takes other arguments")
            continue
        if r.op == "cat" and len(r.args) == 1 and r.args[0].op == "one":
            r = r.args[0].args[0]
        op = [tm.mk("attr", a, "elemwise_op") if k is sub else a for a, k in zip(args, kinds)]
        if what == "type":
            ok = r is tm.raw("call", "py:type", op[0])
            known = r.op in ("call", "attr", "sym") and (r.op != "call" or r.args[0] == "py:type")
        else:
            ok = r.op == "call" and r.args[0] == "log:_unify" and set(r.args[1:3]) == set(op) and r.args[3:] == (args[2],)
            known = r.op == "call" and r.args[0] == "log:_unify" or tm.is_const(r) or r.op == "sym"
        if ok:
            rep.ok(key, where)
        elif known:
            rep.violation(key, where, f"is {tm.show(r)[:200]}")
        else:
            rep.undecided(key, where, f"not in a known form: {tm.show(r)[:120]}")


def c19(rep):
    check(rep)
    folded(rep)
    steps(rep)


CHECKS = {"C19": c19, "C14": folded}
