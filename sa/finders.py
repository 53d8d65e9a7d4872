"""The sampling steps that the package's finders offer, as terms over the matched node."""
from . import kernels as kn
from . import terms as tm
from .models import RVNAMES
from .program import Program
from .report import Broken
from .terms import T, sym

NODE = sym("node")
Y = tm.mk("idx", tm.mk("attr", NODE, "outputs"), tm.const(1))


class Finder:
    def __init__(self, name, fn, family, where):
        self.name, self.fn, self.family, self.where = name, fn, family, where
        self.raises = []


class Step:
    """One ``(variable, posterior, updates)`` triple."""

    def __init__(self, rv, post, updates):
        self.rv, self.post, self.updates = rv, post, updates


def family_of(rewriter):
    """The random variable classes that a rewriter tracks."""
    d = rewriter.args[1]
    out = []
    for a in d.args[1:]:
        if isinstance(a, T) and a.op == "cat":
            for p in a.args:
                if p.op == "one" and p.args[0].op == "glob":
                    out.append(p.args[0].args[0].split(":")[-1])
    return out


def find(prog, families=None):
    out = []
    I = prog.I
    for q, (f, d, r) in getattr(I, "decorated", {}).items():
        if r.op != "rewriter" or not q.startswith("aemcmc."):
            continue
        fams = family_of(r)
        for fam in fams:
            if families is not None and fam not in families:
                continue
            F = Finder(q.rsplit(".", 1)[1], f, fam, prog.location(f))
            I.node_class = {NODE: fam}
            try:
                t, exits, F.world = prog.call(f, ["fgraph", "node", "srng"])
            finally:
                I.node_class = {}
            F.term = t
            F.raises = [e for e in exits if e.kind == "raise"]
            out.append(F)
    if not out:
        raise Broken("no sampler finders for " + ", ".join(families or ["any family"]))
    return out


class Step:
    """One ``(variable, posterior, updates)`` triple and the condition under which it is offered."""

    def __init__(self, rv, post, updates, cond):
        self.rv, self.post, self.updates, self.cond = rv, post, updates, cond


def simplify(t, cond):
    """``t`` given that ``cond`` holds: the gates that it decides are resolved everywhere."""
    m = {}
    for a in tm.atoms(cond):
        if tm.assume(cond, a, False) is tm.FALSE:
            m[a] = tm.TRUE
        elif tm.assume(cond, a, True) is tm.FALSE:
            m[a] = tm.FALSE
    t = tm.subst(t, m)
    for _ in range(20):
        m = {}
        todo, seen = [(t, False)], set()
        while todo:
            x, inside = todo.pop()
            if (x.id, inside) in seen:
                continue
            seen.add((x.id, inside))
            if x.op == "ite" and not inside:
                y = tm.assume_cond(x, cond)
                if y is not x:
                    m[x] = y
                    continue
            for i, a in enumerate(x.args):
                if isinstance(a, tm.T):
                    todo.append((a, x.op == "ite" and i > 0))
        if not m:
            break
        t = tm.subst(t, m)
    return t


def arms(t, cond=tm.TRUE):
    """``[(condition, value)]`` of a gated value, one for each distinct value."""
    out = []
    for leaf in tm.leaves(t):
        c = tm.And(cond, tm.map_leaves(t, lambda x: tm.TRUE if x is leaf else tm.FALSE))
        if c is not tm.FALSE:
            out.append((c, leaf))
    return out


def steps(F):
    """``(steps, problems)``: what a finder offers, by variable."""
    out, bad = [], []

    def seq(t, c):
        for c1, x in arms(t, c):
            if x.op != "cat":
                bad.append((c1, x))
                continue
            for p in x.args:
                if p.op == "one":
                    for c2, y in arms(p.args[0], c1):
                        triple(y, c2)
                elif p.op == "opt":
                    seq(p.args[1], tm.And(c1, p.args[0]))
                    seq(p.args[2], tm.And(c1, tm.Not(p.args[0])))
                else:
                    bad.append((c1, p))

    def triple(y, c):
        if y.op != "cat" or len(y.args) != 3 or any(q.op != "one" for q in y.args):
            bad.append((c, y))
            return
        rv, post, upd = [q.args[0] for q in y.args]
        for c1, r in arms(rv, c):
            out.append(Step(r, simplify(post, c1), simplify(upd, c1), c1))

    for c, leaf in arms(F.term):
        if leaf is tm.NONE or leaf is tm.FALSE:
            continue
        seq(leaf, c)
    return out, bad


def inputs(x):
    return tm.mk("attr", tm.mk("attr", x, "owner"), "inputs")


def inp(x, k):
    return tm.mk("idx", inputs(x), tm.const(k))


def node_input(k):
    return tm.mk("idx", tm.mk("attr", NODE, "inputs"), tm.const(k))


def rv_term(t):
    """``(family, srng, params)`` of a draw."""
    if t.op != "new" or t.args[1].op != "rv":
        return None
    c = t.args[1]
    kw = {}
    for a in c.args[2:]:
        if isinstance(a, T) and a.op == "kw":
            kw[a.args[0]] = a.args[1]
        else:
            return None
    return c.args[0], c.args[1], kw


def without(t, *names):
    """A draw without some of its keywords."""
    c = t.args[1]
    return tm.raw("new", t.args[0], tm.raw("rv", *[a for a in c.args if not (isinstance(a, T) and a.op == "kw" and a.args[0] in names)]))


def graph_paths(t, stop):
    """The maximal paths rooted at the matched node that ``t`` depends on by value."""
    out, seen = [], set()
    todo = [t]
    while todo:
        x = todo.pop()
        if not isinstance(x, T) or x.id in seen or x in stop:
            continue
        seen.add(x.id)
        if x.op in ("idx", "attr", "at") and _rooted(x):
            # what a variable was computed from isn't determined by its value
            y, covered = x, False
            while y.op in ("idx", "attr", "at"):
                covered = covered or y in stop
                if y.op == "attr" and y.args[1] == "owner":
                    break
                y = y.args[0]
            if not covered and not _static(x):
                out.append(x)
            continue
        if x.op == "ite":
            todo += [x.args[1], x.args[2]]
            continue
        todo += [a for a in x.args if isinstance(a, T)]
    return out


def _rooted(x):
    while x.op in ("idx", "attr", "at"):
        x = x.args[0]
    return x is NODE


def _static(x):
    while x.op in ("idx", "attr", "at"):
        if x.op == "attr" and x.args[1] in ("type", "op", "name", "ndim", "dtype", "broadcastable"):
            return True
        x = x.args[0]
    return False
