"""Expression tuples, unification and relational goals, as path conditions.

A pattern that is unified with a variable's graph denotes conditions on the
paths of that graph (`owner.op`, `owner.inputs[i]`) and bindings of logic
variables to paths.
"""
import itertools

from . import terms as tm
from . import vals as v
from .terms import FALSE, NONE, TRUE, And, Not, Or, T, atom, const, glob, ite, lift, map_leaves, mk, raw

_lv = itertools.count(1)


def install(MODELS):
    MODELS["log:var"] = m_var
    MODELS["log:vars"] = m_vars
    MODELS["log:etuple"] = m_etuple
    MODELS["log:etuplize"] = m_etuplize
    MODELS["log:unify"] = m_unify
    MODELS["log:eq"] = lambda I, a, k: raw("goal", "eq", *[I.freeze(p.args[0]) for p in a])
    MODELS["log:lall"] = m_lall
    MODELS["log:conde"] = m_conde
    MODELS["log:lany"] = lambda I, a, k: raw("goal", "or", *[I.freeze(p.args[0]) for p in a])
    MODELS["log:run"] = m_run
    MODELS["ae:eval_if_etuple"] = m_eval
    MODELS["log:reify"] = lambda I, a, k: reify(I.freeze(a[0].args[0]), subst_of(I.freeze(a[1].args[0])))


def m_var(I, args, kw):
    return raw("lv", next(_lv))


def m_vars(I, args, kw):
    n = args[0].args[0].args[0]
    return v.tup(*[raw("lv", next(_lv)) for _ in range(n)])


def m_etuple(I, args, kw):
    from .models import fargs

    xs = []
    for p in args:
        x = p.args[0] if p.op == "one" else p
        if x.op == "ref" and I.cell(x).kind == "obj":
            x = I.freeze(x)
        elif x.op in ("ref", "slot"):
            x = I.freeze(x)
        xs.append(x)
    kws = [raw("kw", k, kw[k] if kw[k].op == "lv" else I.freeze(kw[k])) for k in sorted(kw)]
    return raw("et", raw("args", *xs), *kws)


def m_etuplize(I, args, kw):
    x = args[0].args[0]
    if x.op == "ite":
        return I.lift_eval(lambda y: m_etuplize(I, [v.one(y)], kw), x)
    if x.op == "glob":
        return raw("etop", x)
    if x.op == "ref":
        return raw("etop", I.freeze(x))
    if x.op in ("et", "etz", "etop"):
        return x
    if x.op == "attr" and x.args[1] == "op":
        return raw("etop", x)
    if I.implicit:
        from .models import attr

        c = v.isnone(attr(I, x, "owner"))
        if kw.get("shallow") is None:
            I.raise_if(c, "TypeError")
    return raw("etz", x)


def subst_of(t):
    if t.op == "dct":
        return {p.args[0]: p.args[1] for p in t.args if p.op == "kv"}
    return {}


def head_args(et):
    xs = et.args[0].args
    return xs[0], list(xs[1:]), list(et.args[1:])


def op_condition(I, opt, head):
    """Condition that the operation ``opt`` unifies with a pattern's head."""
    from .models import opmatch

    if head.op == "etop":
        return opmatch(opt, head.args[0])
    if head.op == "et":
        h, a, k = head_args(head)
        if not a and not k:
            from .models import isinst

            if h.op == "glob":
                return isinst(opt, h)
            return isinst(opt, h)
        return atom(raw("opunify", opt, head))
    if head.op == "glob":
        return opmatch(opt, head)
    return v.eq(opt, head)


def strip(t):
    return t.args[0] if t.op == "etz" else t


def is_path(t):
    return t.op in ("idx", "attr", "sym", "etz", "new", "kout", "img", "at", "bv")


class Unifier:
    def __init__(self, I):
        self.I = I
        self.sub = {}
        self.cond = TRUE

    def walk(self, t):
        while t.op == "lv" and t in self.sub:
            t = self.sub[t]
        return t

    def need(self, c):
        self.cond = And(self.cond, c)

    def unify(self, a, b):
        a, b = self.walk(a), self.walk(b)
        if a is b:
            return
        if a.op == "lv":
            self.sub[a] = b
            return
        if b.op == "lv":
            self.sub[b] = a
            return
        if a.op == "ite" or b.op == "ite":
            self.need(atom(raw("unifies", a, b)))
            return
        if a.op == "et" and b.op == "et":
            ha, xa, ka = head_args(a)
            hb, xb, kb = head_args(b)
            if len(xa) != len(xb) or [k.args[0] for k in ka] != [k.args[0] for k in kb]:
                self.need(FALSE)
                return
            self.unify(ha, hb)
            for x, y in zip(xa, xb):
                self.unify(x, y)
            for x, y in zip(ka, kb):
                self.unify(x.args[1], y.args[1])
            return
        if a.op == "et":
            a, b = b, a
        if b.op == "et":
            self.path(strip(a), b)
            return
        a, b = strip(a), strip(b)
        from .models import opmatch

        for p, q in ((a, b), (b, a)):
            if p.op == "etop":
                self.need(op_condition(self.I, q.args[0] if q.op == "etop" else q, p))
                return
        self.need(v.eq(a, b))

    def path(self, x, pat):
        """Unify the graph of the variable ``x`` with an expression pattern."""
        from .models import RVARITY, RVNAMES

        I = self.I
        if x.op == "const":
            self.need(FALSE)
            return
        head, args, kws = head_args(pat)
        owner = owner_of(x)
        self.need(Not(v.isnone(owner)))
        op = raw("attr", owner, "op") if owner.op != "knode" else owner
        if kws:
            self.need(FALSE)
            return
        h = self.walk(head)
        if h.op == "lv":
            self.sub[h] = op
        else:
            self.need(op_condition(I, op, h))
        n = None
        g = h.args[0] if h.op == "etop" else h
        if g.op == "glob" and g.args[0].startswith("rnd:"):
            n = 3 + RVARITY[RVNAMES[g.args[0][4:]][0]]
        elif h.op == "et" and head_args(h)[0] is glob("ae:Dot"):
            n = 2
        elif g.op == "glob" and g.args[0] in ("ae:sigmoid", "ae:exp", "ae:log", "ae:neg"):
            n = 1
        inputs = raw("attr", owner, "inputs")
        if n is not None:
            if n != len(args):
                self.need(FALSE)
                return
        else:
            self.need(v.eq(v.length(inputs), const(len(args))))
        for k, p in enumerate(args):
            self.unify(raw("etz", raw("idx", inputs, const(k))), p)


def owner_of(x):
    if x.op == "idx" and x.args[0].op == "attr" and x.args[0].args[1] == "outputs":
        return x.args[0].args[0]
    return raw("attr", x, "owner")


def m_unify(I, args, kw):
    a, b = I.freeze(args[0].args[0]), I.freeze(args[1].args[0])

    def go(a, b):
        u = Unifier(I)
        u.unify(a, b)
        d = v.dct(*[v.kv(k, strip(reify(x, u.sub))) for k, x in sorted(u.sub.items(), key=lambda kx: kx[0].id)])
        return ite(u.cond, d, FALSE)

    return lift(go, a, b)


def reify(t, sub, depth=0):
    if depth > 30:
        return t
    if t.op == "lv":
        if t in sub:
            return reify(sub[t], sub, depth + 1)
        return t
    if t.op in ("et", "args", "kw", "etop", "cat", "one"):
        new = [reify(a, sub, depth + 1) if isinstance(a, T) else a for a in t.args]
        if t.op == "cat":
            return v.cat(*new)
        return raw(t.op, *new)
    return t


def m_lall(I, args, kw):
    return raw("goal", "and", *[I.freeze(p.args[0]) if p.op == "one" else p for p in args])


def m_conde(I, args, kw):
    alts = []
    for p in args:
        x = I.deref(p.args[0])
        alts.append(raw("goal", "and", *[I.freeze(q.args[0]) for q in x.args]))
    return raw("goal", "or", *alts)


def flat_goals(g):
    if g.op == "goal" and g.args[0] == "and":
        out = []
        for h in g.args[1:]:
            out.extend(flat_goals(h))
        return out
    return [g]


def solve(I, q, goals):
    """``[(condition, value of q)]`` for the answers of a conjunction."""
    alts = [[]]
    for g in goals:
        for h in flat_goals(g):
            if h.op == "goal" and h.args[0] == "or":
                alts = [a + flat_goals(x) for a in alts for x in h.args[1:]]
            else:
                alts = [a + [h] for a in alts]
    out = []
    for alt in alts:
        u = Unifier(I)
        ok = True
        rels = []
        for g in alt:
            if g.op == "goal" and g.args[0] == "eq":
                u.unify(g.args[1], g.args[2])
            elif g.op == "goal" and g.args[0] == "rel":
                rels.append(g)
            else:
                ok = False
        for g in rels:
            x = reify(g.args[2], u.sub)
            rel = g.args[1]
            facts = rel.args[0] if rel.args else v.SEMPTY
            c = FALSE
            for p in facts.args:
                f = p.args[0].args[0].args[0]
                c = Or(c, op_condition(I, x, raw("etop", f)))
            u.need(c)
        if not ok:
            return None
        out.append((u.cond, reify(q, u.sub), u))
    return out


def m_run(I, args, kw):
    xs = [p.args[0] for p in args]
    q = I.freeze(xs[1])
    goals = [I.freeze(g) for g in xs[2:]]
    r = solve(I, q, goals)
    if r is None:
        return v.cat(v.spl(mk("call", "log:run", q, *goals)))
    return v.cat(*[raw("opt", c, v.tup(val), v.EMPTY) for c, val, _ in r])


def m_eval(I, args, kw):
    x = args[0].args[0]
    return I.lift_eval(lambda y: evaluate(I, y), x) if x.op == "ite" else evaluate(I, x)


def evaluate(I, x):
    if x.op == "etz":
        return x.args[0]
    if x.op == "etop":
        return x.args[0]
    if x.op != "et":
        return x
    head, args, kws = head_args(x)
    h = evaluate(I, head) if head.op in ("et",) else head
    if h.op == "etop":
        h = h.args[0]
    vals = [v.one(evaluate(I, a)) for a in args]
    kw = {k.args[0]: evaluate(I, k.args[1]) for k in kws}
    if h.op == "attr" and h.args[1] == "op" or h.op == "obj":
        from .models import draw

        return draw(I, h, NONE, vals, kw)
    return I.call(h, vals, kw)
