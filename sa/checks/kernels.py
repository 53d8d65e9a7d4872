"""C02-C07: the sampling kernels draw from the distributions they document."""
import math

from .. import kernels as kn
from .. import poly as P
from .. import terms as tm
from ..program import Program, reference

RULE = (
    "the value-flow term of each alternative of the kernel is evaluated to index-notation polynomials over its inputs and "
    "its draws, and has to coincide, up to the identity of the draws, with a kernel written down from first principles"
)


def compare(rep, prog, mod, name, args, refs, decl, known=(), **opts):
    S = reference()
    fn = prog.get(mod, name)
    t, exits, _ = prog.call(fn, args)
    rs = [S.result("reference." + m, n, args) for m, n in refs]
    ks = [(kid, S.result("reference." + m, n, args)) for kid, m, n in known]
    where = prog.location(fn)
    rep.count("functions compared")
    for e in exits:
        if e.kind == "raise":
            rep.undecided(f"{name}/raises", where, "the function may raise")
    stream = next((a for a in args if a in ("srng", "rng")), None)
    if stream is not None:
        kn.streams(rep, name, where, t, tm.sym(stream))
    suffix = "".join(f"[{k}:{d}]" for k, d in decl.items() if k == "h")
    return kn.check(rep, f"{name}{suffix}", where, t, rs, decl, known=ks, **opts)


def c02(rep):
    rep.rule(RULE)
    rep.assume("the linear predictor's design matrix has shape (n, p) and the weights, observations and scales are vectors")
    prog = Program()
    args = ["srng", "omega", "lmbdatau_inv", "X", "z"]
    decl = dict(omega="n", lmbdatau_inv="p", X="np", z="n")
    refs = [("gaussian", "regression_primal"), ("gaussian", "regression_dual")]
    compare(rep, prog, "aemcmc.gibbs", "normal_regression_posterior", args, refs, decl, gauss=True)
    rep.count("functions analysed", prog.functions())
    choice(rep, args)


def choice(rep, args):
    """The algorithm for more coefficients than observations is used exactly for these."""
    rep.rule(
        "the condition that gates the two algorithms is evaluated for numbers of rows and columns from 1 to 6; it has to "
        "hold exactly when there are more columns, which for a comparison of linear expressions decides it for all"
    )
    stubs = {
        "aemcmc.dists.multivariate_normal_cong2017": lambda I, a, k: tm.raw("call", "DUAL"),
        "aemcmc.dists.multivariate_normal_rue2005": lambda I, a, k: tm.raw("call", "PRIMAL"),
    }
    prog = Program(stubs=stubs)
    fn = prog.get("aemcmc.gibbs", "normal_regression_posterior")
    t, _, _ = prog.call(fn, args)
    key, where = "normal_regression_posterior/choice of the algorithm", prog.location(fn)
    marks = [x for x in tm.leaves(t) if x.op == "call" and x.args[0] in ("DUAL", "PRIMAL")]
    if len(marks) != len(list(tm.leaves(t))):
        rep.undecided(key, where, "the algorithms aren't recognised")
        return
    for n in range(1, 7):
        for p in range(1, 7):
            dims = {"X": (n, p), "omega": (n,), "z": (n,), "lmbdatau_inv": (p,)}
            got = select(t, dims)
            if got is None:
                rep.undecided(key, where, f"the condition isn't a comparison of dimensions: {tm.show(t)[:200]}")
                return
            if (got.args[0] == "DUAL") != (p > n):
                rep.violation(key, where, f"with {n} rows and {p} columns the {got.args[0].lower()} algorithm is used")
                return
    rep.ok(key, where)


def select(t, dims):
    while t.op == "ite":
        b = truth(t.args[0], dims)
        if b is None:
            return None
        t = t.args[1] if b else t.args[2]
    return t


def truth(c, dims):
    if c.op == "truthy":
        return truth(c.args[0], dims)
    if c.op in ("lt", "eq"):
        a, b = (number(x, dims) for x in c.args)
        return None if a is None or b is None else a < b if c.op == "lt" else a == b
    if c.op == "ite":
        b = truth(c.args[0], dims)
        return None if b is None else truth(c.args[1] if b else c.args[2], dims)
    if c in (tm.TRUE, tm.FALSE):
        return c is tm.TRUE
    return None


def number(x, dims):
    if tm.is_const(x):
        return x.args[0]
    if x.op in ("idx", "at") and tm.is_const(x.args[1]) and x.args[0].op == "attr" and x.args[0].args[1] == "shape":
        a = x.args[0].args[0]
        d = dims.get(a.args[0]) if a.op == "sym" else None
        k = x.args[1].args[0]
        return d[k] if d is not None and isinstance(k, int) and -len(d) <= k < len(d) else None
    if x.op in ("add", "mul"):
        xs = [number(a, dims) for a in x.args]
        if None in xs:
            return None
        return sum(xs) if x.op == "add" else math.prod(xs)
    return None


def c03(rep):
    rep.rule(RULE)
    rep.assume("precision matrices are symmetric positive definite, `A` and `omega` positive")
    prog = Program()
    P.SYMMETRIC.add("Q")
    try:
        compare(
            rep, prog, "aemcmc.dists", "multivariate_normal_rue2005", ["srng", "b", "Q"],
            [("gaussian", "canonical")], dict(b="p", Q="pp"), gauss=True,
        )
    finally:
        P.SYMMETRIC.discard("Q")
    compare(
        rep, prog, "aemcmc.dists", "multivariate_normal_cong2017", ["rng", "A", "omega", "phi", "t"],
        [("gaussian", "cong_primal"), ("gaussian", "cong_dual")], dict(omega="n", A="p", phi="np", t="n"), gauss=True,
    )
    rep.count("functions analysed", prog.functions())


def c04(rep):
    rep.rule(RULE)
    rep.assume("PG(h, z) is even in z, and exp(psi)^a / (1 + exp(psi))^b = 2^-b exp((a - b/2) psi) E[exp(-w psi^2 / 2)], w ~ PG(b, 0)")
    prog = Program()
    compare(
        rep, prog, "aemcmc.gibbs", "bern_normal_posterior", ["srng", "beta", "beta_std", "X", "y"],
        [("logistic", "bernoulli_primal"), ("logistic", "bernoulli_dual")],
        dict(beta="p", beta_std="p", X="np", y="n"), gauss=True,
    )
    for h in ("", "n"):
        compare(
            rep, prog, "aemcmc.gibbs", "nbinom_normal_posterior", ["srng", "beta", "beta_std", "X", "h", "y"],
            [("logistic", "nbinom_primal"), ("logistic", "nbinom_dual")],
            dict(beta="p", beta_std="p", X="np", y="n", h=h), gauss=True,
        )
    rep.count("functions analysed", prog.functions())


def c05(rep):
    rep.rule(RULE)
    prog = Program()
    compare(
        rep, prog, "aemcmc.gibbs", "horseshoe_posterior", ["srng", "beta", "sigma2", "lambda2", "tau2"],
        [("horseshoe", "horseshoe")], dict(beta="p", sigma2="", lambda2="p", tau2=""), components=[0, 1],
    )
    rep.count("functions analysed", prog.functions())


def c06(rep):
    rep.rule(RULE)
    prog = Program()
    compare(
        rep, prog, "aemcmc.gibbs", "sample_CRT", ["srng", "y", "h"], [("dispersion", "crt")],
        dict(y="n", h=""), components=[0], integers=("y",),
    )
    compare(
        rep, prog, "aemcmc.gibbs", "sample_CRT", ["srng", "y", "h"], [("dispersion", "crt_many")],
        dict(y="mn", h=""), components=[0], integers=("y",),
    )
    compare(
        rep, prog, "aemcmc.gibbs", "nbinom_dispersion_posterior", ["srng", "h", "p", "a", "b", "y"],
        [("dispersion", "dispersion")], dict(y="n", h="", p="n", a="", b=""), components=[0], integers=("y",),
        known=[("K1", "dispersion", "dispersion_k1")],
    )
    rep.count("functions analysed", prog.functions())


def c07(rep):
    rep.rule(RULE)
    rep.rule("linear recurrences are compared up to positive factors that do not depend on the state")
    prog = Program(modules=("aemcmc", "aemcmc.ffbs"))
    for matrices in ("NMM", "1MM"):
        compare(
            rep, prog, "aemcmc.ffbs", "ffbs_step", ["gamma_0", "Gammas", "log_lik", "srng"], [("ffbs", "ffbs")],
            dict(gamma_0="M", Gammas=matrices, log_lik="MN"), components=[0], projective=True, also=backward_updates,
        )
    rep.count("functions analysed", prog.functions())


def backward_updates(rep, key, where, t):
    """The second result is the mapping of updates of the scan that draws the states."""
    u = kn.component(t, 1)
    key += "/updates"
    scans = [x for x in kn.subterms(kn.component(t, 0)) if x.op == "scan"]
    drawing = [x for x in scans if any(y.op == "rvout" or y.op == "new" for y in kn.subterms(x))]
    rep.count("scans", len(scans))
    if u is not None and u.op == "dct" and all(p.op == "dspl" and p.args[0].op == "scanupd" for p in u.args):
        # a copy, perhaps with the (empty) updates of the other passes
        mine = [p.args[0] for p in u.args if p.args[0].args[0] in drawing]
        if len(mine) == 1:
            u = mine[0]
    if u is None:
        rep.violation(key, where, "there are no updates")
    elif u.op == "scanupd" and u.args[0] in drawing and t.op == "cat":
        rep.ok(key, where)
    elif kn.is_unknown(u):
        rep.undecided(key, where, "not modelled")
    else:
        rep.violation(key, where, f"the updates are {tm.show(u)[:100]}, which aren't those of the pass that draws the states")


CHECKS = dict(C02=c02, C03=c03, C04=c04, C05=c05, C06=c06, C07=c07)
