"""Relations without the recorded findings."""
import aesara.tensor as at
from etuples import etuple, etuplize
from kanren import eq, lall
from unification import var


def relation(x, y, scale):
    c, rng, size, dtype = var(), var(), var(), var()
    a = etuple(etuplize(at.random.invgamma), rng, size, dtype, at.as_tensor(1.0), c)
    e = etuple(etuplize(at.random.exponential), scale(c), rng=rng, size=size, dtype=dtype)
    return lall(eq(x, a), eq(y, etuple(at.true_divide, at.as_tensor(1.0), e)))


def invgamma_exponential(in_expr, out_expr):
    return relation(in_expr, out_expr, lambda c: etuple(at.true_divide, at.as_tensor(1.0), c))


def invgamma_exponential_reciprocal(in_expr, out_expr):
    return relation(in_expr, out_expr, lambda c: etuple(at.reciprocal, c))
