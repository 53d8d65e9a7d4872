"""Polya-Gamma augmented logistic regressions.

With ``p(y | psi) ∝ exp(psi)^a / (1 + exp(psi))^b`` and ``w ~ PG(b, psi)``, the
likelihood is ``exp(kappa psi - w psi² / 2)``, ``kappa = a - b / 2``.
"""
import aesara.tensor as at

from reference.gaussian import dual, primal
from reference.rvs import polyagamma


def bernoulli_primal(srng, beta, beta_std, X, y):
    # a = y, b = 1
    w = srng.gen(polyagamma, 1, X @ beta)
    return primal(srng, 1 / beta_std**2, w, X, (y - 1 / 2) / w)


def bernoulli_dual(srng, beta, beta_std, X, y):
    w = srng.gen(polyagamma, 1, X @ beta)
    return dual(srng, 1 / beta_std**2, w, X, (y - 1 / 2) / w)


def nbinom_primal(srng, beta, beta_std, X, h, y):
    # a = y, b = y + h
    w = srng.gen(polyagamma, y + h, X @ beta)
    return primal(srng, 1 / beta_std**2, w, X, (y - (y + h) / 2) / w)


def nbinom_dual(srng, beta, beta_std, X, h, y):
    w = srng.gen(polyagamma, y + h, X @ beta)
    return dual(srng, 1 / beta_std**2, w, X, (y - (y + h) / 2) / w)


def pg_bernoulli(srng, beta, beta_std, X, y):
    return srng.gen(polyagamma, 1, X @ beta)


def pg_nbinom(srng, beta, beta_std, X, h, y):
    return srng.gen(polyagamma, y + h, X @ beta)


def bernoulli_model_primal(srng, beta, beta_std, X, y):
    # success probability sigmoid(-X beta): a = y, b = 1, psi = -X beta
    return bernoulli_primal(srng, beta, beta_std, -X, y)


def bernoulli_model_dual(srng, beta, beta_std, X, y):
    return bernoulli_dual(srng, beta, beta_std, -X, y)


def nbinom_model_primal(srng, beta, beta_std, X, h, y):
    # NB(h, p) is proportional to p^h (1 - p)^y, and p = sigmoid(-X beta):
    # the probability of the counted event is sigmoid(X beta)
    return nbinom_primal(srng, beta, beta_std, X, h, y)


def nbinom_model_dual(srng, beta, beta_std, X, h, y):
    return nbinom_dual(srng, beta, beta_std, X, h, y)
