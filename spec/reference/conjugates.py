"""Conjugate pairs.

Gamma(a, scale s) with Poisson(l): l^(a-1) e^(-l/s) l^y e^(-l).
Beta(a, b) with Binomial(n, p): p^(a-1) (1-p)^(b-1) p^y (1-p)^(n-y).
Beta(a, b) with NB(n, p) (y failures before the n-th success): p^n (1-p)^y.
"""


def gamma_poisson(srng, alpha, scale, y):
    return srng.gamma(alpha + y, 1 + 1 / scale)


def beta_binomial(srng, alpha, beta, n, y):
    return srng.beta(alpha + y, beta + (n - y))


def beta_negative_binomial(srng, alpha, beta, n, y):
    return srng.beta(alpha + n, beta + y)


def beta_negative_binomial_k4(srng, alpha, beta, n, y):
    # known finding K4: as if `p` were the probability of failure
    return srng.beta(alpha + y, beta + n)
