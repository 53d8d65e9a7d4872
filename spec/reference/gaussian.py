"""Gaussian linear models, in moment form.

``primal`` and ``dual`` are the same distribution (the Woodbury and
push-through identities); an implementation has to agree with one of them.
"""
import aesara.tensor as at


def primal(srng, precision, omega, X, z):
    """N(P^-1 X' (omega z), P^-1) with P = diag(precision) + X' diag(omega) X."""
    P = at.diag(precision) + X.T @ at.diag(omega) @ X
    return srng.multivariate_normal(
        mean=at.linalg.inv(P) @ (X.T @ (omega * z)), cov=at.linalg.inv(P)
    )


def dual(srng, precision, omega, X, z):
    D = at.diag(1 / precision)
    K = at.diag(1 / omega) + X @ D @ X.T
    return srng.multivariate_normal(
        mean=D @ X.T @ at.linalg.inv(K) @ z,
        cov=D - D @ X.T @ at.linalg.inv(K) @ X @ D,
    )


def canonical(srng, b, Q):
    """N(Q^-1 b, Q^-1)."""
    return srng.multivariate_normal(mean=at.linalg.inv(Q) @ b, cov=at.linalg.inv(Q))


# Regressions: (precision, omega, X, z) from the quantities of each model


def regression_primal(srng, omega, lmbdatau_inv, X, z):
    return primal(srng, lmbdatau_inv**2, omega, X, z)


def regression_dual(srng, omega, lmbdatau_inv, X, z):
    return dual(srng, lmbdatau_inv**2, omega, X, z)


def cong_primal(rng, A, omega, phi, t):
    return primal(rng, A, omega, phi, t)


def cong_dual(rng, A, omega, phi, t):
    return dual(rng, A, omega, phi, t)
