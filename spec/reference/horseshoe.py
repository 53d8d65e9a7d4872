"""Inverse-gamma mixture steps for the horseshoe prior.

beta_j ~ N(0, lambda_j² tau² sigma²), lambda_j² | nu_j ~ IG(1/2, 1/nu_j),
nu_j ~ IG(1/2, 1), and the same for tau² with xi.
"""
import aesara.tensor as at


def horseshoe(srng, beta, sigma2, lambda2, tau2):
    nu = srng.invgamma(1, 1 + 1 / lambda2)
    xi = srng.invgamma(1, 1 + 1 / tau2)
    new_lambda2 = srng.invgamma(1, 1 / nu + beta**2 / (2 * tau2 * sigma2))
    new_tau2 = srng.invgamma(
        (beta.shape[0] + 1) / 2,
        1 / xi + at.sum(beta**2 / new_lambda2) / (2 * sigma2),
    )
    return at.sqrt(new_lambda2), at.sqrt(new_tau2)


def horseshoe_model(srng, beta, lam, tau):
    # beta ~ N(0, lam² tau²)
    return horseshoe(srng, beta, 1.0, lam**2, tau**2)
